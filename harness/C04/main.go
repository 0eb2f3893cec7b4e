// C04: configured limits hold exactly, for every request of a connection.
package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
)

type verdict int

const (
	served verdict = iota
	refused
	either
)

// kind is a limit: how to configure it, a request that uses n of it, and the verdict.
type kind struct {
	name string
	code []int
	lo   int // smallest use a request may make
	set  func(cfg *config.Config, limit, prealloc int)
	// make builds a request with a use of n; flavour is a number in [0; flavours)
	make     func(n, flavour int) (req string, sure, maybe int)
	flavours int
	min      int // smallest limit
}

func rep(n int) string {
	if n < 0 {
		n = 0
	}
	return strings.Repeat("abcdefghij", n/10+1)[:n]
}

// sure is the amount that certainly counts, maybe is the amount if everything around counts, too.
var kinds = []kind{
	{"url", []int{414, 400}, 10, func(c *config.Config, l, p int) { c.URL.BufferSize = config.URLBufferSize{Default: p, Maximal: l} },
		func(n, f int) (string, int, int) {
			target := "/" + rep(n-10)
			if f == 1 && n > 13 {
				target = "/a?" + rep(n-12)
			}
			if f == 2 && n > 16 {
				target = "/%41" + rep(n-13)
			}
			n = len(target) + 9
			eol, extra := "\r\n", 1
			if f == 3 {
				eol, extra = "\n", 0
			}
			method := "GET"
			if f == 4 {
				method = "OPTIONS"
			}
			return method + " " + target + " HTTP/1.1" + eol + eol, n, n + extra
		}, 5, 10},
	{"number", []int{431}, 0, func(c *config.Config, l, p int) { c.Headers.Number = config.HeadersNumber{Default: p, Maximal: l} },
		func(n, f int) (string, int, int) {
			s := "GET / HTTP/1.1\r\n"
			for i := 0; i < n; i++ {
				switch {
				case f == 1 && i == n/2:
					s += "Content-Length: 0\r\n"
				case f == 2:
					s += "Same: 1\r\n"
				default:
					s += fmt.Sprintf("K%d: v\r\n", i)
				}
			}
			return s + "\r\n", n, n
		}, 3, 1},
	{"key", []int{431}, 1, func(c *config.Config, l, p int) { c.Headers.MaxKeyLength = l },
		func(n, f int) (string, int, int) {
			h := rep(n) + ": v\r\n"
			switch f {
			case 1:
				h = "A: b\r\n" + h
			case 2:
				h = h + "A: b\r\n"
			case 3:
				h = rep(n) + ":v\r\n" + rep(n) + ": w\r\n"
			}
			return "GET / HTTP/1.1\r\n" + h + "\r\n", n, n
		}, 4, 1},
	{"value", []int{431}, 1, func(c *config.Config, l, p int) { c.Headers.MaxValueLength = l },
		func(n, f int) (string, int, int) {
			sp, eol := " ", "\r\n"
			switch f {
			case 1:
				sp, eol = "", "\n"
			case 2:
				sp = "   "
			}
			h := "K:" + sp + rep(n) + eol
			if f == 3 {
				h = "A: b\r\n" + h
			}
			return "GET / HTTP/1.1" + eol + h + eol, n, n + len(sp) + len(eol) - 1
		}, 4, 4},
	{"keyspace", []int{431}, 1, func(c *config.Config, l, p int) { c.Headers.KeySpace = config.HeadersKeysSpace{Default: p, Maximal: l} },
		func(n, f int) (string, int, int) {
			s := "GET / HTTP/1.1\r\n"
			parts := []int{n}
			switch f {
			case 1:
				parts = []int{n / 2, n - n/2}
			case 2:
				parts = []int{n / 3, n / 3, n - 2*(n/3)}
			}
			for _, k := range parts {
				if k > 0 {
					s += rep(k) + ": value\r\n"
				}
			}
			return s + "\r\n", n, n
		}, 3, 1},
	{"valuespace", []int{431}, 1, func(c *config.Config, l, p int) {
		c.Headers.ValueSpace = config.HeadersValuesSpace{Default: p, Maximal: l}
	},
		func(n, f int) (string, int, int) {
			s := "GET / HTTP/1.1\r\n"
			parts := []int{n}
			switch f {
			case 1:
				parts = []int{n / 2, n - n/2}
			case 2:
				parts = []int{n / 3, n / 3, n - 2*(n/3)}
			}
			all := 0
			for i, k := range parts {
				s += fmt.Sprintf("K%d: ", i) + rep(k) + "\r\n"
				all += k + 2
			}
			return s + "\r\n", n, all
		}, 3, 6},
	{"encodings", []int{415}, 0, func(c *config.Config, l, p int) { c.Headers.MaxEncodingTokens = l },
		func(n, f int) (string, int, int) {
			name := []string{"Content-Encoding", "Transfer-Encoding", "content-encoding", "Transfer-Encoding"}[f]
			s := "GET / HTTP/1.1\r\n"
			if f < 2 {
				s += name + ": " + strings.TrimSuffix(strings.Repeat("x, ", n), ", ") + "\r\n"
			} else {
				for i := 0; i < n; i++ {
					s += name + ": y\r\n"
				}
			}
			return s + "\r\n", n, n
		}, 4, 1},
}

// bodies are limited differently: the request reaches the handler, the body does not.
var framings = []string{"length", "one chunk", "one chunk, trailers", "chunks of 1", "chunks of 2", "chunks of 2, trailers"}

func bodyReq(n int, framing string) string {
	body := rep(n)
	if framing == "length" {
		return fmt.Sprintf("POST /b HTTP/1.1\r\nContent-Length: %d\r\n\r\n%s", n, body)
	}
	framing, trailers := strings.TrimSuffix(framing, ", trailers"), strings.HasSuffix(framing, ", trailers")
	size := map[string]int{"one chunk": n, "chunks of 1": 1, "chunks of 2": 2}[framing]
	s := "POST /b HTTP/1.1\r\nTransfer-Encoding: chunked\r\n"
	if trailers {
		s += "Trailer: Sum\r\n"
	}
	s += "\r\n"
	for len(body) > 0 {
		k := size
		if k > len(body) {
			k = len(body)
		}
		s += fmt.Sprintf("%x\r\n%s\r\n", k, body[:k])
		body = body[k:]
	}
	if trailers {
		return s + "0\r\nSum: 12\r\n\r\n"
	}
	return s + "0\r\n\r\n"
}

// sized is a request with a body of n bytes, in chunks of a size unless it's zero.
func sized(n, size int) string {
	body := rep(n)
	if size == 0 {
		return fmt.Sprintf("POST /b HTTP/1.1\r\nContent-Length: %d\r\n\r\n%s", n, body)
	}
	var s strings.Builder
	s.WriteString("POST /b HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n")
	for len(body) > 0 {
		k := size
		if k > len(body) {
			k = len(body)
		}
		fmt.Fprintf(&s, "%x\r\n%s\r\n", k, body[:k])
		body = body[k:]
	}
	return s.String() + "0\r\n\r\n"
}

func cutAt(stream string, p int) *srv.Conn {
	return srv.NewConn(srv.Split([]byte(stream), p)...)
}

func main() {
	mc.Main("C04", func(r *mc.R) {
		r.Assume("limits count the bytes of the value itself; whether the whitespace in front of it and the CR behind it count as well is not specified, but must not depend on splits or history")
		r.Assume("the chunked-body and buffer modules are stand-ins written from their documented behaviour")
		maxLimit := mc.Bound(r, 12, 20)

		for _, k := range kinds {
			k := k
			r.Space(k.name, func(c *mc.C) error {
				limit := k.min + c.Choose(maxLimit)
				prealloc := mc.Pick(c, []int{1, limit/2 + 1, limit})
				flavour := c.Choose(k.flavours)
				n := k.lo + c.Choose(limit-k.lo+4)
				req, sure, maybe := k.make(n, flavour)
				// a history of requests that are within the limit for sure
				hist := ""
				nh := c.Choose(3)
				for i := 0; i < nh; i++ {
					m := limit
					if c.Bool() {
						m = k.lo
					}
					h, _, all := k.make(m, flavour)
					for all > limit && m > k.lo {
						m--
						h, _, all = k.make(m, flavour)
					}
					if all > limit {
						return mc.ErrSkip
					}
					hist += h
				}
				cfg := srv.Config()
				cfg.URL.BufferSize.Maximal = 200
				cfg.TCP.ReadBufferSize = 2048
				k.set(&cfg, limit, prealloc)
				const next = "GET / HTTP/1.1\r\n\r\n"
				tail := next
				if k.name == "url" && limit < 11 {
					tail = ""
				}
				stream := hist + req + tail
				// cut inside of the request
				var conn *srv.Conn
				p := c.Choose(len(req) + 2)
				switch p {
				case len(req):
					conn = srv.NewConn(srv.Bytewise([]byte(stream))...)
				case len(req) + 1:
					conn = srv.NewConn(srv.Bytewise([]byte(req))...)
					conn.Pieces = append([][]byte{[]byte(hist)}, conn.Pieces...)
					conn.Pieces = append(conn.Pieces, []byte(tail))
				default:
					conn = cutAt(stream, len(hist)+p)
				}
				want := either
				if maybe <= limit {
					want = served
				} else if sure > limit {
					want = refused
				}
				key := fmt.Sprintf("%s %d of %d flavour %d history %d", k.name, n, limit, flavour, nh)
				c.Note("%s (prealloc %d, cut %d): %q", key, prealloc, p, stream)
				rec := &srv.Rec{Mode: "none", Respond: func(n int, r *http.Request, desc, body string, err error) *http.Response { return http.String(r, "ok") }}
				obs, err := srv.Observe(cfg, conn, rec)
				c.Steps(1 + len(obs.Reqs))
				if err != nil {
					return mc.Failf("panic:"+key, "%v", err)
				}
				c.State(fmt.Sprintf("%s|%d|%d|%d|%d", key, prealloc, len(obs.Reqs), nh, p))
				if len(obs.Reqs) < nh {
					return mc.Failf(key, "a preceding request within the limit is refused: %s", obs)
				}
				more := 0
				if tail != "" {
					more = 1
				}
				ok := len(obs.Reqs) == nh+1+more
				var code int
				resps, perr := srv.ParseAll([]byte(obs.Out))
				if perr != nil {
					return mc.Failf(key, "malformed output %v: %s", perr, obs)
				}
				if len(resps) > nh {
					code = resps[nh].Code
				}
				isRefusal := false
				for _, cd := range k.code {
					isRefusal = isRefusal || cd == code
				}
				rejected := len(obs.Reqs) == nh && len(resps) == nh+1 && isRefusal
				switch {
				case !ok && !rejected:
					return mc.Failf(key, "neither served nor refused with %v: %s", k.code, obs)
				case want == served && !ok:
					return mc.Failf(key, "a request within the limit is refused: %s", obs)
				case want == refused && !rejected:
					return mc.Failf(key, "a request beyond the limit is served: %s", obs)
				}
				if want == either {
					// as on a fresh connection at once
					rec := &srv.Rec{Mode: "none"}
					obs2, err := srv.Observe(cfg, srv.NewConn([]byte(req)), rec)
					if err != nil {
						return mc.Failf("panic:"+key, "%v", err)
					}
					if fresh := len(obs2.Reqs) == 1; fresh != ok {
						return mc.Failf(key, "at once on a fresh connection served: %v, here: %v", fresh, ok)
					}
				}
				return nil
			})
		}
		modes := []string{"none", "bytes", "string", "read1", "read3", "retrieve", "callback"}
		r.Space("body", func(c *mc.C) error {
			limit := c.Choose(mc.Bound(r, 8, 14))
			n := c.Choose(limit + 4)
			framing := mc.Pick(c, framings)
			mode := mc.Pick(c, modes)
			hist := ""
			nh := c.Choose(3)
			for i := 0; i < nh; i++ {
				m := limit
				if c.Bool() {
					m = limit / 2
				}
				hist += bodyReq(m, mc.Pick(c, framings[:3]))
			}
			cfg := srv.Config()
			cfg.Body.MaxSize = uint(limit)
			req := bodyReq(n, framing)
			stream := hist + req + "GET /next HTTP/1.1\r\n\r\n"
			head := strings.Index(req, "\r\n\r\n") + 4
			var conn *srv.Conn
			p := c.Choose(len(req) - head + 2)
			if p == len(req)-head+1 {
				conn = srv.NewConn(srv.Bytewise([]byte(stream))...)
			} else {
				conn = cutAt(stream, len(hist)+head+p)
			}
			key := fmt.Sprintf("body %d of %d by %s read by %s", n, limit, framing, mode)
			c.Note("%s history %d cut %d: %q", key, nh, p, stream)
			most, lastErr := 0, error(nil)
			rec := &srv.Rec{Mode: mode, Respond: func(i int, r *http.Request, desc, body string, err error) *http.Response {
				if i == nh {
					most, lastErr = len(body), err
				}
				if err != nil {
					return http.Error(r, err)
				}
				return http.String(r, "ok")
			}}
			obs, err := srv.Observe(cfg, conn, rec)
			c.Steps(1 + len(obs.Reqs))
			if err != nil {
				return mc.Failf("panic:"+key, "%v", err)
			}
			c.State(fmt.Sprintf("%s|%d|%d", key, len(obs.Reqs), len(obs.Out)))
			if len(obs.Reqs) < nh+1 {
				return mc.Failf(key, "a request with a body within the limit is refused: %s", obs)
			}
			if most > limit {
				return mc.Failf(key, "%d bytes are delivered: %s", most, obs)
			}
			if n <= limit {
				if len(obs.Reqs) != nh+2 || lastErr != nil || mode != "none" && most != n {
					return mc.Failf(key, "a body within the limit is not delivered (%d bytes, %v): %s", most, lastErr, obs)
				}
				return nil
			}
			if len(obs.Reqs) != nh+1 {
				return mc.Failf(key, "the connection goes on behind a body beyond the limit: %s", obs)
			}
			if mode != "none" {
				if lastErr == nil {
					return mc.Failf(key, "no error is reported for a body beyond the limit: %s", obs)
				}
				if e, ok := lastErr.(status.HTTPError); !ok || e.Code != 413 {
					return mc.Failf(key, "reported as %v instead of 413", lastErr)
				}
			}
			return nil
		})
		// many requests, each at its limit: nothing adds up over a connection
		lengths := mc.Ladder(mc.Bound(r, 300, 3000))
		r.Space("long histories", func(c *mc.C) error {
			ki := c.Choose(len(kinds) + len(framings))
			length := mc.Pick(c, lengths)
			prealloc := 1 + c.Choose(2)*19
			const limit = 20
			cfg := srv.Config()
			cfg.URL.BufferSize.Maximal = 200
			cfg.TCP.ReadBufferSize = 2048
			var req, what string
			if ki < len(kinds) {
				k := kinds[ki]
				k.set(&cfg, limit, prealloc)
				n := limit
				var most int
				req, _, most = k.make(n, c.Choose(k.flavours))
				for most > limit {
					n--
					req, _, most = k.make(n, 0)
				}
				what = k.name
			} else {
				cfg.Body.MaxSize = limit
				what = framings[ki-len(kinds)]
				req = bodyReq(limit, what)
			}
			stream := strings.Repeat(req, length)
			conn := srv.NewConn([]byte(stream))
			if c.Bool() {
				conn = srv.NewConn()
				for i := 0; i < length; i++ {
					conn.Pieces = append(conn.Pieces, []byte(req))
				}
			}
			bad := 0
			rec := &srv.Rec{Mode: "bytes", Respond: func(i int, r *http.Request, desc, body string, err error) *http.Response {
				if err != nil {
					bad++
				}
				return http.String(r, "ok")
			}}
			key := fmt.Sprintf("%d requests at the limit of %s", length, what)
			c.Note("%s: %q", key, req)
			obs, err := srv.Observe(cfg, conn, rec)
			c.Steps(length)
			if err != nil {
				return mc.Failf("panic:"+key, "%v", err)
			}
			c.State(key)
			if len(obs.Reqs) != length || bad > 0 {
				return mc.Failf(key, "%d are served, %d of them with a broken body", len(obs.Reqs), bad)
			}
			return nil
		})
		// limits of every order of magnitude
		most := mc.Bound(r, 1<<17, 1<<20)
		r.Space("large limits", func(c *mc.C) error {
			k := mc.Pick(c, kinds)
			top := most
			if k.name == "number" || k.name == "encodings" {
				top = 3000
			}
			var limits []int
			for _, l := range mc.Ladder(top) {
				if l >= 20 {
					limits = append(limits, l)
				}
			}
			limit := mc.Pick(c, limits)
			n := limit + mc.Pick(c, []int{-2, -1, 0, 1, 2, 3, limit})
			flavour := c.Choose(k.flavours)
			cfg := srv.Config()
			const much = 1 << 24
			cfg.URL.BufferSize.Maximal = much
			cfg.Headers.Number.Maximal = much
			cfg.Headers.MaxKeyLength, cfg.Headers.MaxValueLength, cfg.Headers.MaxEncodingTokens = much, much, 100
			cfg.Headers.KeySpace.Maximal, cfg.Headers.ValueSpace.Maximal = much, much
			cfg.TCP.ReadBufferSize = mc.Pick(c, []int{100, 4096, 1 << 18})
			k.set(&cfg, limit, 1+c.Choose(2)*limit/2)
			var stream string
			for m := limit; ; m-- {
				// one within the limit in front
				h, _, all := k.make(m, flavour)
				if all <= limit {
					stream = h
					break
				}
			}
			req, sure, maybe := k.make(n, flavour)
			stream += req
			key := fmt.Sprintf("%s %d of %d flavour %d", k.name, n, limit, flavour)
			rec := &srv.Rec{Mode: "none", Respond: func(n int, r *http.Request, desc, body string, err error) *http.Response { return http.String(r, "ok") }}
			obs, err := srv.Observe(cfg, srv.NewConn([]byte(stream)), rec)
			c.Steps(2)
			if err != nil {
				return mc.Failf("panic:"+key, "%v", err)
			}
			c.State(key)
			resps, perr := srv.ParseAll([]byte(obs.Out))
			if perr != nil || len(resps) != 2 || len(obs.Reqs) < 1 {
				return mc.Failf(key, "%d requests reach the handler, %d responses, %v", len(obs.Reqs), len(resps), perr)
			}
			ok := len(obs.Reqs) == 2
			code := resps[1].Code
			if maybe <= limit && !ok {
				return mc.Failf(key, "a request within the limit is refused with %d", code)
			}
			if sure > limit && ok {
				return mc.Failf(key, "a request beyond the limit is served")
			}
			if !ok {
				for _, cd := range k.code {
					if cd == code {
						return nil
					}
				}
				return mc.Failf(key, "refused with %d", code)
			}
			return nil
		})
		bodyLimits := mc.Ladder(mc.Bound(r, 1<<21, 1<<24))
		r.Space("large bodies", func(c *mc.C) error {
			limit := mc.Pick(c, bodyLimits)
			n := limit + mc.Pick(c, []int{-1, 0, 1, limit})
			if n < 0 {
				return mc.ErrSkip
			}
			size := mc.Pick(c, []int{0, 1, 1000, 100000, 4 << 20})
			if size == 1 && limit > 70000 || size > 1 && size < limit/100 {
				return mc.ErrSkip
			}
			mode := mc.Pick(c, []string{"none", "bytes", "retrieve"})
			cfg := srv.Config()
			cfg.Body.MaxSize = uint(limit)
			cfg.Body.MaxChunkSize = 1 << 30
			cfg.TCP.ReadBufferSize = mc.Pick(c, []int{512, 1 << 18})
			stream := sized(limit, size) + sized(n, size) + "GET /next HTTP/1.1\r\n\r\n"
			key := fmt.Sprintf("body %d of %d in chunks of %d read by %s", n, limit, size, mode)
			var most int
			var lastErr error
			rec := &srv.Rec{Mode: mode, Respond: func(i int, r *http.Request, desc, body string, err error) *http.Response {
				if i < 2 {
					most, lastErr = len(body), err
				}
				if i == 0 && (err != nil || mode != "none" && len(body) != limit) {
					most = 1 << 40
				}
				return http.String(r, "ok")
			}}
			obs, err := srv.Observe(cfg, srv.NewConn([]byte(stream)), rec)
			c.Steps(3)
			if err != nil {
				return mc.Failf("panic:"+key, "%v", err)
			}
			c.State(key)
			if most > limit || len(obs.Reqs) < 2 {
				return mc.Failf(key, "%d bytes are delivered, %d requests are served", most, len(obs.Reqs))
			}
			if n <= limit {
				if len(obs.Reqs) != 3 || lastErr != nil || mode != "none" && most != n {
					return mc.Failf(key, "a body within the limit is not delivered (%d bytes, %v)", most, lastErr)
				}
				return nil
			}
			if len(obs.Reqs) != 2 {
				return mc.Failf(key, "the connection goes on behind a body beyond the limit")
			}
			if mode != "none" {
				if e, ok := lastErr.(status.HTTPError); !ok || e.Code != 413 {
					return mc.Failf(key, "reported as %v instead of 413", lastErr)
				}
			}
			return nil
		})
		// lengths around the limits of machine words, and far beyond them: more than any limit
		huge := []string{}
		for _, bits := range []uint{31, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 256} {
			for _, d := range []int64{-2, -1, 0, 1, 2, 3, 5, 10} {
				n := new(big.Int).Lsh(big.NewInt(1), bits)
				huge = append(huge, n.Add(n, big.NewInt(d)).String())
			}
		}
		for _, k := range []int{9, 10, 18, 19, 20, 21, 22, 39, 100, 200} {
			for _, digit := range []string{"9", "1", "10", "18446744073709551616"} {
				huge = append(huge, (strings.Repeat(digit, k))[:k], digit+strings.Repeat("0", k))
			}
		}
		// what an overflow could turn them into: c + k*2^64
		for k := int64(1); k < 12; k++ {
			for _, d := range []int64{0, 1, 5, 6} {
				for _, bits := range []uint{32, 63, 64} {
					n := new(big.Int).Lsh(big.NewInt(k), bits)
					huge = append(huge, n.Add(n, big.NewInt(d)).String())
				}
			}
		}
		r.Space("huge lengths", func(c *mc.C) error {
			n := mc.Pick(c, huge)
			zeros := mc.Pick(c, []string{"", "0", "000000000000000000000000"})
			limit := mc.Pick(c, []uint{0, 1, 5, 1000, 1 << 20})
			mode := mc.Pick(c, modes)
			hist := mc.Pick(c, []string{"", bodyReq(0, "length"), "GET / HTTP/1.1\r\n\r\n"})
			var have, ok = new(big.Int).SetString(n, 10)
			if !ok || have.Cmp(new(big.Int).SetUint64(uint64(limit))) <= 0 {
				return mc.ErrSkip
			}
			cfg := srv.Config()
			cfg.Body.MaxSize = limit
			stream := hist + "POST /b HTTP/1.1\r\nContent-Length: " + zeros + n + "\r\n\r\nabcdeGET /next HTTP/1.1\r\n\r\n"
			conn := srv.NewConn([]byte(stream))
			if c.Bool() {
				conn = srv.NewConn(srv.Bytewise([]byte(stream))...)
			}
			nh := 0
			if hist != "" {
				nh = 1
			}
			key := fmt.Sprintf("a length of %s%s, at most %d, read by %s", zeros, n, limit, mode)
			c.Note("%s", key)
			var lastErr error
			reached := false
			rec := &srv.Rec{Mode: mode, Respond: func(i int, r *http.Request, desc, body string, err error) *http.Response {
				if i == nh {
					reached, lastErr = true, err
				}
				return http.String(r, "ok")
			}}
			obs, err := srv.Observe(cfg, conn, rec)
			c.Steps(1 + len(obs.Reqs))
			if err != nil {
				return mc.Failf("panic:"+key, "%v", err)
			}
			c.State(fmt.Sprintf("%s|%d|%v", key, len(obs.Reqs), reached))
			if len(obs.Reqs) > nh+1 {
				return mc.Failf(key, "the connection goes on behind a body beyond the limit: %s", obs)
			}
			if reached && mode != "none" && lastErr == nil {
				return mc.Failf(key, "a body beyond the limit is taken for complete: %s", obs)
			}
			return nil
		})
		r.Space("chunk-size", func(c *mc.C) error {
			limit := 1 + c.Choose(10)
			n := 1 + c.Choose(limit+3)
			first := c.Choose(limit + 1)
			cfg := srv.Config()
			cfg.Body.MaxChunkSize = int64(limit)
			s := "POST /b HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n"
			if first > 0 {
				s += fmt.Sprintf("%x\r\n%s\r\n", first, rep(first))
			}
			s += fmt.Sprintf("%x\r\n%s\r\n0\r\n\r\n", n, rep(n))
			rec := &srv.Rec{Mode: mc.Pick(c, modes[1:])}
			c.Note("chunk of %d, limit %d", n, limit)
			obs, err := srv.Observe(cfg, srv.NewConn([]byte(s)), rec)
			c.Step()
			if err != nil {
				return mc.Failf("panic:"+s, "%v", err)
			}
			c.State(obs.Out)
			if len(obs.Reqs) != 1 || strings.HasSuffix(obs.Reqs[0], " err") != (n > limit) {
				return mc.Failf(fmt.Sprintf("chunk of %d, limit %d", n, limit), "%s", obs)
			}
			return nil
		})
		r.Space("all-together", func(c *mc.C) error {
			// a limit exceeded in one respect is not excused by room in the others
			cfg := srv.Config()
			over := make([]bool, 4)
			key := "v"
			val := "x"
			s := "GET /"
			for i := range over {
				over[i] = c.Bool()
			}
			cfg.URL.BufferSize = config.URLBufferSize{Default: 4, Maximal: 20}
			cfg.Headers.MaxKeyLength, cfg.Headers.MaxValueLength, cfg.Headers.Number.Maximal = 6, 8, 3
			if over[0] {
				s += rep(12)
			}
			if over[1] {
				key = rep(7)
			}
			if over[2] {
				val = rep(9)
			}
			s += " HTTP/1.1\r\n" + key + ": " + val + "\r\nB: c\r\nD: e\r\n"
			if over[3] {
				s += "F: g\r\n"
			}
			s += "\r\n"
			conn := srv.NewConn([]byte(s))
			if p := c.Choose(len(s)); p > 0 {
				conn = cutAt(s, p)
			}
			c.Note("%q", s)
			obs, err := srv.Observe(cfg, conn, &srv.Rec{Mode: "none"})
			c.Step()
			if err != nil {
				return mc.Failf("panic:"+s, "%v", err)
			}
			c.State(obs.Out)
			want := !(over[0] || over[1] || over[2] || over[3])
			if got := len(obs.Reqs) == 1; got != want {
				return mc.Failf(s, "served %v: %s", got, obs)
			}
			if !want {
				resps, err := srv.ParseAll([]byte(obs.Out))
				if err != nil || len(resps) != 1 {
					return mc.Failf(s, "output %v: %s", err, obs)
				}
				allowed := map[int]bool{414: over[0], 400: over[0], 431: over[1] || over[2] || over[3]}
				if !allowed[resps[0].Code] {
					return mc.Failf(s, "refused with %d: %s", resps[0].Code, obs)
				}
			}
			return nil
		})
	})
}
