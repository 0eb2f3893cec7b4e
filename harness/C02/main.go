// C02: a well-formed request reaches the handler exactly as it was sent.
package main

import (
	"fmt"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
)

// gen is a request together with what it denotes.
type gen struct {
	srv.RefReq
	raw string
}

type field struct{ key, sep, value string }

func (g *gen) head(method, target, path, query, proto, eol string, fields []field) {
	g.Method, g.Path, g.Query, g.Proto = method, path, query, proto
	var b strings.Builder
	b.WriteString(method + " " + target + " " + proto + eol)
	for _, f := range fields {
		b.WriteString(f.key + ":" + f.sep + f.value + eol)
		switch strings.ToLower(f.key) {
		case "content-length":
			fmt.Sscanf(strings.TrimSpace(f.value), "%d", &g.CL)
			continue
		case "content-type":
			g.CT = f.value
		case "connection":
			g.Conn = f.value
		case "trailer":
			g.Trailer = true
		case "content-encoding":
			g.CE = append(g.CE, split(f.value)...)
		case "transfer-encoding":
			g.TE = append(g.TE, split(f.value)...)
			for _, t := range split(f.value) {
				g.Chunked = g.Chunked || strings.EqualFold(t, "chunked")
			}
		}
		g.Headers = append(g.Headers, srv.Header{Key: f.key, Value: f.value})
	}
	b.WriteString(eol)
	g.raw = b.String()
}

func split(v string) (out []string) {
	for _, t := range strings.Split(v, ",") {
		if t = strings.TrimSpace(t); t != "" {
			out = append(out, t)
		}
	}
	return out
}

// body appends a body; chunk is the size of chunks.
func (g *gen) body(body string, chunk int) {
	if !g.Chunked {
		g.raw += body
		g.Body = body
		return
	}
	g.Body = body
	for len(body) > 0 {
		n := chunk
		if n > len(body) {
			n = len(body)
		}
		g.raw += fmt.Sprintf("%x\r\n%s\r\n", n, body[:n])
		body = body[n:]
	}
	g.raw += "0\r\n"
	if g.Trailer {
		g.raw += "T: v\r\n"
	}
	g.raw += "\r\n"
}

func bodyOf(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "GET / HTTP/1.1\r\n\r\n:%"[i*7%20]
	}
	return string(b)
}

// deliver cuts the stream in one of a few ways.
func deliver(stream string, how int) *srv.Conn {
	switch how {
	case 0:
		return srv.NewConn([]byte(stream))
	case 1:
		return srv.NewConn(srv.Bytewise([]byte(stream))...)
	default:
		var at []int
		for p := how; p < len(stream); p += how {
			at = append(at, p)
		}
		return srv.NewConn(srv.Split([]byte(stream), at...)...)
	}
}

func check(c *mc.C, how int, mode string, reqs ...*gen) error {
	return checkWith(c, srv.Config(), how, mode, reqs...)
}

func checkWith(c *mc.C, cfg config.Config, how int, mode string, reqs ...*gen) error {
	var all strings.Builder
	for _, g := range reqs {
		all.WriteString(g.raw)
	}
	stream := all.String()
	c.Note("%.5000q delivered %d, bodies %s", stream, how, mode)
	rec := &srv.Rec{Mode: mode}
	lookups := 0
	rec.Respond = func(n int, r *http.Request, desc, body string, err error) *http.Response {
		if n < len(reqs) {
			if msg := lookup(r, reqs[n]); msg != "" {
				lookups++
				return http.String(r, "lookup: "+msg)
			}
		}
		return http.String(r, "ok")
	}
	obs, err := srv.Observe(cfg, deliver(stream, how), rec)
	c.Steps(len(obs.Reqs))
	key := fmt.Sprintf("%.200q", stream)
	if err != nil {
		return mc.Failf("panic:"+key, "%v", err)
	}
	if lookups > 0 {
		return mc.Failf(key, "headers cannot be looked up: %q", obs.Out)
	}
	if len(obs.Reqs) != len(reqs) {
		return mc.Failf(key, "%d requests are served instead of %d: %s", len(obs.Reqs), len(reqs), obs)
	}
	for i, g := range reqs {
		want := g.String()
		if mode == "none" {
			want += ` body=""`
		} else {
			want += fmt.Sprintf(" body=%q", g.Body)
		}
		if obs.Reqs[i] != want {
			return mc.Failf(key, "request %d is seen as\n%.5000s\ninstead of\n%.5000s", i+1, obs.Reqs[i], want)
		}
		c.State(want[:min(len(want), 300)])
	}
	return nil
}

// lookup looks every header up by its name, in other letter cases, too.
func lookup(r *http.Request, g *gen) string {
	step := 1 + len(g.Headers)/60
	for at := 0; at < len(g.Headers); at += step {
		h := g.Headers[at]
		var want []string
		for _, o := range g.Headers {
			if strings.EqualFold(o.Key, h.Key) {
				want = append(want, o.Value)
			}
		}
		for _, k := range []string{h.Key, strings.ToUpper(h.Key), strings.ToLower(h.Key)} {
			if got := r.Headers.Value(k); got != want[0] {
				return fmt.Sprintf("Value(%q) = %q", k, got)
			}
			got := r.Headers.Values(k)
			if len(got) != len(want) {
				return fmt.Sprintf("Values(%q) = %q", k, got)
			}
			for i := range got {
				if got[i] != want[i] {
					return fmt.Sprintf("Values(%q) = %q", k, got)
				}
			}
			if !r.Headers.Has(k) {
				return fmt.Sprintf("Has(%q) = false", k)
			}
		}
	}
	if r.Headers.Has("Absent") || r.Headers.Value("Absent") != "" {
		return "an absent header is found"
	}
	if e := r.Encoding; e.Identity() != (len(e.Transfer) == 0 && len(e.Content) == 0) {
		return fmt.Sprintf("Identity() = %v for %q, %q", e.Identity(), e.Transfer, e.Content)
	}
	return ""
}

var methods = []string{"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"}
var protos = []string{"HTTP/1.1", "HTTP/1.0"}
var eols = []string{"\r\n", "\n"}

type target struct{ raw, path, query string }

var targets = []target{
	{"/", "/", ""}, {"*", "*", ""}, {"/a", "/a", ""}, {"/a/", "/a/", ""}, {"//", "//", ""}, {"/a%20b", "/a b", ""},
	{"/%2f%2F", "///", ""}, {"/%25", "/%", ""}, {"/%3f", "/?", ""}, {"/%3Fx?y=%3F", "/?x", "y=%3F"}, {"/a?", "/a", ""},
	{"/a?b", "/a", "b"}, {"/a?b=c&d=%20+e", "/a", "b=c&d=%20+e"}, {"/?a?b?c", "/", "a?b?c"}, {"/a%00b", "/a\x00b", ""},
	{"/%E4%bd%A0", "/你", ""}, {"/%0d%0a", "/\r\n", ""}, {"/a;b=c:d@e!$&'()*+,=", "/a;b=c:d@e!$&'()*+,=", ""},
	{"/.", "/.", ""}, {"/../..", "/../..", ""}, {"/a#b", "/a#b", ""}, {"/%61%62?%61", "/ab", "%61"}, {"/x?%zz", "/x", "%zz"},
}

var fields = []field{
	{"Host", " ", "example.com"}, {"host", "", "h:80"}, {"X", " ", ""}, {"X", "", ""}, {"x", "    ", "y"}, {"Accept", " ", "a/b, c;q=0.5"},
	{"X-Long-Header-Name-With-Numbers-123", " ", "v a l u e"}, {"Colon", " ", ":a:b:"}, {"Content-Type", " ", "text/html; charset=utf8"},
	{"CONTENT-TYPE", "", "x"}, {"Connection", " ", "keep-alive"}, {"connection", " ", "Keep-Alive"}, {"Content-Encoding", " ", "gzip"},
	{"content-encoding", " ", "a,  b,c"}, {"Trailer", " ", "T"}, {"Cookie", " ", "a=b; c=d"}, {"Content-Lengths", " ", "5"},
	{"Content-Lengt", " ", "5"}, {"Transfer-Encodinh", " ", "chunked"}, {"Upgrades", " ", "HTTP/1.1"}, {"Upgrade", " ", "websocket"},
	{"Content-Encoding", " ", ""}, {"Q", " ", "\"quoted, \\\" string\""}, {"U", " ", "\xc3\xa9\xff"}, {"~!#$%&'*+-.^_`|", " ", "x"},
}

func conflict(fs []field) bool {
	// which one of several counts is not specified
	seen := map[string]int{}
	for _, f := range fs {
		seen[strings.ToLower(f.key)]++
	}
	return seen["content-type"] > 1 || seen["connection"] > 1
}

func main() {
	mc.Main("C02", func(r *mc.R) {
		r.Assume("Content-Length is shown as a field only; whitespace behind a value is outside of the grammar")
		r.Assume("the chunked-body and buffer modules are stand-ins written from their documented behaviour")

		r.Space("request-lines", func(c *mc.C) error {
			g := &gen{}
			t := mc.Pick(c, targets)
			g.head(mc.Pick(c, methods), t.raw, t.path, t.query, mc.Pick(c, protos), mc.Pick(c, eols), nil)
			return check(c, mc.Pick(c, []int{0, 1, 2, 3}), "bytes", g)
		})
		r.Space("headers", func(c *mc.C) error {
			var fs []field
			for i := 0; i < mc.Bound(r, 3, 4); i++ {
				k := c.Choose(len(fields) + 1)
				if k == 0 {
					break
				}
				fs = append(fs, fields[k-1])
			}
			if conflict(fs) {
				return mc.ErrSkip
			}
			at := 0
			if len(fs) > 0 {
				at = c.Choose(len(fs) + 1)
			}
			framing := c.Choose(3)
			var extra []field
			switch framing {
			case 1:
				extra = []field{{"Content-Length", " ", "7"}}
			case 2:
				extra = []field{{"Transfer-Encoding", " ", "chunked"}}
			}
			fs = append(append(append([]field{}, fs[:at]...), extra...), fs[at:]...)
			g := &gen{}
			g.head("POST", "/p?q", "/p", "q", "HTTP/1.1", mc.Pick(c, eols), fs)
			if framing > 0 {
				g.body("a\r\n\r\nbc", 4)
			}
			n := &gen{}
			n.head("GET", "/next", "/next", "", "HTTP/1.1", "\r\n", []field{{"N", " ", "m"}})
			return check(c, c.Choose(2), "bytes", g, n)
		})
		known := []field{
			{"Content-Length", " ", "3"}, {"Connection", " ", "x"}, {"Trailer", " ", "T"}, {"Upgrade", " ", "foo"}, {"Content-Type", " ", "t"},
			{"Content-Encoding", " ", "e"}, {"Transfer-Encoding", " ", "chunked"},
		}
		r.Space("letter-cases", func(c *mc.C) error {
			f := mc.Pick(c, known)
			key := []byte(f.key)
			for i := range key {
				if key[i] != '-' && c.Bool() {
					key[i] ^= 0x20
				}
			}
			f.key = string(key)
			g := &gen{}
			g.head("POST", "/", "/", "", "HTTP/1.1", "\r\n", []field{f})
			if g.CL > 0 || g.Chunked {
				g.body("abc", 2)
			}
			return check(c, 0, "bytes", g)
		})
		r.Space("near-misses", func(c *mc.C) error {
			// a name that differs in one byte is just a header
			f := mc.Pick(c, append([]field{{"Host", " ", "h"}, {"Cookie", " ", "a=b"}}, known...))
			p := c.Choose(len(f.key))
			by := byte(c.Choose(128))
			if !strings.Contains("!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ", string(by)) {
				return mc.ErrSkip
			}
			if c.Bool() {
				f.key = f.key[:p] + string(by) + f.key[p+1:]
			} else {
				f.key = f.key[:p] + string(by) + f.key[p:]
			}
			g := &gen{}
			g.head("POST", "/", "/", "", "HTTP/1.1", "\r\n", []field{{"A", " ", "b"}, f})
			if g.CL > 0 || g.Chunked {
				g.body("abc", 2)
			}
			return check(c, c.Choose(2), "bytes", g)
		})
		r.Space("bytes", func(c *mc.C) error {
			by := byte(c.Choose(256))
			kind := c.Choose(5)
			ctx := mc.Pick(c, []string{"", "a", "zz"})
			g := &gen{}
			fs := []field{}
			t := target{"/", "/", ""}
			body := ""
			switch kind {
			case 0, 1:
				f := "/%s%%%02x%s"
				if kind == 1 {
					f = "/%s%%%02X%s"
				}
				t = target{fmt.Sprintf(f, ctx, by, ctx), "/" + ctx + string([]byte{by}) + ctx, ""}
			case 2:
				if by <= 0x20 || by >= 0x7f || by == '%' || by == '?' {
					return mc.ErrSkip
				}
				t = target{"/" + ctx + string(by) + ctx, "/" + ctx + string(by) + ctx, ""}
				t.query = t.raw[1:]
				t.raw += "?" + t.query
			case 3:
				if by < 0x20 || by == 0x7f || by == ' ' {
					return mc.ErrSkip
				}
				fs = append(fs, field{"H", " ", ctx + string([]byte{by}) + ctx}, field{"I", "", string([]byte{by}) + " x"})
			case 4:
				body = ctx + string([]byte{by}) + ctx
				fs = append(fs, mc.Pick(c, []field{{"Content-Length", "", fmt.Sprint(len(body))}, {"Transfer-Encoding", "", "chunked"}}))
			}
			g.head("POST", t.raw, t.path, t.query, "HTTP/1.1", "\r\n", fs)
			if kind == 4 {
				g.body(body, 1+c.Choose(2))
			}
			return check(c, c.Choose(2), "bytes", g)
		})
		sizes := []int{1, 2, 15, 16, 31, 32, 62, 63, 64, 65, 66, 99, 100, 127, 128, 129, 130, 255, 256, 257, 300, 511, 512, 513, 700, 1024, 2000}
		hows := []int{0, 1, 5, 63, 64, 65, 128, 200}
		r.Space("sizes", func(c *mc.C) error {
			// beyond what is allocated in advance
			g := &gen{}
			n := mc.Pick(c, sizes)
			long := strings.Repeat("abcdefghij", n/10+1)[:n]
			kind := c.Choose(6)
			fs := []field{{"First", " ", "1"}}
			t := target{"/t?q=1", "/t", "q=1"}
			body := ""
			switch kind {
			case 0:
				t = target{"/" + long + "?q", "/" + long, "q"}
			case 1:
				t = target{"/%41?" + long, "/A", long}
			case 2:
				fs = append(fs, field{"Long", " ", long}, field{"Last", " ", "2"})
			case 3:
				if n > 100 {
					return mc.ErrSkip
				}
				fs = append(fs, field{long, " ", "v"}, field{"Last", " ", "2"})
			case 4, 5:
				body = bodyOf(n)
				f := field{"Content-Length", " ", fmt.Sprint(n)}
				if kind == 5 {
					f = field{"Transfer-Encoding", " ", "chunked"}
				}
				fs = append(fs, f)
			}
			g.head("PUT", t.raw, t.path, t.query, "HTTP/1.1", "\r\n", fs)
			if kind >= 4 {
				g.body(body, mc.Pick(c, []int{7, 16, 255, 256, 4096}))
			}
			last := &gen{}
			last.head("GET", "/last?x", "/last", "x", "HTTP/1.1", "\r\n", []field{{"A", " ", "b"}})
			return check(c, mc.Pick(c, hows), mc.Pick(c, []string{"bytes", "read3", "callback"}), g, last)
		})
		r.Space("counts", func(c *mc.C) error {
			n := c.Choose(51)
			var fs []field
			for i := 0; i < n; i++ {
				fs = append(fs, field{fmt.Sprintf("K%d", i%40), " ", fmt.Sprintf("value-%d", i)})
			}
			g := &gen{}
			g.head("GET", "/", "/", "", "HTTP/1.1", "\r\n", fs)
			return check(c, mc.Pick(c, hows), "none", g, g)
		})
		kinds := []func() *gen{
			func() *gen { g := &gen{}; g.head("GET", "/1", "/1", "", "HTTP/1.1", "\r\n", nil); return g },
			func() *gen {
				g := &gen{}
				g.head("GET", "/2%20?a=b", "/2 ", "a=b", "HTTP/1.1", "\n", []field{{"A", " ", "b"}, {"a", "", "c"}})
				return g
			},
			func() *gen {
				g := &gen{}
				g.head("POST", "/3", "/3", "", "HTTP/1.1", "\r\n", []field{{"Content-Length", " ", "9"}, {"Content-Type", " ", "t"}})
				g.body("GET / HT\n", 0)
				return g
			},
			func() *gen {
				g := &gen{}
				g.head("POST", "/4", "/4", "", "HTTP/1.1", "\r\n", []field{{"Transfer-Encoding", " ", "gzip, chunked"}, {"Content-Encoding", " ", "br"}})
				g.body("GET / HTTP/1.1\r\n\r\n", 5)
				return g
			},
			func() *gen {
				g := &gen{}
				g.head("HEAD", "/5?", "/5", "", "HTTP/1.0", "\r\n", []field{{"Connection", " ", "keep-alive"}, {"Long", " ", strings.Repeat("x", 100)}})
				return g
			},
			func() *gen {
				g := &gen{}
				g.head("DELETE", "/6", "/6", "", "HTTP/1.1", "\r\n", []field{{"Trailer", " ", "T"}, {"Transfer-Encoding", " ", "chunked"}})
				g.body("", 5)
				return g
			},
			func() *gen {
				g := &gen{}
				g.head("PUT", "/7", "/7", "", "HTTP/1.1", "\r\n", []field{{"Content-Length", "", "0"}, {"Upgrade", " ", "ws"}, {"B", "", ""}, {"C", "", ""}, {"D", "", ""}, {"E", "", "f"}})
				return g
			},
			func() *gen {
				g := &gen{}
				g.head("PATCH", "/"+strings.Repeat("8", 150), "/"+strings.Repeat("8", 150), "", "HTTP/1.1", "\r\n", []field{{"Content-Length", " ", "3"}})
				g.body("\r\n\r", 0)
				return g
			},
		}
		r.Space("pipelines", func(c *mc.C) error {
			var gs []*gen
			for i := 0; i < mc.Bound(r, 4, 5); i++ {
				gs = append(gs, kinds[c.Choose(len(kinds))]())
			}
			return check(c, mc.Pick(c, []int{0, 1, 2, 3, 7, 16, 50}), mc.Pick(c, []string{"none", "bytes", "read1", "retrieve", "callback"}), gs...)
		})
		// two escapes next to each other, for every two bytes
		r.Space("escaped pairs", func(c *mc.C) error {
			a, b := byte(c.Choose(256)), byte(c.Choose(256))
			t := target{fmt.Sprintf("/%%%02x%%%02X", a, b), "/" + string([]byte{a, b}), ""}
			if c.Bool() {
				t = target{t.raw + "/x" + t.raw + "?" + t.raw, t.path + "/x" + t.path, t.raw}
			}
			g := &gen{}
			g.head("GET", t.raw, t.path, t.query, "HTTP/1.1", "\r\n", nil)
			return check(c, 0, "none", g)
		})
		// every order of magnitude, in between of small requests
		large := mc.Ladder(mc.Bound(r, 1<<18, 1<<21))
		r.Space("large requests", func(c *mc.C) error {
			n := mc.Pick(c, large)
			kind := c.Choose(11)
			long := strings.Repeat("abcdefghij", n/10+1)[:n]
			fs := []field{{"First", " ", "1"}}
			t := target{"/t?q=1", "/t", "q=1"}
			body, chunk := "", 0
			switch kind {
			case 0:
				t = target{"/" + long + "?q", "/" + long, "q"}
			case 1:
				t = target{"/%41" + long + "%2f?q", "/A" + long + "/", "q"}
			case 2:
				t = target{"/" + strings.Repeat("%41", n/3) + "?q", "/" + strings.Repeat("A", n/3), "q"}
			case 3:
				t = target{"/%41?" + long, "/A", long}
			case 4:
				fs = append(fs, field{"Long", " ", long}, field{"Last", " ", "2"})
			case 5:
				fs = append(fs, field{long + "x", " ", "v"}, field{"Last", " ", "2"})
			case 6:
				if n > 3000 {
					return mc.ErrSkip
				}
				for i := 0; i < n; i++ {
					fs = append(fs, field{fmt.Sprintf("K%d", i%100), " ", fmt.Sprint(i)})
				}
			case 7:
				fs = append(fs, field{"Content-Type", " ", "t/" + long}, field{"Connection", " ", long})
			case 8, 9, 10:
				body = bodyOf(n)
				f := field{"Content-Length", " ", fmt.Sprint(n)}
				if kind > 8 {
					f = field{"Transfer-Encoding", " ", "chunked"}
					chunk = []int{1000, 1 << 22}[kind-9]
				}
				fs = append(fs, f)
			}
			g, small := &gen{}, &gen{}
			g.head("PUT", t.raw, t.path, t.query, "HTTP/1.1", "\r\n", fs)
			if kind >= 8 {
				g.body(body, chunk)
			}
			small.head("GET", "/s%20?x", "/s ", "x", "HTTP/1.1", "\r\n", []field{{"A", " ", "b"}})
			cfg := srv.Config()
			const much = 1 << 24
			cfg.URL.BufferSize.Maximal, cfg.Headers.Number.Maximal, cfg.Headers.MaxKeyLength, cfg.Headers.MaxValueLength = much, much, much, much
			cfg.Headers.KeySpace.Maximal, cfg.Headers.ValueSpace.Maximal, cfg.Body.MaxChunkSize = much, much, much
			cfg.TCP.ReadBufferSize = mc.Pick(c, []int{300, 4096, 1 << 19})
			return checkWith(c, cfg, 0, mc.Pick(c, []string{"bytes", "callback"}), small, g, small)
		})
		r.Space("long pipelines", func(c *mc.C) error {
			a, b := c.Choose(len(kinds)), c.Choose(len(kinds))
			mode := mc.Pick(c, []string{"none", "bytes", "read1"})
			var gs []*gen
			for i := 0; i < mc.Bound(r, 150, 1000); i++ {
				gs = append(gs, kinds[a](), kinds[b]())
			}
			return check(c, mc.Pick(c, []int{0, 50}), mode, gs...)
		})
		// connections of tens of thousands of requests
		r.Space("long-lived connections", func(c *mc.C) error {
			n, kind, group := mc.Pick(c, srv.Lengths), mc.Pick(c, []string{"mixed", "plain", "headers"}[:mc.Bound(r, 1, 3)]), mc.Pick(c, []int{1, 7})
			if n > mc.Bound(r, 70000, 1<<20) {
				return mc.ErrSkip
			}
			key := fmt.Sprintf("%d requests of the kind %s, %d at once", n, kind, group)
			c.Note("%s", key)
			c.Steps(n)
			c.State(key)
			if err := srv.Long(kind, n, group); err != nil {
				return mc.Failf("long:"+key, "%v", err)
			}
			return nil
		})
	})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
