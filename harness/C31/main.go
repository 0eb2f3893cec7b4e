// C31: hijacking hands the raw connection over, upgrades are negotiated properly.
package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/tcp"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
	"github.com/indigo-web/indigo/router/inbuilt"
)

var history = []string{
	"GET /h HTTP/1.1\r\n\r\n",
	"POST /h HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc",
	"POST /h HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n0\r\n\r\n",
	"GET /h HTTP/1.0\r\nConnection: keep-alive\r\n\r\n",
}

type hreq struct{ head, body, decoded string }

var hijacked = []hreq{
	{"GET /j HTTP/1.1\r\n\r\n", "", ""},
	{"GET /j HTTP/1.0\r\n\r\n", "", ""},
	{"GET /j HTTP/1.1\r\nConnection: close\r\n\r\n", "", ""},
	{"GET /j HTTP/1.1\r\nConnection: upgrade\r\nUpgrade: websocket\r\n\r\n", "", ""},
	{"HEAD /j HTTP/1.1\r\nContent-Length: 0\r\n\r\n", "", ""},
	{"CONNECT /j HTTP/1.1\r\n\r\n", "", ""},
	{"POST /j HTTP/1.1\r\nContent-Length: 5\r\n\r\n", "hello", "hello"},
	{"PUT /j HTTP/1.1\r\nContent-Length: 1\r\n\r\n", "x", "x"},
	{"POST /j HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", "3\r\nabc\r\n1\r\nd\r\n0\r\n\r\n", "abcd"},
	{"POST /j HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", "0\r\n\r\n", ""},
	{"POST /j HTTP/1.1\r\nTransfer-Encoding: chunked\r\nTrailer: T\r\n\r\n", "2\r\nab\r\n0\r\nT: v\r\n\r\n", "ab"},
}

var tails = []string{"", "\x00", "raw", "\r\n\r\nraw bytes", "GET /evil HTTP/1.1\r\n\r\n", "0\r\n\r\n5\r\nhello"}

var modes = []string{"none", "bytes", "string", "read1", "retrieve", "callback", "peek"}

func pieces(c *mc.C, stream string, from int, two bool) [][]byte {
	n := len(stream) - from
	p := c.Choose(n + 2)
	switch {
	case p == n+1:
		return srv.Bytewise([]byte(stream))
	case p == n || !two:
		return srv.Split([]byte(stream), from+p)
	}
	q := p + c.Choose(n-p)
	return srv.Split([]byte(stream), from+p, from+q)
}

func hijackSpace(r *mc.R, name string, two bool) {
	r.Space(name, func(c *mc.C) error {
		hs := ""
		nh := c.Choose(3)
		for i := 0; i < nh; i++ {
			hs += mc.Pick(c, history)
		}
		if two && nh == 2 {
			return mc.ErrSkip
		}
		hr := mc.Pick(c, hijacked)
		tail := mc.Pick(c, tails)
		mode := mc.Pick(c, modes)
		if hr.body == "" && mode != "none" && mode != "bytes" {
			return mc.ErrSkip
		}
		limit := 1 << 30 // how many reads the handler does
		write := ""
		switch c.Choose(3) {
		case 1:
			write = "101 raw output"
		case 2:
			limit = 1
		}
		ret := c.Choose(3)
		buf := mc.Pick(c, []int{512, 5})
		stream := hs + hr.head + hr.body + tail
		from := len(hs) + len(hr.head) - 3
		ps := pieces(c, stream, from, two)
		c.Note("history %q, request %q, tail %q, body read by %s, handler reads up to %d times, buffer %d, pieces %q", hs, hr.head+hr.body, tail, mode, limit, buf, ps)
		key := fmt.Sprintf("hijack %q+%q mode %s", hr.head+hr.body, tail, mode)
		conn := srv.NewConn(ps...)
		cfg := srv.Config()
		cfg.TCP.ReadBufferSize = buf
		var got, body string
		var bodyErr, hijackErr, readErr error
		ran, others, readsAfter := 0, 0, -1
		rt := srv.Funcs{
			Request: func(req *http.Request) *http.Response {
				if req.Path != "/j" {
					others++
					return http.String(req, "h")
				}
				ran++
				body, bodyErr = srv.ReadBody(req, mode)
				var client tcp.Client
				client, hijackErr = req.Hijack()
				if hijackErr != nil {
					return nil
				}
				if !req.WasHijacked() {
					hijackErr = errors.New("WasHijacked is false")
				}
				if client.Conn() != conn {
					hijackErr = errors.New("another connection is handed over")
				}
				for i := 0; i < limit; i++ {
					data, err := client.Read()
					got += string(data)
					if err != nil {
						readErr = err
						break
					}
					if i > 10000 {
						readErr = errors.New("no end")
						break
					}
				}
				if write != "" {
					hijackErr = client.Write([]byte(write))
				}
				readsAfter = len(conn.InReads)
				switch ret {
				case 1:
					return http.String(req, "must not be sent")
				case 2:
					return http.Error(req, status.ErrTeapot)
				}
				return nil
			},
			Error: func(req *http.Request, err error) *http.Response {
				if ran > 0 {
					others += 1000
				}
				return http.Error(req, err)
			},
		}
		if err := srv.Serve(cfg, conn, 0, rt); err != nil {
			return mc.Failf("panic:"+key, "%v", err)
		}
		c.Steps(1 + nh + len(conn.InReads))
		c.State(fmt.Sprint(key, hs, write, limit, buf, len(ps), len(ps[0])))
		if ran != 1 || others != nh {
			return mc.Failf("served "+key, "the hijacking handler ran %d times, the others %d times instead of %d", ran, others, nh)
		}
		if bodyErr != nil || hijackErr != nil {
			return mc.Failf("errors "+key, "reading the body: %v, hijacking: %v", bodyErr, hijackErr)
		}
		if mode != "none" && mode != "peek" && body != hr.decoded {
			return mc.Failf("body "+key, "%q, want %q", body, hr.decoded)
		}
		if limit == 1 {
			if !strings.HasPrefix(tail, got) {
				return mc.Failf("bytes "+key, "the handler got %q of %q", got, tail)
			}
			if tail != "" && readErr != nil {
				return mc.Failf("bytes "+key, "the handler got %v", readErr)
			}
		} else if got != tail || readErr != io.EOF {
			return mc.Failf("bytes "+key, "the handler got %q and %v, want %q", got, readErr, tail)
		}
		if readsAfter != len(conn.InReads) {
			return mc.Failf("reads "+key, "the server reads after the handler is done")
		}
		out := conn.Out.Bytes()
		for i := 0; i < nh; i++ {
			resp, rest, err := srv.ParseOne(out, false)
			if err != nil || resp.Code != 200 || resp.Body != "h" {
				return mc.Failf("preceding "+key, "response %d of %q: %v", i+1, conn.Out.String(), err)
			}
			out = rest
		}
		if string(out) != write {
			return mc.Failf("writes "+key, "%q was written, the handler wrote %q", out, write)
		}
		return nil
	})
}

// hijacking while the body is broken or cut
var broken = []hreq{
	{"POST /j HTTP/1.1\r\nContent-Length: 5\r\n\r\n", "hell", ""},
	{"POST /j HTTP/1.1\r\nContent-Length: 5\r\n\r\n", "", ""},
	{"POST /j HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", "", ""},
	{"POST /j HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", "3\r\nab", ""},
	{"POST /j HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", "3\r\nabc\r\n", ""},
	{"POST /j HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n", "zz\r\nabc\r\n0\r\n\r\n", ""},
}

type offer struct {
	header string
	want   string // the protocol switched to, "" for none, "?" if unspecified
}

var offers = []offer{
	{"", ""},
	{"Upgrade: HTTP/1.0\r\n", "HTTP/1.0"},
	{"Upgrade: HTTP/1.1\r\n", "HTTP/1.1"},
	{"upgrade: http/1.0\r\n", "HTTP/1.0"},
	{"UPGRADE:http/1.1\r\n", "HTTP/1.1"},
	{"Upgrade: h2c\r\n", ""},
	{"Upgrade: websocket\r\n", ""},
	{"Upgrade: websocket, HTTP/1.1\r\n", "HTTP/1.1"},
	{"Upgrade: foo/2 ,HTTP/1.0,HTTP/1.1\r\n", "HTTP/1.0"},
	{"Upgrade: HTTP/1.1, websocket\r\n", "HTTP/1.1"},
	{"Upgrade: HTTP/1.2\r\n", ""},
	{"Upgrade: TLS/1.0\r\n", ""},
	{"Upgrade: HTTP/2.0\r\n", ""},
	{"Upgrade: ,,\r\n", ""},
	{"X-Upgrade: HTTP/1.0\r\n", ""},
}

type ureq struct {
	raw, without string
	want         string
	proto        string
	head         bool
	persists     bool
	sure         bool // whether persisting is specified
}

func upgradeReq(c *mc.C, methods, conns []string, offers []offer) ureq {
	o := mc.Pick(c, offers)
	proto := mc.Pick(c, []string{"HTTP/1.1", "HTTP/1.0"})
	m := mc.Pick(c, methods)
	cn := mc.Pick(c, conns)
	u := ureq{want: o.want, proto: proto, head: m == "HEAD"}
	ch := ""
	if cn != "" {
		ch = "Connection: " + cn + "\r\n"
	}
	body := ""
	bh := ""
	switch m {
	case "POST":
		body, bh = "hello", "Content-Length: 5\r\n"
	case "PUT":
		body, bh = "3\r\nabc\r\n0\r\n\r\n", "Transfer-Encoding: chunked\r\n"
	}
	u.raw = m + " /u " + proto + "\r\n" + ch + o.header + bh + "\r\n" + body
	u.without = m + " /u " + proto + "\r\n" + ch + bh + "\r\n" + body
	low := strings.ToLower(cn)
	if proto == "HTTP/1.1" {
		u.persists = !strings.Contains(low, "close")
	} else {
		u.persists = strings.Contains(low, "keep-alive")
	}
	// whether a connection that was upgraded is kept when it would otherwise be closed isn't specified
	u.sure = o.want == "" || u.persists && proto == "HTTP/1.1" && o.want == "HTTP/1.1"
	return u
}

func answer(req *http.Request, kind int) *http.Response {
	switch kind {
	case 1:
		return req.Respond().Code(status.NotFound).Header("A", "b").String("nope")
	case 2:
		return req.Respond().Attachment(strings.NewReader("attached"), 8)
	case 3:
		return req.Respond().Header("Connection", "mine").Header("Server", "mine").String("over")
	}
	return req.Respond().String("ok")
}

var answers = [][2]string{{"200", "ok"}, {"404", "nope"}, {"200", "attached"}, {"200", "over"}}

func serveUpgrades(stream string, ps [][]byte, kind, defaults int) (*srv.Conn, int, error) {
	cfg := srv.Config()
	cfg.Headers.Default = map[string]string{}
	switch defaults {
	case 1:
		cfg.Headers.Default["Server"] = "default"
	case 2:
		cfg.Headers.Default["Connection"] = "default"
	}
	conn := srv.NewConn(ps...)
	n := 0
	rt := srv.Funcs{
		Request: func(req *http.Request) *http.Response { n++; return answer(req, kind) },
		Error:   func(req *http.Request, err error) *http.Response { return http.Error(req, err) },
	}
	err := srv.Serve(cfg, conn, 0, rt)
	return conn, n, err
}

func defaultsOf(resp *srv.Response, kind, defaults int) error {
	wantServer, wantConn := []string{}, []string{}
	switch defaults {
	case 1:
		wantServer = []string{"default"}
	case 2:
		wantConn = []string{"default"}
	}
	if kind == 3 {
		wantServer, wantConn = []string{"mine"}, []string{"mine"}
	}
	if g := resp.Values("Server"); strings.Join(g, ",") != strings.Join(wantServer, ",") {
		return fmt.Errorf("Server is %q, want %q", g, wantServer)
	}
	if g := resp.Values("Connection"); strings.Join(g, ",") != strings.Join(wantConn, ",") {
		return fmt.Errorf("Connection is %q, want %q", g, wantConn)
	}
	return nil
}

func checkUpgrades(c *mc.C, us []ureq, ps [][]byte, kind, defaults int) error {
	stream, without := "", ""
	for _, u := range us {
		stream += u.raw
		without += u.without
	}
	if ps == nil {
		ps = [][]byte{[]byte(stream)}
	}
	key := fmt.Sprintf("upgrade %q", stream)
	c.Note("%s answer %d defaults %d pieces %q", key, kind, defaults, ps)
	conn, n, err := serveUpgrades(stream, ps, kind, defaults)
	if err != nil {
		return mc.Failf("panic:"+key, "%v", err)
	}
	c.Steps(len(us))
	c.State(fmt.Sprint(key, kind, defaults))
	out := conn.Out.Bytes()
	whole := conn.Out.String()
	served := 0
	plain := true
	for i, u := range us {
		if len(out) == 0 && i > 0 && !us[i-1].sure {
			break
		}
		if u.want != "" {
			plain = false
			sw, rest, err := srv.ParseOne(out, false)
			if err != nil || sw.Code != 101 {
				return mc.Failf(key, "no 101 in front of answer %d of %q: %v", i+1, whole, err)
			}
			if v := sw.Values("Upgrade"); len(v) != 1 || v[0] != u.want {
				return mc.Failf(key, "the 101 in front of answer %d of %q has Upgrade %q", i+1, whole, v)
			}
			if v := sw.Values("Connection"); len(v) != 1 || !strings.EqualFold(v[0], "upgrade") {
				return mc.Failf(key, "the 101 in front of answer %d of %q has Connection %q", i+1, whole, v)
			}
			if sw.Proto != "HTTP/1.1" && sw.Proto != "HTTP/1.0" || len(sw.Values("Content-Length")) > 0 {
				return mc.Failf(key, "the 101 in front of answer %d of %q is malformed", i+1, whole)
			}
			out = rest
		}
		resp, rest, err := srv.ParseOne(out, u.head)
		if err != nil || fmt.Sprint(resp.Code) != answers[kind][0] || !u.head && resp.Body != answers[kind][1] {
			return mc.Failf(key, "answer %d of %q is not what the handler made: %v", i+1, whole, err)
		}
		wp := u.proto
		if u.want != "" {
			wp = u.want
		}
		if resp.Proto != wp {
			return mc.Failf(key, "answer %d of %q is in %s, want %s", i+1, whole, resp.Proto, wp)
		}
		if len(resp.Values("Upgrade")) > 0 {
			return mc.Failf(key, "answer %d of %q has an Upgrade", i+1, whole)
		}
		if err := defaultsOf(resp, kind, defaults); err != nil {
			return mc.Failf(key, "answer %d of %q: %v", i+1, whole, err)
		}
		out = rest
		served++
		if u.sure && !u.persists {
			break
		}
	}
	if len(out) > 0 {
		return mc.Failf(key, "%q behind the last answer of %q", out, whole)
	}
	if n != served {
		return mc.Failf(key, "%d requests handled, %d answered", n, served)
	}
	if plain {
		// as if nothing was offered
		conn2, n2, err := serveUpgrades(without, [][]byte{[]byte(without)}, kind, defaults)
		if err != nil {
			return mc.Failf("panic:"+key, "%v", err)
		}
		if conn2.Out.String() != whole || n != n2 {
			return mc.Failf(key, "the offers change the output from %q to %q", conn2.Out.String(), whole)
		}
	}
	return nil
}

func main() {
	mc.Main("C31", func(r *mc.R) {
		r.Assume("what happens to the confirmation of an upgrade if the handler hijacks the connection is not specified")
		r.Assume("offers distributed over multiple Upgrade headers, and offers preferring h2c over HTTP/1.x are not specified")
		r.Assume("whether a connection persists after an upgrade if it wouldn't otherwise is not specified")
		hijackSpace(r, "hijacking, one cut", false)
		if r.Thorough() {
			hijackSpace(r, "hijacking, two cuts", true)
		}

		// much data before and behind the request that hijacks the connection
		r.Space("hijacking, large", func(c *mc.C) error {
			which := mc.Pick(c, []string{"tail", "body", "chunks", "history", "writes"})
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 1<<17, 1<<20)))
			if which == "history" && n > 2000 {
				return mc.ErrSkip
			}
			buffer := mc.Pick(c, []int{5, 512, 100000})
			if buffer == 5 && n > 70000 {
				return mc.ErrSkip
			}
			mode := mc.Pick(c, []string{"none", "bytes", "retrieve", "peek"})
			data := make([]byte, n)
			for i := range data {
				data[i] = byte(i ^ i>>8 ^ i>>16)
			}
			tail, body, hs, write := "raw", "hello", "", ""
			stream := ""
			switch which {
			case "tail":
				tail = string(data)
			case "body", "chunks":
				body = string(data)
			case "history":
				hs = strings.Repeat(history[0], n)
			case "writes":
				write = string(data)
			}
			if which == "chunks" && n > 0 {
				stream = fmt.Sprintf("%sPOST /j HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n%s", hs, n, body, tail)
			} else {
				stream = fmt.Sprintf("%sPOST /j HTTP/1.1\r\nContent-Length: %d\r\n\r\n%s%s", hs, len(body), body, tail)
			}
			key := fmt.Sprintf("hijack, %s of %d, a buffer of %d, body read by %s", which, n, buffer, mode)
			c.Note("%s", key)
			cfg := srv.Config()
			cfg.TCP.ReadBufferSize = buffer
			cfg.Body.MaxSize = uint(n) + 10
			cfg.Body.MaxChunkSize = int64(n) + 10
			conn := srv.NewConn([]byte(stream))
			var got, readBody []byte
			var fail error
			ran, readsAfter, outBefore := 0, 0, 0
			rt := srv.Funcs{
				Request: func(req *http.Request) *http.Response {
					if req.Path != "/j" {
						return http.String(req, "h")
					}
					ran++
					b, err := srv.ReadBody(req, mode)
					if err != nil {
						fail = err
						return nil
					}
					readBody = []byte(b)
					client, err := req.Hijack()
					if err != nil {
						fail = err
						return nil
					}
					for {
						p, err := client.Read()
						got = append(got, p...)
						if err != nil {
							break
						}
					}
					outBefore = conn.Out.Len()
					fail = client.Write([]byte(write))
					readsAfter = len(conn.InReads)
					return http.String(req, "must not be sent")
				},
				Error: func(req *http.Request, err error) *http.Response { return http.Error(req, err) },
			}
			if err := srv.Serve(cfg, conn, 0, rt); err != nil {
				return mc.Failf("panic:"+key, "%v", err)
			}
			c.Step()
			c.State(key)
			if ran != 1 || fail != nil {
				return mc.Failf(key, "the handler ran %d times, %v", ran, fail)
			}
			if mode == "bytes" || mode == "retrieve" {
				if string(readBody) != body {
					return mc.Failf(key, "the body has %d bytes which differ", len(readBody))
				}
			}
			if string(got) != tail {
				return mc.Failf(key, "the handler got %d bytes (%.30q) instead of %d", len(got), got, len(tail))
			}
			if readsAfter != len(conn.InReads) || conn.Out.String()[outBefore:] != write {
				return mc.Failf(key, "the connection is touched after hijacking: %d bytes were written", conn.Out.Len()-outBefore)
			}
			return nil
		})

		r.Space("hijacking over a broken body", func(c *mc.C) error {
			hr := mc.Pick(c, broken)
			mode := mc.Pick(c, modes)
			end := mc.Pick(c, []error{io.EOF, srv.ErrRead})
			stream := hr.head + hr.body
			ps := pieces(c, stream, len(hr.head)-3, true)
			conn := srv.NewConn(ps...)
			conn.End = end
			key := fmt.Sprintf("hijack broken %q mode %s", stream, mode)
			c.Note("%s pieces %q end %v", key, ps, end)
			var hijackErr error
			was, ran := false, 0
			rt := srv.Funcs{
				Request: func(req *http.Request) *http.Response {
					ran++
					_, _ = srv.ReadBody(req, mode)
					_, hijackErr = req.Hijack()
					was = req.WasHijacked()
					return http.String(req, "failed")
				},
				Error: func(req *http.Request, err error) *http.Response { return http.Error(req, err) },
			}
			if err := srv.Serve(srv.Config(), conn, 0, rt); err != nil {
				return mc.Failf("panic:"+key, "%v", err)
			}
			c.Step()
			c.State(key)
			if ran != 1 || hijackErr == nil || was {
				return mc.Failf(key, "ran %d times, hijacking says %v, considered hijacked: %v", ran, hijackErr, was)
			}
			return nil
		})

		r.Space("hijacking in the inbuilt router", func(c *mc.C) error {
			where := mc.Pick(c, []string{"handler", "middleware", "404", "405", "malformed", "too long"})
			hr := mc.Pick(c, []hreq{hijacked[0], hijacked[6], hijacked[8]})
			tail := mc.Pick(c, tails)
			stream := hr.head + hr.body + tail
			from := len(hr.head) - 3
			switch where {
			case "404":
				stream = strings.Replace(stream, "/j", "/missing", 1)
				from += 7
			case "405":
				stream = strings.Replace(stream, "/j", "/patch", 1)
				from += 4
			case "malformed":
				if hr.body != "" || tail != "" {
					return mc.ErrSkip
				}
				stream = "GET /%zz HTTP/1.1\r\n\r\n"
				from = 1
			case "too long":
				if hr.body != "" || tail != "" {
					return mc.ErrSkip
				}
				stream = "GET / HTTP/1.1\r\n" + strings.Repeat("k", 101) + ": v\r\n\r\n"
				from = 1
			}
			ps := pieces(c, stream, from, false)
			key := "hijack in " + where + fmt.Sprintf(" %q", stream)
			c.Note("%s pieces %q", key, ps)
			conn := srv.NewConn(ps...)
			got, ran := "", 0
			var errs []error
			readsAfter := -1
			take := func(req *http.Request) *http.Response {
				ran++
				client, err := req.Hijack()
				errs = append(errs, err)
				if err != nil {
					return nil
				}
				_ = client.Write([]byte("mine"))
				for {
					data, err := client.Read()
					got += string(data)
					if err != nil {
						break
					}
				}
				readsAfter = len(conn.InReads)
				return http.String(req, "must not be sent")
			}
			router := inbuilt.New()
			plain := func(req *http.Request) *http.Response { return http.String(req, "h") }
			switch where {
			case "middleware":
				router.Use(func(next inbuilt.Handler, req *http.Request) *http.Response { return take(req) })
				router.Get("/j", plain).Post("/j", plain)
			case "handler":
				router.Get("/j", take).Post("/j", take)
			default:
				router.Patch("/patch", plain)
				router.RouteError(take, inbuilt.AllErrors)
				router.RouteError(take, status.MethodNotAllowed, status.NotFound, status.BadRequest, status.HeaderFieldsTooLarge)
			}
			if err := srv.Serve(srv.Config(), conn, 0, router.Initialize()); err != nil {
				return mc.Failf("panic:"+key, "%v", err)
			}
			c.Steps(2)
			c.State(key)
			if ran != 1 || errs[0] != nil {
				return mc.Failf(key, "the handler ran %d times, hijacking: %v, output %q", ran, errs, conn.Out.String())
			}
			if where != "malformed" && where != "too long" && got != tail {
				return mc.Failf(key, "the handler got %q, want %q", got, tail)
			}
			if readsAfter != len(conn.InReads) || conn.Out.String() != "mine" {
				return mc.Failf(key, "the connection is touched after hijacking: output %q", conn.Out.String())
			}
			return nil
		})

		all := []string{"GET", "HEAD", "POST", "PUT"}
		conns := []string{"", "upgrade", "Upgrade, keep-alive", "close", "keep-alive"}
		r.Space("one offer", func(c *mc.C) error {
			u := upgradeReq(c, all, conns, offers)
			if c.Bool() {
				// all cuts
				return checkUpgrades(c, []ureq{u}, pieces(c, u.raw, 0, false), 0, 0)
			}
			return checkUpgrades(c, []ureq{u}, nil, c.Choose(len(answers)), c.Choose(3))
		})
		r.Space("two offers", func(c *mc.C) error {
			u := upgradeReq(c, all, conns[:4], offers)
			v := upgradeReq(c, all[:3], conns[:3], offers)
			return checkUpgrades(c, []ureq{u, v}, nil, c.Choose(len(answers)), c.Choose(3))
		})
		r.Space("three offers", func(c *mc.C) error {
			n := mc.Bound(r, 7, len(offers))
			var us []ureq
			for i := 0; i < 3; i++ {
				us = append(us, upgradeReq(c, all[:mc.Bound(r, 1, 2)], conns[1:2+mc.Bound(r, 0, 1)], offers[:n]))
			}
			return checkUpgrades(c, us, nil, 3*c.Choose(2), c.Choose(2))
		})
	})
}
