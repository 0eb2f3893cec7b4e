// C07: every response is well-formed and says exactly what the handler built.
package main

import (
	"errors"
	"fmt"
	"math"
	nethttp "net/http"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
)

// model is what a response is supposed to say.
type model struct {
	code    int
	reason  string
	ctype   string
	headers []srv.Header
	cookies []cookie.Cookie
	body    string
	stream  string
	// streamed tells that stream replaces the body, chunked that its size is not known
	streamed, chunked bool
}

func fresh() *model { return &model{code: 200, ctype: "text/html"} }

type op struct {
	name string
	do   func(r *http.Request, resp *http.Response) *http.Response
	mod  func(m *model)
}

var (
	simple = cookie.New("a", "b")
	full   = cookie.Build("full", "v a\"l").Path("/p").Domain("d.example").Expires(time.Date(2033, 2, 3, 4, 5, 6, 0, time.FixedZone("x", 3*3600))).
		MaxAge(77).SameSite(cookie.SameSiteLax).Secure(true).HttpOnly(true).Cookie()
)

func header(k string, vs ...string) op {
	return op{fmt.Sprintf("Header(%q,%q)", k, vs), func(_ *http.Request, r *http.Response) *http.Response { return r.Header(k, vs...) },
		func(m *model) {
			for _, v := range vs {
				m.headers = append(m.headers, srv.Header{Key: k, Value: v})
			}
		}}
}

func code(n int) op {
	return op{fmt.Sprintf("Code(%d)", n), func(_ *http.Request, r *http.Response) *http.Response { return r.Code(status.Code(n)) },
		func(m *model) { m.code = n }}
}

func body(s string) op {
	return op{fmt.Sprintf("String(%q)", s), func(_ *http.Request, r *http.Response) *http.Response { return r.String(s) },
		func(m *model) { m.body = s }}
}

var failure = errors.New("the failure")

var ops = []op{
	code(201), code(404), code(299),
	{"Status(Mine)", func(_ *http.Request, r *http.Response) *http.Response { return r.Status("Mine Own") }, func(m *model) { m.reason = "Mine Own" }},
	header("X-A", "1"),
	header("x-a", "2", "3"),
	header("Server", "handler"),
	header("Empty", ""),
	{"Headers", func(_ *http.Request, r *http.Response) *http.Response {
		return r.Headers(map[string][]string{"X-M": {"m1", "m2"}})
	}, func(m *model) {
		m.headers = append(m.headers, srv.Header{Key: "X-M", Value: "m1"}, srv.Header{Key: "X-M", Value: "m2"})
	}},
	{"ContentType", func(_ *http.Request, r *http.Response) *http.Response { return r.ContentType("a/b") }, func(m *model) { m.ctype = "a/b" }},
	{"Header(content-TYPE)", func(_ *http.Request, r *http.Response) *http.Response { return r.Header("content-TYPE", "c/d") }, func(m *model) { m.ctype = "c/d" }},
	body("hello"), body(""), body("a\r\n\r\nHTTP/1.1 200 OK\r\n\x00\xff"),
	{"Bytes", func(_ *http.Request, r *http.Response) *http.Response { return r.Bytes([]byte("some bytes")) }, func(m *model) { m.body = "some bytes" }},
	{"Write", func(_ *http.Request, r *http.Response) *http.Response {
		n, err := r.Write([]byte("wr"))
		if n != 2 || err != nil {
			panic("Write")
		}
		return r
	}, func(m *model) { m.body += "wr" }},
	{"Cookie", func(_ *http.Request, r *http.Response) *http.Response { return r.Cookie(simple) }, func(m *model) { m.cookies = append(m.cookies, simple) }},
	{"Cookies", func(_ *http.Request, r *http.Response) *http.Response { return r.Cookie(full, simple) },
		func(m *model) { m.cookies = append(m.cookies, full, simple) }},
	{"JSON", func(_ *http.Request, r *http.Response) *http.Response { return r.JSON(map[string]int{"k": 1}) },
		func(m *model) { m.body, m.ctype = `{"k":1}`, "application/json" }},
	{"Error(text)", func(_ *http.Request, r *http.Response) *http.Response { return r.Error(failure) },
		func(m *model) { m.code, m.body = 500, "the failure" }},
	{"Error(text,503)", func(_ *http.Request, r *http.Response) *http.Response {
		return r.Error(failure, status.ServiceUnavailable, 599)
	},
		func(m *model) { m.code, m.body = 503, "the failure" }},
	{"Error(http)", func(_ *http.Request, r *http.Response) *http.Response { return r.Error(status.ErrForbidden, 500) },
		func(m *model) { m.code = 403 }},
	{"Error(nil)", func(_ *http.Request, r *http.Response) *http.Response { return r.Error(nil, 500) }, func(m *model) {}},
	{"Attachment", func(_ *http.Request, r *http.Response) *http.Response {
		return r.Attachment(strings.NewReader("sized"), 5)
	},
		func(m *model) { m.streamed, m.chunked, m.stream = true, false, "sized" }},
	{"Stream", func(_ *http.Request, r *http.Response) *http.Response {
		return r.Attachment(strings.NewReader("unsized"), -1)
	},
		func(m *model) { m.streamed, m.chunked, m.stream = true, true, "unsized" }},
	{"Clear", func(_ *http.Request, r *http.Response) *http.Response { return r.Clear() }, func(m *model) { *m = *fresh() }},
	{"Respond", func(q *http.Request, r *http.Response) *http.Response { return q.Respond() }, func(m *model) { *m = *fresh() }},
	{"NewResponse", func(q *http.Request, r *http.Response) *http.Response { return http.NewResponse() }, func(m *model) { *m = *fresh() }},
	{"http.Respond", func(q *http.Request, r *http.Response) *http.Response { return http.Respond(q) }, func(m *model) { *m = *fresh() }},
	{"http.String", func(q *http.Request, r *http.Response) *http.Response { return http.String(q, "S") },
		func(m *model) { *m = *fresh(); m.body = "S" }},
	{"http.Bytes", func(q *http.Request, r *http.Response) *http.Response { return http.Bytes(q, []byte("B")) },
		func(m *model) { *m = *fresh(); m.body = "B" }},
	{"http.Code", func(q *http.Request, r *http.Response) *http.Response { return http.Code(q, 202) },
		func(m *model) { *m = *fresh(); m.code = 202 }},
	{"http.JSON", func(q *http.Request, r *http.Response) *http.Response { return http.JSON(q, []int{1}) },
		func(m *model) { *m = *fresh(); m.body, m.ctype = "[1]", "application/json" }},
	{"http.Error", func(q *http.Request, r *http.Response) *http.Response { return http.Error(q, failure, 502) },
		func(m *model) { *m = *fresh(); m.code, m.body = 502, "the failure" }},
}

var defaults = []map[string]string{
	{},
	{"Server": "indigo"},
	{"X-A": "default", "Accept-Encodings": "identity", "SERVER": "big"},
}

func reason(m *model) string {
	if m.reason != "" {
		return m.reason
	}
	if t := nethttp.StatusText(m.code); t != "" {
		return t
	}
	return ""
}

// check compares a parsed response with the model.
func check(got *srv.Response, m *model, proto, method string, def map[string]string) error {
	if got.Proto != proto {
		return fmt.Errorf("the protocol is %q, not %q", got.Proto, proto)
	}
	if got.Code != m.code {
		return fmt.Errorf("the code is %d, not %d", got.Code, m.code)
	}
	// the phrase of codes without a standard one is not specified
	if w := reason(m); got.Reason != w && w != "" {
		return fmt.Errorf("the reason is %q, not %q", got.Reason, w)
	}
	if strings.ContainsAny(got.Reason, "\r\n") {
		return fmt.Errorf("the reason is %q", got.Reason)
	}
	// what is not among the handler's headers
	var own, cookies, rest []srv.Header
	names := map[string]bool{}
	for _, h := range m.headers {
		names[strings.ToLower(h.Key)] = true
	}
	for _, h := range got.Headers {
		switch {
		case strings.EqualFold(h.Key, "Set-Cookie"):
			cookies = append(cookies, h)
		case names[strings.ToLower(h.Key)]:
			own = append(own, h)
		default:
			rest = append(rest, h)
		}
	}
	if fmt.Sprint(own) != fmt.Sprint(m.headers) {
		return fmt.Errorf("the handler's headers are %q, not %q", own, m.headers)
	}
	if len(cookies) != len(m.cookies) {
		return fmt.Errorf("there are %d cookies, not %d", len(cookies), len(m.cookies))
	}
	for i, h := range cookies {
		if err := srv.CheckCookie(h.Value, m.cookies[i]); err != nil {
			return err
		}
	}
	want := []string{"content-type: " + m.ctype}
	length := len(m.body)
	if m.streamed {
		length = len(m.stream)
	}
	switch {
	case m.streamed && m.chunked && proto == "HTTP/1.0":
		// the end of the connection is the end of the body
		if !got.Unframed && method != "HEAD" {
			return errors.New("a stream of an unknown size does not last until the end of the connection")
		}
	case m.streamed && m.chunked:
		want = append(want, "transfer-encoding: chunked")
	default:
		want = append(want, "content-length: "+strconv.Itoa(length))
	}
	for k, v := range def {
		if !names[strings.ToLower(k)] {
			want = append(want, strings.ToLower(k)+": "+v)
		}
	}
	var have []string
	for _, h := range rest {
		have = append(have, strings.ToLower(h.Key)+": "+h.Value)
	}
	sort.Strings(want)
	sort.Strings(have)
	if strings.Join(want, "\n") != strings.Join(have, "\n") {
		return fmt.Errorf("besides the handler's headers there are %q, not %q", have, want)
	}
	b := m.body
	if m.streamed {
		b = m.stream
	}
	if method == "HEAD" {
		b = ""
	}
	if got.Body != b {
		return fmt.Errorf("the body is %q, not %q", got.Body, b)
	}
	return nil
}

var protos = []string{"HTTP/1.1", "HTTP/1.0"}
var methods = []string{"GET", "HEAD", "POST"}

func run(c *mc.C, key string, prog []op, method, proto string, def map[string]string, respBuf int, again bool) error {
	c.Note("%s", key)
	m := fresh()
	for _, o := range prog {
		o.mod(m)
	}
	cfg := srv.Config()
	cfg.Headers.Default = def
	if respBuf > 0 {
		cfg.HTTP.ResponseBuffSize = respBuf
	}
	raw := method + " / " + proto + "\r\n\r\n"
	if proto == "HTTP/1.0" && again {
		raw = method + " / " + proto + "\r\nConnection: keep-alive\r\n\r\n"
	}
	n := 1
	if again {
		raw += raw
		n = 2
	}
	if m.streamed && m.chunked && proto == "HTTP/1.0" && method != "HEAD" {
		n = 1
	}
	conn := srv.NewConn([]byte(raw))
	f := srv.Funcs{
		Request: func(r *http.Request) *http.Response {
			resp := r.Respond()
			for _, o := range prog {
				resp = o.do(r, resp)
			}
			return resp
		},
		Error: func(r *http.Request, err error) *http.Response { return http.Error(r, err) },
	}
	if err := srv.Serve(cfg, conn, 0, f); err != nil {
		return mc.Failf(key, "%v", err)
	}
	c.Steps(len(prog) + n)
	c.State(conn.Out.String())
	head := method == "HEAD"
	rs, err := srv.ParseAll(conn.Out.Bytes(), head, head)
	if err != nil {
		return mc.Failf(key, "%v in %q", err, conn.Out.String())
	}
	if len(rs) != n {
		return mc.Failf(key, "%d responses to %d requests: %q", len(rs), n, conn.Out.String())
	}
	for i, got := range rs {
		if err := check(got, m, proto, method, def); err != nil {
			return mc.Failf(key, "response %d: %v in %q", i+1, err, conn.Out.String())
		}
	}
	return nil
}

func name(prog []op) string {
	var s []string
	for _, o := range prog {
		s = append(s, o.name)
	}
	return strings.Join(s, ".")
}

func main() {
	mc.Main("C07", func(r *mc.R) {
		r.Assume("handlers do not set Content-Length or Transfer-Encoding themselves, nor header names, values or cookies with line breaks")
		r.Assume("the order of default headers, and of them and the derived headers among the others, is not specified; the attribute Max-Age may also be spelled MaxAge")
		depth := mc.Bound(r, 3, 4)
		r.Space("programs", func(c *mc.C) error {
			var prog []op
			for n := c.Choose(depth + 1); n > 0; n-- {
				prog = append(prog, mc.Pick(c, ops))
			}
			method, proto := mc.Pick(c, methods), mc.Pick(c, protos)
			def := mc.Pick(c, defaults)
			if depth == 4 && len(prog) == 4 && (method == "POST" || proto == "HTTP/1.0") {
				return mc.ErrSkip
			}
			key := fmt.Sprintf("%s %s default %v: %s", method, proto, def, name(prog))
			return run(c, key, prog, method, proto, def, 0, c.Bool())
		})
		r.Space("codes", func(c *mc.C) error {
			n := 200 + c.Choose(800)
			prog := []op{code(n), body("text")}
			if n == 204 || n == 304 {
				prog = prog[:1]
			}
			if c.Bool() {
				prog = append(prog, ops[3])
			}
			method, proto := mc.Pick(c, methods), mc.Pick(c, protos)
			return run(c, fmt.Sprintf("%s %s %s", method, proto, name(prog)), prog, method, proto, defaults[1], 0, false)
		})
		sizes := mc.Bound(r, 300, 1200)
		r.Space("body sizes", func(c *mc.C) error {
			n := c.Choose(sizes)
			method, proto := mc.Pick(c, methods), mc.Pick(c, protos)
			buf := mc.Pick(c, []int{1, 64, 100, 256, 1024})
			def := mc.Pick(c, defaults)
			s := strings.Repeat("0123456789abcdef", n/16+1)[:n]
			prog := []op{body(s)}
			if c.Bool() {
				prog = append(prog, header("X-Long", s[:n/2]))
			}
			return run(c, fmt.Sprintf("%s %s default %v buffer %d, body of %d bytes, headers %v", method, proto, def, buf, n, len(prog) > 1), prog, method, proto, def, buf, true)
		})
		r.Space("default headers", func(c *mc.C) error {
			// all subsets of default headers, overridden by all subsets in another case
			keys := []string{"Server", "Date", "X-A", "X-Ab"}
			def := map[string]string{}
			var prog []op
			for i, k := range keys {
				switch c.Choose(5) {
				case 1:
					def[k] = "default" + strconv.Itoa(i)
				case 2:
					def[k] = "default" + strconv.Itoa(i)
					prog = append(prog, header(strings.ToUpper(k), "mine"))
				case 3:
					def[k] = ""
					prog = append(prog, header(k, "mine", "two"))
				case 4:
					prog = append(prog, header(k, "", "two"))
				}
			}
			method, proto := mc.Pick(c, methods), mc.Pick(c, protos)
			switch c.Choose(3) {
			case 1:
				prog = append(prog, ops[23])
			case 2:
				prog = append(prog, ops[24])
			}
			return run(c, fmt.Sprintf("%s %s default %v: %s", method, proto, def, name(prog)), prog, method, proto, def, 0, true)
		})
		r.Space("header bytes", func(c *mc.C) error {
			// every byte but line breaks as a header value, a reason, a content type, and in bodies
			b := byte(c.Choose(256))
			if b == '\r' || b == '\n' {
				return mc.ErrSkip
			}
			s := "x" + string([]byte{b}) + "y"
			var prog []op
			switch c.Choose(4) {
			case 0:
				prog = []op{header("X", s)}
			case 1:
				prog = []op{{"Status", func(_ *http.Request, r *http.Response) *http.Response { return r.Status(s) }, func(m *model) { m.reason = s }}}
			case 2:
				prog = []op{{"ContentType", func(_ *http.Request, r *http.Response) *http.Response { return r.ContentType(s) }, func(m *model) { m.ctype = s }}}
			case 3:
				prog = []op{body(s)}
			}
			method, proto := mc.Pick(c, methods), mc.Pick(c, protos)
			return run(c, fmt.Sprintf("%s %s %s %q", method, proto, name(prog), s), prog, method, proto, defaults[1], 0, true)
		})
		most := mc.Bound(r, 1<<21, 1<<24)
		large := mc.Ladder(most + 1)
		r.Space("large responses", func(c *mc.C) error {
			// one part of a response of every order of magnitude, between two small ones
			n := mc.Pick(c, large)
			which := c.Choose(len(scaled))
			if scaled[which].slow && n > 3000 {
				return mc.ErrSkip
			}
			method := mc.Pick(c, methods[:2])
			def := mc.Pick(c, defaults)
			buf := mc.Pick(c, []int{1, 1024, 1 << 17})
			big := scaled[which].make(n)
			small := []op{code(201), header("X-A", "1"), body("small")}
			progs := [][]op{small, big, small, {body("other"), ops[16]}}
			key := fmt.Sprintf("%s default %v buffer %d, %s of %d", method, def, buf, scaled[which].name, n)
			return runSeq(c, key, progs, method, def, buf)
		})
		r.Space("many default headers", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 70, 300)))
			def := map[string]string{}
			for i := 0; i < n; i++ {
				def[fmt.Sprintf("Default-%d", i)] = fmt.Sprintf("value %d", i)
			}
			over := []op{body("first")}
			first := c.Choose(n + 1)
			step := mc.Pick(c, []int{1, 2, 7, n + 1})
			for i := first; i < n; i += step {
				over = append(over, header(mc.Pick(c, []string{"Default-", "DEFAULT-"})+fmt.Sprint(i), "mine"))
				if c.Bool() {
					break
				}
				if step < n {
					for i += step; i < n; i += step {
						over = append(over, header(fmt.Sprintf("default-%d", i), "mine"))
					}
				}
			}
			key := fmt.Sprintf("%d default headers, overridden by %s", n, name(over))
			if len(key) > 300 {
				key = fmt.Sprintf("%d default headers, %d overridden in steps of %d from %d", n, len(over)-1, step, first)
			}
			return runSeq(c, key, [][]op{{body("a")}, over, {body("b")}}, "GET", def, 0)
		})
		r.Space("ages", func(c *mc.C) error {
			age := mc.Pick(c, append(mc.Ladder(math.MaxInt32), math.MaxInt32+1, 1<<40, math.MaxInt64, -1, math.MinInt32, math.MinInt64))
			ck := cookie.Build("n", "v").MaxAge(age).Cookie()
			prog := []op{{fmt.Sprintf("Cookie(MaxAge %d)", age), func(_ *http.Request, r *http.Response) *http.Response { return r.Cookie(ck) },
				func(m *model) { m.cookies = append(m.cookies, ck) }}}
			return run(c, name(prog), prog, "GET", "HTTP/1.1", nil, 0, false)
		})
		// connections of tens of thousands of requests
		r.Space("long-lived connections", func(c *mc.C) error {
			n, kind, group := mc.Pick(c, srv.Lengths), mc.Pick(c, []string{"mixed", "plain"}[:mc.Bound(r, 1, 2)]), mc.Pick(c, []int{1, 7})
			if n > mc.Bound(r, 70000, 1<<20) {
				return mc.ErrSkip
			}
			key := fmt.Sprintf("%d requests of the kind %s, %d at once", n, kind, group)
			c.Note("%s", key)
			c.Steps(n)
			c.State(key)
			if err := srv.Long(kind, n, group); err != nil {
				return mc.Failf("long:"+key, "%v", err)
			}
			return nil
		})
	})
}

// scaled are responses with something of any size.
var scaled = []struct {
	name string
	slow bool
	make func(n int) []op
}{
	{"a body", false, func(n int) []op { return []op{body(filler(n))} }},
	{"a written body", false, func(n int) []op {
		s := filler(n)
		write := func(part string) op {
			return op{"Write", func(_ *http.Request, r *http.Response) *http.Response {
				if k, err := r.Write([]byte(part)); k != len(part) || err != nil {
					panic("Write")
				}
				return r
			}, func(m *model) { m.body += part }}
		}
		return []op{write(s[:n/3]), write(s[n/3:]), write("!")}
	}},
	{"a header value", false, func(n int) []op { return []op{header("X-Large", filler(n)), header("Server", "mine"), body("b")} }},
	{"a header name", false, func(n int) []op { return []op{header("X-"+filler(n), "v"), body("b")} }},
	{"many headers", true, func(n int) (all []op) {
		for i := 0; i < n; i++ {
			all = append(all, header(fmt.Sprintf("X-%d", i%1000), fmt.Sprint(i)))
		}
		return append(all, body("b"))
	}},
	{"values of a header", false, func(n int) []op {
		if n > 20000 {
			n = 20000
		}
		vs := make([]string, n)
		for i := range vs {
			vs[i] = strconv.Itoa(i)
		}
		return []op{header("X-Many", vs...)}
	}},
	{"cookies", true, func(n int) (all []op) {
		for i := 0; i < n; i++ {
			ck := cookie.New(fmt.Sprintf("c%d", i), strconv.Itoa(i))
			all = append(all, op{"Cookie", func(_ *http.Request, r *http.Response) *http.Response { return r.Cookie(ck) },
				func(m *model) { m.cookies = append(m.cookies, ck) }})
		}
		return all
	}},
	{"a cookie value", false, func(n int) []op {
		ck := cookie.New("big", filler(n))
		return []op{{"Cookie", func(_ *http.Request, r *http.Response) *http.Response { return r.Cookie(ck) },
			func(m *model) { m.cookies = append(m.cookies, ck) }}}
	}},
	{"a reason", false, func(n int) []op {
		s := "R" + filler(n)
		return []op{{"Status", func(_ *http.Request, r *http.Response) *http.Response { return r.Status(s) }, func(m *model) { m.reason = s }}}
	}},
	{"a stream", false, func(n int) []op {
		s := "R" + filler(n)
		return []op{{"Attachment", func(_ *http.Request, r *http.Response) *http.Response {
			return r.Attachment(strings.NewReader(s), len(s))
		}, func(m *model) { m.streamed, m.chunked, m.stream = true, false, s }}}
	}},
	{"a chunked stream", false, func(n int) []op {
		s := filler(n)
		return []op{{"Stream", func(_ *http.Request, r *http.Response) *http.Response {
			return r.Attachment(strings.NewReader(s), -1)
		}, func(m *model) { m.streamed, m.chunked, m.stream = true, true, s }}}
	}},
	{"a JSON string", false, func(n int) []op {
		s := filler(n)
		return []op{{"JSON", func(_ *http.Request, r *http.Response) *http.Response { return r.JSON(s) },
			func(m *model) { m.body, m.ctype = `"`+s+`"`, "application/json" }}}
	}},
}

func filler(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte((i+i/251)%26)
	}
	return string(b)
}

// runSeq serves one request per program on a connection.
func runSeq(c *mc.C, key string, progs [][]op, method string, def map[string]string, respBuf int) error {
	c.Note("%s", key)
	cfg := srv.Config()
	cfg.Headers.Default = def
	cfg.HTTP.FileBuffSize = 5000
	if respBuf > 0 {
		cfg.HTTP.ResponseBuffSize = respBuf
	}
	conn := srv.NewConn([]byte(strings.Repeat(method+" / HTTP/1.1\r\n\r\n", len(progs))))
	i := 0
	f := srv.Funcs{
		Request: func(r *http.Request) *http.Response {
			resp := r.Respond()
			for _, o := range progs[i] {
				resp = o.do(r, resp)
			}
			i++
			return resp
		},
		Error: func(r *http.Request, err error) *http.Response { return http.Error(r, err) },
	}
	if err := srv.Serve(cfg, conn, 0, f); err != nil {
		return mc.Failf(key, "%v", err)
	}
	c.Steps(len(progs))
	c.State(key)
	var heads []bool
	for range progs {
		heads = append(heads, method == "HEAD")
	}
	rs, err := srv.ParseAll(conn.Out.Bytes(), heads...)
	if err != nil || len(rs) != len(progs) {
		return mc.Failf(key, "%d responses to %d requests, %v", len(rs), len(progs), err)
	}
	for i, got := range rs {
		m := fresh()
		for _, o := range progs[i] {
			o.mod(m)
		}
		if err := check(got, m, "HTTP/1.1", method, def); err != nil {
			s := err.Error()
			if len(s) > 500 {
				s = s[:250] + "..." + s[len(s)-250:]
			}
			return mc.Failf(key, "response %d: %s", i+1, s)
		}
	}
	return nil
}
