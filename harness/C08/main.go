// C08: connections persist exactly when they should, answering in order.
package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
)

// option is a Connection header; what it asks for is known by construction.
type option struct {
	value     string
	close     bool
	keepAlive bool
}

// the header may also be absent
var options = []option{
	{"", false, false},
	{"close", true, false},
	{"keep-alive", false, true},
	{"Close", true, false},
	{"KEEP-ALIVE", false, true},
	{"x", false, false},
	{"keep-alive, x", false, true},
	{"x,close", true, false},
	{"closed", false, false},
	{"keep-alives", false, false},
	{"x, Keep-Alive , y", false, true},
	{"cloSE ,x", true, false},
	{"keep", false, false},
	{"x close", false, false},
	{"keep-alive, close", true, true},
	{"Close,Keep-Alive", true, true},
}

var kinds = []string{"plain", "text", "sized", "chunks", "error", "code", "nil", "new", "cookie", "close-header"}

type stream struct{ io.Reader }

func (stream) Close() error { return nil }

func respond(kind, tag string, r *http.Request) *http.Response {
	switch kind {
	case "plain":
		return r.Respond().Header("Tag", tag)
	case "text":
		return r.Respond().Header("Tag", tag).String("text of " + tag)
	case "sized":
		return r.Respond().Header("Tag", tag).Attachment(strings.NewReader("stream of "+tag), len("stream of "+tag))
	case "chunks":
		return r.Respond().Header("Tag", tag).Attachment(stream{strings.NewReader("stream of " + tag)}, 0)
	case "error":
		return r.Respond().Header("Tag", tag).Error(fmt.Errorf("failure"))
	case "code":
		return r.Respond().Header("Tag", tag).Code(status.NotFound)
	case "nil":
		return nil
	case "new":
		return http.NewResponse().Header("Tag", tag).String("new")
	case "cookie":
		return r.Respond().Header("Tag", tag).Cookie(cookie.New("a", "b"))
	case "close-header":
		// an error code of the server's own does not end the connection when a handler sets it
		return r.Respond().Header("Tag", tag).Error(status.ErrBadRequest)
	}
	panic(kind)
}

type req struct {
	method, proto string
	opt           option
	kind          string
	body          string // framing of the body: none, length, chunked
	eol           string
	casing        string // of the header's name
	size          int    // of the body, if not 0
	more          string // further header lines
}

func (q req) raw(tag string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s /%s %s%s", q.method, tag, q.proto, q.eol)
	name := q.casing
	if name == "" {
		name = "Connection"
	}
	if q.opt.value != "" {
		fmt.Fprintf(&b, "%s: %s%s", name, q.opt.value, q.eol)
	}
	b.WriteString(q.more)
	body := "body"
	if q.size > 0 {
		body = strings.Repeat("b", q.size)
	}
	switch q.body {
	case "length":
		fmt.Fprintf(&b, "Content-Length: %d%s%s%s", len(body), q.eol, q.eol, body)
	case "chunked":
		fmt.Fprintf(&b, "Transfer-Encoding: chunked%s%s%x\r\n%s\r\n0\r\n\r\n", q.eol, q.eol, len(body), body)
	default:
		b.WriteString(q.eol)
	}
	return b.String()
}

func (q req) keeps() bool {
	if q.proto == "HTTP/1.0" && q.kind == "chunks" && q.method != "HEAD" {
		return false // the end of the connection is the end of the body
	}
	if q.proto == "HTTP/1.0" {
		return q.opt.keepAlive && !q.opt.close
	}
	return !q.opt.close
}

func (q req) String() string {
	return fmt.Sprintf("%s %s %s:%.40q(%d) %s %s(%d) %.20q(%d)", q.method, q.proto, q.casing, q.opt.value, len(q.opt.value), q.kind, q.body, q.size, q.more, len(q.more))
}

// run sends the requests in the given way: "at once", "bytewise" or "one by one" (each its own read).
func run(c *mc.C, qs []req, how string, read bool) error {
	key := fmt.Sprintf("%v %s, bodies read: %v", qs, how, read)
	c.Note("%s", key)
	var raws []string
	ends := []int{}
	total := 0
	for i, q := range qs {
		raws = append(raws, q.raw(fmt.Sprintf("r%d", i)))
		total += len(raws[i])
		ends = append(ends, total)
	}
	var conn *srv.Conn
	switch how {
	case "at once":
		conn = srv.NewConn([]byte(strings.Join(raws, "")))
	case "bytewise":
		conn = srv.NewConn(srv.Bytewise([]byte(strings.Join(raws, "")))...)
	default:
		var p [][]byte
		for _, s := range raws {
			p = append(p, []byte(s))
		}
		conn = srv.NewConn(p...)
	}
	var seen []string
	errs := 0
	f := srv.Funcs{
		Request: func(r *http.Request) *http.Response {
			tag := strings.Clone(strings.Trim(string(r.Path), "/"))
			seen = append(seen, tag)
			if read {
				_, _ = r.Body.Bytes()
			}
			for i := range qs {
				if tag == fmt.Sprintf("r%d", i) {
					return respond(qs[i].kind, tag, r)
				}
			}
			return r.Respond().Code(599)
		},
		Error: func(r *http.Request, err error) *http.Response {
			errs++
			return http.Error(r, err)
		},
	}
	if err := srv.Serve(srv.Config(), conn, 0, f); err != nil {
		return mc.Failf(key, "%v", err)
	}
	c.Steps(len(qs))
	var want []string
	var heads []bool
	alive := true
	for i, q := range qs {
		want = append(want, fmt.Sprintf("r%d", i))
		heads = append(heads, q.method == "HEAD")
		if !q.keeps() {
			alive = false
			break
		}
	}
	c.State(fmt.Sprint(seen, conn.Out.Len()))
	if fmt.Sprint(seen) != fmt.Sprint(want) {
		return mc.Failf(key, "%v were served, not %v", seen, want)
	}
	rs, err := srv.ParseAll(conn.Out.Bytes(), heads...)
	if err != nil {
		return mc.Failf(key, "%v in %q", err, conn.Out.String())
	}
	if len(rs) != len(want) {
		return mc.Failf(key, "%d responses to %d requests: %q", len(rs), len(want), conn.Out.String())
	}
	upTo := 0
	for i, rsp := range rs {
		if qs[i].kind != "nil" && rsp.Value("Tag") != want[i] {
			return mc.Failf(key, "response %d is the one to %q: %q", i+1, rsp.Value("Tag"), conn.Out.String())
		}
		if rsp.Proto != qs[i].proto {
			return mc.Failf(key, "response %d has the protocol %s: %q", i+1, rsp.Proto, conn.Out.String())
		}
	}
	upTo = ends[len(want)-1]
	if !alive {
		// nothing may be read behind the last request
		if got := conn.InReads[len(conn.InReads)-1]; got >= upTo {
			return mc.Failf(key, "the connection is read after the request that closed it (%d bytes in, it ended at %d)", got, upTo)
		}
	} else {
		// every response is there before waiting for more data
		if how != "at once" {
			for i, e := range ends {
				for k, in := range conn.InReads {
					if in >= e {
						n, _ := srv.ParseAll(conn.Out.Bytes()[:conn.OutReads[k]], heads...)
						if len(n) < i+1 {
							return mc.Failf(key, "waiting for more data with request %d received and not answered", i+1)
						}
						break
					}
				}
			}
		}
		if in := conn.InReads[len(conn.InReads)-1]; in != total {
			return mc.Failf(key, "the connection was given up with %d of %d bytes read", in, total)
		}
	}
	// the end of the connection is reported once
	if errs != 1 {
		return mc.Failf(key, "%d errors were reported, not just the end of the connection", errs)
	}
	return nil
}

func main() {
	mc.Main("C08", func(r *mc.R) {
		r.Assume("no supported upgrade is asked for")
		hows := []string{"at once", "one by one", "bytewise"}
		protos := []string{"HTTP/1.1", "HTTP/1.0"}
		methods := []string{"GET", "HEAD", "POST", "OPTIONS"}
		bodies := []string{"none", "length", "chunked"}
		r.Space("single and follow-up", func(c *mc.C) error {
			q := req{mc.Pick(c, methods), mc.Pick(c, protos), mc.Pick(c, options), mc.Pick(c, kinds), mc.Pick(c, bodies), mc.Pick(c, []string{"\r\n", "\n"}),
				mc.Pick(c, []string{"Connection", "CONNECTION", "connection"}), 0, ""}
			if q.body == "chunked" && q.proto == "HTTP/1.0" {
				return mc.ErrSkip
			}
			next := req{"GET", "HTTP/1.1", options[0], "text", "none", "\r\n", "", 0, ""}
			return run(c, []req{q, next}, mc.Pick(c, hows), c.Bool())
		})
		small := []option{options[0], options[1], options[2], options[5], options[7], options[10]}
		skinds := []string{"text", "sized", "chunks", "nil", "code"}
		r.Space("pairs", func(c *mc.C) error {
			var qs []req
			for i := 0; i < 2; i++ {
				q := req{mc.Pick(c, methods[:3]), mc.Pick(c, protos), mc.Pick(c, small), mc.Pick(c, skinds), mc.Pick(c, bodies), "\r\n", "", 0, ""}
				if q.body == "chunked" && q.proto == "HTTP/1.0" {
					return mc.ErrSkip
				}
				qs = append(qs, q)
			}
			qs = append(qs, req{"GET", "HTTP/1.1", options[0], "text", "none", "\r\n", "", 0, ""})
			return run(c, qs, mc.Pick(c, hows[:2]), c.Bool())
		})
		depth := mc.Bound(r, 4, 5)
		r.Space("pipelines", func(c *mc.C) error {
			var qs []req
			for i := 0; i < depth; i++ {
				q := req{mc.Pick(c, []string{"GET", "HEAD"}), mc.Pick(c, protos), mc.Pick(c, options[:3]), mc.Pick(c, []string{"text", "chunks"}), "none", "\r\n", "", 0, ""}
				qs = append(qs, q)
			}
			return run(c, qs, mc.Pick(c, hows[:2]), true)
		})
		next := req{"GET", "HTTP/1.1", options[0], "text", "none", "\r\n", "", 0, ""}
		// bodies of every order of magnitude, whether read or not
		r.Space("large bodies", func(c *mc.C) error {
			q := req{"POST", mc.Pick(c, protos), mc.Pick(c, options[:3]), mc.Pick(c, skinds), mc.Pick(c, bodies[1:]), "\r\n", "", mc.Pick(c, mc.Ladder(1<<17)), ""}
			if q.body == "chunked" && q.proto == "HTTP/1.0" || q.size == 0 {
				return mc.ErrSkip
			}
			return run(c, []req{q, next, next}, mc.Pick(c, hows[:2]), c.Bool())
		})
		// long lists of options, and options among many headers
		r.Space("long options", func(c *mc.C) error {
			word := mc.Pick(c, []string{"close", "keep-alive", "Keep-Alive", "none"})
			n := mc.Pick(c, mc.Ladder(300))
			sep := mc.Pick(c, []string{",", ", ", " ,\t"})
			filler := mc.Pick(c, []string{"x", "closed", "keep", strings.Repeat("y", 11)})
			parts := make([]string, n)
			for i := range parts {
				parts[i] = filler
			}
			if word != "none" {
				at := mc.Pick(c, []int{0, n / 2, n})
				parts = append(parts[:at:at], append([]string{word}, parts[at:]...)...)
			}
			o := option{strings.Join(parts, sep), word == "close", strings.EqualFold(word, "keep-alive")}
			more := ""
			for i := mc.Pick(c, []int{0, 1, 8, 40}); i > 0; i-- {
				more += fmt.Sprintf("H%d: close\r\n", i)
			}
			q := req{"GET", mc.Pick(c, protos), o, "text", "none", "\r\n", "", 0, more}
			return run(c, []req{q, next}, mc.Pick(c, hows[:2]), false)
		})
		// the list of options may be split into several headers, between which others stand
		r.Space("several headers", func(c *mc.C) error {
			n := 2 + c.Choose(mc.Bound(r, 2, 3))
			proto, eol := mc.Pick(c, protos), mc.Pick(c, []string{"\r\n", "\n"})
			between := mc.Pick(c, []string{"", "X: close" + eol, "Connections: keep-alive" + eol, "Content-Type: a/b" + eol})
			var o option
			more := ""
			for i := 0; i < n; i++ {
				p := mc.Pick(c, []option{options[1], options[2], options[5], options[7], options[8], options[4], {"", false, false}})
				more += between + mc.Pick(c, []string{"Connection", "connectioN"}) + ": " + p.value + eol
				o.close = o.close || p.close
				o.keepAlive = o.keepAlive || p.keepAlive
			}
			q := req{"GET", proto, o, "text", "none", eol, "", 0, more}
			return run(c, []req{q, next}, mc.Pick(c, hows[:2]), false)
		})
		// connections which live long: a repeating pattern of requests that keep it, then one more
		r.Space("long pipelines", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 300, 3000)))
			var pattern []req
			for i := 1 + c.Choose(2); i > 0; i-- {
				pattern = append(pattern, mc.Pick(c, []req{
					next,
					{"HEAD", "HTTP/1.1", options[2], "sized", "none", "\r\n", "", 0, ""},
					{"GET", "HTTP/1.0", options[2], "text", "none", "\r\n", "", 0, ""},
					{"POST", "HTTP/1.1", options[5], "chunks", "length", "\r\n", "", 0, ""},
					{"POST", "HTTP/1.1", options[0], "nil", "chunked", "\r\n", "", 0, ""},
					{"PUT", "HTTP/1.1", options[0], "code", "none", "\n", "", 0, ""},
				}))
			}
			var qs []req
			for i := 0; i < n; i++ {
				qs = append(qs, pattern[i%len(pattern)])
			}
			last := mc.Pick(c, []req{next, {"GET", "HTTP/1.1", options[1], "text", "none", "\r\n", "", 0, ""}, {"GET", "HTTP/1.0", options[0], "sized", "none", "\r\n", "", 0, ""}})
			qs = append(qs, last, next)
			return run(c, qs, "at once", c.Bool())
		})
		// connections of tens of thousands of requests
		r.Space("long-lived connections", func(c *mc.C) error {
			n, kind, group := mc.Pick(c, srv.Lengths), mc.Pick(c, srv.LongKinds), mc.Pick(c, []int{1, 7})
			if n > mc.Bound(r, 70000, 1<<20) {
				return mc.ErrSkip
			}
			key := fmt.Sprintf("%d requests of the kind %s, %d at once", n, kind, group)
			c.Note("%s", key)
			c.Steps(n)
			c.State(key)
			if err := srv.Long(kind, n, group); err != nil {
				return mc.Failf("long:"+key, "%v", err)
			}
			return nil
		})
	})
}
