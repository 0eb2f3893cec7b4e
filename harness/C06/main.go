// C06: requests on one connection do not influence each other.
package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
)

type ctxKey struct{}

// see renders everything a handler may see of a request.
func see(r *http.Request, bodyMode string) string {
	var b strings.Builder
	b.WriteString(srv.Describe(r))
	fmt.Fprintf(&b, "|ctx=%v env=%v/%q/%q", r.Ctx.Value(ctxKey{}), r.Env.Error, r.Env.AllowedMethods, r.Env.AliasFrom)
	allow := strings.Split(r.Env.AllowedMethods, ",")
	sort.Strings(allow)
	for _, p := range r.Params.Unwrap() {
		fmt.Fprintf(&b, "|param %q=%q", p.Key, p.Value)
	}
	jar, err := r.Cookies()
	if err != nil {
		b.WriteString("|bad cookies")
	} else {
		for _, p := range jar.Unwrap() {
			fmt.Fprintf(&b, "|cookie %q=%q", p.Key, p.Value)
		}
	}
	params, err := r.Query.Unwrap()
	if err != nil {
		b.WriteString("|bad query")
	} else {
		for _, p := range params.Unwrap() {
			fmt.Fprintf(&b, "|query %q=%q", p.Key, p.Value)
		}
	}
	fmt.Fprintf(&b, "|hijacked=%v remote=%v", r.WasHijacked(), r.Remote)
	body, err := srv.ReadBody(r, bodyMode)
	fmt.Fprintf(&b, "|body=%q %v", body, err != nil)
	return b.String()
}

type closer struct {
	io.Reader
}

func (closer) Close() error { return nil }

// behaviours are what a handler does with the response.
var behaviours = map[string]func(r *http.Request) *http.Response{
	"/plain":  func(r *http.Request) *http.Response { return r.Respond() },
	"/string": func(r *http.Request) *http.Response { return http.String(r, "some text") },
	"/code":   func(r *http.Request) *http.Response { return http.Code(r, status.Teapot).String("tea") },
	"/status": func(r *http.Request) *http.Response { return r.Respond().Status("Custom Text").Code(201) },
	"/header": func(r *http.Request) *http.Response {
		return r.Respond().Header("X-One", "1", "2").Header("Server", "mine").String("h")
	},
	"/over": func(r *http.Request) *http.Response { return r.Respond().Header("X-Default", "overridden") },
	"/cookie": func(r *http.Request) *http.Response {
		return r.Respond().Cookie(cookie.New("a", "b"), cookie.Build("c", "d").Path("/").MaxAge(3).Expires(time.Unix(0, 0)).Cookie())
	},
	"/sized": func(r *http.Request) *http.Response { return r.Respond().Attachment(strings.NewReader("stream"), 6) },
	"/chunks": func(r *http.Request) *http.Response {
		return r.Respond().Attachment(closer{strings.NewReader("stream")}, -1)
	},
	"/json": func(r *http.Request) *http.Response { return http.JSON(r, map[string]int{"a": 1}) },
	"/type": func(r *http.Request) *http.Response {
		return r.Respond().ContentType("x/y").Header("Transfer-Encoding", "identity")
	},
	"/error": func(r *http.Request) *http.Response { return http.Error(r, errors.New("failure")) },
	"/herr":  func(r *http.Request) *http.Response { return http.Error(r, status.ErrForbidden) },
	"/nil":   func(r *http.Request) *http.Response { return nil },
	"/write": func(r *http.Request) *http.Response {
		resp := r.Respond()
		_, _ = resp.Write([]byte("written"))
		return resp
	},
	"/ctx": func(r *http.Request) *http.Response {
		r.Ctx = context.WithValue(r.Ctx, ctxKey{}, "leak")
		r.Env.Error, r.Env.AllowedMethods, r.Env.AliasFrom = status.ErrGone, "LEAK", "/leak"
		r.Params.Add("leak", "leak")
		r.Headers.Add("Leak", "leak")
		return http.String(r, "ctx")
	},
	"/own": func(r *http.Request) *http.Response {
		return http.NewResponse().Code(202).Header("Own", "response").String("own")
	},
	// it leaves the builder of the request dirty
	"/dirty": func(r *http.Request) *http.Response {
		r.Respond().Code(500).Header("Dirty", "yes").Cookie(cookie.New("x", "y")).String("dirty").Status("Dirty")
		return http.NewResponse().String("clean")
	},
}

var paths []string

func init() {
	for p := range behaviours {
		paths = append(paths, p)
	}
	sort.Strings(paths)
}

type feature struct {
	name  string
	build func(path string) string
}

var features = []feature{
	{"get", func(p string) string { return "GET " + p + " HTTP/1.1\r\n\r\n" }},
	{"headers", func(p string) string {
		return "GET " + p + " HTTP/1.1\r\nHost: h\r\nX-A: 1\r\nX-B: 2\r\nX-C: 3\r\nX-D: 4\r\nX-E: 5\r\n\r\n"
	}},
	{"cookies", func(p string) string { return "GET " + p + " HTTP/1.1\r\nCookie: a=b; c=d\r\nCookie: e=f\r\n\r\n" }},
	{"badcookies", func(p string) string { return "GET " + p + " HTTP/1.1\r\nCookie: a\r\n\r\n" }},
	{"query", func(p string) string { return "GET " + p + "?x=1&y=%41&flag HTTP/1.1\r\n\r\n" }},
	{"badquery", func(p string) string { return "GET " + p + "?x=%zz HTTP/1.1\r\n\r\n" }},
	{"length", func(p string) string {
		return "POST " + p + " HTTP/1.1\r\nContent-Length: 5\r\nContent-Type: t/t\r\n\r\nhello"
	}},
	{"chunked", func(p string) string {
		return "PUT " + p + " HTTP/1.1\r\nTransfer-Encoding: gzip, chunked\r\nContent-Encoding: br\r\nTrailer: T\r\n\r\n3\r\nabc\r\n0\r\nT: v\r\n\r\n"
	}},
	{"keep-alive", func(p string) string { return "GET " + p + " HTTP/1.0\r\nConnection: keep-alive\r\n\r\n" }},
	{"head", func(p string) string { return "HEAD " + p + " HTTP/1.1\r\nConnection: x\r\n\r\n" }},
	{"upgrade", func(p string) string {
		return "GET " + p + " HTTP/1.1\r\nUpgrade: HTTP/1.0\r\nConnection: upgrade\r\n\r\n"
	}},
	{"noupgrade", func(p string) string { return "GET " + p + " HTTP/1.1\r\nUpgrade: h2c\r\n\r\n" }},
	{"expect", func(p string) string { return "OPTIONS " + p + "? HTTP/1.1\nContent-Length: 0\n\n" }},
	{"long", func(p string) string {
		return "GET " + p + "?" + strings.Repeat("q", 150) + " HTTP/1.1\r\n" + strings.Repeat("K", 70) + ": " + strings.Repeat("v", 90) + "\r\n\r\n"
	}},
}

// probes may only come last.
var last = []feature{
	{"close", func(p string) string { return "GET " + p + " HTTP/1.1\r\nConnection: close\r\n\r\n" }},
	{"http10", func(p string) string { return "GET " + p + " HTTP/1.0\r\n\r\n" }},
	{"bad header", func(p string) string { return "GET " + p + " HTTP/1.1\r\nbad\r\n\r\n" }},
	{"bad method", func(p string) string { return "BREW " + p + " HTTP/1.1\r\n\r\n" }},
	{"bad path", func(p string) string { return "GET /%zz HTTP/1.1\r\n\r\n" }},
	{"bad proto", func(p string) string { return "GET " + p + " HTTP/7.5\r\n\r\n" }},
	{"bad length", func(p string) string { return "POST " + p + " HTTP/1.1\r\nContent-Length: x\r\n\r\n" }},
	{"cut", func(p string) string { return "POST " + p + " HTTP/1.1\r\nContent-Length: 7\r\n\r\nabc" }},
	{"cut head", func(p string) string { return "GET " + p + " HT" }},
	{"too large", func(p string) string { return "POST " + p + " HTTP/1.1\r\nContent-Length: 999999999999\r\n\r\nabc" }},
}

type app struct {
	mode string
	seen []string
	errs []string
}

func (a *app) Initialize() router.Router { return a }

func (a *app) OnRequest(r *http.Request) *http.Response {
	a.seen = append(a.seen, see(r, a.mode))
	if mask, ok := maskOf(string(r.Path)); ok {
		return combined(r, mask)
	}
	if strings.HasPrefix(r.Path, "/big/") {
		return bigResponse(r, r.Path)
	}
	if f := behaviours[string(r.Path)]; f != nil {
		return f(r)
	}
	return r.Respond()
}

func (a *app) OnError(r *http.Request, err error) *http.Response {
	a.errs = append(a.errs, err.Error())
	return http.Error(r, err)
}

// canon parses the output, and sorts the default headers, whose order is not specified.
func canon(out []byte, heads []bool) (string, bool, error) {
	rs, err := srv.ParseAll(out, heads...)
	if err != nil {
		return "", false, fmt.Errorf("%w in %q", err, out)
	}
	var b strings.Builder
	for _, r := range rs {
		sort.SliceStable(r.Headers, func(i, j int) bool { return r.Headers[i].Key < r.Headers[j].Key })
		fmt.Fprintf(&b, "%s %d %s %q %q %v\n", r.Proto, r.Code, r.Reason, r.Headers, r.Body, r.Chunked)
	}
	return b.String(), len(rs) > 0 && rs[len(rs)-1].Unframed, nil
}

type result struct {
	seen string
	errs string
	out  string
	err  error
	ends bool // the last response lasts until the end of the connection
}

func isHead(s string) bool { return strings.HasPrefix(s, "HEAD ") }

func upgrades(s string) bool { return strings.Contains(s, "Upgrade: HTTP/1.") }

// heads tells which responses answer HEAD requests.
func heads(reqs []string) (h []bool) {
	for _, s := range reqs {
		if upgrades(s) {
			h = append(h, false) // the informational response
		}
		h = append(h, isHead(s))
	}
	return h
}

func runApp(mode string, reqs ...string) result {
	a := &app{mode: mode}
	cfg := srv.Config()
	cfg.Headers.Default = map[string]string{"Server": "default", "X-Default": "d"}
	conn := srv.NewConn([]byte(strings.Join(reqs, "")))
	if err := srv.Serve(cfg, conn, 0, a); err != nil {
		return result{err: err}
	}
	out, ends, err := canon(conn.Out.Bytes(), heads(reqs))
	return result{strings.Join(a.seen, "\n") + "\n", strings.Join(a.errs, "\n"), out, err, ends}
}

// compare runs the history on one connection, and every request of it on its own.
func compare(c *mc.C, run func(reqs ...string) result, reqs []string) error {
	return compareAs(c, fmt.Sprintf("%q", reqs), run, reqs)
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:1500] + " ... " + s[len(s)-1500:]
	}
	return s
}

func compareAs(c *mc.C, key string, run func(reqs ...string) result, reqs []string) error {
	c.Note("%s", key)
	got := run(reqs...)
	c.Steps(len(reqs))
	if got.err != nil {
		return mc.Failf(key, "%v", got.err)
	}
	cache, _ := c.Scratch.(map[string]result)
	if cache == nil {
		cache = map[string]result{}
		c.Scratch = cache
	}
	var want result
	for i, s := range reqs {
		one, ok := cache[s]
		if !ok {
			one = run(s)
			if len(s) < 2000 && len(one.out) < 5000 {
				cache[s] = one
			}
		}
		if one.err != nil {
			return mc.Failf(key, "alone: %v", one.err)
		}
		if one.seen != "\n" {
			want.seen += one.seen
		}
		want.out += one.out
		if i == len(reqs)-1 || one.ends {
			want.errs = one.errs
		}
		if one.ends {
			break
		}
	}
	if got.seen == "\n" {
		got.seen = ""
	}
	c.State(key)
	switch {
	case got.seen != want.seen:
		return mc.Failf(key, "the handler sees\n%s\nalone it would see\n%s", clip(got.seen), clip(want.seen))
	case got.out != want.out:
		return mc.Failf(key, "the client gets\n%s\nalone it would get\n%s", clip(got.out), clip(want.out))
	case got.errs != want.errs:
		return mc.Failf(key, "the errors are\n%s\nalone they would be\n%s", got.errs, want.errs)
	}
	return nil
}

func newRouter(dynamic bool) router.Router {
	r := inbuilt.New()
	answer := func(tag string) inbuilt.Handler {
		return func(req *http.Request) *http.Response {
			return req.Respond().Header("Tag", tag).String(canonAllow(see(req, "bytes"), req.Env.AllowedMethods))
		}
	}
	r.Get("/s", answer("s"))
	r.Post("/s", answer("post"))
	r.Get("/ctx", func(req *http.Request) *http.Response {
		req.Ctx = context.WithValue(req.Ctx, ctxKey{}, "leak")
		return http.String(req, "x")
	})
	if dynamic {
		r.Get("/d/{a}/{b}", answer("d"))
		r.Get("/e/{c}", answer("e"))
		r.Post("/e/{c}", answer("ep"))
	}
	r.Alias("/alias", "/s")
	r.Catch("/catch", answer("catch"))
	r.RouteError(answer("405"), status.MethodNotAllowed)
	r.RouteError(answer("other"))
	r.Use(middleware.CustomContext(context.WithValue(context.Background(), ctxKey{}, "base")))
	return r.Initialize()
}

// canonAllow sorts the list of methods, whose order is not specified.
func canonAllow(s, allow string) string {
	if allow == "" {
		return s
	}
	m := strings.Split(allow, ",")
	sort.Strings(m)
	return strings.ReplaceAll(s, fmt.Sprintf("%q", allow), strings.Join(m, "+"))
}

func main() {
	mc.Main("C06", func(r *mc.R) {
		r.Assume("the order of default headers is not specified and not compared")
		r.Assume("the chunked-body and buffer modules are stand-ins written from their documented behaviour")
		modes := []string{"none", "bytes", "read3"}
		for _, mode := range modes {
			mode := mode
			run := func(reqs ...string) result { return runApp(mode, reqs...) }
			r.Space("pairs-"+mode, func(c *mc.C) error {
				a := mc.Pick(c, features).build(mc.Pick(c, paths))
				fs := append(append([]feature{}, features...), last...)
				b := mc.Pick(c, fs).build(mc.Pick(c, paths))
				return compare(c, run, []string{a, b})
			})
		}
		combinedSpaces(r)
		largeSpaces(r)
		// requests of the same layout and of another structure: whatever is remembered by its place or its length is stale
		families := [][]string{
			{"GET /%s HTTP/1.1\r\n\r\n", "json?", "jso?n", "js?o=", "?x=12", "?xy=1", "?%%41=", "json/", "plain"},
			{"GET /p?%s HTTP/1.1\r\n\r\n", "x=12", "xy=1", "x&y=", "%%41", "=xyz", "xyz=", "a+b=", "%%zz", "&&&a"},
			{"GET / HTTP/1.1\r\nCookie: %s\r\n\r\n", "a=bcdef", "abc=def", "a=b;c=d", "a=b; c=", "abcdefg", "=abcdef", "a==b==c", "a=b;c;d"},
			{"GET / HTTP/1.1\r\nA: b\r\nCookie: x=y\r\nCookie: %s\r\n\r\n", "a=bcdef", "abc=def", "a=b;c=d", "a=b;c;d"},
			{"GET / HTTP/1.1\r\n%s\r\n\r\n", "Cookie: aa=b", "Cookie: a=bb", "Cookia: a=b", "Accept: a=b ", "Host: a.test", "Hos: a.teste", "Trailer: abc", "Trailex: abc", "Upgrade: h2c", "Upgradd: h2c"},
			{"POST / HTTP/1.1\r\n%s\r\nContent-Length: 5\r\n\r\nhello", "Content-Type: a/b", "Content-Type: ab/", "Content-Tipe: a/b", "Connection: clouse", "Connection: clo se"},
			{"POST / HTTP/1.1\r\nContent-Length: 5\r\n%s\r\n\r\nhello", "Content-Encoding: br, zz", "Content-Encoding: br,zzz", "Content-Encoding: brrrzz", "Content-Encodang: br, zz", "Content-Encoding:       "},
			{"POST / HTTP/1.1\r\nTransfer-Encoding: %s\r\n\r\n3\r\nabc\r\n0\r\n\r\n", "br,gg, chunked", "br, g, chunked", "brrrr, chunked", "     , chunked"},
			{"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n%s0\r\n\r\n", "9\r\nabcdefghi\r\n", "3\r\nabc\r\n1\r\nd\r\n", "08\r\nabcdefgh\r\n"},
			{"GET /%s HTTP/1.1\r\n\r\n", "%%41bcd", "abcd%%41", "a%%2fbcd", "ab%%63de", "abcdefg"},
		}
		r.Space("the same layout", func(c *mc.C) error {
			f := mc.Pick(c, families)
			var reqs []string
			for n := 2 + c.Choose(mc.Bound(r, 2, 3)); n > 0; n-- {
				reqs = append(reqs, strings.Replace(f[0], "%s", strings.ReplaceAll(mc.Pick(c, f[1:]), "%%", "%"), 1))
			}
			mode := mc.Pick(c, modes)
			return compare(c, func(reqs ...string) result { return runApp(mode, reqs...) }, reqs)
		})
		reduced := []string{"/plain", "/header", "/cookie", "/chunks", "/ctx", "/over", "/status", "/write"}
		run := func(reqs ...string) result { return runApp("bytes", reqs...) }
		r.Space("triples", func(c *mc.C) error {
			var reqs []string
			for i := 0; i < 2; i++ {
				reqs = append(reqs, mc.Pick(c, features).build(mc.Pick(c, reduced)))
			}
			fs := append(append([]feature{}, features...), last[:3]...)
			reqs = append(reqs, mc.Pick(c, fs).build(mc.Pick(c, mc.Bound(r, []string{"/plain", "/header", "/write"}, reduced))))
			return compare(c, run, reqs)
		})
		for _, dynamic := range []bool{false, true} {
			dynamic := dynamic
			targets := []string{"/s", "/s/", "/alias", "/ctx", "/catch/x", "/nope", "/", "/d/1/2", "/d/1", "/d/%31/x%20y", "/e/q", "/e/", "/d//2"}
			methods := []string{"GET", "POST", "HEAD", "DELETE", "TRACE"}
			runRouter := func(reqs ...string) result {
				conn := srv.NewConn([]byte(strings.Join(reqs, "")))
				if err := srv.Serve(srv.Config(), conn, 0, newRouter(dynamic)); err != nil {
					return result{err: err}
				}
				out, _, err := canon(conn.Out.Bytes(), heads(reqs))
				return result{out: out, err: err}
			}
			one := func(c *mc.C) string {
				m := mc.Pick(c, methods)
				t := mc.Pick(c, targets)
				q := mc.Pick(c, []string{"", "?a=b"})
				h := mc.Pick(c, []string{"", "X: y\r\n"})
				return m + " " + t + q + " HTTP/1.1\r\n" + h + "\r\n"
			}
			r.Space(fmt.Sprintf("router-dynamic-%v", dynamic), func(c *mc.C) error {
				return compare(c, runRouter, []string{one(c), one(c)})
			})
			r.Space(fmt.Sprintf("router-triples-dynamic-%v", dynamic), func(c *mc.C) error {
				var reqs []string
				for i := 0; i < 3; i++ {
					reqs = append(reqs, mc.Pick(c, methods[:mc.Bound(r, 4, 5)])+" "+mc.Pick(c, targets)+" HTTP/1.1\r\n\r\n")
				}
				return compare(c, runRouter, reqs)
			})
		}
		// connections of tens of thousands of requests
		r.Space("long-lived connections", func(c *mc.C) error {
			n, kind, group := mc.Pick(c, srv.Lengths), mc.Pick(c, []string{"headers", "mixed"}), mc.Pick(c, []int{1, 7})
			if n > mc.Bound(r, 70000, 1<<20) {
				return mc.ErrSkip
			}
			key := fmt.Sprintf("%d requests of the kind %s, %d at once", n, kind, group)
			c.Note("%s", key)
			c.Steps(n)
			c.State(key)
			if err := srv.Long(kind, n, group); err != nil {
				return mc.Failf("long:"+key, "%v", err)
			}
			return nil
		})
	})
}
