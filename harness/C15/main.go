// C15: static routing: right handler, 404, 405 with Allow, HEAD and trailing slashes.
package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
)

var allMethods = []string{"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"}

type route struct{ method, path string }

func handler(tag string) inbuilt.Handler {
	return func(r *http.Request) *http.Response {
		return r.Respond().Header("Tag", tag).Header("Path", r.Path)
	}
}

func shorthand(r *inbuilt.Router, m, path string, h inbuilt.Handler) {
	switch m {
	case "GET":
		r.Get(path, h)
	case "HEAD":
		r.Head(path, h)
	case "POST":
		r.Post(path, h)
	case "PUT":
		r.Put(path, h)
	case "DELETE":
		r.Delete(path, h)
	case "CONNECT":
		r.Connect(path, h)
	case "OPTIONS":
		r.Options(path, h)
	case "TRACE":
		r.Trace(path, h)
	case "PATCH":
		r.Patch(path, h)
	}
}

func resource(r inbuilt.Resource, m string, h inbuilt.Handler) {
	switch m {
	case "GET":
		r.Get(h)
	case "HEAD":
		r.Head(h)
	case "POST":
		r.Post(h)
	case "PUT":
		r.Put(h)
	case "DELETE":
		r.Delete(h)
	case "CONNECT":
		r.Connect(h)
	case "OPTIONS":
		r.Options(h)
	case "TRACE":
		r.Trace(h)
	case "PATCH":
		r.Patch(h)
	}
}

func norm(p string) string {
	for len(p) > 1 && strings.HasSuffix(p, "/") {
		p = p[:len(p)-1]
	}
	return p
}

// styles of registering the same table
var styles = []string{"route", "shorthand", "resource", "resource route", "group", "reversed", "slashes"}

func build(routes []route, style string, dynamic bool) (rt router.Router, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	r := inbuilt.New()
	if dynamic {
		r.Get("/dynamic/{name}", handler("dynamic"))
	}
	rs := append([]route{}, routes...)
	if style == "reversed" {
		for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
			rs[i], rs[j] = rs[j], rs[i]
		}
	}
	var groups = map[string]*inbuilt.Router{}
	var ress = map[string]inbuilt.Resource{}
	for _, q := range rs {
		h := handler(q.method + " " + norm(q.path))
		switch style {
		case "shorthand", "reversed":
			shorthand(r, q.method, q.path, h)
		case "resource", "resource route":
			res, ok := ress[q.path]
			if !ok {
				res = r.Resource(q.path)
				ress[q.path] = res
			}
			if style == "resource" {
				resource(res, q.method, h)
			} else {
				res.Route(method.Parse(q.method), h)
			}
		case "group":
			// the first segment becomes the prefix of a group
			i := strings.IndexByte(q.path[1:], '/')
			pre, rest := "", q.path
			if i >= 0 {
				pre, rest = q.path[:i+1], q.path[i+1:]
			} else if q.path != "/" {
				pre, rest = q.path, ""
			}
			g, ok := groups[pre]
			if !ok {
				g = r.Group(pre)
				groups[pre] = g
			}
			g.Route(method.Parse(q.method), rest, h)
		case "slashes":
			r.Route(method.Parse(q.method), q.path+"/", h)
		default:
			r.Route(method.Parse(q.method), q.path, h)
		}
	}
	return r.Initialize(), nil
}

type request struct{ method, path string }

// verify sends all the requests over one connection.
func verify(c *mc.C, key string, routes []route, rt router.Router, reqs []request) error {
	var in strings.Builder
	var heads []bool
	for i, q := range reqs {
		fmt.Fprintf(&in, "%s %s HTTP/1.1\r\nN: %d\r\nX-y: z\r\n\r\n", q.method, q.path, i)
		heads = append(heads, q.method == "HEAD")
	}
	conn := srv.NewConn([]byte(in.String()))
	cfg := srv.Config()
	if err := srv.Serve(cfg, conn, 0, rt); err != nil {
		return mc.Failf(key, "%v", err)
	}
	c.Steps(len(reqs))
	rs, err := srv.ParseAll(conn.Out.Bytes(), heads...)
	if err != nil || len(rs) != len(reqs) {
		return mc.Failf(key, "%d responses to %d requests (%v): %q", len(rs), len(reqs), err, conn.Out.String())
	}
	table := map[string]map[string]bool{}
	for _, q := range routes {
		p := norm(q.path)
		if table[p] == nil {
			table[p] = map[string]bool{}
		}
		table[p][q.method] = true
	}
	for i, q := range reqs {
		got := rs[i]
		path, query, _ := strings.Cut(q.path, "?")
		p := norm(path)
		at := fmt.Sprintf("%s %s", q.method, q.path)
		tag := ""
		ms, known := table[p]
		switch {
		case !known:
			if got.Code != 404 {
				return mc.Failf(key, "%s: %d %q instead of 404", at, got.Code, got.Value("Tag"))
			}
		case ms[q.method]:
			tag = q.method + " " + p
		case q.method == "HEAD" && ms["GET"]:
			tag = "GET " + p
		case q.method == "TRACE":
			lines := strings.Split(got.Body, "\r\n")
			target := p
			if query != "" {
				target += "?" + query
			}
			if got.Code != 200 || lines[0] != "TRACE "+target+" HTTP/1.1" && lines[0] != "TRACE "+q.path+" HTTP/1.1" || got.Value("Content-Type") != "message/http" {
				return mc.Failf(key, "%s: the trace is %d %q %q", at, got.Code, got.Value("Content-Type"), got.Body)
			}
			if !strings.Contains(got.Body, fmt.Sprintf("\r\nN: %d\r\nX-y: z\r\n", i)) || !strings.HasSuffix(got.Body, "\r\n\r\n") {
				return mc.Failf(key, "%s: the headers are not traced: %q", at, got.Body)
			}
		default:
			if got.Code != 405 {
				return mc.Failf(key, "%s: %d %q instead of 405", at, got.Code, got.Value("Tag"))
			}
			var want, have []string
			for m := range ms {
				want = append(want, m)
			}
			allow := got.Values("Allow")
			if len(allow) != 1 {
				return mc.Failf(key, "%s: Allow is %q", at, allow)
			}
			for _, m := range strings.Split(allow[0], ",") {
				have = append(have, strings.TrimSpace(m))
			}
			sort.Strings(want)
			sort.Strings(have)
			if strings.Join(want, " ") != strings.Join(have, " ") {
				return mc.Failf(key, "%s: Allow is %q, and the methods are %q", at, allow[0], want)
			}
		}
		if got.Value("Tag") != tag {
			return mc.Failf(key, "%s was served by %q, not %q", at, got.Value("Tag"), tag)
		}
		if tag != "" && (got.Code != 200 || got.Value("Path") != p) {
			return mc.Failf(key, "%s: the handler's response is %d with path %q", at, got.Code, got.Value("Path"))
		}
	}
	return nil
}

func key(routes []route, style string, dynamic bool) string {
	var s []string
	for _, r := range routes {
		s = append(s, r.method+" "+r.path)
	}
	return fmt.Sprintf("[%s] by %s, dynamic %v", strings.Join(s, ", "), style, dynamic)
}

func run(c *mc.C, routes []route, style string, dynamic bool, reqs []request) error {
	k := key(routes, style, dynamic)
	c.Note("%s", k)
	rt, err := build(routes, style, dynamic)
	if err != nil {
		return mc.Failf(k, "%v", err)
	}
	c.State(k)
	return verify(c, k, routes, rt, reqs)
}

func requests(methods, paths []string) (qs []request) {
	for _, p := range paths {
		for _, m := range methods {
			qs = append(qs, request{m, p})
		}
	}
	return qs
}

func main() {
	mc.Main("C15", func(r *mc.R) {
		r.Assume("the order of the methods in Allow is not specified; a trace may carry further headers")
		// every table over four paths and three methods
		paths := []string{"/", "/a", "/ab", "/a/b"}
		methods := []string{"GET", "HEAD", "POST", "TRACE"}
		reqs := requests([]string{"GET", "HEAD", "POST", "TRACE", "OPTIONS"}, []string{"/", "//", "/a", "/a/", "/ab", "/a/b", "/a/b//", "/b", "/A", "/a/b/c", "/abc", "/a?q=1", "/a/?q"})
		r.Space("tables", func(c *mc.C) error {
			var routes []route
			for _, p := range paths {
				for _, m := range methods {
					if c.Bool() {
						routes = append(routes, route{m, p})
					}
				}
			}
			dyn := c.Bool()
			st := styles
			if !r.Thorough() {
				st = styles[:4]
			}
			return run(c, routes, mc.Pick(c, st), dyn, reqs)
		})
		// every set of methods of a path
		r.Space("methods", func(c *mc.C) error {
			var routes []route
			p := mc.Pick(c, []string{"/", "/x", "/x/y"})
			for _, m := range allMethods {
				if c.Bool() {
					routes = append(routes, route{m, p})
				}
			}
			if c.Bool() {
				routes = append(routes, route{"DELETE", "/other"})
			}
			return run(c, routes, mc.Pick(c, styles), c.Bool(), requests(allMethods, []string{p, p + "/", "/other", "/y"}))
		})
		// pairs of paths that are prefixes of each other, or differ in one byte
		r.Space("similar paths", func(c *mc.C) error {
			universe := []string{"/", "/a", "/aa", "/b", "/a/a", "/a//a", "/a.a", "/a/a/a", "/A", "/a%41", "/*", "/-", "//a"}
			var routes []route
			seen := map[string]bool{}
			for i := 0; i < 2; i++ {
				p := mc.Pick(c, universe)
				if seen[p] {
					return mc.ErrSkip
				}
				seen[p] = true
				routes = append(routes, route{"GET", p})
			}
			var ps []string
			for _, p := range universe {
				if p == "/a%41" {
					p = "/a%2541" // the registered path is compared with the decoded one
					continue
				}
				ps = append(ps, p, p+"/")
			}
			return run(c, routes, mc.Pick(c, []string{"route", "resource", "reversed"}), c.Bool(), requests([]string{"GET", "PUT"}, ps))
		})
		// a route may be registered once only
		r.Space("duplicates", func(c *mc.C) error {
			p := mc.Pick(c, []string{"/", "/a", "/a/b"})
			q := p + mc.Pick(c, []string{"", "/", "//"})
			m := mc.Pick(c, allMethods)
			other := mc.Pick(c, []string{"the router", "a group", "a group of a group", "groups", "a resource", "a resource of a group"})
			k := fmt.Sprintf("%s %s twice, as %s, in %s", m, p, q, other)
			panicked := func() (ok bool) {
				defer func() { ok = recover() != nil }()
				r := inbuilt.New()
				first, second := r, r
				switch other {
				case "a group":
					second = r.Group("")
				case "a group of a group":
					first = r.Group("")
					second = first.Group("")
				case "groups":
					first, second = r.Group(""), r.Group("").Group("")
				case "a resource of a group":
					first = r.Group("")
				}
				first.Route(method.Parse(m), p, handler("1"))
				if strings.HasPrefix(other, "a resource") {
					first.Resource(q).Route(method.Parse(m), handler("2"))
				} else {
					second.Route(method.Parse(m), q, handler("2"))
				}
				r.Initialize()
				return false
			}()
			c.Step()
			c.State(k)
			if !panicked {
				return mc.Failf(k, "one of the handlers was silently dropped")
			}
			return nil
		})
		// many routes, so that whatever structure holds them grows
		r.Space("many routes", func(c *mc.C) error {
			n := 1 + c.Choose(mc.Bound(r, 70, 150))
			var routes []route
			var ps []string
			for i := 0; i < n; i++ {
				p := fmt.Sprintf("/r%d", i)
				routes = append(routes, route{"GET", p})
				ps = append(ps, p, p+"0")
			}
			for i := range routes {
				// the extended names must be unknown
				_ = i
			}
			var qs []request
			for _, p := range ps {
				qs = append(qs, request{"GET", p})
			}
			return run(c, routes, mc.Pick(c, []string{"route", "reversed"}), c.Bool(), qs)
		})
		// paths of every length
		r.Space("path lengths", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 4000, 60000)))
			unit := mc.Pick(c, []string{"a", "ab/", "xyz"})
			p := "/" + strings.TrimRight(strings.Repeat(unit, n/len(unit)+1)[:n], "/")
			routes := []route{{"GET", p}}
			if p != "/" {
				routes = append(routes, route{"POST", p + "b"}, route{"GET", p + "/c"}, route{"GET", "/"})
			}
			if c.Bool() {
				// about as many bytes, other ones
				routes = append(routes, route{"GET", "/z" + strings.Repeat("z", n)}, route{"PUT", "/" + strings.Repeat("z", n) + "y"})
			}
			short := p[:len(p)-1]
			ps := []string{p, p + "/", p + "b", p + "a", p + "/c", p + strings.Repeat("/", 20), "/z" + strings.Repeat("z", n), "/" + strings.Repeat("z", n) + "y", "/" + strings.Repeat("z", n) + "x"}
			if short != "" {
				ps = append(ps, short)
			}
			k := fmt.Sprintf("paths of %d bytes of %q, %d routes", n, unit, len(routes))
			c.Note("%s", k)
			style := mc.Pick(c, styles)
			rt, err := build(routes, style, c.Bool())
			if err != nil {
				return mc.Failf(k, "%v", err)
			}
			c.State(k + style)
			return verify(c, k, routes, rt, requests([]string{"GET", "HEAD", "POST", "TRACE"}, ps))
		})
		// many slashes behind a path
		r.Space("slashes", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(4000))
			p := mc.Pick(c, []string{"/", "/a", "/a/b"})
			return run(c, []route{{"GET", p}, {"POST", "/a"}, {"POST", "/"}}, "route", c.Bool(), requests([]string{"GET", "POST", "HEAD"}, []string{p + strings.Repeat("/", n), strings.Repeat("/", n+1), "/b" + strings.Repeat("/", n)}))
		})
		// long connections: the answer depends on the request only
		r.Space("histories", func(c *mc.C) error {
			routes := []route{{"GET", "/"}, {"GET", "/a"}, {"POST", "/a"}, {"PUT", "/a/b"}, {"TRACE", "/t"}}
			alphabet := []request{{"GET", "/"}, {"POST", "/a"}, {"HEAD", "/a/"}, {"DELETE", "/a"}, {"GET", "/a/b"}, {"TRACE", "/a?x=1"}, {"GET", "/none"}, {"TRACE", "/t"}, {"OPTIONS", "/a/b//"}}
			n := 1 + c.Choose(3)
			times := mc.Pick(c, []int{1, 2, 10, 100})
			var qs []request
			for i := 0; i < n; i++ {
				qs = append(qs, mc.Pick(c, alphabet))
			}
			var all []request
			for i := 0; i < times; i++ {
				all = append(all, qs...)
			}
			all = append(all, alphabet...)
			dyn := c.Bool()
			rt, err := build(routes, "route", dyn)
			k := fmt.Sprintf("%v, %d times, dynamic %v", qs, times, dyn)
			c.Note("%s", k)
			if err != nil {
				return mc.Failf(k, "%v", err)
			}
			c.State(k)
			return verify(c, k, routes, rt, all)
		})
	})
}
