// C17: middlewares, groups, catchers, error handlers and aliases apply as declared.
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/virtual"
)

// trail collects the tags a request passes. Requests are served one by one.
type trail struct{ log []string }

func (t *trail) mw(tag string) inbuilt.Middleware {
	return func(next inbuilt.Handler, r *http.Request) *http.Response {
		t.log = append(t.log, tag)
		resp := next(r)
		t.log = append(t.log, "/"+tag)
		return resp
	}
}

func (t *trail) handler(tag string) inbuilt.Handler {
	return func(r *http.Request) *http.Response {
		t.log = append(t.log, tag)
		if r.Env.AliasFrom != "" {
			t.log = append(t.log, "from "+r.Env.AliasFrom+" to "+r.Path)
		}
		if r.Env.Error != nil {
			t.log = append(t.log, "error "+r.Env.Error.Error())
		}
		return r.Respond().Code(299)
	}
}

// group is the reference of a router.
type group struct {
	parent *group
	prefix string
	mws    []string
}

func (g *group) chain() []string {
	if g == nil {
		return nil
	}
	return append(append([]string{}, g.parent.chain()...), g.mws...)
}

type entry struct {
	g    *group
	path string // full
	tag  string
	own  []string
}

// spec is the reference router.
type spec struct {
	groups   []*group
	routes   []*entry
	catchers []*entry
	errs     map[int]string
	aliases  [][2]string
}

func nest(mws []string, inner ...string) (out []string) {
	out = append(out, mws...)
	out = append(out, inner...)
	for i := len(mws) - 1; i >= 0; i-- {
		out = append(out, "/"+mws[i])
	}
	return out
}

// expect returns the trail and the code of a GET request; code 0 is a default answer.
func (s *spec) expect(path string) ([]string, int) {
	for len(path) > 1 && strings.HasSuffix(path, "/") {
		path = path[:len(path)-1]
	}
	var extra []string
	for _, a := range s.aliases {
		if a[0] == path {
			path = a[1]
			extra = []string{"from " + a[0] + " to " + a[1]}
			break
		}
	}
	for _, e := range s.routes {
		if e.path == path {
			return nest(append(e.g.chain(), e.own...), append([]string{e.tag}, extra...)...), 299
		}
	}
	var best *entry
	for _, e := range s.catchers {
		if strings.HasPrefix(path, e.path) && (best == nil || len(e.path) > len(best.path)) {
			best = e
		}
	}
	if best != nil {
		return nest(append(best.g.chain(), best.own...), append([]string{best.tag}, extra...)...), 299
	}
	return s.failure(404, status.ErrNotFound.Error(), extra)
}

func (s *spec) failure(code int, text string, extra []string) ([]string, int) {
	tag, ok := s.errs[code]
	if !ok {
		tag, ok = s.errs[0]
		if code == 405 {
			// there is a default handler for this one
			ok = false
		}
	}
	if !ok {
		return nest(s.groups[0].mws), code
	}
	inner := append([]string{tag}, extra...)
	return nest(s.groups[0].mws, append(inner, "error "+text)...), 299
}

// op is an operation of the building program.
type op struct {
	name string
	do   func(b *builder)
}

type builder struct {
	t    *trail
	s    *spec
	rs   []*inbuilt.Router
	n    int
	bad  bool // not to be registered: a duplicate
	seen map[string]bool
}

func (b *builder) tag(kind string) string {
	b.n++
	return fmt.Sprint(kind, b.n)
}

// dup skips programs that register the same thing twice.
func (b *builder) dup(what string) bool {
	if b.seen[what] {
		b.bad = true
		return true
	}
	b.seen[what] = true
	return false
}

func use(i, n int) op {
	return op{fmt.Sprintf("use(%d,%d)", i, n), func(b *builder) {
		var ms []inbuilt.Middleware
		for k := 0; k < n; k++ {
			tag := b.tag("m")
			ms = append(ms, b.t.mw(tag))
			b.s.groups[i].mws = append(b.s.groups[i].mws, tag)
		}
		b.rs[i].Use(ms...)
	}}
}

func (b *builder) own(n int) (tags []string, ms []inbuilt.Middleware) {
	for k := 0; k < n; k++ {
		tag := b.tag("o")
		tags = append(tags, tag)
		ms = append(ms, b.t.mw(tag))
	}
	return tags, ms
}

func route(i int, path string, own int) op {
	return op{fmt.Sprintf("get(%d,%s,%d)", i, path, own), func(b *builder) {
		full := b.s.groups[i].prefix + path
		if b.dup("route " + full) {
			return
		}
		tags, ms := b.own(own)
		tag := b.tag("h")
		b.rs[i].Get(path, b.t.handler(tag), ms...)
		b.s.routes = append(b.s.routes, &entry{b.s.groups[i], full, tag, tags})
	}}
}

func catch(i int, path string, own int) op {
	return op{fmt.Sprintf("catch(%d,%s,%d)", i, path, own), func(b *builder) {
		full := b.s.groups[i].prefix + path
		if full != "/" {
			full = strings.TrimSuffix(full, "/")
		}
		if b.dup("catch " + full) {
			return
		}
		tags, ms := b.own(own)
		tag := b.tag("c")
		b.rs[i].Catch(path, b.t.handler(tag), ms...)
		b.s.catchers = append(b.s.catchers, &entry{b.s.groups[i], full, tag, tags})
	}}
}

func routeError(i int, codes ...int) op {
	return op{fmt.Sprintf("error(%d,%v)", i, codes), func(b *builder) {
		tag := b.tag("e")
		var cs []status.Code
		for _, c := range codes {
			cs = append(cs, status.Code(c))
			b.s.errs[c] = tag
		}
		if len(codes) == 0 {
			b.s.errs[0] = tag
		}
		b.rs[i].RouteError(b.t.handler(tag), cs...)
	}}
}

func alias(i int, from, to string) op {
	return op{fmt.Sprintf("alias(%d,%s,%s)", i, from, to), func(b *builder) {
		full := b.s.groups[i].prefix + from
		if b.dup("alias " + full) {
			return
		}
		b.rs[i].Alias(from, to)
		b.s.aliases = append(b.s.aliases, [2]string{full, to})
	}}
}

// the routers: 0 the root, 1 below it, 2 below 1, 3 a sibling of 1
func newBuilder(late bool) *builder {
	b := &builder{t: &trail{}, s: &spec{errs: map[int]string{}}, seen: map[string]bool{}}
	root := inbuilt.New()
	g1 := root.Group("/g")
	b.rs = []*inbuilt.Router{root, g1, g1.Group("/h"), root.Group("/k")}
	s0 := &group{}
	s1 := &group{s0, "/g", nil}
	b.s.groups = []*group{s0, s1, {s1, "/g/h", nil}, {s0, "/k", nil}}
	return b
}

var paths = []string{"/a", "/g/a", "/g/h/a", "/k/a", "/", "/g", "/g/", "/g/h", "/g/hx", "/g/ab", "/gg", "/none", "/k/none/deep", "/al", "/g/al", "/k"}

type world struct{ name string }

// serve sends a GET request for every path over one connection, forth and back, and collects the trails and the codes.
// What the way back gives must be the same.
func serve(c *mc.C, t *trail, rt router.Router, paths []string) (trails []string, codes []int, err error) {
	var b strings.Builder
	n := len(paths)
	at := func(i int) int {
		if i < n {
			return i
		}
		return 2*n - 1 - i
	}
	for i := 0; i < 2*n; i++ {
		b.WriteString("GET " + paths[at(i)] + " HTTP/1.1\r\nHost: x\r\n\r\n")
	}
	conn := srv.NewConn([]byte(b.String()))
	c.Steps(2 * n)
	t.log = nil
	var logs []string
	err = srv.Serve(srv.Config(), conn, 0, hook{rt, func() { logs = append(logs, strings.Join(t.log, " ")); t.log = nil }})
	if err != nil {
		return nil, nil, err
	}
	rs, err := srv.ParseAll(conn.Out.Bytes())
	if err != nil || len(rs) != 2*n || len(logs) != 2*n {
		return nil, nil, fmt.Errorf("%d responses and %d trails to %d requests (%v)", len(rs), len(logs), 2*n, err)
	}
	for i := range paths {
		if k := 2*n - 1 - i; logs[i] != logs[k] || rs[i].Code != rs[k].Code {
			return nil, nil, fmt.Errorf("%s: first %d through %q, then %d through %q", paths[i], rs[i].Code, logs[i], rs[k].Code, logs[k])
		}
		trails = append(trails, logs[i])
		codes = append(codes, rs[i].Code)
	}
	return trails, codes, nil
}

// hook calls back after each request, before the end of the connection is reported.
type hook struct {
	router.Router
	after func()
}

func (h hook) OnRequest(r *http.Request) *http.Response {
	resp := h.Router.OnRequest(r)
	h.after()
	return resp
}

func main() {
	mc.Main("C17", func(r *mc.R) {
		r.Assume("catchers match plain prefixes of the path; aliases are not chained, and match paths without trailing slashes")
		ops := []op{
			use(0, 1), use(0, 2), use(1, 1), use(2, 1), use(3, 1),
			route(0, "/a", 0), route(1, "/a", 1), route(2, "/a", 2), route(3, "/a", 0), route(1, "", 0), route(0, "/", 1),
			catch(0, "/", 0), catch(1, "/", 1), catch(2, "", 0), catch(0, "/g/h", 2), catch(0, "/g", 0), catch(3, "/none", 1),
			routeError(0, 404), routeError(1), routeError(2, 404, 405), routeError(3, 0),
			alias(0, "/al", "/a"), alias(1, "/al", "/g/h/a"), alias(0, "/none", "/lost"),
		}
		var small []op
		for _, o := range ops {
			switch o.name {
			case "use(0,1)", "use(1,1)", "use(2,1)", "get(0,/a,0)", "get(1,/a,1)", "get(2,/a,2)", "catch(0,/,0)", "catch(1,/,1)", "catch(0,/g/h,2)",
				"error(0,[404])", "error(1,[])", "alias(0,/al,/a)", "alias(1,/al,/g/h/a)", "catch(2,,0)":
				small = append(small, o)
			}
		}
		program := func(c *mc.C, ops []op, depth int, dynamic int, how int) error {
			b := newBuilder(false)
			paths := paths
			var names []string
			for k := 0; k < depth; k++ {
				n := c.Choose(len(ops) + 1)
				if n == len(ops) {
					break
				}
				names = append(names, ops[n].name)
				ops[n].do(b)
				if b.bad {
					return mc.ErrSkip
				}
			}
			// a dynamic route somewhere changes the way all of them are looked up
			if dynamic > 0 {
				g := b.s.groups[dynamic-1]
				b.rs[dynamic-1].Get("/dyn/{x}", b.t.handler("dyn"))
				b.s.routes = append(b.s.routes, &entry{g, g.prefix + "/dyn/7", "dyn", nil})
				paths = append(append([]string{}, paths...), g.prefix+"/dyn/7", g.prefix+"/dyn", g.prefix+"/dyn/7/8")
			}
			key := fmt.Sprintf("%s dynamic %v how %d", strings.Join(names, " "), dynamic, how)
			c.Note("%s", key)
			var rts []router.Router
			err := func() (err error) {
				defer func() {
					if p := recover(); p != nil {
						err = fmt.Errorf("panic: %v", p)
					}
				}()
				switch how {
				case 0:
					rts = append(rts, b.rs[0].Initialize())
				case 1:
					// the same router for two hosts
					rts = append(rts, virtual.New().Host("x", b.rs[0]).Host("y", b.rs[0]).Initialize())
				case 2:
					rts = append(rts, b.rs[0].Initialize(), b.rs[0].Initialize())
				}
				return nil
			}()
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			for _, rt := range rts {
				got, codes, err := serve(c, b.t, rt, paths)
				if err != nil {
					return mc.Failf(key, "%v", err)
				}
				for i, p := range paths {
					want, code := b.s.expect(p)
					if w := strings.Join(want, " "); got[i] != w || codes[i] != code {
						return mc.Failf(key, "%s: %d through %q, not %d through %q", p, codes[i], got[i], code, w)
					}
				}
			}
			c.State(key)
			return nil
		}
		depth := mc.Bound(r, 4, 5)
		r.Space("programs", func(c *mc.C) error { return program(c, ops, depth, 2*c.Choose(2), 0) })
		r.Space("long programs", func(c *mc.C) error { return program(c, small, mc.Bound(r, 5, 6), 0, 0) })
		r.Space("shared router", func(c *mc.C) error { return program(c, small, mc.Bound(r, 3, 4), 2*c.Choose(2), 1+c.Choose(2)) })
		r.Space("dynamic routes", func(c *mc.C) error { return program(c, ops, depth-1, 1+c.Choose(4), 0) })

		verify := func(c *mc.C, b *builder, key string, paths []string) error {
			c.Note("%s", key)
			var rt router.Router
			err := func() (err error) {
				defer func() {
					if p := recover(); p != nil {
						err = fmt.Errorf("panic: %v", p)
					}
				}()
				rt = b.rs[0].Initialize()
				return nil
			}()
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			got, codes, err := serve(c, b.t, rt, paths)
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			for i, p := range paths {
				want, code := b.s.expect(p)
				if w := strings.Join(want, " "); got[i] != w || codes[i] != code {
					return mc.Failf(key, "%s: %d through %.300q, not %d through %.300q", p, codes[i], got[i], code, w)
				}
			}
			c.State(key)
			return nil
		}
		// any numbers of middlewares at every level, several routes sharing them
		r.Space("many middlewares", func(c *mc.C) error {
			counts := []int{0, 1, 2, 3, 4, 5, 8, 9, 17}
			b := newBuilder(false)
			n := []int{mc.Pick(c, counts), mc.Pick(c, counts[:mc.Bound(r, 7, 9)]), mc.Pick(c, counts[:4]), mc.Pick(c, counts[:3])}
			own := mc.Pick(c, []int{0, 1, 2, 5})
			order := c.Choose(3) // middlewares first, routes first, one by one
			uses := func() {
				for i, k := range n {
					if order == 2 {
						for ; k > 0; k-- {
							use(i, 1).do(b)
						}
					} else {
						use(i, k).do(b)
					}
				}
			}
			routes := func() {
				for i := range n {
					route(i, "/a", own).do(b)
					route(i, "/b", own+1).do(b)
					route(i, "/ab", 1).do(b)
					catch(i, "/c", own).do(b)
					catch(i, "/cc", 2).do(b)
				}
				routeError(0, 404).do(b)
			}
			if order != 1 {
				uses()
				routes()
			} else {
				routes()
				uses()
			}
			var ps []string
			for _, g := range b.s.groups {
				ps = append(ps, g.prefix+"/a", g.prefix+"/b", g.prefix+"/ab", g.prefix+"/c", g.prefix+"/c/x", g.prefix+"/ccc", g.prefix+"/none")
			}
			return verify(c, b, fmt.Sprintf("middlewares %v, own %d, order %d", n, own, order), ps)
		})
		// many routes, groups, catchers, aliases
		r.Space("many entries", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 130, 600)))
			b := newBuilder(false)
			use(0, 1).do(b)
			var ps []string
			switch c.Choose(4) {
			case 0:
				for i := 0; i < n; i++ {
					catch(i%4, "/c"+strings.Repeat("x", i), i%3).do(b)
					ps = append(ps, b.s.groups[i%4].prefix+"/c"+strings.Repeat("x", i)+"/y")
				}
			case 1:
				for i := 0; i < n; i++ {
					from := fmt.Sprint("/al", i)
					alias(i%4, from, fmt.Sprint("/r", i)).do(b)
					route(0, fmt.Sprint("/r", i), i%2).do(b)
					ps = append(ps, b.s.groups[i%4].prefix+from, b.s.groups[i%4].prefix+from+"x", fmt.Sprint("/r", i))
				}
			case 2:
				// siblings
				for i := 0; i < n; i++ {
					pre := fmt.Sprint("/s", i)
					b.rs = append(b.rs, b.rs[0].Group(pre))
					b.s.groups = append(b.s.groups, &group{b.s.groups[0], pre, nil})
					k := len(b.rs) - 1
					use(k, i%3).do(b)
					route(k, "/a", i%2).do(b)
					route(k, "", 0).do(b)
					ps = append(ps, pre+"/a", pre, pre+"/none")
				}
			case 3:
				// one in another
				at, last := b.s.groups[0], b.rs[0]
				if n > 40 {
					return mc.ErrSkip
				}
				for i := 0; i < n; i++ {
					last = last.Group("/d")
					at = &group{at, at.prefix + "/d", nil}
					b.rs, b.s.groups = append(b.rs, last), append(b.s.groups, at)
					use(len(b.rs)-1, 1+i%2).do(b)
					route(len(b.rs)-1, "/a", i%2).do(b)
					catch(len(b.rs)-1, "/c", 1).do(b)
					ps = append(ps, at.prefix+"/a", at.prefix+"/c/z", at.prefix)
				}
			}
			return verify(c, b, fmt.Sprintf("%d entries: %q", n, ps[:min(len(ps), 3)]), append(ps, "/none", "/a", "/c"))
		})

		// resources are groups of one path
		type step struct {
			res, kind, own int // 0: use, 1: a handler, 2: a handler through Route, 3: a catcher
		}
		var steps []step
		for res := 0; res < 2; res++ {
			steps = append(steps, step{res, 0, 1}, step{res, 0, 2}, step{res, 1, 0}, step{res, 1, 2}, step{res, 2, 1}, step{res, 3, 0}, step{res, 3, 1})
		}
		steps = append(steps, step{-1, 0, 1}, step{-1, 1, 1}, step{-1, 3, 0}, step{-2, 0, 1})
		r.Space("resources", func(c *mc.C) error {
			b := newBuilder(false)
			res := []inbuilt.Resource{b.rs[0].Resource("/r"), b.rs[1].Resource("/r")}
			gs := []*group{{b.s.groups[0], "/r", nil}, {b.s.groups[1], "/g/r", nil}}
			var names []string
			for k := 0; k < mc.Bound(r, 4, 5); k++ {
				n := c.Choose(len(steps) + 1)
				if n == len(steps) {
					break
				}
				q := steps[n]
				names = append(names, fmt.Sprint(q))
				switch {
				case q.res == -1 && q.kind == 0:
					use(0, q.own).do(b)
				case q.res == -2:
					use(1, q.own).do(b)
				case q.res == -1 && q.kind == 1:
					route(0, "/a", q.own).do(b)
				case q.res == -1:
					catch(0, "/", 0).do(b)
				case q.kind == 0:
					tags, ms := b.own(q.own)
					res[q.res].Use(ms...)
					gs[q.res].mws = append(gs[q.res].mws, tags...)
				case q.kind == 3:
					if b.dup(fmt.Sprint("catch of resource", q.res)) {
						return mc.ErrSkip
					}
					tags, ms := b.own(q.own)
					tag := b.tag("c")
					res[q.res].Catch("/c", b.t.handler(tag), ms...)
					b.s.catchers = append(b.s.catchers, &entry{gs[q.res], gs[q.res].prefix + "/c", tag, tags})
				default:
					if b.dup(fmt.Sprint("get of resource", q.res)) {
						return mc.ErrSkip
					}
					tags, ms := b.own(q.own)
					tag := b.tag("h")
					if q.kind == 1 {
						res[q.res].Get(b.t.handler(tag), ms...)
					} else {
						res[q.res].Route(method.GET, b.t.handler(tag), ms...)
					}
					b.s.routes = append(b.s.routes, &entry{gs[q.res], gs[q.res].prefix, tag, tags})
				}
				if b.bad {
					return mc.ErrSkip
				}
			}
			return verify(c, b, "resources: "+strings.Join(names, " "), []string{"/r", "/g/r", "/r/", "/r/c", "/r/c/d", "/g/r/c", "/g/r/cc", "/a", "/none", "/g", "/r/none"})
		})
		// every method has its handler, with its own middlewares, however it was registered
		r.Space("methods", func(c *mc.C) error {
			b := newBuilder(false)
			ms := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"}
			style := c.Choose(4)
			first := c.Choose(3) // middlewares of the group before, after, both
			at := c.Choose(4)
			dyn := c.Bool()
			extra := c.Choose(3)
			key := fmt.Sprintf("style %d, group %d, middlewares %d, dynamic %v, own %d", style, at, first, dyn, extra)
			c.Note("%s", key)
			c.State(key)
			g := b.rs[at]
			path := "/m"
			res := inbuilt.Resource{}
			if style >= 2 {
				res = g.Resource(path)
			}
			if first != 1 {
				use(at, 1).do(b)
			}
			if dyn {
				b.rs[0].Get("/dyn/{x}", b.t.handler("dyn"))
			}
			want := map[string]string{}
			owns := map[string][]string{}
			for i, m := range ms {
				tags, mw := b.own((i + extra) % 3)
				h := b.t.handler("h" + m)
				owns[m] = tags
				switch style {
				case 0:
					g.Route(method.Parse(m), path, h, mw...)
				case 2:
					res.Route(method.Parse(m), h, mw...)
				case 1:
					f := map[string]func(string, inbuilt.Handler, ...inbuilt.Middleware) *inbuilt.Router{"GET": g.Get, "HEAD": g.Head, "POST": g.Post, "PUT": g.Put,
						"DELETE": g.Delete, "CONNECT": g.Connect, "OPTIONS": g.Options, "TRACE": g.Trace, "PATCH": g.Patch}
					f[m](path, h, mw...)
				case 3:
					f := map[string]func(inbuilt.Handler, ...inbuilt.Middleware) inbuilt.Resource{"GET": res.Get, "HEAD": res.Head, "POST": res.Post, "PUT": res.Put,
						"DELETE": res.Delete, "CONNECT": res.Connect, "OPTIONS": res.Options, "TRACE": res.Trace, "PATCH": res.Patch}
					f[m](h, mw...)
				}
			}
			if first != 0 {
				use(at, 2).do(b)
			}
			full := b.s.groups[at].prefix + path
			for _, m := range ms {
				want[m] = strings.Join(nest(append(append([]string{}, b.s.groups[at].chain()...), owns[m]...), "h"+m), " ")
			}
			rt := b.rs[0].Initialize()
			for _, m := range ms {
				b.t.log = nil
				conn := srv.NewConn([]byte(m + " " + full + " HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n"))
				var got string
				c.Step()
				if err := srv.Serve(srv.Config(), conn, 0, hook{rt, func() { got = strings.Join(b.t.log, " ") }}); err != nil {
					return mc.Failf(key, "%s: %v", m, err)
				}
				if got != want[m] {
					return mc.Failf(key, "%s goes through %q, not %q", m, got, want[m])
				}
			}
			return nil
		})

		// errors of the protocol, and of handlers
		eops := []op{use(0, 1), use(1, 1), routeError(0, 400), routeError(0), routeError(1, 405, 414), routeError(0, 404), routeError(2, int(status.CloseConnection)), routeError(3, 505, 501),
			catch(0, "/", 0), route(0, "/a", 0)}
		type fault struct {
			name, raw, text string
			code            int
		}
		r.Space("errors", func(c *mc.C) error {
			b := newBuilder(false)
			var names []string
			for k := 0; k < mc.Bound(r, 4, 5); k++ {
				n := c.Choose(len(eops) + 1)
				if n == len(eops) {
					break
				}
				names = append(names, eops[n].name)
				eops[n].do(b)
				if b.bad {
					return mc.ErrSkip
				}
			}
			key := strings.Join(names, " ")
			c.Note("%s", key)
			rt := b.rs[0].Initialize()
			for _, e := range []error{status.ErrBadRequest, status.ErrURIDecoding, status.ErrMethodNotAllowed, status.ErrURITooLong, status.ErrNotFound,
				status.ErrHTTPVersionNotSupported, status.ErrNotImplemented, status.ErrBodyTooLarge, errors.New("custom"), status.NewError(499, "own")} {
				b.t.log = nil
				conn := srv.NewConn([]byte("GET /zz HTTP/1.1\r\nConnection: close\r\n\r\n"))
				var logs []string
				f := srv.Funcs{
					Request: func(r *http.Request) *http.Response {
						resp := rt.OnError(r, e)
						logs = append([]string{}, b.t.log...)
						return resp
					},
					Error: func(r *http.Request, err error) *http.Response { return nil },
				}
				if err := srv.Serve(srv.Config(), conn, 0, f); err != nil {
					return mc.Failf(key, "%v", err)
				}
				c.Step()
				rs, err := srv.ParseAll(conn.Out.Bytes())
				if err != nil || len(rs) != 1 {
					return mc.Failf(key, "error %v: %d responses (%v)", e, len(rs), err)
				}
				var want []string
				var code int
				he, ok := e.(status.HTTPError)
				switch {
				case !ok:
					code = 500
				case he.Code == 404 && len(b.s.catchers) > 0:
					want, code = b.s.expect("/zz")
				default:
					want, code = b.s.failure(int(he.Code), e.Error(), nil)
				}
				if w := strings.Join(want, " "); strings.Join(logs, " ") != w || rs[0].Code != code {
					return mc.Failf(key, "error %v: %d through %q, not %d through %q", e, rs[0].Code, logs, code, w)
				}
			}
			c.State(key)
			return nil
		})
		faults := []fault{
			{"bad request", "GET / HTTP/1.1\r\nbad\r\n\r\n", "", 400},
			{"bad escape", "GET /%zz HTTP/1.1\r\n\r\n", "", 400},
			{"method", "BREW / HTTP/1.1\r\n\r\n", "", 501},
			{"proto", "GET / HTTP/7.7\r\n\r\n", "", 505},
			{"too long", "GET /" + strings.Repeat("a", 70000) + " HTTP/1.1\r\n\r\n", "", 414},
			{"not allowed", "POST /a HTTP/1.1\r\n\r\n", "", 405},
			{"not found", "GET /lost HTTP/1.1\r\n\r\n", "", 404},
		}
		r.Space("faults", func(c *mc.C) error {
			b := newBuilder(false)
			var names []string
			route(0, "/a", 0).do(b)
			for k := 0; k < 3; k++ {
				n := c.Choose(len(eops[:8]) + 1)
				if n == len(eops[:8]) {
					break
				}
				names = append(names, eops[n].name)
				eops[n].do(b)
			}
			f := mc.Pick(c, faults)
			key := fmt.Sprintf("%s: %s", strings.Join(names, " "), f.name)
			c.Note("%s", key)
			var logs []string
			conn := srv.NewConn([]byte(f.raw))
			rt := &errHook{Router: b.rs[0].Initialize(), after: func() {
				if logs == nil {
					logs = append([]string{}, b.t.log...)
				}
			}}
			if err := srv.Serve(srv.Config(), conn, 0, rt); err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.Step()
			rs, err := srv.ParseAll(conn.Out.Bytes())
			if err != nil || len(rs) != 1 {
				return mc.Failf(key, "%d responses (%v)", len(rs), err)
			}
			want, code := b.s.failure(f.code, "", nil)
			w := strings.Join(want, " ")
			got := strings.Join(logs, " ")
			// the text of the error is not of interest here
			cut := func(s string) string {
				if i := strings.Index(s, "error "); i >= 0 {
					tail := ""
					if j := strings.Index(s, " /m"); j >= 0 {
						tail = s[j:]
					}
					return s[:i] + tail
				}
				return s
			}
			if cut(got) != cut(w) || rs[0].Code != code {
				return mc.Failf(key, "%d through %q, not %d through %q", rs[0].Code, got, code, w)
			}
			c.State(key)
			return nil
		})
		// middlewares may answer themselves, replace the request's handler's response, or run it twice
		r.Space("middleware control", func(c *mc.C) error {
			kinds := []string{"pass", "stop", "replace", "twice"}
			var mws []inbuilt.Middleware
			t := &trail{}
			var names []string
			n := 1 + c.Choose(3)
			for i := 0; i < n; i++ {
				kind, tag := mc.Pick(c, kinds), fmt.Sprint("m", i)
				names = append(names, kind)
				mws = append(mws, func(next inbuilt.Handler, r *http.Request) *http.Response {
					t.log = append(t.log, tag)
					switch kind {
					case "stop":
						return r.Respond().Code(250)
					case "replace":
						_ = next(r)
						return r.Respond().Code(251)
					case "twice":
						_ = next(r)
					}
					return next(r)
				})
			}
			split := c.Choose(n + 1)
			rt := inbuilt.New()
			rt.Use(mws[:split]...)
			rt.Group("/g").Get("/x", t.handler("h"), mws[split:]...)
			key := fmt.Sprint(names, split)
			var want func(i int) ([]string, int)
			want = func(i int) ([]string, int) {
				if i == n {
					return []string{"h"}, 299
				}
				tag := fmt.Sprint("m", i)
				inner, code := want(i + 1)
				switch names[i] {
				case "stop":
					return []string{tag}, 250
				case "replace":
					return append([]string{tag}, inner...), 251
				case "twice":
					return append(append([]string{tag}, inner...), inner...), code
				}
				return append([]string{tag}, inner...), code
			}
			got, codes, err := serve(c, t, rt.Initialize(), []string{"/g/x"})
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			w, code := want(0)
			if got[0] != strings.Join(w, " ") || codes[0] != code {
				return mc.Failf(key, "%d through %q, not %d through %q", codes[0], got[0], code, w)
			}
			c.State(key)
			return nil
		})
	})
}

type errHook struct {
	router.Router
	after func()
}

func (h *errHook) OnRequest(r *http.Request) *http.Response {
	resp := h.Router.OnRequest(r)
	h.after()
	return resp
}

func (h *errHook) OnError(r *http.Request, err error) *http.Response {
	resp := h.Router.OnError(r, err)
	h.after()
	return resp
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
