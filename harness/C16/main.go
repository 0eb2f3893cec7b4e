// C16: dynamic routing: templates match exactly what they describe.
package main

import (
	"fmt"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
)

type pair struct{ k, v string }

func segments(p string) []string {
	for len(p) > 1 && strings.HasSuffix(p, "/") {
		p = p[:len(p)-1]
	}
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

func wild(s string) (string, bool) {
	if strings.HasPrefix(s, "{") {
		return s[1 : len(s)-1], true
	}
	return "", false
}

// match tells whether a template describes a path, and the parameters.
func match(tmpl, path []string) (ps []pair, ok bool) {
	if len(tmpl) != len(path) {
		return nil, false
	}
	for i, t := range tmpl {
		name, w := wild(t)
		switch {
		case w && path[i] == "":
			return nil, false
		case w && name != "":
			ps = append(ps, pair{name, path[i]})
		case !w && t != path[i]:
			return nil, false
		}
	}
	return ps, true
}

// conflict: two templates with different names of a parameter at the same place.
func conflict(a, b []string) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		x, wx := wild(a[i])
		y, wy := wild(b[i])
		if wx && wy && x != y {
			return true
		}
		if wx != wy || !wx && a[i] != b[i] {
			return false
		}
	}
	return false
}

// less: a is to be preferred, having a fixed segment where b has a parameter.
func less(a, b []string) bool {
	for i := range a {
		_, wa := wild(a[i])
		_, wb := wild(b[i])
		if wa != wb {
			return !wa
		}
	}
	return false
}

// reached tells whether the path can be followed segment by segment, taking fixed segments where there are any,
// up to the template, i.e. whether finding it needs no second thought.
func reached(tmpls [][]string, best, path []string) bool {
	for i := range path {
		// some template agreeing with best so far has the fixed segment, and best does not
		_, w := wild(best[i])
		if !w {
			continue
		}
		for _, t := range tmpls {
			if len(t) > i && t[i] == path[i] && same(t[:i], best[:i]) {
				return false
			}
		}
	}
	return true
}

func same(a, b []string) bool { return strings.Join(a, "/") == strings.Join(b, "/") }

func handler(tag string) inbuilt.Handler {
	return func(r *http.Request) *http.Response {
		resp := r.Respond().Header("Tag", tag)
		for _, p := range r.Params.Unwrap() {
			resp.Header("P", p.Key+"="+p.Value)
		}
		return resp
	}
}

func build(routes []string, f func(r *inbuilt.Router)) (rt router.Router, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	r := inbuilt.New()
	for _, t := range routes {
		r.Get(t, handler(t))
	}
	if f != nil {
		f(r)
	}
	return r.Initialize(), nil
}

func verify(c *mc.C, key string, routes []string, rt router.Router, paths []string) error {
	var in strings.Builder
	var tmpls [][]string
	for _, t := range routes {
		tmpls = append(tmpls, segments(t))
	}
	for i, p := range paths {
		m := "GET"
		if i%5 == 4 {
			m = "PUT" // never registered
		}
		last := ""
		if i == len(paths)-1 {
			// the connection ends with the request, and the next one begins behind it
			last = "Connection: close\r\n"
		}
		fmt.Fprintf(&in, "%s %s HTTP/1.1\r\n%s\r\n", m, p, last)
	}
	conn := srv.NewConn([]byte(in.String()))
	if err := srv.Serve(srv.Config(), conn, 0, rt); err != nil {
		return mc.Failf(key, "%v", err)
	}
	c.Steps(len(paths))
	rs, err := srv.ParseAll(conn.Out.Bytes())
	if err != nil || len(rs) != len(paths) {
		return mc.Failf(key, "%d responses to %d requests (%v): %q", len(rs), len(paths), err, conn.Out.String())
	}
	for i, p := range paths {
		path := segments(p)
		best := -1
		for k, t := range tmpls {
			if _, ok := match(t, path); ok && (best < 0 || less(t, tmpls[best])) {
				best = k
			}
		}
		got := rs[i]
		if best < 0 {
			if got.Code != 404 || got.Value("Tag") != "" {
				return mc.Failf(key, "%q: %d by %q, and no template describes it", p, got.Code, got.Value("Tag"))
			}
			continue
		}
		if got.Code == 404 && !reached(tmpls, tmpls[best], path) {
			// finding it would need going back; not specified
			continue
		}
		if i%5 == 4 {
			if got.Code != 405 {
				return mc.Failf(key, "%q with another method: %d", p, got.Code)
			}
			continue
		}
		ps, _ := match(tmpls[best], path)
		var want []string
		for _, x := range ps {
			want = append(want, x.k+"="+x.v)
		}
		if got.Code != 200 || got.Value("Tag") != routes[best] {
			return mc.Failf(key, "%q: %d by %q, not by %q", p, got.Code, got.Value("Tag"), routes[best])
		}
		if have := got.Values("P"); strings.Join(have, "|") != strings.Join(want, "|") {
			return mc.Failf(key, "%q: the parameters are %q, not %q", p, have, want)
		}
	}
	return nil
}

// all strings of segments
func join(segs []string, depth int) (out []string) {
	level := []string{""}
	for i := 0; i < depth; i++ {
		var next []string
		for _, p := range level {
			for _, s := range segs {
				next = append(next, p+"/"+s)
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

func main() {
	mc.Main("C16", func(r *mc.R) {
		r.Assume("where a fixed segment leads into a dead end, and another template would match with a parameter in its place, both the other template and 404 are accepted")
		universe := append([]string{"/"}, join([]string{"a", "b", "{x}"}, 3)...)
		paths := []string{"/"}
		for _, p := range join([]string{"a", "b", "c", ""}, 4) {
			paths = append(paths, p)
		}
		fewer := []string{"/"}
		for _, p := range join([]string{"a", "b", "c"}, 3) {
			fewer = append(fewer, p, p+"/")
		}
		fewer = append(fewer, "//", "//a", "/a//b", "/a//", "/aa", "/a/bb", "/A", "/a/{x}", "/{x}", "/c/c/c/c", "/a%2Fb", "/c/a%2fb")
		var bound = func(s string) string { return strings.ReplaceAll(strings.ReplaceAll(s, "%2F", "/"), "%2f", "/") }
		_ = bound
		decoded := func(ps []string) (out []string) {
			for _, p := range ps {
				if !strings.Contains(p, "%") {
					out = append(out, p)
				}
			}
			return out
		}
		fewer = decoded(fewer)
		run := func(c *mc.C, routes []string, ps []string) error {
			key := fmt.Sprintf("%q", routes)
			c.Note("%s", key)
			rt, err := build(routes, nil)
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.State(key)
			return verify(c, key, routes, rt, ps)
		}
		r.Space("pairs", func(c *mc.C) error {
			i := c.Choose(len(universe) + 1)
			j := c.Choose(len(universe) + 1)
			if j <= i && !(i == len(universe) && j == i) && !(j < len(universe) && i == len(universe)) {
				return mc.ErrSkip
			}
			if i == len(universe) && j == len(universe) {
				return mc.ErrSkip
			}
			var routes []string
			if i < len(universe) {
				routes = append(routes, universe[i])
			}
			if j < len(universe) {
				routes = append(routes, universe[j])
			}
			return run(c, routes, paths)
		})
		small := append([]string{"/"}, join([]string{"a", "{x}"}, 3)...)
		small = append(small, "/b", "/a/b", "/{x}/b", "/b/{x}")
		n := mc.Bound(r, 5, 7)
		r.Space("sets", func(c *mc.C) error {
			var routes []string
			from := 0
			for i := 0; i < n; i++ {
				k := from + c.Choose(len(small)-from+1)
				if k >= len(small) {
					break
				}
				routes = append(routes, small[k])
				from = k + 1
				if from > len(small) {
					break
				}
			}
			return run(c, routes, fewer)
		})
		// the same templates, spread over groups and resources
		inner := []string{"/", "/a", "/{x}", "/a/{x}", "/{x}/a", "/a/b"}
		gn := mc.Bound(r, 3, 4)
		// each template has its own methods
		r.Space("methods", func(c *mc.C) error {
			methods := []string{"GET", "POST", "PUT", "HEAD"}
			universe := []string{"/", "/a", "/a/{x}", "/a/b", "/{y}", "/{y}/c", "/{y}/{z}", "/a/{x}/c"}
			routes := []string{universe[c.Choose(len(universe))], universe[c.Choose(len(universe))]}
			for i := 2; i < mc.Bound(r, 2, 3); i++ {
				routes = append(routes, universe[c.Choose(len(universe))])
			}
			dynamic := false
			for i, t := range routes {
				dynamic = dynamic || strings.Contains(t, "{")
				for _, u := range routes[:i] {
					if u >= t {
						return mc.ErrSkip
					}
				}
			}
			if !dynamic {
				return mc.ErrSkip
			}
			var sets []int
			for range routes {
				sets = append(sets, 1+c.Choose(15))
			}
			key := fmt.Sprintf("%q with the methods %v", routes, sets)
			c.Note("%s", key)
			tmpls := [][]string{}
			rt, err := build(nil, func(rr *inbuilt.Router) {
				for i, t := range routes {
					tmpls = append(tmpls, segments(t))
					for m, name := range methods {
						if sets[i]&(1<<m) != 0 {
							rr.Route(method.Parse(name), t, handler(name+" "+t))
						}
					}
				}
			})
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.State(key)
			var in strings.Builder
			type q struct{ m, p string }
			var qs []q
			for _, p := range []string{"/", "/a", "/a/b", "/a/c", "/b/c", "/b/b", "/b", "/a/b/c", "/a/a/a"} {
				for _, m := range append(methods, "DELETE") {
					qs = append(qs, q{m, p})
					fmt.Fprintf(&in, "%s %s HTTP/1.1\r\n\r\n", m, p)
				}
			}
			conn := srv.NewConn([]byte(in.String()))
			if err := srv.Serve(srv.Config(), conn, 0, rt); err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.Steps(len(qs))
			out := conn.Out.Bytes()
			for _, x := range qs {
				got, rest, err := srv.ParseOne(out, x.m == "HEAD")
				if err != nil {
					return mc.Failf(key, "%v %v: %v", x.m, x.p, err)
				}
				out = rest
				path, best := segments(x.p), -1
				for k, t := range tmpls {
					if _, ok := match(t, path); ok && (best < 0 || less(t, tmpls[best])) {
						best = k
					}
				}
				if best >= 0 && got.Code == 404 && !reached(tmpls, tmpls[best], path) {
					continue
				}
				code, tag := 404, ""
				if best >= 0 {
					code = 405
					by := x.m
					for m, name := range methods {
						if name == by && sets[best]&(1<<m) != 0 {
							code, tag = 200, by+" "+routes[best]
						}
					}
					if by == "HEAD" && code == 405 && sets[best]&1 != 0 {
						code, tag = 200, "GET "+routes[best]
					}
				}
				if got.Code != code || got.Value("Tag") != tag {
					return mc.Failf(key, "%s %s: %d by %q, want %d by %q", x.m, x.p, got.Code, got.Value("Tag"), code, tag)
				}
			}
			if len(out) > 0 {
				return mc.Failf(key, "%q behind the last response", out)
			}
			return nil
		})
		r.Space("groups", func(c *mc.C) error {
			var routes []string
			type entry struct {
				g    int
				path string
			}
			var es []entry
			prefixes := []string{"", "/a", "/{x}", "/b"}
			for i := 0; i < gn; i++ {
				k := c.Choose(len(prefixes)*len(inner) + 1)
				if k == len(prefixes)*len(inner) {
					break
				}
				e := entry{k % len(prefixes), inner[k/len(prefixes)]}
				full := prefixes[e.g] + e.path
				if len(full) > 1 {
					full = strings.TrimSuffix(full, "/")
				}
				for _, t := range routes {
					if t == full {
						return mc.ErrSkip
					}
				}
				es = append(es, e)
				routes = append(routes, full)
			}
			// groups exist from the start, in either order, or come into being as they are needed; they may be nested
			how := c.Choose(4)
			key := fmt.Sprintf("%q, groups %d", routes, how)
			c.Note("%s", key)
			rt, err := build(nil, func(r *inbuilt.Router) {
				gs := make([]*inbuilt.Router, len(prefixes))
				gs[0] = r
				get := func(g int) *inbuilt.Router {
					if gs[g] == nil {
						if how == 3 {
							gs[g] = r.Group("").Group(prefixes[g])
						} else {
							gs[g] = r.Group(prefixes[g])
						}
					}
					return gs[g]
				}
				switch how {
				case 0:
					for g := range gs {
						get(g)
					}
				case 1:
					for g := len(gs) - 1; g > 0; g-- {
						get(g)
					}
				}
				for i, e := range es {
					if e.path == "/" && e.g != 0 {
						get(e.g).Resource("").Get(handler(routes[i]))
						continue
					}
					get(e.g).Get(e.path, handler(routes[i]))
				}
			})
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.State(key)
			return verify(c, key, routes, rt, fewer)
		})
		// names of parameters: different, repeated, unnamed
		names := join([]string{"a", "{x}", "{y}", "{}", "{xx}"}, 3)
		r.Space("names", func(c *mc.C) error {
			a, b := mc.Pick(c, names), mc.Pick(c, names)
			if a >= b {
				return mc.ErrSkip
			}
			routes := []string{a, b}
			if conflict(segments(a), segments(b)) {
				// refused, or, if it is accepted, both must work
				key := fmt.Sprintf("%q", routes)
				c.Note("%s", key)
				rt, err := build(routes, nil)
				c.Step()
				if err != nil {
					return nil
				}
				if pattern(a) == pattern(b) {
					return mc.Failf(key, "one of the handlers was silently dropped")
				}
				return verify(c, key, routes, rt, fewer)
			}
			return run(c, routes, fewer)
		})
		// templates that can not be right are refused
		tokens := []string{"/", "{", "}", "a", "{x}"}
		r.Space("syntax", func(c *mc.C) error {
			t := ""
			for k := c.Choose(7); k > 0; k-- {
				t += mc.Pick(c, tokens)
			}
			_, err := build([]string{t}, nil)
			c.Step()
			c.State(t)
			ok := strings.HasPrefix(t, "/")
			dyn := false
			if ok {
				for _, s := range segments(t) {
					in := strings.ContainsAny(s, "{")
					good := len(s) >= 2 && s[0] == '{' && s[len(s)-1] == '}' && !strings.ContainsAny(s[1:len(s)-1], "{}")
					dyn = dyn || in
					if in && !good {
						ok = false
					}
				}
			}
			if ok && err != nil {
				return mc.Failf(fmt.Sprintf("%q", t), "it is refused: %v", err)
			}
			if !ok && err == nil {
				return mc.Failf(fmt.Sprintf("%q", t), "it is accepted")
			}
			return nil
		})
		// many branches at one node
		r.Space("many branches", func(c *mc.C) error {
			k := c.Choose(mc.Bound(r, 40, 80))
			var routes, ps []string
			pre := mc.Pick(c, []string{"", "/p", "/{w}"})
			for i := 0; i < k; i++ {
				routes = append(routes, fmt.Sprintf("%s/s%d", pre, i), fmt.Sprintf("%s/s%d/{v}", pre, i))
			}
			if c.Bool() {
				routes = append(routes, pre+"/{v}")
			} else {
				routes = append(routes, pre+"/x/{v}")
			}
			for i := -1; i <= k; i++ {
				ps = append(ps, fmt.Sprintf("/p/s%d", i), fmt.Sprintf("/s%d", i), fmt.Sprintf("/s%d/val", i), fmt.Sprintf("/p/s%d/val%d/", i, i))
			}
			return run(c, routes, append(ps, "/p/x/y", "/x/y", "/p", "/p/"))
		})
		// captured text: any bytes but slashes
		r.Space("captured text", func(c *mc.C) error {
			b := c.Choose(256)
			if b == '/' || b == 0 {
				return mc.ErrSkip
			}
			esc := fmt.Sprintf("%%%02X", b)
			seg := "<" + string([]byte{byte(b)}) + ">"
			tail := mc.Pick(c, []string{"", "/", "/end", "/end/"})
			tmpl := "/p/{name}"
			if strings.HasPrefix(tail, "/end") {
				tmpl = "/p/{name}/end"
			}
			var got []pair
			tag := false
			rt, err := build(nil, func(r *inbuilt.Router) {
				r.Get(tmpl, func(q *http.Request) *http.Response {
					tag = true
					for _, p := range q.Params.Unwrap() {
						got = append(got, pair{p.Key, strings.Clone(p.Value)})
					}
					return q.Respond()
				})
			})
			key := fmt.Sprintf("%s with byte %d%s", tmpl, b, tail)
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			conn := srv.NewConn([]byte("GET /p/<" + esc + ">" + tail + " HTTP/1.1\r\n\r\n"))
			if err := srv.Serve(srv.Config(), conn, 0, rt); err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.Step()
			c.State(key)
			if !tag || len(got) != 1 || got[0] != (pair{"name", seg}) {
				return mc.Failf(key, "called %v with %q, not %q", tag, got, seg)
			}
			return nil
		})
		// deep templates, long segments, long names
		r.Space("sizes", func(c *mc.C) error {
			shape := c.Choose(6)
			most := mc.Bound(r, 100, 600)
			if shape == 2 || shape == 3 || shape == 4 {
				most = 30000
			}
			n := mc.Pick(c, mc.Ladder(most))
			if n == 0 {
				return mc.ErrSkip
			}
			long := strings.Repeat("abcdefg", n/7+1)[:n]
			var routes, ps []string
			switch shape {
			case 0: // many parameters
				t, p := "", ""
				for i := 0; i < n; i++ {
					t += fmt.Sprintf("/{p%d}", i)
					p += fmt.Sprintf("/v%d", i)
				}
				routes = []string{t + "/{last}", t + "/{last}/end"}
				ps = []string{p + "/x", p + "/x/", p, p + "/x/end", p + "/x/y", p + "/x/end/z"}
			case 1: // fixed segments, then a parameter
				t := strings.Repeat("/s", n)
				routes = []string{t + "/{x}", t + "/s/s/{x}"}
				ps = []string{t + "/a", t + "/s", t + "/s/s/s", t + "/s/s", t + "/b/", t + "/s/t/s"}
			case 2: // long fixed segments
				routes = []string{"/a" + long + "/{x}", "/a" + long + "a/{x}", "/{y}"}
				ps = []string{"/a" + long + "/1", "/a" + long + "a/2", "/a" + long + "b/3", "/a" + long, "/" + long + "/4"}
			case 3: // long values
				routes = []string{"/u/{x}/v/{y}", "/u/{x}"}
				ps = []string{"/u/q" + long + "/v/" + long + "z", "/u/" + long + "w", "/u/" + long + "w/", "/u/1/v/" + long + long + "2", "/u/x/v/y"}
			case 4: // long names
				routes = []string{"/u/{n" + long + "}/v/{" + long + "m}"}
				ps = []string{"/u/1/v/2", "/u/1/v/", "/u/33/v/44/"}
			case 5: // alternating
				t, p := "", ""
				for i := 0; i < n; i++ {
					t += fmt.Sprintf("/f%d/{p%d}", i, i)
					p += fmt.Sprintf("/f%d/w%d", i, i)
				}
				routes = []string{t + "/{z}", "/f0/{p0}/other"}
				ps = []string{p + "/1", p + "/1/2", p, "/f0/1/other", "/f0/1/f1/2"}
			}
			var twice []string
			for i := 0; i < 3; i++ {
				twice = append(twice, ps...)
			}
			key := fmt.Sprintf("shape %d, size %d", shape, n)
			c.Note("%s", key)
			rt, err := build(routes, nil)
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.State(key)
			return verify(c, key, routes, rt, twice)
		})
		// long connections
		r.Space("long histories", func(c *mc.C) error {
			var ps, all []string
			for i := 1 + c.Choose(3); i > 0; i-- {
				ps = append(ps, mc.Pick(c, []string{"/u/1", "/u/2/p/3", "/s", "/q/x/y", "/u/4/none", "/nothing", "/u/5/p", "/q/x/y/z"}))
			}
			times := mc.Pick(c, []int{10, 100, 300})
			for i := 0; i < times; i++ {
				all = append(all, ps...)
			}
			routes := []string{"/u/{id}", "/u/{id}/p/{post}", "/s", "/{any}/x/{more}"}
			key := fmt.Sprintf("%q %d times", ps, times)
			c.Note("%s", key)
			rt, err := build(routes, nil)
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.State(key)
			return verify(c, key, routes, rt, append(all, "/u/8/p/9", "/s", "/x/y", "/u/7"))
		})
		// histories: parameters of one request never show in another
		hist := []string{"/u/{id}", "/u/{id}/p/{post}", "/s", "/{any}/x/{more}"}
		hp := []string{"/u/1", "/u/2/p/3", "/s", "/q/x/y", "/u/4/none", "/nothing", "/u/5/p", "/q/x/y/z"}
		hd := mc.Bound(r, 5, 7)
		r.Space("histories", func(c *mc.C) error {
			var ps []string
			for i := 0; i < hd; i++ {
				ps = append(ps, mc.Pick(c, hp))
			}
			key := fmt.Sprintf("%q", ps)
			c.Note("%s", key)
			rt, err := build(hist, nil)
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.State(key)
			if err := verify(c, key, hist, rt, ps); err != nil {
				return err
			}
			// and over another connection
			return verify(c, key+", again", hist, rt, ps[len(ps)-3:])
		})
	})
}

func pattern(t string) string {
	var out []string
	for _, s := range segments(t) {
		if _, w := wild(s); w {
			s = "{}"
		}
		out = append(out, s)
	}
	return strings.Join(out, "/")
}
