// C12: cookies are read and written faithfully.
package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
)

type pair struct{ k, v string }

// reference: pairs are separated by semicolons, each maybe followed by one space.
func reference(s string) (ps []pair, ok bool) {
	for s != "" {
		p, rest, _ := strings.Cut(s, ";")
		s = strings.TrimPrefix(rest, " ")
		k, v, has := strings.Cut(p, "=")
		if !has || k == "" {
			return nil, false
		}
		ps = append(ps, pair{k, v})
	}
	return ps, true
}

func pairs(j cookie.Jar) (ps []pair) {
	for _, p := range j.Unwrap() {
		ps = append(ps, pair{p.Key, p.Value})
	}
	return ps
}

func same(a, b []pair) bool { return fmt.Sprintf("%q", a) == fmt.Sprintf("%q", b) }

func parse(c *mc.C, s string) error {
	key := fmt.Sprintf("%q", s)
	c.Note("%s", key)
	want, ok := reference(s)
	jar := cookie.NewJar()
	err := cookie.Parse(jar, s)
	c.Step()
	if (err == nil) != ok {
		return mc.Failf(key, "the error is %v", err)
	}
	c.State(key)
	if ok && !same(pairs(jar), want) {
		return mc.Failf(key, "the cookies are %q, not %q", pairs(jar), want)
	}
	return nil
}

func cfgServe(conn *srv.Conn, h func(r *http.Request) *http.Response) error {
	return srv.Serve(srv.Config(), conn, 0, srv.Funcs{
		Request: h,
		Error:   func(r *http.Request, err error) *http.Response { return http.Error(r, err) },
	})
}

func render(c *mc.C, key string, cookies []cookie.Cookie, kind int) error {
	c.Note("%s", key)
	conn := srv.NewConn([]byte("GET / HTTP/1.1\r\n\r\n"))
	err := cfgServe(conn, func(r *http.Request) *http.Response {
		resp := r.Respond()
		if c.Tracing {
			c.Note("kind %d", kind)
		}
		switch kind {
		case 0:
			resp = resp.Cookie(cookies...).String("body")
		case 1:
			for _, k := range cookies {
				resp = resp.Cookie(k)
			}
			resp = resp.Attachment(strings.NewReader("body"), 4)
		case 2:
			resp = resp.Cookie(cookies...).Attachment(strings.NewReader("body"), 0)
		}
		return resp
	})
	if err != nil {
		return mc.Failf(key, "%v", err)
	}
	c.Step()
	rs, err := srv.ParseAll(conn.Out.Bytes())
	if err != nil || len(rs) != 1 || rs[0].Body != "body" {
		return mc.Failf(key, "broken response (%v): %q", err, conn.Out.String())
	}
	got := rs[0].Values("Set-Cookie")
	if len(got) != len(cookies) {
		return mc.Failf(key, "%d cookies are rendered: %q", len(got), conn.Out.String())
	}
	for i := range got {
		if err := srv.CheckCookie(got[i], cookies[i]); err != nil {
			return mc.Failf(key, "%v", err)
		}
	}
	c.State(strings.Join(got, "\n"))
	return nil
}

func main() {
	mc.Main("C12", func(r *mc.R) {
		r.Assume("names, values and attributes of rendered cookies contain no semicolons, controls or line breaks; the attribute Max-Age may also be spelled MaxAge")
		tokens := []string{"a", "b", "A", "=", ";", " ", ",", "\"", "\xff", "; "}
		depth := mc.Bound(r, 6, 8)
		r.Space("parse", func(c *mc.C) error {
			var b strings.Builder
			for n := c.Choose(depth + 1); n > 0; n-- {
				b.WriteString(mc.Pick(c, tokens))
			}
			return parse(c, b.String())
		})
		r.Space("bytes", func(c *mc.C) error {
			x, y := string([]byte{byte(c.Choose(256))}), string([]byte{byte(c.Choose(256))})
			return parse(c, mc.Pick(c, []string{x + y, "k=" + x + y, x + "=" + y, "a=b;" + x + y + "=c", "a=" + x + ";b=" + y + ";"}))
		})
		r.Space("jar reuse", func(c *mc.C) error {
			// parsing adds to what the jar has
			lists := []string{"a=b", "a=c; d=e", "x=", "", "a=b;"}
			jar := cookie.NewJarPreAlloc(c.Choose(2))
			var want []pair
			key := ""
			for i := 0; i < 4; i++ {
				n := c.Choose(len(lists) + 1)
				c.Step()
				if n == len(lists) {
					key += "clear "
					jar.Clear()
					want = nil
				} else {
					key += fmt.Sprintf("%q ", lists[n])
					ps, _ := reference(lists[n])
					want = append(want, ps...)
					if err := cookie.Parse(jar, lists[n]); err != nil {
						return mc.Failf(key, "%v", err)
					}
				}
				if !same(pairs(jar), want) {
					return mc.Failf(key, "the cookies are %q, not %q", pairs(jar), want)
				}
			}
			c.State(key)
			return nil
		})
		values := []string{"a=b", "c=d; e=f", "a=x;", "k", "=v", "", "a==", "a=b; ", "A=upper"}
		names := []string{"Cookie", "cookie", "COOKIE"}
		r.Space("requests", func(c *mc.C) error {
			// two requests with up to two (thorough: three) Cookie headers each, cookies read twice
			var in strings.Builder
			type exp struct {
				ps []pair
				ok bool
			}
			var want []exp
			key := ""
			for q := 0; q < 2; q++ {
				e := exp{ok: true}
				in.WriteString("GET / HTTP/1.1\r\n")
				for n := c.Choose(mc.Bound(r, 3, 3)); n > 0; n-- {
					name, v := mc.Pick(c, names), mc.Pick(c, values)
					fmt.Fprintf(&in, "%s: %s\r\nX-Cookie: z=z\r\n", name, v)
					key += fmt.Sprintf("%s: %q ", name, v)
					// whitespace at the end of header values is not specified
					ps, ok := reference(strings.TrimSuffix(v, "; "))
					if !ok || !e.ok {
						e = exp{nil, false}
					} else {
						e.ps = append(e.ps, ps...)
					}
				}
				in.WriteString("\r\n")
				key += "| "
				want = append(want, e)
			}
			c.Note("%s", key)
			var bad error
			n := 0
			err := cfgServe(srv.NewConn([]byte(in.String())), func(r *http.Request) *http.Response {
				for i := 0; i < 2; i++ {
					jar, err := r.Cookies()
					if (err == nil) != want[n].ok {
						bad = mc.Failf(key, "request %d: the error is %v", n+1, err)
					} else if err == nil && !same(pairs(jar), want[n].ps) {
						bad = mc.Failf(key, "request %d: the cookies are %q, not %q", n+1, pairs(jar), want[n].ps)
					}
				}
				n++
				return r.Respond()
			})
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.Steps(2)
			if bad == nil && n != 2 {
				return mc.Failf(key, "%d requests were served", n)
			}
			c.State(key)
			return bad
		})
		times := []time.Time{{}, time.Unix(0, 0), time.Date(2024, 2, 29, 23, 59, 59, 999, time.UTC), time.Date(2031, 12, 1, 1, 2, 3, 0, time.FixedZone("z", -5*3600))}
		ages := []int{0, 1, 3600, 1 << 40, -1, -500}
		r.Space("render", func(c *mc.C) error {
			k := cookie.Cookie{Name: mc.Pick(c, []string{"n", "Name-1"}), Value: mc.Pick(c, []string{"", "v", "a=b c\""})}
			k.Path, k.Domain = mc.Pick(c, []string{"", "/", "/p/q"}), mc.Pick(c, []string{"", "example.org"})
			k.Expires, k.MaxAge = mc.Pick(c, times), mc.Pick(c, ages)
			k.SameSite = mc.Pick(c, []string{"", "Lax", "Strict", "None"})
			k.Secure, k.HttpOnly = c.Bool(), c.Bool()
			if cookie.SameSiteLax != "Lax" || cookie.SameSiteStrict != "Strict" || cookie.SameSiteNone != "None" {
				return mc.Failf("same site", "the policies are %q, %q, %q", cookie.SameSiteLax, cookie.SameSiteStrict, cookie.SameSiteNone)
			}
			b := cookie.Build(k.Name, k.Value).Path(k.Path).Domain(k.Domain).Expires(k.Expires).MaxAge(k.MaxAge).SameSite(k.SameSite).Secure(k.Secure).HttpOnly(k.HttpOnly)
			if got := b.Cookie(); got != k {
				return mc.Failf(fmt.Sprintf("%+v", k), "the builder makes %+v", got)
			}
			if got := cookie.New(k.Name, k.Value); got != (cookie.Cookie{Name: k.Name, Value: k.Value}) {
				return mc.Failf(fmt.Sprintf("%+v", k), "New makes %+v", got)
			}
			return render(c, fmt.Sprintf("%+v", k), []cookie.Cookie{k}, c.Choose(3))
		})
		some := []cookie.Cookie{cookie.New("a", "b"), cookie.New("a", "c"), cookie.New("empty", ""), cookie.Build("p", "1").Path("/").Cookie(), cookie.Build("s", "2").Secure(true).MaxAge(-1).Cookie()}
		r.Space("render several", func(c *mc.C) error {
			var ks []cookie.Cookie
			for n := c.Choose(5); n > 0; n-- {
				ks = append(ks, mc.Pick(c, some))
			}
			return render(c, fmt.Sprintf("%+v", ks), ks, c.Choose(3))
		})
		r.Space("values", func(c *mc.C) error {
			b := byte(c.Choose(256))
			if b < 0x20 || b == 0x7f || b == ';' {
				return mc.ErrSkip
			}
			k := cookie.New("n", "<"+string([]byte{b})+">")
			return render(c, fmt.Sprintf("%+q", k.Value), []cookie.Cookie{k, k}, c.Choose(3))
		})
		// many cookies, and long ones
		r.Space("sizes", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 1000, 4000)))
			var b strings.Builder
			switch c.Choose(4) {
			case 0:
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, "c%d=%d; ", i, i*7)
				}
				b.WriteString("z=z")
			case 1:
				b.WriteString("a=b;" + strings.Repeat("n", n) + "=v; c=d")
			case 2:
				b.WriteString("a=b; n=" + strings.Repeat("v=", n) + ";c=d;")
			case 3:
				b.WriteString(strings.Repeat("a=;", n))
			}
			return parse(c, b.String())
		})
		// many requests with cookies on a connection, each with several headers
		r.Space("many requests", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 150, 1500)))
			most := mc.Pick(c, []int{1, 2, 20})
			bad := c.Choose(3)
			key := fmt.Sprintf("%d requests with up to %d cookies, kind %d", n, most, bad)
			c.Note("%s", key)
			var in strings.Builder
			var want [][]pair
			for q := 0; q < n; q++ {
				in.WriteString("GET / HTTP/1.1\r\n")
				ps := []pair{}
				for k := 0; k < q%(most+1); k++ {
					fmt.Fprintf(&in, "Cookie: k%d=%d; n=%d\r\n", k, q, k)
					ps = append(ps, pair{fmt.Sprint("k", k), fmt.Sprint(q)}, pair{"n", fmt.Sprint(k)})
				}
				if bad > 0 && q%7 == bad {
					in.WriteString("Cookie: a=b; broken\r\n")
					ps = nil
				}
				in.WriteString("\r\n")
				want = append(want, ps)
			}
			i := 0
			var fail error
			err := cfgServe(srv.NewConn([]byte(in.String())), func(r *http.Request) *http.Response {
				if q := i; bad < 2 || q%3 != 0 {
					jar, err := r.Cookies()
					if (err == nil) != (want[q] != nil) {
						fail = mc.Failf(key, "request %d: the error is %v", q+1, err)
					} else if err == nil && !same(pairs(jar), want[q]) {
						fail = mc.Failf(key, "request %d: the cookies are %q, not %q", q+1, pairs(jar), want[q])
					}
				}
				i++
				return r.Respond()
			})
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.Steps(n)
			c.State(key)
			if fail == nil && i != n {
				return mc.Failf(key, "%d requests were served", i)
			}
			return fail
		})
		r.Space("render sizes", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 70000, 1<<20)))
			long := strings.Repeat("0123456789", n/10+1)[:n]
			var ks []cookie.Cookie
			switch c.Choose(5) {
			case 0:
				ks = append(ks, cookie.New("a", long))
			case 1:
				ks = append(ks, cookie.New("a"+long, "v"))
			case 2:
				ks = append(ks, cookie.Build("a", "v").Path("/"+long).Cookie())
			case 3:
				ks = append(ks, cookie.Build("a", "v").Domain("d"+long).Secure(true).Cookie())
			case 4:
				if n > 2000 {
					return mc.ErrSkip
				}
				for i := 0; i < n; i++ {
					ks = append(ks, cookie.Build(fmt.Sprint("k", i), fmt.Sprint(i)).MaxAge(i-1).HttpOnly(i%2 == 0).Cookie())
				}
			}
			ks = append(ks, cookie.New("last", "one"))
			return render(c, fmt.Sprintf("%d cookies, the first begins with %.30q, %d", len(ks), ks[0].Name, n), ks, c.Choose(3))
		})
		// every second of the days around the changes of months and years, every hour of some years
		r.Space("expirations", func(c *mc.C) error {
			base := time.Date(mc.Pick(c, []int{1970, 1999, 2000, 2023, 2024, 2038, 2100, 9999}), time.Month(1+c.Choose(12)), 1+c.Choose(31), mc.Pick(c, []int{0, 1, 9, 10, 12, 23}), mc.Pick(c, []int{0, 5, 59}), mc.Pick(c, []int{0, 9, 59}), 0, time.FixedZone("z", mc.Pick(c, []int{0, 3600, -12600})))
			if base.Unix() < 0 || base.UTC().Year() > 9999 {
				return mc.ErrSkip
			}
			k := cookie.Build("n", "v").Expires(base).Cookie()
			return render(c, base.String(), []cookie.Cookie{k}, 0)
		})
	})
}
