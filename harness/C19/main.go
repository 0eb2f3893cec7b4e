// C19: a request is served by the virtual host its Host header names, whatever its case, www
// prefix and default port; everything else goes to the default router or is refused.
package main

import (
	"fmt"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
	"github.com/indigo-web/indigo/router/virtual"
	"github.com/indigo-web/indigo/router/virtual/internal/domain"
)

// norm is the reference: hosts are compared case-insensitively, without www. and the default ports.
func norm(h string) string {
	h = strings.TrimPrefix(strings.ToLower(h), "www.")
	if i := strings.LastIndexByte(h, ':'); i >= 0 && !strings.HasSuffix(h, "]") {
		if p := h[i+1:]; p == "80" || p == "443" {
			h = h[:i]
		}
	}
	return h
}

func bare(h string) string {
	h, _, _ = strings.Cut(h, ":")
	return h
}

func tagged(tag string, log *[]string) srv.Funcs {
	return srv.Funcs{
		Request: func(r *http.Request) *http.Response {
			*log = append(*log, tag)
			return http.String(r, tag)
		},
		Error: func(r *http.Request, err error) *http.Response {
			*log = append(*log, "error-"+tag)
			return http.Code(r, status.Teapot).String("error-" + tag)
		},
	}
}

func main() {
	mc.Main("C19", func(r *mc.R) {
		registered := []string{"a.com", "www.a.com", "A.com", "a.com:80", "a.com:8080", "b.a.com", "0.0.0.0", "0.0.0.0:8080", "localhost:443", "1.1.1.1", "www.com", "[::1]:80", "0.0.0.0:80"}
		asked := []string{"a.com", "www.a.com", "A.COM", "WWW.a.com", "a.com:80", "a.com:443", "a.com:8080", "a.com:808", "b.a.com", "www.b.a.com:80",
			"localhost", "localhost:80", "localhost:8080", "1.1.1.1:443", "1.1.1.1", "0.0.0.0", "com", "www.com", "www.www.com", "x", "[::1]", "[::1]:80", "[::1]:81", "a.com.", "wwwa.com"}
		r.Assume("Host values are host[:port] as RFC 9110 7.2 has it; other strings are only covered as unmatched hosts")

		r.Space("routing", func(c *mc.C) error {
			var log []string
			v := virtual.New()
			type reg struct{ host, tag string }
			var model []reg
			def := ""
			n := c.Choose(mc.Bound(r, 4, 5))
			desc := ""
			for i := 0; i < n; i++ {
				h := mc.Pick(c, registered)
				tag := fmt.Sprintf("r%d", i)
				v.Host(h, tagged(tag, &log))
				desc += fmt.Sprintf("%s=%s ", h, tag)
				if bare(norm(h)) == "0.0.0.0" {
					def = tag
				} else {
					model = append(model, reg{norm(h), tag})
				}
			}
			if c.Bool() {
				v.Default(tagged("def", &log))
				def = "def"
				desc += "default=def "
			}
			router := v.Initialize()
			for k := 0; k < 6; k++ {
				if k > 2 && n > 2 {
					break
				}
				for _, h := range asked {
					hosts := [][]string{{h}, {}, {h, "a.com"}, {h, h}, {h, h, h}, {h, "a.com", h, h}}[k]
					if k == 1 && h != asked[0] {
						break
					}
					for broken := 0; broken < 2; broken++ {
						c.Step()
						raw := "GET / HTTP/1.1\r\n"
						for _, x := range hosts {
							raw += "Host: " + x + "\r\n"
						}
						if broken == 1 {
							raw += "Content-Length: x\r\n"
						}
						raw += "\r\n"
						log = log[:0]
						conn := srv.NewConn([]byte(raw))
						if err := srv.Serve(srv.Config(), conn, encryption.Plain, router); err != nil {
							return mc.Failf("panic:"+desc+raw, "%v", err)
						}
						want, code := def, 421
						switch len(hosts) {
						case 0:
							code = 400
						case 1:
							for _, m := range model {
								if m.host == norm(h) {
									want = m.tag
									break
								}
							}
						default:
							want, code = "", 400
						}
						if want != "" {
							code = 200
							if broken == 1 {
								want, code = "error-"+want, 418
							}
						}
						rs, err := srv.ParseAll(conn.Out.Bytes())
						if err != nil || len(rs) != 1 {
							return mc.Failf("response:"+desc+raw, "output %q: %v", conn.Out.Bytes(), err)
						}
						if rs[0].Code != code || rs[0].Body != want {
							return mc.Failf("route:"+desc+"?"+strings.Join(hosts, ","), "with %s, a request to %q got %d %q, want %d %q", desc, hosts, rs[0].Code, rs[0].Body, code, want)
						}
						// nobody but the one chosen may have seen it (the end of the connection is reported, too)
						for _, l := range log {
							if strings.TrimPrefix(l, "error-") != strings.TrimPrefix(want, "error-") && strings.TrimPrefix(l, "error-") != def {
								return mc.Failf("leak:"+desc+"?"+strings.Join(hosts, ","), "with %s, a request to %q reached %v", desc, hosts, log)
							}
						}
						c.State(fmt.Sprint(desc, hosts, code, want))
					}
				}
			}
			c.Note("%s", desc)
			return nil
		})
		// the normalisation by itself, on every host of a small grammar
		r.Space("normalisation", func(c *mc.C) error {
			labels := []string{"a", "www", "com", "80", "localhost", "1", "wwwx"}
			var parts []string
			for n := 1 + c.Choose(mc.Bound(r, 4, 5)); len(parts) < n; {
				parts = append(parts, mc.Pick(c, labels))
			}
			ports := []string{"", ":80", ":443", ":8080", ":8443", ":4433", ":0", ":", ":43", ":8", ":180"}
			h := strings.Join(parts, ".") + mc.Pick(c, ports)
			c.Step()
			c.State(h)
			if got := domain.Normalize(h); got != norm(h) {
				return mc.Failf("normalize:"+h, "Normalize(%q) = %q, want %q", h, got, norm(h))
			}
			if got := domain.TrimPort(h); got != bare(h) {
				return mc.Failf("trimport:"+h, "TrimPort(%q) = %q, want %q", h, got, bare(h))
			}
			return nil
		})
		// every port
		r.Space("ports", func(c *mc.C) error {
			h := mc.Pick(c, []string{"a.com", "www.a.com", "localhost", "[::1]", "1.2.3.4", "0.0.0.0", "a.com80", "www.443"}) + ":" + mc.Pick(c, []string{"", "0"})
			port := c.Choose(65536)
			h += fmt.Sprint(port)
			c.Step()
			c.State(h)
			if got := domain.Normalize(h); got != norm(h) {
				return mc.Failf("normalize:"+h, "Normalize(%q) = %q, want %q", h, got, norm(h))
			}
			if !strings.HasPrefix(h, "[") {
				if got := domain.TrimPort(h); got != bare(h) {
					return mc.Failf("trimport:"+h, "TrimPort(%q) = %q, want %q", h, got, bare(h))
				}
			}
			return nil
		})
		// serves the requests over one connection; hosts[i] is the host of the i-th virtual router
		serve := func(c *mc.C, key string, hosts, ask []string, def bool) error {
			var log []string
			v := virtual.New()
			for i, h := range hosts {
				v.Host(h, tagged(fmt.Sprint("r", i), &log))
			}
			if def {
				v.Default(tagged("def", &log))
			}
			raw := ""
			var want []string
			for _, h := range ask {
				raw += "GET / HTTP/1.1\r\nHost: " + h + "\r\n\r\n"
				w := "421"
				if def {
					w = "def"
				}
				for i, x := range hosts {
					if norm(x) == norm(h) {
						w = fmt.Sprint("r", i)
						break
					}
				}
				want = append(want, w)
			}
			c.Note("%s", key)
			conn := srv.NewConn([]byte(raw))
			if err := srv.Serve(srv.Config(), conn, encryption.Plain, v.Initialize()); err != nil {
				return mc.Failf("panic:"+key, "%v", err)
			}
			c.Steps(len(ask))
			c.State(key)
			rs, err := srv.ParseAll(conn.Out.Bytes())
			if err != nil || len(rs) != len(ask) {
				return mc.Failf(key, "%d responses to %d requests, %v", len(rs), len(ask), err)
			}
			for i, w := range want {
				if w == "421" && rs[i].Code != 421 || w != "421" && (rs[i].Body != w || rs[i].Code != 200) {
					return mc.Failf(key, "request %d to %.100q got %d %q, want %s", i+1, ask[i], rs[i].Code, rs[i].Body, w)
				}
			}
			return nil
		}
		// names which differ in letters, or in one byte
		const hostBytes = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_."
		r.Space("bytes of names", func(c *mc.C) error {
			x := hostBytes[c.Choose(len(hostBytes))]
			pre, post := mc.Pick(c, []string{"a", "www.b", "long-name."}), mc.Pick(c, []string{"z", ".org", "z:8080"})
			var ask []string
			for i := range hostBytes {
				ask = append(ask, pre+hostBytes[i:i+1]+post)
			}
			h := pre + string([]byte{x}) + post
			return serve(c, "host "+h, []string{h}, ask, c.Bool())
		})
		// long names
		r.Space("long names", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(2000))
			a := strings.Repeat("Sub-", n/4+1)[:n] + "a.com"
			b := a[:n/2] + "b" + a[n/2:]
			hosts := mc.Pick(c, [][]string{{a, b}, {b, a}, {"www." + a, b + ":80"}, {a + ":8080", b}})
			ask := []string{a, b, strings.ToUpper(a), "www." + strings.ToLower(b), a + ":80", b + ":443", a + "x", "x" + b, a + ":8080", a[:len(a)-1]}
			return serve(c, fmt.Sprintf("%d hosts, names of %d bytes, %.30q", len(hosts), n, hosts[0]), hosts, ask, c.Bool())
		})
		// many hosts, and many requests over a connection
		r.Space("many hosts", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(300))
			shape := mc.Pick(c, []string{"h%d.com", "www.h%d.com:80", "%d.1.1.1", "a.com:%d"})
			var hosts, ask []string
			for i := 0; i < n; i++ {
				hosts = append(hosts, fmt.Sprintf(shape, i+1000))
			}
			for i := -1; i <= n; i++ {
				h := fmt.Sprintf(shape, i+1000)
				ask = append(ask, h, strings.ToUpper(h), "none.com", h+"0")
			}
			return serve(c, fmt.Sprintf("%d hosts like %s", n, shape), hosts, ask, c.Bool())
		})
		r.Space("many requests", func(c *mc.C) error {
			var ask []string
			for i := 1 + c.Choose(3); i > 0; i-- {
				ask = append(ask, mc.Pick(c, []string{"a.com", "WWW.A.com:80", "b.org", "b.org:8080", "none", "[::1]:443"}))
			}
			key := fmt.Sprint(ask)
			times := mc.Pick(c, []int{2, 10, 300})
			var all []string
			for i := 0; i < times; i++ {
				all = append(all, ask...)
			}
			return serve(c, fmt.Sprintf("%s %d times", key, times), []string{"a.com", "b.org:8080", "b.org", "[::1]"}, append(all, "a.com", "b.org", "none"), c.Bool())
		})
	})
}
