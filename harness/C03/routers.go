package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/headers"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
	"github.com/indigo-web/indigo/router/inbuilt/mutator"
	"github.com/indigo-web/indigo/router/virtual"
)

type silent struct{}

func (silent) Printf(string, ...any) {}

// everything asks a request for all it has.
func everything(req *http.Request) *http.Response {
	n := 0
	_, _ = req.Query.Get("a")
	if params, err := req.Query.Unwrap(); err == nil {
		n += params.Len()
	}
	if jar, err := req.Cookies(); err == nil {
		n += len(jar.Unwrap())
	}
	for _, p := range req.Headers.Unwrap() {
		n += len(headers.ValueOf(p.Value)) + len(headers.CharsetOf(p.Value)) + len(headers.ParamOf(p.Value, "a")) + headers.QualityOf(p.Value)
	}
	n += len(req.Headers.Values("a")) + len(http.Escape(req.Path)) + len(req.Params.Value("x"))
	var v any
	if err := req.JSON(&v); err != nil && (req.ContentLength > 0 || req.Encoding.Chunked) {
		return http.Error(req, status.ErrBadRequest)
	}
	return http.String(req, fmt.Sprint(n))
}

// application is one which uses all the parts of the framework.
func application(dir string) router.Router {
	r := inbuilt.New()
	r.Mutator(mutator.Alias("/al", "/d/aliased")).Mutator(mutator.RequestsLog(silent{}))
	r.Use(middleware.LogRequests(silent{}))
	r.Get("/", everything).Post("/", everything).Get("/d/{x}", everything).Get("/d/{x}/e", everything).Catch("/c/", everything).Static("/s", dir)
	r.Group("/https").Use(middleware.HTTPSOnly()).Get("/x", everything)
	r.Resource("/res").Get(everything).Post(everything)
	other := inbuilt.New()
	other.Get("/", everything)
	return virtual.New().Host("a.com", r).Host("b", other).Host("[::1]:8080", other).Default(r).Initialize()
}

// application spaces: whatever the fields of requests are, they're answered.
func applicationSpaces(r *mc.R) error {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "s")
	if err != nil {
		return err
	}
	rt := application(dir)
	type field struct {
		name, pre, post, alphabet string
		n                         int
	}
	fields := []field{
		{"path", "GET /", " HTTP/1.1\r\nHost: a.com\r\n\r\n", "dsc/.{}%2Fx", 5},
		{"raw path", "GET ", " HTTP/1.1\r\nHost: a.com\r\n\r\n", "*/:.?#ahttps", 4},
		{"host", "GET /https/x HTTP/1.1\r\nHost: ", "\r\n\r\n", "w.ab:80[]", 5},
		{"host", "GET / HTTP/1.1\r\nHost:", "\r\n\r\n", " w.:4[]3\t", 5},
		{"query", "GET /?", " HTTP/1.1\r\nHost: b\r\n\r\n", "a=&%41+;[", 5},
		{"cookies", "GET / HTTP/1.1\r\nHost: b\r\nCookie: ", "\r\n\r\n", "a=; \",", 6},
		{"values", "GET / HTTP/1.1\r\nHost: b\r\nAccept: ", "\r\n\r\n", "a;q=0.,\" c", 5},
		{"values", "GET / HTTP/1.1\r\nHost: b\r\nAccept: text", "\r\n\r\n", ";q=1. acharset", 4},
		{"type", "POST / HTTP/1.1\r\nHost: a.com\r\nContent-Length: 2\r\nContent-Type: application/", "\r\n\r\n{}", "json;= ", 5},
		{"json", "POST /res HTTP/1.1\r\nHost: a.com\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n", "\r\n0\r\n\r\n", "{}[]\":,1n", 5},
		{"trace", "TRACE /", " HTTP/1.1\r\nHost: a.com\r\nX: y\r\n\r\n", "d/?a=%41", 5},
		{"method", "", " /res HTTP/1.1\r\nHost: a.com\r\n\r\n", "GETPOSHADRC", 5},
		{"upgrade", "GET / HTTP/1.1\r\nHost: b\r\nConnection: upgrade\r\nUpgrade: ", "\r\n\r\n", "HTTP/1.0h2c,", 5},
	}
	for i, f := range fields {
		f := f
		n := f.n + mc.Bound(r, 0, 1)
		r.Space(fmt.Sprintf("application %d: %s", i+1, f.name), func(c *mc.C) error {
			var b []byte
			for i := 0; i < n; i++ {
				k := c.Choose(len(f.alphabet) + 1)
				if k == 0 {
					break
				}
				b = append(b, f.alphabet[k-1])
			}
			if f.name == "json" {
				for len(b) < 5 {
					b = append(b, ' ')
				}
				b = b[:5]
			}
			stream := f.pre + string(b) + f.post + "GET / HTTP/1.1\r\nHost: b\r\n\r\n"
			c.Note("%q", stream)
			conn := srv.NewConn([]byte(stream))
			if err := srv.Serve(srv.Config(), conn, 0, rt); err != nil {
				return mc.Failf("panic:"+stream, "%v", err)
			}
			c.Steps(2)
			head := strings.HasPrefix(stream, "HEAD ")
			rs, err := srv.ParseAll(conn.Out.Bytes(), head)
			if err != nil || len(rs) == 0 || len(rs) > 3 {
				return mc.Failf(stream, "%d responses, %v: %q", len(rs), err, conn.Out.String())
			}
			// after a request that is served, so is the next one
			first := rs[0].Code
			if first == 101 {
				if len(rs) != 3 {
					return mc.Failf(stream, "%d responses: %q", len(rs), conn.Out.String())
				}
				return nil
			}
			if first < 400 && (len(rs) != 2 || rs[1].Code != 200) {
				return mc.Failf(stream, "%d responses, the first is fine: %q", len(rs), conn.Out.String())
			}
			if first >= 500 && first != 501 && first != 505 {
				return mc.Failf(stream, "%q", conn.Out.String())
			}
			c.State(f.name + fmt.Sprint(first, len(rs)))
			return nil
		})
	}
	// malformed elements which are long, at the end of long connections
	r.Space("long", func(c *mc.C) error {
		before := strings.Repeat(valid[0], mc.Pick(c, []int{0, 1, 100}))
		n := mc.Pick(c, mc.Ladder(3000))
		fill := strings.Repeat("z", n)
		bad := mc.Pick(c, []string{"\r", "\x00", "%", "%4", "%zz", " ", ":", "\n", "\r\n", "\t", ","})
		at := mc.Pick(c, []int{0, n / 2, n})
		s := fill[:at] + bad + fill[at:]
		switch c.Choose(8) {
		case 0:
			s = "GET /" + s + " HTTP/1.1\r\nA: b\r\n\r\n"
		case 1:
			s = "GET /?" + s + " HTTP/1.1\r\nA: b\r\n\r\n"
		case 2:
			if n > 60 {
				return mc.ErrSkip
			}
			s = "GET / HTTP/1.1\r\n" + s + ": b\r\n\r\n"
		case 3:
			s = "GET / HTTP/1.1\r\nA: " + s + "\r\n\r\n"
		case 4:
			if n > 200 {
				return mc.ErrSkip
			}
			s = "POST / HTTP/1.1\r\nContent-Length: " + strings.Replace(s, "z", "0", -1) + "1\r\n\r\nx"
		case 5:
			s = fmt.Sprintf("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", n, s)
		case 6:
			s = "POST / HTTP/1.1\r\nContent-Length: " + fmt.Sprint(n+100) + "\r\n\r\n" + s
			before += s
			s = ""
		case 7:
			s = s + " / HTTP/1.1\r\n\r\n"
		}
		s = before + s
		cfg := srv.Config()
		cfg.Headers.MaxKeyLength = 10000
		if !strings.HasSuffix(before, "\r\n") && before != "" {
			// cut short
			return checkWith(c, cfg, s, srv.NewConn([]byte(s)), "bytes")
		}
		s += next
		conn := srv.NewConn([]byte(s))
		if k := mc.Pick(c, []int{0, 1, 100}); k > 0 {
			var at []int
			for p := k; p < len(s); p += k {
				at = append(at, p)
			}
			conn = srv.NewConn(srv.Split([]byte(s), at...)...)
		}
		return checkWith(c, cfg, s, conn, mc.Pick(c, []string{"none", "bytes"}))
	})
	return nil
}
