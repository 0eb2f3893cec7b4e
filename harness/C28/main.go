// C28: concurrent connections sharing a router are isolated from each other.
package main

import (
	"context"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/cookie"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
	"github.com/indigo-web/indigo/internal/verifmc/vswitch"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
	"github.com/indigo-web/indigo/router/inbuilt/mutator"
	"github.com/indigo-web/indigo/router/virtual"
)

// conn is a scheduling point at every read and write, too.
type conn struct{ *srv.Conn }

func (c conn) Read(b []byte) (int, error) {
	vswitch.Point()
	n, err := c.Conn.Read(b)
	vswitch.Point()
	return n, err
}

func (c conn) Write(b []byte) (int, error) {
	// a slow write: half of it before, half of it after others have run
	h := len(b) / 2
	if n, err := c.Conn.Write(b[:h]); err != nil {
		return n, err
	}
	vswitch.Point()
	n, err := c.Conn.Write(b[h:])
	vswitch.Point()
	return n + h, err
}

type reader struct {
	s string
}

func (r *reader) Read(b []byte) (int, error) {
	vswitch.Point()
	n := copy(b, r.s)
	r.s = r.s[n:]
	vswitch.Point()
	if len(r.s) == 0 {
		return n, io.EOF
	}
	return n, nil
}

var root string

// show answers with everything the handler sees, looking at it before and after others have run.
func show(tag string) inbuilt.Handler {
	look := func(r *http.Request) string {
		s := tag + " " + srv.Describe(r)
		for _, p := range r.Params.Unwrap() {
			s += "|" + p.Key + ":" + p.Value
		}
		if r.Env.AliasFrom != "" {
			s += "|alias " + r.Env.AliasFrom
		}
		if r.Env.Error != nil {
			s += "|error " + r.Env.Error.Error()
		}
		return s + "|" + sorted(r.Env.AllowedMethods)
	}
	return func(r *http.Request) *http.Response {
		first := look(r)
		vswitch.Point()
		body, err := r.Body.String()
		vswitch.Point()
		if second := look(r); second != first {
			return http.String(r, "UNSTABLE: "+first+" became "+second)
		}
		return http.String(r, fmt.Sprintf("%s %q %v", first, body, err))
	}
}

// sorted makes lists of methods comparable: their order isn't specified.
func sorted(list string) string {
	ms := strings.Split(list, ",")
	for i := range ms {
		ms[i] = strings.TrimSpace(ms[i])
	}
	sort.Strings(ms)
	return strings.Join(ms, ",")
}

func canonical(out string) string {
	lines := strings.Split(out, "\r\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "Allow: ") {
			lines[i] = "Allow: " + sorted(l[7:])
		}
	}
	return strings.Join(lines, "\r\n")
}

type model struct {
	A string
	B []int
}

// kind is a kind of request: the routes it needs below a prefix, and the request of a connection with tag t.
type kind struct {
	name  string
	mount func(api *inbuilt.Router, p string)
	make  func(p, t string) string
}

func plain(api *inbuilt.Router, p string) { api.Get(p, show("plain")).Post(p, show("plain post")) }

func param(h inbuilt.Handler) func(api *inbuilt.Router, p string) {
	return func(api *inbuilt.Router, p string) { api.Get(p+"/{n}", h) }
}

func nothing(*inbuilt.Router, string) {}

// application has the routes of the kinds. Every one is mounted one level deeper, so that no two fixed
// segments are alternatives of each other: the router keeps them in an order which is random.
func application(ks []int) router.Router {
	api := inbuilt.New()
	api.Mutator(mutator.RequestsLog(log.New(io.Discard, "", 0)))
	api.Use(middleware.LogRequests(log.New(io.Discard, "", 0)))
	other := inbuilt.New()
	other.Use(middleware.CustomContext(context.Background()))
	other.Get("/user/{name}", show("other user"))
	other.RouteError(show("other error"), inbuilt.AllErrors)
	api.RouteError(show("missing"), status.NotFound)
	seen := map[int]bool{}
	for i, k := range ks {
		if !seen[k] {
			seen[k] = true
			kinds[k].mount(api, prefixes[first(ks, i)])
		}
	}
	return virtual.New().Host("api.test", api).Host("other.test", other).Default(api).Initialize()
}

// first is the index of the first connection with the kind of the i-th one.
func first(ks []int, i int) int {
	for j := range ks {
		if ks[j] == ks[i] {
			return j
		}
	}
	return i
}

var prefixes = []string{"/x", "/x/y", "/x/y/z"}

func get(path, extra string) string {
	return "GET " + path + " HTTP/1.1\r\nHost: api.test\r\n" + extra + "\r\n"
}

var kinds []kind

func init() {
	kinds = []kind{
		{"plain", plain, func(p, t string) string { return get(p+"?t="+t, "X-Tag: "+t+"\r\n") }},
		{"param", param(show("user")), func(p, t string) string { return get(p+"/"+t, "") }},
		{"params", func(api *inbuilt.Router, p string) { api.Get(p+"/{id}/of/{group}", show("user of")) },
			func(p, t string) string { return get(p+"/"+t+"/of/g"+t, "") }},
		{"trace", plain, func(p, t string) string {
			return "TRACE " + p + "?" + t + " HTTP/1.1\r\nX-Tag: " + t + "\r\n\r\n"
		}},
		{"static", func(api *inbuilt.Router, p string) { api.Static(p, root) }, func(p, t string) string { return get(p+"/"+t+".html", "") }},
		{"static missing", func(api *inbuilt.Router, p string) { api.Static(p, root) }, func(p, t string) string { return get(p+"/no"+t, "") }},
		{"alias", func(api *inbuilt.Router, p string) { plain(api, p); api.Alias(p+"/old", p) }, func(p, t string) string { return get(p+"/old?"+t, "") }},
		{"404", nothing, func(p, t string) string { return get("/no/"+t+"/", "") }},
		{"405", plain, func(p, t string) string { return "DELETE " + p + "?" + t + " HTTP/1.1\r\nH: " + t + "\r\n\r\n" }},
		{"other host", nothing, func(p, t string) string {
			return "GET /user/" + t + " HTTP/1.1\r\nHost: www.other.test\r\nConnection: keep-alive\r\n\r\n"
		}},
		{"unknown host", param(show("user")), func(p, t string) string { return "GET " + p + "/" + t + " HTTP/1.1\r\nHost: " + t + ".x\r\n\r\n" }},
		{"catcher", func(api *inbuilt.Router, p string) { api.Catch(p, show("caught")) }, func(p, t string) string { return get(p+"/any/"+t, "") }},
		{"group", func(api *inbuilt.Router, p string) {
			grp := api.Group(p)
			grp.Use(func(next inbuilt.Handler, r *http.Request) *http.Response {
				vswitch.Point()
				resp := next(r)
				vswitch.Point()
				return resp.Header("G", r.Path)
			})
			grp.Get("/{x}", show("grouped"))
		}, func(p, t string) string { return get(p+"/"+t, "") }},
		{"query", func(api *inbuilt.Router, p string) {
			api.Get(p, func(r *http.Request) *http.Response {
				v, err := r.Query.Get("k")
				vswitch.Point()
				w, err2 := r.Query.Get("w")
				vswitch.Point()
				return http.String(r, fmt.Sprintf("%q %v %q %v %q", v, err, w, err2, r.Query.Raw()))
			})
		}, func(p, t string) string { return get(p+"?k=%41"+t+"&w="+t+"%42", "") }},
		{"cookies", func(api *inbuilt.Router, p string) {
			api.Get(p, func(r *http.Request) *http.Response {
				jar, err := r.Cookies()
				vswitch.Point()
				if err != nil {
					return http.Error(r, err)
				}
				s := ""
				for _, p := range jar.Unwrap() {
					s += p.Key + "=" + p.Value + ";"
				}
				resp := http.String(r, s).Cookie(cookie.New("got", s))
				vswitch.Point()
				return resp
			})
		}, func(p, t string) string { return get(p, "Cookie: a="+t+"; b="+t+t+"\r\n") }},
		{"post", plain, func(p, t string) string {
			return "POST " + p + " HTTP/1.1\r\nContent-Length: 4\r\n\r\n" + (t + t + t + t)[:4]
		}},
		{"chunked", plain, func(p, t string) string {
			return "POST " + p + " HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n2\r\n" + (t + t)[:2] + "\r\n1\r\n" + t[:1] + "\r\n0\r\n\r\n"
		}},
		{"attachment", param(func(r *http.Request) *http.Response {
			n := r.Params.Value("n")
			return r.Respond().Header("X", n).Attachment(&reader{strings.Repeat(n+",", 20)}, -1)
		}), func(p, t string) string { return get(p+"/"+t, "") }},
		{"sized", param(func(r *http.Request) *http.Response {
			s := strings.Repeat(r.Params.Value("n")+",", 20)
			return r.Respond().Header("Server", "over").Attachment(&reader{s}, len(s))
		}), func(p, t string) string { return get(p+"/"+t, "") }},
		{"json", param(func(r *http.Request) *http.Response {
			n := r.Params.Value("n")
			resp := r.Respond().JSON(model{strings.Repeat(n, 5), []int{len(n), 2}})
			vswitch.Point()
			return resp
		}), func(p, t string) string { return get(p+"/"+t, "") }},
		{"json request", func(api *inbuilt.Router, p string) {
			api.Post(p, func(r *http.Request) *http.Response {
				var m model
				err := r.JSON(&m)
				vswitch.Point()
				return http.String(r, fmt.Sprintf("%q %v %v", m.A, m.B, err))
			})
		}, func(p, t string) string {
			return fmt.Sprintf("POST %s HTTP/1.1\r\nContent-Length: %d\r\n\r\n{\"A\":\"%s\",\"B\":[%d]}", p, 15+len(t), t, len(t))
		}},
		{"error", param(func(r *http.Request) *http.Response {
			return http.Error(r, fmt.Errorf("failed %s", r.Params.Value("n")))
		}), func(p, t string) string { return get(p+"/"+t, "") }},
		{"custom", param(func(r *http.Request) *http.Response {
			n := r.Params.Value("n")
			return r.Respond().Code(418).Status(status.Status("pot "+n)).Header("T", n).String(n)
		}), func(p, t string) string { return get(p+"/"+t, "") }},
		{"recovered", func(api *inbuilt.Router, p string) {
			api.Get(p, func(r *http.Request) *http.Response { panic(fmt.Sprintf("gone %s", r.Query.Raw())) }, middleware.Recover)
		}, func(p, t string) string { return get(p+"?"+t, "") }},
		{"encoded", param(show("user")), func(p, t string) string { return get(p+"/%41"+t+"%20", "") }},
		{"malformed", nothing, func(p, t string) string { return "GET /%" + t + "zz HTTP/1.1\r\n\r\n" }},
		{"head", param(show("user")), func(p, t string) string { return "HEAD " + p + "/" + t + " HTTP/1.1\r\n\r\n" }},
		{"upgrade", plain, func(p, t string) string {
			return "GET " + p + "?" + t + " HTTP/1.0\r\nUpgrade: HTTP/1.1\r\nConnection: upgrade\r\n\r\n"
		}},
		{"https only", func(api *inbuilt.Router, p string) { api.Get(p+"/{n}", show("secure"), middleware.HTTPSOnly()) },
			func(p, t string) string { return get(p+"/"+t, "") }},
		{"form of the host", param(show("user")), func(p, t string) string {
			return "GET " + p + "/" + t + " HTTP/1.1\r\nHost: " + strings.ToUpper("api.test") + ":80\r\n\r\n"
		}},
	}
}

func configuration() config.Config {
	cfg := srv.Config()
	cfg.Headers.Default = map[string]string{"Server": "indigo"}
	cfg.HTTP.FileBuffSize = 64
	return cfg
}

var tags = []string{"a", "bb", "c"}

func serve(r router.Router, cfg config.Config, raw string, enc encryption.Token) (out func() string, run func(), failed *error) {
	c := conn{srv.NewConn([]byte(raw))}
	failed = new(error)
	return func() string { return canonical(c.Out.String()) }, func() { *failed = srv.Serve(cfg, c, enc, r) }, failed
}

type solo struct {
	out    string
	points int
}

var solos = map[string]solo{}

// alone is what a connection gets in the application if nobody else is there.
func alone(ks []int, raw string, enc encryption.Token) solo {
	key := fmt.Sprint(ks, enc, raw)
	if s, ok := solos[key]; ok {
		return s
	}
	out, run, failed := serve(application(ks), configuration(), raw, enc)
	res := vswitch.Run([]func(){run}, nil)
	if *failed != nil {
		panic("mc: " + (*failed).Error())
	}
	s := solo{out(), res.Points[0]}
	if len(solos) > 50000 {
		solos = map[string]solo{}
	}
	solos[key] = s
	return s
}

// check runs the connections under the schedule and compares with what each gets alone.
func check(c *mc.C, names string, ks []int, raws []string, schedule []vswitch.Segment) error {
	r := application(ks)
	cfg := configuration()
	var fns []func()
	var outs []func() string
	var fails []*error
	for i, raw := range raws {
		out, run, failed := serve(r, cfg, raw, encryption.Token(i))
		fns, outs, fails = append(fns, run), append(outs, out), append(fails, failed)
	}
	res := vswitch.Run(fns, schedule)
	c.Steps(len(schedule) + len(raws))
	if res.Stuck {
		return mc.Failf("stuck: "+names, "the connections block each other for good")
	}
	for i := range raws {
		if *fails[i] != nil {
			return mc.Failf("panic: "+names, "connection %d: %v", i+1, *fails[i])
		}
		if want := alone(ks, raws[i], encryption.Token(i)).out; outs[i]() != want {
			return mc.Failf("interference: "+names, "connection %d gets\n%q\nalone it gets\n%q", i+1, outs[i](), want)
		}
	}
	return nil
}

func prepare() error {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "static")
	if err != nil {
		return err
	}
	root = dir
	for i, t := range tags {
		if err := os.WriteFile(filepath.Join(dir, t+".html"), []byte(strings.Repeat("file of "+t, i+1)), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func main() {
	log.SetOutput(io.Discard)
	mc.Main("C28", func(r *mc.R) {
		if err := prepare(); err != nil {
			panic("mc: " + err.Error())
		}
		r.Assume("preemptions happen between statements of the server (of all its packages), at the reads, in the middle of the writes and within handlers; sequential consistency")
		n := len(kinds)
		make := func(ks []int, i int) string { return kinds[ks[i]].make(prefixes[first(ks, i)], tags[i]) }
		r.SpaceProcs("two connections, one preemption", func(c *mc.C) error {
			ks := []int{c.Choose(n), c.Choose(n)}
			raws := []string{make(ks, 0), make(ks, 1)}
			names := kinds[ks[0]].name + " / " + kinds[ks[1]].name
			first := c.Choose(2)
			at := c.Choose(alone(ks, raws[first], encryption.Token(first)).points + 1)
			c.Note("%s: connection %d stops after %d points, the other one runs", names, first+1, at)
			c.State(fmt.Sprint(names, first, at))
			return check(c, names, ks, raws, []vswitch.Segment{{Thread: first, Points: at}, {Thread: 1 - first, Points: -1}})
		})
		r.SpaceProcs("two connections, one of two requests, one preemption", func(c *mc.C) error {
			ks := []int{c.Choose(n), c.Choose(n), c.Choose(n)}
			if !r.Thorough() && ks[0] != ks[1] && ks[1] != ks[2] || kinds[ks[1]].name == "malformed" {
				return mc.ErrSkip
			}
			names := kinds[ks[0]].name + " / " + kinds[ks[1]].name + " + " + kinds[ks[2]].name
			raws := []string{make(ks, 0), make(ks, 1) + make(ks, 2)}
			at := c.Choose(alone(ks, raws[1], 1).points + 1)
			c.Note("%s: connection 2 stops after %d points, the other one runs", names, at)
			c.State(fmt.Sprint(names, at))
			return check(c, names, ks, raws, []vswitch.Segment{{Thread: 1, Points: at}, {Thread: 0, Points: -1}})
		})
		// a connection follows one which ended in the middle of something
		r.SpaceProcs("successive connections", func(c *mc.C) error {
			ks := []int{c.Choose(n), c.Choose(n)}
			raws := []string{make(ks, 0), make(ks, 1)}
			end := mc.Pick(c, endings)
			if strings.Contains(raws[0], "\r\n\r\n") && end == "close" {
				if strings.Contains(raws[0], "Upgrade") {
					return mc.ErrSkip
				}
				raws[0] = strings.Replace(raws[0], "\r\n", "\r\nConnection: close\r\n", 1)
			} else {
				raws[0] += end
			}
			names := kinds[ks[0]].name + ", ended by " + fmt.Sprintf("%q", end) + " / " + kinds[ks[1]].name
			c.Note("%s: one after the other", names)
			c.State(names)
			// what the connections get alone must not depend on what they left
			_ = alone(ks, raws[0], 0)
			for i := 0; i < 3; i++ {
				_, run, _ := serve(application(ks), configuration(), "GET / HTTP/1.1\r\n\r\n", 0)
				vswitch.Run([]func(){run}, nil)
			}
			_ = alone(ks, raws[1], 1)
			return check(c, names, ks, raws, []vswitch.Segment{{Thread: 0, Points: -1}, {Thread: 1, Points: -1}})
		})
		r.SpaceProcs("two connections, two preemptions", func(c *mc.C) error {
			ks := []int{c.Choose(n), 0}
			ks[1] = ks[0]
			if r.Thorough() {
				ks[1] = c.Choose(n)
			} else if !shared[kinds[ks[0]].name] {
				return mc.ErrSkip
			}
			raws := []string{make(ks, 0), make(ks, 1)}
			names := kinds[ks[0]].name + " / " + kinds[ks[1]].name
			at := c.Choose(alone(ks, raws[0], 0).points + 1)
			stop := c.Choose(alone(ks, raws[1], 1).points + 1)
			c.Note("%s: connection 1 stops after %d points, the other one after %d", names, at, stop)
			return check(c, names, ks, raws, []vswitch.Segment{{Thread: 0, Points: at}, {Thread: 1, Points: stop}, {Thread: 0, Points: -1}})
		})
	})
}

// endings are what a connection ends with behind its request.
var endings = []string{"close", "GET /cut/%41?que", "POST /cut HTTP/1.1\r\nX-Cut: a\r\nX-Cu", "POST /cut HTTP/1.1\r\nX-Cut: a\r\nContent-Length: 9\r\nCookie: x=y\r\nContent-Type: c", "POST /cut HTTP/1.1\r\nContent-Length: 9\r\n\r\nabc",
	"PUT /cut HTTP/1.1\r\nTransfer-Encoding: gzip, chunked\r\nTrailer: T\r\n\r\n5\r\nab", "PUT /cut HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nabcde\r\n0\r", "GET /%zz HTTP/1.1\r\n\r\n", "GET /bad HTTP/1.1\r\nX-Bad: 1\r\nbad\r\n\r\n",
	"BREW /bad HTTP/1.1\r\n\r\n", "GET /bad HTTP/1.0\r\nConnection: keep-alive\r\nUpgrade: HTTP/1.1\r\nContent-Length: x\r\n\r\n"}

// shared are the kinds explored with two preemptions in the quick tier.
var shared = map[string]bool{"trace": true, "static": true}
