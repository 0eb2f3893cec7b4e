// C30: a partially filled configuration is completed with the defaults.
package main

import (
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
	"github.com/indigo-web/indigo/internal/verifmc/vsched"
	"github.com/indigo-web/indigo/router"
)

// documented are the defaults as documented in config.Default; an option which isn't listed here
// (a new one) must have whatever config.Default says.
var documented = map[string]int64{
	"URL.BufferSize.Default":     2048,
	"URL.BufferSize.Maximal":     65535,
	"URL.Query.PreAlloc":         10,
	"Headers.Number.Default":     10,
	"Headers.Number.Maximal":     50,
	"Headers.MaxKeyLength":       100,
	"Headers.MaxValueLength":     8192,
	"Headers.KeySpace.Default":   1024,
	"Headers.KeySpace.Maximal":   4096,
	"Headers.ValueSpace.Default": 1024,
	"Headers.ValueSpace.Maximal": 8192,
	"Headers.MaxEncodingTokens":  15,
	"Headers.CookiesPreAllocate": 5,
	"Body.MaxSize":               512 << 20,
	"Body.MaxChunkSize":          128 << 10,
	"Body.DecodingBufferSize":    8192,
	"HTTP.ResponseBuffSize":      1024,
	"HTTP.FileBuffSize":          65536,
	"TCP.ReadBufferSize":         4096,
	"TCP.ReadTimeout":            int64(90 * time.Second),
}

const defaultHeader = "Accept-Encodings=identity"

type leaf struct {
	name  string
	index []int
	kind  reflect.Kind
	def   any // as an interface value of the very type
}

func leafs() (ls []leaf) {
	var walk func(t reflect.Type, index []int, name string)
	def := reflect.ValueOf(config.Default())
	walk = func(t reflect.Type, index []int, name string) {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			idx := append(append([]int{}, index...), i)
			n := strings.TrimPrefix(name+"."+f.Name, ".")
			if f.Type.Kind() == reflect.Struct {
				walk(f.Type, idx, n)
				continue
			}
			ls = append(ls, leaf{n, idx, f.Type.Kind(), def.FieldByIndex(idx).Interface()})
		}
	}
	walk(reflect.TypeOf(config.Config{}), nil, "")
	return ls
}

// values are the values to be tried for the option: the last two are the distinctive ones.
func (l leaf) values() (vs []any) {
	t := reflect.TypeOf(l.def)
	switch {
	case t.Kind() == reflect.Map:
		return []any{map[string]string{}, map[string]string{"Server": ""}, map[string]string{"Accept-Encodings": "gzip"}, map[string]string{"X": "y", "Accept-Encodings": "identity"}}
	case reflect.ValueOf(l.def).CanInt():
		d := reflect.ValueOf(l.def).Int()
		for _, v := range []int64{1, 2, d - 1, d, d + 1, math.MaxInt64, math.MinInt64, -1, 7 + d/2, 11 + 2*d} {
			if v != 0 {
				vs = append(vs, reflect.ValueOf(v).Convert(t).Interface())
			}
		}
	case reflect.ValueOf(l.def).CanUint():
		d := reflect.ValueOf(l.def).Uint()
		for _, v := range []uint64{1, 2, d - 1, d, d + 1, math.MaxUint64, 7 + d/2, 11 + 2*d} {
			if v != 0 {
				vs = append(vs, reflect.ValueOf(v).Convert(t).Interface())
			}
		}
	case t.Kind() == reflect.Bool:
		vs = []any{true, true}
	case t.Kind() == reflect.String:
		vs = []any{"a", "b"}
	case t.Kind() == reflect.Float64 || t.Kind() == reflect.Float32:
		vs = []any{reflect.ValueOf(1.5).Convert(t).Interface(), reflect.ValueOf(2.5).Convert(t).Interface()}
	}
	return vs
}

func set(cfg *config.Config, l leaf, v any) {
	reflect.ValueOf(cfg).Elem().FieldByIndex(l.index).Set(reflect.ValueOf(v))
}

func get(cfg *config.Config, l leaf) any {
	return reflect.ValueOf(cfg).Elem().FieldByIndex(l.index).Interface()
}

func same(a, b any) bool {
	if m, ok := a.(map[string]string); ok {
		return reflect.DeepEqual(m, b)
	}
	return reflect.DeepEqual(a, b)
}

func main() {
	mc.Main("C30", func(r *mc.R) {
		r.Assume("the zero value of an option stands for an unset one; a nil map is unset, an empty one is set")
		ls := leafs()
		check := func(c *mc.C, src config.Config, given map[int]any) error {
			before := src
			got := config.Fill(src)
			c.Step()
			for i, l := range ls {
				want := l.def
				if v, ok := given[i]; ok {
					want = v
				}
				if g := get(&got, l); !same(g, want) {
					var names []string
					for j := range ls {
						if v, ok := given[j]; ok {
							names = append(names, fmt.Sprintf("%s=%v", ls[j].name, v))
						}
					}
					return mc.Failf("option "+l.name, "with {%s} given, %s is %v, want %v", strings.Join(names, " "), l.name, g, want)
				}
				if !same(get(&before, l), get(&src, l)) {
					return mc.Failf("modified "+l.name, "the given configuration is modified: %s is %v, was %v", l.name, get(&src, l), get(&before, l))
				}
			}
			if again := config.Fill(got); !reflect.DeepEqual(again, got) {
				return mc.Failf("refilling", "filling a filled configuration changes it: %+v became %+v", got, again)
			}
			return nil
		}
		r.Space("documented defaults", func(c *mc.C) error {
			i := c.Choose(len(ls))
			l := ls[i]
			c.Note("%s", l.name)
			c.State(l.name)
			c.Step()
			for _, cfg := range []config.Config{config.Default(), config.Fill(config.Config{})} {
				cfg := cfg
				g := get(&cfg, l)
				if l.name == "Headers.Default" {
					var s string
					for k, v := range g.(map[string]string) {
						s += k + "=" + v
					}
					if s != defaultHeader {
						return mc.Failf("default "+l.name, "is %s, documented as %s", s, defaultHeader)
					}
					continue
				}
				want, ok := documented[l.name]
				if !ok {
					continue
				}
				if fmt.Sprintf("%d", g) != fmt.Sprint(want) {
					return mc.Failf("default "+l.name, "is %d, documented as %d", g, want)
				}
			}
			return nil
		})
		r.Space("single options", func(c *mc.C) error {
			i := c.Choose(len(ls))
			vs := ls[i].values()
			if len(vs) == 0 {
				return mc.ErrSkip
			}
			v := mc.Pick(c, vs)
			c.Note("%s=%v", ls[i].name, v)
			c.State(fmt.Sprint(ls[i].name, v))
			var cfg config.Config
			set(&cfg, ls[i], v)
			return check(c, cfg, map[int]any{i: v})
		})
		r.Space("pairs of options", func(c *mc.C) error {
			i := c.Choose(len(ls))
			j := c.Choose(len(ls))
			if i >= j || len(ls[i].values()) == 0 || len(ls[j].values()) == 0 {
				return mc.ErrSkip
			}
			v, w := mc.Pick(c, ls[i].values()), mc.Pick(c, ls[j].values())
			c.State(fmt.Sprint(ls[i].name, v, ls[j].name, w))
			var cfg config.Config
			set(&cfg, ls[i], v)
			set(&cfg, ls[j], w)
			return check(c, cfg, map[int]any{i: v, j: w})
		})
		// every subset of the options (distinctive values)
		low := len(ls) / 2
		if low > 11 {
			low = 11
		}
		distinct := make([]any, len(ls))
		for i, l := range ls {
			if vs := l.values(); len(vs) > 0 {
				distinct[i] = vs[len(vs)-1]
			}
		}
		r.Space("all subsets of options", func(c *mc.C) error {
			mask := 0
			for i := low; i < len(ls); i++ {
				if distinct[i] != nil && c.Bool() {
					mask |= 1 << i
				}
			}
			for m := 0; m < 1<<low; m++ {
				full := mask | m
				var cfg config.Config
				for i := range ls {
					if full>>i&1 == 1 && distinct[i] != nil {
						set(&cfg, ls[i], distinct[i])
					}
				}
				got := config.Fill(cfg)
				for i, l := range ls {
					want := l.def
					if full>>i&1 == 1 && distinct[i] != nil {
						want = distinct[i]
					}
					g := get(&got, l)
					if gm, ok := g.(map[string]string); ok {
						if len(gm) != len(want.(map[string]string)) {
							return mc.Failf("option "+l.name, "with the subset %b, %s is %v, want %v", full, l.name, g, want)
						}
					} else if g != want {
						return mc.Failf("option "+l.name, "with the subset %b, %s is %v, want %v", full, l.name, g, want)
					}
				}
			}
			c.Steps(1 << low)
			c.State(fmt.Sprint("subset", mask))
			return nil
		})
		r.Space("effects", effects)
		r.Space("file buffers", fileBuffers)
		apps(r)
	})
}

type reader struct {
	left  int
	sizes []int
}

func (r *reader) Read(b []byte) (int, error) {
	r.sizes = append(r.sizes, len(b))
	n := len(b)
	if n > r.left {
		n = r.left
	}
	r.left -= n
	for i := range b[:n] {
		b[i] = 'f'
	}
	if r.left == 0 {
		return n, io.EOF
	}
	return n, nil
}

// fileBuffers checks the size of reads from attachments of an unknown and a known size.
func fileBuffers(c *mc.C) error {
	var src config.Config
	size := 64 << 10
	if v := mc.Pick(c, []int{0, 64, 100, 1000, 5000, 100000}); v != 0 {
		size = v
		src.HTTP.FileBuffSize = v
	}
	if c.Bool() {
		src.HTTP.ResponseBuffSize = mc.Pick(c, []int{1, 50, 3000, 200000})
	}
	known := c.Bool()
	rd := &reader{left: 300000}
	key := fmt.Sprintf("file buffer %d, response buffer %d, known size %v", src.HTTP.FileBuffSize, src.HTTP.ResponseBuffSize, known)
	c.Note("%s", key)
	rt := srv.Funcs{
		Request: func(req *http.Request) *http.Response {
			if known {
				return req.Respond().Attachment(rd, 300000)
			}
			return req.Respond().Attachment(rd, -1)
		},
		Error: func(req *http.Request, err error) *http.Response { return http.Error(req, err) },
	}
	conn := newConn("GET / HTTP/1.1\r\n\r\n")
	if err := srv.Serve(config.Fill(src), conn, 0, rt); err != nil {
		return mc.Failf("panic:"+key, "%v", err)
	}
	c.Steps(len(rd.sizes))
	c.State(key)
	resp, _, err := srv.ParseOne(conn.Out.Bytes(), false)
	if err != nil || len(resp.Body) != 300000 {
		return mc.Failf("file "+key, "%v: %q", err, clip(conn.Out.String()))
	}
	max := 0
	for _, s := range rd.sizes {
		if s > max {
			max = s
		}
	}
	if max > size || max <= size/2 {
		return mc.Failf(key, "reads of up to %d bytes, want up to %d", max, size)
	}
	return nil
}

type dconn struct {
	*srv.Conn
	bufs    map[int]bool
	timeout []time.Duration
	closed  chan struct{}
	once    sync.Once
}

func (d *dconn) Read(b []byte) (int, error) {
	d.bufs[len(b)] = true
	return d.Conn.Read(b)
}

func (d *dconn) Close() error {
	d.once.Do(func() { close(d.closed) })
	return d.Conn.Close()
}

func (d *dconn) SetReadDeadline(t time.Time) error {
	d.timeout = append(d.timeout, time.Until(t))
	return nil
}

func newConn(s string) *dconn {
	return &dconn{Conn: srv.NewConn([]byte(s)), bufs: map[int]bool{}, closed: make(chan struct{})}
}

// probe is an option with an observable effect: by default, the limit is def. A request using limit
// of it is made by req.
type probe struct {
	name  string
	def   int
	small int
	big   int
	set   func(cfg *config.Config, v int)
	req   func(n int) string
	scale int // probing is done scale below and above the limit
}

func head(hs string) string { return "GET / HTTP/1.1\r\n" + hs + "\r\n" }

func lines(n, total int, key bool) (s string) {
	for i := 0; i < n; i++ {
		l := total / n
		if i < total%n {
			l++
		}
		pad := strings.Repeat("k", l)
		if key {
			s += pad + ": v\r\n"
		} else {
			s += "k: " + pad + "\r\n"
		}
	}
	return s
}

var probes = []probe{
	{"URL.BufferSize.Maximal", 65535, 3000, 200000, func(c *config.Config, v int) { c.URL.BufferSize.Maximal = v },
		func(n int) string { return "GET /" + strings.Repeat("p", n) + " HTTP/1.1\r\n\r\n" }, 100},
	{"Headers.Number.Maximal", 50, 12, 77, func(c *config.Config, v int) { c.Headers.Number.Maximal = v },
		func(n int) string { return head(strings.Repeat("a: b\r\n", n)) }, 1},
	{"Headers.MaxKeyLength", 100, 20, 300, func(c *config.Config, v int) { c.Headers.MaxKeyLength = v },
		func(n int) string { return head(lines(1, n, true)) }, 1},
	{"Headers.MaxValueLength", 8192, 500, 20000, func(c *config.Config, v int) { c.Headers.MaxValueLength = v },
		func(n int) string { return head(lines(1, n, false)) }, 50},
	{"Headers.KeySpace.Maximal", 4096, 2000, 9000, func(c *config.Config, v int) { c.Headers.KeySpace.Maximal = v },
		func(n int) string { return head(lines(45, n, true)) }, 10},
	{"Headers.ValueSpace.Maximal", 8192, 3000, 20000, func(c *config.Config, v int) { c.Headers.ValueSpace.Maximal = v },
		func(n int) string { return head(lines(5, n, false)) }, 50},
	{"Headers.MaxEncodingTokens", 15, 3, 40, func(c *config.Config, v int) { c.Headers.MaxEncodingTokens = v },
		func(n int) string {
			return head("Content-Encoding: " + strings.TrimSuffix(strings.Repeat("x, ", n), ", ") + "\r\n")
		}, 1},
	{"Body.MaxSize", 512 << 20, 100, 600 << 20, func(c *config.Config, v int) { c.Body.MaxSize = uint(v) },
		func(n int) string { return fmt.Sprintf("POST / HTTP/1.1\r\nContent-Length: %d\r\n\r\nhello", n) }, 1},
	{"Body.MaxChunkSize", 128 << 10, 100, 600 << 10, func(c *config.Config, v int) { c.Body.MaxChunkSize = int64(v) },
		func(n int) string {
			return fmt.Sprintf("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s\r\n0\r\n\r\n", n, strings.Repeat("b", n))
		}, 10},
}

// effects checks that options, given or not, given along with others or not, take effect on the server.
func effects(c *mc.C) error {
	p := mc.Pick(c, probes)
	var src config.Config
	limit := p.def
	given := c.Bool()
	if given {
		p.set(&src, p.small)
		limit = p.small
	}
	q := c.Choose(len(probes) + 6)
	other := ""
	wantBuf, wantTimeout, wantHeader := 4096, 90*time.Second, map[string]string{"Accept-Encodings": "identity"}
	switch {
	case q < len(probes):
		if probes[q].name == p.name {
			return mc.ErrSkip
		}
		other = probes[q].name
		probes[q].set(&src, probes[q].big)
	case q == len(probes):
		other, wantBuf = "TCP.ReadBufferSize", 33
		src.TCP.ReadBufferSize = wantBuf
	case q == len(probes)+1:
		other, wantTimeout = "TCP.ReadTimeout", time.Hour
		src.TCP.ReadTimeout = wantTimeout
	case q == len(probes)+2:
		other, wantHeader = "Headers.Default", map[string]string{"Server": "me"}
		src.Headers.Default = wantHeader
	case q == len(probes)+3:
		other, wantHeader = "no Headers.Default", map[string]string{}
		src.Headers.Default = wantHeader
	case q == len(probes)+4:
		other = "pre-allocations"
		src.URL.BufferSize.Default, src.URL.Query.PreAlloc, src.Headers.Number.Default, src.Headers.KeySpace.Default = 1, 1, 1, 1
		src.Headers.ValueSpace.Default, src.Headers.CookiesPreAllocate = 1, 1
		src.Body.DecodingBufferSize, src.HTTP.ResponseBuffSize, src.HTTP.FileBuffSize = 1, 1, 1
	case q == len(probes)+5:
		other = "nothing"
	}
	above := c.Bool()
	n := limit - p.scale
	if above {
		n = limit + p.scale
	}
	// the default of the limit on values is the one of the space for them
	if !given && (p.name == "Headers.MaxValueLength" && other == "Headers.ValueSpace.Maximal" || p.name == "Headers.ValueSpace.Maximal" && other == "Headers.MaxValueLength") {
		c.Note("both bound the values")
	}
	key := fmt.Sprintf("%s given=%v with %s above=%v", p.name, given, other, above)
	c.Note("%s", key)
	c.State(key)
	conn := newConn(p.req(n))
	served, tooLarge := 0, false
	rt := srv.Funcs{
		Request: func(req *http.Request) *http.Response {
			served++
			if strings.HasPrefix(p.name, "Body") {
				got := 0
				err := req.Body.Callback(func(b []byte) error {
					got += len(b)
					return nil
				})
				if errors.Is(err, status.ErrBodyTooLarge) || p.name == "Body.MaxChunkSize" && err != nil {
					tooLarge = true
				}
			}
			return http.String(req, "ok")
		},
		Error: func(req *http.Request, err error) *http.Response { return http.Error(req, err) },
	}
	if err := srv.Serve(config.Fill(src), conn, 0, rt); err != nil {
		return mc.Failf("panic:"+key, "%v", err)
	}
	c.Step()
	ok := served == 1 && !tooLarge
	if ok == above {
		return mc.Failf("effect of "+key, "limit %d, a use of %d: served %v, refused body %v, output %q", limit, n, served, tooLarge, clip(conn.Out.String()))
	}
	if len(conn.bufs) != 1 || !conn.bufs[wantBuf] {
		return mc.Failf("read buffer "+key, "reads of up to %v bytes, want %d", conn.bufs, wantBuf)
	}
	for _, t := range conn.timeout {
		if t > wantTimeout || t < wantTimeout-30*time.Second {
			return mc.Failf("read timeout "+key, "%v, want %v", t, wantTimeout)
		}
	}
	if len(conn.timeout) == 0 {
		return mc.Failf("read timeout "+key, "no deadline is set")
	}
	if served == 0 {
		return nil
	}
	resp, _, err := srv.ParseOne(conn.Out.Bytes(), false)
	if err != nil {
		return mc.Failf("response "+key, "%v", err)
	}
	for _, k := range []string{"Accept-Encodings", "Server"} {
		v := resp.Values(k)
		w, has := wantHeader[k]
		if has != (len(v) == 1) || has && v[0] != w {
			return mc.Failf("default headers "+key, "%s is %q, want %q", k, v, w)
		}
	}
	return nil
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200]
	}
	return s
}

type listener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *listener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *listener) Addr() net.Addr { return srv.Addr("fake") }

type fabric struct{ r router.Router }

func (f fabric) Initialize() router.Router { return f.r }

// apps checks that a tuned application uses the options on all its listeners, regardless of whether they were
// added before or after tuning.
func apps(r *mc.R) {
	home, err := os.MkdirTemp(os.Getenv("VERIF_WORK"), "home")
	if err != nil {
		panic("mc: " + err.Error())
	}
	_ = os.Setenv("HOME", home)
	_ = os.Setenv("XDG_CACHE_HOME", filepath.Join(home, "cache"))
	log.SetOutput(discard{})
	var mu sync.Mutex
	bound := map[string]*listener{}
	open := func(addr string) (net.Listener, error) {
		mu.Lock()
		defer mu.Unlock()
		l := &listener{ch: make(chan net.Conn), done: make(chan struct{})}
		bound[addr] = l
		return l, nil
	}
	vsched.NetListen = func(_, addr string) (net.Listener, error) { return open(addr) }
	vsched.TLSListen = func(_, addr string, _ *tls.Config) (net.Listener, error) { return open(addr) }
	r.Workers(1)
	kinds := []string{"New", "Listen", "AutoHTTPS local", "AutoHTTPS domain", "factory"}
	r.Space("tuned applications", func(c *mc.C) error {
		mu.Lock()
		bound = map[string]*listener{}
		mu.Unlock()
		app := indigo.New(":8000")
		kind := mc.Pick(c, kinds)
		addr := "0.0.0.0:8000"
		add := func() {
			switch kind {
			case "Listen":
				addr = "h:80"
				app.Listen(addr)
			case "AutoHTTPS local":
				addr = "localhost:443"
				app.AutoHTTPS(addr)
			case "AutoHTTPS domain":
				addr = "h:443"
				app.AutoHTTPS(addr, "h")
			case "factory":
				addr = "f:80"
				app.Listen(addr, indigo.Listener{Listen: func(_, a string) (net.Listener, error) { return open(a) }})
			}
		}
		before := c.Bool()
		if before {
			add()
		}
		tunes := c.Choose(3)
		wantBuf, wantTimeout, wantHeader := 4096, 90*time.Second, "Accept-Encodings=identity"
		for i := 0; i < tunes; i++ {
			// every Tune replaces the whole configuration
			wantBuf, wantTimeout, wantHeader = 4096, 90*time.Second, "Accept-Encodings=identity"
			var cfg config.Config
			if c.Bool() {
				wantBuf = 64 + i
				cfg.TCP.ReadBufferSize = wantBuf
			}
			if c.Bool() {
				wantTimeout = time.Hour * time.Duration(1+i)
				cfg.TCP.ReadTimeout = wantTimeout
			}
			if c.Bool() {
				wantHeader = fmt.Sprintf("X-Tuned=%d", i)
				cfg.Headers.Default = map[string]string{"X-Tuned": fmt.Sprint(i)}
			}
			app.Tune(cfg)
		}
		if !before {
			add()
		}
		key := fmt.Sprintf("%s, tuned %d times, added before: %v", kind, tunes, before)
		c.Note("%s", key)
		rt := srv.Funcs{
			Request: func(req *http.Request) *http.Response { return http.String(req, "ok") },
			Error:   func(req *http.Request, err error) *http.Response { return http.Error(req, err) },
		}
		started := make(chan struct{})
		app.OnStart(func() { close(started) })
		result := make(chan error, 1)
		go func() { result <- app.Serve(fabric{rt}) }()
		select {
		case <-started:
		case err := <-result:
			return mc.Failf("not serving", "Serve returned %v", err)
		}
		defer func() {
			app.Stop()
			<-result
		}()
		mu.Lock()
		l := bound[addr]
		mu.Unlock()
		if l == nil {
			return mc.Failf("not bound "+kind, "%s isn't bound", addr)
		}
		conn := newConn("GET / HTTP/1.1\r\nHost: a\r\n\r\n")
		select {
		case l.ch <- conn:
		case <-time.After(30 * time.Second):
			return mc.Failf("not accepted "+kind, "%s doesn't accept", addr)
		}
		select {
		case <-conn.closed:
		case <-time.After(30 * time.Second):
			return mc.Failf("not served "+kind, "%s doesn't serve", addr)
		}
		c.Steps(3)
		c.State(fmt.Sprint(key, wantBuf, wantTimeout, wantHeader))
		if len(conn.bufs) != 1 || !conn.bufs[wantBuf] {
			return mc.Failf("tuned read buffer "+key, "reads of up to %v bytes, want %d", conn.bufs, wantBuf)
		}
		for _, t := range conn.timeout {
			if t > wantTimeout || t < wantTimeout-30*time.Second {
				return mc.Failf("tuned read timeout "+key, "%v, want %v", t, wantTimeout)
			}
		}
		resp, _, err := srv.ParseOne(conn.Out.Bytes(), false)
		if err != nil {
			return mc.Failf("response "+key, "%v", err)
		}
		k, v, _ := strings.Cut(wantHeader, "=")
		if got := resp.Values(k); len(got) != 1 || got[0] != v {
			return mc.Failf("tuned default headers "+key, "%s is %q, want %q", k, got, v)
		}
		return nil
	})
}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }
