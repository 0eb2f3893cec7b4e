// C29: listeners, their handlers and their encryption.
package main

import (
	"crypto/tls"
	"errors"
	"fmt"
	"log"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
	"github.com/indigo-web/indigo/internal/verifmc/vsched"
	"github.com/indigo-web/indigo/router"
)

type conn struct {
	*srv.Conn
	closed chan struct{}
	once   sync.Once
}

func (c *conn) Close() error {
	c.once.Do(func() { close(c.closed) })
	return c.Conn.Close()
}

type listener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
}

func (l *listener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *listener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *listener) Addr() net.Addr { return srv.Addr("fake") }

type fabric struct{ r router.Router }

func (f fabric) Initialize() router.Router { return f.r }

var kinds = []string{"plain", "factory", "handler", "HTTPS", "AutoHTTPS local", "AutoHTTPS domain"}

func main() {
	home, err := os.MkdirTemp("", "verifc29")
	if err != nil {
		panic("mc: " + err.Error())
	}
	defer os.RemoveAll(home)
	_ = os.Setenv("HOME", home)
	_ = os.Setenv("XDG_CACHE_HOME", filepath.Join(home, "cache"))
	log.SetOutput(discard{})

	mc.Main("C29", func(r *mc.R) {
		defer os.RemoveAll(home)
		r.Assume("net.Listen and tls.Listen are replaced by fakes which hand out in-memory connections; TLS itself is not exercised")
		var mu sync.Mutex
		bound := map[string]*listener{}
		order := []string{}
		open := func(how string, addr string) (net.Listener, error) {
			mu.Lock()
			defer mu.Unlock()
			l := &listener{ch: make(chan net.Conn), done: make(chan struct{})}
			bound[how+" "+addr] = l
			order = append(order, how+" "+addr)
			return l, nil
		}
		vsched.NetListen = func(_, addr string) (net.Listener, error) { return open("net", addr) }
		vsched.TLSListen = func(_, addr string, cfg *tls.Config) (net.Listener, error) {
			if cfg == nil || len(cfg.Certificates) == 0 && cfg.GetCertificate == nil {
				return nil, errors.New("no certificate")
			}
			return open("tls", addr)
		}
		r.Workers(1)
		maxConns := mc.Bound(r, 3, 4)
		// a local AutoHTTPS makes the self-signed certificate the HTTPS kind uses, too
		indigo.New(":1").AutoHTTPS("localhost:2")
		cert := filepath.Join(home, "cache", "golang-autocert", "localhost.crt")
		key := filepath.Join(home, "cache", "golang-autocert", "localhost.key")
		if _, err := os.Stat(cert); err != nil {
			// wherever else it is
			_ = filepath.Walk(home, func(p string, _ os.FileInfo, _ error) error {
				if strings.HasSuffix(p, "localhost.crt") {
					cert, key = p, strings.TrimSuffix(p, "crt")+"key"
				}
				return nil
			})
		}
		// exercise runs an application of n more listeners and sends connections to them
		exercise := func(c *mc.C, n int, kindOf func(i int) string, conns int, listenerOf func(k, listeners int) int, reqs int) error {
			mu.Lock()
			bound, order = map[string]*listener{}, nil
			mu.Unlock()
			type want struct {
				name, key string
				enc       encryption.Token
				custom    int
			}
			custom := map[int]int{} // connections handled by custom handlers
			var seen []string
			var smu sync.Mutex
			app := indigo.New(":8000")
			if c.Bool() {
				// the limits only: encryption is none of the configuration's business
				app.Tune(config.Default())
			}
			wants := []want{{"New", "net 0.0.0.0:8000", encryption.Plain, -1}}
			for i := 1; i <= n; i++ {
				i := i
				kind := kindOf(i)
				addr := fmt.Sprintf("h%d:80", i)
				switch kind {
				case "plain":
					app.Listen(addr)
					wants = append(wants, want{kind, "net " + addr, encryption.Plain, -1})
				case "factory":
					app.Listen(addr, indigo.Listener{Listen: func(_, a string) (net.Listener, error) { return open("custom", a) }})
					wants = append(wants, want{kind, "custom " + addr, encryption.Plain, -1})
				case "handler":
					token := encryption.Extend + encryption.Token(i)
					app.Listen(addr, indigo.Listener{Handler: func(nc net.Conn, rt router.Router) {
						smu.Lock()
						custom[i]++
						smu.Unlock()
						serve.HTTP1(config.Default(), nc, token, rt)
					}})
					wants = append(wants, want{kind, "net " + addr, token, i})
				case "HTTPS":
					app.HTTPS(addr, cert, key)
					wants = append(wants, want{kind, "tls " + addr, encryption.TLS, -1})
				case "AutoHTTPS local":
					addr = fmt.Sprintf("localhost:%d", i)
					app.AutoHTTPS(addr)
					wants = append(wants, want{kind, "tls " + addr, encryption.TLS, -1})
				case "AutoHTTPS domain":
					app.AutoHTTPS(addr, "h")
					wants = append(wants, want{kind, "tls " + addr, encryption.TLS, -1})
				}
				c.Note("listener %d is %s", i, kind)
			}
			record := func(what string, req *http.Request) *http.Response {
				smu.Lock()
				seen = append(seen, fmt.Sprintf("%s %s %d", what, req.Path, req.Env.Encryption))
				smu.Unlock()
				return req.Respond().String("ok")
			}
			rt := srv.Funcs{
				Request: func(req *http.Request) *http.Response { return record("request", req) },
				Error: func(req *http.Request, err error) *http.Response {
					if err == status.ErrCloseConnection {
						return req.Respond()
					}
					return record("error", req)
				},
			}
			var starts sync.WaitGroup
			starts.Add(1)
			app.OnStart(starts.Done)
			result := make(chan error, 1)
			go func() { result <- app.Serve(fabric{rt}) }()
			started := make(chan struct{})
			go func() { starts.Wait(); close(started) }()
			select {
			case <-started:
			case err := <-result:
				return mc.Failf("not serving", "Serve returned %v", err)
			}
			defer func() {
				app.Stop()
				<-result
			}()
			mu.Lock()
			got := strings.Join(order, ", ")
			mu.Unlock()
			var exp []string
			for _, w := range wants {
				exp = append(exp, w.key)
			}
			if got != strings.Join(exp, ", ") {
				return mc.Failf("bound addresses", "bound %s, want %s", got, strings.Join(exp, ", "))
			}
			for k := 0; k < conns; k++ {
				i := listenerOf(k, len(wants))
				w := wants[i]
				smu.Lock()
				seen = nil
				for j := range custom {
					custom[j] = 0
				}
				smu.Unlock()
				var raw string
				var expect []string
				for q := 0; q < reqs; q++ {
					raw += fmt.Sprintf("GET /%d-%d HTTP/1.1\r\nHost: a\r\n\r\n", k, q)
					expect = append(expect, fmt.Sprintf("request /%d-%d %d", k, q, w.enc))
				}
				cn := &conn{Conn: srv.NewConn([]byte(raw)), closed: make(chan struct{})}
				c.Note("connection %d comes to listener %d (%s)", k, i, w.name)
				c.Steps(reqs)
				select {
				case bound[w.key].ch <- cn:
				case <-time.After(30 * time.Second):
					return mc.Failf("not accepted", "listener %d (%s) does not accept", i, w.name)
				}
				select {
				case <-cn.closed:
				case <-time.After(30 * time.Second):
					return mc.Failf("not served", "listener %d (%s) does not serve", i, w.name)
				}
				smu.Lock()
				gotSeen := strings.Join(seen, ", ")
				ran := 0
				for _, v := range custom {
					ran += v
				}
				mine := custom[w.custom]
				smu.Unlock()
				if gotSeen != strings.Join(expect, ", ") {
					return mc.Failf("wrong encryption of "+w.name, "connection to listener %d of %v: the application saw (path, token) %s, want %s", i, exp, gotSeen, strings.Join(expect, ", "))
				}
				if w.custom >= 0 && (mine != 1 || ran != 1) || w.custom < 0 && ran != 0 {
					return mc.Failf("wrong handler of "+w.name, "connection to listener %d of %v: custom handlers run: %v", i, exp, custom)
				}
				c.State(fmt.Sprint(exp, i, k, gotSeen))
			}
			return nil
		}
		r.Space("listeners, connections and requests", func(c *mc.C) error {
			return exercise(c, c.Choose(mc.Bound(r, 3, 4)), func(int) string { return mc.Pick(c, kinds) },
				1+c.Choose(maxConns), func(_, n int) int { return c.Choose(n) }, 3)
		})
		// many listeners, each one is connected to
		r.Space("many listeners", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 40, 300)))
			first, step := c.Choose(len(kinds)), c.Choose(3)
			backwards := c.Bool()
			return exercise(c, n, func(i int) string { return kinds[(first+i*step)%len(kinds)] }, n+1, func(k, _ int) int {
				if backwards {
					return n - k
				}
				return k
			}, 2)
		})
		// many connections, and many requests on each
		r.Space("many connections", func(c *mc.C) error {
			a, b := mc.Pick(c, kinds), mc.Pick(c, kinds)
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 40, 300)))
			order := c.Choose(3)
			return exercise(c, 2, func(i int) string { return []string{a, b}[i-1] }, n, func(k, l int) int { return (k*order + order) % l }, 1)
		})
		r.Space("many requests", func(c *mc.C) error {
			kind := mc.Pick(c, kinds)
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 300, 3000)))
			at := c.Choose(2)
			return exercise(c, 1, func(int) string { return kind }, 1, func(int, int) int { return at }, n)
		})
	})
}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }
