// C36: HTTPS listeners have a sound certificate, whatever was left by earlier runs.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/rsa"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"math/big"
	"net"
	nethttp "net/http"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
	"github.com/indigo-web/indigo/internal/verifmc/vsched"
	"github.com/indigo-web/indigo/router"
)

var (
	home  string // everything happens in here
	keys  []*rsa.PrivateKey
	nextK int
)

type listener struct {
	done chan struct{}
	once sync.Once
}

func (l *listener) Accept() (net.Conn, error) { <-l.done; return nil, net.ErrClosed }
func (l *listener) Close() error              { l.once.Do(func() { close(l.done) }); return nil }
func (l *listener) Addr() net.Addr            { return srv.Addr("fake") }

type fabric struct{}

func (fabric) Initialize() router.Router {
	return srv.Funcs{
		Request: func(r *http.Request) *http.Response { return r.Respond() },
		Error:   func(r *http.Request, _ error) *http.Response { return r.Respond() },
	}
}

// outcome is what an application made of its listeners.
type outcome struct {
	tls   map[string]*tls.Config
	plain map[string]bool
	err   error // why it did not start
}

var (
	mu  sync.Mutex
	now *outcome
)

// start runs an application until it has started, and stops it. Files it writes can not grow
// beyond the limit, unless it's negative.
func start(limit int64, setup func(app *indigo.App)) (o *outcome) {
	o = &outcome{tls: map[string]*tls.Config{}, plain: map[string]bool{}}
	mu.Lock()
	now = o
	mu.Unlock()
	if limit >= 0 {
		var old syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic("mc: " + err.Error())
		}
		lim := syscall.Rlimit{Cur: uint64(limit), Max: old.Max}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			panic("mc: " + err.Error())
		}
		defer func() {
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
				panic("mc: " + err.Error())
			}
		}()
	}
	app := indigo.New(":8000")
	setup(app)
	started := make(chan struct{})
	app.OnStart(func() { close(started) })
	result := make(chan error, 1)
	go func() { result <- app.Serve(fabric{}) }()
	select {
	case <-started:
		app.Stop()
		<-result
	case o.err = <-result:
		if o.err == nil {
			o.err = fmt.Errorf("Serve returned without an error")
		}
	}
	return o
}

// files are the contents of the files below the scratch directory.
func files() map[string]string {
	got := map[string]string{}
	_ = filepath.WalkDir(home, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			raw, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(home, p)
			got[rel] = string(raw)
		}
		return nil
	})
	return got
}

func wipe() {
	entries, _ := os.ReadDir(home)
	for _, e := range entries {
		_ = os.RemoveAll(filepath.Join(home, e.Name()))
	}
}

func put(name, content string) {
	p := filepath.Join(home, name)
	_ = os.MkdirAll(filepath.Dir(p), 0o700)
	if err := os.WriteFile(p, []byte(content), 0o600); err != nil {
		panic("mc: " + err.Error())
	}
}

// same tells whether all the files are the same.
func same(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// leaf shakes hands over the configuration and returns the certificate presented.
func leaf(cfg *tls.Config, serverName string) (*x509.Certificate, error) {
	a, b := net.Pipe()
	deadline := time.Now().Add(30 * time.Second)
	_, _ = a.SetDeadline(deadline), b.SetDeadline(deadline)
	failed := make(chan error, 1)
	server := tls.Server(a, cfg)
	go func() {
		err := server.Handshake()
		if err == nil {
			_, err = server.Write([]byte("hi"))
		}
		failed <- err
		_ = a.Close()
	}()
	client := tls.Client(b, &tls.Config{InsecureSkipVerify: true, ServerName: serverName})
	defer b.Close()
	if err := client.Handshake(); err != nil {
		_ = b.Close()
		return nil, fmt.Errorf("handshake: %v (server: %v)", err, <-failed)
	}
	got := make([]byte, 2)
	if _, err := io.ReadFull(client, got); err != nil || string(got) != "hi" {
		return nil, fmt.Errorf("the connection does not work: %q, %v", got, err)
	}
	return client.ConnectionState().PeerCertificates[0], nil
}

// sound tells whether an application serves an address over TLS by a valid certificate.
func sound(o *outcome, addr string) (*x509.Certificate, error) {
	if o.err != nil {
		return nil, fmt.Errorf("the application does not start: %v", o.err)
	}
	if !o.plain["0.0.0.0:8000"] {
		return nil, fmt.Errorf("the other listener is not served")
	}
	if o.plain[addr] {
		return nil, fmt.Errorf("%s is served without encryption", addr)
	}
	cfg := o.tls[addr]
	if cfg == nil {
		return nil, fmt.Errorf("%s is not served", addr)
	}
	crt, err := leaf(cfg, "localhost")
	if err != nil {
		return nil, err
	}
	if t := time.Now(); t.Before(crt.NotBefore) || t.After(crt.NotAfter) {
		return nil, fmt.Errorf("the certificate is valid from %v to %v", crt.NotBefore, crt.NotAfter)
	}
	pool := x509.NewCertPool()
	pool.AddCert(crt)
	if _, err = crt.Verify(x509.VerifyOptions{Roots: pool, KeyUsages: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}); err != nil {
		return nil, fmt.Errorf("who trusts the certificate can not use it: %v", err)
	}
	return crt, nil
}

// tripper counts the requests to the outside, none of which gets there.
type tripper struct{}

var asked atomic.Int64

func (tripper) RoundTrip(*nethttp.Request) (*nethttp.Response, error) {
	asked.Add(1)
	return nil, errors.New("no network")
}

func local(addrs ...string) func(app *indigo.App) {
	return func(app *indigo.App) {
		for _, a := range addrs {
			app.AutoHTTPS(a)
		}
	}
}

// generation makes the files of one successful run.
func generation(k int) map[string]string {
	wipe()
	nextK = k
	_ = start(-1, local("localhost:1"))
	return files()
}

// pair finds the certificate among the files, if its key is there as well.
func pair(fs map[string]string) *x509.Certificate {
	for _, a := range fs {
		for _, b := range fs {
			if p, err := tls.X509KeyPair([]byte(a), []byte(b)); err == nil {
				crt, err := x509.ParseCertificate(p.Certificate[0])
				if err == nil {
					return crt
				}
			}
		}
	}
	return nil
}

func names(fs map[string]string) (ns []string) {
	for n := range fs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func main() {
	work := os.Getenv("VERIF_WORK")
	var err error
	if home, err = os.MkdirTemp(work, "verifc36"); err != nil {
		panic("mc: " + err.Error())
	}
	defer os.RemoveAll(home)
	signal.Ignore(syscall.SIGXFSZ)
	log.SetOutput(io.Discard)
	for _, k := range keysPEM {
		b, _ := pem.Decode([]byte(k))
		key, err := x509.ParsePKCS8PrivateKey(b.Bytes)
		if err != nil {
			panic("mc: " + err.Error())
		}
		keys = append(keys, key.(*rsa.PrivateKey))
	}
	vsched.RSAKey = func(io.Reader, int) (*rsa.PrivateKey, error) {
		nextK++
		return keys[(nextK-1)%len(keys)], nil
	}
	vsched.NetListen = func(_, addr string) (net.Listener, error) {
		mu.Lock()
		defer mu.Unlock()
		now.plain[addr] = true
		return &listener{done: make(chan struct{})}, nil
	}
	vsched.TLSListen = func(_, addr string, cfg *tls.Config) (net.Listener, error) {
		mu.Lock()
		defer mu.Unlock()
		now.tls[addr] = cfg
		return &listener{done: make(chan struct{})}, nil
	}
	nethttp.DefaultTransport = tripper{}
	_ = os.Setenv("HOME", home)
	_ = os.Setenv("XDG_CACHE_HOME", filepath.Join(home, "cache"))

	mc.Main("C36", func(r *mc.R) {
		defer os.RemoveAll(home)
		r.Assume("net.Listen, tls.Listen and rsa.GenerateKey are replaced: connections stay in memory, keys come from a fixed pool; handshakes are real")
		r.Assume("one application at a time uses the cache of certificates; what a run leaves when it's interrupted is a prefix of each file it writes")

		a, b := generation(0), generation(1)
		all := names(a)
		if pair(a) == nil || pair(b) == nil {
			r.Fail("setup", mc.Failf("no certificate", "AutoHTTPS on localhost leaves no certificate in its cache: %v", all), nil)
			return
		}

		// judge runs an application upon the files there are
		judge := func(c *mc.C, key string, addrs ...string) error {
			before := files()
			o := start(-1, local(addrs...))
			c.Step()
			after := files()
			for _, addr := range addrs {
				crt, err := sound(o, addr)
				if err != nil {
					return mc.Failf(key, "%s: %v", addr, err)
				}
				if had := pair(before); had != nil && len(before) == len(all) {
					if !bytes.Equal(crt.Raw, had.Raw) || !same(before, after) {
						return mc.Failf(key, "%s: the certificate there already was is not used on", addr)
					}
				}
				if kept := pair(after); kept == nil || !bytes.Equal(kept.Raw, crt.Raw) {
					return mc.Failf(key, "%s: the certificate is not kept for the next time", addr)
				}
			}
			return nil
		}

		// every prefix of one of the files, in company of every state of the others
		r.SpaceProcs("torn files", func(c *mc.C) error {
			wipe()
			nextK = 2
			torn := c.Choose(len(all))
			whole := a[all[torn]]
			p := c.Choose(len(whole) + 1)
			put(all[torn], whole[:p])
			key := fmt.Sprintf("%s cut to %d bytes", filepath.Base(all[torn]), p)
			for i, n := range all {
				if i == torn {
					continue
				}
				how := mc.Pick(c, []string{"whole", "missing", "of another run", "empty", "half"}[:mc.Bound(r, 4, 5)])
				key += fmt.Sprintf(", %s %s", filepath.Base(n), how)
				switch how {
				case "whole":
					put(n, a[n])
				case "of another run":
					put(n, b[n])
				case "empty":
					put(n, "")
				case "half":
					put(n, a[n][:len(a[n])/2])
				}
			}
			c.Note("%s", key)
			c.State(key)
			return judge(c, key, mc.Pick(c, []string{"localhost:1", "127.0.0.1:1"}[:mc.Bound(r, 1, 2)]))
		})

		// data which was never written within a file of the full size
		r.SpaceProcs("holes", func(c *mc.C) error {
			wipe()
			nextK = 2
			torn := c.Choose(len(all))
			key := all[torn]
			for i, n := range all {
				content := a[n]
				if i == torn {
					step := mc.Bound(r, 64, 16)
					from := c.Choose(len(content)/step+1) * step
					to := from + c.Choose((len(content)-from)/step+1)*step
					by := mc.Pick(c, []string{"\x00", "A"})
					content = content[:from] + strings.Repeat(by, to-from) + content[to:]
					key += fmt.Sprintf(" overwritten by %q from %d to %d", by, from, to)
				}
				put(n, content)
			}
			c.Note("%s", key)
			c.State(key)
			return judge(c, key, "localhost:1")
		})

		// writing fails at any byte of any of the files, and is made up for by the next run
		r.SpaceProcs("failing writes", func(c *mc.C) error {
			wipe()
			nextK = 2
			most := 0
			for _, n := range all {
				if len(a[n]) > most {
					most = len(a[n])
				}
			}
			initial := mc.Pick(c, []string{"nothing", "a pair", "mixed", "first only", "last only"})
			for i, n := range all {
				switch {
				case initial == "a pair", initial == "first only" && i == 0, initial == "last only" && i == len(all)-1:
					put(n, a[n])
				case initial == "mixed":
					put(n, []map[string]string{a, b}[i%2][n])
				}
			}
			times := 1 + c.Choose(mc.Bound(r, 1, 2))
			key := initial
			for i := 0; i < times; i++ {
				limit := c.Choose(most + 2)
				if i > 0 && limit%97 != 0 {
					return mc.ErrSkip
				}
				key += fmt.Sprintf(", at most %d bytes per file", limit)
				c.Note("%s", key)
				had := pair(files())
				o := start(int64(limit), local("localhost:1"))
				c.Step()
				if o.err == nil && o.plain["localhost:1"] {
					return mc.Failf(key, "served without encryption")
				}
				if o.err != nil {
					return mc.Failf(key, "the application does not start: %v", o.err)
				}
				if had != nil && initial == "a pair" {
					crt, err := sound(o, "localhost:1")
					if err != nil || !bytes.Equal(crt.Raw, had.Raw) {
						return mc.Failf(key, "the certificate there already was is not used on: %v", err)
					}
				}
				if o.tls["localhost:1"] != nil {
					if _, err := sound(o, "localhost:1"); err != nil {
						return mc.Failf(key, "%v", err)
					}
				}
			}
			c.State(key)
			return judge(c, key, "localhost:1")
		})

		// sequences of runs and of what may happen to the cache in between
		r.SpaceProcs("histories", func(c *mc.C) error {
			wipe()
			nextK = 0
			sets := [][]string{{"localhost:1"}, {"127.0.0.1:1", "localhost:2"}, {"[::1]:1", "LocalHost:2", "192.168.0.1:3"}, {"0.0.0.0:443"}}[mc.Bound(r, 1, 0):mc.Bound(r, 3, 4)]
			key := ""
			for i := 3; i > 0; i-- {
				act := c.Choose(5 + len(all))
				switch {
				case act == 0:
					key += "; run"
				case act == 1:
					wipe()
					key += "; the cache is removed"
				case act == 2:
					for _, n := range all {
						put(n, b[n])
					}
					key += "; a pair is restored"
				case act == 3:
					for i, n := range all {
						put(n, []map[string]string{a, b}[i%2][n])
					}
					key += "; mixed up"
				case act == 4:
					_ = start(int64(mc.Pick(c, []int{0, 600, 1100, 1500})), local("localhost:1"))
					key += "; a run fails to write"
				default:
					_ = os.Remove(filepath.Join(home, all[act-5]))
					key += "; " + filepath.Base(all[act-5]) + " is removed"
				}
				set := mc.Pick(c, sets)
				key += fmt.Sprint(", then a run for ", set)
				c.Note("%s", key)
				c.State(key)
				if err := judge(c, key, set...); err != nil {
					return err
				}
			}
			return nil
		})

		// something stands in the way: no TLS, but nothing in plain either
		r.SpaceProcs("obstacles", func(c *mc.C) error {
			wipe()
			nextK = 2
			obstacle := mc.Pick(c, []string{"a file instead of the cache", "a file above the cache", "directories", "a directory"})
			switch obstacle {
			case "a file instead of the cache":
				put(filepath.Dir(all[0]), "x")
			case "a file above the cache":
				put(filepath.Dir(filepath.Dir(all[0])), "x")
			default:
				for i, n := range all {
					if obstacle == "directories" || i == 0 {
						_ = os.MkdirAll(filepath.Join(home, n), 0o700)
					}
				}
			}
			addr := mc.Pick(c, []string{"localhost:1", "127.0.0.1:1", "[::1]:1"})
			c.Note("%s, %s", obstacle, addr)
			c.State(obstacle + addr)
			o := start(-1, local(addr))
			c.Step()
			if o.err != nil {
				return mc.Failf(obstacle, "the application does not start: %v", o.err)
			}
			if !o.plain["0.0.0.0:8000"] {
				return mc.Failf(obstacle, "the other listener is not served")
			}
			if o.plain[addr] {
				return mc.Failf(obstacle, "%s is served without encryption", addr)
			}
			if o.tls[addr] != nil {
				if _, err := sound(o, addr); err != nil {
					return mc.Failf(obstacle, "%v", err)
				}
			}
			wipe()
			return judge(c, obstacle+" is gone", addr)
		})

		// a pair given explicitly is the one which is presented, or nothing is served at all
		r.SpaceProcs("given pairs", func(c *mc.C) error {
			wipe()
			type given struct {
				crt, key string
				leaf     *x509.Certificate
			}
			pems := func(fs map[string]string) (crt, key string) {
				for _, v := range fs {
					if strings.Contains(v, "CERTIFICATE") {
						crt = v
					} else {
						key = v
					}
				}
				return crt, key
			}
			ca, ka := pems(a)
			cb, kb := pems(b)
			cuts := []int{0, 1, 100, 500, 700}
			kinds := []given{{ca, ka, pair(a)}, {cb, kb, pair(b)}, {ca, kb, nil}, {ka, ca, nil}, {"none", ka, nil}, {ca, "none", nil}}
			for _, n := range cuts {
				kinds = append(kinds, given{ca[:n], ka, nil}, given{ca, ka[:n], nil})
			}
			var gs []given
			for i := 1 + c.Choose(mc.Bound(r, 2, 3)); i > 0; i-- {
				gs = append(gs, mc.Pick(c, kinds))
			}
			key := ""
			bad := false
			o := start(-1, func(app *indigo.App) {
				for i, g := range gs {
					cf, kf := filepath.Join(home, fmt.Sprintf("c%d", i)), filepath.Join(home, fmt.Sprintf("k%d", i))
					if g.crt != "none" {
						put(fmt.Sprintf("c%d", i), g.crt)
					}
					if g.key != "none" {
						put(fmt.Sprintf("k%d", i), g.key)
					}
					bad = bad || g.leaf == nil
					key += fmt.Sprintf("%d/%d ", len(g.crt), len(g.key))
					app.HTTPS(fmt.Sprintf("h%d:1", i), cf, kf)
				}
			})
			c.Step()
			c.Note("%s", key)
			c.State(key)
			if bad {
				if o.err == nil {
					return mc.Failf(key, "the application starts despite of an unsound pair")
				}
				return nil
			}
			for i, g := range gs {
				crt, err := sound(o, fmt.Sprintf("h%d:1", i))
				if err != nil {
					return mc.Failf(key, "%v", err)
				}
				if !bytes.Equal(crt.Raw, g.leaf.Raw) {
					return mc.Failf(key, "listener %d presents another certificate", i)
				}
			}
			return nil
		})

		// public names: certificates come from the cache, and are presented for the domains listed only
		domains := []string{"a.example", "b.example", "www.a.example", "c.example"}
		block, _ := pem.Decode([]byte(domainKeyPEM))
		parsed, err := x509.ParsePKCS8PrivateKey(block.Bytes)
		if err != nil {
			panic("mc: " + err.Error())
		}
		ec := parsed.(*ecdsa.PrivateKey)
		cached := map[string]string{}
		der, _ := x509.MarshalECPrivateKey(ec)
		for i, d := range domains {
			t := &x509.Certificate{SerialNumber: big.NewInt(int64(i + 1)), Subject: pkix.Name{CommonName: d}, DNSNames: []string{d},
				NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(80 * 24 * time.Hour), ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
			crt, err := x509.CreateCertificate(rand.Reader, t, t, &ec.PublicKey, ec)
			if err != nil {
				panic("mc: " + err.Error())
			}
			cached[d] = string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: der})) + string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: crt}))
		}
		r.SpaceProcs("domains", func(c *mc.C) error {
			wipe()
			have := c.Bool()
			for _, d := range domains {
				if !have {
					break
				}
				put(filepath.Join(filepath.Dir(all[0]), d), cached[d])
			}
			addr := mc.Pick(c, []string{"a.example:443", "example.com:80", "h1:443", "sub.localhost:1", "localhost.example:1"})
			var listed []string
			for _, d := range domains {
				if c.Bool() {
					listed = append(listed, d)
				}
			}
			second := c.Bool()
			ask := mc.Pick(c, domains)
			key := fmt.Sprintf("%s, %v listed, another listener: %v, %s is asked for, stored: %v", addr, listed, second, ask, have)
			c.Note("%s", key)
			c.State(key)
			o := start(-1, func(app *indigo.App) {
				app.AutoHTTPS(addr, listed...)
				if second {
					app.AutoHTTPS("other.example:1", domains[0])
				}
			})
			c.Step()
			if o.err != nil || o.plain[addr] || o.tls[addr] == nil {
				return mc.Failf(key, "not served over TLS (%v)", o.err)
			}
			ok := len(listed) == 0
			for _, d := range listed {
				ok = ok || d == ask
			}
			asked.Store(0)
			crt, err := leaf(o.tls[addr], ask)
			if have {
				if ok && (err != nil || crt.VerifyHostname(ask) != nil) {
					return mc.Failf(key, "the certificate of the domain is not presented: %v", err)
				}
				if asked.Load() > 0 {
					return mc.Failf(key, "a certificate is asked for though there is one")
				}
				return nil
			}
			if err == nil {
				return mc.Failf(key, "a certificate is presented which can't be there")
			}
			if got := asked.Load() > 0; got != ok {
				return mc.Failf(key, "a certificate is asked for: %v, should be: %v (%v)", got, ok, err)
			}
			return nil
		})
	})
}
