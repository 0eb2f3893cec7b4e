// C34: the bundled middlewares, loggers and the simple router do what they declare and nothing else.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net/url"
	"strings"
	"sync"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
	"github.com/indigo-web/indigo/router"
	"github.com/indigo-web/indigo/router/inbuilt"
	"github.com/indigo-web/indigo/router/inbuilt/middleware"
	"github.com/indigo-web/indigo/router/inbuilt/mutator"
	"github.com/indigo-web/indigo/router/simple"
)

func run(enc encryption.Token, r router.Router, raw string, heads ...bool) ([]*srv.Response, string, error) {
	conn := srv.NewConn([]byte(raw))
	if err := srv.Serve(srv.Config(), conn, enc, r); err != nil {
		return nil, "", err
	}
	out := conn.Out.String()
	rs, err := srv.ParseAll([]byte(out), heads...)
	return rs, out, err
}

type lines struct{ got []string }

func (l *lines) Printf(f string, v ...any) { l.got = append(l.got, fmt.Sprintf(f, v...)) }

var segments = []string{"a", "/", "%41", "%0d", "%0a", "%20", "%25", "%3f", "%23", "%C3%A9", "%00", ":", "@", "+", "\\", "%2F", ".."}

func decode(s string) string {
	d, err := url.PathUnescape(s)
	if err != nil {
		panic("mc: " + err.Error())
	}
	return d
}

type ctxKey struct{}

// escaped is what a log line shows of a path: nothing but printable characters.
func escaped(p string) string {
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		if p[i] >= 0x20 && p[i] <= 0x7e {
			b.WriteByte(p[i])
			continue
		}
		b.WriteByte('\\')
		if at := strings.IndexByte("\x00\a\b\t\n\v\f\r", p[i]); at >= 0 {
			b.WriteByte("0abtnvfr"[at])
		} else {
			b.WriteByte('?')
		}
	}
	return b.String()
}

// behaviours of handlers
var behaviours = []string{"ok", "nil", "error", "attachment", "panic", "panic error", "panic http", "panic value", "hijack", "server", "close"}

func behave(b string, req *http.Request) *http.Response {
	switch b {
	case "nil":
		return nil
	case "error":
		return http.Error(req, errors.New("broken"))
	case "attachment":
		return req.Respond().Attachment(strings.NewReader("attached"), 8)
	case "panic":
		req.Respond().Header("X-Half", "done").String("half")
		panic("handler is gone")
	case "panic error":
		var m map[string]int
		m["a"] = 1
	case "panic http":
		panic(status.ErrTeapot)
	case "panic value":
		panic(struct{ a []int }{})
	case "hijack":
		_, _ = req.Hijack()
		return nil
	case "server":
		return req.Respond().Header("Server", "mine").String("ok")
	case "close":
		return http.Error(req, status.ErrCloseConnection)
	}
	return http.String(req, "ok")
}

func main() {
	log.SetOutput(io.Discard)
	mc.Main("C34", func(r *mc.R) {
		r.Assume("request targets are in origin form; hosts are host names, addresses and bracketed IPv6 addresses with an optional port")
		depth := mc.Bound(r, 4, 5)
		r.Space("redirecting to HTTPS", func(c *mc.C) error {
			n := c.Choose(depth + 1)
			rawPath := "/"
			for i := 0; i < n; i++ {
				rawPath += mc.Pick(c, segments)
			}
			query := mc.Pick(c, []string{"", "q=1&b=%20%0d%0a", "%3f", "a?b", "?", "/?a=/&/"})
			host := mc.Pick(c, []string{"-", "", "h", "h:80", "[::1]", "[2001:db8::1]:8080", "H.Example:1", "h:", "[::1]:", "h:65535"})
			var p middleware.HTTPOnlyParams
			opt := c.Choose(4)
			if opt&1 == 1 {
				p.RedirectTo = "to.example"
			}
			if opt&2 == 2 {
				p.Port = "8443"
			}
			enc := mc.Pick(c, []encryption.Token{encryption.Plain, encryption.TLS, encryption.Extend + 3})
			if n > 2 && (enc != encryption.Plain || host != "h:80" || opt != 0) {
				return mc.ErrSkip
			}
			called := 0
			rt := inbuilt.New()
			if opt == 0 {
				rt.Use(middleware.HTTPSOnly())
			} else {
				rt.Use(middleware.HTTPSOnly(p))
			}
			rt.Catch("/", func(req *http.Request) *http.Response { called++; return http.String(req, "secret") })
			target := rawPath
			if query != "" {
				target += "?" + query
			}
			raw := "GET " + target + " HTTP/1.1\r\n"
			if host != "-" {
				raw += "Host: " + host + "\r\n"
			}
			raw += "\r\n"
			key := fmt.Sprintf("https %q host %q to %q port %q encryption %d", target, host, p.RedirectTo, p.Port, enc)
			c.Note("%s", key)
			rs, out, err := run(enc, rt.Initialize(), raw)
			c.Step()
			c.State(key)
			if err != nil || len(rs) != 1 {
				return mc.Failf(key, "%v: %q", err, out)
			}
			resp := rs[0]
			if enc != encryption.Plain {
				if resp.Code != 200 || called != 1 || resp.Body != "secret" || len(resp.Values("Location")) > 0 {
					return mc.Failf(key, "an encrypted request isn't served: %q", out)
				}
				return nil
			}
			if called != 0 {
				return mc.Failf(key, "the handler is called over a plain connection")
			}
			name := host
			if i := strings.LastIndex(name, ":"); i > strings.LastIndex(name, "]") {
				name = name[:i]
			}
			if p.RedirectTo != "" {
				name = p.RedirectTo
			} else if host == "-" || host == "" {
				if resp.Code != 400 || len(resp.Values("Location")) > 0 {
					return mc.Failf(key, "no Host: %q", out)
				}
				return nil
			}
			loc := resp.Values("Location")
			if resp.Code/100 != 3 || len(loc) != 1 {
				return mc.Failf(key, "isn't redirected: %q", out)
			}
			u, err := url.Parse(loc[0])
			if err != nil {
				return mc.Failf(key, "redirected to %q: %v", loc[0], err)
			}
			if u.Scheme != "https" || u.Hostname() != strings.Trim(name, "[]") || u.Port() != p.Port || u.User != nil ||
				u.Path != decode(rawPath) && u.Path != trimmed(decode(rawPath)) || u.RawQuery != query || u.Fragment != "" {
				return mc.Failf(key, "redirected to %q", loc[0])
			}
			return nil
		})

		// the requests of a middleware's life do not depend on one another
		r.Space("histories of redirects", func(c *mc.C) error {
			hosts := []string{"", "a.example", "b.example:80", "[::1]"}
			paths := []string{"/", "/p", "/p?q=1", "/%20x"}
			type one struct {
				host, path string
				enc        encryption.Token
			}
			var seq []one
			for n := 2 + c.Choose(mc.Bound(r, 2, 3)); n > 0; n-- {
				seq = append(seq, one{mc.Pick(c, hosts), mc.Pick(c, paths), mc.Pick(c, []encryption.Token{encryption.Plain, encryption.TLS})})
			}
			shared := c.Bool()
			key := fmt.Sprintf("%q, one connection: %v", seq, shared)
			c.Note("%s", key)
			c.State(key)
			c.Steps(len(seq))
			called := 0
			rt := inbuilt.New().Use(middleware.HTTPSOnly()).Catch("/", func(req *http.Request) *http.Response { called++; return http.String(req, "secret") }).Initialize()
			var rs []*srv.Response
			raw := ""
			for i, q := range seq {
				msg := "GET " + q.path + " HTTP/1.1\r\n"
				if q.host != "" {
					msg += "Host: " + q.host + "\r\n"
				}
				if msg += "\r\n"; shared {
					if q.enc != seq[0].enc {
						return mc.ErrSkip
					}
					if raw += msg; i+1 < len(seq) {
						continue
					}
					msg = raw
				}
				got, out, err := run(q.enc, rt, msg)
				if err != nil {
					return mc.Failf(key, "%v: %q", err, out)
				}
				rs = append(rs, got...)
			}
			if len(rs) != len(seq) {
				return mc.Failf(key, "%d responses", len(rs))
			}
			served := 0
			for i, q := range seq {
				resp := rs[i]
				switch {
				case q.enc != encryption.Plain:
					if served++; resp.Code != 200 || resp.Body != "secret" {
						return mc.Failf(key, "request %d is encrypted and isn't served: %+v", i, resp)
					}
				case q.host == "":
					if resp.Code != 400 || len(resp.Values("Location")) > 0 {
						return mc.Failf(key, "request %d has no Host: %+v", i, resp)
					}
				default:
					u, err := url.Parse(resp.Value("Location"))
					path, query, _ := strings.Cut(q.path, "?")
					if err != nil || resp.Code/100 != 3 || len(resp.Values("Location")) != 1 || u.Scheme != "https" || u.Path != decode(path) || u.RawQuery != query ||
						u.Hostname() != map[string]string{"a.example": "a.example", "b.example:80": "b.example", "[::1]": "::1"}[q.host] {
						return mc.Failf(key, "request %d is redirected to %v (%v): %+v", i, u, err, resp)
					}
				}
			}
			if called != served {
				return mc.Failf(key, "the handler is called %d times, not %d", called, served)
			}
			return nil
		})

		r.Space("redirecting aliased paths to HTTPS", func(c *mc.C) error {
			from := mc.Pick(c, []string{"/", "/old", "/old/er", "/o d"})
			to := mc.Pick(c, []string{"/new", "/x/y"})
			at := mc.Pick(c, []string{from, to})
			rt := inbuilt.New().Use(middleware.HTTPSOnly()).Alias(from, to)
			rt.Get(to, func(req *http.Request) *http.Response { return http.String(req, "secret") })
			key := fmt.Sprintf("alias %q to %q, request %q", from, to, at)
			c.Note("%s", key)
			rs, out, err := run(encryption.Plain, rt.Initialize(), "GET "+strings.ReplaceAll(at, " ", "%20")+" HTTP/1.1\r\nHost: h\r\n\r\n")
			c.Step()
			c.State(key)
			if err != nil || len(rs) != 1 || rs[0].Code/100 != 3 {
				return mc.Failf(key, "%v: %q", err, out)
			}
			u, err := url.Parse(rs[0].Value("Location"))
			if err != nil || u.Path != at {
				return mc.Failf(key, "redirected to %v (%v), the request was for %q", u, err, at)
			}
			return nil
		})

		r.Space("redirecting paths", func(c *mc.C) error {
			froms := []string{"/", "/a", "/a/b", "/ab", "/x y"}
			from, to := mc.Pick(c, froms), mc.Pick(c, []string{"/to", "https://h/", "/a"})
			path := mc.Pick(c, append(froms, "/b", "/a/bc", "/A"))
			meth := mc.Pick(c, []string{"GET", "POST", "HEAD"})
			where := c.Choose(2)
			called := 0
			h := func(req *http.Request) *http.Response { called++; return http.String(req, "ok") }
			rt := inbuilt.New()
			if where == 0 {
				rt.Use(middleware.Redirect(from, to))
				rt.Catch("/", h)
			} else {
				rt.Catch("/", h, middleware.Redirect(from, to))
			}
			key := fmt.Sprintf("redirect %q to %q, %s %q, %d", from, to, meth, path, where)
			c.Note("%s", key)
			rs, out, err := run(0, rt.Initialize(), meth+" "+strings.ReplaceAll(path, " ", "%20")+" HTTP/1.1\r\n\r\n", meth == "HEAD")
			c.Step()
			c.State(key)
			if err != nil || len(rs) != 1 {
				return mc.Failf(key, "%v: %q", err, out)
			}
			loc := rs[0].Values("Location")
			if path == from {
				if rs[0].Code != 307 || len(loc) != 1 || loc[0] != to || called != 0 {
					return mc.Failf(key, "isn't redirected: %q", out)
				}
			} else if rs[0].Code != 200 || len(loc) != 0 || called != 1 {
				return mc.Failf(key, "isn't served: %q", out)
			}
			return nil
		})

		r.Space("logs", func(c *mc.C) error {
			// every byte, percent-encoded, at two positions
			i, j := c.Choose(256), c.Choose(mc.Bound(r, 12, 256))
			rawPath := fmt.Sprintf("/%%%02x%%%02X", i, j*mc.Bound(r, 11, 1)%256)
			meth := mc.Pick(c, []string{"GET", "HEAD", "DELETE"})
			nl := c.Choose(3)
			var mids, muts []*lines
			var midLoggers []middleware.Logger
			for k := 0; k < nl; k++ {
				mids, muts = append(mids, &lines{}), append(muts, &lines{})
				midLoggers = append(midLoggers, mids[k])
			}
			rt := inbuilt.New()
			switch nl {
			case 0:
				rt.Use(middleware.LogRequests())
				rt.Mutator(mutator.RequestsLog())
			case 1:
				rt.Use(middleware.LogRequests(midLoggers...))
				rt.Mutator(mutator.RequestsLog(muts[0]))
			default:
				rt.Use(middleware.LogRequests(midLoggers...))
				rt.Mutator(mutator.RequestsLog(muts[0], muts[1]))
			}
			code := 200
			if c.Bool() {
				code = 418
			}
			rt.Catch("/", func(req *http.Request) *http.Response { return req.Respond().Code(status.Code(code)) })
			key := fmt.Sprintf("log %s %s", meth, rawPath)
			rs, out, err := run(0, rt.Initialize(), meth+" "+rawPath+" HTTP/1.1\r\n\r\n", true)
			c.Step()
			if err != nil || len(rs) != 1 || rs[0].Code != code {
				return mc.Failf(key, "%v: %q", err, out)
			}
			for k := 0; k < nl; k++ {
				// the end of the connection passes the mutators, too; what they make of it isn't specified
				for len(muts[k].got) > 1 && !strings.HasPrefix(muts[k].got[len(muts[k].got)-1], meth) {
					muts[k].got = muts[k].got[:len(muts[k].got)-1]
				}
			}
			esc := escaped(decode(rawPath))
			for k := 0; k < nl; k++ {
				for _, l := range [][]string{mids[k].got, muts[k].got} {
					if len(l) != 1 {
						return mc.Failf(key, "%d lines are logged: %q", len(l), l)
					}
					for _, b := range []byte(l[0]) {
						if b < 0x20 || b > 0x7e {
							return mc.Failf(key, "byte %#x is logged: %q", b, l[0])
						}
					}
				}
				if got, want := mids[k].got[0], fmt.Sprintf("%s %s %d", meth, esc, code); got != want {
					return mc.Failf(key, "logged %q, want %q", got, want)
				}
				if got, want := muts[k].got[0], fmt.Sprintf("%s %s", meth, esc); got != want {
					return mc.Failf(key, "logged %q, want %q", got, want)
				}
			}
			c.State(key)
			return nil
		})

		// without loggers, the default one is used, otherwise only those which were given are
		var global sync.Mutex
		r.Space("the default logger", func(c *mc.C) error {
			nmid, nmut := c.Choose(4)-1, c.Choose(4)-1 // -1: not used at all
			meth, path := mc.Pick(c, []string{"GET", "POST"}), mc.Pick(c, []string{"/", "/a b", "/x\ny"})
			requests := 1 + c.Choose(2)
			key := fmt.Sprintf("log %s %q %d times, loggers of the middleware %d, of the mutator %d", meth, path, requests, nmid, nmut)
			c.Note("%s", key)
			global.Lock()
			defer global.Unlock()
			var written bytes.Buffer
			log.SetOutput(&written)
			defer log.SetOutput(io.Discard)
			rt := inbuilt.New()
			own := &lines{}
			if nmid >= 0 {
				rt.Use(middleware.LogRequests([]middleware.Logger{own, own}[:nmid]...))
			}
			switch nmut {
			case 0:
				rt.Mutator(mutator.RequestsLog())
			case 1:
				rt.Mutator(mutator.RequestsLog(own))
			case 2:
				rt.Mutator(mutator.RequestsLog(own, own))
			}
			rt.Catch("/", func(req *http.Request) *http.Response { return http.String(req, "ok") })
			rs, out, err := run(0, rt.Initialize(), strings.Repeat(meth+" "+url.PathEscape(path)+" HTTP/1.1\r\n\r\n", requests))
			if err != nil || len(rs) != requests {
				return mc.Failf(key, "%v: %q", err, out)
			}
			c.Steps(requests)
			c.State(key)
			plain, coded := meth+" "+escaped(path), meth+" "+escaped(path)+" 200"
			count := func(ls []string) (p, q int) {
				for _, l := range ls {
					switch {
					case strings.HasSuffix(l, coded):
						q++
					case strings.HasSuffix(l, plain):
						p++
					}
				}
				return p, q
			}
			want := func(n int, own bool) int {
				switch {
				case own && n > 0:
					return n * requests
				case !own && n == 0:
					return requests
				}
				return 0
			}
			dp, dq := count(strings.Split(written.String(), "\n"))
			op, oq := count(own.got)
			if dp != want(nmut, false) || dq != want(nmid, false) || op != want(nmut, true) || oq != want(nmid, true) {
				return mc.Failf(key, "the default logger got %q, the given ones got %q", written.String(), own.got)
			}
			return nil
		})

		// redirects keep every byte of the query and the path
		r.Space("bytes of redirected targets", func(c *mc.C) error {
			in := c.Bool()
			a := byte(0x21 + c.Choose(0x7f-0x21))
			b := byte(0x21 + c.Choose(0x7f-0x21))
			path, query := "/p", "q"
			if in {
				query = string([]byte{a, b})
			} else {
				path = "/" + string([]byte{a, b})
			}
			if strings.ContainsAny(path+query, "#") || !in && strings.ContainsAny(path, "?%") || in && strings.Contains(query, "%") {
				return mc.ErrSkip
			}
			key := fmt.Sprintf("https %q?%q", path, query)
			c.Note("%s", key)
			rt := inbuilt.New().Use(middleware.HTTPSOnly(middleware.HTTPOnlyParams{Port: "1"}))
			rt.Catch("/", func(req *http.Request) *http.Response { return http.String(req, "secret") })
			rs, out, err := run(encryption.Plain, rt.Initialize(), "GET "+path+"?"+query+" HTTP/1.1\r\nHost: h\r\n\r\n")
			c.Step()
			if err != nil || len(rs) != 1 || rs[0].Code/100 != 3 {
				return mc.Failf(key, "%v: %q", err, out)
			}
			u, err := url.Parse(rs[0].Value("Location"))
			if err != nil || u.Host != "h:1" || u.RawQuery != query || u.Path != path && u.Path != trimmed(path) {
				return mc.Failf(key, "redirected to %q (%v)", rs[0].Value("Location"), err)
			}
			return nil
		})
		// long targets and hosts, redirected and logged
		r.Space("sizes", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 5000, 8000)))
			what := mc.Pick(c, []string{"path", "escaped path", "query", "host"})
			enc := mc.Pick(c, []encryption.Token{encryption.Plain, encryption.TLS})
			path, query, host := "/p", "q", "h"
			switch what {
			case "path":
				path = "/" + strings.Repeat("seg-", n/4+1)[:n]
			case "escaped path":
				path = "/" + strings.Repeat("%0A%C3%A9x", n/4+1)
			case "query":
				query = strings.Repeat("a=b&", n/4+1)[:n]
			case "host":
				host = strings.Repeat("label.", n/6+1)[:n] + "z"
			}
			key := fmt.Sprintf("%s of size %d, encryption %d", what, n, enc)
			c.Note("%s", key)
			c.State(key)
			mid, mut := &lines{}, &lines{}
			rt := inbuilt.New().Use(middleware.LogRequests(mid), middleware.HTTPSOnly(), middleware.ServerHeader(strings.Repeat("s", n+1)))
			rt.Mutator(mutator.RequestsLog(mut))
			rt.Catch("/", func(req *http.Request) *http.Response { return http.String(req, "ok") })
			const times = 3
			rs, out, err := run(enc, rt.Initialize(), strings.Repeat("GET "+path+"?"+query+" HTTP/1.1\r\nHost: "+host+"\r\n\r\n", times))
			c.Steps(times)
			if err != nil || len(rs) != times {
				return mc.Failf(key, "%v: %.300q", err, out)
			}
			code := 200
			for _, resp := range rs {
				if enc != encryption.Plain {
					if resp.Code != 200 || resp.Body != "ok" || resp.Value("Server") != strings.Repeat("s", n+1) {
						return mc.Failf(key, "isn't served: %.300q", out)
					}
					continue
				}
				code = resp.Code
				u, err := url.Parse(resp.Value("Location"))
				if code/100 != 3 || err != nil || u.Hostname() != host || u.RawQuery != query || u.Path != decode(path) {
					return mc.Failf(key, "redirected to %.300q (%v)", resp.Value("Location"), err)
				}
			}
			// the end of the connection passes, too
			if len(mid.got) < times || len(mut.got) < times {
				return mc.Failf(key, "%d and %d lines are logged", len(mid.got), len(mut.got))
			}
			for i := 0; i < times; i++ {
				if want := "GET " + escaped(decode(path)); mid.got[i] != fmt.Sprintf("%s %d", want, code) || mut.got[i] != want {
					return mc.Failf(key, "logged %.200q and %.200q", mid.got[i], mut.got[i])
				}
			}
			return nil
		})
		// long connections
		r.Space("many requests", func(c *mc.C) error {
			kinds := []string{"/", "/panic", "/from", "/nil", "/none", "/ctx"}
			var seq []string
			for i := 1 + c.Choose(3); i > 0; i-- {
				seq = append(seq, mc.Pick(c, kinds))
			}
			times := mc.Pick(c, []int{30, 300})
			mid := &lines{}
			rt := inbuilt.New().Use(middleware.ServerHeader(), middleware.LogRequests(mid), middleware.Redirect("/from", "/to"), middleware.Recover)
			rt.Get("/", func(req *http.Request) *http.Response {
				if req.Ctx.Value(ctxKey{}) != nil {
					return http.String(req, "context of another request")
				}
				return http.String(req, "ok")
			})
			rt.Get("/panic", func(req *http.Request) *http.Response { panic("gone") })
			rt.Get("/nil", func(req *http.Request) *http.Response { return nil })
			rt.Get("/from", func(req *http.Request) *http.Response { return http.String(req, "not to be seen") })
			rt.Get("/ctx", func(req *http.Request) *http.Response {
				return http.String(req, fmt.Sprint(req.Ctx.Value(ctxKey{})))
			}, middleware.CustomContext(context.WithValue(context.Background(), ctxKey{}, 5)))
			key := fmt.Sprintf("%d times %q", times, seq)
			c.Note("%s", key)
			c.State(key)
			raw := ""
			for _, p := range seq {
				raw += "GET " + p + " HTTP/1.1\r\n\r\n"
			}
			rs, out, err := run(0, rt.Initialize(), strings.Repeat(raw, times))
			c.Steps(times * len(seq))
			if err != nil || len(rs) != times*len(seq) {
				return mc.Failf(key, "%v: %.300q", err, out)
			}
			line := 0
			for i, resp := range rs {
				p := seq[i%len(seq)]
				code := map[string]int{"/panic": 500, "/from": 307, "/none": 404}[p]
				if code == 0 {
					code = 200
				}
				body, known := map[string]string{"/": "ok", "/ctx": "5", "/nil": ""}[p]
				if resp.Code != code || known && resp.Body != body || len(resp.Values("Server")) != 1 || (len(resp.Values("Location")) == 1) != (p == "/from") {
					return mc.Failf(key, "response %d: %+v", i, resp)
				}
				if line >= len(mid.got) || mid.got[line] != fmt.Sprintf("GET %s %d", p, code) {
					return mc.Failf(key, "line %d isn't the one of request %d: %.300q", line, i, mid.got)
				}
				line++
			}
			return nil
		})

		// all chains of middlewares around all kinds of handlers
		mws := []string{"recover", "server", "server two", "context", "log", "https", "redirect elsewhere"}
		r.Space("chains of middlewares", func(c *mc.C) error {
			n := c.Choose(mc.Bound(r, 5, 6))
			var chain []string
			recovers, server, ctx, logs := -1, -1, -1, 0
			rt := inbuilt.New()
			logger := &lines{}
			var used []inbuilt.Middleware
			for i := 0; i < n; i++ {
				m := mc.Pick(c, mws)
				chain = append(chain, m)
				switch m {
				case "recover":
					recovers = i
					used = append(used, middleware.Recover)
				case "server":
					if server < 0 {
						server = i
					}
					used = append(used, middleware.ServerHeader())
				case "server two":
					used = append(used, middleware.ServerHeader("one", "two"))
				case "context":
					ctx = i
					used = append(used, middleware.CustomContext(context.WithValue(context.Background(), ctxKey{}, i)))
				case "log":
					logs++
					used = append(used, middleware.LogRequests(logger))
				case "https":
					used = append(used, middleware.HTTPSOnly())
				case "redirect elsewhere":
					used = append(used, middleware.Redirect("/elsewhere", "/"))
				}
			}
			b := mc.Pick(c, behaviours)
			if strings.HasPrefix(b, "panic") && recovers < 0 {
				return mc.ErrSkip
			}
			if b == "close" && logs > 0 {
				// such responses aren't logged
				logs = 0
			}
			where := mc.Pick(c, []string{"use", "route", "group"})
			var gotCtx any = "unset"
			h := func(req *http.Request) *http.Response {
				gotCtx = req.Ctx.Value(ctxKey{})
				return behave(b, req)
			}
			switch where {
			case "use":
				rt.Use(used...)
				rt.Get("/", h)
			case "route":
				rt.Get("/", h, used...)
			case "group":
				rt.Group("/g").Use(used...).Get("/", h)
			}
			var nextCtx any = "unset"
			rt2 := func(req *http.Request) *http.Response {
				nextCtx = req.Ctx.Value(ctxKey{})
				return http.String(req, "next")
			}
			if where != "use" {
				rt.Get("/next", rt2)
			} else {
				rt.Get("/next", func(req *http.Request) *http.Response { return http.String(req, "next") })
			}
			path := map[string]string{"use": "/", "route": "/", "group": "/g"}[where]
			key := fmt.Sprintf("chain %v around %s in %s", chain, b, where)
			c.Note("%s", key)
			rs, out, err := run(encryption.TLS, rt.Initialize(), "GET "+path+" HTTP/1.1\r\nHost: h\r\n\r\nGET /next HTTP/1.1\r\nHost: h\r\n\r\n")
			c.Steps(2)
			c.State(key)
			if err != nil {
				return mc.Failf(key, "%v: %q", err, out)
			}
			var wantCtx any
			if ctx >= 0 {
				wantCtx = ctx
			}
			if gotCtx != wantCtx {
				return mc.Failf(key, "the handler sees the context value %v, want %v", gotCtx, wantCtx)
			}
			if b == "hijack" {
				if out != "" {
					return mc.Failf(key, "a hijacked connection got %q", out)
				}
				return nil
			}
			if b == "close" {
				return nil
			}
			if len(rs) != 2 || rs[1].Body != "next" {
				return mc.Failf(key, "want two responses: %q", out)
			}
			if where != "use" && nextCtx != nil {
				return mc.Failf(key, "the context of a request is seen by the next one")
			}
			code, body := 200, "ok"
			switch b {
			case "nil":
				body = ""
			case "error":
				code, body = 500, rs[0].Body
			case "attachment":
				body = "attached"
			case "panic", "panic error", "panic http", "panic value":
				code, body = 500, rs[0].Body
				if strings.Contains(body, "half") || rs[0].Value("X-Half") != "" {
					return mc.Failf(key, "parts of the unfinished response are sent: %q", out)
				}
			}
			if rs[0].Code != code || rs[0].Body != body {
				return mc.Failf(key, "want %d %q: %q", code, body, out)
			}
			// the Server headers of the middlewares the response has passed, the innermost first
			var want []string
			inner := len(chain) - 1
			if strings.HasPrefix(b, "panic") {
				inner = recovers - 1
			}
			if b == "server" {
				want = append(want, "mine")
			}
			for i := inner; i >= 0; i-- {
				switch chain[i] {
				case "server":
					want = append(want, "indigo")
				case "server two":
					want = append(want, "one two")
				}
			}
			got := rs[0].Values("Server")
			if strings.Join(got, ",") != strings.Join(want, ",") {
				return mc.Failf(key, "Server is %q, want %q", got, want)
			}
			// lines logged: those of the chain the response has passed
			wantLines := 0
			for i := inner; i >= 0; i-- {
				if chain[i] == "log" {
					wantLines++
				}
			}
			first := 0
			for _, l := range logger.got {
				if l == fmt.Sprintf("GET %s %d", path, code) {
					first++
				}
			}
			if path == "/g" && first == 0 && wantLines > 0 || first != wantLines {
				return mc.Failf(key, "%d of %d lines logged: %q", first, wantLines, logger.got)
			}
			return nil
		})

		r.Space("simple router", func(c *mc.C) error {
			n := 1 + c.Choose(mc.Bound(r, 3, 4))
			raw := ""
			var wantLog []string
			ended := false
			for i := 0; i < n; i++ {
				switch c.Choose(6) {
				case 0:
					raw += fmt.Sprintf("GET /%d HTTP/1.1\r\n\r\n", i)
					wantLog = add(ended, wantLog, fmt.Sprintf("GET /%d", i))
				case 1:
					raw += fmt.Sprintf("POST /%d HTTP/1.1\r\nContent-Length: 2\r\n\r\nab", i)
					wantLog = add(ended, wantLog, fmt.Sprintf("POST /%d", i))
				case 2:
					raw += "GET /%zz HTTP/1.1\r\n\r\n"
					wantLog = add(ended, wantLog, "error")
					ended = true
				case 3:
					raw += "BREW / HTTP/1.1\r\n\r\n"
					wantLog = add(ended, wantLog, "error")
					ended = true
				case 4:
					raw += fmt.Sprintf("GET /%d HTTP/1.1\r\nConnection: close\r\n\r\n", i)
					wantLog = add(ended, wantLog, fmt.Sprintf("GET /%d", i))
					if !ended {
						wantLog = append(wantLog, "error: closed")
					}
					ended = true
				case 5:
					raw += "GET / HTTP/3.7\r\n\r\n"
					wantLog = add(ended, wantLog, "error")
					ended = true
				}
			}
			if !ended {
				wantLog = append(wantLog, "error: closed")
			}
			var got []string
			rt := simple.New(func(req *http.Request) *http.Response {
				got = append(got, req.Method.String()+" "+strings.Clone(req.Path))
				if req.Env.Error != nil {
					got = append(got, "with error")
				}
				return http.String(req, "h")
			}, func(req *http.Request) *http.Response {
				if req.Env.Error == nil {
					got = append(got, "no error")
					return nil
				}
				if req.Env.Error == status.ErrCloseConnection {
					got = append(got, "error: closed")
				} else {
					got = append(got, "error")
				}
				return http.String(req, "e")
			}).Initialize()
			key := fmt.Sprintf("simple %q", raw)
			c.Note("%s", key)
			rs, out, err := run(0, rt, raw)
			c.Steps(n)
			c.State(key)
			if err != nil {
				return mc.Failf(key, "%v: %q", err, out)
			}
			if strings.Join(got, ", ") != strings.Join(wantLog, ", ") {
				return mc.Failf(key, "handled %q, want %q", got, wantLog)
			}
			for i, resp := range rs {
				want := "h"
				if strings.HasPrefix(wantLog[i], "error") {
					want = "e"
				}
				if resp.Body != want {
					return mc.Failf(key, "response %d of %q", i+1, out)
				}
			}
			return nil
		})
	})
}

// trimmed is the path without the trailing slashes, which never matter.
func trimmed(path string) string {
	if t := strings.TrimRight(path, "/"); t != "" {
		return t
	}
	return "/"
}

func add(ended bool, log []string, s string) []string {
	if ended {
		return log
	}
	return append(log, s)
}
