// C11: query parameters are what the query string says.
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/query"
	"github.com/indigo-web/indigo/internal/keyvalue"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
)

type pair struct{ k, v string }

func unhex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func decode(s string) (string, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '+':
			b = append(b, ' ')
		case '%':
			if i+2 >= len(s) || unhex(s[i+1]) < 0 || unhex(s[i+2]) < 0 {
				return "", false
			}
			b = append(b, byte(unhex(s[i+1])<<4|unhex(s[i+2])))
			i += 2
		default:
			b = append(b, s[i])
		}
	}
	return string(b), true
}

// reference is the specification; empty pieces are left out.
func reference(q string) (ps []pair, ok bool) {
	if q == "" {
		return nil, true
	}
	for _, p := range strings.Split(q, "&") {
		k, v, has := strings.Cut(p, "=")
		if k == "" {
			if has {
				return nil, false
			}
			continue
		}
		dk, ok := decode(k)
		if !ok {
			return nil, false
		}
		dv := "1"
		if has {
			if dv, ok = decode(v); !ok {
				return nil, false
			}
		}
		ps = append(ps, pair{dk, dv})
	}
	return ps, true
}

func fold(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func get(ps []pair, k string) (string, bool) {
	for _, p := range ps {
		if fold(p.k) == fold(k) {
			return p.v, true
		}
	}
	return "", false
}

// access performs one access and compares it with the reference.
func access(q *query.Query, raw, how string) error {
	ps, ok := reference(raw)
	switch {
	case how == "raw":
		if string(q.Raw()) != raw {
			return fmt.Errorf("the raw query is %q", q.Raw())
		}
	case how == "unwrap":
		got, err := q.Unwrap()
		if (err == nil) != ok {
			return fmt.Errorf("the error is %v", err)
		}
		if err != nil {
			return nil
		}
		var have []pair
		for _, p := range got.Unwrap() {
			if p.Key != "" {
				have = append(have, pair{p.Key, p.Value})
			} else if p.Value != "1" {
				return fmt.Errorf("a parameter without a name has the value %q", p.Value)
			}
		}
		if fmt.Sprintf("%q", have) != fmt.Sprintf("%q", ps) {
			return fmt.Errorf("the parameters are %q, not %q", have, ps)
		}
	default:
		got, err := q.Get(how)
		if !ok {
			if err == nil || errors.Is(err, query.ErrNoSuchKey) {
				return fmt.Errorf("Get(%q) gives %q, %v", how, got, err)
			}
			return nil
		}
		want, has := get(ps, how)
		if has && (err != nil || got != want) || !has && !errors.Is(err, query.ErrNoSuchKey) {
			return fmt.Errorf("Get(%q) gives %q, %v, not %q, %v", how, got, err, want, has)
		}
	}
	return nil
}

func all(raw string) []string {
	hows := []string{"unwrap", "raw", "a", "nope"}
	if ps, ok := reference(raw); ok {
		for _, p := range ps {
			hows = append(hows, p.k)
		}
	}
	return hows
}

func one(c *mc.C, raw string) error {
	key := fmt.Sprintf("%q", raw)
	c.Note("%s", key)
	q := query.New(keyvalue.New())
	q.Set([]byte(raw))
	for _, how := range all(raw) {
		c.Step()
		if err := access(q, raw, how); err != nil {
			return mc.Failf(key, "%s: %v", how, err)
		}
	}
	c.State(key)
	return nil
}

func main() {
	mc.Main("C11", func(r *mc.R) {
		r.Assume("whether empty pieces (as between two ampersands) count as parameters without a name is not specified and not compared")
		tokens := []string{"a", "b", "=", "&", "+", "%", "%26", "%3D", "%2b", "%41", "2", "\xc3", "%00"}
		depth := mc.Bound(r, 6, 7)
		r.Space("strings", func(c *mc.C) error {
			var b strings.Builder
			for n := c.Choose(depth + 1); n > 0; n-- {
				b.WriteString(mc.Pick(c, tokens))
			}
			return one(c, b.String())
		})
		r.Space("escapes", func(c *mc.C) error {
			h, l := byte(c.Choose(256)), byte(c.Choose(256))
			esc := "%" + string([]byte{h, l})
			return one(c, mc.Pick(c, []string{esc, "k=" + esc, esc + "=v", "a=1&" + esc + "z=2&b", "x=" + esc + "&y"}))
		})
		r.Space("bytes", func(c *mc.C) error {
			x, y := string([]byte{byte(c.Choose(256))}), string([]byte{byte(c.Choose(256))})
			return one(c, mc.Pick(c, []string{x + y, "k=" + x + y, x + "=" + y, "a" + x + "b" + y + "c"}))
		})
		queries := []string{"", "a", "a=b", "a=b&a=c", "%", "=", "b=%zz&a=1", "a=1&b=2&=x", "a=%26+%2B&c", "long=" + strings.Repeat("x", 60)}
		hows := []string{"unwrap", "raw", "a", "b"}
		hd := mc.Bound(r, 5, 6)
		r.Space("histories", func(c *mc.C) error {
			q := query.New(keyvalue.NewPreAlloc(c.Choose(3)))
			raw, key := "", ""
			var kept []byte
			for i := 0; i < hd; i++ {
				n := c.Choose(len(hows) + len(queries))
				c.Step()
				if n >= len(hows) {
					raw = queries[n-len(hows)]
					key += fmt.Sprintf("Set(%q) ", raw)
					kept = []byte(raw)
					q.Set(kept)
					continue
				}
				key += hows[n] + " "
				if err := access(q, raw, hows[n]); err != nil {
					return mc.Failf(key, "%v", err)
				}
				if string(kept) != raw {
					return mc.Failf(key, "the raw query was changed to %q", kept)
				}
			}
			c.State(key)
			return nil
		})
		st := []string{"a", "=", "&", "+", "%", "%26", "%3D", "%41", "?", "/"}
		sd := mc.Bound(r, 3, 4)
		r.Space("server", func(c *mc.C) error {
			var raws []string
			var in strings.Builder
			for i := 0; i < 2; i++ {
				var b strings.Builder
				for n := c.Choose(sd + 1); n > 0; n-- {
					b.WriteString(mc.Pick(c, st))
				}
				raws = append(raws, b.String())
				fmt.Fprintf(&in, "GET /p%%41th?%s HTTP/1.1\r\n\r\n", b.String())
			}
			split := c.Bool()
			key := fmt.Sprintf("%q bytewise %v", raws, split)
			c.Note("%s", key)
			conn := srv.NewConn([]byte(in.String()))
			if split {
				conn = srv.NewConn(srv.Bytewise([]byte(in.String()))...)
			}
			n := 0
			var bad error
			f := srv.Funcs{
				Request: func(r *http.Request) *http.Response {
					if r.Path != "/pAth" {
						bad = mc.Failf(key, "the path is %q", r.Path)
					}
					for _, how := range all(raws[n]) {
						if err := access(r.Query, raws[n], how); err != nil && bad == nil {
							bad = mc.Failf(key, "request %d: %s: %v", n+1, how, err)
						}
					}
					n++
					return r.Respond()
				},
				Error: func(r *http.Request, err error) *http.Response { return http.Error(r, err) },
			}
			if err := srv.Serve(srv.Config(), conn, 0, f); err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.Steps(2)
			if bad != nil {
				return bad
			}
			if n != 2 {
				return mc.Failf(key, "%d of 2 requests were served: %q", n, conn.Out.String())
			}
			return nil
		})
		// every order of magnitude of the lengths and of the number of parameters, twice on one object
		sizes := mc.Ladder(mc.Bound(r, 70000, 1<<20))
		r.Space("sizes", func(c *mc.C) error {
			n := mc.Pick(c, sizes)
			kind := c.Choose(8)
			text := strings.Repeat("abcdefg/", n/8+1)[:n]
			var raw string
			switch kind {
			case 0:
				raw = text + "=v&a=2"
			case 1:
				raw = "a=" + text + "&b=2"
			case 2:
				raw = strings.Repeat("%41", c.Choose(20)) + text + "=" + strings.Repeat("+%2B", c.Choose(9)) + text
			case 3:
				raw = "k=" + strings.Repeat("%3d%26+", n/7) + "&a=b"
			case 4:
				raw = "a=" + text + "%4"
			case 5, 6:
				if n > 1500 {
					return mc.ErrSkip
				}
				var b strings.Builder
				for i := 0; i < n; i++ {
					fmt.Fprintf(&b, "&k%d=v%d", i, i)
				}
				raw = strings.TrimPrefix(b.String(), "&")
				if kind == 6 {
					raw += "&%"
				}
			case 7:
				if n > 20000 {
					return mc.ErrSkip
				}
				raw = strings.TrimSuffix(strings.Repeat("a=b&", n), "&")
			}
			key := fmt.Sprintf("kind %d of %d", kind, n)
			c.Note("%s", key)
			q := query.New(keyvalue.NewPreAlloc(c.Choose(2) * 5))
			for _, raw := range []string{"x=y", raw, "a=%31&c", raw} {
				q.Set([]byte(raw))
				hows := all(raw)
				if len(hows) > 50 && (kind == 7 || !r.Thorough()) {
					hows = append(hows[:5:5], hows[len(hows)-2:]...)
				}
				for _, how := range hows {
					c.Step()
					if err := access(q, raw, how); err != nil {
						s := err.Error()
						if len(s) > 400 {
							s = s[:400]
						}
						return mc.Failf(key, "%.50s: %s", how, s)
					}
				}
			}
			c.State(key)
			return nil
		})
		// a long-living object: a repeating pattern of queries and accesses
		times := mc.Bound(r, 600, 5000)
		r.Space("long histories", func(c *mc.C) error {
			period := 1 + c.Choose(3)
			var qs, hs []string
			for i := 0; i < period; i++ {
				qs, hs = append(qs, mc.Pick(c, queries)), append(hs, mc.Pick(c, append([]string{""}, hows...)))
			}
			key := fmt.Sprintf("%d times %q %q", times, qs, hs)
			q := query.New(keyvalue.NewPreAlloc(3))
			for i := 0; i < times; i++ {
				c.Step()
				q.Set([]byte(qs[i%period]))
				if hs[i%period] == "" {
					continue
				}
				if err := access(q, qs[i%period], hs[i%period]); err != nil {
					return mc.Failf(key, "step %d: %v", i, err)
				}
			}
			c.State(key)
			return nil
		})
	})
}
