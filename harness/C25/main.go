// C25: method and protocol tokens are recognised exactly, and are rendered back as they came.
package main

import (
	"fmt"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/method"
	"github.com/indigo-web/indigo/http/proto"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
)

var names = []string{"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH"}

var methods = map[string]method.Method{
	"GET": method.GET, "HEAD": method.HEAD, "POST": method.POST, "PUT": method.PUT, "DELETE": method.DELETE,
	"CONNECT": method.CONNECT, "OPTIONS": method.OPTIONS, "TRACE": method.TRACE, "PATCH": method.PATCH,
}

func checkMethod(c *mc.C, s string) error {
	c.Step()
	want := methods[s] // Unknown if absent
	if got := method.Parse(s); got != want {
		return mc.Failf("method:"+s, "Parse(%q) = %v, want %v", s, got, want)
	}
	return nil
}

func checkProto(c *mc.C, s string) error {
	c.Step()
	want := proto.Unknown
	switch s {
	case "HTTP/1.0":
		want = proto.HTTP10
	case "HTTP/1.1":
		want = proto.HTTP11
	case "HTTP/2.0":
		want = proto.HTTP2
	}
	if got := proto.FromBytes([]byte(s)); got != want {
		return mc.Failf("proto:"+s, "FromBytes(%q) = %v, want %v", s, got, want)
	}
	return nil
}

// near enumerates everything within one edit (any byte) of the given strings.
func near(c *mc.C, base []string) string {
	s := mc.Pick(c, base)
	switch c.Choose(5) {
	case 0:
		return s
	case 1: // replace
		i := c.Choose(len(s))
		return s[:i] + string([]byte{byte(c.Choose(256))}) + s[i+1:]
	case 2: // insert
		i := c.Choose(len(s) + 1)
		return s[:i] + string([]byte{byte(c.Choose(256))}) + s[i:]
	case 3: // delete a range
		i := c.Choose(len(s))
		j := i + 1 + c.Choose(len(s)-i)
		return s[:i] + s[j:]
	default: // change the case of any subset
		mask := c.Choose(1 << len(s))
		b := []byte(s)
		for i := range b {
			if mask&(1<<i) != 0 {
				b[i] ^= 0x20
			}
		}
		return string(b)
	}
}

func main() {
	mc.Main("C25", func(r *mc.R) {
		letters := "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
		r.Space("method-words", func(c *mc.C) error {
			n := c.Choose(mc.Bound(r, 5, 6))
			b := make([]byte, n)
			for i := range b {
				b[i] = letters[c.Choose(len(letters))]
			}
			return checkMethod(c, string(b))
		})
		// words made of the letters the long names are made of
		r.Space("method-neighbours", func(c *mc.C) error {
			s := near(c, names)
			c.State(s)
			return checkMethod(c, s)
		})
		r.Space("method-pairs", func(c *mc.C) error {
			a, b := mc.Pick(c, names), mc.Pick(c, names)
			i, j := c.Choose(len(a)+1), c.Choose(len(b)+1)
			s := a[:i] + b[j:]
			c.State(s)
			return checkMethod(c, s)
		})
		r.Space("method-values", func(c *mc.C) error {
			v := c.Choose(256)
			c.Step()
			s := method.Method(v).String()
			c.State(s)
			if v == int(method.Unknown) || v > len(names) {
				if method.Parse(s) != method.Unknown {
					return mc.Failf("value", "the value %d is rendered as the real method %q", v, s)
				}
				return nil
			}
			if m, ok := methods[s]; !ok || m != method.Method(v) || method.Parse(s) != m {
				return mc.Failf("value", "the value %d is rendered as %q, which is parsed as %v", v, s, method.Parse(s))
			}
			if method.List[v-1] != method.Method(v) {
				return mc.Failf("list", "List[%d] is %v, want %v", v-1, method.List[v-1], method.Method(v))
			}
			return nil
		})
		r.Space("method-constants", func(c *mc.C) error {
			c.Step()
			if len(method.List) != len(names) || int(method.Count) != len(names) {
				return mc.Failf("list", "List has %d methods, Count is %d, want %d", len(method.List), method.Count, len(names))
			}
			for n, m := range methods {
				if m.String() != n {
					return mc.Failf("name", "%s is rendered as %q", n, m)
				}
			}
			return nil
		})
		r.Space("proto-neighbours", func(c *mc.C) error {
			s := near(c, []string{"HTTP/1.0", "HTTP/1.1", "HTTP/2.0", "HTTP/0.9", "HTTP/1.9"})
			c.State(s)
			return checkProto(c, s)
		})
		r.Space("proto-versions", func(c *mc.C) error {
			a, b := byte(c.Choose(256)), byte(c.Choose(256))
			c.Step()
			if err := checkProto(c, "HTTP/"+string([]byte{a})+"."+string([]byte{b})); err != nil {
				return err
			}
			want := proto.Unknown
			switch [2]byte{a, b} {
			case [2]byte{1, 0}:
				want = proto.HTTP10
			case [2]byte{1, 1}:
				want = proto.HTTP11
			case [2]byte{2, 0}:
				want = proto.HTTP2
			}
			if got := proto.Parse(a, b); got != want {
				return mc.Failf("version", "Parse(%d, %d) = %v, want %v", a, b, got, want)
			}
			return nil
		})
		r.Space("proto-values", func(c *mc.C) error {
			v := proto.Proto(c.Choose(256))
			c.Step()
			want := map[proto.Proto]string{proto.HTTP10: "HTTP/1.0 ", proto.HTTP11: "HTTP/1.1 ", proto.HTTP2: "HTTP/2 "}[v]
			if got := v.String(); got != want {
				return mc.Failf("render", "protocol %d is rendered as %q, want %q", v, got, want)
			}
			return nil
		})
		toks := []string{"h2c", "H2C", "http/1.1", "HTTP/1.1", "http/1.0", "HTTP/1.0", "websocket", "h2", "", "HTTP/2.0", "TLS/1.0"}
		pads := []string{"", " ", "  ", "\t"}
		r.Space("upgrade-lists", func(c *mc.C) error {
			n := 1 + c.Choose(3)
			var parts []string
			want := proto.Unknown
			for i := 0; i < n; i++ {
				tok := mc.Pick(c, toks)
				parts = append(parts, mc.Pick(c, pads)+tok+mc.Pick(c, pads))
				if want == proto.Unknown {
					switch strings.ToLower(tok) {
					case "h2c":
						want = proto.HTTP2
					case "http/1.1":
						want = proto.HTTP11
					case "http/1.0":
						want = proto.HTTP10
					}
				}
			}
			line := strings.Join(parts, ",")
			c.Note("Upgrade: %s", line)
			c.Step()
			c.State(fmt.Sprint(want, n))
			if got := proto.ChooseUpgrade(line); got != want {
				return mc.Failf("upgrade:"+line, "ChooseUpgrade(%q) = %v, want %v", line, got, want)
			}
			return nil
		})
		// names with others inside, repeated or padded to any length
		r.Space("lengths", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 5000, 70000)))
			m := mc.Pick(c, names)
			fill := mc.Pick(c, []string{"\x00", " ", "A", m})
			pad := strings.Repeat(fill, n)
			v := mc.Pick(c, []string{"HTTP/1.0", "HTTP/1.1", "HTTP/2.0"})
			for _, s := range []string{m + pad, pad + m, m[:1] + pad + m[1:], pad} {
				if err := checkMethod(c, s); err != nil {
					return err
				}
			}
			for _, s := range []string{v + pad, pad + v, v[:5] + pad + v[5:], v + strings.Repeat(v, n), pad} {
				if err := checkProto(c, s); err != nil {
					return err
				}
			}
			c.State(fmt.Sprint(n, m, fill, v))
			return nil
		})
		upgrade := func(s string) proto.Proto {
			for _, tok := range strings.Split(s, ",") {
				switch strings.ToLower(strings.Trim(tok, " \t")) {
				case "h2c":
					return proto.HTTP2
				case "http/1.1":
					return proto.HTTP11
				case "http/1.0":
					return proto.HTTP10
				}
			}
			return proto.Unknown
		}
		r.Space("upgrade-neighbours", func(c *mc.C) error {
			s := near(c, []string{"h2c", "http/1.1", "HTTP/1.0", "http/1.0", "HTTP/1.1"})
			for _, b := range []byte(s) {
				if (b < 0x20 || b > 0x7e) && b != '\t' {
					return mc.ErrSkip
				}
			}
			s = mc.Pick(c, []string{"", "a,", "websocket , ", "h2,"}) + s + mc.Pick(c, []string{"", ",x", " , HTTP/1.1"})
			if strings.ContainsAny(s, "@[") && strings.Contains(strings.ToLower(s), "http") {
				return mc.ErrSkip // not tokens; how they're compared is of no matter
			}
			for _, tok := range strings.Split(s, ",") {
				if tok = strings.Trim(tok, " \t"); upgrade(tok) != proto.Unknown && tok != strings.ToLower(tok) && tok != strings.ToUpper(tok) {
					return mc.ErrSkip // mixed letters may be recognised or not
				}
			}
			c.Step()
			c.State(s)
			c.Note("%q", s)
			if got := proto.ChooseUpgrade(s); got != upgrade(s) {
				return mc.Failf("upgrade:"+s, "ChooseUpgrade(%q) = %v, want %v", s, got, upgrade(s))
			}
			return nil
		})
		r.Space("upgrade-lengths", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 3000, 70000)))
			tok := mc.Pick(c, []string{"h2c", "HTTP/1.1", "http/1.0", "none"})
			filler := mc.Pick(c, []string{"x", "websocket", "h2", "", "HTTP/1.2", "h2cc"})
			var s string
			switch c.Choose(4) {
			case 0:
				s = strings.Repeat(filler+",", n) + tok
			case 1:
				s = strings.Repeat(filler, n) + "," + tok + ",y"
			case 2:
				s = strings.Repeat(" ", n) + tok + strings.Repeat("\t", n) + "," + filler
			case 3:
				s = tok + "," + strings.Repeat(filler+", ", n)
			}
			c.Step()
			c.State(fmt.Sprint(n, tok, filler, s[:min(len(s), 5)]))
			if got := proto.ChooseUpgrade(s); got != upgrade(s) {
				return mc.Failf(fmt.Sprintf("upgrade:%.60q of %d bytes", s, len(s)), "it is %v, want %v", got, upgrade(s))
			}
			return nil
		})
		// as requests
		r.Space("requests", func(c *mc.C) error {
			m, v := "GET", "HTTP/1.1"
			if c.Bool() {
				m = near(c, names)
			} else {
				v = near(c, []string{"HTTP/1.0", "HTTP/1.1", "HTTP/2.0"})
			}
			if m == "" || strings.ContainsAny(m+v, " \r\n\x00") {
				return mc.ErrSkip
			}
			raw := m + " / " + v + "\r\nConnection: keep-alive\r\n\r\nGET /n HTTP/1.1\r\n\r\n"
			key := fmt.Sprintf("%q", raw)
			c.Note("%s", key)
			var seen []string
			err := srv.Serve(srv.Config(), srv.NewConn([]byte(raw)), 0, srv.Funcs{
				Request: func(r *http.Request) *http.Response {
					seen = append(seen, r.Method.String()+" "+strings.TrimSpace(r.Proto.String()))
					return r.Respond()
				},
				Error: func(r *http.Request, err error) *http.Response { return http.Error(r, err) },
			})
			c.Step()
			c.State(key)
			if err != nil {
				return mc.Failf(key, "%v", err)
			}
			good := methods[m] != method.Unknown && (v == "HTTP/1.0" || v == "HTTP/1.1")
			if v == "HTTP/2.0" {
				// over HTTP/1 it may be refused or not
				return nil
			}
			want := "[]"
			if good {
				want = fmt.Sprint([]string{m + " " + v, "GET HTTP/1.1"})
			}
			if got := fmt.Sprint(seen); got != want {
				return mc.Failf(key, "handlers saw %s, want %s", got, want)
			}
			return nil
		})
	})
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
