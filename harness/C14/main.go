// C14: header value helpers extract the right parts of a value.
package main

import (
	"fmt"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/headers"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
)

// param is the specification: the value of the first parameter of the name.
func param(s, key string) (string, bool) {
	parts := strings.Split(s, ";")
	for _, p := range parts[1:] {
		p = strings.TrimLeft(p, " \t")
		if k, v, ok := strings.Cut(p, "="); ok && k == key {
			return v, true
		}
	}
	return "", false
}

func check(c *mc.C, s string, keys []string) error {
	name := fmt.Sprintf("%q", s)
	c.Note("%s", name)
	c.Steps(4)
	c.State(name)
	if got, want := headers.ValueOf(s), strings.Split(s, ";")[0]; got != want {
		return mc.Failf(name, "ValueOf is %q, not %q", got, want)
	}
	for _, k := range keys {
		want, ok := param(s, k)
		if got := headers.ParamOf(s, k); got != want {
			return mc.Failf(name, "ParamOf(%q) is %q, not %q", k, got, want)
		}
		if !ok {
			want = "default"
		}
		if got := headers.ParamOfOr(s, k, "default"); got != want {
			return mc.Failf(name, "ParamOfOr(%q) is %q, not %q", k, got, want)
		}
	}
	want, ok := param(s, "charset")
	if !ok {
		want = "iso-8859-1"
	}
	if got := headers.CharsetOf(s); got != want {
		return mc.Failf(name, "CharsetOf is %q, not %q", got, want)
	}
	// only weights of one digit, or none at all, are specified
	q, ok := param(s, "q")
	switch {
	case !ok:
		if got := headers.QualityOf(s); got != 9 {
			return mc.Failf(name, "QualityOf is %d, not the default", got)
		}
	case len(q) == 3 && q[:2] == "0." && q[2] >= '0' && q[2] <= '9':
		if got := headers.QualityOf(s); got != int(q[2]-'0') {
			return mc.Failf(name, "QualityOf is %d, not %c", got, q[2])
		}
	}
	return nil
}

func main() {
	mc.Main("C14", func(r *mc.R) {
		r.Assume("weights other than 0. followed by a single digit are not specified; names of parameters are compared exactly")
		tokens := []string{"k", "v", ";", "=", " ", "q=0.", "5", "charset", "kk", ",", "; ", "\t"}
		depth := mc.Bound(r, 6, 7)
		r.Space("values", func(c *mc.C) error {
			var b strings.Builder
			for n := c.Choose(depth + 1); n > 0; n-- {
				b.WriteString(mc.Pick(c, tokens))
			}
			return check(c, b.String(), []string{"k", "v", "kk", "q"})
		})
		r.Space("bytes", func(c *mc.C) error {
			x, y := string([]byte{byte(c.Choose(256))}), string([]byte{byte(c.Choose(256))})
			return check(c, mc.Pick(c, []string{x + y, "a;k=" + x + y, "a;" + x + "k=" + y, "a;k" + x + "=" + y + ";k=z", "a;x=" + x + ";" + y + "k=1"}), []string{"k", "x"})
		})
		params := []string{"", "charset=utf-8", "charset=", "q=0.0", "q=0.9", "q=0.5", "k=1", "k=2", "xcharset=n", "xq=0.1", "k", "charsets=no", "qq=0.2"}
		r.Space("parameters", func(c *mc.C) error {
			s := mc.Pick(c, []string{"text/html", "", "charset=x", "q=0.3"})
			for n := c.Choose(5); n > 0; n-- {
				s += mc.Pick(c, []string{";", "; "}) + mc.Pick(c, params)
			}
			return check(c, s, []string{"k", "charset", "q", "xq"})
		})
		// escaping
		special := map[byte]byte{0: '0', 7: 'a', 8: 'b', 9: 't', 10: 'n', 11: 'v', 12: 'f', 13: 'r'}
		escape := func(c *mc.C, s string) error {
			key := fmt.Sprintf("Escape(%q)", s)
			if len(s) > 60 {
				key = fmt.Sprintf("Escape(%q) of %d bytes", s[:60], len(s))
			}
			c.Note("%s", key)
			keep := strings.Clone(s)
			got := http.Escape(s)
			c.Step()
			c.State(key)
			var want []byte
			for i := 0; i < len(s); i++ {
				if s[i] >= 0x20 && s[i] <= 0x7e {
					want = append(want, s[i])
				} else if e, ok := special[s[i]]; ok {
					want = append(want, '\\', e)
				} else {
					want = append(want, '\\', '?')
				}
			}
			if got != string(want) {
				return mc.Failf(key, "it gives %q, not %q", got, want)
			}
			if s != keep {
				return mc.Failf(key, "the input was changed")
			}
			return nil
		}
		r.Space("escape pairs", func(c *mc.C) error {
			x, y := string([]byte{byte(c.Choose(256))}), string([]byte{byte(c.Choose(256))})
			return escape(c, mc.Pick(c, []string{x + y, "/p" + x + "q" + y, "/" + x + x + y + "tail"}))
		})
		bytes := []string{"/", "a", "\n", "\x00", "\x7f", "\xe2\x82\xac", "\\", "\x1f"}
		r.Space("escape strings", func(c *mc.C) error {
			var b strings.Builder
			for n := c.Choose(mc.Bound(r, 7, 8)); n > 0; n-- {
				b.WriteString(mc.Pick(c, bytes))
			}
			return escape(c, b.String())
		})
		r.Space("escape lengths", func(c *mc.C) error {
			n := c.Choose(100)
			s := strings.Repeat("x", n)
			i := c.Choose(n + 1)
			s = s[:i] + mc.Pick(c, []string{"\r\n", "\x01", "\xff\xff\xff", strings.Repeat("\n", 30)}) + s[i:]
			return escape(c, s)
		})
		// long values, and many parameters
		r.Space("sizes", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 2000, 70000)))
			long := strings.Repeat("abcdefghij", n/10+1)[:n]
			p := mc.Pick(c, []string{"k=1", "charset=utf-8", "q=0.4", "k=" + long, "charset=" + long})
			sep := mc.Pick(c, []string{";", "; ", ";\t "})
			var s string
			switch c.Choose(5) {
			case 0:
				s = long + sep + p
			case 1:
				s = "v" + sep + "x=" + long + sep + p + sep + "y=z"
			case 2:
				s = "v" + strings.Repeat(sep+"x=y", n) + sep + p + sep + "k=3"
			case 3:
				s = "v" + strings.Repeat(sep, n) + p
			case 4:
				s = "v" + sep + long + p + sep + long + "=5"
			}
			return check(c, s, []string{"k", "x", "charset", long})
		})
		r.Space("escape sizes", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 70000, 1<<20)))
			x := mc.Pick(c, []string{"x", "\n", "\xff", "/\x00", "/abcdef\r"})
			s := strings.Repeat(x, n/len(x)+1)[:n]
			return escape(c, mc.Pick(c, []string{"", "\n", "a"})+s+mc.Pick(c, []string{"", "\n", "a"}))
		})
	})
}
