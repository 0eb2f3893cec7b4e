// C32: trailing slashes never matter: normalisation removes all of them, but keeps the root.
package main

import (
	"strings"

	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/router/inbuilt/uri"
)

func ref(p string) string {
	if p == "" {
		return ""
	}
	t := strings.TrimRight(p, "/")
	if t == "" {
		return "/"
	}
	return t
}

func check(c *mc.C, p string) error {
	c.Steps(2)
	c.Note("%q", p)
	got := uri.Normalize(p)
	if got != ref(p) {
		return mc.Failf("normalize:"+p, "Normalize(%q) = %q, want %q", p, got, ref(p))
	}
	if again := uri.Normalize(got); again != got {
		return mc.Failf("idempotent:"+p, "Normalize(%q) = %q", got, again)
	}
	c.State(got)
	return nil
}

func main() {
	mc.Main("C32", func(r *mc.R) {
		depth := mc.Bound(r, 9, 12)
		r.Space("all-paths", func(c *mc.C) error {
			n := c.Choose(depth + 1)
			b := make([]byte, n)
			for i := range b {
				b[i] = "/a.%"[c.Choose(4)]
			}
			return check(c, string(b))
		})
		r.Space("all-bytes", func(c *mc.C) error {
			b := []byte{'/', byte(c.Choose(256)), byte(c.Choose(256))}
			return check(c, string(b[c.Choose(2):])+strings.Repeat("/", c.Choose(4)))
		})
		r.Space("sizes", func(c *mc.C) error {
			sizes := mc.Ladder(mc.Bound(r, 5000, 70000))
			return check(c, mc.Pick(c, []string{"", "/", "//", "/a"})+strings.Repeat(mc.Pick(c, []string{"x", "x/", "/"}), mc.Pick(c, sizes))+strings.Repeat("/", mc.Pick(c, sizes)))
		})
		r.Space("long", func(c *mc.C) error {
			return check(c, strings.Repeat("/", c.Choose(40))+strings.Repeat("x/y", c.Choose(40))+strings.Repeat("/", c.Choose(40)))
		})
	})
}
