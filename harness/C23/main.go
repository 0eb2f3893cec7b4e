// C23: the length-bucketed string map behaves as a map in which the first insertion of a key wins.
package main

import (
	"fmt"
	"strings"

	"github.com/indigo-web/indigo/internal/strlenmap"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
)

func compare(c *mc.C, m *strlenmap.Map[int], model map[string]int, probes []string, hist string) error {
	for _, k := range probes {
		c.Step()
		v, ok := m.Get(k)
		want, has := model[k]
		if ok != has || v != want {
			return mc.Failf("get:"+hist+"?"+k, "after inserting %s, Get(%q) = %d, %v; want %d, %v", hist, k, v, ok, want, has)
		}
	}
	return nil
}

func main() {
	mc.Main("C23", func(r *mc.R) {
		keys := []string{"", "a", "b", "A", "aa", "ab", "ba", "abc", "abd", "aaaaaaaaa"}
		probes := append([]string{"c", "aA", "abcd", "aaaaaaaaaa", "aaaaaaaab", "\x00", "ab\x00"}, keys...)
		depth := mc.Bound(r, 6, 7)
		r.Space("insert-histories", func(c *mc.C) error {
			m := strlenmap.New[int]()
			model := map[string]int{}
			hist := ""
			for i := 0; i < depth; i++ {
				if err := compare(c, m, model, probes, hist); err != nil {
					return err
				}
				k := mc.Pick(c, keys)
				hist += fmt.Sprintf("(%q,%d)", k, i+1)
				m.Insert(k, i+1)
				c.Step()
				if _, has := model[k]; !has {
					model[k] = i + 1
				}
				c.State(fmt.Sprint(model))
			}
			c.Note("%s", hist)
			return compare(c, m, model, probes, hist)
		})
		// long keys, and many of them, of one length and of different ones
		r.Space("sizes", func(c *mc.C) error {
			m := strlenmap.New[int]()
			model := map[string]int{}
			hist := ""
			var probes []string
			for i := 0; i < 2; i++ {
				k := strings.Repeat("k", mc.Pick(c, mc.Ladder(70000)))
				if c.Bool() {
					k += "z"
				}
				hist += fmt.Sprintf("(len %d,%d)", len(k), i+1)
				m.Insert(k, i+1)
				if _, has := model[k]; !has {
					model[k] = i + 1
				}
				probes = append(probes, k, k+"k", k+"x", strings.Replace(k, "k", "x", 1))
				if len(k) > 0 {
					probes = append(probes, k[1:], k[:len(k)-1], k[:len(k)-1]+"x", "x"+k[1:])
				}
			}
			c.State(hist)
			return compare(c, m, model, probes, hist)
		})
		r.Space("many", func(c *mc.C) error {
			m := strlenmap.New[int]()
			model := map[string]int{}
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 1100, 5000)))
			how := c.Choose(4)
			var probes []string
			for i := 0; i < n; i++ {
				k := ""
				switch how {
				case 0:
					k = fmt.Sprintf("%06d", i)
				case 1:
					k = fmt.Sprintf("%06d", n-i)
				case 2:
					k = strings.Repeat("a", i%50) + fmt.Sprint(i*7919%1000)
				case 3:
					k = fmt.Sprint(i % 17)
				}
				m.Insert(k, i+1)
				if _, has := model[k]; !has {
					model[k] = i + 1
				}
				probes = append(probes, k, k+"0")
			}
			c.State(fmt.Sprint(n, how))
			return compare(c, m, model, probes, fmt.Sprintf("%d keys, %d", n, how))
		})
		// every length, inserted in any order of three
		top := mc.Bound(r, 40, 70)
		r.Space("lengths", func(c *mc.C) error {
			m := strlenmap.New[int]()
			model := map[string]int{}
			hist := ""
			var probes []string
			for i := 0; i < 3; i++ {
				k := strings.Repeat("k", c.Choose(top))
				hist += fmt.Sprintf("(len %d,%d)", len(k), i+1)
				m.Insert(k, i+1)
				if _, has := model[k]; !has {
					model[k] = i + 1
				}
				probes = append(probes, k, k+"k", k+"x", strings.Replace(k, "k", "x", 1))
			}
			c.State(hist)
			return compare(c, m, model, probes, hist)
		})
	})
}
