// C13: header and parameter storage is an ordered, case-insensitive multimap.
package main

import (
	"fmt"
	"strings"

	"github.com/indigo-web/indigo/http/headers"
	"github.com/indigo-web/indigo/internal/keyvalue"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
)

type pair struct{ k, v string }

func list(s *keyvalue.Storage) (ps []pair) {
	for _, p := range s.Unwrap() {
		ps = append(ps, pair{p.Key, p.Value})
	}
	return ps
}

func eq(a, b string) bool { return strings.ToLower(a) == strings.ToLower(b) }

func str(x any) string { return fmt.Sprintf("%q", x) }

// check asks everything; the answers must be those of the list of pairs.
func check(c *mc.C, s *keyvalue.Storage, ref []pair, names []string) error {
	c.Step()
	if s.Len() != len(ref) {
		return fmt.Errorf("the length is %d, not %d", s.Len(), len(ref))
	}
	if str(list(s)) != str(ref) {
		return fmt.Errorf("the pairs are %q, not %q", list(s), ref)
	}
	it := s.Iter()
	for i := 0; ; i++ {
		p, ok := it.Next()
		if !ok {
			if i != len(ref) {
				return fmt.Errorf("the iterator ends after %d of %d pairs", i, len(ref))
			}
			break
		}
		if i >= len(ref) || ref[i] != (pair{p.Key, p.Value}) {
			return fmt.Errorf("the iterator gives %q at %d", p, i)
		}
	}
	var keys []string
next:
	for _, p := range ref {
		for _, k := range keys {
			if eq(k, p.k) {
				continue next
			}
		}
		keys = append(keys, p.k)
	}
	if got := s.Keys(); str([]string(got)) != str(keys) && len(got)+len(keys) > 0 {
		return fmt.Errorf("the keys are %q, not %q", got, keys)
	}
	for _, n := range names {
		var vs []string
		for _, p := range ref {
			if eq(p.k, n) {
				vs = append(vs, p.v)
			}
		}
		if got := s.Values(n); str(got) != str(vs) || len(vs) == 0 && got != nil {
			return fmt.Errorf("Values(%q) is %q, not %q", n, got, vs)
		}
		if s.Has(n) != (len(vs) > 0) {
			return fmt.Errorf("Has(%q) is %v", n, s.Has(n))
		}
		first, or := "", "or"
		if len(vs) > 0 {
			first, or = vs[0], vs[0]
		}
		if v, ok := s.Get(n); v != first || ok != (len(vs) > 0) {
			return fmt.Errorf("Get(%q) is %q, %v", n, v, ok)
		}
		if v := s.Value(n); v != first {
			return fmt.Errorf("Value(%q) is %q", n, v)
		}
		if v := s.ValueOr(n, "or"); v != or {
			return fmt.Errorf("ValueOr(%q) is %q", n, v)
		}
	}
	return nil
}

func main() {
	mc.Main("C13", func(r *mc.R) {
		r.Assume("names are compared by ASCII letter case")
		names := []string{"a", "A", "b", "aB", "Ab", "", "a-"}
		names2 := append([]string{"B", "AB", "ab", "A-", "zz", "-a"}, names...)
		probe := names2
		depth := mc.Bound(r, 6, 7)
		// operations: add one of the names with one of two values, clear, clone and go on with the clone
		// (the original must keep its content), clone and go on with the original (the clone must)
		r.Space("operations", func(c *mc.C) error {
			s := keyvalue.NewPreAlloc(c.Choose(2) * 3)
			var ref []pair
			type snap struct {
				s   *keyvalue.Storage
				ref []pair
			}
			var snaps []snap
			key := ""
			add := names[:4]
			probe := names2
			for i := 0; i < depth; i++ {
				n := c.Choose(len(add) + 5)
				switch {
				case n < len(add):
					v := fmt.Sprint("v", i)
					if s.Add(add[n], v) != s {
						return mc.Failf(key, "Add does not return the storage")
					}
					ref = append(ref[:len(ref):len(ref)], pair{add[n], v})
					key += fmt.Sprintf("Add(%q) ", add[n])
				case n == len(add):
					if s.Clear() != s {
						return mc.Failf(key, "Clear does not return the storage")
					}
					ref = nil
					key += "Clear "
				case n == len(add)+1:
					cl := s.Clone()
					snaps = append(snaps, snap{s, ref})
					s = cl
					key += "Clone* "
				case n == len(add)+2:
					snaps = append(snaps, snap{s.Clone(), ref})
					key += "Clone "
				case n >= len(add)+3:
					look := []string{"a", "aB"}[n-len(add)-3]
					_, _, _ = s.Keys(), s.Values(look), s.ValueOr(look, "or")
					_, _ = s.Get(look)
					_ = s.Has(look)
					// and that is what is asked first in the end
					probe = append([]string{look}, names2...)
					key += fmt.Sprintf("Look(%q) ", look)
				}
			}
			c.Note("%s", key)
			if err := check(c, s, ref, probe); err != nil {
				return mc.Failf(key, "%v", err)
			}
			for _, sn := range snaps {
				if err := check(c, sn.s, sn.ref, probe); err != nil {
					return mc.Failf(key, "clone or original: %v", err)
				}
			}
			c.State(fmt.Sprintf("%q", ref))
			return nil
		})
		r.Space("names", func(c *mc.C) error {
			s := headers.NewPrealloc(c.Choose(2))
			var ref []pair
			key := ""
			for n := c.Choose(6); n > 0; n-- {
				k, v := mc.Pick(c, names), ""
				if c.Bool() {
					v = fmt.Sprint("v", n)
				}
				s.Add(k, v)
				ref = append(ref, pair{k, v})
				key += fmt.Sprintf("%q=%q ", k, v)
			}
			c.Note("%s", key)
			c.State(key)
			if err := check(c, s, ref, probe); err != nil {
				return mc.Failf(key, "%v", err)
			}
			return nil
		})
		r.Space("letter case", func(c *mc.C) error {
			// every pair of bytes: equal exactly if the same letter
			x, y := byte(c.Choose(256)), byte(c.Choose(256))
			pre := mc.Pick(c, []string{"", "x", "abcdefg"})
			a, b := pre+string([]byte{x}), pre+string([]byte{y})
			low := func(b byte) byte {
				if b >= 'A' && b <= 'Z' {
					return b + 32
				}
				return b
			}
			if x >= 0x80 || y >= 0x80 || x < 0x20 || y < 0x20 {
				// no letters; only tokens matter
				if x != y {
					return mc.ErrSkip
				}
			}
			if !token(x) || !token(y) {
				return mc.ErrSkip
			}
			s := headers.New().Add(a, "1")
			c.Step()
			c.State(a + b)
			if want := low(x) == low(y); s.Has(b) != want || (s.Value(b) == "1") != want {
				return mc.Failf(fmt.Sprintf("%q %q", a, b), "Has is %v", s.Has(b))
			}
			return nil
		})
		r.Space("clones own their memory", func(c *mc.C) error {
			// strings of requests live in buffers that are reused
			buf := []byte("keyvalue")
			s := keyvalue.New()
			key, val := unsafeString(buf[:3]), unsafeString(buf[3:])
			n := 1 + c.Choose(3)
			for i := 0; i < n; i++ {
				s.Add(key, val)
			}
			cl := s.Clone()
			copy(buf, "XXXXXXXX")
			c.Step()
			for _, p := range cl.Unwrap() {
				if p.Key != "key" || p.Value != "value" {
					return mc.Failf("reused buffer", "the clone holds %q", p)
				}
			}
			if cl.Len() != n {
				return mc.Failf("reused buffer", "the clone holds %d pairs", cl.Len())
			}
			return nil
		})
		r.Space("from maps", func(c *mc.C) error {
			m := map[string][]string{}
			for _, k := range []string{"a", "B", "cc"} {
				n := c.Choose(4)
				for i := 0; i < n; i++ {
					m[k] = append(m[k], fmt.Sprint(k, i))
				}
			}
			key := fmt.Sprint(m)
			for _, s := range []*keyvalue.Storage{keyvalue.NewFromMap(m), headers.NewFromMap(m)} {
				c.Step()
				total := 0
				for k, vs := range m {
					total += len(vs)
					if str(s.Values(strings.ToUpper(k))) != str(vs) {
						return mc.Failf(key, "the values of %s are %q", k, s.Values(k))
					}
				}
				if s.Len() != total {
					return mc.Failf(key, "%d pairs", s.Len())
				}
			}
			c.State(key)
			return nil
		})
		// many pairs, several times over
		r.Space("many pairs", func(c *mc.C) error {
			s := keyvalue.NewPreAlloc(mc.Pick(c, []int{0, 10, 1000}))
			sizes := mc.Ladder(mc.Bound(r, 300, 1100))
			shape := mc.Pick(c, []string{"distinct", "same", "two", "long"})
			name := func(i int) string {
				switch shape {
				case "distinct":
					return fmt.Sprint("Name", i)
				case "same":
					return []string{"a", "A"}[i%2]
				case "two":
					return []string{"aB", "Cd", "Ab"}[i%3]
				}
				return strings.Repeat("n", i) + "Z"
			}
			key := shape
			var ref []pair
			for round := 0; round < 2; round++ {
				n := mc.Pick(c, sizes)
				key += fmt.Sprint(" ", n)
				s.Clear()
				ref = nil
				for i := 0; i < n; i++ {
					v := fmt.Sprint(round, i)
					s.Add(name(i), v)
					ref = append(ref, pair{name(i), v})
				}
			}
			c.Note("%s", key)
			c.State(key)
			probe := []string{"a", "A", "ab", "cd", "zz", "name0", "NAME7", "name299", "name300", "z", strings.Repeat("N", 31) + "z", strings.Repeat("n", 32) + "z", strings.Repeat("n", 64) + "y", strings.Repeat("n", 255) + "z"}
			if err := check(c, s, ref, probe); err != nil {
				return mc.Failf(key, "%v", err)
			}
			cl := s.Clone()
			s.Clear().Add("other", "x")
			if err := check(c, cl, ref, probe); err != nil {
				return mc.Failf(key, "clone: %v", err)
			}
			if err := check(c, s, []pair{{"other", "x"}}, probe); err != nil {
				return mc.Failf(key, "after clearing: %v", err)
			}
			return nil
		})
		// the same name at two or three places, far apart
		r.Space("duplicates", func(c *mc.C) error {
			places := mc.Ladder(mc.Bound(r, 140, 520))
			n := mc.Pick(c, places)
			i, j := mc.Pick(c, places), mc.Pick(c, places)
			third := c.Choose(3)
			if i >= n || j >= n || i > j {
				return mc.ErrSkip
			}
			k := []int{-1, (i + j) / 2, n - 1}[third]
			s := keyvalue.New()
			var ref []pair
			for x := 0; x < n; x++ {
				name := fmt.Sprint("Name", x)
				switch x {
				case i:
					name = "Twice"
				case j:
					name = "tWICE"
				case k:
					name = "twice"
				}
				s.Add(name, fmt.Sprint("v", x))
				ref = append(ref, pair{name, fmt.Sprint("v", x)})
			}
			key := fmt.Sprintf("%d pairs, the same name at %d, %d, %d", n, i, j, k)
			c.Note("%s", key)
			c.State(key)
			for round := 0; round < 2; round++ {
				if err := check(c, s, ref, []string{"twice", "TWICE", "name0", "Name100", fmt.Sprint("name", n-1), "none"}); err != nil {
					return mc.Failf(key, "%v", err)
				}
			}
			return nil
		})
		// names which differ at one place only, whatever their length
		r.Space("long names", func(c *mc.C) error {
			n := 1 + c.Choose(mc.Bound(r, 70, 300))
			at := c.Choose(n)
			b := []byte(strings.Repeat("Header-Name", n/11+1)[:n])
			a := string(b)
			x := b[at]
			b[at] = mc.Pick(c, []byte{x ^ 0x20, x + 1, '-', '0'})
			same := b[at] == x || x != '-' && b[at] == x^0x20
			if !token(b[at]) {
				return mc.ErrSkip
			}
			key := fmt.Sprintf("%q %q", a, b)
			c.Note("%s", key)
			s := headers.New().Add(a, "1").Add(string(b), "2")
			ref := []pair{{a, "1"}, {string(b), "2"}}
			c.Step()
			c.State(key)
			if got := len(s.Values(a)); (got == 2) != same {
				return mc.Failf(key, "%d values", got)
			}
			if !same {
				if err := check(c, s, ref, []string{a, string(b), strings.ToUpper(a), strings.ToLower(string(b)), a[:n-1], a + "x"}); err != nil {
					return mc.Failf(key, "%v", err)
				}
			}
			return nil
		})
	})
}

func token(b byte) bool {
	return b > 0x20 && b < 0x7f && !strings.ContainsRune("\"(),/:;<=>?@[\\]{}", rune(b))
}
