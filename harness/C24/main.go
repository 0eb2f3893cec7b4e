// C24: content codings are dispatched to exactly the coding registered for the token.
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/indigo-web/indigo/http/coding"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
)

var errCoding = errors.New("coding failed")

type fake struct {
	token string
	tag   byte
	buff  []byte
	calls *[]string
	fail  bool
}

func (f *fake) Token() string { return f.token }
func (f *fake) Encode(in []byte) ([]byte, error) {
	*f.calls = append(*f.calls, fmt.Sprintf("enc%c(%s)", f.tag, in))
	if f.fail {
		return nil, errCoding
	}
	return append([]byte{f.tag}, in...), nil
}
func (f *fake) Decode(in []byte) ([]byte, error) {
	*f.calls = append(*f.calls, fmt.Sprintf("dec%c(%s)", f.tag, in))
	if f.fail || in[0] != f.tag {
		return nil, errCoding
	}
	return in[1:], nil
}

func main() {
	mc.Main("C24", func(r *mc.R) {
		tokens := []string{"gzip", "compress", "x-gzip", "x-compress", "br", "deflate", "identity", "GZIP"}
		asked := append([]string{"", "zstd", "x-br", "gzi", "gzip "}, tokens...)
		depth := mc.Bound(r, 4, 5)
		r.Space("registrations", func(c *mc.C) error {
			size := []int64{0, 1, 64, 4096}[c.Choose(4)]
			m := coding.NewManager(size)
			use := m // a manager is passed by value
			var calls []string
			var all []*fake
			model := map[string]*fake{}
			hist := ""
			n := c.Choose(depth + 1)
			for i := 0; i < n; i++ {
				f := &fake{token: mc.Pick(c, tokens), tag: byte('A' + i), calls: &calls, fail: i == 1 && c.Bool()}
				hist += fmt.Sprintf("%s=%c ", f.token, f.tag)
				m.AddCoding(func(buff []byte) coding.Coding { f.buff = buff; return f })
				c.Step()
				if int64(len(f.buff)) != size {
					return mc.Failf("buffer:"+hist, "the coding was given %d bytes, configured %d", len(f.buff), size)
				}
				full := f.buff[:cap(f.buff)]
				for i := range full {
					full[i] = f.tag
				}
				all = append(all, f)
				for _, other := range all {
					for _, b := range other.buff {
						if b != other.tag {
							return mc.Failf("shared:"+hist, "two codings share a buffer")
						}
					}
				}
				model[f.token] = f
				switch f.token {
				case "gzip":
					model["x-gzip"] = f
				case "compress":
					model["x-compress"] = f
				}
			}
			for _, token := range asked {
				for _, in := range []string{"", "x", "A1", "B2", "C3"} {
					for dec := 0; dec < 2; dec++ {
						c.Step()
						calls = calls[:0]
						var (
							out []byte
							err error
							op  = "enc"
						)
						input := []byte(in)
						if dec == 1 {
							op = "dec"
							out, err = use.Decode(token, input)
						} else {
							out, err = use.Encode(token, input)
						}
						var (
							want    string
							wantErr error
							called  []string
						)
						f := model[token]
						switch {
						case token == "identity" || in == "":
							want = in
						case f == nil:
							wantErr = coding.ErrUnknownToken
						default:
							called = []string{fmt.Sprintf("%s%c(%s)", op, f.tag, in)}
							switch {
							case f.fail || (dec == 1 && in[0] != f.tag):
								wantErr = errCoding
							case dec == 1:
								want = in[1:]
							default:
								want = string(f.tag) + in
							}
						}
						if err != wantErr || string(out) != want || fmt.Sprint(calls) != fmt.Sprint(called) {
							return mc.Failf("dispatch:"+hist+op+token+in, "with %s, %s(%q, %q) = %q, %v calling %v; want %q, %v calling %v",
								hist, op, token, in, out, err, calls, want, wantErr, called)
						}
						if string(input) != in {
							return mc.Failf("mutated:"+hist, "the input has been changed")
						}
						// what was encoded must decode back
						if dec == 0 && err == nil {
							back, err := use.Decode(token, out)
							if err != nil || string(back) != in {
								return mc.Failf("roundtrip:"+hist+token, "%q encoded with %q decodes to %q, %v", in, token, back, err)
							}
						}
					}
				}
			}
			c.Note("%s", hist)
			c.State(hist)
			return nil
		})
		// several managers, whose codings are used in between of being registered
		r.Space("interleaved", func(c *mc.C) error {
			ms := []coding.Manager{coding.NewManager(4), coding.NewManager(8)}
			models := []map[string]*fake{{}, {}}
			var calls []string
			toks := []string{"gzip", "x-gzip", "br", "identity"}
			hist := ""
			for i := 0; i < 5; i++ {
				k := c.Choose(2)
				m, model := ms[k], models[k]
				tok := mc.Pick(c, toks)
				op := c.Choose(3)
				hist += fmt.Sprintf("%d:%s(%s) ", k, []string{"add", "encode", "decode"}[op], tok)
				c.Step()
				if op == 0 {
					f := &fake{token: tok, tag: byte('A' + i), calls: &calls}
					m.AddCoding(func(buff []byte) coding.Coding { f.buff = buff; return f })
					if len(f.buff) != 4+4*k {
						return mc.Failf(hist, "a buffer of %d bytes", len(f.buff))
					}
					model[tok] = f
					if tok == "gzip" {
						model["x-gzip"] = f
					}
					continue
				}
				calls = calls[:0]
				f := model[tok]
				in, want, wantErr, called := "in", "in", error(nil), ""
				var out []byte
				var err error
				if op == 1 {
					if f != nil {
						want, called = string(f.tag)+in, fmt.Sprintf("enc%c(%s)", f.tag, in)
					}
					out, err = m.Encode(tok, []byte(in))
				} else {
					if f != nil {
						in = string(f.tag) + in
						called = fmt.Sprintf("dec%c(%s)", f.tag, in)
					}
					out, err = m.Decode(tok, []byte(in))
				}
				switch {
				case tok == "identity":
					want, called = in, ""
				case f == nil:
					want, wantErr = "", coding.ErrUnknownToken
				}
				if string(out) != want || err != wantErr || strings.Join(calls, " ") != called {
					return mc.Failf(hist, "gives %q, %v calling %v; want %q, %v calling %s", out, err, calls, want, wantErr, called)
				}
			}
			c.State(hist)
			return nil
		})
		// many codings, and large inputs
		r.Space("many", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(300))
			again := c.Bool()
			m := coding.NewManager(int64(mc.Pick(c, []int{0, 10, 5000})))
			var calls []string
			var fakes []*fake
			token := func(i int) string { return []string{"gzip", "x-br", "compress"}[i%3] + fmt.Sprint(i/3) }
			add := func(i int) {
				f := &fake{token: token(i), tag: byte(len(fakes)), calls: &calls}
				fakes = append(fakes, f)
				m.AddCoding(func(buff []byte) coding.Coding { f.buff = buff; return f })
			}
			for i := 0; i < n; i++ {
				add(i)
			}
			if again {
				for i := n - 1; i >= 0; i-- {
					add(i)
				}
			}
			in := make([]byte, mc.Pick(c, []int{1, 255, 4096, 70000}))
			for i := range in {
				in[i] = byte(i)
			}
			for i := 0; i < n; i++ {
				c.Step()
				f := fakes[i]
				if again {
					f = fakes[n+n-1-i]
				}
				calls = calls[:0]
				out, err := m.Encode(token(i), in)
				if err != nil || len(calls) != 1 || len(out) != len(in)+1 || out[0] != f.tag || string(out[1:]) != string(in) {
					return mc.Failf(fmt.Sprintf("many:%d of %d %v", i, n, again), "encoding %d bytes with %q gives %d bytes, %v, with %d calls", len(in), token(i), len(out), err, len(calls))
				}
				back, err := m.Decode(token(i), out)
				if err != nil || len(calls) != 2 || string(back) != string(in) {
					return mc.Failf(fmt.Sprintf("many:%d of %d %v", i, n, again), "decoding %d bytes with %q gives %d bytes, %v, with %d calls", len(out), token(i), len(back), err, len(calls))
				}
			}
			for _, t := range []string{"gzip", "x-gzip", "br", token(n), "x-" + token(0)} {
				if _, err := m.Encode(t, in); err != coding.ErrUnknownToken {
					return mc.Failf(fmt.Sprintf("unknown:%s of %d", t, n), "encoding with %q: %v", t, err)
				}
				if _, err := m.Decode(t, in); err != coding.ErrUnknownToken {
					return mc.Failf(fmt.Sprintf("unknown:%s of %d", t, n), "decoding with %q: %v", t, err)
				}
			}
			c.State(fmt.Sprint(n, again, len(in)))
			return nil
		})
	})
}
