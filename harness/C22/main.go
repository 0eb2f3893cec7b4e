// C22: the streaming body reader fulfils the io.Reader contract over any source.
package main

import (
	"errors"
	"fmt"
	"io"

	"github.com/indigo-web/indigo/internal/stash"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
)

var errBroken = errors.New("broken")

// source is a scripted retriever. It reuses its buffer, as a connection does.
type source struct {
	c     *mc.C
	buff  [4]byte
	next  byte
	want  []byte
	err   error
	calls int
	late  bool // called after having reported an error
	left  int
}

func (s *source) retrieve() ([]byte, error) {
	s.calls++
	if s.err != nil {
		s.late = true
		return nil, s.err
	}
	for i := range s.buff {
		s.buff[i] = 0xEE // whatever was handed out before is gone
	}
	n := s.c.Choose(4)
	for i := 0; i < n; i++ {
		s.next++
		s.buff[i] = s.next
		s.want = append(s.want, s.next)
	}
	if s.left--; s.left <= 0 {
		s.err = []error{io.EOF, errBroken}[s.c.Choose(2)]
	} else {
		s.err = []error{nil, io.EOF, errBroken}[s.c.Choose(3)]
	}
	s.c.Note("source returns %d bytes, %v", n, s.err)
	return s.buff[:n], s.err
}

func run(c *mc.C, rounds, pieces, reads int) error {
	var src *source
	r := stash.New(func() ([]byte, error) { return src.retrieve() })
	for round := 0; round < rounds; round++ {
		src = &source{c: c, left: pieces, next: byte(round * 100)}
		if round > 0 {
			r.Reset()
			c.Note("Reset()")
		}
		var (
			got      []byte
			reported error
			hist     string
			empty    int
		)
		for i := 0; i < reads; i++ {
			c.Step()
			size := []int{2, 1, 4, 0}[c.Choose(4)]
			hist += fmt.Sprint(size)
			calls := src.calls
			b := []byte{0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD}
			n, err := r.Read(b[:size])
			c.Note("Read(%d) = %d, %v", size, n, err)
			if n < 0 || n > size {
				return mc.Failf("count:"+hist, "Read(%d bytes) returned n=%d", size, n)
			}
			for _, x := range b[size:] {
				if x != 0xDD {
					return mc.Failf("overrun:"+hist, "Read(%d bytes) wrote outside of the buffer", size)
				}
			}
			if src.late {
				return mc.Failf("late:"+hist, "the source was called again after it had ended with %v", src.err)
			}
			if src.calls > calls+1 {
				return mc.Failf("calls:"+hist, "one Read called the source %d times", src.calls-calls)
			}
			if reported != nil && (n > 0 || err == nil) {
				return mc.Failf("after-error:"+hist, "after %v, Read returned %d, %v", reported, n, err)
			}
			got = append(got, b[:n]...)
			if len(got) > len(src.want) || string(got) != string(src.want[:len(got)]) {
				return mc.Failf("data:"+hist, "read %v, the source gave %v", got, src.want)
			}
			if err != nil {
				if err != src.err {
					return mc.Failf("error:"+hist, "Read returned %v, the source gave %v", err, src.err)
				}
				if len(got) != len(src.want) {
					return mc.Failf("early-error:"+hist, "%v reported after %d bytes of %d", err, len(got), len(src.want))
				}
				reported = err
			} else if n == 0 && size > 0 && src.calls == calls {
				return mc.Failf("stuck:"+hist, "Read(%d) neither made progress nor asked the source", size)
			} else if n == 0 && size > 0 {
				empty++
			}
			if err == nil && size > 0 && src.err != nil && len(got) == len(src.want) && reported == nil {
				// all the data is out: the error must be there at the latest now or with the next read
				b2 := make([]byte, 2)
				// peek is not possible without changing the state, so only at the end of the history
				if i == reads-1 {
					if n2, err2 := r.Read(b2); n2 != 0 || err2 != src.err {
						return mc.Failf("lost-error:"+hist, "all %d bytes were read, but the next Read returned %d, %v instead of %v", len(got), n2, err2, src.err)
					}
				}
			}
			c.State(fmt.Sprint(len(got), len(src.want), src.err, reported, size))
		}
	}
	return nil
}

func main() {
	mc.Main("C22", func(r *mc.R) {
		r.Space("read-histories", func(c *mc.C) error { return run(c, 1, 4, mc.Bound(r, 6, 8)) })
		r.Space("reset-histories", func(c *mc.C) error { return run(c, 2, 2, mc.Bound(r, 3, 4)) })
		r.Space("reset-twice", func(c *mc.C) error { return run(c, 3, 2, mc.Bound(r, 1, 2)) })
		// draining takes what was obtained but not read, once
		r.Space("draining", func(c *mc.C) error {
			src := &source{c: c, left: 3}
			rd := stash.New(src.retrieve)
			drainer, ok := any(rd).(interface{ Drain() []byte })
			if !ok {
				return nil
			}
			var got []byte
			hist := ""
			for i := 0; i < mc.Bound(r, 5, 6); i++ {
				c.Step()
				size := []int{-1, 1, 2, 4}[c.Choose(4)]
				hist += fmt.Sprint(" ", size)
				if size < 0 {
					calls := src.calls
					got = append(got, drainer.Drain()...)
					if src.calls != calls {
						return mc.Failf("drain:"+hist, "draining asks the source")
					}
					if len(got) != len(src.want) {
						return mc.Failf("drain:"+hist, "drained up to %v, the source gave %v", got, src.want)
					}
				} else {
					b := make([]byte, size)
					n, err := rd.Read(b)
					got = append(got, b[:n]...)
					if err != nil && (err != src.err || len(got) != len(src.want)) {
						return mc.Failf("drain:"+hist, "%v after %v, the source gave %v, %v", err, got, src.want, src.err)
					}
				}
				if len(got) > len(src.want) || string(got) != string(src.want[:len(got)]) || src.late {
					return mc.Failf("drain:"+hist, "read %v, the source gave %v", got, src.want)
				}
				c.State(fmt.Sprint(hist, len(got)))
			}
			return nil
		})
		// large pieces and large buffers, and many of them
		sizes := []int{1, 2, 15, 16, 17, 100, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 100000}
		r.Space("sizes", func(c *mc.C) error {
			piece, buf := mc.Pick(c, sizes), mc.Pick(c, sizes)
			pieces := mc.Pick(c, []int{1, 2, 3, 9, 70, 300})
			if piece*pieces > 1<<20 || piece*pieces/buf > 1<<14 {
				return mc.ErrSkip
			}
			withData := c.Bool()
			end := []error{io.EOF, errBroken}[c.Choose(2)]
			resets := mc.Pick(c, []int{1, 2})
			if pieces < 3 && piece < 300 {
				resets = mc.Pick(c, []int{3, 300})
			}
			key := fmt.Sprintf("%d pieces of %d, buffer %d, error %v with data %v, %d times", pieces, piece, buf, end, withData, resets)
			c.Note("%s", key)
			c.State(key)
			data := make([]byte, piece)
			var n, late int
			rd := stash.New(func() ([]byte, error) {
				n++
				if n > pieces {
					late++
					if n == pieces+1 && !withData {
						late--
					}
					return nil, end
				}
				for i := range data {
					data[i] = byte(i*7 + i/256 + n)
				}
				if n == pieces && withData {
					return data, end
				}
				return data, nil
			})
			b := make([]byte, buf)
			for round := 0; round < resets; round++ {
				if round > 0 {
					rd.Reset()
				}
				n = 0
				// every other round is given up in the middle
				got, stop := 0, round%2 == 1
				for {
					k, err := rd.Read(b)
					c.Step()
					for i := 0; i < k; i++ {
						if at := got + i; b[i] != byte(at%piece*7+at%piece/256+at/piece+1) {
							return mc.Failf(key, "round %d: wrong byte at %d", round, at)
						}
					}
					got += k
					if err != nil {
						if err != end || got != piece*pieces {
							return mc.Failf(key, "round %d: %v after %d of %d bytes", round, err, got, piece*pieces)
						}
						k, err := rd.Read(b)
						if k != 0 || err != end {
							return mc.Failf(key, "round %d: after the end, Read gives %d, %v", round, k, err)
						}
						break
					}
					if got > piece*pieces {
						return mc.Failf(key, "round %d: %d bytes", round, got)
					}
					if stop && got > piece/2 {
						break
					}
				}
				if late > 0 {
					return mc.Failf(key, "round %d: the source is called after its end", round)
				}
			}
			return nil
		})
		// drained with the standard library, whatever the pieces are
		r.Space("io-readall", func(c *mc.C) error {
			src := &source{c: c, left: mc.Bound(r, 8, 9)}
			rd := stash.New(src.retrieve)
			got, err := io.ReadAll(rd)
			c.Step()
			want := src.err
			if want == io.EOF {
				want = nil
			}
			if err != want || string(got) != string(src.want) {
				return mc.Failf("readall", "io.ReadAll gives %v, %v; the source gave %v, %v", got, err, src.want, src.err)
			}
			c.State(fmt.Sprint(len(got), err))
			return nil
		})
	})
}
