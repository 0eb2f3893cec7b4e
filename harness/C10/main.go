// C10: percent-decoding is exact for every input, in place and into a separate buffer.
package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/uridecode"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
)

// reference decoder, straight from RFC 3986, 2.1
func ref(src string) (string, bool) {
	var out []byte
	for i := 0; i < len(src); i++ {
		if src[i] != '%' {
			out = append(out, src[i])
			continue
		}
		if i+2 >= len(src) {
			return "", false
		}
		hi, lo := strings.IndexByte("0123456789abcdef", lower(src[i+1])), strings.IndexByte("0123456789abcdef", lower(src[i+2]))
		if hi < 0 || lo < 0 {
			return "", false
		}
		out = append(out, byte(hi*16+lo))
		i += 2
	}
	return string(out), true
}

func lower(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

const modes = 5

func check(c *mc.C, in string) error {
	want, ok := ref(in)
	for mode := 0; mode < modes; mode++ {
		c.Step()
		// the input lies in the middle of a larger block, as a request line does
		block := []byte("<<" + in + ">>")
		src := block[2 : 2+len(in) : 2+len(in)]
		if mode == 4 {
			src = block[2 : 2+len(in)] // what follows is reachable through the capacity
		}
		var buff []byte
		switch mode {
		case 0:
			buff = nil
		case 1:
			buff = make([]byte, 0, len(in))
		case 2:
			buff = make([]byte, 0, 2)
		case 3, 4:
			buff = src[:0] // in place: what the request line parser does
		}
		got, err := uridecode.Decode(src, buff)
		if ok != (err == nil) {
			return mc.Failf("accept:"+in, "decoding %q (mode %d): error %v, but well-formed is %v", in, mode, err, ok)
		}
		if err != nil {
			if httpErr, is := err.(status.HTTPError); !is || httpErr.Code != status.BadRequest {
				return mc.Failf("errcode:"+in, "decoding %q (mode %d): error %#v is not a bad request", in, mode, err)
			}
			c.State("err")
			continue
		}
		if string(got) != want {
			return mc.Failf("value:"+in, "decoding %q (mode %d) gives %q, want %q", in, mode, got, want)
		}
		if mode < 3 && !bytes.Equal(src, []byte(in)) {
			return mc.Failf("mutated:"+in, "decoding %q into a separate buffer changed the source to %q", in, src)
		}
		if string(block[:2]) != "<<" || string(block[len(block)-2:]) != ">>" {
			return mc.Failf("overrun:"+in, "decoding %q (mode %d) wrote outside of it: %q", in, mode, block)
		}
		c.State(want)
	}
	return nil
}

func main() {
	mc.Main("C10", func(r *mc.R) {
		r.Assume("inputs beyond the enumerated lengths behave like the enumerated ones: the decoder has no length-dependent branch other than the distance of an escape from the end")
		alphabet := "a%02fFg"
		depth := mc.Bound(r, 7, 8)
		r.Space("all-strings", func(c *mc.C) error {
			n := c.Choose(depth + 1)
			b := make([]byte, n)
			for i := range b {
				b[i] = alphabet[c.Choose(len(alphabet))]
			}
			c.Note("decode %q", b)
			return check(c, string(b))
		})
		// every pair of bytes behind the percent, with everything that may surround it
		around := []string{"", "a", "/b", "%41", "%", "\xff", "%zz"}
		r.Space("all-escape-pairs", func(c *mc.C) error {
			pre, post := mc.Pick(c, around), mc.Pick(c, around)
			hi := byte(c.Choose(256))
			lo := byte(c.Choose(256))
			in := pre + "%" + string([]byte{hi, lo}) + post
			c.Note("decode %q", in)
			return check(c, in)
		})
		// two escapes next to each other, for every two bytes
		r.Space("all-escaped-pairs", func(c *mc.C) error {
			a, b := c.Choose(256), c.Choose(256)
			in := fmt.Sprintf("%%%02x%%%02X", a, b)
			switch c.Choose(3) {
			case 1:
				in = "x" + in + "y"
			case 2:
				in += in
			}
			return check(c, in)
		})
		r.Space("all-raw-bytes", func(c *mc.C) error {
			a, b := byte(c.Choose(256)), byte(c.Choose(256))
			return check(c, string([]byte{a, b}))
		})
		// long inputs: one or two escapes at every position
		long := mc.Bound(r, 70, 140)
		r.Space("long", func(c *mc.C) error {
			n := c.Choose(long)
			i := c.Choose(n + 1)
			j := i + c.Choose(n-i+1)
			in := strings.Repeat("x", i) + "%2F" + strings.Repeat("y", j-i) + "%c3" + strings.Repeat("z", n-j)
			if c.Bool() {
				in = in[:len(in)-1]
			}
			c.Note("decode %q", in)
			return check(c, in)
		})
		// much longer ones: nothing but escapes, a few at the edges, and broken ones at the edges
		r.Space("sizes", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 70000, 300000)))
			how := c.Choose(8)
			text := strings.Repeat("abcdefg/", n/8+1)[:n]
			in := text
			switch how {
			case 1:
				in = strings.Repeat("%2F%c3", n/2+1)[:n-n%3]
			case 2:
				in = "%20" + text
			case 3:
				in = text + "%7e"
			case 4:
				in = "%20" + text + "%7E" + text + "%7e"
			case 5:
				in = text + "%4" + text[:n/2] + "%4"
			case 6:
				in = text + "%"
			case 7:
				in = strings.Repeat("a%41", n/4+1) + text + "%g0" + text
			}
			c.Note("decode %d bytes, %d", n, how)
			return check(c, in)
		})
		// escapes in front of long texts, into buffers of every interesting capacity
		r.Space("buffers", func(c *mc.C) error {
			k := c.Choose(mc.Bound(r, 40, 300))
			tail := mc.Pick(c, mc.Ladder(mc.Bound(r, 20000, 300000)))
			text := strings.Repeat("abcdefg/", tail/8+1)[:tail]
			in, want := strings.Repeat("%2f", k)+text, strings.Repeat("/", k)+text
			if c.Bool() {
				in, want = in+"%00", want+"\x00"
			}
			n := len(want)
			room := mc.Pick(c, []int{0, 1, k - 1, k, k + 1, n - 1, n, n + 1, 8, 64, 4096, 1 << 16})
			if room < 0 {
				return mc.ErrSkip
			}
			src := []byte(in)
			got, err := uridecode.Decode(src, make([]byte, 0, room))
			c.Step()
			key := fmt.Sprintf("%d escapes and %d bytes into a buffer of %d", k, tail, room)
			if err != nil || string(got) != want {
				return mc.Failf(key, "%d bytes instead of %d, %v", len(got), n, err)
			}
			if string(src) != in {
				return mc.Failf(key, "the source was changed")
			}
			return nil
		})
	})
}
