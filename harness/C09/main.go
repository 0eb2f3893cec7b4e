// C09: a streamed response carries the stream's bytes exactly and releases it.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
)

var errSource = errors.New("the source is broken")

// answer is what one call of Read gives: up to n bytes (all that fits if negative) and maybe an error.
type answer struct {
	n   int
	err error
}

func (a answer) String() string {
	s := fmt.Sprint(a.n)
	if a.n < 0 {
		s = "full"
	}
	switch a.err {
	case nil:
		return s
	case io.EOF:
		return s + "+EOF"
	default:
		return s + "+error"
	}
}

// source is a scripted reader; behind the script it repeats the end of the file.
type source struct {
	script []answer
	next   byte
	given  []byte
	closed int
	err    error // the error that was handed out
	limit  int   // of the total, if positive
	late   string
}

func (s *source) Read(p []byte) (int, error) {
	if s.closed > 0 {
		s.late = "read after close"
	}
	if len(s.script) == 0 {
		s.err = io.EOF
		return 0, io.EOF
	}
	a := s.script[0]
	s.script = s.script[1:]
	n := a.n
	if n < 0 || n > len(p) {
		n = len(p)
	}
	for i := 0; i < n; i++ {
		p[i] = 'a' + s.next%26
		s.next++
	}
	// what is behind the returned bytes may be used as scratch space
	for i := n; i < len(p); i++ {
		p[i] = '!'
	}
	s.given = append(s.given, p[:n]...)
	if a.err != nil {
		s.err = a.err
		s.script = nil
	}
	return n, a.err
}

type closing struct{ *source }

func (c closing) Close() error {
	c.closed++
	if c.closed > 1 {
		return errors.New("closed twice")
	}
	return errors.New("an error of closing is none of the client's business")
}

type conf struct {
	proto, method string
	size          int
	buf           int
	closer        bool
	writes        int // number of successful writes, -1 for unlimited
	torn          int // what of the failing write is sent: nothing, a byte, a half, everything
}

// exec serves one streamed response and a follow-up; check judges.
func exec(c *mc.C, cf conf, script []answer) error {
	shown := fmt.Sprint(script)
	if len(script) > 100 {
		shown = fmt.Sprintf("%v, %d in total, %v", script[:3], len(script), script[len(script)-3:])
	}
	key := fmt.Sprintf("%s %s size %d buffer %d closer %v writes %d torn %d reader %s", cf.method, cf.proto, cf.size, cf.buf, cf.closer, cf.writes, cf.torn, shown)
	c.Note("%s", key)
	src := &source{script: append([]answer{}, script...)}
	var rd io.Reader = src
	if cf.closer {
		rd = closing{src}
	}
	cfg := srv.Config()
	cfg.HTTP.FileBuffSize = cf.buf
	raw := cf.method + " /1 " + cf.proto + "\r\nConnection: keep-alive\r\n\r\n"
	conn := srv.NewConn([]byte(raw + "GET /2 HTTP/1.1\r\n\r\n"))
	conn.WriteLimit = cf.writes
	conn.Torn = func(n int) int { return []int{0, min(1, n), n / 2, n}[cf.torn] }
	lost := false
	second, errs := false, 0
	closedBefore := true
	f := srv.Funcs{
		Request: func(r *http.Request) *http.Response {
			if r.Path == "/1" {
				return r.Respond().Attachment(rd, cf.size)
			}
			second = true
			lost = conn.WriteFailed
			closedBefore = src.closed == 1
			return r.Respond().String("second")
		},
		Error: func(r *http.Request, err error) *http.Response {
			errs++
			return http.Error(r, err)
		},
	}
	if err := srv.Serve(cfg, conn, 0, f); err != nil {
		return mc.Failf(key, "%v", err)
	}
	c.Steps(len(script) + 1)
	out := conn.Out.Bytes()
	c.State(string(out) + src.late)
	if cf.closer && (src.closed != 1 || second && !closedBefore) {
		return mc.Failf(key, "the stream was closed %d times, before the next request: %v", src.closed, closedBefore)
	}
	if lost {
		return mc.Failf(key, "the next request was served though the connection failed")
	}
	if src.late != "" {
		return mc.Failf(key, "the stream is %s", src.late)
	}
	if errs != 1 {
		return mc.Failf(key, "%d errors were reported, not just the end of the connection", errs)
	}
	if cf.writes < 0 && cf.method != "HEAD" && src.err == nil && (cf.size <= 0 || len(src.given) < cf.size) {
		return mc.Failf(key, "the stream neither ended nor failed, yet the server stopped reading it after %d bytes", len(src.given))
	}
	resp, rest, err := srv.ParseOne(out, cf.method == "HEAD")
	complete := err == nil
	if head, _, ok := bytes.Cut(out, []byte("\r\n\r\n")); ok && !complete {
		// the framing is announced even when the body does not come to its end
		if e := framing(string(head), cf.size, cf.proto); e != "" {
			return mc.Failf(key, "%s in %q", e, head)
		}
	}
	if err != nil && !errors.Is(err, srv.ErrIncomplete) {
		return mc.Failf(key, "malformed output: %v in %q", err, out)
	}
	if complete {
		if cf.size > 0 && resp.Value("Content-Length") != fmt.Sprint(cf.size) || cf.size <= 0 && resp.Chunked != (cf.proto != "HTTP/1.0") {
			return mc.Failf(key, "the framing is wrong in %q", out)
		}
		if resp.Unframed {
			// the end of the connection is the end of the body
			if cf.size > 0 || cf.proto != "HTTP/1.0" {
				return mc.Failf(key, "the framing is wrong in %q", out)
			}
			if second {
				return mc.Failf(key, "the next request is served on a connection whose end is the end of the body")
			}
			if cf.writes < 0 && resp.Body != string(src.given) || !bytes.HasPrefix(src.given, []byte(resp.Body)) {
				return mc.Failf(key, "the body is %q, not %q", resp.Body, src.given)
			}
			return nil
		}
	}
	// whole tells that the stream has everything that is needed
	whole := src.err == io.EOF || cf.size > 0 && len(src.given) >= cf.size
	if cf.size > 0 && len(src.given) < cf.size {
		whole = false
	}
	// an error that comes together with the last byte may count or not
	open := cf.size > 0 && len(src.given) >= cf.size && src.err == errSource
	if cf.method == "HEAD" {
		whole, open = true, false
	}
	if cf.writes < 0 {
		switch {
		case open:
		case whole && !complete:
			return mc.Failf(key, "the response is not complete: %v in %q", err, out)
		case !whole && complete:
			return mc.Failf(key, "the stream broke after %q, and the client takes the response for complete: %q", src.given, out)
		}
		if complete && !open && !second {
			return mc.Failf(key, "the next request was not served after a complete response")
		}
	} else {
		// cut off: whatever arrived must be how the undisturbed response begins
		if !bytes.HasPrefix(reference(cf, script), out) {
			return mc.Failf(key, "the output %q is no beginning of the undisturbed %q", out, reference(cf, script))
		}
	}
	if !complete {
		if second {
			return mc.Failf(key, "the next request was served after an incomplete response %q", out)
		}
		return partial(key, out, src.given, cf.writes >= 0)
	}
	if cf.method == "HEAD" {
		if second != bytes.HasPrefix(rest, []byte("HTTP/1.1 200")) && cf.writes < 0 {
			return mc.Failf(key, "a response to HEAD is followed by %q", rest)
		}
		if !second && len(rest) > 0 {
			return mc.Failf(key, "a response to HEAD is followed by %q", rest)
		}
		return nil
	}
	want := src.given
	if cf.size > 0 && len(want) >= cf.size {
		want = want[:cf.size]
	}
	if resp.Body != string(want) {
		return mc.Failf(key, "the body is %q, not %q", resp.Body, want)
	}
	if cf.writes < 0 && second && !bytes.HasSuffix(rest, []byte("\r\n\r\nsecond")) || !second && len(rest) > 0 {
		return mc.Failf(key, "the response is followed by %q", rest)
	}
	return nil
}

// framing judges the header fields of a response with a stream of that size.
func framing(head string, size int, proto string) string {
	length, chunked := "", false
	for _, line := range strings.Split(head, "\r\n")[1:] {
		name, value, _ := strings.Cut(line, ":")
		switch value = strings.TrimSpace(value); strings.ToLower(name) {
		case "content-length":
			if length != "" {
				return "the length is announced twice"
			}
			length = value
		case "transfer-encoding":
			chunked = strings.HasSuffix(strings.ToLower(value), "chunked")
		}
	}
	switch {
	case size > 0 && (chunked || length != fmt.Sprint(size)):
		return fmt.Sprintf("%d announced bytes are framed as length %q, chunked %v", size, length, chunked)
	case size <= 0 && (chunked != (proto != "HTTP/1.0") || length != ""):
		return fmt.Sprintf("a stream of an unknown length is framed as length %q, chunked %v", length, chunked)
	}
	return ""
}

// partial checks that what was sent of an incomplete response are the first bytes of the stream.
func partial(key string, out, given []byte, torn bool) error {
	_, body, ok := bytes.Cut(out, []byte("\r\n\r\n"))
	if !ok {
		return nil
	}
	if bytes.Contains(out, []byte("chunked")) {
		var all []byte
		for len(body) > 0 {
			line, left, ok := bytes.Cut(body, []byte("\r\n"))
			var n int
			if _, err := fmt.Sscanf(string(line), "%x", &n); torn && (!ok || len(left) < n+2) {
				// the rest of the chunk is lost
				if ok {
					all = append(all, left[:min(n, len(left))]...)
				}
				break
			} else if !ok || err != nil || len(left) < n+2 {
				return mc.Failf(key, "broken chunk in %q", out)
			}
			all = append(all, left[:n]...)
			body = left[n+2:]
		}
		body = all
	}
	if !bytes.HasPrefix(given, body) {
		return mc.Failf(key, "the stream gave %q, and %q was sent", given, body)
	}
	return nil
}

// reference is the undisturbed output.
func reference(cf conf, script []answer) []byte {
	src := &source{script: append([]answer{}, script...)}
	cfg := srv.Config()
	cfg.HTTP.FileBuffSize = cf.buf
	raw := cf.method + " /1 " + cf.proto + "\r\nConnection: keep-alive\r\n\r\n"
	conn := srv.NewConn([]byte(raw + "GET /2 HTTP/1.1\r\n\r\n"))
	f := srv.Funcs{
		Request: func(r *http.Request) *http.Response {
			if r.Path == "/1" {
				return r.Respond().Attachment(src, cf.size)
			}
			return r.Respond().String("second")
		},
		Error: func(r *http.Request, err error) *http.Response { return http.Error(r, err) },
	}
	_ = srv.Serve(cfg, conn, 0, f)
	return conn.Out.Bytes()
}

func main() {
	mc.Main("C09", func(r *mc.R) {
		r.Assume("readers follow the contract of io.Reader; whether an error reported together with the last announced byte counts is not specified")
		answers := []answer{{0, nil}, {1, nil}, {3, nil}, {-1, nil}, {0, io.EOF}, {2, io.EOF}, {-1, io.EOF}, {0, errSource}, {1, errSource}}
		depth := mc.Bound(r, 6, 8)
		bufs := []int{1, 16, 17, 32}
		sizes := []int{-1, 0, 1, 2, 4, 5, 9, 16, 17, 33}
		pick := func(c *mc.C) (script []answer) {
			for i := 0; i < depth; i++ {
				a := c.Choose(len(answers) + 1)
				if a == len(answers) {
					break
				}
				script = append(script, answers[a])
				if answers[a].err != nil {
					break
				}
			}
			return script
		}
		r.Space("readers", func(c *mc.C) error {
			script := pick(c)
			cf := conf{"HTTP/1.1", mc.Pick(c, []string{"GET", "POST"}), mc.Pick(c, sizes), mc.Pick(c, bufs), c.Bool(), -1, 0}
			if cf.method == "POST" {
				cf.proto = "HTTP/1.0"
			}
			return exec(c, cf, script)
		})
		// readers may give nothing any number of times
		r.Space("empty reads", func(c *mc.C) error {
			k := mc.Pick(c, mc.Ladder(mc.Bound(r, 20000, 200000)))
			before, after := mc.Pick(c, []answer{{0, nil}, {1, nil}, {-1, nil}}), mc.Pick(c, []answer{{0, io.EOF}, {3, nil}, {2, io.EOF}, {1, errSource}})
			script := []answer{before}
			for i := 0; i < k; i++ {
				script = append(script, answer{})
			}
			script = append(script, after)
			cf := conf{mc.Pick(c, []string{"HTTP/1.1", "HTTP/1.0"}), "GET", mc.Pick(c, []int{-1, 3, 4}), 16, true, -1, 0}
			return exec(c, cf, script)
		})
		r.Space("head", func(c *mc.C) error {
			script := pick(c)
			cf := conf{mc.Pick(c, []string{"HTTP/1.1", "HTTP/1.0"}), "HEAD", mc.Pick(c, []int{-1, 0, 5, 100}), 16, c.Bool(), mc.Pick(c, []int{-1, 0, 1}), c.Choose(4)}
			return exec(c, cf, script)
		})
		r.Space("write failures", func(c *mc.C) error {
			script := pick(c)
			cf := conf{"HTTP/1.1", "GET", mc.Pick(c, sizes), mc.Pick(c, []int{16, 32}), c.Bool(), c.Choose(7), 0}
			return exec(c, cf, script)
		})
		r.Space("torn writes", func(c *mc.C) error {
			script := pick(c)
			if len(script) > 4 {
				return nil
			}
			cf := conf{"HTTP/1.1", "GET", mc.Pick(c, []int{-1, 0, 4, 9, 17}), 16, true, c.Choose(5), 1 + c.Choose(3)}
			return exec(c, cf, script)
		})
		// well-behaved readers of every length, around every buffer size
		maxLen := mc.Bound(r, 90, 300)
		r.Space("lengths", func(c *mc.C) error {
			buf := 14 + c.Choose(50)
			n := c.Choose(maxLen)
			var script []answer
			how := c.Choose(3)
			for left := n; left > 0; {
				k := 200
				switch how {
				case 1:
					k = 7
				case 2:
					k = 1
				}
				if k > left {
					k = left
				}
				script = append(script, answer{k, nil})
				left -= k
			}
			if len(script) > 0 && c.Bool() {
				script[len(script)-1].err = io.EOF
			}
			if how == 0 {
				// the scripted reader truncates long answers to the buffer
				script = nil
				for i := 0; i < n%7; i++ {
					script = append(script, answer{-1, nil})
				}
			}
			size := mc.Pick(c, []int{-1, 0, n - 1, n, n + 1})
			return exec(c, conf{mc.Pick(c, []string{"HTTP/1.1", "HTTP/1.0"}), "GET", size, buf, true, -1, 0}, script)
		})
		r.Space("in-memory readers", func(c *mc.C) error {
			// readers of the standard library, with more than just Read
			n := mc.Pick(c, append([]int{0, 1, 15, 16, 17, 100000, 1000000}, around(12, mc.Bound(r, 22, 25))...))
			buf := mc.Pick(c, []int{16, 100, 4096, 65536 + 12, 70000})
			data := strings.Repeat("0123456789abcde\n", n/16+1)[:n]
			var rd io.Reader
			which := c.Choose(5)
			done := &released{}
			switch which {
			case 4:
				done.Reader = strings.NewReader(data)
				rd = done
			case 0:
				rd = strings.NewReader(data)
			case 1:
				rd = bytes.NewReader([]byte(data))
			case 2:
				rd = bytes.NewBufferString(data)
			case 3:
				rd = io.LimitReader(strings.NewReader(data+"more"), int64(n))
			}
			size := mc.Pick(c, []int{-1, n})
			proto := mc.Pick(c, []string{"HTTP/1.1", "HTTP/1.0"})
			key := fmt.Sprintf("%s, reader %d of %d bytes, size %d, buffer %d", proto, which, n, size, buf)
			cfg := srv.Config()
			cfg.HTTP.FileBuffSize = buf
			conn := srv.NewConn([]byte("GET / " + proto + "\r\n\r\n"))
			f := srv.Funcs{
				Request: func(r *http.Request) *http.Response { return r.Respond().Attachment(rd, size) },
				Error:   func(r *http.Request, err error) *http.Response { return http.Error(r, err) },
			}
			if err := srv.Serve(cfg, conn, 0, f); err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.Step()
			rs, err := srv.ParseAll(conn.Out.Bytes())
			if err != nil || len(rs) != 1 || rs[0].Body != data {
				return mc.Failf(key, "the client does not get the data (%v)", err)
			}
			head, _, _ := strings.Cut(conn.Out.String(), "\r\n\r\n")
			if e := framing(head, size, proto); e != "" {
				return mc.Failf(key, "%s in %q", e, head)
			}
			if which == 4 && done.times != 1 {
				return mc.Failf(key, "the stream was closed %d times", done.times)
			}
			c.State(key)
			return nil
		})
		r.Space("announced sizes", func(c *mc.C) error {
			// every order of magnitude of the announced size: to HEAD, and with a stream that ends early
			sizes := append(around(0, 62), 999999, 1000000, 1000001, math.MaxInt32, math.MaxInt64, -2, math.MinInt32, math.MinInt64)
			cf := conf{"HTTP/1.1", mc.Pick(c, []string{"HEAD", "GET"}), mc.Pick(c, sizes), mc.Pick(c, []int{16, 4096}), c.Bool(), -1, 0}
			return exec(c, cf, mc.Pick(c, [][]answer{nil, {{0, io.EOF}}, {{3, nil}, {1, errSource}}}))
		})
		long := mc.Bound(r, 300, 3000)
		r.Space("many streams", func(c *mc.C) error {
			// a long-living connection answers with all kinds of streams, in a repeating pattern
			period := 1 + c.Choose(4)
			kinds := make([]int, period)
			for i := range kinds {
				kinds[i] = c.Choose(6)
			}
			key := fmt.Sprintf("the repeated pattern %v of streams", kinds)
			var raw bytes.Buffer
			for i := 0; i < long; i++ {
				raw.WriteString("GET / HTTP/1.1\r\n\r\n")
			}
			conn := srv.NewConn(raw.Bytes())
			var want, sizes []string
			var opened []*released
			cfg := srv.Config()
			cfg.HTTP.FileBuffSize = 32
			f := srv.Funcs{
				Request: func(r *http.Request) *http.Response {
					i := len(want)
					if i > 0 && opened[i-1] != nil && opened[i-1].times != 1 {
						sizes = append(sizes, fmt.Sprintf("the stream %d was closed %d times", i-1, opened[i-1].times))
					}
					data := strings.Repeat(fmt.Sprint(i, "."), i%13)
					rd := &released{Reader: strings.NewReader(data)}
					want, opened = append(want, data), append(opened, rd)
					switch kinds[i%period] {
					case 0:
						opened[i] = nil
						return r.Respond().String(data)
					case 1:
						return r.Respond().Attachment(rd, len(data))
					case 2:
						return r.Respond().Attachment(rd, -1)
					case 3:
						rd.Reader = strings.NewReader(data + "and more")
						return r.Respond().Attachment(rd, len(data)+3)
					case 4:
						opened[i] = nil
						return r.Respond().Attachment(onlyRead{strings.NewReader(data)}, -1)
					default:
						return r.Respond().String("overridden").Attachment(rd, 0)
					}
				},
				Error: func(r *http.Request, err error) *http.Response { return http.Error(r, err) },
			}
			if err := srv.Serve(cfg, conn, 0, f); err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.Steps(long)
			if len(sizes) > 0 {
				return mc.Failf(key, "%s", sizes[0])
			}
			rs, err := srv.ParseAll(conn.Out.Bytes())
			if err != nil || len(rs) != long {
				return mc.Failf(key, "%d of %d responses (%v)", len(rs), long, err)
			}
			for i, w := range want {
				if kinds[i%period] == 3 {
					w = (w + "and more")[:len(w)+3]
				}
				if rs[i].Body != w {
					return mc.Failf(key, "the response %d carries %q, not %q", i, rs[i].Body, w)
				}
			}
			c.State(key)
			return nil
		})
	})
}

// around gives the powers of two with their neighbours.
func around(from, to int) (all []int) {
	for i := from; i <= to; i++ {
		all = append(all, 1<<i-1, 1<<i, 1<<i+1)
	}
	return all
}

type onlyRead struct{ io.Reader }

// released counts how often it is closed.
type released struct {
	io.Reader
	times int
}

func (r *released) Close() error {
	r.times++
	return nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
