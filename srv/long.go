package srv

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"github.com/indigo-web/indigo/http"
)

// Lengths of long-lived connections: around the powers of two and of ten.
var Lengths = []int{255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2000, 2048, 2049, 4096, 4097, 5000, 5001,
	8192, 8193, 9999, 10000, 10001, 16384, 16385, 32767, 32768, 32769, 50001, 65534, 65535, 65536, 65537, 70000, 100001}

// Kinds of long-lived connections.
var LongKinds = []string{"plain", "bodies", "chunks", "headers", "1.0", "mixed"}

type longConn struct {
	n, at int
	make  func(i int) string
	group int
	buf   []byte
	want  func(i int) (head bool, check func(r *Response) string)
	out   []byte
	seen  int
	bad   error
}

func (c *longConn) Read(b []byte) (int, error) {
	if len(c.buf) == 0 {
		if c.at == c.n {
			return 0, io.EOF
		}
		for g := 0; g < c.group && c.at < c.n; g++ {
			c.buf = append(c.buf, c.make(c.at)...)
			c.at++
		}
	}
	n := copy(b, c.buf)
	c.buf = c.buf[n:]
	return n, nil
}

func (c *longConn) Write(b []byte) (int, error) {
	c.out = append(c.out, b...)
	for c.bad == nil && len(c.out) > 0 && c.seen < c.n {
		head, check := c.want(c.seen)
		r, rest, err := ParseOne(c.out, head)
		if err != nil {
			if len(c.out) > 1<<16 {
				c.bad = fmt.Errorf("the response to request %d: %v", c.seen+1, err)
			}
			break
		}
		if msg := check(r); msg != "" {
			c.bad = fmt.Errorf("request %d: %s", c.seen+1, msg)
		}
		c.seen++
		c.out = append(c.out[:0], rest...)
	}
	return len(b), nil
}

func (c *longConn) Close() error                     { return nil }
func (c *longConn) LocalAddr() net.Addr              { return Addr("127.0.0.1:80") }
func (c *longConn) RemoteAddr() net.Addr             { return Addr("127.0.0.1:5555") }
func (c *longConn) SetDeadline(time.Time) error      { return nil }
func (c *longConn) SetReadDeadline(time.Time) error  { return nil }
func (c *longConn) SetWriteDeadline(time.Time) error { return nil }

// Long serves n requests, each with a number of its own everywhere, over one connection, group requests in a
// read, and checks what the handler sees of each one and the response to each one.
func Long(kind string, n, group int) error {
	if len(LongKinds) == 0 {
		return nil
	}
	sub := func(i int) string {
		if kind == "mixed" {
			return LongKinds[i%(len(LongKinds)-1)]
		}
		return kind
	}
	body := func(i int) string { return fmt.Sprintf("<%d>%s", i, strings.Repeat("b", i%40)) }
	gen := func(i int) string {
		switch sub(i) {
		case "bodies":
			b := body(i)
			return fmt.Sprintf("POST /p%d?q=%d HTTP/1.1\r\nN: %d\r\nContent-Length: %d\r\n\r\n%s", i, i, i, len(b), b)
		case "chunks":
			b := body(i)
			return fmt.Sprintf("POST /p%d?q=%d HTTP/1.1\r\nN: %d\r\nTransfer-Encoding: chunked\r\n\r\n2\r\n%s\r\n%x\r\n%s\r\n0\r\n\r\n", i, i, i, b[:2], len(b)-2, b[2:])
		case "headers":
			return fmt.Sprintf("HEAD /p%d?q=%d HTTP/1.1\r\nN: %d\r\nCookie: c=%d\r\nA: 1\r\nB: 2\r\nC: 3\r\n\r\n", i, i, i, i)
		case "1.0":
			return fmt.Sprintf("GET /p%d?q=%d HTTP/1.0\r\nN: %d\r\nConnection: keep-alive\r\n\r\n", i, i, i)
		}
		return fmt.Sprintf("GET /p%d?q=%d HTTP/1.1\r\nN: %d\r\n\r\n", i, i, i)
	}
	answer := func(i int) string {
		s := fmt.Sprintf("/p%d %d %d", i, i, i)
		switch sub(i) {
		case "bodies", "chunks":
			if i%3 != 2 {
				s += body(i)
			}
		case "headers":
			s += fmt.Sprintf(" c=%d", i)
		}
		return s
	}
	c := &longConn{n: n, make: gen, group: group}
	c.want = func(i int) (bool, func(r *Response) string) {
		return sub(i) == "headers", func(r *Response) string {
			want := answer(i)
			if r.Code != 200 || r.Value("N") != fmt.Sprint(i) || len(r.Headers) > 6 {
				return fmt.Sprintf("the response is %+v", r)
			}
			if sub(i) == "headers" {
				if r.Value("Content-Length") != fmt.Sprint(len(want)) {
					return fmt.Sprintf("the response to HEAD is %+v, want the length of %q", r, want)
				}
			} else if r.Body != want {
				return fmt.Sprintf("the answer is %.200q, want %.200q", r.Body, want)
			}
			return ""
		}
	}
	served := 0
	f := Funcs{
		Request: func(r *http.Request) *http.Response {
			i := served
			served++
			q, err := r.Query.Get("q")
			if err != nil {
				q = err.Error()
			}
			s := fmt.Sprintf("%s %s %s", r.Path, q, r.Headers.Value("n"))
			switch sub(i) {
			case "bodies", "chunks":
				switch i % 3 {
				case 0:
					b, err := r.Body.Bytes()
					s += string(b)
					if err != nil {
						s += err.Error()
					}
				case 1:
					b, err := io.ReadAll(r.Body)
					s += string(b)
					if err != nil {
						s += err.Error()
					}
				}
			case "headers":
				jar, err := r.Cookies()
				if err != nil {
					s += err.Error()
				} else {
					s += " c=" + jar.Value("c")
				}
			}
			resp := r.Respond().Header("N", fmt.Sprint(i))
			if i%5 == 3 {
				return resp.Attachment(strings.NewReader(s), len(s))
			}
			if i%5 == 4 && sub(i) != "1.0" && sub(i) != "headers" {
				return resp.Attachment(bytes.NewReader([]byte(s)), -1)
			}
			return resp.String(s)
		},
		Error: func(r *http.Request, err error) *http.Response { return http.Error(r, err) },
	}
	if err := Serve(Config(), c, 0, f); err != nil {
		return err
	}
	switch {
	case c.bad != nil:
		return c.bad
	case served != n:
		return fmt.Errorf("%d of %d requests reach the handler", served, n)
	case c.seen != n:
		return fmt.Errorf("%d of %d requests are answered", c.seen, n)
	case len(c.out) > 0:
		return fmt.Errorf("behind the last response, there is %.200q", c.out)
	}
	return nil
}
