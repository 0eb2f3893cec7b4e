// Package srv drives the real HTTP server over scripted in-memory connections.
package srv

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/indigo-web/indigo/config"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/encryption"
	"github.com/indigo-web/indigo/http/serve"
	"github.com/indigo-web/indigo/router"
)

func init() {
	log.SetOutput(io.Discard)
	_ = os.Stderr
}

// ErrWrite is what a broken connection reports.
var ErrWrite = errors.New("broken pipe")

// ErrRead is a failing read (a reset, or a deadline).
var ErrRead = errors.New("connection reset by peer")

// Conn is a scripted connection.
type Conn struct {
	// Pieces are what successive reads return (never more than the reader's buffer).
	Pieces [][]byte
	// End is the error after the last piece: io.EOF by default.
	End error
	// EndWithData makes the last piece come together with the error.
	EndWithData bool
	// WriteLimit is the number of successful writes, unlimited if negative.
	WriteLimit int
	// Torn tells how many bytes of a write that fails are sent nevertheless; none if nil.
	Torn func(n int) int
	// WriteFailed is set as soon as a write has failed.
	WriteFailed bool

	Out      bytes.Buffer
	Writes   int
	OutReads []int // length of Out by the time of every read
	InReads  []int // bytes delivered by the time of every read
	in       int
	Closed   int
	ended    int
	pos      int
}

// NewConn makes a connection delivering the pieces.
func NewConn(pieces ...[]byte) *Conn {
	return &Conn{Pieces: pieces, WriteLimit: -1, End: io.EOF}
}

// Split cuts data at the (ascending) positions.
func Split(data []byte, at ...int) (pieces [][]byte) {
	prev := 0
	for _, p := range at {
		if p > prev && p < len(data) {
			pieces = append(pieces, data[prev:p])
			prev = p
		}
	}
	return append(pieces, data[prev:])
}

// Bytewise cuts data into single bytes.
func Bytewise(data []byte) (pieces [][]byte) {
	for i := range data {
		pieces = append(pieces, data[i:i+1])
	}
	return pieces
}

func (c *Conn) Read(b []byte) (int, error) {
	for len(c.Pieces) > 0 && len(c.Pieces[0]) == 0 {
		c.Pieces = c.Pieces[1:]
	}
	c.OutReads = append(c.OutReads, c.Out.Len())
	c.InReads = append(c.InReads, c.in)
	if len(c.Pieces) == 0 || c.Closed > 0 {
		c.ended++
		if c.ended > 1000 {
			panic("the server keeps on reading a connection that has ended")
		}
		if c.Closed > 0 {
			return 0, net.ErrClosed
		}
		return 0, c.End
	}
	n := copy(b, c.Pieces[0])
	c.in += n
	if n == len(c.Pieces[0]) {
		c.Pieces = c.Pieces[1:]
	} else {
		c.Pieces = append([][]byte{c.Pieces[0][n:]}, c.Pieces[1:]...)
	}
	if c.EndWithData && len(c.Pieces) == 0 {
		return n, c.End
	}
	return n, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	if c.Closed > 0 {
		return 0, net.ErrClosed
	}
	if c.WriteLimit >= 0 && c.Writes >= c.WriteLimit {
		n := 0
		if c.Torn != nil && !c.WriteFailed {
			n = c.Torn(len(b))
			c.Out.Write(b[:n])
		}
		c.WriteFailed = true
		return n, ErrWrite
	}
	c.Writes++
	c.Out.Write(b)
	return len(b), nil
}

func (c *Conn) Close() error                     { c.Closed++; return nil }
func (c *Conn) LocalAddr() net.Addr              { return Addr("127.0.0.1:80") }
func (c *Conn) RemoteAddr() net.Addr             { return Addr("127.0.0.1:5555") }
func (c *Conn) SetDeadline(time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(time.Time) error { return nil }

// Left is how many bytes were never read.
func (c *Conn) Left() (n int) {
	for _, p := range c.Pieces {
		n += len(p)
	}
	return n
}

// Addr is a fake address.
type Addr string

func (a Addr) Network() string { return "tcp" }
func (a Addr) String() string  { return string(a) }

// Config is the default config with small buffers, so that an execution is cheap.
func Config() config.Config {
	cfg := config.Default()
	cfg.URL.BufferSize.Default = 128
	cfg.Headers.KeySpace.Default = 64
	cfg.Headers.ValueSpace.Default = 64
	cfg.HTTP.ResponseBuffSize = 256
	cfg.HTTP.FileBuffSize = 256
	cfg.TCP.ReadBufferSize = 512
	cfg.Headers.Number.Default = 4
	cfg.Headers.Default = map[string]string{}
	return cfg
}

// Panic is a panic of the server.
type Panic struct {
	Value any
	Stack string
}

func (p *Panic) Error() string { return fmt.Sprintf("the server panicked: %v\n%s", p.Value, p.Stack) }

// Serve serves the connection to its end.
func Serve(cfg config.Config, conn net.Conn, enc encryption.Token, r router.Router) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 40 {
				st = st[:40]
			}
			err = &Panic{Value: p, Stack: strings.Join(st, "\n")}
		}
	}()
	serve.HTTP1(cfg, conn, enc, r)
	return nil
}

// Funcs is a router made of two functions.
type Funcs struct {
	Request func(*http.Request) *http.Response
	Error   func(*http.Request, error) *http.Response
}

func (f Funcs) Initialize() router.Router                       { return f }
func (f Funcs) OnRequest(r *http.Request) *http.Response        { return f.Request(r) }
func (f Funcs) OnError(r *http.Request, e error) *http.Response { return f.Error(r, e) }

// Header is a response header.
type Header struct{ Key, Value string }

// Response is a parsed response.
type Response struct {
	Proto   string
	Code    int
	Reason  string
	Headers []Header
	Body    string
	Chunked bool
	// Until end: neither a length nor chunks
	Unframed bool
}

// Values returns the values of a header.
func (r *Response) Values(key string) (v []string) {
	for _, h := range r.Headers {
		if strings.EqualFold(h.Key, key) {
			v = append(v, h.Value)
		}
	}
	return v
}

// Value returns the first value of a header.
func (r *Response) Value(key string) string {
	if v := r.Values(key); len(v) > 0 {
		return v[0]
	}
	return ""
}

// ErrIncomplete is returned when the output ends within a response.
var ErrIncomplete = errors.New("incomplete response")

// ParseOne strictly parses one response at the beginning of raw.
func ParseOne(raw []byte, head bool) (r *Response, rest []byte, err error) {
	line, rest, ok := bytes.Cut(raw, []byte("\r\n"))
	if !ok {
		return nil, raw, fmt.Errorf("%w: no status line in %q", ErrIncomplete, clip(raw))
	}
	if bytes.IndexByte(line, '\n') >= 0 || bytes.IndexByte(line, '\r') >= 0 {
		return nil, raw, fmt.Errorf("bare line break in the status line %q", line)
	}
	parts := strings.SplitN(string(line), " ", 3)
	if len(parts) < 2 || !strings.HasPrefix(parts[0], "HTTP/") {
		return nil, raw, fmt.Errorf("malformed status line %q", line)
	}
	r = &Response{Proto: parts[0]}
	if len(parts) == 3 {
		r.Reason = parts[2]
	}
	if len(parts[1]) != 3 {
		return nil, raw, fmt.Errorf("malformed code in the status line %q", line)
	}
	if r.Code, err = strconv.Atoi(parts[1]); err != nil {
		return nil, raw, fmt.Errorf("malformed code in the status line %q", line)
	}
	for {
		line, rest, ok = bytes.Cut(rest, []byte("\r\n"))
		if !ok {
			return nil, raw, fmt.Errorf("%w: headers are not terminated in %q", ErrIncomplete, clip(raw))
		}
		if len(line) == 0 {
			break
		}
		if bytes.IndexByte(line, '\n') >= 0 || bytes.IndexByte(line, '\r') >= 0 {
			return nil, raw, fmt.Errorf("bare line break in the header %q", line)
		}
		k, v, ok := strings.Cut(string(line), ":")
		if !ok || k == "" || strings.ContainsAny(k, " \t") {
			return nil, raw, fmt.Errorf("malformed header line %q", line)
		}
		r.Headers = append(r.Headers, Header{k, strings.Trim(v, " \t")})
	}
	te, cl := r.Values("Transfer-Encoding"), r.Values("Content-Length")
	r.Chunked = len(te) > 0 && strings.EqualFold(te[len(te)-1], "chunked")
	if len(cl) > 1 {
		return nil, raw, fmt.Errorf("%d Content-Length headers", len(cl))
	}
	if len(cl) > 0 && r.Chunked {
		return nil, raw, errors.New("both Content-Length and chunked")
	}
	if r.Chunked && r.Proto == "HTTP/1.0" {
		return nil, raw, errors.New("chunked in a response of HTTP/1.0")
	}
	if head || r.Code/100 == 1 {
		return r, rest, nil
	}
	switch {
	case r.Chunked:
		body, left, err := Dechunk(rest)
		if err != nil {
			return nil, raw, err
		}
		r.Body = string(body)
		return r, left, nil
	case len(cl) == 1:
		n, err := strconv.Atoi(cl[0])
		if err != nil || n < 0 || cl[0] != strconv.Itoa(n) {
			return nil, raw, fmt.Errorf("malformed Content-Length %q", cl[0])
		}
		if len(rest) < n {
			return nil, raw, fmt.Errorf("%w: body of %d bytes, %d announced", ErrIncomplete, len(rest), n)
		}
		r.Body = string(rest[:n])
		return r, rest[n:], nil
	default:
		r.Unframed = true
		r.Body = string(rest)
		return r, nil, nil
	}
}

// Dechunk strictly decodes a chunked body.
func Dechunk(raw []byte) (body, rest []byte, err error) {
	for {
		line, left, ok := bytes.Cut(raw, []byte("\r\n"))
		if !ok {
			return nil, nil, fmt.Errorf("%w: no chunk size in %q", ErrIncomplete, clip(raw))
		}
		n, err := strconv.ParseUint(string(line), 16, 32)
		if err != nil {
			return nil, nil, fmt.Errorf("malformed chunk size %q", clip(line))
		}
		if uint64(len(left)) < n+2 {
			return nil, nil, fmt.Errorf("%w: chunk of %d bytes, %d left", ErrIncomplete, n, len(left))
		}
		if string(left[n:n+2]) != "\r\n" {
			return nil, nil, fmt.Errorf("chunk is not terminated: %q", clip(left[n:]))
		}
		if n == 0 {
			return body, left[2:], nil
		}
		body = append(body, left[:n]...)
		raw = left[n+2:]
	}
}

// ParseAll parses the whole output; heads[i] tells whether the i-th response answers a HEAD.
func ParseAll(raw []byte, heads ...bool) (rs []*Response, err error) {
	for i := 0; len(raw) > 0; i++ {
		var r *Response
		r, raw, err = ParseOne(raw, i < len(heads) && heads[i])
		if err != nil {
			return rs, fmt.Errorf("response %d: %w", i+1, err)
		}
		rs = append(rs, r)
	}
	return rs, nil
}

func clip(b []byte) []byte {
	if len(b) > 120 {
		return b[:120]
	}
	return b
}

// Describe renders a request as the application sees it, without touching the body.
func Describe(r *http.Request) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %q ?%q %s", r.Method, r.Path, r.Query.Raw(), r.Proto)
	for _, p := range r.Headers.Unwrap() {
		fmt.Fprintf(&b, "|%q=%q", p.Key, p.Value)
	}
	fmt.Fprintf(&b, "|cl=%d ct=%q conn=%q te=%q ce=%q ch=%v tr=%v up=%s enc=%d", r.ContentLength, r.ContentType,
		r.Connection, r.Encoding.Transfer, r.Encoding.Content, r.Encoding.Chunked, r.Encoding.HasTrailer, r.Upgrade, r.Env.Encryption)
	return b.String()
}
