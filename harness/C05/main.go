// C05: a request body is delivered exactly, through every way of reading it.
package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/srv"
)

var errStop = errors.New("stop")

const text = "0123456789abcdef"

type framing struct {
	name string
	make func(body string) string
}

func chunks(n int, ext string) func(string) string {
	return func(body string) string {
		s := "Transfer-Encoding: chunked\r\n\r\n"
		for len(body) > 0 {
			k := n
			if k > len(body) {
				k = len(body)
			}
			s += fmt.Sprintf("%x\r\n%s\r\n", k, body[:k])
			body = body[k:]
		}
		return s + "0\r\n\r\n"
	}
}

var framings = []framing{
	{"length", func(b string) string { return fmt.Sprintf("Content-Length: %d\r\n\r\n%s", len(b), b) }},
	{"one chunk", chunks(1000, "")},
	{"chunks of 2", chunks(2, "")},
	{"chunks with a trailer", func(b string) string {
		return "Trailer: X\r\n" + strings.TrimSuffix(chunks(3, "")(b), "\r\n") + "X: y\r\n\r\n"
	}},
}

// op is an accessor of the body.
var ops = []string{"read0", "read1", "read2", "read5", "readall", "retrieve", "bytes", "string", "callback", "stop", "discard"}

// model is what is known of the body.
type model struct {
	left    string
	broken  bool // it ends with an error instead of the end
	full    string
	hasFull bool
	failed  bool // the error has been reported
}

type reader struct {
	req  *http.Request
	m    model
	keep []kept
}

type kept struct {
	got  []byte
	str  string
	want string
}

func (d *reader) take(got []byte) error {
	if len(got) > len(d.m.left) || d.m.left[:len(got)] != string(got) {
		return fmt.Errorf("got %q, though %q is left", got, d.m.left)
	}
	d.m.left = d.m.left[len(got):]
	return nil
}

// end judges an error that was returned with nothing more to come.
func (d *reader) end(err error) error {
	if d.m.broken {
		if err == nil || err == io.EOF {
			return fmt.Errorf("a broken body is taken for complete (%v)", err)
		}
		d.m.failed = true
		return nil
	}
	if err != nil && err != io.EOF {
		return fmt.Errorf("a sound body gives the error %v", err)
	}
	if d.m.left != "" {
		return fmt.Errorf("the end is reported though %q is left", d.m.left)
	}
	return nil
}

func (d *reader) do(op string) error {
	b := d.req.Body
	switch op {
	case "read0", "read1", "read2", "read5":
		buf := make([]byte, op[4]-'0')
		for i := 0; i < 100; i++ {
			n, err := b.Read(buf)
			if n > len(buf) || n < 0 {
				return fmt.Errorf("Read into %d bytes returned %d", len(buf), n)
			}
			if e := d.take(buf[:n]); e != nil {
				return e
			}
			if err != nil {
				return d.end(err)
			}
			if n > 0 || len(buf) == 0 {
				return nil
			}
		}
		return errors.New("Read makes no progress")
	case "readall":
		got, err := io.ReadAll(b)
		if e := d.take(got); e != nil {
			return e
		}
		return d.end(err)
	case "retrieve":
		got, err := b.Retrieve()
		if e := d.take(got); e != nil {
			return e
		}
		if err != nil {
			return d.end(err)
		}
	case "bytes", "string":
		var got []byte
		var str string
		var err error
		if op == "bytes" {
			got, err = b.Bytes()
		} else {
			str, err = b.String()
			got = []byte(str)
		}
		if d.m.hasFull {
			if err != nil || string(got) != d.m.full {
				return fmt.Errorf("again: %q, %v instead of %q", got, err, d.m.full)
			}
			return nil
		}
		if err == nil {
			if string(got) != d.m.left && !d.m.broken {
				return fmt.Errorf("got %q, though %q is left", got, d.m.left)
			}
			d.m.hasFull, d.m.full = true, d.m.left
			d.keep = append(d.keep, kept{got, str, d.m.left})
			d.m.left = ""
		}
		return d.end(err)
	case "callback":
		err := b.Callback(func(p []byte) error {
			if len(p) == 0 {
				return errors.New("called without data")
			}
			return d.take(p)
		})
		return d.end(err)
	case "stop":
		called := 0
		err := b.Callback(func(p []byte) error {
			called++
			if e := d.take(p); e != nil {
				return e
			}
			return errStop
		})
		if called > 1 {
			return errors.New("called again after its error")
		}
		if called == 1 {
			if err != errStop {
				return fmt.Errorf("the error of the callback is lost: %v", err)
			}
			return nil
		}
		return d.end(err)
	case "discard":
		err := b.Discard()
		d.m.left = ""
		return d.end(err)
	}
	return nil
}

func (d *reader) finish() error {
	for _, k := range d.keep {
		if k.got != nil && string(k.got) != k.want || k.str != "" && k.str != k.want {
			return fmt.Errorf("the body obtained before has become %q / %q instead of %q", k.got, k.str, k.want)
		}
	}
	return nil
}

func main() {
	mc.Main("C05", func(r *mc.R) {
		r.Assume("asking for the whole body again gives the same again")
		r.Assume("the chunked-body and buffer modules are stand-ins written from their documented behaviour")

		run := func(c *mc.C, stream string, conn *srv.Conn, bodies []string, broken bool, seqs [][]string, nexts int) error {
			key := fmt.Sprintf("%q %v", stream, seqs)
			if len(seqs) > 2 {
				key = fmt.Sprintf("%d requests like %q %v", len(seqs), stream[:200], seqs[:4])
			}
			c.Note("%s", key)
			var fail error
			n := 0
			router := srv.Funcs{}
			told := 0
			router.Request = func(req *http.Request) *http.Response {
				i := n
				n++
				if i >= len(bodies) {
					if b, err := req.Body.Bytes(); err != nil || len(b) > 0 || req.Path != "/next" {
						fail = fmt.Errorf("the next request is seen as %s with body %q, %v", srv.Describe(req), b, err)
					}
					return http.String(req, "ok")
				}
				d := &reader{req: req, m: model{left: bodies[i], broken: broken && i == len(bodies)-1}}
				for j, op := range seqs[i] {
					c.Step()
					if err := d.do(op); err != nil && fail == nil {
						fail = fmt.Errorf("request %d, accessor %d (%s): %w", i+1, j+1, op, err)
					}
				}
				if err := d.finish(); err != nil && fail == nil {
					fail = err
				}
				return http.String(req, "ok")
			}
			router.Error = func(req *http.Request, err error) *http.Response { told++; return nil }
			if err := srv.Serve(srv.Config(), conn, 0, router); err != nil {
				return mc.Failf("panic:"+key, "%v", err)
			}
			if fail != nil {
				return mc.Failf(key, "%v", fail)
			}
			want := len(bodies) + nexts
			if broken {
				want = len(bodies)
			}
			if n != want {
				return mc.Failf(key, "%d requests are served instead of %d: %q", n, want, conn.Out.String())
			}
			if told != 1 {
				return mc.Failf(key, "the application is told %d times about the end", told)
			}
			return nil
		}
		const next = "GET /next HTTP/1.1\r\n\r\n"
		pick := func(c *mc.C, n int) (seq []string) {
			for i := 0; i < n; i++ {
				k := c.Choose(len(ops) + 1)
				if k == 0 {
					break
				}
				seq = append(seq, ops[k-1])
			}
			return seq
		}
		deliver := func(c *mc.C, stream string, from int) *srv.Conn {
			// all single cuts, bytewise, and pairs of bytes
			p := c.Choose(len(stream) - from + 2)
			switch p {
			case len(stream) - from:
				return srv.NewConn(srv.Bytewise([]byte(stream))...)
			case len(stream) - from + 1:
				var at []int
				for i := 2; i < len(stream); i += 2 {
					at = append(at, i)
				}
				return srv.NewConn(srv.Split([]byte(stream), at...)...)
			}
			return srv.NewConn(srv.Split([]byte(stream), from+p)...)
		}
		lengths := []int{0, 1, 2, 4, 7}
		r.Space("accessors", func(c *mc.C) error {
			f := mc.Pick(c, framings)
			body := text[:mc.Pick(c, lengths)]
			head := "POST /b HTTP/1.1\r\n" + f.make(body)
			stream := head + next
			from := strings.Index(stream, "\r\n\r\n") + 3
			conn := deliver(c, stream, from)
			seq := pick(c, mc.Bound(r, 3, 4))
			c.State(f.name + body + fmt.Sprint(seq))
			return run(c, stream, conn, []string{body}, false, [][]string{seq}, 1)
		})
		r.Space("long-sequences", func(c *mc.C) error {
			f := mc.Pick(c, framings)
			body := text[:6]
			stream := "POST /b HTTP/1.1\r\n" + f.make(body) + next
			conn := srv.NewConn([]byte(stream))
			if c.Bool() {
				conn = srv.NewConn(srv.Bytewise([]byte(stream))...)
			}
			seq := pick(c, mc.Bound(r, 5, 6))
			c.State(f.name + body + fmt.Sprint(seq))
			return run(c, stream, conn, []string{body}, false, [][]string{seq}, 1)
		})
		r.Space("two-bodies", func(c *mc.C) error {
			stream := ""
			var bodies []string
			var seqs [][]string
			for i := 0; i < 2; i++ {
				f := mc.Pick(c, framings[:mc.Bound(r, 3, 4)])
				body := text[i*6:][:mc.Pick(c, []int{0, 1, 5})]
				stream += "POST /b HTTP/1.1\r\n" + f.make(body)
				bodies = append(bodies, body)
				seqs = append(seqs, pick(c, 2))
			}
			stream += next
			conn := srv.NewConn([]byte(stream))
			if c.Bool() {
				conn = srv.NewConn(srv.Bytewise([]byte(stream))...)
			}
			c.State(stream + fmt.Sprint(seqs))
			return run(c, stream, conn, bodies, false, seqs, 1)
		})
		r.Space("cut-short", func(c *mc.C) error {
			f := mc.Pick(c, framings)
			body := text[:1+c.Choose(6)]
			stream := "POST /b HTTP/1.1\r\n" + f.make(body)
			from := strings.Index(stream, "\r\n\r\n") + 4
			cut := from + c.Choose(len(stream)-from)
			stream = stream[:cut]
			conn := srv.NewConn([]byte(stream))
			if c.Bool() {
				conn = srv.NewConn(srv.Bytewise([]byte(stream))...)
			}
			conn.End = []error{io.EOF, srv.ErrRead}[c.Choose(2)]
			conn.EndWithData = c.Bool()
			seq := pick(c, mc.Bound(r, 3, 4))
			c.State(stream + fmt.Sprint(seq))
			return run(c, stream, conn, []string{body}, true, [][]string{seq}, 0)
		})
		r.Space("malformed-chunks", func(c *mc.C) error {
			bad := mc.Pick(c, []string{"x\r\n", "2\r\nabX\r\n0\r\n\r\n", "\r\n\r\n", "2\r\nab\r\ng\r\n", "2\r\nab\r\n0\rx", "-1\r\na\r\n0\r\n\r\n", "fffffffffffffffffff\r\na\r\n"})
			stream := "POST /b HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + bad
			body := "ab"
			from := strings.Index(stream, "\r\n\r\n") + 3
			seq := pick(c, 3)
			conn := deliver(c, stream+next, from)
			c.State(stream + fmt.Sprint(seq))
			return run(c, stream+next, conn, []string{body}, true, [][]string{seq}, 0)
		})
		// other headers around the one which announces chunks: the request is either refused or framed by its chunks
		around := []string{"", "Transfer-Encoding: gzip\r\n", "transfer-encoding: identity\r\n", "Transfer-Encoding: \r\n", "Content-Encoding: gzip\r\n",
			"Content-Length: 3\r\n", "Content-Length: 0\r\n", "Content-Length: 1000\r\n", "Transfer-Encoding: chunked\r\n", "Connection: keep-alive\r\n", "X: y\r\n"}
		r.Space("headers around chunks", func(c *mc.C) error {
			before, after := mc.Pick(c, around), mc.Pick(c, around)
			name := mc.Pick(c, []string{"Transfer-Encoding: chunked", "transfer-encoding: Chunked", "Transfer-Encoding: gzip, chunked", "Transfer-Encoding: x,CHUNKED"})
			body := text[:mc.Pick(c, lengths)]
			framed := mc.Pick(c, framings[1:3]).make(body)
			stream := "POST /b HTTP/1.1\r\n" + before + name + "\r\n" + after + strings.TrimPrefix(framed, "Transfer-Encoding: chunked\r\n") + next
			conn := srv.NewConn([]byte(stream))
			if c.Bool() {
				conn = srv.NewConn(srv.Bytewise([]byte(stream))...)
			}
			read := c.Bool()
			rec := &srv.Rec{Mode: "none"}
			if read {
				rec.Mode = "bytes"
			}
			got, served := "", 0
			var bodyErr error
			rec.Respond = func(i int, r *http.Request, desc, body string, err error) *http.Response {
				if served++; i == 0 {
					got, bodyErr = body, err
				}
				return http.String(r, "ok")
			}
			c.State(stream)
			obs, err := srv.Observe(srv.Config(), conn, rec)
			c.Steps(2)
			if err != nil {
				return mc.Failf("panic:"+stream, "%v", err)
			}
			if served == 0 {
				return nil // refused
			}
			if served == 2 && (!read || got == body) && bodyErr == nil {
				return nil
			}
			return mc.Failf(stream, "a body of %q framed by chunks is taken for %q (%v), %d requests are served instead of 2: %s", body, got, bodyErr, served, obs)
		})
		sizes := []int{1, 2, 100, 255, 256, 257, 511, 512, 513, 1000, 1024, 1500, 4096, 5000}
		r.Space("sizes", func(c *mc.C) error {
			// around the sizes of buffers
			n := mc.Pick(c, sizes)
			body := strings.Repeat(text, n/len(text)+1)[:n]
			f := mc.Pick(c, []framing{framings[0], framings[1], {"chunks of 100", chunks(100, "")}, {"chunks of 512", chunks(512, "")}})
			small := text[:5]
			stream := "POST /b HTTP/1.1\r\n" + f.make(body) + "POST /b HTTP/1.1\r\n" + framings[0].make(small) + next
			conn := srv.NewConn([]byte(stream))
			if k := mc.Pick(c, []int{0, 1, 100, 512}); k > 0 {
				var at []int
				for i := k; i < len(stream); i += k {
					at = append(at, i)
				}
				conn = srv.NewConn(srv.Split([]byte(stream), at...)...)
			}
			s1, s2 := pick(c, 2), []string{mc.Pick(c, []string{"bytes", "readall", "string"})}
			c.State(fmt.Sprint(n, f.name, s1, s2))
			return run(c, stream, conn, []string{body, small}, false, [][]string{s1, s2}, 1)
		})
		r.Space("json", func(c *mc.C) error {
			body := mc.Pick(c, []string{`{"a":1,"b":"x"}`, `{"a":1`, `[]`, ``, `{"a":"x"}`, `{"b":"\u0041"}`, ` {"a" : 7 } `})
			ct := mc.Pick(c, []string{"", "application/json", "text/html", "application/jsonx", "Application/xml"})
			f := mc.Pick(c, framings)
			h := ""
			if ct != "" {
				h = "Content-Type: " + ct + "\r\n"
			}
			stream := "POST /b HTTP/1.1\r\n" + h + f.make(body) + next
			from := strings.Index(stream, "\r\n\r\n") + 3
			conn := deliver(c, stream, from)
			key := fmt.Sprintf("%q", stream)
			c.Note("%s", key)
			type model struct {
				A int    `json:"a"`
				B string `json:"b"`
			}
			var fail error
			n := 0
			router := srv.Funcs{Error: func(*http.Request, error) *http.Response { return nil }}
			router.Request = func(req *http.Request) *http.Response {
				n++
				if n > 1 {
					return http.String(req, "ok")
				}
				var m model
				err := req.JSON(&m)
				c.Step()
				if ct != "" && ct != "application/json" {
					if err == nil {
						fail = fmt.Errorf("the content type %q is accepted", ct)
					}
					if m != (model{}) {
						fail = fmt.Errorf("the model is filled with %v", m)
					}
					return http.String(req, "ok")
				}
				switch body {
				case `{"a":1,"b":"x"}`:
					if err != nil || m.A != 1 || m.B != "x" {
						fail = fmt.Errorf("%v, %v", m, err)
					}
				case `{"b":"\u0041"}`:
					if err != nil || m.B != "A" {
						fail = fmt.Errorf("%v, %v", m, err)
					}
				case ` {"a" : 7 } `:
					if err != nil || m.A != 7 {
						fail = fmt.Errorf("%v, %v", m, err)
					}
				case `{"a":1`, `[]`, `{"a":"x"}`:
					if err == nil {
						fail = fmt.Errorf("malformed JSON is accepted as %v", m)
					}
				}
				return http.String(req, "ok")
			}
			if err := srv.Serve(srv.Config(), conn, 0, router); err != nil {
				return mc.Failf("panic:"+key, "%v", err)
			}
			c.State(key)
			if fail != nil {
				return mc.Failf(key, "%v", fail)
			}
			if n != 2 {
				return mc.Failf(key, "%d requests are served", n)
			}
			return nil
		})
		// bodies of every order of magnitude, read in large and in small pieces
		most := mc.Bound(r, 1<<20, 8<<20)
		large := mc.Ladder(most + 2)
		r.Space("large bodies", func(c *mc.C) error {
			n := mc.Pick(c, large)
			chunk := mc.Pick(c, []int{0, 1000, 65536, most * 2})
			readBuf := mc.Pick(c, []int{512, 100000, most + most/4})
			how := mc.Pick(c, []string{"bytes", "string", "readall", "callback", "retrieve", "nothing", "discard", "read 7", "read 5000", "read 7 and bytes", "read 7 and retrieve", "read 7 and discard", "read 100000"})
			key := fmt.Sprintf("a body of %d bytes in chunks of %d, a buffer of %d, %s", n, chunk, readBuf, how)
			c.Note("%s", key)
			body := pattern(n)
			head := "POST /b HTTP/1.1\r\n"
			framed := framings[0].make(body)
			if chunk > 0 {
				framed = chunks(chunk, "")(body)
			}
			cfg := srv.Config()
			cfg.Body.MaxSize = uint(n) + 5
			cfg.Body.MaxChunkSize = int64(n) + 5
			cfg.TCP.ReadBufferSize = readBuf
			small := text[:5]
			stream := head + framed + head + framings[0].make(small) + head + chunks(2, "")(small) + next
			conn := srv.NewConn([]byte(stream))
			if n <= 70000 && (strings.HasSuffix(how, "bytes") || how == "string") && c.Bool() {
				// what follows the body comes in a read of its own, and so it is put where the body was
				key += ", what follows comes later"
				conn = srv.NewConn(srv.Split([]byte(stream), len(head)+len(framed))...)
			}
			var fail error
			served := 0
			router := srv.Funcs{Error: func(*http.Request, error) *http.Response { return nil }}
			router.Request = func(req *http.Request) *http.Response {
				served++
				switch served {
				case 1:
					fail = readLarge(req.Body, body, how)
				case 2, 3:
					if b, err := req.Body.String(); (err != nil || b != small) && fail == nil {
						fail = fmt.Errorf("the body behind is %.50q, %v", b, err)
					}
				default:
					if b, err := req.Body.String(); (err != nil || b != "" || req.Path != "/next") && fail == nil {
						fail = fmt.Errorf("the request behind is %.50q with %.50q, %v", req.Path, b, err)
					}
				}
				return http.String(req, "ok")
			}
			if err := srv.Serve(cfg, conn, 0, router); err != nil {
				return mc.Failf(key, "%v", err)
			}
			c.Steps(4)
			if fail != nil {
				return mc.Failf(key, "%v", fail)
			}
			if served != 4 {
				return mc.Failf(key, "%d requests are served instead of 4", served)
			}
			c.State(key)
			return nil
		})
		r.Space("large bodies, cut short", func(c *mc.C) error {
			n := mc.Pick(c, large)
			if n == 0 {
				return mc.ErrSkip
			}
			f := mc.Pick(c, []framing{framings[0], {"chunks of 65536", chunks(65536, "")}})
			body := pattern(n)
			stream := "POST /b HTTP/1.1\r\n" + f.make(body)
			from := strings.Index(stream, "\r\n\r\n") + 4
			cut := mc.Pick(c, []int{from, from + 1, (from + len(stream)) / 2, len(stream) - 1})
			if cut >= len(stream) {
				return mc.ErrSkip
			}
			seq := pick(c, 2)
			conn := srv.NewConn([]byte(stream[:cut]))
			c.Note("%d bytes in %s up to %d %v", n, f.name, cut, seq)
			c.State(fmt.Sprint(n, f.name, cut, seq))
			return run(c, stream[:cut], conn, []string{body}, true, [][]string{seq}, 0)
		})
		// a connection which lives long, with a repeating pattern of bodies and accessors
		times := mc.Bound(r, 300, 2000)
		r.Space("many bodies", func(c *mc.C) error {
			period := 1 + c.Choose(2)
			var fs []framing
			var seqs [][]string
			for i := 0; i < period; i++ {
				fs = append(fs, mc.Pick(c, framings[:3]))
				seqs = append(seqs, pick(c, 2))
			}
			var stream strings.Builder
			var bodies []string
			var all [][]string
			for i := 0; i < times; i++ {
				body := strings.Repeat(text[i%16:i%16+1], i%23)
				stream.WriteString("POST /b HTTP/1.1\r\n" + fs[i%period].make(body))
				bodies, all = append(bodies, body), append(all, seqs[i%period])
			}
			stream.WriteString(next)
			c.State(fmt.Sprint(period, seqs))
			return run(c, stream.String(), srv.NewConn([]byte(stream.String())), bodies, false, all, 1)
		})
		// connections of tens of thousands of requests
		r.Space("long-lived connections", func(c *mc.C) error {
			n, kind, group := mc.Pick(c, srv.Lengths), mc.Pick(c, []string{"mixed", "bodies", "chunks"}[:mc.Bound(r, 1, 3)]), mc.Pick(c, []int{1, 7})
			if n > mc.Bound(r, 70000, 1<<20) {
				return mc.ErrSkip
			}
			key := fmt.Sprintf("%d requests of the kind %s, %d at once", n, kind, group)
			c.Note("%s", key)
			c.Steps(n)
			c.State(key)
			if err := srv.Long(kind, n, group); err != nil {
				return mc.Failf("long:"+key, "%v", err)
			}
			return nil
		})
	})
}

func pattern(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte((i+i/251+i/65521)%26)
	}
	return string(b)
}

func readLarge(b http.Body, body, how string) error {
	var got []byte
	var err error
	var n int
	left := body
	if strings.HasPrefix(how, "read ") {
		size := 7
		fmt.Sscanf(how, "read %d", &size)
		buf := make([]byte, size)
		for {
			n, err = b.Read(buf)
			if n > len(left) || string(buf[:n]) != left[:n] {
				return fmt.Errorf("the bytes at %d are wrong", len(body)-len(left))
			}
			left = left[n:]
			if err == io.EOF {
				break
			} else if err != nil {
				return err
			}
			if strings.Contains(how, "and") {
				how = how[len("read 7 and "):]
				break
			}
		}
		if err == io.EOF && left != "" {
			return fmt.Errorf("%d bytes are missing", len(left))
		}
	}
	err = nil
	switch how {
	case "bytes":
		got, err = b.Bytes()
		if err == nil && string(got) == left {
			got, err = b.Bytes()
		}
	case "string":
		var s string
		s, err = b.String()
		got = []byte(s)
	case "readall":
		got, err = io.ReadAll(b)
	case "callback":
		err = b.Callback(func(p []byte) error {
			got = append(got, p...)
			return nil
		})
	case "retrieve":
		for err == nil {
			var p []byte
			p, err = b.Retrieve()
			got = append(got, p...)
		}
		if err == io.EOF {
			err = nil
		}
	case "discard":
		return b.Discard()
	default:
		return nil
	}
	if err != nil || string(got) != left {
		return fmt.Errorf("got %d bytes of %d, equal %v, %v", len(got), len(left), string(got) == left, err)
	}
	return nil
}
