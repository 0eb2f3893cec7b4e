// C21: the connection client is a faithful byte stream: what the peer sent is read exactly
// once and in order, what is put back comes first, what is written reaches the connection.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/indigo-web/indigo/internal/tcp"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
)

var (
	errReset    = errors.New("connection reset")
	errTimeout  = errors.New("i/o timeout")
	errDeadline = errors.New("cannot set the deadline")
	errClose    = errors.New("cannot close")
)

type addr string

func (a addr) Network() string { return "fake" }
func (a addr) String() string  { return string(a) }

// conn is a scripted connection: every answer is a choice.
type conn struct {
	c         *mc.C
	next      byte // the stream is 1, 2, 3, ...
	reads     int
	written   []byte
	closed    int
	deadlines []time.Time
	armed     bool // a deadline was set since the last read
	unarmed   bool // a read happened without a fresh deadline
	failArm   bool
	lastN     int
	lastErr   error
	writeErr  error
	closeErr  error
}

func (f *conn) Read(b []byte) (int, error) {
	f.reads++
	if !f.armed {
		f.unarmed = true
	}
	f.armed = false
	// n in 0..min(len, 3), with or without an error
	most := len(b)
	if most > 3 {
		most = 3
	}
	n := f.c.Choose(most + 1)
	for i := 0; i < n; i++ {
		f.next++
		b[i] = f.next
	}
	f.lastN = n
	f.lastErr = []error{nil, io.EOF, errTimeout, errReset}[f.c.Choose(4)]
	f.c.Note("conn.Read(%d bytes) = %d, %v", len(b), n, f.lastErr)
	return n, f.lastErr
}
func (f *conn) Write(b []byte) (int, error) {
	f.written = append(f.written, b...)
	return len(b), f.writeErr
}
func (f *conn) Close() error         { f.closed++; return f.closeErr }
func (f *conn) LocalAddr() net.Addr  { return addr("local") }
func (f *conn) RemoteAddr() net.Addr { return addr("remote") }
func (f *conn) SetDeadline(t time.Time) error {
	return f.SetReadDeadline(t)
}
func (f *conn) SetReadDeadline(t time.Time) error {
	if f.failArm {
		return errDeadline
	}
	f.armed = true
	f.deadlines = append(f.deadlines, t)
	return nil
}
func (f *conn) SetWriteDeadline(time.Time) error { return nil }

func run(c *mc.C, depth int) error {
	size := []int{1, 3}[c.Choose(2)]
	timeout := []time.Duration{0, time.Hour, 0, 90 * time.Second}[size]
	f := &conn{c: c}
	client := tcp.NewClient(f, timeout, make([]byte, size))
	if client.Conn() != net.Conn(f) {
		return mc.Failf("conn", "Conn() does not return the connection")
	}
	if client.Remote() == nil || client.Remote().String() != "remote" {
		return mc.Failf("remote", "Remote() is %v", client.Remote())
	}

	var (
		last     []byte // what the last Read returned
		lastCopy []byte
		pending  []byte // what was put back
		canPut   bool
		written  []byte
		hist     string
		owed     error // came with data, and is to be reported by the next Read
	)
	intact := func(op string) error {
		if !bytes.Equal(last, lastCopy) {
			return mc.Failf("clobbered:"+hist, "%s changed the data the last Read returned: %v, was %v", op, last, lastCopy)
		}
		return nil
	}

	for i := 0; i < depth; i++ {
		c.Step()
		ops := 3 // read, write, stop
		if canPut {
			ops = 3 + len(last) + 1
		}
		switch op := c.Choose(ops); {
		case op == 0:
			hist += "R"
			failArm := len(pending) == 0 && owed == nil && c.Bool()
			f.failArm = failArm
			if len(pending) > 0 {
				reads := f.reads
				data, err := client.Read()
				c.Note("Read() = %v, %v (put back %v)", data, err, pending)
				if err != nil || !bytes.Equal(data, pending) {
					return mc.Failf("putback:"+hist, "Read() after putting %v back returned %v, %v", pending, data, err)
				}
				if f.reads != reads {
					return mc.Failf("extra-read:"+hist, "the connection was read although %v was put back", pending)
				}
				last, pending = data, nil
			} else if owed != nil {
				reads := f.reads
				data, err := client.Read()
				c.Note("Read() = %v, %v (owed %v)", data, err, owed)
				if err != owed || len(data) > 0 || f.reads != reads {
					return mc.Failf("lost-error:"+hist, "the error %v the connection reported with data is lost: Read() returned %v, %v", owed, data, err)
				}
				last, owed = nil, nil
			} else {
				reads, had, from := f.reads, len(f.deadlines), f.next
				before := time.Now()
				data, err := client.Read()
				after := time.Now()
				c.Note("Read() = %v, %v", data, err)
				if failArm {
					if f.reads != reads {
						return mc.Failf("read-undeadlined:"+hist, "read although the deadline could not be set")
					}
					if err != errDeadline || len(data) > 0 {
						return mc.Failf("deadline-error:"+hist, "the error of setting the deadline is not reported: %v, %v", data, err)
					}
					last, lastCopy, canPut = nil, nil, false
					break
				}
				if f.reads != reads+1 {
					return mc.Failf("reads:"+hist, "one Read made %d reads of the connection", f.reads-reads)
				}
				if f.unarmed || len(f.deadlines) == had {
					return mc.Failf("no-deadline:"+hist, "the connection was read without arming the read timeout")
				}
				at := f.deadlines[len(f.deadlines)-1]
				if at.Before(before.Add(timeout)) || at.After(after.Add(timeout)) {
					return mc.Failf("deadline:"+hist, "the deadline is %v away, want %v", at.Sub(before), timeout)
				}
				if err == nil && f.lastErr != nil && f.lastN > 0 {
					owed = f.lastErr
				} else if err != f.lastErr {
					return mc.Failf("error:"+hist, "the connection reported %v, Read() returned %v", f.lastErr, err)
				}
				var want []byte
				for b := from; b != f.next; b++ {
					want = append(want, b+1)
				}
				if !bytes.Equal(data, want) {
					return mc.Failf("data:"+hist, "the connection delivered %v (%v), Read() returned %v", want, f.lastErr, data)
				}
				last = data
			}
			lastCopy = append([]byte(nil), last...)
			canPut = true
		case op == 1:
			hist += "W"
			data := [][]byte{{}, {0xA1}, {0xB1, 0xB2, 0xB3}}[c.Choose(3)]
			f.writeErr = []error{nil, errReset}[c.Choose(2)]
			err := client.Write(data)
			c.Note("Write(%v) = %v", data, err)
			if err != f.writeErr && !(len(data) == 0 && err == nil) { // nothing has to be written then
				return mc.Failf("write-error:"+hist, "the connection reported %v, Write returned %v", f.writeErr, err)
			}
			written = append(written, data...)
			if !bytes.Equal(written, f.written) {
				return mc.Failf("written:"+hist, "wrote %v, the connection has got %v", written, f.written)
			}
			if err := intact("Write"); err != nil {
				return err
			}
		case op == 2:
			f.closeErr = []error{nil, errClose}[c.Choose(2)]
			if err := client.Close(); err != f.closeErr || f.closed != 1 {
				return mc.Failf("close:"+hist, "Close() returned %v and closed %d times", err, f.closed)
			}
			return nil
		default:
			// put a suffix back, exactly as the server does
			k := op - 3
			hist += fmt.Sprintf("U%d", k)
			rest := last[len(last)-k:]
			client.Unread(rest)
			c.Note("Unread(%v)", rest)
			pending = append([]byte(nil), rest...)
			canPut = false
			if err := intact("Unread"); err != nil {
				return err
			}
		}
		c.State(fmt.Sprint(size, pending, last, f.next, len(written), canPut))
	}
	if f.closed != 0 {
		return mc.Failf("closed:"+hist, "the connection was closed by itself")
	}
	return nil
}

func streamByte(i int) byte { return byte(i*7 + i/256) }

// stream is a connection that always has data and takes everything.
type stream struct {
	conn
	pos, most, reads int
	fresh, stale     bool
	out              []byte
}

func (f *stream) Read(b []byte) (int, error) {
	f.reads++
	if !f.fresh {
		f.stale = true
	}
	f.fresh = false
	if f.most > 0 && len(b) > f.most {
		b = b[:f.most]
	}
	for i := range b {
		b[i] = streamByte(f.pos)
		f.pos++
	}
	return len(b), nil
}
func (f *stream) Write(b []byte) (int, error)       { f.out = append(f.out, b...); return len(b), nil }
func (f *stream) SetReadDeadline(t time.Time) error { f.fresh = true; return nil }
func (f *stream) SetDeadline(t time.Time) error     { f.fresh = true; return nil }

func main() {
	mc.Main("C21", func(r *mc.R) {
		depth := mc.Bound(r, 5, 6)
		r.Assume("the connection honours net.Conn: a write of fewer bytes reports an error")
		r.Space("operation-sequences", func(c *mc.C) error { return run(c, depth) })
		// large buffers, and long connections
		r.Space("sizes", func(c *mc.C) error {
			size := mc.Pick(c, mc.Ladder(70000)[1:])
			reads := mc.Pick(c, []int{1, 2, 3, 70, 300})
			how := c.Choose(5)
			if size > 5000 && reads > 3 {
				return mc.ErrSkip
			}
			key := fmt.Sprintf("buffer %d, %d reads, %d", size, reads, how)
			c.Note("%s", key)
			f := &stream{}
			client := tcp.NewClient(f, time.Minute, make([]byte, size))
			at := 0
			var back []byte
			for i := 0; i < reads; i++ {
				switch how {
				case 1:
					f.most = 1 + i%size
				case 2:
					f.most = (size + 1) / 2
				}
				had, pos := f.reads, f.pos
				data, err := client.Read()
				c.Step()
				if err != nil {
					return mc.Failf(key, "read %d: %v", i, err)
				}
				if len(back) > 0 && (f.reads != had || len(data) != len(back)) {
					return mc.Failf(key, "read %d: put back %d bytes, got %d", i, len(back), len(data))
				}
				if len(back) == 0 && (f.reads != had+1 || f.stale || len(data) != f.pos-pos) {
					return mc.Failf(key, "read %d: %d reads, without arming the timeout %v, %d bytes", i, f.reads-had, f.stale, len(data))
				}
				for j, b := range data {
					if b != streamByte(at+j) {
						return mc.Failf(key, "read %d: the byte at %d is wrong", i, at+j)
					}
				}
				keep := len(data)
				switch how {
				case 3:
					keep = len(data) / 2
				case 4:
					keep = len(data) - len(data)/3
				}
				at += keep
				back = data[keep:]
				if i%3 == 0 {
					// nothing is put back
					at += len(back)
					back = nil
				}
				client.Unread(back)
				if i%2 == 0 {
					from := len(f.out)
					msg := bytes.Repeat([]byte{byte(i)}, size)
					if err := client.Write(msg); err != nil || !bytes.Equal(f.out[from:], msg) {
						return mc.Failf(key, "write %d: %v, %d of %d bytes", i, err, len(f.out)-from, size)
					}
				}
			}
			c.State(key)
			return nil
		})
		// data which does not come from the connection may be put back as well
		r.Space("foreign", func(c *mc.C) error {
			n := mc.Pick(c, []int{1, 3, 8, 9, 64, 5000})
			key := fmt.Sprint("foreign ", n)
			f := &stream{}
			client := tcp.NewClient(f, time.Minute, make([]byte, 8))
			at := 0
			for i := 0; i < 3; i++ {
				var held, was []byte
				if c.Bool() {
					data, err := client.Read()
					held, was = data, append([]byte(nil), data...)
					if err != nil || len(data) != 8 || data[0] != streamByte(at) {
						return mc.Failf(key, "read: %v %v", data, err)
					}
					at += 8
				}
				other := bytes.Repeat([]byte{byte(200 + i)}, n)
				client.Unread(other)
				if !bytes.Equal(held, was) {
					return mc.Failf(key, "putting other data back changed what was read: %v, was %v", held, was)
				}
				pos := f.pos
				data, err := client.Read()
				if err != nil || !bytes.Equal(data, bytes.Repeat([]byte{byte(200 + i)}, n)) || f.pos != pos {
					return mc.Failf(key, "put back %d bytes, got %d, %v", n, len(data), err)
				}
			}
			c.Step()
			return nil
		})
		// any part of what was read may be put back, any number of times
		r.Space("parts", func(c *mc.C) error {
			size := 1 + c.Choose(9)
			f := &stream{most: 1 + c.Choose(size)}
			client := tcp.NewClient(f, time.Minute, make([]byte, size))
			data, err := client.Read()
			if err != nil || len(data) != f.most {
				return mc.Failf("parts", "read: %v %v", data, err)
			}
			for i := 0; i < 3 && len(data) > 0; i++ {
				was := append([]byte(nil), data...)
				from := c.Choose(len(data))
				to := from + 1 + c.Choose(len(data)-from)
				client.Unread(data[from:to])
				key := fmt.Sprintf("%v of a buffer of %d, put back from %d to %d", was, size, from, to)
				if !bytes.Equal(data, was) {
					return mc.Failf(key, "putting data back changed it to %v", data)
				}
				next, err := client.Read()
				c.Step()
				if err != nil || f.reads != 1 || !bytes.Equal(next, was[from:to]) || !bytes.Equal(data, was) {
					return mc.Failf(key, "the next read gave %v, %v with %d reads of the connection, the data is %v", next, err, f.reads, data)
				}
				data = next
			}
			return nil
		})
		// errors of every kind, alone or together with data, and what a connection does afterwards
		r.Space("errors", func(c *mc.C) error {
			kind := c.Choose(len(kinds))
			n := c.Choose(4)
			good := c.Choose(3)
			write := c.Bool()
			key := fmt.Sprintf("the error %v with %d bytes behind %d successes, writing %v", kinds[kind], n, good, write)
			f := &faulty{good: good, n: n, err: kinds[kind]}
			client := tcp.NewClient(f, time.Minute, make([]byte, 3))
			for i := 0; i < good+2; i++ {
				c.Step()
				f.calls = 0
				if write {
					msg := []byte{1, 2, 3}
					err := client.Write(msg)
					var want error
					if i == good {
						want = kinds[kind]
					}
					if err != want || f.calls != 1 {
						return mc.Failf(key, "write %d: %v after %d writes of the connection", i, err, f.calls)
					}
					continue
				}
				data, err := client.Read()
				if i == good && n > 0 && err == nil {
					if f.calls != 1 || !bytes.Equal(data, bytes.Repeat([]byte{byte(i)}, n)) {
						return mc.Failf(key, "read %d: %v after %d reads of the connection", i, data, f.calls)
					}
					// the error is still owed
					f.calls = 0
					if data, err = client.Read(); err != kinds[kind] || len(data) > 0 || f.calls != 0 {
						return mc.Failf(key, "the error is lost: %v, %v after %d reads of the connection", data, err, f.calls)
					}
					continue
				}
				want, wantErr := bytes.Repeat([]byte{byte(i)}, 2), error(nil)
				if i == good {
					want, wantErr = want[:0], kinds[kind]
					for j := 0; j < n; j++ {
						want = append(want, byte(i))
					}
				}
				if err != wantErr || !bytes.Equal(data, want) || f.calls != 1 {
					return mc.Failf(key, "read %d: %v, %v after %d reads of the connection", i, data, err, f.calls)
				}
			}
			c.State(key)
			return nil
		})
		r.Space("large writes", func(c *mc.C) error {
			n := mc.Pick(c, mc.Ladder(mc.Bound(r, 4<<20, 64<<20)+2))
			f := &stream{}
			client := tcp.NewClient(f, time.Minute, make([]byte, 8))
			msg := make([]byte, n)
			for i := range msg {
				msg[i] = streamByte(i)
			}
			key := fmt.Sprintf("writing %d bytes", n)
			for i := 0; i < 2; i++ {
				f.out = f.out[:0]
				if err := client.Write(msg); err != nil || !bytes.Equal(f.out, msg) {
					return mc.Failf(key, "%v, %d bytes arrive", err, len(f.out))
				}
				c.Step()
			}
			for i := range msg {
				if msg[i] != streamByte(i) {
					return mc.Failf(key, "the written data was changed")
				}
			}
			c.State(key)
			return nil
		})
	})
}

// netError is an error of the network.
type netError struct{ timeout, temporary bool }

func (e *netError) Error() string {
	return fmt.Sprintf("timeout %v, temporary %v", e.timeout, e.temporary)
}
func (e *netError) Timeout() bool   { return e.timeout }
func (e *netError) Temporary() bool { return e.temporary }

var kinds = []error{
	io.EOF, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrShortWrite, io.ErrClosedPipe, io.ErrShortBuffer,
	net.ErrClosed, os.ErrDeadlineExceeded, context.Canceled, context.DeadlineExceeded, errReset,
	&netError{}, &netError{true, false}, &netError{false, true}, &netError{true, true},
	&net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)},
	&net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.EINTR)},
	&net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.EAGAIN)},
	&net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)},
	&net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded},
	&net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed},
	syscall.EINTR, syscall.EAGAIN, syscall.ECONNRESET, syscall.EPIPE, syscall.ETIMEDOUT,
	fmt.Errorf("wrapped: %w", io.EOF),
}

// faulty succeeds a number of times, fails once and succeeds then.
type faulty struct {
	conn
	good, n, i, calls int
	err               error
}

func (f *faulty) Read(b []byte) (int, error) {
	i := f.i
	f.i++
	f.calls++
	n := 2
	if i == f.good {
		n = f.n
	}
	for j := 0; j < n; j++ {
		b[j] = byte(i)
	}
	if i == f.good {
		return n, f.err
	}
	return n, nil
}

func (f *faulty) Write(b []byte) (int, error) {
	i := f.i
	f.i++
	f.calls++
	if i == f.good {
		return f.n, f.err
	}
	return len(b), nil
}
func (f *faulty) SetReadDeadline(t time.Time) error { return nil }
