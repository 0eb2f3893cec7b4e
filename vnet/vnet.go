// Package vnet has listeners and connections for executions under the controlled scheduler.
package vnet

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"time"

	"github.com/indigo-web/indigo/internal/verifmc/vsched"
)

// ErrAccept is what a failing Accept returns.
var ErrAccept = errors.New("accept failed")

// World logs what happens in one execution. The scheduler lets one goroutine run at a time, so
// that nothing here needs locking.
type World struct {
	Log  []string
	Seq  int
	Over bool
}

// Ev logs an event and returns its sequence number.
func (w *World) Ev(format string, args ...any) int {
	w.Seq++
	w.Log = append(w.Log, fmt.Sprintf(format, args...))
	return w.Seq
}

// Conn is a connection.
type Conn struct {
	W  *World
	ID int
	// sequence numbers, 0 is never
	Connected, Accepted, Handled, Ended, Closed int
	HandledTimes, ClosedTimes                   int
	AcceptedBy                                  string
}

// Read shows that the connection is being served by something that reads it, and ends it.
func (c *Conn) Read([]byte) (int, error) {
	if c.Handled == 0 {
		c.HandledTimes++
		c.Handled = c.W.Ev("conn %d handled", c.ID)
	}
	vsched.At("serving")
	c.Ended = c.W.Ev("conn %d handler ends", c.ID)
	return 0, io.EOF
}
func (c *Conn) Write(b []byte) (int, error)      { return len(b), nil }
func (c *Conn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *Conn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *Conn) SetDeadline(time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(time.Time) error { return nil }
func (c *Conn) Close() error {
	c.ClosedTimes++
	c.Closed = c.W.Ev("conn %d closed", c.ID)
	return nil
}

// Listener is a listener; without SetDeadline.
type Listener struct {
	W        *World
	Name     string
	Queue    []*Conn
	ClosedAt int
	expired  bool
	Fail     int // accepting fails after so many connections; -1 is never
	NAccept  int
	Failed   int
	CloseErr error // closing works, but reports this
	OnClose  func()
}

func (l *Listener) Accept() (net.Conn, error) {
	vsched.Block(l.Name+".Accept", func() bool {
		return l.ClosedAt != 0 || l.expired || len(l.Queue) > 0 || l.Fail == l.NAccept || l.W.Over
	})
	switch {
	case l.W.Over, l.ClosedAt != 0:
		return nil, net.ErrClosed
	case l.expired:
		return nil, os.ErrDeadlineExceeded
	case l.Fail == l.NAccept:
		l.Failed = l.W.Ev("%s: accepting fails", l.Name)
		return nil, ErrAccept
	}
	c := l.Queue[0]
	l.Queue = l.Queue[1:]
	l.NAccept++
	c.AcceptedBy = l.Name
	c.Accepted = l.W.Ev("%s: conn %d accepted", l.Name, c.ID)
	return c, nil
}

func (l *Listener) Close() error {
	at := l.W.Ev("%s closed", l.Name)
	if l.ClosedAt != 0 {
		return net.ErrClosed
	}
	l.ClosedAt = at
	if l.OnClose != nil {
		l.OnClose()
	}
	return l.CloseErr
}

func (l *Listener) Addr() net.Addr { return &net.TCPAddr{} }

// Deadliner is a listener with SetDeadline.
type Deadliner struct{ *Listener }

func (l Deadliner) SetDeadline(t time.Time) error {
	l.W.Ev("%s: deadline", l.Name)
	l.expired = !t.IsZero() && !t.After(time.Now().Add(time.Millisecond))
	return nil
}
