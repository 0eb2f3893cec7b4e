package main

import (
	"fmt"
	"net"
	"sync/atomic"
	"time"

	"github.com/indigo-web/indigo/internal/tcp"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
)

// Many connections at once, and one after another, without a controlled schedule: whatever happens, every
// one is handled once and closed afterwards, however long the others are being served.

type plainConn struct {
	conn
	handled, closed int32
	done            chan struct{}
}

func (c *plainConn) Close() error {
	if atomic.AddInt32(&c.closed, 1) == 1 {
		close(c.done)
	}
	return nil
}

type plainListener struct {
	queue chan net.Conn
	end   chan struct{}
}

func (l *plainListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.queue:
		return c, nil
	case <-l.end:
		return nil, net.ErrClosed
	}
}
func (l *plainListener) Close() error   { close(l.end); return nil }
func (l *plainListener) Addr() net.Addr { return &net.TCPAddr{} }

const patience = 20 * time.Second

func load(r *mc.R) {
	r.Space("many connections", func(c *mc.C) error {
		n := mc.Pick(c, mc.Ladder(mc.Bound(r, 1100, 5000))[1:])
		how := mc.Pick(c, []string{"all at once", "one after another", "the first outlasts all"})
		key := fmt.Sprintf("%d connections, %s", n, how)
		c.Note("%s", key)
		l := &plainListener{queue: make(chan net.Conn), end: make(chan struct{})}
		release := make(chan struct{})
		var serving int32
		full := make(chan struct{})
		s := tcp.NewServer(l, func(nc net.Conn) {
			pc := nc.(*plainConn)
			atomic.AddInt32(&pc.handled, 1)
			if atomic.AddInt32(&serving, 1) == int32(n) {
				close(full)
			}
			if how == "all at once" || how == "the first outlasts all" && pc.id == 0 {
				<-release
			}
		})
		ended := make(chan error, 1)
		go func() { ended <- s.Start() }()
		conns := make([]*plainConn, n)
		late := time.After(patience)
		wait := func(ch <-chan struct{}) bool {
			select {
			case <-ch:
				return true
			case <-late:
				return false
			}
		}
		for i := range conns {
			conns[i] = &plainConn{conn: conn{id: i}, done: make(chan struct{})}
			select {
			case l.queue <- conns[i]:
			case <-late:
				return mc.Failf("load:"+key, "connection %d is not accepted", i)
			}
			if how != "all at once" && (i > 0 || how == "one after another") && !wait(conns[i].done) {
				return mc.Failf("load:"+key, "connection %d is not closed", i)
			}
		}
		c.Steps(n)
		if !wait(full) {
			return mc.Failf("load:"+key, "only %d connections are handled while others are being served", atomic.LoadInt32(&serving))
		}
		if how != "one after another" && atomic.LoadInt32(&conns[0].closed) != 0 {
			return mc.Failf("load:"+key, "the connection is closed while being served")
		}
		close(release)
		_ = s.Stop()
		over := make(chan struct{})
		go func() { s.Wait(); close(over) }()
		if !wait(over) {
			return mc.Failf("load:"+key, "waiting does not end")
		}
		for i, pc := range conns {
			if h, cl := atomic.LoadInt32(&pc.handled), atomic.LoadInt32(&pc.closed); h != 1 || cl < 1 {
				return mc.Failf("load:"+key, "connection %d was handled %d times and closed %d times", i, h, cl)
			}
		}
		select {
		case <-ended:
		case <-late:
			return mc.Failf("load:"+key, "the accept loop does not end")
		}
		c.State(key)
		return nil
	})
}
