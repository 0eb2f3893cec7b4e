// C26: accepting, pausing and stopping a server, under every schedule up to a preemption bound.
package main

import (
	"errors"
	"fmt"
	"net"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/indigo-web/indigo/internal/tcp"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/vsched"
)

// world is what happens in one execution. The scheduler lets one goroutine run at a time, so that
// nothing here needs locking.
type world struct {
	log     []string
	conns   []*conn
	seq     int
	closing bool // the world is over
}

func (w *world) ev(format string, args ...any) int {
	w.seq++
	w.log = append(w.log, fmt.Sprintf(format, args...))
	return w.seq
}

var errAccept = errors.New("accept failed")

type conn struct {
	w  *world
	id int
	// sequence numbers, 0 is never
	accepted, handled, ended, closed int
	handledTimes, closedTimes        int
	// read blocks until the client speaks or the connection is closed
	said bool
}

func (c *conn) Read([]byte) (int, error)         { return 0, errors.New("unused") }
func (c *conn) Write(b []byte) (int, error)      { return len(b), nil }
func (c *conn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *conn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *conn) SetDeadline(time.Time) error      { return nil }
func (c *conn) SetReadDeadline(time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(time.Time) error { return nil }
func (c *conn) Close() error {
	c.closedTimes++
	c.closed = c.w.ev("conn %d closed", c.id)
	return nil
}

type listener struct {
	w       *world
	name    string
	queue   []*conn
	closed  bool
	expired bool
	fail    int // accepting fails after so many connections; -1 is never
	nAccept int
	closes  int
	fault   fault
}

// fault is what the socket refuses to do
type fault int

const (
	noFault       fault = iota
	closeReports        // closing works, but reports an error
	closeFails          // closing fails, the socket goes on accepting
	deadlineFails       // deadlines can't be set
)

var errFault = errors.New("socket fault")

func (l *listener) Accept() (net.Conn, error) {
	vsched.Block(l.name+".Accept", func() bool {
		return l.closed || l.expired || len(l.queue) > 0 || l.fail == l.nAccept || l.w.closing
	})
	switch {
	case l.w.closing, l.closed:
		return nil, net.ErrClosed
	case l.expired:
		return nil, os.ErrDeadlineExceeded
	case l.fail == l.nAccept:
		l.w.ev("%s: accepting fails", l.name)
		return nil, errAccept
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	l.nAccept++
	c.accepted = l.w.ev("%s: conn %d accepted", l.name, c.id)
	return c, nil
}

func (l *listener) Close() error {
	l.closes++
	l.w.ev("%s closed", l.name)
	if l.closed {
		return net.ErrClosed
	}
	if l.fault == closeFails {
		return errFault
	}
	l.closed = true
	if l.fault == closeReports {
		return errFault
	}
	return nil
}
func (l *listener) Addr() net.Addr { return &net.TCPAddr{} }

type deadliner struct{ *listener }

func (l deadliner) SetDeadline(t time.Time) error {
	l.w.ev("%s: deadline", l.name)
	if l.fault == deadlineFails {
		return errFault
	}
	l.expired = !t.IsZero() && !t.After(time.Now().Add(time.Millisecond))
	return nil
}

var (
	all   = []string{"pause+wait", "stop+wait", "pauseall", "stopall", "graceful", "wait", "pause|pause", "pause|stop", "stop|stop", "stopall twice"}
	basic = []string{"pauseall", "stopall"}
	some  = []string{"pauseall", "stopall", "graceful", "wait"}
)

func explore(scripts []string, servers int, conns, preemptions int, withDeadline bool, fail int, faults ...fault) func(c *mc.C) error {
	return func(c *mc.C) error {
		flt := noFault
		if len(faults) > 0 {
			flt = mc.Pick(c, faults)
		}
		script := mc.Pick(c, scripts)
		w := &world{}
		srvs := make([]*tcp.Server, servers)
		ls := make([]*listener, servers)
		startErr := make([]error, servers)
		startEnd := make([]int, servers)
		waitEnd := map[string]int{}
		pausedAt, stoppedAt := 0, 0
		for i := range srvs {
			ls[i] = &listener{w: w, name: fmt.Sprintf("l%d", i), fail: -1}
			if i == 0 {
				ls[i].fail = fail
				ls[i].fault = flt
			}
			var nl net.Listener = ls[i]
			if withDeadline {
				nl = deadliner{ls[i]}
			}
			srvs[i] = tcp.NewServer(nl, func(nc net.Conn) {
				cc := nc.(*conn)
				cc.handledTimes++
				cc.handled = w.ev("conn %d handled", cc.id)
				if script == "dependent" {
					// the first client is done only once the last is being served
					vsched.Block("serving", func() bool { return w.conns[len(w.conns)-1].handled != 0 })
				} else {
					vsched.At("serving")
				}
				cc.ended = w.ev("conn %d handler ends", cc.id)
			})
		}
		for i := 0; i < conns; i++ {
			w.conns = append(w.conns, &conn{w: w, id: i})
		}
		c.Note("script %s, %d servers, %d connections, deadlines %v, fail after %d, socket fault %d", script, servers, conns, withDeadline, fail, flt)
		x, res := vsched.Run(c, preemptions, 4000, func(x *vsched.X) {
			for i := range srvs {
				i := i
				x.Go(fmt.Sprintf("start%d", i), func() {
					startErr[i] = srvs[i].Start()
					startEnd[i] = w.ev("start %d returns %v", i, startErr[i])
				})
			}
			x.Go("client", func() {
				for i, cc := range w.conns {
					if i > 0 {
						vsched.At("connect")
					}
					l := ls[i%len(ls)]
					if l.closed {
						continue
					}
					w.ev("conn %d connects", cc.id)
					l.queue = append(l.queue, cc)
				}
			})
			pause := func() {
				w.ev("pause")
				if pausedAt == 0 {
					pausedAt = w.seq
				}
				for _, s := range srvs {
					s.Pause()
				}
				w.ev("paused")
			}
			stop := func() {
				w.ev("stop")
				if stoppedAt == 0 {
					stoppedAt = w.seq
				}
				for _, s := range srvs {
					_ = s.Stop()
				}
				w.ev("stopped")
			}
			wait := func(name string) {
				for _, s := range srvs {
					s.Wait()
				}
				waitEnd[name] = w.ev("%s: wait returns", name)
			}
			x.Go("control", func() {
				switch script {
				case "pause+wait":
					pause()
					wait("control")
				case "stop+wait":
					stop()
					wait("control")
				case "pauseall":
					pausedAt = w.ev("pauseall")
					tcp.PauseAll(srvs)
					waitEnd["control"] = w.ev("pauseall returns")
				case "stopall":
					stoppedAt = w.ev("stopall")
					tcp.StopAll(srvs)
					waitEnd["control"] = w.ev("stopall returns")
				case "graceful":
					pausedAt = w.ev("pauseall")
					tcp.PauseAll(srvs)
					waitEnd["control"] = w.ev("pauseall returns")
					stoppedAt = w.ev("stopall")
					tcp.StopAll(srvs)
					waitEnd["again"] = w.ev("stopall returns")
				case "wait", "dependent":
					tcp.WaitAll(srvs)
					w.ev("waitall returns")
				case "stopall twice":
					stoppedAt = w.ev("stopall")
					tcp.StopAll(srvs)
					waitEnd["control"] = w.ev("stopall returns")
					tcp.StopAll(srvs)
					waitEnd["again"] = w.ev("stopall returns again")
				case "stop|stop":
					stop()
					wait("control")
				case "pause|pause":
					pause()
					wait("control")
				case "pause|stop":
					pause()
					wait("control")
				}
			})
			if strings.Contains(script, "|") {
				x.Go("other", func() {
					if script == "pause|pause" {
						pause()
					} else {
						stop()
					}
					wait("other")
				})
			}
		})
		events := append([]string{}, w.log...)
		defer x.Finish(func() { w.closing = true })
		c.Steps(res.Steps)
		for _, l := range events {
			c.Note("%s", l)
		}
		c.State(script + "/" + strings.Join(events, ";"))
		key := func(what string) string { return fmt.Sprintf("%s in %s", what, script) }

		if len(res.Panics) > 0 {
			return mc.Failf(key("panic"), "%s", res.Panics[0])
		}
		if res.Horizon {
			return mc.Failf(key("livelock"), "no end after %d steps", res.Steps)
		}
		shut := pausedAt != 0 || stoppedAt != 0
		down := pausedAt // when the shutdown began
		if down == 0 || stoppedAt != 0 && stoppedAt < down {
			down = stoppedAt
		}
		// who is still there?
		var stuck []string
		for name, why := range res.Stuck {
			if strings.HasPrefix(name, "start") {
				i := int(name[len("start")] - '0')
				if why == "blocked: "+ls[i].name+".Accept" {
					if !shut || (!withDeadline && stoppedAt == 0) || i == 0 && cannotEnd(flt, withDeadline, stoppedAt != 0) {
						continue // accepting goes on, or may
					}
				}
			}
			stuck = append(stuck, name+" is "+why)
		}
		if len(stuck) > 0 {
			sort.Strings(stuck)
			return mc.Failf(key("stuck"), "nothing can go on, but %s", strings.Join(stuck, ", "))
		}
		for i := range srvs {
			if shut && withDeadline && startEnd[i] == 0 && !(i == 0 && cannotEnd(flt, withDeadline, stoppedAt != 0)) {
				return mc.Failf(key("accept loop goes on"), "server %d is still accepting after the shutdown", i)
			}
			if startEnd[i] != 0 && !shut && !(i == 0 && fail >= 0) {
				return mc.Failf(key("accept loop ended"), "Start of server %d returned %v although nobody stopped it", i, startErr[i])
			}
			if i == 0 && fail >= 0 && !shut && ls[0].nAccept == fail && startEnd[0] == 0 {
				return mc.Failf(key("accept error ignored"), "server %d is still accepting after the failure", i)
			}
			if i == 0 && startEnd[0] != 0 && !shut && !errors.Is(startErr[0], errAccept) {
				return mc.Failf(key("accept error lost"), "Start returned %v", startErr[0])
			}
			if stoppedAt != 0 && !ls[i].closed && !(i == 0 && flt == closeFails) {
				return mc.Failf(key("listener left open"), "the socket of server %d is not closed by stopping", i)
			}
			if stoppedAt == 0 && ls[i].closed {
				return mc.Failf(key("listener closed"), "the socket of server %d is closed although it was not stopped", i)
			}
		}
		for _, cc := range w.conns {
			if cc.accepted == 0 {
				if cc.handledTimes+cc.closedTimes > 0 {
					return mc.Failf(key("ghost"), "connection %d was never accepted", cc.id)
				}
				// a connection in the queue has to be accepted unless the server went down
				if !shut && fail < 0 {
					return mc.Failf(key("not accepted"), "connection %d is left in the queue", cc.id)
				}
				continue
			}
			// The shutdown may have begun between accepting and handing over: such a connection may
			// be dropped, but has to be closed.
			if cc.handledTimes == 0 && (!shut || cc.accepted < down && neverConcurrent(events, cc, down)) {
				return mc.Failf(key("not handled"), "connection %d was accepted before any shutdown but not handed to the handler", cc.id)
			}
			if cc.handledTimes > 1 {
				return mc.Failf(key("handled twice"), "connection %d was handed to the handler %d times", cc.id, cc.handledTimes)
			}
			if cc.closedTimes == 0 {
				return mc.Failf(key("not closed"), "connection %d is never closed", cc.id)
			}
			if cc.handledTimes == 1 && cc.closed < cc.ended || cc.ended == 0 && cc.handledTimes == 1 {
				return mc.Failf(key("closed early"), "connection %d is closed before its handler is done", cc.id)
			}
			// a wait begun after the shutdown was complete ends no handler's work prematurely
			for who, at := range waitEnd {
				if at == 0 {
					continue
				}
				if cc.handled > at {
					return mc.Failf(key("handled after wait"), "connection %d was handed to the handler after %s had waited for the connections", cc.id, who)
				}
				if cc.handled != 0 && cc.handled < at && cc.ended > at {
					return mc.Failf(key("wait too short"), "%s stopped waiting while connection %d was being served", who, cc.id)
				}
				if cc.handled != 0 && cc.handled < at && cc.closed > at {
					return mc.Failf(key("open after wait"), "%s stopped waiting before connection %d was closed", who, cc.id)
				}
			}
		}
		return nil
	}
}

// cannotEnd tells that the socket's fault makes it impossible to interrupt its accept loop
func cannotEnd(flt fault, withDeadline, stopped bool) bool {
	switch flt {
	case closeFails:
		return !withDeadline || stopped
	case deadlineFails:
		return !stopped
	}
	return false
}

// neverConcurrent tells that the accept loop was past handing the connection over when the
// shutdown began: it was accepting again by then.
func neverConcurrent(events []string, cc *conn, down int) bool {
	for _, other := range cc.w.conns {
		if other != cc && other.accepted > cc.accepted && other.accepted < down && other.id%2 == cc.id%2 {
			return true
		}
	}
	return false
}

func main() {
	mc.Main("C26", func(r *mc.R) {
		r.Assume("scheduling points before every statement of internal/tcp and in the fake listener and handler; sequentially consistent interleavings up to the preemption bound")
		r.Assume("the fake listener returns a timeout from Accept once a deadline in the past is set, and net.ErrClosed once closed, as net.TCPListener does")
		// quick: two preemptions where it matters most, one elsewhere; thorough: one more
		b := mc.Bound(r, 0, 1)
		load(r)
		for _, dl := range []bool{true, false} {
			space := func(what string, scripts []string, servers, conns, bound int, fail int) {
				r.SpaceProcs(fmt.Sprintf("%s, deadlines=%v, %d preemptions", what, dl, bound), explore(scripts, servers, conns, bound, dl, fail))
			}
			space("1 server, 1 connection", all, 1, 1, 1, -1)
			space("1 server, 1 connection, main scripts", basic, 1, 1, b+2, -1)
			if r.Thorough() {
				space("1 server, 1 connection, other scripts", all, 1, 1, 2, -1)
			}
			space("1 server, 2 connections", some, 1, 2, 1, -1)
			if dl || r.Thorough() {
				space("1 server, 2 connections, pauseall and stopall", basic, 1, 2, 2, -1)
			}
			space("1 server, 2 connections, one outlasting the other", []string{"dependent"}, 1, 2, b+1, -1)
			space("1 server, accepting fails", all, 1, 1, b+1, 1)
			space("2 servers, 2 connections", some, 2, 2, b, -1)
			space("2 servers, 2 connections, accepting fails", some, 2, 2, b, 1)
			faults := []fault{closeReports, closeFails}
			if dl {
				faults = append(faults, deadlineFails)
			}
			r.SpaceProcs(fmt.Sprintf("socket faults, 1 server, deadlines=%v, %d preemptions", dl, b+1), explore(all, 1, 1, b+1, dl, -1, faults...))
			r.SpaceProcs(fmt.Sprintf("socket faults, 2 servers, deadlines=%v, %d preemptions", dl, b), explore([]string{"pauseall", "stopall", "graceful", "stopall twice"}, 2, 2, b, dl, -1, faults...))
		}
	})
}
