// Package vswitch is a fast controlled scheduler for a few goroutines which hardly ever block on
// each other: one of them runs at a time, and a schedule says after how many scheduling points
// it is preempted in favour of another one. If the goroutine that should run blocks on something
// another one holds (a mutex, say), the schedule goes on with the others; it continues at its
// next scheduling point once it is its turn again.
package vswitch

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type thread struct {
	resume  chan struct{}
	goid    int64
	count   int // points passed
	done    bool
	blocked bool
	panic   string
}

type event struct {
	t    *thread
	done bool
}

type exec struct {
	threads []*thread
	run     *thread
	stopAt  int
	events  chan event
	loose   atomic.Bool // some goroutine may run out of turn
}

var cur *exec

func goid() int64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	f := buf[len("goroutine "):n]
	i := bytes.IndexByte(f, ' ')
	id, _ := strconv.ParseInt(string(f[:i]), 10, 64)
	return id
}

// Point is a scheduling point.
func Point() {
	e := cur
	if e == nil {
		return
	}
	t := e.run
	if e.loose.Load() {
		id := goid()
		t = nil
		for _, th := range e.threads {
			if th.goid == id {
				t = th
			}
		}
		if t == nil {
			return
		}
		if t.blocked {
			// unblocked meanwhile: wait for the turn
			e.events <- event{t, false}
			<-t.resume
		}
	}
	t.count++
	if t.count == e.stopAt {
		e.events <- event{t, false}
		<-t.resume
	}
}

// Segment lets a thread run for so many scheduling points (negative: to its end).
type Segment struct{ Thread, Points int }

// Result of a run.
type Result struct {
	Points []int // scheduling points of every thread
	Panics []string
	Stuck  bool
}

func (e *exec) wait(d time.Duration) (ev event, ok bool) {
	select {
	case ev = <-e.events:
		return ev, true
	default:
	}
	timer := time.NewTimer(d)
	defer timer.Stop()
	select {
	case ev = <-e.events:
		return ev, true
	case <-timer.C:
		return ev, false
	}
}

// blockedNow tells whether the goroutine is blocked, according to the runtime.
func blockedNow(id int64) bool {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.HasPrefix(head, fmt.Sprintf("goroutine %d ", id)) {
			for _, s := range []string{"[running", "[runnable", "[syscall", "[sleep", "[IO wait"} {
				if strings.Contains(head, s) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// advance lets the thread run until it passed stopAt points in total (or to its end).
func (e *exec) advance(t *thread, stopAt int) {
	e.stopAt = stopAt
	e.run = t
	if t.blocked {
		// it may have been released by now
		ev, ok := e.wait(3 * time.Millisecond)
		if !ok {
			return
		}
		ev.t.blocked = false
		if ev.done {
			ev.t.done = true
			return
		}
		if ev.t != t {
			return
		}
	}
	t.resume <- struct{}{}
	for patience := 0; ; patience++ {
		ev, ok := e.wait(3 * time.Millisecond)
		if ok {
			ev.t.done = ev.t.done || ev.done
			if ev.t == t {
				return
			}
			// another one was released by this one
			ev.t.blocked = false
			continue
		}
		if blockedNow(t.goid) && blockedNow(t.goid) {
			e.loose.Store(true)
			t.blocked = true
			return
		}
		if patience > 20000 {
			panic("mc: a goroutine neither ends nor blocks")
		}
	}
}

// Run runs the functions under the schedule; when it is over, they are run to their ends in order.
func Run(fns []func(), schedule []Segment) (res Result) {
	e := &exec{events: make(chan event, 16)}
	for i := range fns {
		fn := fns[i]
		t := &thread{resume: make(chan struct{}, 1)}
		e.threads = append(e.threads, t)
		ready := make(chan struct{})
		go func() {
			t.goid = goid()
			close(ready)
			<-t.resume
			defer func() {
				if p := recover(); p != nil {
					t.panic = fmt.Sprintf("%v\n%s", p, debug.Stack())
				}
				e.events <- event{t, true}
			}()
			fn()
		}()
		<-ready
	}
	cur = e
	defer func() { cur = nil }()
	for _, s := range schedule {
		t := e.threads[s.Thread]
		if t.done || s.Points == 0 {
			continue
		}
		if s.Points < 0 {
			e.advance(t, -1)
			continue
		}
		e.advance(t, t.count+s.Points)
	}
	for round := 0; ; round++ {
		left := 0
		for _, t := range e.threads {
			if !t.done {
				e.advance(t, -1)
				if !t.done {
					left++
				}
			}
		}
		if left == 0 {
			break
		}
		if round > 50 {
			res.Stuck = true
			break
		}
	}
	for _, t := range e.threads {
		res.Points = append(res.Points, t.count)
		if t.panic != "" {
			res.Panics = append(res.Panics, t.panic)
		}
	}
	return res
}
