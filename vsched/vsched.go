// Package vsched runs real goroutines under a controlled scheduler: goroutines stop at every
// scheduling point, and only one of them is let go at a time. Whatever else they block on
// (channels, mutexes, wait groups) is left to the runtime: a step is over once every goroutine of
// the execution is either at a scheduling point or blocked, which is read off the runtime.
package vsched

import (
	"bytes"
	"crypto/rsa"
	"crypto/tls"
	"fmt"
	"net"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Chooser picks one of n alternatives; 0 is the default.
type Chooser interface{ Choose(n int) int }

type thread struct {
	id     int
	name   string
	goid   int64
	resume chan struct{}
	ready  func() bool // nil: ready
	parked bool
	where  string
}

type sched struct {
	mu       sync.Mutex
	byGoid   map[int64]*thread
	threads  []*thread
	aborting bool
	events   int64
	nextID   int
}

var (
	curMu sync.Mutex
	cur   *sched
)

func active() *sched {
	curMu.Lock()
	s := cur
	curMu.Unlock()
	return s
}

func goid() int64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	// "goroutine 123 [running]:"
	f := buf[len("goroutine "):n]
	i := bytes.IndexByte(f, ' ')
	id, _ := strconv.ParseInt(string(f[:i]), 10, 64)
	return id
}

type abort struct{}

// Point is a scheduling point: the instrumented code calls it before every statement.
func Point() { park("", nil) }

// At is a scheduling point with a name, for harness code.
func At(where string) { park(where, nil) }

// Block is a scheduling point which is passed only once the condition holds.
func Block(where string, ready func() bool) { park(where, ready) }

func park(where string, ready func() bool) {
	s := active()
	if s == nil {
		return
	}
	id := goid()
	s.mu.Lock()
	if s.aborting {
		s.mu.Unlock()
		die()
	}
	t := s.byGoid[id]
	if t == nil {
		// a goroutine the code itself has started
		t = &thread{id: s.nextID, goid: id, resume: make(chan struct{}), name: fmt.Sprintf("g%d", s.nextID)}
		s.nextID++
		s.byGoid[id] = t
		s.threads = append(s.threads, t)
	}
	t.parked = true
	t.ready = ready
	t.where = where
	s.events++
	s.mu.Unlock()
	<-t.resume
	s.mu.Lock()
	ab := s.aborting
	s.mu.Unlock()
	if ab {
		die()
	}
}

// die ends a goroutine of an execution that is over.
func die() { runtime.Goexit() }

// Result is what an execution left behind.
type Result struct {
	Steps int
	// Stuck has the goroutines which are not finished although nothing can happen any more,
	// with the state the runtime reports for each (or the name of the Block it is in).
	Stuck map[string]string
	// Panics of goroutines started with Go.
	Panics   []string
	Switches int
	Horizon  bool
}

// X is an execution being set up.
type X struct {
	s       *sched
	res     *Result
	started []func()
	alive   map[int64]bool
	base    map[int64]bool
	nbase   int
	// how many goroutines were blocked elsewhere than at scheduling points when last looked at
	unparked int
	mu       sync.Mutex
	done     map[string]bool
}

// Go adds a named goroutine to the execution. It begins at a scheduling point.
func (x *X) Go(name string, fn func()) {
	x.started = append(x.started, func() {
		reg := make(chan struct{})
		go func() {
			defer func() {
				x.mu.Lock()
				x.done[name] = true
				x.mu.Unlock()
				if p := recover(); p != nil {
					buf := make([]byte, 4096)
					n := runtime.Stack(buf, false)
					x.mu.Lock()
					x.res.Panics = append(x.res.Panics, fmt.Sprintf("%s: %v\n%s", name, p, buf[:n]))
					x.mu.Unlock()
				}
			}()
			s := x.s
			s.mu.Lock()
			t := &thread{id: s.nextID, name: name, goid: goid(), resume: make(chan struct{}), parked: true, where: "start"}
			s.nextID++
			s.byGoid[t.goid] = t
			s.threads = append(s.threads, t)
			s.mu.Unlock()
			close(reg)
			<-t.resume
			s.mu.Lock()
			ab := s.aborting
			s.mu.Unlock()
			if ab {
				die()
			}
			fn()
		}()
		<-reg
	})
}

// Done tells whether a named goroutine has finished (to be asked after the execution).
func (x *X) Done(name string) bool {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.done[name]
}

var stackBuf = make([]byte, 1<<20)

// snapshot reads the goroutines and their states off the runtime.
func snapshot(into map[int64]string) {
	for k := range into {
		delete(into, k)
	}
	n := runtime.Stack(stackBuf, true)
	for n == len(stackBuf) {
		stackBuf = make([]byte, 2*len(stackBuf))
		n = runtime.Stack(stackBuf, true)
	}
	rest := stackBuf[:n]
	for len(rest) > 0 {
		if !bytes.HasPrefix(rest, []byte("goroutine ")) {
			break
		}
		line := rest
		if i := bytes.IndexByte(rest, '\n'); i >= 0 {
			line = rest[:i]
		}
		line = line[len("goroutine "):]
		sp := bytes.IndexByte(line, ' ')
		id, _ := strconv.ParseInt(string(line[:sp]), 10, 64)
		open := bytes.IndexByte(line, '[')
		end := bytes.IndexByte(line, ']')
		state := string(line[open+1 : end])
		if c := strings.IndexByte(state, ','); c >= 0 {
			state = state[:c]
		}
		into[id] = state
		i := bytes.Index(rest, []byte("\n\n"))
		if i < 0 {
			break
		}
		rest = rest[i+2:]
	}
}

func isBlocked(state string) bool {
	switch {
	case strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"), strings.HasPrefix(state, "semacquire"),
		strings.HasPrefix(state, "sync."), strings.HasPrefix(state, "IO wait"), state == "waiting":
		return true
	}
	return false
}

// dirty: goroutines of an earlier execution are still around, and may end at any time
var dirty bool

var states = map[int64]string{}

// quiesce waits until the goroutines of the execution can do nothing by themselves.
func (x *X) quiesce(last *thread) map[int64]string {
	for i := 0; ; i++ {
		runtime.Gosched()
		if !dirty {
			// every goroutine of the execution is at a scheduling point
			x.s.mu.Lock()
			parked := 0
			for _, t := range x.s.threads {
				if t.parked {
					parked++
				}
			}
			x.s.mu.Unlock()
			unparked := runtime.NumGoroutine() - x.nbase - parked
			if unparked == 0 {
				x.unparked = 0
				return nil
			}
			// There is one processor: after yielding a few times, everything that was runnable has
			// run up to a scheduling point or into something that blocks. If the goroutine of the
			// step is at a point, and as many are elsewhere as before, those are blocked still.
			if i == 4 && unparked == x.unparked && last != nil && last.parked {
				return nil
			}
		}
		if i < 5 {
			continue
		}
		snapshot(states)
		ok := true
		for id, st := range states {
			if x.base[id] {
				continue
			}
			if !isBlocked(st) {
				ok = false
				break
			}
		}
		if ok {
			x.s.mu.Lock()
			x.unparked = len(states) - x.nbase
			for _, t := range x.s.threads {
				if t.parked {
					x.unparked--
				}
			}
			x.s.mu.Unlock()
			return states
		}
		if i > 50 {
			time.Sleep(20 * time.Microsecond)
		}
		if i > 2_000_000 {
			panic("mc: vsched: the execution does not come to rest")
		}
	}
}

// Run explores one execution: setup adds the goroutines; bound limits the preemptions.
func Run(c Chooser, bound, horizon int, setup func(x *X)) (x *X, res *Result) {
	s := &sched{byGoid: map[int64]*thread{}}
	res = &Result{Stuck: map[string]string{}}
	x = &X{s: s, res: res, base: map[int64]bool{}, done: map[string]bool{}}
	snapshot(states)
	for id := range states {
		x.base[id] = true
	}
	x.nbase = len(x.base)
	curMu.Lock()
	cur = s
	curMu.Unlock()
	defer func() {
		if p := recover(); p != nil {
			x.Finish(nil)
			panic(p)
		}
	}()
	setup(x)
	for _, start := range x.started {
		start()
	}
	var last *thread
	left := bound
	for {
		st := x.quiesce(last)
		s.mu.Lock()
		var enabled []*thread
		for _, t := range s.threads {
			if t.parked && (t.ready == nil || t.ready()) {
				enabled = append(enabled, t)
			}
		}
		if len(enabled) == 0 {
			if st == nil {
				snapshot(states)
				st = states
			}
			for id, state := range st {
				if x.base[id] {
					continue
				}
				name := fmt.Sprintf("goroutine-%d", len(res.Stuck))
				if t := s.byGoid[id]; t != nil {
					name = t.name
					if t.parked {
						state = "blocked: " + t.where
					}
				}
				res.Stuck[name] = state
			}
			s.mu.Unlock()
			break
		}
		sort.Slice(enabled, func(i, j int) bool {
			if (enabled[i] == last) != (enabled[j] == last) {
				return enabled[i] == last
			}
			return enabled[i].id < enabled[j].id
		})
		n := len(enabled)
		preempts := enabled[0] == last
		if preempts && left == 0 {
			n = 1
		}
		s.mu.Unlock()
		k := 0
		if n > 1 {
			k = c.Choose(n)
		}
		if k > 0 && preempts {
			left--
		}
		t := enabled[k]
		if t != last {
			res.Switches++
		}
		last = t
		res.Steps++
		if res.Steps > horizon {
			res.Horizon = true
			break
		}
		s.mu.Lock()
		t.parked = false
		t.ready = nil
		s.mu.Unlock()
		t.resume <- struct{}{}
	}
	return x, res
}

// Finish ends whatever goroutines of the execution are left. unblock is called first, to release
// goroutines which are blocked on things of the harness.
func (x *X) Finish(unblock func()) {
	s := x.s
	s.mu.Lock()
	s.aborting = true
	parked := []*thread{}
	for _, t := range s.threads {
		if t.parked {
			t.parked = false
			parked = append(parked, t)
		}
	}
	s.mu.Unlock()
	for _, t := range parked {
		close(t.resume)
	}
	if unblock != nil {
		unblock()
	}
	// goroutines stuck for good are abandoned, they are no part of any later execution
	for i := 0; i < 20 && runtime.NumGoroutine() > x.nbase; i++ {
		runtime.Gosched()
	}
	if runtime.NumGoroutine() != x.nbase {
		dirty = true
	}
	curMu.Lock()
	cur = nil
	curMu.Unlock()
}

// NetListen and TLSListen stand for net.Listen and tls.Listen in the instrumented code.
var (
	NetListen = net.Listen
	TLSListen = tls.Listen
)

// RSAKey stands for rsa.GenerateKey in the instrumented code.
var RSAKey = rsa.GenerateKey
