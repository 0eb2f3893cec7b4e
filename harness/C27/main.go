// C27: the lifecycle of an application, under every schedule up to a preemption bound.
package main

import (
	"errors"
	"fmt"
	"net"
	"sort"
	"strings"

	"github.com/indigo-web/indigo"
	"github.com/indigo-web/indigo/http"
	"github.com/indigo-web/indigo/http/status"
	"github.com/indigo-web/indigo/internal/verifmc/mc"
	"github.com/indigo-web/indigo/internal/verifmc/vnet"
	"github.com/indigo-web/indigo/internal/verifmc/vsched"
	"github.com/indigo-web/indigo/router"
)

type fabric struct{}

func (fabric) Initialize() router.Router { return nopRouter{} }

type nopRouter struct{}

func (nopRouter) OnRequest(r *http.Request) *http.Response        { return r.Respond() }
func (nopRouter) OnError(r *http.Request, _ error) *http.Response { return r.Respond() }

var (
	errBind  = errors.New("bind failed")
	errClose = errors.New("close failed")
)

type space struct {
	name      string
	listeners int
	conns     int
	stops     []string // each a goroutine: S and G are requests in a row
	deadlines bool
	fail      int // accepting on the first listener fails after so many connections
	bindFail  int // the number of the listener which cannot be bound
	again     bool
	closeErr  bool   // closing the first listener reports an error
	inClose   string // requests made while the last listener of the first run is being closed
	bound     int
}

type run struct {
	ls      []*vnet.Listener
	binds   []string
	onStart []int
	onStop  []int
	begun   int
	ended   int
	err     error
}

func (sp space) explore(c *mc.C) error {
	w := &vnet.World{}
	conns := make([]*vnet.Conn, sp.conns)
	for i := range conns {
		conns[i] = &vnet.Conn{W: w, ID: i}
	}
	var runs []*run
	cur := func() *run { return runs[len(runs)-1] }
	var app *indigo.App
	requests := map[string][]int{}
	request := func(kind rune) {
		switch kind {
		case 'S':
			requests["S"] = append(requests["S"], w.Ev("Stop"))
			app.Stop()
		case 'G':
			requests["G"] = append(requests["G"], w.Ev("GracefulStop"))
			app.GracefulStop()
		}
		w.Ev("stop request is done")
	}
	vsched.NetListen = func(_, addr string) (net.Listener, error) {
		rn := cur()
		i := len(rn.ls)
		if i == sp.bindFail {
			w.Ev("binding %s fails", addr)
			return nil, errBind
		}
		l := &vnet.Listener{W: w, Name: fmt.Sprintf("r%dl%d", len(runs)-1, i), Fail: -1}
		w.Ev("%s bound to %s", l.Name, addr)
		if i == 0 {
			l.Fail = sp.fail
			if sp.closeErr {
				l.CloseErr = errClose
			}
		}
		if i == sp.listeners-1 && len(runs) == 1 && sp.inClose != "" {
			l.OnClose = func() {
				for _, kind := range sp.inClose {
					request(kind)
				}
			}
		}
		rn.ls = append(rn.ls, l)
		if sp.deadlines {
			return vnet.Deadliner{Listener: l}, nil
		}
		return l, nil
	}
	handler := func(nc net.Conn, _ router.Router) {
		cc := nc.(*vnet.Conn)
		cc.HandledTimes++
		cc.Handled = w.Ev("conn %d handled", cc.ID)
		vsched.At("serving")
		cc.Ended = w.Ev("conn %d handler ends", cc.ID)
	}
	// the first listener is made by New, and is served by HTTP
	app = indigo.New(":1")
	addrs := []string{"0.0.0.0:1"}
	for i := 1; i < sp.listeners; i++ {
		app.Listen(fmt.Sprintf("h%d:1", i), indigo.Listener{Listen: func(n, a string) (net.Listener, error) { return vsched.NetListen(n, a) }, Handler: handler})
		addrs = append(addrs, fmt.Sprintf("h%d:1", i))
	}
	app.OnBind(func(addr string) { cur().binds = append(cur().binds, addr); w.Ev("OnBind %s", addr) })
	app.OnStart(func() { cur().onStart = append(cur().onStart, w.Ev("OnStart")) })
	app.OnStop(func() { cur().onStop = append(cur().onStop, w.Ev("OnStop")) })

	stopsDone := 0
	x, res := vsched.Run(c, sp.bound, 6000, func(x *vsched.X) {
		x.Go("serve", func() {
			n := 1
			if sp.again {
				n = 2
			}
			for i := 0; i < n; i++ {
				rn := &run{begun: w.Ev("Serve")}
				runs = append(runs, rn)
				rn.err = app.Serve(fabric{})
				rn.ended = w.Ev("Serve returns %v", rn.err)
				if i == 0 && sp.again {
					vsched.Block("all stops are done", func() bool { return stopsDone == len(sp.stops) })
				}
			}
		})
		if sp.conns > 0 {
			x.Go("client", func() {
				for _, cc := range conns {
					// to a listener with the recording handler
					vsched.Block("connect", func() bool {
						return len(runs) > 0 && (len(runs[0].ls) == sp.listeners || runs[0].ended != 0)
					})
					if runs[0].ended != 0 {
						continue
					}
					l := runs[0].ls[len(runs[0].ls)-1]
					if l.ClosedAt != 0 {
						continue
					}
					cc.Connected = w.Ev("conn %d connects", cc.ID)
					l.Queue = append(l.Queue, cc)
				}
			})
		}
		for i, seq := range sp.stops {
			seq := seq
			x.Go(fmt.Sprintf("stop%d", i), func() {
				for _, kind := range seq {
					request(kind)
				}
				stopsDone++
			})
		}
	})
	events := append([]string{}, w.Log...)
	defer x.Finish(func() { w.Over = true })
	c.Steps(res.Steps)
	c.Note("%s", sp.name)
	for _, l := range events {
		c.Note("%s", l)
	}
	c.State(sp.name + "/" + strings.Join(events, ";"))
	key := func(what string) string { return what + " in " + sp.name }
	if len(res.Panics) > 0 {
		return mc.Failf(key("panic"), "%s", res.Panics[0])
	}
	if res.Horizon {
		return mc.Failf(key("livelock"), "no end after %d steps", res.Steps)
	}
	// who is still there?
	requested := len(requests["S"])+len(requests["G"]) > 0
	failed := sp.bindFail >= 0 || sp.fail >= 0
	serving := len(runs) > 0 && cur().ended == 0
	mayServe := !requested && !failed || sp.again && len(runs) == 2
	if serving && !mayServe {
		if len(requests) > 0 && runs[0].begun > 0 {
			return mc.Failf(key("serves on"), "nothing can go on, but Serve has not returned: %v", res.Stuck)
		}
		return mc.Failf(key("serves on"), "Serve has not returned after a failure: %v", res.Stuck)
	}
	if sp.again && len(runs) < 2 {
		return mc.Failf(key("not again"), "the second Serve was not reached: %v", res.Stuck)
	}
	if sp.again && len(runs) == 2 && !serving {
		// the only request has been served by the first run
		return mc.Failf(key("stale request"), "the second Serve returned %v by itself", runs[1].err)
	}
	var stuck []string
	for name, why := range res.Stuck {
		if serving && (name == "serve" || strings.Contains(why, fmt.Sprintf("blocked: r%dl", len(runs)-1))) {
			continue
		}
		stuck = append(stuck, name+" is "+why)
	}
	if len(stuck) > 0 {
		sort.Strings(stuck)
		return mc.Failf(key("stuck"), "nothing can go on, but %s", strings.Join(stuck, ", "))
	}
	for n, rn := range runs {
		if rn == cur() && serving {
			continue
		}
		if err := sp.checkRun(key, rn, n, addrs, requests); err != nil {
			return err
		}
	}
	for _, cc := range conns {
		if cc.Accepted == 0 {
			if cc.Connected != 0 && serving && !sp.again {
				return mc.Failf(key("not accepted"), "connection %d is left in the queue", cc.ID)
			}
			continue
		}
		rn := runs[0]
		switch {
		case cc.HandledTimes > 1:
			return mc.Failf(key("handled twice"), "connection %d", cc.ID)
		case cc.HandledTimes == 0 && rn.ended == 0:
			return mc.Failf(key("not handled"), "connection %d", cc.ID)
		case cc.ClosedTimes == 0:
			return mc.Failf(key("not closed"), "connection %d", cc.ID)
		case cc.HandledTimes == 1 && (cc.Ended == 0 || cc.Closed < cc.Ended):
			return mc.Failf(key("closed early"), "connection %d", cc.ID)
		}
		if rn.ended != 0 {
			stop := firstOf(rn.onStop)
			if cc.HandledTimes == 1 && (cc.Handled > stop || cc.Ended > stop || cc.Closed > stop) {
				return mc.Failf(key("served after OnStop"), "connection %d was still being served or open when OnStop was called", cc.ID)
			}
		}
	}
	return nil
}

func firstOf(s []int) int {
	if len(s) == 0 {
		return 0
	}
	return s[0]
}

func (sp space) checkRun(key func(string) string, rn *run, n int, addrs []string, requests map[string][]int) error {
	if sp.bindFail >= 0 {
		switch {
		case !errors.Is(rn.err, errBind):
			return mc.Failf(key("bind error lost"), "Serve returned %v", rn.err)
		case len(rn.onStart) > 0:
			return mc.Failf(key("OnStart without start"), "binding failed, but OnStart was called")
		case fmt.Sprint(rn.binds) != fmt.Sprint(addrs[:sp.bindFail]):
			return mc.Failf(key("OnBind"), "called for %v, want %v", rn.binds, addrs[:sp.bindFail])
		}
		for _, l := range rn.ls {
			if l.ClosedAt == 0 {
				return mc.Failf(key("listener leaked"), "%s is still bound after Serve failed", l.Name)
			}
		}
		return nil
	}
	if fmt.Sprint(rn.binds) != fmt.Sprint(addrs) {
		return mc.Failf(key("OnBind"), "called for %v, want %v", rn.binds, addrs)
	}
	if len(rn.onStart) != 1 || len(rn.onStop) != 1 {
		return mc.Failf(key("hooks"), "OnStart was called %d times, OnStop %d times", len(rn.onStart), len(rn.onStop))
	}
	if rn.onStart[0] > rn.onStop[0] {
		return mc.Failf(key("hooks"), "OnStop was called before OnStart")
	}
	for _, l := range rn.ls {
		if l.ClosedAt == 0 || l.ClosedAt > rn.onStop[0] {
			return mc.Failf(key("listener open"), "%s is not closed when OnStop is called", l.Name)
		}
	}
	allowed := map[error]bool{}
	if len(requests["S"]) > 0 {
		allowed[status.ErrShutdown] = true
	}
	if len(requests["G"]) > 0 {
		allowed[status.ErrGracefulShutdown] = true
	}
	if n == 0 && rn.ls[0].Failed > 0 {
		allowed[vnet.ErrAccept] = true
	}
	if !allowed[rn.err] {
		return mc.Failf(key("wrong cause"), "Serve returned %v, possible causes are %v", rn.err, allowed)
	}
	return nil
}

func main() {
	mc.Main("C27", func(r *mc.R) {
		r.Assume("scheduling points before every statement of the root package and internal/tcp; net.Listen is replaced by a fake; sequentially consistent interleavings up to the preemption bound")
		var spaces []space
		add := func(sp space) {
			sp.name = fmt.Sprintf("%d listeners, %d connections, stops %v, deadlines=%v, fail=%d, bindfail=%d, closeErr=%v, again=%v, in close %q, %d preemptions",
				sp.listeners, sp.conns, sp.stops, sp.deadlines, sp.fail, sp.bindFail, sp.closeErr, sp.again, sp.inClose, sp.bound)
			spaces = append(spaces, sp)
		}
		more := mc.Bound(r, 0, 1)
		for _, dl := range []bool{true, false} {
			add(space{listeners: 1, stops: []string{"S"}, fail: -1, bindFail: -1, bound: 2 + more, deadlines: dl})
			add(space{listeners: 1, stops: []string{"G"}, fail: -1, bindFail: -1, bound: 2 + more, deadlines: dl})
			for _, st := range []string{"S", "G"} {
				add(space{listeners: 1, conns: 1, stops: []string{st}, fail: -1, bindFail: -1, bound: 1 + more, deadlines: dl})
				add(space{listeners: 2, conns: 1, stops: []string{st}, fail: -1, bindFail: -1, bound: more, deadlines: dl})
			}
			for _, st := range []string{"SS", "SG", "GS", "GG"} {
				add(space{listeners: 1, stops: []string{st}, fail: -1, bindFail: -1, bound: 1 + more, deadlines: dl})
				add(space{listeners: 1, stops: []string{st[:1], st[1:]}, fail: -1, bindFail: -1, bound: 1 + more, deadlines: dl})
			}
			for _, st := range []string{"S", "G"} {
				add(space{listeners: 1, stops: []string{st}, fail: 0, bindFail: -1, bound: 1 + more, deadlines: dl})
				add(space{listeners: 1, stops: []string{st}, fail: -1, bindFail: -1, again: true, bound: 1 + more, deadlines: dl})
				add(space{listeners: 2, stops: []string{st}, fail: -1, bindFail: -1, again: true, bound: more, deadlines: dl})
			}
		}
		for _, st := range []string{"SS", "SG", "GS", "GG"} {
			add(space{listeners: 1, stops: []string{st[:1]}, fail: -1, bindFail: -1, again: true, inClose: st[1:], bound: more, deadlines: true})
			add(space{listeners: 2, stops: []string{st[:1]}, fail: -1, bindFail: -1, again: true, inClose: st, bound: more, deadlines: true})
		}
		add(space{listeners: 2, fail: 0, bindFail: -1, bound: 1 + more, deadlines: true})
		add(space{listeners: 2, fail: 0, conns: 1, bindFail: -1, bound: more, deadlines: true})
		add(space{listeners: 1, fail: -1, bindFail: -1, bound: 1 + more, deadlines: true})
		add(space{listeners: 2, conns: 2, fail: -1, bindFail: -1, bound: more, deadlines: true})
		for _, st := range []string{"S", "G"} {
			add(space{listeners: 2, conns: 1, stops: []string{st}, fail: -1, bindFail: -1, closeErr: true, bound: more, deadlines: true})
			add(space{listeners: 2, stops: []string{st}, fail: -1, bindFail: -1, closeErr: true, bound: 1 + more, deadlines: true})
		}
		add(space{listeners: 3, fail: -1, bindFail: 2, closeErr: true, bound: more, deadlines: true})
		add(space{listeners: 2, fail: 0, bindFail: -1, closeErr: true, bound: 1 + more, deadlines: true})
		for i := 0; i < 3; i++ {
			add(space{listeners: 3, fail: -1, bindFail: i, bound: 1 + more, deadlines: true})
		}
		for _, sp := range spaces {
			r.SpaceProcs(sp.name, sp.explore)
		}
	})
}
