package mc

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"
)

// Spaces which control the scheduling of real goroutines can have one execution at a time in a
// process. SpaceProcs explores such a space with several processes: each is this same program,
// told by the environment which space it works on and fed with subtrees over its standard input.

const childEnv = "VERIF_MC_CHILD"

type procResult struct {
	Execs, Trans, Skipped int64
	Diverged              int64
	Depth                 int
	Arity                 int
	Truncated             bool
	Rest                  [][]int32 // subtrees left to others
	States                []uint64
	Known                 []string
	Unconfirmed           string
	Violation             *replayFile
}

// SpaceProcs explores every execution of fn, one at a time per process.
func (r *R) SpaceProcs(name string, fn func(c *C) error) {
	child := os.Getenv(childEnv)
	if child != "" {
		if child == name {
			r.childMain(name, fn)
		}
		return
	}
	if r.replay != nil {
		runtime.GOMAXPROCS(1)
		r.explore(name, fn)
		return
	}
	if r.stop.Load() {
		return
	}
	if r.expired() {
		r.dropped = append(r.dropped, name)
		return
	}
	start := time.Now()
	workers := runtime.NumCPU()
	// split the choice tree into subtrees
	frontier := [][]int32{{}}
	var leaves [][]int32
	var first *worker
	for len(frontier) > 0 && len(frontier)+len(leaves) < 2*workers && len(leaves) < 4*workers {
		p := frontier[0]
		frontier = frontier[1:]
		var res procResult
		if first, res = r.doJob(first, name, procJob{Prefix: p, Expand: true}); res.Violation != nil {
			v := res.Violation
			r.report(found{space: name, choices: v.Choices, v: &Violation{Key: v.Key, Msg: v.Message}, trace: v.Trace})
			break
		}
		if res.Arity == 0 {
			leaves = append(leaves, p)
			continue
		}
		for i := 0; i < res.Arity; i++ {
			frontier = append(frontier, append(append([]int32{}, p...), int32(i)))
		}
	}
	jobs := append(leaves, frontier...)
	var sampled []int32
	if len(jobs) > 0 {
		sampled = jobs[len(jobs)/2]
	}
	if workers > len(jobs) {
		workers = len(jobs)
	}

	var mu sync.Mutex
	total := procResult{}
	busy := 0
	cond := sync.NewCond(&mu)
	take := func() ([]int32, bool) {
		mu.Lock()
		defer mu.Unlock()
		for {
			if r.stop.Load() || len(jobs) == 0 && busy == 0 {
				return nil, false
			}
			if len(jobs) > 0 {
				break
			}
			cond.Wait()
		}
		busy++
		j := jobs[len(jobs)-1]
		jobs = jobs[:len(jobs)-1]
		return j, true
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var wk *worker
			if w == 0 {
				wk = first
			}
			defer func() { wk.end() }()
			for {
				job, ok := take()
				if !ok {
					return
				}
				var res procResult
				wk, res = r.doJob(wk, name, procJob{Prefix: job})
				mu.Lock()
				total.Execs += res.Execs
				total.Trans += res.Trans
				total.Skipped += res.Skipped
				total.Diverged += res.Diverged
				if res.Depth > total.Depth {
					total.Depth = res.Depth
				}
				total.Truncated = total.Truncated || res.Truncated
				jobs = append(jobs, res.Rest...)
				busy--
				cond.Broadcast()
				mu.Unlock()
				for _, h := range res.States {
					r.states.addHash(h)
				}
				r.mu.Lock()
				for _, k := range res.Known {
					r.knownHit[k] = r.known[k]
				}
				if res.Unconfirmed != "" {
					r.extra["unconfirmed"] = res.Unconfirmed
				}
				r.mu.Unlock()
				if v := res.Violation; v != nil {
					r.report(found{space: name, choices: v.Choices, v: &Violation{Key: v.Key, Msg: v.Message}, trace: v.Trace})
				}
			}
		}(w)
	}
	wg.Wait()
	if len(jobs) > 0 {
		total.Truncated = true
	}
	if total.Truncated && time.Now().After(r.deadline) {
		r.timedOut.Store(true)
	}
	r.executions.Add(total.Execs)
	r.transitions.Add(total.Trans)
	if !r.stop.Load() {
		old := runtime.GOMAXPROCS(1)
		r.tolerant = true
		sample := &C{r: r, Tracing: true}
		sample.choices = append(sample.choices, sampled...)
		_ = r.exec(sample, fn)
		r.tolerant = false
		runtime.GOMAXPROCS(old)
		if len(sample.trace) > 0 {
			r.Sample(map[string]any{"space": name, "choices": sample.choices, "trace": strings.Join(sample.trace, " | ")})
		}
	}
	r.spaces = append(r.spaces, map[string]any{
		"space": name, "executions": total.Execs, "transitions": total.Trans, "infeasible": total.Skipped,
		"max_choices": total.Depth, "exhaustive": !total.Truncated && total.Diverged == 0, "diverged": total.Diverged,
		"processes": workers, "wall_s": round(time.Since(start)),
	})
}

type procJob struct {
	Prefix []int32
	Expand bool // only tell the number of alternatives after the prefix
}

// doJob has a job done by a worker, starting one if need be.
func (r *R) doJob(wk *worker, name string, job procJob) (*worker, procResult) {
	for try := 0; ; try++ {
		if wk == nil {
			wk = r.newWorker(name)
		}
		res, err := wk.do(job)
		if err == nil {
			return wk, res
		}
		// the code under test has brought the process down
		wk.end()
		crashed := fmt.Sprintf("%v\n%s", err, wk.log())
		wk = nil
		if try == 2 {
			return nil, procResult{Execs: 1, Violation: &replayFile{Choices: job.Prefix, Key: "crash",
				Message: "the process crashes while exploring the subtree of these choices\n" + crashed}}
		}
	}
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

// tail keeps the end of what is written to it.
type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 6000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (r *R) newWorker(name string) *worker {
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), childEnv+"="+name, fmt.Sprintf("VERIF_MC_DEADLINE=%d", r.deadline.UnixNano()), "GOMAXPROCS=1")
	wk := &worker{cmd: cmd, err: new(tail)}
	cmd.Stderr = wk.err
	var err error
	if wk.in, err = cmd.StdinPipe(); err != nil {
		procFail(err.Error())
	}
	outPipe, err := cmd.StdoutPipe()
	if err != nil {
		procFail(err.Error())
	}
	if err = cmd.Start(); err != nil {
		procFail(err.Error())
	}
	wk.out = bufio.NewReaderSize(outPipe, 1<<20)
	return wk
}

func (wk *worker) end() {
	if wk == nil {
		return
	}
	_ = wk.in.Close()
	_ = wk.cmd.Process.Kill()
	_ = wk.cmd.Wait()
}

func (wk *worker) log() string {
	wk.err.mu.Lock()
	defer wk.err.mu.Unlock()
	return string(wk.err.b)
}

func (wk *worker) do(job procJob) (res procResult, err error) {
	raw, _ := json.Marshal(job)
	if _, err = wk.in.Write(append(raw, '\n')); err != nil {
		return res, err
	}
	for {
		line, err := wk.out.ReadBytes('\n')
		if err != nil {
			if strings.HasPrefix(string(line), "internal error:") {
				procFail(string(line))
			}
			return res, fmt.Errorf("a worker ended on %v: %w %s", job, err, line)
		}
		if !strings.HasPrefix(string(line), "MCRESULT ") {
			if strings.HasPrefix(string(line), "internal error:") {
				procFail(string(line))
			}
			continue
		}
		if err = json.Unmarshal(line[len("MCRESULT "):], &res); err != nil {
			procFail(err.Error())
		}
		return res, nil
	}
}

func procFail(msg string) {
	fmt.Println("internal error: mc:", msg)
	os.Exit(2)
}

func (r *R) childMain(name string, fn func(c *C) error) {
	runtime.GOMAXPROCS(1)
	r.tolerant = true
	var ns int64
	if _, err := fmt.Sscan(os.Getenv("VERIF_MC_DEADLINE"), &ns); err == nil {
		r.deadline = time.Unix(0, ns)
	}
	out := os.NewFile(1, "stdout")
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(make([]byte, 1<<20), 1<<20)
	c := &C{r: r, where: name}
	cc := &C{r: r, Tracing: true, where: name}
	stop := make(chan struct{})
	hang := func(c *C) {
		t := time.NewTicker(time.Second)
		for {
			select {
			case <-stop:
				return
			case <-t.C:
			}
			if at := c.started.Load(); at != 0 && time.Since(time.Unix(0, at)) > 100*time.Second {
				raw, _ := json.Marshal(procResult{Execs: 1, Violation: &replayFile{Choices: append([]int32{}, c.choices...), Key: "hang", Message: "an execution does not terminate"}})
				_, _ = out.Write(append(append([]byte("MCRESULT "), raw...), '\n'))
				os.Exit(0)
			}
		}
	}
	go hang(c)
	for in.Scan() {
		var pj procJob
		if err := json.Unmarshal(in.Bytes(), &pj); err != nil {
			procFail(err.Error())
		}
		job := pj.Prefix
		r.states = newSet()
		r.knownHit = map[string]string{}
		r.violations = nil
		delete(r.extra, "unconfirmed")
		var res procResult
		c.prefix = len(job)
		c.choices = append(c.choices[:0], job...)
		c.arity = c.arity[:0]
		retries := 0
		begun := time.Now()
	loop:
		for n := 0; ; n++ {
			if pj.Expand {
				for try := 0; try < 50; try++ {
					c.choices = append(c.choices[:0], job...)
					c.arity = c.arity[:0]
					if err := r.exec(c, fn); err != errDiverged {
						break
					}
				}
				if len(c.arity) > len(job) {
					res.Arity = int(c.arity[len(job)])
				}
				break
			}
			if n&7 == 0 && r.expired() {
				res.Truncated = true
				break
			}
			if n&7 == 7 && time.Since(begun) > 300*time.Millisecond {
				// hand the rest of the subtree back: this execution, and the siblings on the way to it
				res.Rest = append(res.Rest, append([]int32{}, c.choices...))
				for i := c.prefix; i < len(c.choices); i++ {
					for v := c.choices[i] + 1; v < c.arity[i]; v++ {
						res.Rest = append(res.Rest, append(append([]int32{}, c.choices[:i]...), v))
					}
				}
				break
			}
			want := len(c.choices)
			wanted := append([]int32{}, c.choices...)
			wantedArity := append([]int32{}, c.arity...)
			err := r.exec(c, fn)
			if err == errDiverged || c.pos < want {
				// the schedule could not be followed; try it again
				if retries++; retries < 20 {
					c.choices = append(c.choices[:0], wanted...)
					c.arity = append(c.arity[:0], wantedArity...)
					continue
				}
				res.Diverged++
				c.choices = append(c.choices[:0], wanted...)
				c.arity = append(c.arity[:0], wantedArity...)
				if len(c.arity) < len(c.choices) {
					break // not even the prefix of the job
				}
				err = ErrSkip
			}
			retries = 0
			if err == ErrSkip {
				res.Skipped++
			} else {
				res.Execs++
				res.Trans += c.steps
				if len(c.choices) > res.Depth {
					res.Depth = len(c.choices)
				}
				if err != nil {
					if r.confirmChild(name, cc, c.choices, fn, err, &res) {
						break loop
					}
				}
			}
			i := len(c.choices) - 1
			for i >= c.prefix && c.choices[i]+1 >= c.arity[i] {
				i--
			}
			if i < c.prefix {
				break
			}
			c.choices[i]++
			c.choices = c.choices[:i+1]
			c.arity = c.arity[:i+1]
		}
		for i := range r.states.shards {
			for h := range r.states.shards[i].m {
				res.States = append(res.States, h)
			}
		}
		for k := range r.knownHit {
			res.Known = append(res.Known, k)
		}
		raw, err := json.Marshal(res)
		if err != nil {
			procFail(err.Error())
		}
		if _, err = out.Write(append(append([]byte("MCRESULT "), raw...), '\n')); err != nil {
			procFail(err.Error())
		}
	}
	close(stop)
	os.Exit(0)
}

// confirmChild re-runs a failing schedule; it has to fail every time it can be followed.
func (r *R) confirmChild(name string, cc *C, choices []int32, fn func(c *C) error, err error, res *procResult) bool {
	v := toViolation(err)
	if _, ok := r.known[v.Key]; ok {
		if _, hit := r.knownHit[v.Key]; hit {
			return false
		}
	}
	failed := 0
	for i := 0; i < 15 && failed < 5; i++ {
		cc.choices = append(cc.choices[:0], choices...)
		cc.arity = cc.arity[:0]
		again := r.exec(cc, fn)
		if again == errDiverged {
			continue
		}
		if again == nil || again == ErrSkip {
			res.Unconfirmed = fmt.Sprintf("%s: %v (did not fail on re-run %d)", name, err, i+1)
			return false
		}
		v = toViolation(again)
		failed++
	}
	if failed < 2 {
		res.Unconfirmed = fmt.Sprintf("%s: %v (could not be re-run)", name, err)
		return false
	}
	if desc, ok := r.known[v.Key]; ok {
		r.knownHit[v.Key] = desc
		return false
	}
	res.Violation = &replayFile{Choices: append([]int32{}, choices...), Key: v.Key, Message: v.Msg, Trace: append([]string{}, cc.trace...)}
	return true
}
