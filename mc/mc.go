// Package mc is a small explicit-state / stateless model checker: it enumerates every
// sequence of choices of a bounded nondeterministic program (a "space") that drives the
// real code of the repository, and checks an oracle on every one of them.
package mc

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is the error a space returns when the property does not hold on an execution.
// Key identifies the failing input or history, and is what known findings are matched by.
type Violation struct {
	Key string
	Msg string
}

func (v *Violation) Error() string { return v.Key + ": " + v.Msg }

// Failf makes a violation.
func Failf(key, format string, args ...any) error {
	return &Violation{Key: key, Msg: fmt.Sprintf(format, args...)}
}

// ErrSkip makes an execution count as not part of the space (an infeasible combination).
var ErrSkip = errors.New("skip")

var errDiverged = errors.New("diverged")

type cut struct{}

// C is one execution: a source of choices.
type C struct {
	r       *R
	choices []int32
	arity   []int32
	pos     int
	prefix  int
	steps   int64
	trace   []string
	Tracing bool
	// Scratch survives between executions of one worker; a space may cache things there.
	Scratch any
	started atomic.Int64
	where   string
}

// Choose returns a number in [0; n). Over all the executions, every one of them is returned.
func (c *C) Choose(n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("mc: Choose(%d)", n))
	}
	if c.pos < len(c.choices) {
		v := c.choices[c.pos]
		if c.pos < len(c.arity) {
			if int(c.arity[c.pos]) != n {
				panic(fmt.Sprintf("mc: divergence while replaying: choice %d had %d alternatives, has %d", c.pos, c.arity[c.pos], n))
			}
		} else {
			c.arity = append(c.arity, int32(n))
		}
		if int(v) >= n {
			panic(fmt.Sprintf("mc: divergence while replaying: choice %d is %d of %d", c.pos, v, n))
		}
		c.pos++
		return int(v)
	}
	c.choices = append(c.choices, 0)
	c.arity = append(c.arity, int32(n))
	c.pos++
	return 0
}

// Bool chooses between false and true.
func (c *C) Bool() bool { return c.Choose(2) == 1 }

// Pick chooses an element.
func Pick[T any](c *C, from []T) T { return from[c.Choose(len(from))] }

// Step counts one transition (an operation executed on the implementation).
func (c *C) Step() { c.steps++ }

// Steps counts n transitions.
func (c *C) Steps(n int) { c.steps += int64(n) }

// State records a canonical state or observation.
func (c *C) State(key string) { c.r.states.add(key) }

// Note adds a line to the trace that is written into the replay file.
func (c *C) Note(format string, args ...any) {
	if c.Tracing {
		c.trace = append(c.trace, fmt.Sprintf(format, args...))
	}
}

// R is a run of a check.
type R struct {
	ID   string
	Tier string
	Dir  string

	start    time.Time
	deadline time.Time
	states   *set

	transitions atomic.Int64
	executions  atomic.Int64
	timedOut    atomic.Bool
	stop        atomic.Bool

	mu          sync.Mutex
	known       map[string]string
	knownHit    map[string]string
	violations  []found
	spaces      []map[string]any
	samples     []any
	assumptions []string
	extra       map[string]any
	level       string
	replay      *replayFile
	workers     int
	tolerant    bool
	dropped     []string
}

type found struct {
	space   string
	choices []int32
	v       *Violation
	trace   []string
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Space    string   `json:"space"`
	Choices  []int32  `json:"choices"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
	How      string   `json:"how_to_replay"`
}

// Thorough tells the tier.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Bound picks a bound by the tier.
func Bound[T any](r *R, quick, thorough T) T {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Assume records an assumption of the check.
func (r *R) Assume(s string) { r.assumptions = append(r.assumptions, s) }

// Extra records an additional coverage figure.
func (r *R) Extra(k string, v any) {
	r.mu.Lock()
	r.extra[k] = v
	r.mu.Unlock()
}

// AddTransitions lets a space that does its own exploration account for it.
func (r *R) AddTransitions(n int64) { r.transitions.Add(n) }

// AddExecutions is the same for executions.
func (r *R) AddExecutions(n int64) { r.executions.Add(n) }

// State records a state from outside an execution.
func (r *R) State(key string) { r.states.add(key) }

// Sample records a case to be shown in the evidence.
func (r *R) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 12 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

// Workers limits the parallelism of the following spaces (0: all the cores).
func (r *R) Workers(n int) { r.workers = n }

// Main runs a check and exits.
func Main(id string, body func(r *R)) {
	debug.SetGCPercent(400)
	r := &R{
		ID: id, Tier: os.Getenv("VERIF_TIER"), Dir: os.Getenv("VERIF_DIR"),
		start: time.Now(), states: newSet(), known: map[string]string{}, knownHit: map[string]string{},
		extra: map[string]any{}, level: "model_checking",
	}
	if r.Dir == "" {
		r.Dir = "/verif"
	}
	for i := 1; i < len(os.Args); i++ {
		switch os.Args[i] {
		case "quick", "thorough":
			r.Tier = os.Args[i]
		case "replay":
			raw, err := os.ReadFile(os.Args[i+1])
			if err != nil {
				fmt.Println("cannot read the replay:", err)
				os.Exit(2)
			}
			r.replay = new(replayFile)
			if err = json.Unmarshal(raw, r.replay); err != nil {
				fmt.Println("cannot parse the replay:", err)
				os.Exit(2)
			}
			r.Tier = r.replay.Tier
			i++
		}
	}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	budget := 240 * time.Second
	if r.Thorough() {
		budget = 780 * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S")); err == nil && s > 0 {
		budget = time.Duration(s) * time.Second
	}
	r.deadline = r.start.Add(budget)
	r.loadKnown()

	body(r)

	r.finish()
}

func (r *R) loadKnown() {
	f, err := os.Open(filepath.Join(r.Dir, "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		// known: property=<id> key=<quoted key> <description>
		line := strings.TrimSpace(sc.Text())
		prefix := "known: property=" + r.ID + " key="
		if !strings.HasPrefix(line, prefix) {
			continue
		}
		q, err := strconv.QuotedPrefix(line[len(prefix):])
		if err != nil {
			continue
		}
		key, _ := strconv.Unquote(q)
		r.known[key] = strings.TrimSpace(line[len(prefix)+len(q):])
	}
}

func (r *R) expired() bool {
	if r.timedOut.Load() {
		return true
	}
	if time.Now().After(r.deadline) {
		r.timedOut.Store(true)
		return true
	}
	return false
}

// report files a violation. It returns true if the exploration should stop.
func (r *R) report(f found) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	if desc, ok := r.known[f.v.Key]; ok {
		r.knownHit[f.v.Key] = desc
		return false
	}
	r.violations = append(r.violations, f)
	r.stop.Store(true)
	return true
}

// Fail files a violation found outside of the choice explorer.
func (r *R) Fail(space string, err error, trace []string) {
	var v *Violation
	if !errors.As(err, &v) {
		v = &Violation{Key: "error", Msg: err.Error()}
	}
	r.report(found{space: space, v: v, trace: trace})
}

// Stopped tells whether a violation has been found or the time is out.
func (r *R) Stopped() bool { return r.stop.Load() || r.expired() }

func (r *R) exec(c *C, fn func(c *C) error) (err error) {
	c.pos = 0
	c.steps = 0
	c.trace = c.trace[:0]
	c.started.Store(time.Now().UnixNano())
	defer func() {
		c.started.Store(0)
		if p := recover(); p != nil {
			if _, ok := p.(cut); ok {
				err = ErrSkip
				return
			}
			msg := fmt.Sprint(p)
			if strings.HasPrefix(msg, "mc: divergence") && r.tolerant {
				err = errDiverged
				return
			}
			if strings.HasPrefix(msg, "mc: ") {
				fmt.Println("internal error:", msg)
				os.Exit(2)
			}
			err = Failf("panic: "+msg, "%v\n%s", p, stack())
		}
	}()
	return fn(c)
}

func stack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

// Space explores every execution of fn.
func (r *R) Space(name string, fn func(c *C) error) { r.explore(name, fn) }

func (r *R) explore(name string, fn func(c *C) error) {
	if r.replay != nil {
		if r.replay.Space != name {
			return
		}
		c := &C{r: r, Tracing: true, choices: append([]int32{}, r.replay.Choices...)}
		err := r.exec(c, fn)
		for _, l := range c.trace {
			fmt.Println("  ", l)
		}
		fmt.Println("replay result:", err)
		if err != nil && err != ErrSkip {
			os.Exit(1)
		}
		os.Exit(0)
	}
	if r.stop.Load() || os.Getenv(childEnv) != "" {
		return
	}
	if r.expired() {
		r.dropped = append(r.dropped, name)
		return
	}
	start := time.Now()
	workers := r.workers
	if workers == 0 {
		workers = runtime.NumCPU()
	}

	// split the choice tree into subtrees
	frontier := [][]int32{{}}
	var leaves [][]int32
	if workers > 1 {
		c := &C{r: r, where: name}
		split := make(chan struct{})
		go r.watchdog(name, []*C{c}, split)
		for len(frontier) > 0 && len(frontier)+len(leaves) < 32*workers && len(leaves) < 64*workers && !r.Stopped() {
			p := frontier[0]
			frontier = frontier[1:]
			c.choices = append(c.choices[:0], p...)
			c.arity = c.arity[:0]
			begin := time.Now()
			err := r.exec(c, fn)
			if err != nil && err != ErrSkip && err != errDiverged && time.Since(begin) > time.Second {
				// a failure that takes its time; others are found below
				if r.confirm(name, c, fn, err) {
					break
				}
			}
			if len(c.arity) <= len(p) {
				leaves = append(leaves, p)
				continue
			}
			for i := 0; i < int(c.arity[len(p)]); i++ {
				frontier = append(frontier, append(append([]int32{}, p...), int32(i)))
			}
		}
		close(split)
	}
	jobs := append(leaves, frontier...)

	var next atomic.Int64
	var execs, trans, skipped, maxDepth atomic.Int64
	var wg sync.WaitGroup
	cs := make([]*C, workers)
	done := make(chan struct{})
	for w := 0; w < workers; w++ {
		cs[w] = &C{r: r, where: name}
	}
	go r.watchdog(name, cs, done)
	var truncated atomic.Bool
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(c *C) {
			defer wg.Done()
			var ex, tr, sk int64
			var depth int
			defer func() {
				execs.Add(ex)
				trans.Add(tr)
				skipped.Add(sk)
				for {
					old := maxDepth.Load()
					if int64(depth) <= old || maxDepth.CompareAndSwap(old, int64(depth)) {
						break
					}
				}
			}()
			for {
				j := int(next.Add(1)) - 1
				if j >= len(jobs) {
					return
				}
				c.prefix = len(jobs[j])
				c.choices = append(c.choices[:0], jobs[j]...)
				c.arity = c.arity[:0]
				for n := 0; ; n++ {
					if n&63 == 0 && (r.stop.Load() || r.expired()) {
						truncated.Store(true)
						return
					}
					err := r.exec(c, fn)
					if c.pos < len(c.choices) {
						fmt.Printf("internal error: mc: divergence while replaying: %d choices of %d used in %s (err %v)\n", c.pos, len(c.choices), name, err)
						os.Exit(2)
					}
					if err == ErrSkip {
						sk++
					} else {
						ex++
						tr += c.steps
						if len(c.choices) > depth {
							depth = len(c.choices)
						}
						if err != nil && r.confirm(name, c, fn, err) {
							return
						}
					}
					// advance the odometer
					i := len(c.choices) - 1
					for i >= c.prefix && c.choices[i]+1 >= c.arity[i] {
						i--
					}
					if i < c.prefix {
						break
					}
					c.choices[i]++
					c.choices = c.choices[:i+1]
					c.arity = c.arity[:i+1]
				}
			}
		}(cs[w])
	}
	wg.Wait()
	close(done)
	r.executions.Add(execs.Load())
	r.transitions.Add(trans.Load())

	sample := &C{r: r, Tracing: true}
	if len(jobs) > 0 && !r.stop.Load() {
		sample.choices = append(sample.choices, jobs[len(jobs)/2]...)
		_ = r.exec(sample, fn)
		if len(sample.trace) > 0 {
			r.Sample(map[string]any{"space": name, "choices": sample.choices, "trace": strings.Join(sample.trace, " | ")})
		}
	}
	r.spaces = append(r.spaces, map[string]any{
		"space": name, "executions": execs.Load(), "transitions": trans.Load(), "infeasible": skipped.Load(),
		"max_choices": maxDepth.Load(), "exhaustive": !truncated.Load(), "wall_s": round(time.Since(start)),
	})
}

// confirm re-runs a failing execution, and files it if it fails every time.
func (r *R) confirm(name string, c *C, fn func(c *C) error, err error) bool {
	v := toViolation(err)
	r.mu.Lock()
	if _, ok := r.known[v.Key]; ok {
		if _, hit := r.knownHit[v.Key]; hit {
			r.mu.Unlock()
			return false
		}
	}
	r.mu.Unlock()
	cc := &C{r: r, Tracing: true}
	// the order of a map is not under control, so a failure may come and go
	need, passes := 5, 0
	for i := 0; need > 0; i++ {
		cc.choices = append(cc.choices[:0], c.choices...)
		cc.arity = cc.arity[:0]
		begin := time.Now()
		again := r.exec(cc, fn)
		if again == nil || again == ErrSkip || again == errDiverged {
			if passes++; passes < 4 && again == nil && i < 12 {
				continue
			}
			r.mu.Lock()
			r.extra["unconfirmed"] = fmt.Sprintf("%s: %v (did not fail on re-run %d)", name, err, i+1)
			r.mu.Unlock()
			return false
		}
		v = toViolation(again)
		need--
		if time.Since(begin) > 5*time.Second {
			need -= 2
		}
	}
	trace := append([]string{}, cc.trace...)
	return r.report(found{space: name, choices: append([]int32{}, c.choices...), v: v, trace: trace})
}

func toViolation(err error) *Violation {
	var v *Violation
	if errors.As(err, &v) {
		return v
	}
	return &Violation{Key: "error", Msg: err.Error()}
}

// watchdog turns an execution which never ends into a violation.
func (r *R) watchdog(name string, cs []*C, done chan struct{}) {
	t := time.NewTicker(time.Second)
	defer t.Stop()
	limit := 100 * time.Second
	for {
		select {
		case <-done:
			return
		case <-t.C:
		}
		for _, c := range cs {
			if at := c.started.Load(); at != 0 && time.Since(time.Unix(0, at)) > limit {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				r.mu.Lock()
				r.violations = append(r.violations, found{space: name, choices: append([]int32{}, c.choices...),
					v: &Violation{Key: "hang", Msg: "an execution does not terminate\n" + string(buf[:n])}})
				r.mu.Unlock()
				r.finish()
			}
		}
	}
}

func round(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }

func (r *R) finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	exhaustive := !r.timedOut.Load() && len(r.dropped) == 0
	for _, s := range r.spaces {
		if s["exhaustive"] != true {
			exhaustive = false
		}
	}
	cov := map[string]any{
		"states":                        r.states.len(),
		"transitions":                   r.transitions.Load(),
		"traces_validated_against_impl": r.executions.Load(),
		"samples":                       r.samples,
		"exhaustive":                    exhaustive,
		"spaces":                        r.spaces,
	}
	if len(r.dropped) > 0 {
		cov["spaces_not_reached_in_time"] = r.dropped
	}
	if len(r.samples) == 0 {
		cov["samples"] = []any{"(none)"}
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": seed, "level": r.level,
		"coverage": cov, "wall_s": round(time.Since(r.start)), "violations": len(r.violations),
		"assumptions": r.assumptions,
	}
	if r.assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if r.replay == nil {
		raw, err := json.MarshalIndent(ev, "", " ")
		if err == nil {
			_ = os.MkdirAll(filepath.Join(r.Dir, "evidence"), 0o755)
			err = os.WriteFile(filepath.Join(r.Dir, "evidence", r.ID+".json"), append(raw, '\n'), 0o644)
		}
		if err != nil {
			fmt.Println("cannot write the evidence:", err)
		}
	}
	fmt.Printf("%s %s: states=%d transitions=%d executions=%d exhaustive=%v wall=%.1fs\n", r.ID, r.Tier,
		r.states.len(), r.transitions.Load(), r.executions.Load(), exhaustive, round(time.Since(r.start)))
	for _, s := range r.spaces {
		fmt.Printf("  space %v: executions=%v transitions=%v max_choices=%v exhaustive=%v wall=%vs\n",
			s["space"], s["executions"], s["transitions"], s["max_choices"], s["exhaustive"], s["wall_s"])
	}
	if u, ok := r.extra["unconfirmed"]; ok {
		fmt.Println("  note: unconfirmed:", u)
	}
	var keys []string
	for k := range r.knownHit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.ID, k, r.knownHit[k])
	}
	if len(r.violations) == 0 {
		os.Exit(0)
	}
	f := r.violations[0]
	path := filepath.Join(r.Dir, "evidence", r.ID+".replay.json")
	raw, _ := json.MarshalIndent(replayFile{
		Property: r.ID, Tier: r.Tier, Space: f.space, Choices: f.choices, Key: f.v.Key, Message: f.v.Msg, Trace: f.trace,
		How: "bash " + filepath.Join(r.Dir, "run.sh") + " " + r.ID + " replay " + path,
	}, "", " ")
	_ = os.WriteFile(path, append(raw, '\n'), 0o644)
	fmt.Printf("  violated in space %s: %s: %s\n", f.space, f.v.Key, f.v.Msg)
	for _, l := range f.trace {
		fmt.Println("    ", l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, path)
	os.Exit(1)
}

// set is a sharded set of hashes.
type set struct {
	shards [64]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
		_  [40]byte
	}
}

func newSet() *set {
	s := &set{}
	for i := range s.shards {
		s.shards[i].m = map[uint64]struct{}{}
	}
	return s
}

const shardCap = 1 << 17 // 8M states in total

func (s *set) add(key string) {
	s.addHash(hashOf(key))
}

func hashOf(key string) uint64 {
	// FNV-1a, with a final mix
	h := uint64(14695981039346656037)
	for i := 0; i < len(key); i++ {
		h = (h ^ uint64(key[i])) * 1099511628211
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	return h ^ h>>32
}

func (s *set) addHash(h uint64) {
	sh := &s.shards[h&63]
	sh.mu.Lock()
	if len(sh.m) < shardCap {
		sh.m[h] = struct{}{}
	}
	sh.mu.Unlock()
}

func (s *set) len() (n int) {
	for i := range s.shards {
		s.shards[i].mu.Lock()
		n += len(s.shards[i].m)
		s.shards[i].mu.Unlock()
	}
	return n
}
