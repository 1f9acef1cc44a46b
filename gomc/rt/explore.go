//go:build go1.21

package zzmc

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

// Scenario is one harness: either a schedule exploration (Body) or an
// exhaustive enumeration (Enum).
type Scenario struct {
	Name string

	// schedule exploration
	Setup       func() // before each execution, uncontrolled
	Body        func() // the controlled main goroutine
	Teardown    func() // after each execution, uncontrolled
	MaxSteps    int
	MaxBound    int // largest preemption bound tried (0: unlimited)
	EarlyTimers bool
	Horizon     int64

	// enumeration
	Enum   func(*E)
	Shards int

	// Thorough scenarios only run in the thorough tier.
	Thorough bool
}

// Result is what a scenario run reports to the driver.
type Result struct {
	Scenario    string            `json:"scenario"`
	Kind        string            `json:"kind"`
	Execs       int               `json:"execs"`
	Complete    int               `json:"complete"`
	States      int               `json:"states"`
	Transitions int               `json:"transitions"`
	Bound       int               `json:"bound"` // largest bound fully explored (-1: none)
	Exhausted   bool              `json:"exhausted"`
	Outcomes    int               `json:"outcomes"`
	Promoted    []string          `json:"promoted,omitempty"`
	Diverged    int               `json:"diverged,omitempty"`
	Evals       int               `json:"evals"`
	Nontrivial  int               `json:"nontrivial"`
	Rule        string            `json:"rule,omitempty"`
	Samples     []string          `json:"samples,omitempty"`
	Violation   *Violation        `json:"violation,omitempty"`
	Known       map[string]string `json:"known,omitempty"`
	Note        string            `json:"note,omitempty"`
	Wall        float64           `json:"wall"`
}

type search struct {
	bound int
	seen  map[uint64]int8
	racy  map[string]bool
	full  bool
}

const unlimited = 10000

const maxSeen = 12000000

func (s *search) visit(key uint64, left int) bool {
	if left > 100 {
		left = 100
	}
	if v, ok := s.seen[key]; ok && int(v) >= left {
		return false
	}
	if len(s.seen) >= maxSeen {
		s.full = true
		return true
	}
	s.seen[key] = int8(left)
	return true
}

// T is the part of testing.T the runner needs.
type T interface {
	Fatalf(format string, args ...interface{})
	Logf(format string, args ...interface{})
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Thorough tells whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Pick returns q in the quick tier and th in the thorough one.
func Pick(q, th int) int {
	if Thorough() {
		return th
	}
	return q
}

// Main runs what the environment asks for.
func Main(t T, scs []Scenario) {
	out := os.Getenv("MC_OUT")
	write := func(v interface{}) {
		b, _ := json.Marshal(v)
		if out == "" {
			t.Logf("%s", b)
			return
		}
		if err := os.WriteFile(out+".tmp", b, 0o644); err != nil {
			t.Fatalf("%v", err)
		}
		os.Rename(out+".tmp", out)
	}
	if os.Getenv("MC_LIST") != "" {
		names := []string{}
		for _, s := range scs {
			if s.Thorough && !Thorough() {
				continue
			}
			if s.Enum != nil && s.Shards > 1 {
				for i := 0; i < s.Shards; i++ {
					names = append(names, fmt.Sprintf("%s#%d", s.Name, i))
				}
			} else {
				names = append(names, s.Name)
			}
		}
		write(names)
		return
	}
	want := os.Getenv("MC_SCENARIO")
	shard := 0
	base := want
	if i := strings.LastIndex(want, "#"); i >= 0 {
		shard, _ = strconv.Atoi(want[i+1:])
		base = want[:i]
	}
	known := map[string]bool{}
	for _, k := range strings.Split(os.Getenv("MC_KNOWN"), "\x1f") {
		if k != "" {
			known[k] = true
		}
	}
	if p := os.Getenv("MC_PROMOTE"); p != "" {
		promote(strings.Split(p, "\x1f"))
	}
	budget := time.Duration(envInt("MC_BUDGET", 60)) * time.Second
	found := false
	for i := range scs {
		s := &scs[i]
		if base != "" && s.Name != base {
			continue
		}
		found = true
		var r *Result
		if s.Enum != nil {
			if want == "" {
				for k := 0; k < s.Shards || k == 0; k++ {
					r = runEnum(s, k, known, budget, write)
					write(r)
				}
				continue
			}
			r = runEnum(s, shard, known, budget, write)
			r.Scenario = want
		} else if c := os.Getenv("MC_REPLAY"); c != "" {
			var ch []int
			json.Unmarshal([]byte(c), &ch)
			e := runExec(s, nil, ch, nil, true, write)
			r = &Result{Scenario: s.Name, Kind: "replay", Execs: 1, Violation: e.viol, Samples: []string{strings.Join(e.trace, "\n")}}
			if e.viol != nil {
				e.viol.Choices = ch
				e.viol.Trace = e.trace
			}
			if e.diverged {
				r.Note = "diverged"
			}
		} else {
			r = explore(s, known, budget, write)
		}
		write(r)
	}
	if !found {
		t.Fatalf("no scenario %q", want)
	}
}

func runExec(s *Scenario, sr *search, prefix []int, expectN []int32, tracing bool, write func(interface{})) *exec {
	if s.Setup != nil {
		s.Setup()
	}
	e := &exec{sc: s, srch: sr, prefix: prefix, expectN: expectN, doneCh: make(chan struct{}, 4), exitCh: make(chan struct{}),
		chans: map[uintptr]*chanState{}, mem: map[memKey]*memState{}, atoms: map[unsafe.Pointer]*atomState{}, tracing: tracing, now: startTime, vals: map[string]interface{}{}}
	e.maxSteps = s.MaxSteps
	if e.maxSteps == 0 {
		e.maxSteps = 20000
	}
	e.clockG.init("clock")
	e.logG.init("log")
	cur = nil
	x = e
	m := newThread("main")
	e.main = m
	launch(m, s.Body)
	cur = m
	m.wake <- struct{}{}
	timeout := time.NewTimer(90 * time.Second)
	select {
	case <-e.doneCh:
		timeout.Stop()
	case <-timeout.C:
		buf := make([]byte, 1<<16)
		buf = buf[:runtimeStack(buf)]
		v := &Violation{Kind: "hang", Sig: "hang", Msg: "a goroutine ran for 90 s without reaching a scheduling point\n" + string(buf)}
		for _, nd := range e.nodes {
			v.Choices = append(v.Choices, int(nd.chosen))
		}
		write(&Result{Scenario: s.Name, Kind: "explore", Violation: v, Promoted: promotedNames()})
		os.Exit(0)
	}
	e.aborting = true
	for _, t := range e.threads {
		if !t.done {
			t.wake <- struct{}{}
			select {
			case <-e.exitCh:
			case <-time.After(60 * time.Second):
				fmt.Fprintln(os.Stderr, "mc: goroutine does not end on abort:", t, t.what)
				os.Exit(3)
			}
		}
	}
	x = nil
	cur = nil
	if s.Teardown != nil {
		s.Teardown()
	}
	return e
}

func choices(e *exec) []int {
	r := make([]int, len(e.nodes))
	for i, nd := range e.nodes {
		r[i] = int(nd.chosen)
	}
	return r
}

func explore(s *Scenario, known map[string]bool, budget time.Duration, write func(interface{})) *Result {
	start := time.Now()
	deadline := start.Add(budget)
	r := &Result{Scenario: s.Name, Kind: "explore", Bound: -1, Known: map[string]string{}}
	outcomes := map[uint64]bool{}
	lastWrite := time.Now()
	maxBound := s.MaxBound
	if maxBound == 0 {
		maxBound = 1000
	}
	var sample []int
	// Bounds 0 and 1, then an attempt at everything within a slice of the
	// time, then bounds 2, 3, ...
	var bounds []int
	for b := 0; b <= maxBound && b < 40; b++ {
		if b == 2 && maxBound == 1000 {
			bounds = append(bounds, unlimited)
		}
		bounds = append(bounds, b)
	}
	for _, bound := range bounds {
		sliceEnd := deadline
		if bound == unlimited {
			sliceEnd = time.Now().Add(time.Until(deadline) * 45 / 100)
		}
	restart:
		sr := &search{bound: bound, seen: map[uint64]int8{}, racy: map[string]bool{}}
		cut := false
		var prefix []int
		var expect []int32
		execs := 0
		for {
			e := runExec(s, sr, prefix, expect, false, write)
			r.Execs++
			execs++
			r.Transitions += e.steps
			if e.diverged {
				r.Diverged++
			}
			if e.viol == nil && !e.pruned {
				r.Complete++
				outcomes[e.out] = true
				if sample == nil || (execs == 7 && bound > 0) {
					sample = choices(e)
				}
			}
			if e.viol != nil {
				v := e.viol
				v.Choices = choices(e)
				if known[v.Sig] {
					if _, ok := r.Known[v.Sig]; !ok {
						r.Known[v.Sig] = v.Msg
					}
				} else {
					// confirm
					ok := true
					for i := 0; i < 3 && ok; i++ {
						e2 := runExec(s, nil, v.Choices, nil, i == 2, write)
						if e2.viol == nil || e2.viol.Sig != v.Sig {
							ok = false
						} else if i == 2 {
							v.Trace = e2.trace
						}
					}
					if ok {
						r.Violation = v
						r.States = len(sr.seen)
						r.Promoted = promotedNames()
						r.Wall = time.Since(start).Seconds()
						return r
					}
					r.Note = "violation not reproducible: " + v.Sig + ": " + v.Msg
					r.Diverged++
				}
			}
			if len(sr.racy) > 0 {
				names := []string{}
				for n := range sr.racy {
					names = append(names, n)
				}
				promote(names)
				goto restart
			}
			// next path
			nodes := e.nodes
			if e.diverged && len(prefix) > 0 {
				// skip this subtree
				nodes = nodes[:0]
				for i := 0; i < len(prefix) && i < len(expect); i++ {
					nodes = append(nodes, lastNodes[i])
					nodes[i].chosen = int32(prefix[i])
				}
			}
			k := len(nodes) - 1
			next := -1
			for ; k >= 0 && next < 0; k-- {
				nd := &nodes[k]
				for c := int(nd.chosen) + 1; c < int(nd.n); c++ {
					if int(nd.spent)+nd.cost(c) <= bound {
						next = c
						break
					}
					cut = true
				}
				if next >= 0 {
					break
				}
			}
			if next < 0 {
				break
			}
			prefix = prefix[:0]
			expect = expect[:0]
			for i := 0; i <= k; i++ {
				prefix = append(prefix, int(nodes[i].chosen))
				expect = append(expect, nodes[i].n)
			}
			prefix[k] = next
			lastNodes = append(lastNodes[:0], nodes[:k+1]...)
			if len(sr.seen) > r.States {
				r.States = len(sr.seen)
			}
			if execs%64 == 0 {
				now := time.Now()
				if bound == unlimited && now.After(sliceEnd) && now.Before(deadline) {
					cut = true
					break
				}
				if now.After(deadline) {
					r.Outcomes = len(outcomes)
					r.Promoted = promotedNames()
					r.Wall = time.Since(start).Seconds()
					finishSample(s, r, sample, write)
					return r
				}
				if now.Sub(lastWrite) > 10*time.Second {
					lastWrite = now
					r.Wall = time.Since(start).Seconds()
					r.Outcomes = len(outcomes)
					r.Promoted = promotedNames()
					write(r)
				}
			}
		}
		if len(sr.seen) > r.States {
			r.States = len(sr.seen)
		}
		if bound != unlimited {
			r.Bound = bound
		}
		if !cut {
			if bound == unlimited {
				r.Bound = 999
			}
			r.Exhausted = r.Diverged == 0
			break
		}
		if time.Now().After(deadline) {
			break
		}
	}
	r.Outcomes = len(outcomes)
	r.Promoted = promotedNames()
	r.Wall = time.Since(start).Seconds()
	finishSample(s, r, sample, write)
	return r
}

var lastNodes []node

func finishSample(s *Scenario, r *Result, sample []int, write func(interface{})) {
	if sample == nil {
		return
	}
	e := runExec(s, nil, sample, nil, true, write)
	tr := e.trace
	if len(tr) > 60 {
		tr = append(append([]string{}, tr[:45]...), fmt.Sprintf("... %d more steps", len(tr)-45))
	}
	r.Samples = []string{fmt.Sprintf("schedule %v:\n%s", sample, strings.Join(tr, "\n"))}
}

// ---- enumeration -----------------------------------------------------

// E is an exhaustive enumeration in progress.
type E struct {
	Shard, Shards int
	r             *Result
	known         map[string]bool
	deadline      time.Time
	lastCheck     int
	distinct      map[uint64]struct{}
	states        map[uint64]struct{}
	stopped       bool
	cur           func() string
	write         func(interface{})
	last          time.Time
	start         time.Time
}

type stopEnum struct{}

// Rule describes how cases are made.
func (e *E) Rule(s string) { e.r.Rule = s }

// Mine tells whether this shard handles case number i.
func (e *E) Mine(i int) bool { return e.Shards <= 1 || i%e.Shards == e.Shard }

// Case starts a case; desc is only called when needed.  It returns false when
// the time budget is used up.
func (e *E) Case(desc func() string) bool {
	e.r.Evals++
	e.cur = desc
	if e.r.Evals&255 == 1 {
		now := time.Now()
		if now.After(e.deadline) {
			e.stopped = true
		}
		if now.Sub(e.last) > 10*time.Second {
			e.last = now
			e.r.Wall = now.Sub(e.start).Seconds()
			e.write(e.r)
		}
	}
	if e.stopped {
		panic(stopEnum{})
	}
	n := e.r.Evals
	if len(e.r.Samples) < 3 && (n == 1 || n == 17 || n == 331) {
		e.r.Samples = append(e.r.Samples, desc())
	}
	return true
}

// Distinct counts a distinct, non-trivial case by key.
func (e *E) Distinct(key interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, key)
	e.DistinctH(h.Sum64())
}

// DistinctH is Distinct for a precomputed hash.
func (e *E) DistinctH(h uint64) { e.distinct[h] = struct{}{} }

// State counts a distinct reference state.
func (e *E) State(key interface{}) {
	h := fnv.New64a()
	fmt.Fprint(h, key)
	e.states[h.Sum64()] = struct{}{}
}

// Step counts transitions.
func (e *E) Step(n int) { e.r.Transitions += n }

// Hash hashes values (helper for DistinctH).
func Hash(vs ...interface{}) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, vs...)
	return h.Sum64()
}

// Fail reports a violation for the current case.
func (e *E) Fail(sig, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	d := ""
	if e.cur != nil {
		d = e.cur()
	}
	if e.known[sig] {
		if _, ok := e.r.Known[sig]; !ok {
			e.r.Known[sig] = d + ": " + msg
		}
		return
	}
	e.r.Violation = &Violation{Kind: "property", Sig: sig, Msg: fmt.Sprintf("case %s: %s", d, msg)}
	panic(stopEnum{})
}

// Assert is Fail unless ok.
func (e *E) Assert(ok bool, sig, format string, a ...interface{}) {
	if !ok {
		e.Fail(sig, format, a...)
	}
}

// Try runs f and reports a panic as a violation.
func (e *E) Try(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopEnum); ok {
				panic(r)
			}
			st := trimStack(string(debug.Stack()))
			panicked = true
			e.Fail("panic:"+panicSig(r, st), "panic: %v\n%s", r, st)
		}
	}()
	f()
	return
}

// Timeout runs f in its own goroutine and reports a violation if it does not
// return (code under test that hangs).
func (e *E) Timeout(d time.Duration, what string, f func()) {
	done := make(chan interface{}, 1)
	stack := ""
	go func() {
		var p interface{}
		defer func() {
			if r := recover(); r != nil {
				p = r
				if _, ok := r.(stopEnum); !ok {
					stack = trimStack(string(debug.Stack()))
				}
			}
			done <- p
		}()
		f()
	}()
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case p := <-done:
		if _, ok := p.(stopEnum); ok {
			panic(p)
		}
		if p != nil {
			e.Fail("panic:"+panicSig(p, ""), "panic in %s: %v\n%s", what, p, stack)
		}
	case <-tm.C:
		e.Fail("hang:"+what, "%s did not return within %v", what, d)
	}
}

// Stopped reports whether the enumeration ran out of time.
func (e *E) Stopped() bool { return e.stopped }

func runEnum(s *Scenario, shard int, known map[string]bool, budget time.Duration, write func(interface{})) *Result {
	start := time.Now()
	r := &Result{Scenario: s.Name, Kind: "enum", Known: map[string]string{}}
	if s.Setup != nil {
		s.Setup()
	}
	e := &E{Shard: shard, Shards: s.Shards, r: r, known: known, deadline: start.Add(budget), distinct: map[uint64]struct{}{},
		states: map[uint64]struct{}{}, write: write, last: start, start: start}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(stopEnum); ok {
					return
				}
				st := trimStack(string(debug.Stack()))
				d := ""
				if e.cur != nil {
					d = e.cur()
				}
				r.Violation = &Violation{Kind: "panic", Sig: "panic:" + panicSig(p, st), Msg: fmt.Sprintf("case %s: panic: %v\n%s", d, p, st)}
			}
		}()
		s.Enum(e)
	}()
	if r.Violation != nil && known[r.Violation.Sig] {
		r.Known[r.Violation.Sig] = r.Violation.Msg
		r.Violation = nil
		e.stopped = true
	}
	r.Nontrivial = len(e.distinct)
	r.States = len(e.states)
	r.Exhausted = !e.stopped && r.Violation == nil
	r.Wall = time.Since(start).Seconds()
	sort.Strings(r.Samples)
	return r
}
