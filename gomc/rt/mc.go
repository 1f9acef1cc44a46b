//go:build go1.21

// Package zzmc is the runtime of the controlled scheduler ("gomc").
//
// Exactly one managed goroutine runs at a time.  Before every visible
// operation a goroutine calls point, which decides - following the current
// depth-first search path - which goroutine performs its next operation.
package zzmc

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

type vclock []uint32

func (v vclock) get(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, c := range o {
		if (*v)[i] < c {
			(*v)[i] = c
		}
	}
}

func (v vclock) clone() vclock { return append(vclock(nil), v...) }

// Obj is a shared object of the program under test as the search sees it:
// hashes of its access history (for state caching) and a release clock.
type Obj struct {
	w, r uint64
	vc   vclock
}

type thread struct {
	id     int
	slot   int    // its component of the vector clocks
	acc    uint32 // the last epoch at which it recorded an access
	name   string
	wake   chan struct{}
	vc     vclock
	h      uint64
	nchild uint64
	done   bool
	en     func() bool // pending operation: nil means always enabled
	what   string
	quiet  bool // waiting for quiescence
	run    int  // consecutive steps without switch
	safe   bool // the pending operation commutes with everything others do
	frozen bool // never runs again
}

type timer struct {
	when  int64
	seq   int64
	fire  func()
	h     uint64
	dead  bool
}

type node struct {
	n      int32 // number of alternatives
	chosen int32
	kind   int8  // 0: all alternatives free; 1: all but the first cost one; 2: the last costs one
	spent  int16 // deviations spent before this node
}

func (nd *node) cost(c int) int {
	if (nd.kind == 1 && c > 0) || (nd.kind == 2 && c == int(nd.n)-1) {
		return 1
	}
	return 0
}

type exec struct {
	sc       *Scenario
	srch     *search
	expectN  []int32
	threads  []*thread // not ended, in the order of their creation
	started  int       // goroutines started so far
	slots    []slot
	doneF    uint64 // what fingerprint adds for goroutines that have ended
	doneVC   vclock // joined clocks of goroutines that have ended
	main     *thread
	prefix   []int
	nodes    []node
	spent    int
	steps    int
	free     int // operations since the last scheduling point
	maxSteps int
	now      int64
	timers   []*timer
	tseq     int64
	clock    Obj
	clockG   gate
	logG     gate
	clockH   uint64
	logobj   Obj
	events   []Event
	aborting bool
	pruned   bool
	finished bool
	viol     *Violation
	doneCh   chan struct{}
	exitCh   chan struct{}
	trace    []string
	tracing  bool
	chans    map[uintptr]*chanState
	mem      map[memKey]*memState
	atoms    map[unsafe.Pointer]*atomState
	diverged bool
	cut      bool
	racy     bool
	out      uint64
	vals     map[string]interface{}
	mapLoops int
	blurred  bool
	keyIDs   map[interface{}]int // order of appearance of map keys
}

// Violation describes a property violation found on one execution.
type Violation struct {
	Kind    string   `json:"kind"`
	Sig     string   `json:"sig"`
	Msg     string   `json:"msg"`
	Choices []int    `json:"choices"`
	Trace   []string `json:"trace,omitempty"`
}

var (
	x   *exec
	cur *thread
)

// Active reports whether a controlled execution is running.
func Active() bool { return x != nil && !x.aborting }

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 30
	a *= 0xbf58476d1ce4e5b9
	a ^= a >> 27
	a *= 0x94d049bb133111eb
	a ^= a >> 31
	return a
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// wr records a write-like access of the current thread to o.
func (o *Obj) wr(kind uint64) {
	t := cur
	t.h = mix(mix(mix(t.h, kind), o.w), o.r)
	o.w = t.h
	o.r = 0
}

// rd records a read-like access (reads commute with each other).
func (o *Obj) rd(kind uint64) {
	t := cur
	t.h = mix(mix(t.h, kind), o.w)
	o.r += mix(t.h, 77)
}

func (o *Obj) acquire() { cur.vc.join(o.vc) }
func (o *Obj) release() {
	o.vc.join(cur.vc)
	cur.vc[cur.slot]++
}

// ---- threads ---------------------------------------------------------

func newThread(name string) *thread {
	t := &thread{id: x.started, name: name, wake: make(chan struct{}, 1)}
	if cur != nil {
		t.vc = cur.vc.clone()
		cur.nchild++
		t.h = mix(mix(cur.h, 0x60), cur.nchild)
		cur.h = mix(cur.h, 0x61)
		cur.vc[cur.slot]++
	} else {
		t.h = 1
	}
	// A goroutine takes over the component of one that has ended if all that
	// one did happens before its start: the two are like one goroutine then.
	t.slot = len(x.slots)
	for i := range x.slots {
		if s := &x.slots[i]; s.ended && t.vc.get(i) >= s.acc {
			t.slot = i
			break
		}
	}
	if t.slot == len(x.slots) {
		x.slots = append(x.slots, slot{})
	}
	s := &x.slots[t.slot]
	for len(t.vc) <= t.slot {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.slot] = s.last + 1
	s.ended = false
	t.what, t.safe = "start", !noReduction
	x.started++
	x.threads = append(x.threads, t)
	return t
}

// slot is a component of the vector clocks.
type slot struct {
	ended     bool
	acc, last uint32 // of the goroutine that used it last
}

// end does the accounts for a goroutine that has returned.
func (e *exec) end(t *thread) {
	for i, u := range e.threads {
		if u == t {
			e.threads = append(e.threads[:i], e.threads[i+1:]...)
			break
		}
	}
	e.slots[t.slot] = slot{ended: true, acc: t.acc, last: t.vc[t.slot]}
	e.doneF += mix(mix(t.h, 0xd), 0x1234567)
	e.doneVC.join(t.vc)
}

// Go starts f as a managed goroutine.
func Go(f func()) { GoNamed("", f) }

// GoNamed starts f as a managed goroutine with a name used in traces.
func GoNamed(name string, f func()) *Handle {
	if x == nil {
		h := &Handle{}
		go f()
		return h
	}
	if x.aborting {
		return &Handle{}
	}
	if len(x.threads) > 1500 {
		failNow("livelock", "threads", "more than 1500 goroutines are there at the same time")
	}
	if name == "" && x.tracing {
		name = caller()
	}
	t := newThread(name)
	tracef("go %s", t)
	launch(t, f)
	return &Handle{t: t}
}

func (t *thread) String() string { return fmt.Sprintf("T%d(%s)", t.id, t.name) }

func launch(t *thread, f func()) {
	e := x
	go func() {
		ok := false
		defer func() {
			r := recover()
			if e.aborting {
				t.done = true
				e.exitCh <- struct{}{}
				return
			}
			if !ok {
				if r != nil {
					st := trimStack(string(debug.Stack()))
					e.fail("panic", "panic:"+panicSig(r, st), fmt.Sprintf("panic in %s: %v\n%s", t, r, st))
				} else {
					// runtime.Goexit by the code under test: ends the goroutine
					ok = true
				}
			}
			t.done = true
			if t == e.main || e.viol != nil || e.pruned {
				e.finished = true
				e.doneCh <- struct{}{}
				return
			}
			t.h = mix(t.h, 0xdead)
			e.end(t)
			nx := e.pick(t)
			if nx == nil { // execution over (deadlock reported or pruned)
				e.finished = true
				e.doneCh <- struct{}{}
				return
			}
			cur = nx
			nx.wake <- struct{}{}
		}()
		<-t.wake
		if e.aborting {
			runtime.Goexit()
		}
		t.safe = false
		t.h = mix(t.h, 0x5158)
		f()
		ok = true
	}()
}

func panicSig(r interface{}, st string) string {
	s := fmt.Sprint(r)
	// digits vary with data; drop them so that a signature names a kind of panic
	b := make([]rune, 0, len(s))
	for _, c := range s {
		if c >= '0' && c <= '9' {
			if len(b) > 0 && b[len(b)-1] == '#' {
				continue
			}
			c = '#'
		}
		b = append(b, c)
	}
	return string(b)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	out := []string{}
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "/zzmc") || strings.Contains(lines[i], "runtime/") {
			continue
		}
		out = append(out, lines[i])
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Handle identifies a started goroutine.
type Handle struct{ t *thread }

// Done tells whether the goroutine has returned.
func (h *Handle) Done() bool { return h.t != nil && h.t.done }

// Blocked describes what the goroutine is waiting for ("" if finished).
func (h *Handle) Blocked() string {
	if h.t == nil || h.t.done {
		return ""
	}
	return h.t.what
}

// Join waits until every given goroutine has returned.
func Join(hs ...*Handle) {
	for _, h := range hs {
		if h.t == nil {
			continue
		}
		t := h.t
		cur.safe = !noReduction
		block("join", func() bool { return t.done })
		if x.aborting {
			return
		}
		cur.h = mix(mix(cur.h, 0x62), t.h)
		cur.vc.join(t.vc)
	}
}

// Quiesce waits until no other goroutine can take a step without time
// passing.
func Quiesce() {
	if x == nil || x.aborting {
		return
	}
	me := cur
	me.quiet = true
	block("quiesce", func() bool {
		for _, t := range x.threads {
			if t != me && !t.done && !t.frozen && !t.quiet && (t.en == nil || t.en()) {
				return false
			}
		}
		return true
	})
	me.quiet = false
	if x.aborting {
		return
	}
	for _, t := range x.threads {
		if t != me {
			me.h = mix(me.h, t.h)
			me.vc.join(t.vc)
		}
	}
	me.h = mix(me.h, x.doneF)
	me.vc.join(x.doneVC)
}

// Freeze stops every other goroutine for good, as if its process was stopped.
func Freeze() {
	if x == nil || x.aborting {
		return
	}
	for _, t := range x.threads {
		if t != cur {
			t.frozen = true
		}
	}
}

// Blur explores a single schedule until it is called with false.
func Blur(on bool) {
	if x != nil && !x.aborting {
		x.blurred = on
	}
}

func tracef(f string, a ...interface{}) {
	if x != nil && x.tracing && !x.aborting {
		who := "-"
		if cur != nil {
			who = cur.String()
		}
		x.trace = append(x.trace, fmt.Sprintf("%-18s ", who)+fmt.Sprintf(f, a...))
	}
}

func caller() string {
	var pcs [16]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.File, "/zzmc") && f.File != "" {
			file := f.File
			if i := strings.LastIndex(file, "/"); i >= 0 {
				file = file[i+1:]
			}
			return fmt.Sprintf("%s:%d", file, f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// ---- scheduling ------------------------------------------------------

// point is a scheduling point in front of an always-enabled operation.
func point(what string) { block(what, nil) }

// block is a scheduling point in front of an operation that is enabled when
// en() holds.
func block(what string, en func() bool) {
	e := x
	if e == nil || e.aborting {
		return
	}
	t := cur
	e.free = 0
	t.en, t.what = en, what
	nx := e.pick(t)
	if nx != t {
		if nx == nil {
			e.finished = true
			e.doneCh <- struct{}{}
		} else {
			cur = nx
			nx.wake <- struct{}{}
		}
		<-t.wake
		if e.aborting {
			runtime.Goexit()
		}
	}
	t.en, t.safe = nil, false
	t.h = mix(t.h, 0x5157) // every step counts, or two points in a row would look like one state
	e.steps++
	if e.tracing {
		tracef("%s @%s", what, caller())
	}
}

func (e *exec) blockedDesc() string {
	s := []string{}
	for _, t := range e.threads {
		if !t.done {
			s = append(s, fmt.Sprintf("%s waits at %q", t, t.what))
		}
	}
	return strings.Join(s, "; ")
}

// pick decides which thread runs next.  t is the thread that just ran.
// It returns nil if the execution is over.
func (e *exec) pick(t *thread) *thread {
	if e.steps >= e.maxSteps {
		e.fail("livelock", "livelock", fmt.Sprintf("no quiescence after %d steps; %s", e.steps, e.blockedDesc()))
		return nil
	}
	var buf [32]*thread
	for {
		en := buf[:0]
		curEn := false
		for _, u := range e.threads {
			if u.done || u.frozen {
				continue
			}
			if u.en == nil || u.en() {
				if u == t {
					curEn = true
				} else {
					en = append(en, u)
				}
			}
		}
		n := len(en)
		if curEn {
			n++
		}
		early := e.sc.EarlyTimers && n > 0 && e.nextTimer() != nil
		if n == 0 {
			if e.advance() {
				continue
			}
			e.fail("deadlock", "deadlock", "all goroutines are blocked: "+e.blockedDesc())
			return nil
		}
		if !early {
			// an operation that commutes with everything else need not compete
			if curEn && t.safe {
				return t
			}
			for _, u := range en {
				if u.safe {
					u.run = 0
					return u
				}
			}
		}
		if n == 1 && !early {
			if curEn {
				t.run++
				return t
			}
			en[0].run = 0
			return en[0]
		}
		if curEn && !early {
			t.run++
			if t.run > 3000 { // fairness: a spinning goroutine yields at no cost
				t.run = 0
				return en[0]
			}
		}
		// alternatives: current thread first, then the others by id, then time
		total := n
		if early {
			total++
		}
		kind := int8(0)
		if curEn {
			kind = 1
		} else if early {
			kind = 2
		}
		c, ok := e.decide(total, kind, t, curEn)
		if !ok {
			return nil
		}
		if early && c == total-1 {
			e.advance()
			if !curEn {
				continue
			}
			// the interrupted thread decides again after time has passed
			continue
		}
		if curEn {
			if c == 0 {
				return t
			}
			c--
		}
		t.run = 0
		en[c].run = 0
		return en[c]
	}
}

func (e *exec) fingerprint() uint64 {
	f := mix(e.clockH, 5) + e.doneF
	for _, t := range e.threads {
		h := t.h
		f += mix(h, 0x1234567)
	}
	return f
}

// decide takes the next decision of the search: one of n alternatives.
func (e *exec) decide(n int, kind int8, t *thread, curEn bool) (int, bool) {
	if e.blurred {
		return 0, true
	}
	k := len(e.nodes)
	nd := node{n: int32(n), kind: kind, spent: int16(e.spent)}
	if k < len(e.prefix) {
		c := e.prefix[k]
		if c >= n || (e.expectN != nil && k < len(e.expectN) && int(e.expectN[k]) != n) {
			e.diverged = true
			e.pruned = true
			return 0, false
		}
		nd.chosen = int32(c)
	} else if s := e.srch; s != nil {
		key := e.fingerprint()
		if curEn {
			key = mix(key, t.h)
		} else {
			key = mix(key, 3)
		}
		if !s.visit(key, s.bound-e.spent) {
			e.pruned = true
			return 0, false
		}
	}
	e.nodes = append(e.nodes, nd)
	e.spent += nd.cost(int(nd.chosen))
	return int(nd.chosen), true
}

// Choose returns every value in [0,n) on some execution.
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	e := x
	if e == nil {
		panic("mc.Choose outside an exploration")
	}
	if e.aborting {
		return 0
	}
	cur.h = mix(cur.h, 0x71)
	was := e.blurred
	e.blurred = false
	c, ok := e.decide(n, 0, cur, true)
	e.blurred = was
	if !ok {
		e.finished = true
		t := cur
		e.doneCh <- struct{}{}
		<-t.wake
		runtime.Goexit()
	}
	cur.h = mix(cur.h, uint64(c)+0x7200)
	tracef("choose %d of %d", c, n)
	return c
}

// ChooseBool explores both truth values.
func ChooseBool() bool { return Choose(2) == 1 }

// Yield is a plain scheduling point.
func Yield() { point("yield") }

// BlockUntil waits until cond holds.
func BlockUntil(what string, cond func() bool) { block(what, cond) }

// ---- time ------------------------------------------------------------

// NowNs is the virtual time in nanoseconds.
func NowNs() int64 {
	if x == nil {
		return time.Now().UnixNano()
	}
	if x.aborting {
		return x.now
	}
	if cur != nil {
		if x.sc.EarlyTimers {
			point("now")
		} else {
			pass("now", nil, &x.clockG)
		}
		x.clockG.access(false)
		x.clock.rd(0x80)
	}
	return x.now
}

// Advance moves the virtual clock forward (an ordered event).
func Advance(d int64) {
	if x == nil || x.aborting {
		return
	}
	pass("advance", nil, &x.clockG)
	x.clockG.access(true)
	x.clock.wr(0x81)
	x.now += d
	x.clockH = mix(x.clockH, uint64(d))
}

func (e *exec) nextTimer() *timer {
	var b *timer
	for _, tm := range e.timers {
		if !tm.dead && (b == nil || tm.when < b.when || (tm.when == b.when && tm.seq < b.seq)) {
			b = tm
		}
	}
	return b
}

// advance moves time to the next timer and fires it.
func (e *exec) advance() bool {
	b := e.nextTimer()
	if b == nil {
		return false
	}
	if b.when > e.now {
		if e.sc.Horizon > 0 && b.when > e.sc.Horizon+startTime {
			return false
		}
		e.now = b.when
	}
	// everything that is due now happens "at once": whoever wakes up competes
	for ; b != nil && b.when <= e.now; b = e.nextTimer() {
		live := e.timers[:0]
		for _, tm := range e.timers {
			if !tm.dead && tm != b {
				live = append(live, tm)
			}
		}
		for i := len(live); i < len(e.timers); i++ {
			e.timers[i] = nil
		}
		e.timers = live
		e.clockH = mix(mix(e.clockH, b.h), uint64(e.now))
		e.clock.w = mix(e.clock.w, e.clockH)
		b.fire()
	}
	return true
}

const startTime = int64(1000) * 1000 * 1000 * 1000

// AddTimer registers fire to be called (by the scheduler) at virtual time when.
func AddTimer(when int64, fire func()) *timer {
	x.tseq++
	tm := &timer{when: when, seq: x.tseq, fire: fire, h: mix(cur.h, uint64(when))}
	x.timers = append(x.timers, tm)
	return tm
}

// Kill cancels the timer and reports whether it was pending.
func (tm *timer) Kill() bool {
	was := !tm.dead
	tm.dead = true
	return was
}

// SleepNs blocks the current goroutine for d virtual nanoseconds.
func SleepNs(d int64) {
	if x == nil {
		time.Sleep(time.Duration(d))
		return
	}
	if x.aborting {
		return
	}
	if d <= 0 {
		point("sleep0")
		return
	}
	woken := false
	x.clock.rd(0x82)
	AddTimer(x.now+d, func() { woken = true })
	cur.safe = !noReduction
	block("sleep", func() bool { return woken })
	if !x.aborting {
		x.clock.rd(0x83)
	}
}

// ---- events ----------------------------------------------------------

// Event is one entry of the global, totally ordered event log.
type Event struct {
	Thread int
	Call   bool
	ID     int
	Name   string
	Arg    interface{}
}

// Log appends an event to the ordered log; its position is part of the state.
func Log(name string, arg interface{}) {
	if x == nil || x.aborting {
		return
	}
	pass("log", nil, &x.logG)
	x.logG.access(true)
	x.logobj.wr(mix(0x90, hashStr(name)))
	x.events = append(x.events, Event{Thread: cur.id, Name: name, Arg: arg})
	tracef("event %s %v", name, arg)
}

// LogPoint is Log with a scheduling point in front of it.
func LogPoint(name string, arg interface{}) {
	point("log " + name)
	Log(name, arg)
}

// Events returns the log.
func Events() []Event { return x.events }

// Fold mixes a value into the calling goroutine's history (use it when
// behaviour depends on something the search cannot see).
func Fold(v uint64) {
	if x != nil && cur != nil && !x.aborting {
		cur.h = mix(cur.h, v)
	}
}

// Outcome contributes a value to the outcome hash of this execution, used to
// count distinct end results.
func Outcome(v interface{}) {
	if x != nil {
		x.out = mix(x.out, hashStr(fmt.Sprint(v)))
	}
}

// Shared is an object for harness fakes whose operations must be ordered.
type Shared struct {
	e *exec
	o Obj
	g gate
}

func (s *Shared) obj(what string) *Obj {
	if s.e != x {
		s.e, s.o = x, Obj{}
		s.g.init("shared " + what)
	}
	return &s.o
}

// Access is a scheduling point followed by an ordered access to s, which also
// synchronises (like a lock-protected section).
func (s *Shared) Access(what string) {
	if x == nil || x.aborting {
		return
	}
	o := s.obj(what)
	pass(what, nil, &s.g)
	if x.aborting {
		return
	}
	s.g.access(true)
	o.wr(0xa0)
	o.acquire()
	o.release()
}

// AccessWhen waits for cond and then accesses s.
func (s *Shared) AccessWhen(what string, cond func() bool) {
	if x == nil || x.aborting {
		return
	}
	o := s.obj(what)
	block(what, cond)
	if x.aborting {
		return
	}
	s.g.access(true)
	o.wr(0xa1)
	o.acquire()
	o.release()
}

// ---- failing ---------------------------------------------------------

func (e *exec) fail(kind, sig, msg string) {
	if e.viol != nil || e.aborting {
		return
	}
	e.viol = &Violation{Kind: kind, Sig: sig, Msg: msg}
}

// Fail reports a violation of the property on the current execution and ends it.
func Fail(sig, format string, a ...interface{}) {
	failNow("property", sig, fmt.Sprintf(format, a...))
}

// Assert fails unless ok.
func Assert(ok bool, sig, format string, a ...interface{}) {
	if !ok {
		Fail(sig, format, a...)
	}
}

func failNow(kind, sig, msg string) {
	e := x
	if e == nil {
		panic("mc: " + sig + ": " + msg)
	}
	if e.aborting {
		runtime.Goexit()
	}
	e.fail(kind, sig, msg)
	e.finished = true
	t := cur
	e.doneCh <- struct{}{}
	<-t.wake
	runtime.Goexit()
}

// Exit replaces os.Exit in code under test.
func Exit(code int) {
	if x == nil {
		os.Exit(code)
	}
	if x.aborting {
		return
	}
	failNow("exit", fmt.Sprintf("exit%d", code), fmt.Sprintf("process exit with code %d at %s", code, caller()))
}

// Put and Get keep per-execution harness values.
func Put(k string, v interface{}) {
	if x != nil {
		x.vals[k] = v
	}
}

// Get returns what Put stored.
func Get(k string) interface{} {
	if x == nil {
		return nil
	}
	return x.vals[k]
}
