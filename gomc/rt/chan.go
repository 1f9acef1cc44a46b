//go:build go1.21

package zzmc

import (
	"fmt"
	"unsafe"
)

// A channel of the program under test.  The real channel serves as identity
// only (and is polled, because foreign code such as package context closes
// real channels); values live here.
type chanState struct {
	ref      interface{} // keeps the real channel alive
	cap      int
	buf      []item
	free     []item // tokens of freed slots (HB from receive to later send)
	closed   bool
	closeH   uint64
	closeVC  vclock
	send     Obj
	recv     Obj
	gs, gr   gate
	waiting  []*waiter // goroutines parked at an operation on this channel
	pollFn   func() (interface{}, bool, bool)
}

type item struct {
	v  interface{}
	h  uint64
	vc vclock
}

// waiter is one parked select/send/recv.
type waiter struct {
	t     *thread
	cases []SelCase
	done  bool
	idx   int
	val   interface{}
	ok    bool
	h     uint64
	vc    vclock
}

// SelCase is one case of a select.
type SelCase struct {
	ch   *chanState
	send bool
	val  interface{}
	tag  string
}

func chanPtr[T any](ch chan T) uintptr { return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch))) }

func state[T any](ch chan T) *chanState {
	if ch == nil {
		return nil
	}
	p := chanPtr(ch)
	if s := x.chans[p]; s != nil {
		return s
	}
	s := &chanState{ref: ch, cap: cap(ch)}
	nm := fmt.Sprintf("%T/%d", ch, cap(ch))
	s.gs.init("send " + nm)
	s.gr.init("recv " + nm)
	s.pollFn = func() (interface{}, bool, bool) {
		select {
		case v, ok := <-ch:
			return v, ok, true
		default:
			return nil, false, false
		}
	}
	for i := 0; i < s.cap; i++ {
		s.free = append(s.free, item{})
	}
	x.chans[p] = s
	return s
}

// poll imports what foreign code did to the real channel.
func (s *chanState) poll() {
	for !s.closed {
		v, ok, got := s.pollFn()
		if !got {
			return
		}
		if !ok {
			s.closed = true
			return
		}
		s.buf = append(s.buf, item{v: v})
	}
}

func (s *chanState) parked(send bool) (*waiter, int) {
	for _, w := range s.waiting {
		if w.done || w.t == cur {
			continue
		}
		for i, c := range w.cases {
			if c.ch == s && c.send == send {
				return w, i
			}
		}
	}
	return nil, 0
}

// parkedFor is parked as seen by thread t.
func (s *chanState) parkedFor(t *thread, send bool) bool {
	for _, w := range s.waiting {
		if w.done || w.t == t {
			continue
		}
		for _, c := range w.cases {
			if c.ch == s && c.send == send {
				return true
			}
		}
	}
	return false
}

func (c *SelCase) ready(t *thread) bool {
	s := c.ch
	if s == nil {
		return false
	}
	if c.send {
		if s.closed {
			return true
		}
		if s.cap > 0 {
			return len(s.buf) < s.cap
		}
		return s.parkedFor(t, false)
	}
	s.poll()
	return len(s.buf) > 0 || s.closed || (s.cap == 0 && s.parkedFor(t, true))
}

// perform executes a ready case.
func (c *SelCase) perform() (interface{}, bool) {
	s := c.ch
	if c.send {
		if s.closed {
			panic("send on closed channel")
		}
		s.send.wr(0xc0)
		if s.cap > 0 {
			if len(s.free) > 0 {
				f := s.free[0]
				s.free = s.free[1:]
				cur.h = mix(cur.h, f.h)
				cur.vc.join(f.vc)
			}
			s.buf = append(s.buf, item{v: c.val, h: cur.h, vc: cur.vc.clone()})
			cur.vc[cur.slot]++
			return nil, true
		}
		w, i := s.parked(false)
		w.complete(i, c.val, true)
		return nil, true
	}
	if len(s.buf) > 0 {
		it := s.buf[0]
		s.buf = s.buf[1:]
		s.recv.wr(0xc1)
		cur.h = mix(cur.h, it.h)
		cur.vc.join(it.vc)
		if s.cap > 0 {
			s.free = append(s.free, item{h: cur.h, vc: cur.vc.clone()})
			cur.vc[cur.slot]++
		}
		return it.v, true
	}
	if s.closed {
		s.recv.rd(0xc2)
		cur.h = mix(cur.h, s.closeH)
		cur.vc.join(s.closeVC)
		return nil, false
	}
	w, i := s.parked(true)
	v := w.cases[i].val
	s.recv.wr(0xc3)
	w.complete(i, nil, true)
	return v, true
}

// complete finishes a parked counterpart of an unbuffered exchange.
func (w *waiter) complete(i int, v interface{}, ok bool) {
	w.done, w.idx, w.val, w.ok = true, i, v, ok
	// both sides synchronise
	cur.vc.join(w.t.vc)
	w.vc = cur.vc.clone()
	cur.vc[cur.slot]++
	cur.h = mix(cur.h, w.t.h)
	w.h = cur.h
	for _, c := range w.cases {
		if c.ch != nil {
			c.ch.remove(w)
		}
	}
}

func (s *chanState) remove(w *waiter) {
	for i, o := range s.waiting {
		if o == w {
			s.waiting = append(append([]*waiter(nil), s.waiting[:i]...), s.waiting[i+1:]...)
			return
		}
	}
}

// touch records that the outcome of a select depends on both sides of every
// channel in it.
func touch(cases []SelCase) {
	for i := range cases {
		if s := cases[i].ch; s != nil {
			s.gs.access(cases[i].send)
			s.gr.access(!cases[i].send)
		}
	}
}

func selectOp(what string, hasDefault bool, cases []SelCase) (int, interface{}, bool) {
	t := cur
	if hasDefault {
		var gs []*gate
		for i := range cases {
			if s := cases[i].ch; s != nil {
				gs = append(gs, &s.gs, &s.gr)
			}
		}
		pass(what, nil, gs...)
		touch(cases)
	} else {
		w := &waiter{t: t, cases: cases}
		for i := range cases {
			if s := cases[i].ch; s != nil {
				s.waiting = append(s.waiting, w)
			}
		}
		en := func() bool {
			if w.done {
				return true
			}
			for i := range cases {
				if cases[i].ready(t) {
					return true
				}
			}
			return false
		}
		if len(cases) == 1 && cases[0].ch != nil {
			if s := cases[0].ch; cases[0].send {
				s.gs.access(true)
				pass(what, en, &s.gs)
			} else {
				s.gr.access(true)
				pass(what, en, &s.gr)
			}
		} else {
			touch(cases)
			block(what, en)
		}
		if w.done {
			cur.h = mix(cur.h, w.h)
			cur.vc.join(w.vc)
			tracef("%s: case %d", what, w.idx)
			return w.idx, w.val, w.ok
		}
		for i := range cases {
			if s := cases[i].ch; s != nil {
				s.remove(w)
			}
		}
	}
	var ready [16]int
	rs := ready[:0]
	for i := range cases {
		if cases[i].ready(t) {
			rs = append(rs, i)
		}
	}
	if len(rs) == 0 {
		for i := range cases {
			if s := cases[i].ch; s != nil {
				s.send.rd(0xc4)
				s.recv.rd(0xc5)
			}
		}
		return -1, nil, false
	}
	k := 0
	if len(rs) > 1 {
		k = Choose(len(rs))
	}
	i := rs[k]
	v, ok := cases[i].perform()
	return i, v, ok
}

// Send is ch <- v.
func Send[T any](ch chan<- T, v T) {
	bi := *(*chan T)(unsafe.Pointer(&ch))
	if x == nil {
		ch <- v
		return
	}
	if x.aborting {
		return
	}
	selectOp("send", false, []SelCase{{ch: state(bi), send: true, val: v}})
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T { v, _ := Recv2(ch); return v }

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	bi := *(*chan T)(unsafe.Pointer(&ch))
	var zero T
	if x == nil {
		v, ok := <-ch
		return v, ok
	}
	if x.aborting {
		return zero, false
	}
	_, v, ok := selectOp("recv", false, []SelCase{{ch: state(bi)}})
	if v == nil {
		return zero, ok
	}
	return v.(T), ok
}

// RecvC is a receive case of a select.
type RecvC[T any] struct {
	ch  <-chan T
	V   T
	OK  bool
}

// RC builds a receive case.
func RC[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: ch} }

// SendC is a send case of a select.
type SendC[T any] struct {
	ch chan<- T
	v  T
}

// SC builds a send case.
func SC[T any](ch chan<- T) *SendC[T] { return &SendC[T]{ch: ch} }

// Val sets the value to send.
func (s *SendC[T]) Val(v T) *SendC[T] { s.v = v; return s }

// Case is implemented by RecvC and SendC.
type Case interface {
	sel() SelCase
	got(v interface{}, ok bool)
	try() bool
}

func (r *RecvC[T]) sel() SelCase {
	return SelCase{ch: state(*(*chan T)(unsafe.Pointer(&r.ch)))}
}
func (r *RecvC[T]) got(v interface{}, ok bool) {
	if v != nil {
		r.V = v.(T)
	}
	r.OK = ok
}
func (r *RecvC[T]) try() bool {
	select {
	case v, ok := <-r.ch:
		r.V, r.OK = v, ok
		return true
	default:
		return false
	}
}
func (s *SendC[T]) sel() SelCase {
	return SelCase{ch: state(*(*chan T)(unsafe.Pointer(&s.ch))), send: true, val: s.v}
}
func (s *SendC[T]) got(interface{}, bool) {}
func (s *SendC[T]) try() bool {
	select {
	case s.ch <- s.v:
		return true
	default:
		return false
	}
}

// Select performs a select statement and returns the index of the case taken
// (-1 for default).
func Select(hasDefault bool, cases ...Case) int {
	if x == nil {
		for {
			for i, c := range cases {
				if c.try() {
					return i
				}
			}
			if hasDefault {
				return -1
			}
			SleepNs(20000)
		}
	}
	if x.aborting {
		if hasDefault {
			return -1
		}
		return 0
	}
	sc := make([]SelCase, len(cases))
	for i, c := range cases {
		sc[i] = c.sel()
	}
	i, v, ok := selectOp("select", hasDefault, sc)
	if i >= 0 {
		cases[i].got(v, ok)
	}
	return i
}

// Len is len(ch).
func Len[T any](ch chan T) int {
	if x == nil {
		return len(ch)
	}
	if x.aborting || ch == nil {
		return 0
	}
	s := state(ch)
	pass("len(chan)", nil, &s.gs, &s.gr)
	s.gs.access(false)
	s.gr.access(false)
	s.poll()
	s.send.rd(0xc6)
	s.recv.rd(0xc7)
	return len(s.buf)
}

// LenR is Len for receive-only channels.
func LenR[T any](ch <-chan T) int { return Len(*(*chan T)(unsafe.Pointer(&ch))) }

// LenS is Len for send-only channels.
func LenS[T any](ch chan<- T) int { return Len(*(*chan T)(unsafe.Pointer(&ch))) }

// Close is close(ch).
func Close[T any](ch chan<- T) {
	bi := *(*chan T)(unsafe.Pointer(&ch))
	if x == nil {
		close(ch)
		return
	}
	if x.aborting {
		return
	}
	s := state(bi)
	if s == nil {
		panic("close of nil channel")
	}
	pass("close", nil, &s.gs, &s.gr)
	s.gs.access(true)
	s.gr.access(true)
	if s.closed {
		panic("close of closed channel")
	}
	s.send.wr(0xc8)
	s.recv.wr(0xc9)
	s.closed = true
	s.closeH = cur.h
	s.closeVC = cur.vc.clone()
	cur.vc[cur.slot]++
}

// CloseForeign marks a channel that foreign code is about to close (for
// example ctx.Done()): call it right before the foreign call.
func CloseForeign[T any](ch <-chan T) {
	if x == nil || x.aborting {
		return
	}
	point("foreign close")
	s := state(*(*chan T)(unsafe.Pointer(&ch)))
	s.gs.access(true)
	s.gr.access(true)
	s.send.wr(0xca)
	s.recv.wr(0xcb)
	s.closeH = cur.h
	s.closeVC = cur.vc.clone()
	cur.vc[cur.slot]++
}

// fireChan delivers a timer value without blocking (called by the scheduler).
func fireChan[T any](ch chan T, v T, h uint64) {
	s := state(ch)
	if s.closed || (s.cap > 0 && len(s.buf) >= s.cap) {
		return
	}
	s.send.w = mix(s.send.w, h)
	if len(s.free) > 0 {
		s.free = s.free[1:]
	}
	s.buf = append(s.buf, item{v: v, h: mix(h, uint64(x.now))})
}

// FireAt arranges for mk() to be delivered on ch at virtual time when.
func FireAt[T any](ch chan T, when int64, mk func() T) *timer {
	state(ch)
	var tm *timer
	tm = AddTimer(when, func() { fireChan(ch, mk(), tm.h) })
	return tm
}

// Ticker delivers mk() on ch every period until the handle is killed.
type Ticker struct {
	cur     *timer
	stopped bool
}

// NewTicker starts a virtual ticker.
func NewTicker[T any](ch chan T, period int64, mk func() T) *Ticker {
	state(ch)
	tk := &Ticker{}
	var arm func(when int64, h uint64)
	arm = func(when int64, h uint64) {
		x.tseq++
		tm := &timer{when: when, seq: x.tseq, h: mix(h, uint64(when))}
		tm.fire = func() {
			if tk.stopped {
				return
			}
			fireChan(ch, mk(), tm.h)
			arm(when+period, tm.h)
		}
		x.timers = append(x.timers, tm)
		tk.cur = tm
	}
	arm(x.now+period, cur.h)
	return tk
}

// Stop stops the ticker.
func (tk *Ticker) Stop() {
	tk.stopped = true
	if tk.cur != nil {
		tk.cur.Kill()
	}
}

// Now is the virtual time without recording a read (scheduler context).
func Now() int64 {
	if x == nil {
		return 0
	}
	return x.now
}

func (s *chanState) String() string { return fmt.Sprintf("chan(len %d/%d)", len(s.buf), s.cap) }
