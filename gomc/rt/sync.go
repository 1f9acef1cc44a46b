//go:build go1.21

package zzmc

import (
	"fmt"
	"sort"
	"sync"
	"unsafe"
)

// Mutex replaces sync.Mutex.
type Mutex struct {
	real   sync.Mutex
	e      *exec
	o      Obj
	g      gate
	locked bool
}

func (m *Mutex) st() {
	if m.e != x {
		m.e, m.o, m.locked = x, Obj{}, false
		m.g.init("mutex " + caller())
	}
}

// Lock locks.
func (m *Mutex) Lock() {
	if x == nil {
		m.real.Lock()
		return
	}
	if x.aborting {
		return
	}
	m.st()
	pass("Mutex.Lock", func() bool { return !m.locked }, &m.g)
	m.g.access(true)
	m.locked = true
	m.o.wr(1)
	m.o.acquire()
}

// TryLock tries to lock.
func (m *Mutex) TryLock() bool {
	if x == nil {
		return m.real.TryLock()
	}
	if x.aborting {
		return true
	}
	m.st()
	pass("Mutex.TryLock", nil, &m.g)
	m.g.access(true)
	if m.locked {
		m.o.rd(2)
		return false
	}
	m.locked = true
	m.o.wr(1)
	m.o.acquire()
	return true
}

// Unlock unlocks.
func (m *Mutex) Unlock() {
	if x == nil {
		m.real.Unlock()
		return
	}
	if x.aborting {
		return
	}
	m.st()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.o.wr(3)
	m.o.release()
}

// RWMutex replaces sync.RWMutex (with writer preference, as in Go).
type RWMutex struct {
	real    sync.RWMutex
	e       *exec
	o       Obj
	g       gate
	rvc     vclock
	readers int
	pending bool
	writer  bool
}

func (m *RWMutex) st() {
	if m.e != x {
		m.e, m.o, m.rvc, m.readers, m.pending, m.writer = x, Obj{}, nil, 0, false, false
		m.g.init("rwmutex " + caller())
	}
}

// RLock locks for reading.
func (m *RWMutex) RLock() {
	if x == nil {
		m.real.RLock()
		return
	}
	if x.aborting {
		return
	}
	m.st()
	pass("RWMutex.RLock", func() bool { return !m.pending && !m.writer }, &m.g)
	m.g.access(false)
	m.readers++
	m.o.rd(4)
	m.o.acquire()
}

// TryRLock tries to lock for reading.
func (m *RWMutex) TryRLock() bool {
	if x == nil {
		return m.real.TryRLock()
	}
	if x.aborting {
		return true
	}
	m.st()
	pass("RWMutex.TryRLock", nil, &m.g)
	m.g.access(false)
	m.o.rd(5)
	if m.pending || m.writer {
		return false
	}
	m.readers++
	m.o.acquire()
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	if x == nil {
		m.real.RUnlock()
		return
	}
	if x.aborting {
		return
	}
	m.st()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.o.rd(6)
	m.rvc.join(cur.vc)
	cur.vc[cur.slot]++
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	if x == nil {
		m.real.Lock()
		return
	}
	if x.aborting {
		return
	}
	m.st()
	pass("RWMutex.Lock", func() bool { return !m.pending && !m.writer }, &m.g)
	m.g.access(true)
	if m.readers > 0 {
		m.pending = true
		m.o.wr(7)
		block("RWMutex.Lock(wait readers)", func() bool { return m.readers == 0 })
		m.pending = false
	}
	m.writer = true
	m.o.wr(8)
	m.o.acquire()
	cur.vc.join(m.rvc)
}

// TryLock tries to lock for writing.
func (m *RWMutex) TryLock() bool {
	if x == nil {
		return m.real.TryLock()
	}
	if x.aborting {
		return true
	}
	m.st()
	pass("RWMutex.TryLock", nil, &m.g)
	m.g.access(true)
	m.o.wr(9)
	if m.pending || m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	m.o.acquire()
	cur.vc.join(m.rvc)
	return true
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	if x == nil {
		m.real.Unlock()
		return
	}
	if x.aborting {
		return
	}
	m.st()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.o.wr(10)
	m.o.release()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

// Cond replaces sync.Cond.
type Cond struct {
	L    sync.Locker
	real *sync.Cond
	once sync.Once
	e    *exec
	o    Obj
	g    gate
	wait []*condWaiter
}

type condWaiter struct {
	woken bool
	h     uint64
	vc    vclock
}

// NewCond makes a Cond.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

func (c *Cond) st() {
	if c.e != x {
		c.e, c.o, c.wait = x, Obj{}, nil
		c.g.init("cond " + caller())
	}
}

func (c *Cond) r() *sync.Cond {
	c.once.Do(func() { c.real = sync.NewCond(c.L) })
	return c.real
}

// Wait waits.
func (c *Cond) Wait() {
	if x == nil {
		c.r().Wait()
		return
	}
	if x.aborting {
		return
	}
	c.st()
	pass("Cond.Wait", nil, &c.g)
	c.g.access(true)
	w := &condWaiter{}
	c.wait = append(c.wait, w)
	c.o.wr(11)
	c.L.Unlock()
	cur.safe = !noReduction
	block("Cond.Wait(sleep)", func() bool { return w.woken })
	cur.h = mix(cur.h, w.h)
	cur.vc.join(w.vc)
	c.L.Lock()
}

func (c *Cond) wake(n int, what string) {
	c.st()
	pass(what, nil, &c.g)
	c.g.access(true)
	c.o.wr(12)
	for i := 0; i < n && len(c.wait) > 0; i++ {
		w := c.wait[0]
		c.wait = c.wait[1:]
		w.woken = true
		w.h = cur.h
		w.vc = cur.vc.clone()
	}
	cur.vc[cur.slot]++
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	if x == nil {
		c.r().Signal()
		return
	}
	if x.aborting {
		return
	}
	c.wake(1, "Cond.Signal")
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	if x == nil {
		c.r().Broadcast()
		return
	}
	if x.aborting {
		return
	}
	c.wake(1<<30, "Cond.Broadcast")
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	e    *exec
	o    Obj
	g    gate
	n    int
}

func (w *WaitGroup) st() {
	if w.e != x {
		w.e, w.o, w.n = x, Obj{}, 0
		w.g.init("waitgroup " + caller())
	}
}

// Add adds.
func (w *WaitGroup) Add(d int) {
	if x == nil {
		w.real.Add(d)
		return
	}
	if x.aborting {
		return
	}
	w.st()
	if d > 0 {
		pass("WaitGroup.Add", nil, &w.g)
		w.g.access(false)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	w.o.rd(13 + uint64(d)<<8)
	w.o.release()
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a goroutine that is waited for.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

// Wait waits.
func (w *WaitGroup) Wait() {
	if x == nil {
		w.real.Wait()
		return
	}
	if x.aborting {
		return
	}
	w.st()
	w.g.access(true)
	pass("WaitGroup.Wait", func() bool { return w.n == 0 }, &w.g)
	w.o.wr(14)
	w.o.acquire()
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
	e    *exec
	real sync.Once
}

// Do runs f once.
func (o *Once) Do(f func()) {
	if x == nil {
		o.real.Do(f)
		return
	}
	if x.aborting {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.e != x {
		o.e, o.done = x, false
	}
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// Map replaces sync.Map.
type Map struct {
	m    Mutex
	e    *exec
	data map[interface{}]interface{}
}

func (m *Map) lock() func() {
	m.m.Lock()
	if m.data == nil || m.e != x {
		m.data, m.e = map[interface{}]interface{}{}, x
	}
	return m.m.Unlock
}

// Load loads.
func (m *Map) Load(k interface{}) (interface{}, bool) {
	defer m.lock()()
	v, ok := m.data[k]
	return v, ok
}

// Store stores.
func (m *Map) Store(k, v interface{}) { defer m.lock()(); noteKey(k); m.data[k] = v }

// Delete deletes.
func (m *Map) Delete(k interface{}) { defer m.lock()(); delete(m.data, k) }

// LoadOrStore loads or stores.
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	defer m.lock()()
	if o, ok := m.data[k]; ok {
		return o, true
	}
	noteKey(k)
	m.data[k] = v
	return v, false
}

// LoadAndDelete loads and deletes.
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	defer m.lock()()
	v, ok := m.data[k]
	delete(m.data, k)
	return v, ok
}

// Swap swaps.
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	defer m.lock()()
	noteKey(k)
	o, ok := m.data[k]
	m.data[k] = v
	return o, ok
}

// CompareAndSwap compares and swaps.
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	defer m.lock()()
	if v, ok := m.data[k]; ok && v == o {
		m.data[k] = n
		return true
	}
	return false
}

// CompareAndDelete compares and deletes.
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	defer m.lock()()
	if v, ok := m.data[k]; ok && v == o {
		delete(m.data, k)
		return true
	}
	return false
}

// Clear deletes everything.
func (m *Map) Clear() { defer m.lock()(); m.data = map[interface{}]interface{}{} }

// Range calls f for all entries (in a deterministic order).
func (m *Map) Range(f func(k, v interface{}) bool) {
	un := m.lock()
	ks := []interface{}{}
	for k := range m.data {
		ks = append(ks, k)
	}
	sortKeys(len(ks), func(i int) interface{} { return ks[i] }, func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	un()
	if order(len(ks)) {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	for _, k := range ks {
		if v, ok := m.Load(k); ok && !f(k, v) {
			return
		}
	}
}

// Pool replaces sync.Pool. What was put last is returned first, so that what is
// used after it was put back is overwritten as soon as possible.
type Pool struct {
	New  func() interface{}
	m    Mutex
	e    *exec
	data []interface{}
}

// Get returns a value put before or a new one.
func (p *Pool) Get() interface{} {
	p.m.Lock()
	if p.e != x {
		p.data, p.e = nil, x
	}
	if n := len(p.data); n > 0 {
		v := p.data[n-1]
		p.data = p.data[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

// Put keeps v.
func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	p.m.Lock()
	if p.e != x {
		p.data, p.e = nil, x
	}
	p.data = append(p.data, v)
	p.m.Unlock()
}

// MapKey notes that k is used as a key, so that the order of keys which have
// no natural one (pointers) can be told in every execution alike.
func MapKey[K comparable](k K) K {
	noteKey(k)
	return k
}

func noteKey(k interface{}) {
	if x == nil {
		return
	}
	if x.keyIDs == nil {
		x.keyIDs = map[interface{}]int{}
	}
	if _, ok := x.keyIDs[k]; !ok {
		x.keyIDs[k] = len(x.keyIDs) + 1
	}
}

func sortKeys(n int, key func(int) interface{}, swap func(i, j int)) {
	sort.Sort(&keySorter{n, key, swap})
}

type keySorter struct {
	n    int
	key  func(int) interface{}
	swap func(i, j int)
}

func (s *keySorter) Len() int      { return s.n }
func (s *keySorter) Swap(i, j int) { s.swap(i, j) }
func (s *keySorter) Less(i, j int) bool {
	a, b := s.key(i), s.key(j)
	switch a.(type) {
	case string, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, bool, float32, float64:
	default:
		if x != nil {
			m, n := x.keyIDs[a], x.keyIDs[b]
			if m != n {
				return m < n
			}
		}
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

// order returns whether to go through a map backwards: the order of maps is
// random, so both directions are explored (for the first few loops).
func order(n int) bool {
	if n < 2 || x == nil || x.aborting || cur == nil || x.mapLoops >= 6 {
		return false
	}
	x.mapLoops++
	return Choose(2) == 1
}

// MapKeys lists the keys of a map in a deterministic order.
func MapKeys[K comparable, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) > 1 {
		sortKeys(len(ks), func(i int) interface{} { return ks[i] }, func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	}
	if order(len(ks)) {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

type atomState struct {
	o Obj
	g gate
}

// AtomicPoint is a scheduling point for an atomic access to the word at p.
func AtomicPoint(p unsafe.Pointer, write bool) {
	e := x
	if e == nil || e.aborting {
		return
	}
	m := e.atoms[p]
	if m == nil {
		m = &atomState{}
		m.g.init("atomic " + caller())
		e.atoms[p] = m
	}
	pass("atomic", nil, &m.g)
	if e.aborting {
		return
	}
	m.g.access(write)
	if write {
		m.o.wr(0xf1)
		m.o.acquire()
		m.o.release()
	} else {
		m.o.rd(0xf2)
		m.o.acquire()
	}
}
