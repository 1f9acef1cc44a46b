//go:build go1.21

package zzmc

import (
	"os"
	"sort"
	"unsafe"
)

// ClassT is a class of memory locations (a field, a package variable, a
// captured local, the elements of a slice type, ...).  Accesses become
// scheduling points once a data race on the class has been seen.
type ClassT struct {
	Name     string
	promoted bool
	always   bool
}

var classes = map[string]*ClassT{}

// Class registers a class.
func Class(name string) *ClassT {
	if c := classes[name]; c != nil {
		return c
	}
	c := &ClassT{Name: name}
	classes[name] = c
	return c
}

type memKey struct {
	p unsafe.Pointer
	c *ClassT
}

type memState struct {
	o    Obj
	wt   int
	wc   uint32
	r    vclock
	rh   bool
}

func memAccess(p unsafe.Pointer, c *ClassT, write bool) {
	e := x
	if e == nil || e.aborting || cur == nil {
		return
	}
	if c.promoted {
		if write {
			point("write " + c.Name)
		} else {
			point("read " + c.Name)
		}
		if e.aborting {
			return
		}
	}
	k := memKey{p, c}
	m := e.mem[k]
	if m == nil {
		m = &memState{wt: -1}
		e.mem[k] = m
	}
	if c.promoted {
		if write {
			m.o.wr(0xe1)
		} else {
			m.o.rd(0xe2)
		}
		return
	}
	m.track(e, c, write)
}

// track does happens-before race detection for one access of the current
// thread.
func (m *memState) track(e *exec, c *ClassT, write bool) {
	t := cur
	t.acc = t.vc[t.slot]
	if m.wt >= 0 && m.wt != t.slot && t.vc.get(m.wt) < m.wc {
		e.race(c)
	}
	if write {
		if m.rh {
			for i, v := range m.r {
				if v > 0 && i != t.slot && t.vc.get(i) < v {
					e.race(c)
					break
				}
			}
			m.r, m.rh = m.r[:0], false
		}
		m.wt, m.wc = t.slot, t.vc[t.slot]
	} else {
		for len(m.r) <= t.slot {
			m.r = append(m.r, 0)
		}
		m.r[t.slot] = t.vc[t.slot]
		m.rh = true
	}
}

// gate decides whether accesses to one synchronisation object (a lock, one
// side of a channel, an atomic word) need a scheduling point: only if, on some
// execution, two threads used it without an order between them that comes from
// elsewhere.
type gate struct {
	c *ClassT
	m memState
}

// noReduction turns every operation on a synchronisation object into a
// scheduling point (used to validate the reduction).
var noReduction = os.Getenv("MC_NOREDUCTION") != ""

func (g *gate) init(name string) {
	g.c = Class(name)
	if noReduction {
		g.c.promoted = true
	}
	g.m = memState{wt: -1}
}

func (g *gate) access(write bool) {
	if !g.c.promoted && x != nil && !x.aborting {
		g.m.track(x, g.c, write)
	}
}

// pass is block, without the scheduling point if the operation is enabled and
// all its gates are unpromoted.
func pass(what string, en func() bool, gs ...*gate) {
	e := x
	if e == nil || e.aborting {
		return
	}
	for _, g := range gs {
		if g.c.promoted {
			block(what, en)
			return
		}
	}
	if en != nil && !en() {
		cur.safe = true
		block(what, en)
		return
	}
	if e.free > 500 {
		block(what, en)
		return
	}
	e.free++
	e.steps++
	if e.steps > e.maxSteps {
		block(what, en)
		return
	}
	if e.tracing {
		tracef("%s @%s", what, caller())
	}
}

func (e *exec) race(c *ClassT) {
	e.racy = true
	if e.srch != nil {
		e.srch.racy[c.Name] = true
	}
}

// R records a read of *p.
func R[T any](p *T, c *ClassT) *T {
	if x != nil {
		memAccess(unsafe.Pointer(p), c, false)
	}
	return p
}

// Ref is an lvalue about to be written.
type Ref[T any] struct {
	p *T
	c *ClassT
}

// P makes a Ref.
func P[T any](p *T, c *ClassT) Ref[T] { return Ref[T]{p, c} }

// Set writes v.
func (r Ref[T]) Set(v T) {
	if x != nil {
		memAccess(unsafe.Pointer(r.p), r.c, true)
	}
	*r.p = v
}

func mapPtr[K comparable, V any](m map[K]V) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MapR records a read of a map's contents.
func MapR[K comparable, V any](m map[K]V, c *ClassT) map[K]V {
	if x != nil && m != nil {
		memAccess(mapPtr(m), c, false)
	}
	return m
}

// MapW records a write of a map's contents.
func MapW[K comparable, V any](m map[K]V, c *ClassT) map[K]V {
	if x != nil && m != nil {
		memAccess(mapPtr(m), c, true)
	}
	return m
}

// MapRef is a map about to be assigned to.
type MapRef[K comparable, V any] struct {
	m map[K]V
	c *ClassT
}

// MapP makes a MapRef.
func MapP[K comparable, V any](m map[K]V, c *ClassT) MapRef[K, V] { return MapRef[K, V]{m, c} }

// Set is m[k] = v.
func (r MapRef[K, V]) Set(k K, v V) {
	MapW(r.m, r.c)
	r.m[MapKey(k)] = v
}

// Copy is copy(dst, src) with the element accesses recorded.
func Copy[T any](dst, src []T, c *ClassT) int {
	n := len(dst)
	if len(src) < n {
		n = len(src)
	}
	if x != nil && !x.aborting {
		for i := 0; i < n; i++ {
			memAccess(unsafe.Pointer(&src[i]), c, false)
		}
		for i := 0; i < n; i++ {
			memAccess(unsafe.Pointer(&dst[i]), c, true)
		}
	}
	return copy(dst, src)
}

func promote(names []string) {
	for _, n := range names {
		Class(n).promoted = true
	}
}

func promotedNames() []string {
	r := []string{}
	for n, c := range classes {
		if c.promoted {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r
}
