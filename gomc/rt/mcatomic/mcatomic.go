//go:build go1.21

// Package mcatomic stands in for package sync/atomic.
package mcatomic

import (
	"sync/atomic"
	"unsafe"

	"github.com/LogicalOverflow/music-sync/zzmc"
)

type num interface {
	~int32 | ~int64 | ~uint32 | ~uint64 | ~uintptr
}

func w[T any](p *T) { zzmc.AtomicPoint(unsafe.Pointer(p), true) }
func r[T any](p *T) { zzmc.AtomicPoint(unsafe.Pointer(p), false) }

func add[T num](p *T, d T) T {
	w(p)
	*p += d
	return *p
}
func load[T any](p *T) T {
	r(p)
	return *p
}
func store[T any](p *T, v T) {
	w(p)
	*p = v
}
func swap[T any](p *T, v T) T {
	w(p)
	o := *p
	*p = v
	return o
}
func cas[T comparable](p *T, o, n T) bool {
	w(p)
	if *p == o {
		*p = n
		return true
	}
	return false
}

// Functions of package atomic (not really atomic: one goroutine runs at a time).
func AddInt32(p *int32, d int32) int32                 { return add(p, d) }
func AddInt64(p *int64, d int64) int64                 { return add(p, d) }
func AddUint32(p *uint32, d uint32) uint32             { return add(p, d) }
func AddUint64(p *uint64, d uint64) uint64             { return add(p, d) }
func LoadInt32(p *int32) int32                         { return load(p) }
func LoadInt64(p *int64) int64                         { return load(p) }
func LoadUint32(p *uint32) uint32                      { return load(p) }
func LoadUint64(p *uint64) uint64                      { return load(p) }
func StoreInt32(p *int32, v int32)                     { store(p, v) }
func StoreInt64(p *int64, v int64)                     { store(p, v) }
func StoreUint32(p *uint32, v uint32)                  { store(p, v) }
func StoreUint64(p *uint64, v uint64)                  { store(p, v) }
func SwapInt32(p *int32, v int32) int32                { return swap(p, v) }
func SwapInt64(p *int64, v int64) int64                { return swap(p, v) }
func SwapUint32(p *uint32, v uint32) uint32            { return swap(p, v) }
func SwapUint64(p *uint64, v uint64) uint64            { return swap(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool    { return cas(p, o, n) }
func CompareAndSwapInt64(p *int64, o, n int64) bool    { return cas(p, o, n) }
func CompareAndSwapUint32(p *uint32, o, n uint32) bool { return cas(p, o, n) }
func CompareAndSwapUint64(p *uint64, o, n uint64) bool { return cas(p, o, n) }
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer     { return load(p) }
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) { store(p, v) }

func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer    { return swap(p, v) }
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool { return cas(p, o, n) }
func AddUintptr(p *uintptr, d uintptr) uintptr                          { return add(p, d) }
func LoadUintptr(p *uintptr) uintptr                                    { return load(p) }
func StoreUintptr(p *uintptr, v uintptr)                                { store(p, v) }
func SwapUintptr(p *uintptr, v uintptr) uintptr                         { return swap(p, v) }
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool               { return cas(p, o, n) }

// Int of package atomic.
type box[T num] struct{ v T }

func (b *box[T]) Load() T                    { return load(&b.v) }
func (b *box[T]) Store(v T)                  { store(&b.v, v) }
func (b *box[T]) Add(d T) T                  { return add(&b.v, d) }
func (b *box[T]) Swap(v T) T                 { return swap(&b.v, v) }
func (b *box[T]) CompareAndSwap(o, n T) bool { return cas(&b.v, o, n) }

type (
	// Int32 is atomic.Int32.
	Int32 struct{ box[int32] }
	// Int64 is atomic.Int64.
	Int64 struct{ box[int64] }
	// Uint32 is atomic.Uint32.
	Uint32 struct{ box[uint32] }
	// Uint64 is atomic.Uint64.
	Uint64 struct{ box[uint64] }
	// Uintptr is atomic.Uintptr.
	Uintptr struct{ box[uintptr] }
)

// Bool is atomic.Bool.
type Bool struct{ v bool }

func (b *Bool) Load() bool                    { return load(&b.v) }
func (b *Bool) Store(v bool)                  { store(&b.v, v) }
func (b *Bool) Swap(v bool) bool              { return swap(&b.v, v) }
func (b *Bool) CompareAndSwap(o, n bool) bool { return cas(&b.v, o, n) }

// Value is atomic.Value.
type Value struct{ v interface{} }

func (b *Value) Load() interface{}                    { return load(&b.v) }
func (b *Value) Store(v interface{})                  { check(v); store(&b.v, v) }
func (b *Value) Swap(v interface{}) interface{}       { check(v); return swap(&b.v, v) }
func (b *Value) CompareAndSwap(o, n interface{}) bool { check(n); return cas(&b.v, o, n) }

func check(v interface{}) {
	if v == nil {
		panic("sync/atomic: store of nil value into Value")
	}
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct{ p *T }

func (b *Pointer[T]) Load() *T                    { return load(&b.p) }
func (b *Pointer[T]) Store(v *T)                  { store(&b.p, v) }
func (b *Pointer[T]) Swap(v *T) *T                { return swap(&b.p, v) }
func (b *Pointer[T]) CompareAndSwap(o, n *T) bool { return cas(&b.p, o, n) }

var _ = atomic.AddInt32
