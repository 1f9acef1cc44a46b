//go:build go1.21

// Package mcsync stands in for package sync.
package mcsync

import (
	"sync"

	"github.com/LogicalOverflow/music-sync/zzmc"
)

type (
	// Mutex is sync.Mutex.
	Mutex = zzmc.Mutex
	// RWMutex is sync.RWMutex.
	RWMutex = zzmc.RWMutex
	// Cond is sync.Cond.
	Cond = zzmc.Cond
	// WaitGroup is sync.WaitGroup.
	WaitGroup = zzmc.WaitGroup
	// Once is sync.Once.
	Once = zzmc.Once
	// Map is sync.Map.
	Map = zzmc.Map
	// Pool is sync.Pool.
	Pool = zzmc.Pool
	// Locker is sync.Locker.
	Locker = sync.Locker
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return zzmc.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() { return zzmc.OnceFunc(f) }

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
