//go:build go1.21

// Package mctime stands in for the clock-dependent part of package time.
package mctime

import (
	"time"

	"github.com/LogicalOverflow/music-sync/zzmc"
)

const base = int64(1500000000) * 1000000000

func at(ns int64) time.Time { return time.Unix(0, base+ns).UTC() }

// Now is time.Now.
func Now() time.Time {
	if !zzmc.Active() {
		return time.Now()
	}
	return at(zzmc.NowNs())
}

// Since is time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until is time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep is time.Sleep.
func Sleep(d time.Duration) { zzmc.SleepNs(int64(d)) }

// Tick is time.Tick.
func Tick(d time.Duration) <-chan time.Time {
	if !zzmc.Active() {
		return time.Tick(d)
	}
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// Ticker is time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	c    chan time.Time
	tk   *zzmc.Ticker
	real *time.Ticker
}

// NewTicker is time.NewTicker.
func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if !zzmc.Active() {
		r := time.NewTicker(d)
		return &Ticker{C: r.C, real: r}
	}
	c := make(chan time.Time, 1)
	return &Ticker{C: c, c: c, tk: zzmc.NewTicker(c, int64(d), func() time.Time { return at(zzmc.Now()) })}
}

// Stop stops.
func (t *Ticker) Stop() {
	if t.real != nil {
		t.real.Stop()
	} else if zzmc.Active() {
		t.tk.Stop()
	}
}

// Reset resets.
func (t *Ticker) Reset(d time.Duration) {
	if t.real != nil {
		t.real.Reset(d)
	} else if zzmc.Active() {
		t.tk.Stop()
		t.tk = zzmc.NewTicker(t.c, int64(d), func() time.Time { return at(zzmc.Now()) })
	}
}

type killer interface{ Kill() bool }

// Timer is time.Timer.
type Timer struct {
	C    <-chan time.Time
	c    chan time.Time
	f    func()
	k    killer
	real *time.Timer
}

// NewTimer is time.NewTimer.
func NewTimer(d time.Duration) *Timer {
	if !zzmc.Active() {
		r := time.NewTimer(d)
		return &Timer{C: r.C, real: r}
	}
	c := make(chan time.Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func (t *Timer) arm(d time.Duration) {
	when := zzmc.NowNs() + int64(d)
	if t.f != nil {
		fired := false
		f := t.f
		tm := zzmc.AddTimer(when, func() { fired = true })
		t.k = tm
		zzmc.Go(func() {
			zzmc.BlockUntil("AfterFunc", func() bool { return fired })
			f()
		})
		return
	}
	t.k = zzmc.FireAt(t.c, when, func() time.Time { return at(zzmc.Now()) })
}

// Stop stops.
func (t *Timer) Stop() bool {
	if t.real != nil {
		return t.real.Stop()
	}
	if !zzmc.Active() {
		return false
	}
	return t.k.Kill()
}

// Reset resets.
func (t *Timer) Reset(d time.Duration) bool {
	if t.real != nil {
		return t.real.Reset(d)
	}
	if !zzmc.Active() {
		return false
	}
	was := t.k.Kill()
	t.arm(d)
	return was
}

// After is time.After.
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// AfterFunc is time.AfterFunc.
func AfterFunc(d time.Duration, f func()) *Timer {
	if !zzmc.Active() {
		return &Timer{real: time.AfterFunc(d, f)}
	}
	t := &Timer{f: f}
	t.arm(d)
	return t
}
