//go:build go1.21

// Package mccontext stands in for the clock-dependent part of package context.
package mccontext

import (
	"context"
	"time"

	"github.com/LogicalOverflow/music-sync/zzmc"
	"github.com/LogicalOverflow/music-sync/zzmc/mctime"
)

type timed struct {
	context.Context
	when  time.Time
	timer *mctime.Timer
	late  bool
}

func (t *timed) Deadline() (time.Time, bool) { return t.when, true }

func (t *timed) Err() error {
	err := t.Context.Err()
	if err != nil && t.late {
		return context.DeadlineExceeded
	}
	return err
}

// WithCancel is context.WithCancel.
func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	return ctx, func() {
		if ctx.Err() == nil {
			zzmc.CloseForeign(ctx.Done())
		}
		cancel()
	}
}

// WithTimeout is context.WithTimeout.
func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, mctime.Now().Add(d))
}

// WithDeadline is context.WithDeadline.
func WithDeadline(parent context.Context, when time.Time) (context.Context, context.CancelFunc) {
	if !zzmc.Active() {
		return context.WithDeadline(parent, when)
	}
	if d, ok := parent.Deadline(); ok && d.Before(when) {
		return WithCancel(parent)
	}
	ctx, cancel := context.WithCancel(parent)
	t := &timed{Context: ctx, when: when}
	expire := func() {
		if ctx.Err() == nil {
			t.late = true
			zzmc.CloseForeign(ctx.Done())
			cancel()
		}
	}
	d := mctime.Until(when)
	if d <= 0 {
		expire()
		return t, cancel
	}
	t.timer = mctime.AfterFunc(d, expire)
	return t, func() {
		t.timer.Stop()
		zzmc.CloseForeign(ctx.Done())
		cancel()
	}
}
