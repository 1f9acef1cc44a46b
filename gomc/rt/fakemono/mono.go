//go:build go1.21

// Package monotime stands in for goarista's monotime.
package monotime

import (
	"time"

	"github.com/LogicalOverflow/music-sync/zzmc"
)

// Now is the virtual monotonic time.
func Now() uint64 {
	if zzmc.Active() {
		return uint64(zzmc.NowNs() + Skew)
	}
	if Fixed != nil {
		return uint64(Fixed())
	}
	return uint64(time.Now().UnixNano())
}

// Since is the time since t.
func Since(t uint64) time.Duration { return time.Duration(Now() - t) }

// Skew is what the clock is off from the virtual time.
var Skew int64

// Fixed, when set, is the clock used outside explorations.
var Fixed func() int64
