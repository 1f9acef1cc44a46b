package timing

import (
	"fmt"
	"testing"

	"github.com/LogicalOverflow/music-sync/logging"
	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C19: overlapping time-sync rounds and answers never corrupt the clock.

type c19Sc struct {
	size    int
	answers []int64 // doubled offsets would be exact: all multiples of 12
	per     int     // answers per goroutine
	rounds  []int   // round starts issued concurrently, by one goroutine
	readers int
	again   []int64 // answers after everything has settled and a new round was started
}

// c19Means returns every mean of n different answers, for every round size n.
func c19Means(as []int64, sizes map[int]bool) map[int64]bool {
	r := map[int64]bool{0: true}
	for m := 1; m < 1<<uint(len(as)); m++ {
		s, n := int64(0), 0
		for i, a := range as {
			if m>>uint(i)&1 == 1 {
				s += a
				n++
			}
		}
		if sizes[n] {
			r[s/int64(n)] = true
		}
	}
	return r
}

func (sc c19Sc) body() {
	// start from offset 0 with no round running
	ResetOffsets(1)
	UpdateOffset(0, 0, 0, 0)
	mc.Assert(GetSyncedTime() == GetRawTime(), "zero", "offset not zero")
	sizes := map[int]bool{sc.size: true}
	for _, r := range sc.rounds {
		sizes[r] = true
	}
	ok := c19Means(sc.answers, sizes)
	off := func(who string) int64 {
		s := GetSyncedTime()
		o := s - GetRawTime()
		mc.Assert(ok[o], "offset", "%s sees the offset %d, which is the mean of no full set of measurements %v", who, o, sc.answers)
		return o
	}
	ResetOffsets(sc.size)
	hs := []*mc.Handle{}
	for i := 0; i < len(sc.answers); i += sc.per {
		as := sc.answers[i:]
		if len(as) > sc.per {
			as = as[:sc.per]
		}
		hs = append(hs, mc.GoNamed(fmt.Sprintf("answer%d", i), func() {
			for _, a := range as {
				UpdateOffset(0, a, a, 0)
			}
		}))
	}
	if len(sc.rounds) > 0 {
		hs = append(hs, mc.GoNamed("rounds", func() {
			for _, r := range sc.rounds {
				ResetOffsets(r)
			}
		}))
	}
	for i := 0; i < sc.readers; i++ {
		hs = append(hs, mc.GoNamed("reader", func() {
			off("a reader")
			off("a reader")
		}))
	}
	mc.Join(hs...)
	o := off("the end")
	if len(sc.rounds) == 0 && len(sc.answers) == sc.size {
		s := int64(0)
		for _, a := range sc.answers {
			s += a
		}
		mc.Assert(o == s/int64(sc.size), "mean", "the offset is %d after the answers %v", o, sc.answers)
	}
	mc.Outcome(o)
	// a round after everything settled works as usual
	ResetOffsets(len(sc.again))
	s := int64(0)
	for i, a := range sc.again {
		mc.Assert(GetSyncedTime()-GetRawTime() == o, "early", "offset changed after %d of %d measurements", i, len(sc.again))
		UpdateOffset(0, a, a, 0)
		s += a
	}
	if n := int64(len(sc.again)); n > 0 {
		mc.Assert(GetSyncedTime()-GetRawTime() == s/n, "later", "the round %v after it gives the offset %d", sc.again, GetSyncedTime()-GetRawTime())
	}
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	scs := []mc.Scenario{}
	add := func(name string, sc c19Sc) {
		if sc.per == 0 {
			sc.per = 1
		}
		scs = append(scs, mc.Scenario{Name: name, Body: sc.body, MaxSteps: 3000})
	}
	add("two", c19Sc{size: 2, answers: []int64{120, 1200}, again: []int64{12, 24}, readers: 1})
	add("three", c19Sc{size: 3, answers: []int64{120, 1200, 12000}, readers: 1, again: []int64{36}})
	add("extra", c19Sc{size: 2, answers: []int64{120, 1200, 12000}, again: []int64{12, 24}})
	add("restart_same", c19Sc{size: 2, answers: []int64{120, 1200, 12000}, rounds: []int{2}, readers: 1, again: []int64{12, 24}})
	add("restart_twice", c19Sc{size: 2, answers: []int64{120, 1200, 12000}, rounds: []int{2, 2}, again: []int64{12, 24}})
	add("restart_other", c19Sc{size: 3, answers: []int64{120, 1200, 12000}, rounds: []int{1, 2}, readers: 1, again: []int64{12, 24}})
	add("sequences", c19Sc{size: 3, answers: []int64{120, 1200, 12000, 120000}, per: 2, rounds: []int{2}, again: []int64{12, 24}})
	add("four", c19Sc{size: 4, answers: []int64{120, 1200, 12000, 120000}, readers: 1, again: []int64{12, 24}})
	add("readers", c19Sc{size: 1, answers: []int64{120, 1200}, readers: 2, rounds: []int{1}, again: []int64{12, 24}})
	mc.Main(t, scs)
}
