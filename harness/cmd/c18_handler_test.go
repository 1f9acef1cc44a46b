package main

import (
	"fmt"
	"testing"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/timing"
	mc "github.com/LogicalOverflow/music-sync/zzmc"
	"github.com/LogicalOverflow/music-sync/zzmc/fakemono"
)

// C18: answers received by a client are measured with the time of their arrival.

func c18Handler(vals []int64) func(*mc.E) {
	return func(e *mc.E) {
		e.Rule(fmt.Sprintf("all answers with three timestamps out of %v arriving at such a time, with clock offsets of 0 and 1000 beforehand; distinct: offsets", vals))
		clock := int64(0)
		monotime.Fixed = func() int64 { return clock }
		h := handlerUnderTest()
		n := len(vals)
		for v := 0; v < 2*n*n*n*n; v++ {
			prev := int64(v%2) * 1000
			a, b, c, d := vals[v/2%n], vals[v/2/n%n], vals[v/2/n/n%n], vals[v/2/n/n/n]
			e.Case(func() string { return fmt.Sprintf("answer (%d,%d,%d) at %d, offset %d before", a, b, c, d, prev) })
			timing.ResetOffsets(1)
			timing.UpdateOffset(0, prev, prev, 0)
			timing.ResetOffsets(1)
			clock = d
			h.HandleTimeSyncResponse(&comm.TimeSyncResponse{ClientSendTime: a, ServerRecvTime: b, ServerSendTime: c}, nil)
			got := timing.GetSyncedTime() - clock
			x := 2*got - ((b - a) + (c - d))
			e.Assert(-3 <= x && x <= 3, "offset", "offset %d instead of %d/2", got, (b-a)+(c-d))
			e.DistinctH(uint64(got))
			e.Step(1)
		}
	}
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	mc.Main(t, []mc.Scenario{{Name: "answers", Enum: c18Handler([]int64{0, 1, 2, 50, 1000, 1e9, 1e15})}})
}
