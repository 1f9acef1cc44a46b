package main

import (
	"fmt"
	"math"
	"testing"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/playback"
	mc "github.com/LogicalOverflow/music-sync/zzmc"
	oto "github.com/LogicalOverflow/music-sync/zzmc/fakeoto"
	"github.com/golang/protobuf/proto"
)

// C03: whatever messages a server sends, the player does not crash.

func c03Pool(now int64) (r []proto.Message) {
	lists := [][2][]float64{{nil, nil}, {{1}, nil}, {nil, {1}}, {{.1, .2, .3}, {.1, .2, .3}}, {{math.NaN()}, {.5}}, {{math.Inf(1), 1e308, -1e308}, {math.Inf(-1), math.NaN(), 5e-324}}, {{math.NaN(), .1, math.NaN()}, {math.NaN(), .1, math.NaN()}}}
	for i, start := range []int64{0, 1, -1, math.MaxInt64, math.MinInt64, now, now + 1e8, now - 1e8, now + 1e15} {
		for j, l := range lists {
			r = append(r, &comm.QueueChunkRequest{StartTime: start, ChunkId: []int64{0, -1, math.MaxInt64, math.MinInt64}[(i+j)%4], SampleLow: l[0], SampleHigh: l[1], FirstSampleIndex: uint64(start)})
		}
	}
	for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), -1, 1e308, 0} {
		r = append(r, &comm.SetVolumeRequest{Volume: v})
	}
	return
}

func c03Player(n int) func() {
	return func() {
		writes := 0
		oto.OnWrite = func([]byte) { writes++ }
		if err := playback.Init(20); err != nil {
			mc.Fail("init", "%v", err)
		}
		h := newPlayerPackageHandler()
		mc.SleepNs(1e8)
		for i := 0; i < n; i++ {
			pool := c03Pool(mc.Now())
			m := pool[mc.Choose(len(pool))]
			h.Handle(m, nil)
			mc.SleepNs(15e7)
		}
		mc.SleepNs(1e9) // without panicking
		mc.Outcome(fmt.Sprint(writes))
	}
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	mc.Main(t, []mc.Scenario{
		{Name: "play1", Body: c03Player(1), MaxSteps: 60000, Horizon: 4e9, MaxBound: 1},
		{Name: "play2", Body: c03Player(2), MaxSteps: 60000, Horizon: 4e9, MaxBound: 1},
	})
}
