package main

import (
	"fmt"
	"testing"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C06: volumes received by a client take effect in the order of their arrival.

func c06Client(vols ...float64) func() {
	return func() {
		h := handlerUnderTest()
		h.HandleSetVolumeRequest(&comm.SetVolumeRequest{Volume: 0.125}, nil)
		a := mc.GoNamed("start", startClient)
		b := mc.GoNamed("connection", func() {
			for _, v := range vols {
				h.Handle(&comm.SetVolumeRequest{Volume: v}, nil)
			}
		})
		mc.Join(a, b)
		mc.Quiesce()
		want := vols[len(vols)-1]
		mc.Assert(effectiveVolume() == want, "order", "the volume is %v after the messages %v", effectiveVolume(), vols)
		mc.Outcome(fmt.Sprint(want))
	}
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	mc.Main(t, []mc.Scenario{
		{Name: "one", Body: c06Client(0.5), MaxBound: 6},
		{Name: "two", Body: c06Client(0.5, 0.75), MaxBound: 5},
		{Name: "down_and_up", Body: c06Client(0.5, 0, 1), MaxBound: 4},
	})
}
