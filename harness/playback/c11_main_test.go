package playback

import (
	"testing"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

func TestMC(t *testing.T) {
	scs := []mc.Scenario{}
	for _, sp := range streamSpecs {
		scs = append(scs, sp.scenario(c11Check))
	}
	mc.Main(t, scs)
}

// C11: song starts and pauses are announced at exactly the right sample.
func c11Check(r *rec, sp streamSpec) {
	r.checkAnnounced()
	// every song that starts is announced exactly once
	if len(sp.add) == 0 {
		r.checkOrder(sp.songs, sp.jumps, false)
	}
}
