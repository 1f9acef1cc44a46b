package playback

import (
	"testing"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

func TestMC(t *testing.T) {
	scs := []mc.Scenario{}
	for _, sp := range streamSpecs {
		scs = append(scs, sp.scenario(c10Check))
	}
	mc.Main(t, scs)
}

// C10: every sample of every song enters the stream once, in order, correctly
// indexed.
func c10Check(r *rec, sp streamSpec) {
	r.checkSamples()
	if len(sp.toggles) == 0 && len(sp.jumps) == 0 && len(sp.add) == 0 && sp.playing {
		c10Breaks(r, sp)
	}
}

// c10Breaks: without pauses and jumps, the silence is exactly the configured
// break after each song, as long as all songs can be played.
func c10Breaks(r *rec, sp streamSpec) {
	for _, s := range sp.songs {
		if length(s) == 0 {
			return
		}
	}
	i := 0
	for k := 0; i < len(r.low); k++ {
		for n := length(sp.songs[k%len(sp.songs)]); 0 < n && i < len(r.low); n-- {
			mc.Assert(!r.nanAt(i), "break", "sample %d is silent, the breaks are of %d samples: %v", i, r.nan, r)
			i++
		}
		for n := r.nan; 0 < n && i < len(r.low); n-- {
			mc.Assert(r.nanAt(i), "break", "sample %d is not silent, the breaks are of %d samples: %v", i, r.nan, r)
			i++
		}
	}
}
