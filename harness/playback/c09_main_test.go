package playback

import (
	"fmt"
	"testing"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
	fakemp3 "github.com/LogicalOverflow/music-sync/zzmc/fakemp3"
)

// C09: songs play in playlist order and a jump plays the song jumped to.

type c09Spec struct {
	name     string
	songs    []string
	buf, nan int
	playing  bool
	before   []int // reads while the jumps are being made
	jumps    []int
	after    int // samples read after the last jump has returned
	resume   bool
	toggles  []bool
	thorough bool
}

func c09Body(sp c09Spec) func() {
	return func() {
		sp := sp
		r := newRec(sp.buf, append([]string{}, sp.songs...), sp.nan, sp.playing)
		r.jumps = len(sp.jumps)
		r.stream()
		jumper := mc.GoNamed("jumper", func() {
			for _, p := range sp.jumps {
				r.pl.SetPos(p)
			}
		})
		if len(sp.toggles) > 0 {
			mc.GoNamed("toggler", func() {
				for _, v := range sp.toggles {
					r.pl.SetPlaying(v)
				}
			})
		}
		r.reads(sp.before...)
		mc.Quiesce()
		mc.Assert(jumper.Done(), "jump-blocks", "a jump does not return: %s", jumper.Blocked())
		if sp.resume {
			r.pl.SetPlaying(true)
		}
		at := len(r.low)
		for n := sp.after; n > 0; n -= 4 {
			r.read(4)
		}
		r.settle()
		mc.Outcome(r.String())
		r.checkSamples()
		r.checkOrder(sp.songs, sp.jumps, len(sp.jumps) > 0)
		if len(sp.jumps) > 0 {
			// what was playing is left after at most the buffered samples, the
			// block in progress and one more, and the break
			limit := at + 2*sp.buf + 3*streamerBufferSize + 2*sp.nan + 2
			found := false
			want := sp.songs[wrapFor(sp.jumps[len(sp.jumps)-1], len(sp.songs))]
			for _, s := range r.starts {
				found = found || (s.name == want && int(s.at) <= limit)
			}
			_, playable := songFiles[want]
			mc.Assert(found || !playable, "jump-late", "%s does not start by sample %d after the jump at %d at the latest: %v", want, limit, at, r)
		}
	}
}

func wrapFor(p, n int) int {
	p %= n
	if p < 0 {
		p += n
	}
	return p
}

func TestMC(t *testing.T) {
	abc := []string{"a3", "b2", "d1"}
	specs := []c09Spec{
		{name: "order", songs: abc, buf: 2, nan: 1, playing: true, before: []int{3}, after: 24},
		{name: "order_no_break", songs: []string{"e4", "b2", "c5"}, buf: 1, nan: 0, playing: true, after: 40},
		{name: "order_one", songs: []string{"b2"}, buf: 1, nan: 1, playing: true, after: 12},
		{name: "order_bad", songs: []string{undecodable, "a3", missing, "b2", directory}, buf: 2, nan: 1, playing: true, after: 24},
		{name: "unread", songs: abc, buf: 2, nan: 1, playing: true, jumps: []int{2, 0, 1, 2, 1}, after: 20},
		{name: "unread_paused", songs: abc, buf: 1, nan: 1, jumps: []int{2, 1, 0, 2}, resume: true, after: 20},
		{name: "jump_last", songs: abc, buf: 2, nan: 1, playing: true, before: []int{3, 3}, jumps: []int{2}, after: 16},
		{name: "jump_next", songs: []string{"a3", "e4", "b2"}, buf: 1, nan: 0, playing: true, before: []int{2, 2, 3}, jumps: []int{1}, after: 16},
		{name: "jump_same", songs: abc, buf: 1, nan: 1, playing: true, before: []int{2, 3}, jumps: []int{0}, after: 16},
		{name: "jump_twice", songs: []string{"c5", "b2", "e4"}, buf: 1, nan: 1, playing: true, before: []int{3, 3}, jumps: []int{2, 1}, after: 24},
		{name: "jump_thrice", songs: []string{"c5", "b2", "d1"}, buf: 1, nan: 1, playing: true, before: []int{4}, jumps: []int{2, 0, 1}, after: 20},
		{name: "jump_outside", songs: abc, buf: 2, nan: 1, playing: true, before: []int{4}, jumps: []int{-1, 4}, after: 20},
		{name: "jump_one_song", songs: []string{"a3"}, buf: 1, nan: 1, playing: true, before: []int{2, 3}, jumps: []int{0, 5}, after: 16},
		{name: "jump_to_bad", songs: []string{"a3", undecodable, "b2"}, buf: 1, nan: 1, playing: true, before: []int{2, 3}, jumps: []int{1}, after: 16},
		{name: "jump_from_bad", songs: []string{undecodable, "a3", missing, "b2"}, buf: 1, nan: 1, playing: true, before: []int{3}, jumps: []int{3, 1}, after: 20},
		{name: "jump_paused", songs: abc, buf: 1, nan: 1, playing: false, before: []int{3}, jumps: []int{1}, resume: true, after: 20},
		{name: "jump_toggles", songs: []string{"c5", "b2", "d1"}, buf: 1, nan: 1, playing: true, before: []int{3, 2}, jumps: []int{1}, toggles: []bool{false, true}, after: 24},
		{name: "jump_big_buffer", songs: []string{"a3", "b2", "d1", "e4"}, buf: 6, nan: 2, playing: true, before: []int{3, 2}, jumps: []int{3}, after: 40},
		{name: "jump_four", songs: []string{"c5", "b2", "d1"}, buf: 2, nan: 1, playing: true, before: []int{4, 3}, jumps: []int{2, 0, 1, 2}, after: 24, thorough: true},
		{name: "jump_thrice_toggles", songs: []string{"c5", "b2", "e4"}, buf: 1, nan: 1, playing: true, before: []int{4, 4}, jumps: []int{2, 1, 0}, toggles: []bool{false, true}, after: 28, thorough: true},
	}
	scs := []mc.Scenario{}
	for _, sp := range specs {
		scs = append(scs, mc.Scenario{Name: sp.name, Body: c09Body(sp), Setup: setupSongs, Teardown: fakemp3.Reset, Thorough: sp.thorough, MaxSteps: 8000})
	}
	_ = fmt.Sprint
	mc.Main(t, scs)
}
