package playback

import (
	"fmt"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
	fakemp3 "github.com/LogicalOverflow/music-sync/zzmc/fakemp3"
)

// Executions shared by C10 and C11: same executions, different oracle.

type streamSpec struct {
	name     string
	songs    []string
	buf, nan int
	playing  bool
	reads    []int
	toggles  [][]bool // one goroutine each
	jumps    []int
	add      []string // songs added while streaming
	thorough bool
	chooseN  int // songs are chosen: every combination of this many out of songs
}

func (sp streamSpec) body(check func(*rec, streamSpec)) func() {
	return func() {
		sp := sp
		songs := append([]string{}, sp.songs...)
		if sp.chooseN > 0 {
			songs = songs[:0]
			for i := 0; i < sp.chooseN; i++ {
				songs = append(songs, sp.songs[mc.Choose(len(sp.songs))])
			}
		}
		sp.songs = songs
		r := newRec(sp.buf, append([]string{}, songs...), sp.nan, sp.playing)
		r.jumps = len(sp.jumps)
		r.stream()
		for i, tg := range sp.toggles {
			tg := tg
			mc.GoNamed(fmt.Sprintf("toggler%d", i), func() {
				for _, v := range tg {
					r.pl.SetPlaying(v)
				}
			})
		}
		if len(sp.jumps) > 0 {
			mc.GoNamed("jumper", func() {
				for _, p := range sp.jumps {
					r.pl.SetPos(p)
				}
			})
		}
		if len(sp.add) > 0 {
			mc.GoNamed("adder", func() {
				for _, s := range sp.add {
					r.pl.AddSong(s)
				}
			})
		}
		r.reads(sp.reads...)
		r.settle()
		mc.Outcome(r.String())
		check(r, sp)
	}
}

func (sp streamSpec) scenario(check func(*rec, streamSpec)) mc.Scenario {
	return mc.Scenario{Name: sp.name, Body: sp.body(check), Setup: setupSongs, Teardown: fakemp3.Reset, Thorough: sp.thorough, MaxSteps: 6000}
}

var streamSpecs = []streamSpec{
	{name: "in_order", songs: []string{"a3", "b2", "d1"}, buf: 2, nan: 1, playing: true, reads: []int{1, 2, 3, 4, 2}},
	{name: "lengths", songs: []string{"d1", "b2", "a3", "e4", "c5", "g0", "h6bad3"}, chooseN: 2, buf: 3, nan: 1, playing: true, reads: []int{3, 5, 4}},
	{name: "small_buffer", songs: []string{"c5", "b2"}, buf: 1, nan: 2, playing: true, reads: []int{5, 1, 1, 5}},
	{name: "no_break", songs: []string{"a3", "b2"}, buf: 2, nan: 0, playing: true, reads: []int{2, 3, 2, 3}},
	{name: "pause", songs: []string{"c5", "b2"}, buf: 2, nan: 1, playing: true, reads: []int{2, 3, 3, 2}, toggles: [][]bool{{false}}},
	{name: "pause_resume", songs: []string{"e4", "b2"}, buf: 1, nan: 1, playing: true, reads: []int{3, 3, 4}, toggles: [][]bool{{false, true}}},
	{name: "resume_pause", songs: []string{"c5"}, buf: 1, nan: 1, playing: false, reads: []int{3, 4, 3}, toggles: [][]bool{{true, false}}},
	{name: "start_paused", songs: []string{"a3", "b2"}, buf: 2, nan: 1, playing: false, reads: []int{2, 4, 4}, toggles: [][]bool{{true}}},
	{name: "two_togglers", songs: []string{"c5"}, buf: 2, nan: 1, playing: true, reads: []int{3, 4, 3}, toggles: [][]bool{{false, true}, {false}}},
	{name: "jump", songs: []string{"c5", "b2", "d1"}, buf: 2, nan: 1, playing: true, reads: []int{4, 4, 3}, jumps: []int{2}},
	{name: "jump_self", songs: []string{"c5"}, buf: 1, nan: 1, playing: true, reads: []int{4, 5}, jumps: []int{0}},
	{name: "jump_pause", songs: []string{"c5", "b2"}, buf: 1, nan: 1, playing: true, reads: []int{4, 5}, jumps: []int{1}, toggles: [][]bool{{false}}},
	{name: "add_to_empty", songs: nil, buf: 2, nan: 1, playing: true, reads: []int{3, 5, 4}, add: []string{"a3", "b2"}},
	{name: "bad_between", songs: []string{"a3", undecodable, "d1", missing}, buf: 2, nan: 1, playing: true, reads: []int{3, 5, 4}},
	{name: "pause_resume_long", songs: []string{"f8", "a3"}, buf: 2, nan: 1, playing: true, reads: []int{4, 4, 4, 4}, toggles: [][]bool{{false, true, false, true}}},
	{name: "jumps_toggles", songs: []string{"c5", "b2", "a3"}, buf: 2, nan: 1, playing: true, reads: []int{4, 4, 4, 4}, jumps: []int{2, 0}, toggles: [][]bool{{false, true}}, thorough: true},
	{name: "lengths3", songs: []string{"d1", "b2", "a3", "e4", "c5", "g0", "h6bad3"}, chooseN: 3, buf: 2, nan: 2, playing: true, reads: []int{1, 7, 4, 6}},
	{name: "lengths_pause", songs: []string{"d1", "b2", "a3", "e4", "g0"}, chooseN: 2, buf: 2, nan: 1, playing: true, reads: []int{3, 5, 4}, toggles: [][]bool{{false, true}}},
	{name: "lengths_pause3", songs: []string{"d1", "b2", "a3", "e4", "h6bad3"}, chooseN: 3, buf: 3, nan: 2, playing: true, reads: []int{3, 5, 4, 6}, toggles: [][]bool{{false, true}}, thorough: true},
	{name: "lengths4", songs: []string{"d1", "b2", "a3", "e4", "c5", "g0", "h6bad3"}, chooseN: 4, buf: 1, nan: 1, playing: true, reads: []int{2, 7, 5, 8}},
	{name: "lengths_jump", songs: []string{"d1", "b2", "a3", "e4", "g0"}, chooseN: 3, buf: 2, nan: 1, playing: true, reads: []int{3, 5, 6}, jumps: []int{2}},
}
