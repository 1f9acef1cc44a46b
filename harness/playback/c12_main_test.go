package playback

import (
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"testing"
	"time"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
	fakemp3 "github.com/LogicalOverflow/music-sync/zzmc/fakemp3"
)

// C12: the stream never dries up or leaks.

// openSongs is the number of descriptors open on files of the music directory.
func openSongs() int {
	n := 0
	ents, _ := os.ReadDir("/proc/self/fd")
	for _, e := range ents {
		if l, err := os.Readlink(filepath.Join("/proc/self/fd", e.Name())); err == nil && strings.HasPrefix(l, AudioDir+"/") {
			n++
		}
	}
	return n
}

var c12Base int

func c12Setup() {
	setupSongs()
	if n := openSongs(); n > 0 { // descriptors left behind by an earlier execution
		runtime.GC()
		time.Sleep(time.Millisecond)
	}
	c12Base = openSongs()
}

type c12Spec struct {
	name     string
	songs    []string
	choose   int // every list of this many out of songs
	buf, nan int
	paused   bool
	reads    []int
	jumps    []int
	remove   int // songs removed in the end
	toggles  []bool
	all      bool // every playable song must have started
	thorough bool
}

func c12Body(sp c12Spec) func() {
	return func() {
		songs := append([]string{}, sp.songs...)
		if sp.choose > 0 {
			songs = songs[:0]
			for i := 0; i < sp.choose; i++ {
				songs = append(songs, sp.songs[mc.Choose(len(sp.songs))])
			}
		}
		r := newRec(sp.buf, append([]string{}, songs...), sp.nan, !sp.paused)
		r.jumps = 1000
		r.stream()
		if len(sp.jumps) > 0 {
			mc.GoNamed("jumper", func() {
				for _, p := range sp.jumps {
					r.pl.SetPos(p)
				}
			})
		}
		if len(sp.toggles) > 0 {
			mc.GoNamed("toggler", func() {
				for _, v := range sp.toggles {
					r.pl.SetPlaying(v)
				}
			})
		}
		// a deadlock or livelock here is a stream that dries up
		for _, n := range sp.reads {
			r.read(n)
		}
		r.settle()
		mc.Outcome(r.String())
		n := openSongs() - c12Base
		mc.Assert(n <= 1, "files-open", "%d song files are open while at most one song is playing: %v", n, r)
		r.checkSamples()
		if sp.all {
			for _, s := range songs {
				if !playable(s) {
					continue
				}
				found := false
				for _, e := range r.starts {
					found = found || e.name == s
				}
				mc.Assert(found, "never-played", "%s of %v is never played: %v", s, songs, r)
			}
		}
		if sp.remove > 0 {
			for i := 0; i < sp.remove; i++ {
				r.pl.RemoveSong(0)
			}
			for i := 0; i < 8; i++ {
				r.read(4)
			}
			mc.Quiesce()
			n := openSongs() - c12Base
			mc.Assert(n <= 0, "files-open", "%d song files are open although no song is playing any more: %v", n, r)
		}
	}
}

func TestMC(t *testing.T) {
	blocks := func(n int) []int {
		r := []int{}
		for ; n > 0; n-- {
			r = append(r, 4)
		}
		return r
	}
	specs := []c12Spec{
		{name: "nothing", buf: 2, nan: 1, reads: []int{4, 3, 7}},
		{name: "nothing_paused", buf: 2, nan: 0, paused: true, reads: []int{4, 3, 7}},
		{name: "lists3", songs: []string{undecodable, missing, directory, "a3", "g0", "h6bad3", "b2"}, choose: 3, buf: 2, nan: 1, reads: blocks(7), remove: 3, all: true},
		{name: "lists2_no_break", songs: []string{undecodable, missing, directory, "a3", "g0", "h6bad3", "e4"}, choose: 2, buf: 1, nan: 0, reads: blocks(5), remove: 2, all: true},
		{name: "lists2_panics", songs: []string{"p6panic2", "q6panic1", "r0panic", undecodable, "a3"}, choose: 2, buf: 1, nan: 1, reads: blocks(5), remove: 2, all: true},
		{name: "lists2_paused", songs: []string{undecodable, missing, "a3", "g0"}, choose: 2, buf: 2, nan: 1, paused: true, reads: blocks(4), remove: 0},
		{name: "jump_bad", songs: []string{undecodable, "a3", missing}, buf: 1, nan: 1, reads: blocks(4), jumps: []int{2, 0}, remove: 3},
		{name: "jump_good", songs: []string{"c5", "g0", "b2"}, buf: 1, nan: 0, reads: blocks(4), jumps: []int{2, 1, 0}, remove: 3},
		{name: "pauses_bad", songs: []string{"a3", missing}, buf: 1, nan: 1, reads: blocks(4), toggles: []bool{false, true}, remove: 2},
		{name: "lists4", songs: []string{undecodable, missing, directory, "a3", "g0", "h6bad3", "b2", "d1"}, choose: 4, buf: 2, nan: 1, reads: blocks(9), remove: 4, all: true, thorough: true},
		{name: "lists3_panics", songs: []string{"p6panic2", "r0panic", "a3", "g0"}, choose: 3, buf: 2, nan: 0, reads: blocks(7), jumps: []int{2}, remove: 3, thorough: true},
		{name: "lists3_jump", songs: []string{undecodable, "a3", "g0", "h6bad3"}, choose: 3, buf: 1, nan: 1, reads: blocks(6), jumps: []int{2, 1}, remove: 3, thorough: true},
		{name: "lists2_toggles", songs: []string{undecodable, "a3", "g0", "h6bad3"}, choose: 2, buf: 1, nan: 0, reads: blocks(6), toggles: []bool{false, true}, remove: 0, thorough: true},
	}
	scs := []mc.Scenario{}
	for _, sp := range specs {
		scs = append(scs, mc.Scenario{Name: sp.name, Body: c12Body(sp), Setup: c12Setup, Teardown: fakemp3.Reset, Thorough: sp.thorough, MaxSteps: 4000})
	}
	mc.Main(t, scs)
}
