package schedule

import (
	"fmt"
	"testing"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/metadata"
	"github.com/LogicalOverflow/music-sync/playback"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

type c20Opt struct {
	first       bool // a toggle may come with the song's first sample
	joiners     int
	stalled     bool // one subscriber never reads
	unsubBefore bool
}

func c20State() (*caster, *serverState) {
	b := &caster{}
	ss := &serverState{sender: b, volume: startVolume20}
	ss.lyricsProvider = metadata.GetLyricsProvider()
	ss.metadataProvider = metadata.GetProvider()
	ss.pauses = make([]*comm.PauseInfo, 0)
	return b, ss
}

const startVolume20 = 0.1

// c20 announces the events as the playlist does, each in its own goroutine.
func c20(o c20Opt, events func() []ev) func() {
	return func() {
		evs := events()
		b, ss := c20State()
		song, toggle, join := ss.createNewSongHandler(), ss.createPauseToggleHandler(), ss.createClientHandler()
		full := c20Client(b, "full", comm.Channel_META)
		if o.stalled {
			c := c20Client(b, "stalled")
			c.stall = true
			mc.GoNamed("stalled", func() { b.subscribe(c, comm.Channel_META, join) })
		}
		mc.GoNamed("playlist", func() {
			for i, e := range evs {
				e, i := e, i
				if e.song {
					mc.GoNamed(e.String(), func() { song(e.at, fmt.Sprintf("song%d", i), int64(10+i)) })
				} else {
					mc.GoNamed(e.String(), func() { toggle(e.playing, e.at) })
				}
			}
		})
		for i := 0; i < o.joiners; i++ {
			c := c20Client(b, fmt.Sprint("joiner", i))
			mc.GoNamed(c.name, func() { b.subscribe(c, comm.Channel_META, join) })
		}
		mc.Quiesce()
		last := c20Client(b, "last")
		mc.Join(mc.GoNamed("last", func() { b.subscribe(last, comm.Channel_META, join) }))
		var end uint64
		songs, toggles := 0, 0
		for _, e := range evs {
			if e.at >= end {
				end = e.at
			}
			if e.song {
				songs++
			} else {
				toggles++
			}
		}
		k := knowledge(full.got)
		mc.Assert(len(k.songs) == songs && len(k.pauses) == toggles, "announced", "a client present from the start got %v for %v", k, evs)
		for _, c := range b.clients[1:] {
			if !c.stall {
				agree(k, knowledge(c.got), end+2, c.name)
			}
		}
		c20Trimmed(ss, k, toggle, end)
		mc.Outcome(fmt.Sprint(evs, len(ss.pauses)))
	}
}

// c20Trimmed checks that entries made irrelevant by newer songs go away with
// the next toggles.
func c20Trimmed(ss *serverState, k *known, toggle func(bool, uint64), end uint64) {
	if len(k.songs) == 0 {
		return
	}
	playing := k.playingAt(end)
	mc.GoNamed("toggle", func() { toggle(!playing, end+2) })
	mc.Quiesce()
	mc.GoNamed("toggle", func() { toggle(playing, end+4) })
	mc.Quiesce()
	start := k.songs[len(k.songs)-1].FirstSampleOfSongIndex
	old := 0
	for _, p := range ss.pauses {
		if p.ToggleSampleIndex <= start {
			old++
		}
	}
	mc.Assert(old <= 2, "history", "%d entries from before the song starting at %d are kept: %v", old, start, ss.pauses)
}

func fixed(evs ...ev) func() []ev { return func() []ev { return evs } }

// anyEvents is any sequence of up to n announcements a playlist can make,
// beginning with a song.
func anyEvents(n int) func() []ev {
	return func() []ev {
		evs := []ev{{song: true, at: 0}}
		playing := true
		at := uint64(0)
		for len(evs) < n {
			switch mc.Choose(4) {
			case 0:
				return evs
			case 1: // next song
				at += 2
				evs = append(evs, ev{song: true, at: at})
			case 2: // toggle later on in the song
				at += 2
				playing = !playing
				evs = append(evs, ev{playing: playing, at: at})
			case 3: // toggle at the first sample of the song
				if !evs[len(evs)-1].song {
					return evs
				}
				playing = !playing
				evs = append(evs, ev{playing: playing, at: at})
			}
		}
		return evs
	}
}

func TestMC(t *testing.T) {
	playback.AudioDir = "/nonexistent"
	song := func(at uint64) ev { return ev{song: true, at: at} }
	pause := func(at uint64) ev { return ev{at: at} }
	resume := func(at uint64) ev { return ev{playing: true, at: at} }
	one := c20Opt{joiners: 1}
	mc.Main(t, []mc.Scenario{
		{Name: "any2", Body: c20(one, anyEvents(2))},
		{Name: "any3", Body: c20(one, anyEvents(3)), MaxBound: mc.Pick(4, 8)},
		{Name: "any4", Body: c20(one, anyEvents(4)), MaxBound: mc.Pick(2, 4)},
		{Name: "first_pause_resume", Body: c20(one, fixed(song(0), pause(0), resume(4))), MaxBound: mc.Pick(5, 8)},
		{Name: "pause_resume_song", Body: c20(one, fixed(song(0), pause(2), resume(4), song(8))), MaxBound: mc.Pick(4, 7)},
		{Name: "paused_over_song", Body: c20(one, fixed(song(0), pause(2), song(6), resume(8))), MaxBound: mc.Pick(3, 6)},
		{Name: "songs", Body: c20(one, fixed(song(0), song(4), song(8))), MaxBound: mc.Pick(4, 7)},
		{Name: "long", Body: c20(one, fixed(song(0), pause(2), resume(4), song(8), pause(10), resume(12))), MaxBound: mc.Pick(1, 3)},
		{Name: "older_and_newer", Body: c20(one, fixed(song(0), pause(1), resume(2), pause(3), resume(4), song(8), pause(9))), MaxBound: mc.Pick(1, 3)},
		{Name: "toggles", Body: c20(one, fixed(song(0), pause(2), resume(4), pause(6), resume(8))), MaxBound: mc.Pick(2, 4)},
		{Name: "no_song_yet", Body: c20(one, fixed(pause(2), resume(4))), MaxBound: mc.Pick(4, 8)},
		{Name: "two_joiners", Body: c20(c20Opt{joiners: 2}, fixed(song(0), pause(2))), MaxBound: mc.Pick(4, 7)},
		{Name: "stalled", Body: c20(c20Opt{joiners: 1, stalled: true}, fixed(song(0), pause(2), resume(4))), MaxBound: mc.Pick(2, 4)},
		{Name: "any5", Thorough: true, Body: c20(one, anyEvents(5)), MaxBound: 3},
	})
}
