package schedule

import (
	"fmt"
	"testing"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/metadata"
	"github.com/LogicalOverflow/music-sync/playback"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C20 with comm's server: clients subscribing while songs and pauses are
// announced.

// c20Net makes the announcements before, each at its time, and then those
// meanwhile, while a client subscribes.
func c20Net(before, meanwhile []ev, connected bool) func() {
	return func() {
		ss := &serverState{volume: .1, lyricsProvider: metadata.GetLyricsProvider(), metadataProvider: metadata.GetProvider(), pauses: make([]*comm.PauseInfo, 0)}
		l := behind(ss)
		song, toggle := ss.createNewSongHandler(), ss.createPauseToggleHandler()
		full := l.join("full", comm.Channel_META)
		var late *nconn
		if connected {
			late = l.connect("late")
		}
		mc.Quiesce()
		announce := func(e ev) {
			mc.GoNamed(e.String(), func() {
				if e.song {
					song(e.at, fmt.Sprintf("song%d", e.at), int64(10+e.at))
				} else {
					toggle(e.playing, e.at)
				}
			})
		}
		end := uint64(0)
		for _, e := range before {
			announce(e)
			mc.Quiesce()
			end = e.at
		}
		for _, e := range meanwhile {
			announce(e)
			end = e.at
		}
		if connected {
			late.say(&comm.SubscribeChannelRequest{Channel: comm.Channel_META})
		} else {
			late = l.join("late", comm.Channel_META)
		}
		mc.Quiesce()
		k, lk := knowledge(full.got()), knowledge(late.got())
		mc.Assert(len(k.songs)+len(k.pauses) == len(before)+len(meanwhile), "announced", "a client present from the start got %v for %v, %v", k, before, meanwhile)
		agree(k, lk, end+2, "a client subscribing meanwhile")
		mc.Outcome(lk.String())
	}
}

func TestMC(t *testing.T) {
	playback.AudioDir = "/nonexistent"
	song := func(at uint64) ev { return ev{song: true, at: at} }
	pause := func(at uint64) ev { return ev{at: at} }
	resume := func(at uint64) ev { return ev{playing: true, at: at} }
	evs := func(e ...ev) []ev { return e }
	mc.Main(t, []mc.Scenario{
		{Name: "song", Body: c20Net(nil, evs(song(0)), true)},
		{Name: "song_connecting", Body: c20Net(nil, evs(song(0)), false)},
		{Name: "pause", Body: c20Net(evs(song(0)), evs(pause(2)), true)},
		{Name: "resume", Body: c20Net(evs(song(0), pause(2)), evs(resume(4)), true)},
		{Name: "next_song", Body: c20Net(evs(song(0), pause(2)), evs(song(4)), true)},
		{Name: "pause_resume", Body: c20Net(evs(song(0)), evs(pause(2), resume(4)), true), MaxBound: mc.Pick(2, 5)},
		{Name: "song_pause", Body: c20Net(evs(song(0)), evs(song(4), pause(4)), true), MaxBound: mc.Pick(2, 5)},
		{Name: "resume_song", Body: c20Net(evs(song(0), pause(2)), evs(resume(4), song(8)), true), MaxBound: mc.Pick(2, 5)},
	})
}
