package schedule

import (
	"fmt"
	"sort"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C20: a late subscriber learns the same state as one present from the start.

// ev is an announcement of the playlist: a song starting or playback toggled.
type ev struct {
	song    bool
	playing bool
	at      uint64
}

func (e ev) String() string {
	if e.song {
		return fmt.Sprintf("song@%d", e.at)
	}
	if e.playing {
		return fmt.Sprintf("resume@%d", e.at)
	}
	return fmt.Sprintf("pause@%d", e.at)
}

// known is what a client can tell from the messages it got.
type known struct {
	songs  []*comm.NewSongInfo
	pauses []*comm.PauseInfo
}

func knowledge(ms []proto.Message) *known {
	k := &known{}
	for _, m := range ms {
		switch m := m.(type) {
		case *comm.NewSongInfo:
			k.songs = append(k.songs, m)
		case *comm.PauseInfo:
			k.pauses = append(k.pauses, m)
		}
	}
	sort.SliceStable(k.songs, func(i, j int) bool { return k.songs[i].FirstSampleOfSongIndex < k.songs[j].FirstSampleOfSongIndex })
	sort.SliceStable(k.pauses, func(i, j int) bool { return k.pauses[i].ToggleSampleIndex < k.pauses[j].ToggleSampleIndex })
	return k
}

// playingAt tells whether sample is audible.
func (k *known) playingAt(sample uint64) bool {
	playing := true
	for _, p := range k.pauses {
		if p.ToggleSampleIndex <= sample {
			playing = p.Playing
		}
	}
	return playing
}

func (k *known) songAt(sample uint64) *comm.NewSongInfo {
	var r *comm.NewSongInfo
	for _, s := range k.songs {
		if s.FirstSampleOfSongIndex <= sample {
			r = s
		}
	}
	return r
}

func (k *known) String() string {
	r := []string{}
	for _, s := range k.songs {
		r = append(r, ev{song: true, at: s.FirstSampleOfSongIndex}.String())
	}
	for _, p := range k.pauses {
		r = append(r, ev{playing: p.Playing, at: p.ToggleSampleIndex}.String())
	}
	return fmt.Sprint(r)
}

// agree compares what two clients can tell from the newest song on.
func agree(full, late *known, end uint64, name string) {
	var from uint64
	if n := len(full.songs); n > 0 {
		from = full.songs[n-1].FirstSampleOfSongIndex
	}
	paused, latePaused := 0, 0
	for s := from; s <= end; s++ {
		a, b := full.songAt(s), late.songAt(s)
		mc.Assert((a == nil) == (b == nil) && (a == nil || proto.Equal(a, b)), "song", "%s thinks sample %d is of song %v, it is of %v", name, s, b, a)
		p, lp := full.playingAt(s), late.playingAt(s)
		mc.Assert(p == lp, "playing", "%s thinks sample %d is playing: %v, it is: %v; known %v of %v", name, s, lp, p, late, full)
		if !p {
			paused++
		}
		if !lp {
			latePaused++
		}
		mc.Assert(paused == latePaused, "paused", "%s counts %d paused samples up to %d instead of %d", name, latePaused, s, paused)
	}
}

// what a client can tell does not depend on the order in which it is told
func c20Client(b *caster, name string, chs ...comm.Channel) *vclient {
	c := b.client(name, chs...)
	c.unordered = true
	return c
}
