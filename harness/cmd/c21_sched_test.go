package main

import (
	"fmt"
	"testing"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/schedule"
	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C21: announcements are handled while the display is refreshed.

func c21Song(at, length int64) *comm.NewSongInfo {
	return &comm.NewSongInfo{FirstSampleOfSongIndex: uint64(at), SongLength: length, SongFileName: fmt.Sprint("song", at)}
}

func c21Toggle(at int64, playing bool) *comm.PauseInfo {
	return &comm.PauseInfo{ToggleSampleIndex: uint64(at), Playing: playing}
}

const c21T0 = int64(1e15)

// c21Chunk is a chunk of 4 samples played within 4 seconds.
func c21Chunk(at int64) *comm.ChunkInfo {
	return &comm.ChunkInfo{StartTime: c21T0 + at*1e9, FirstSampleIndex: uint64(at), ChunkSize: 4}
}

func c21When(sample int64) int64 { return c21T0 + sample*1e9 + 5e8 }

func c21Shown(i *playbackInformation) string {
	return fmt.Sprintf("%s@%d %v %v %v %.3f", i.CurrentSong.filename, i.CurrentSong.startIndex, i.Playing, i.SongLength, i.TimeInSong, i.ProgressInSong)
}

func c21Deliver(h comm.TypedPackageHandler, m interface{}) {
	switch m := m.(type) {
	case *comm.NewSongInfo:
		h.Handle(m, nil)
	case *comm.ChunkInfo:
		h.Handle(m, nil)
	case *comm.PauseInfo:
		h.Handle(m, nil)
	}
}

// c21Possible: what can be shown with any part of the announcements having arrived.
func c21Possible(before, during []interface{}, looks []int64) map[int64]map[string]bool {
	r := map[int64]map[string]bool{}
	for _, l := range looks {
		r[l] = map[string]bool{}
		for mask := 0; mask < 1<<uint(len(during)); mask++ {
			currentState = &state{Songs: make([]upcomingSong, 0), Chunks: make([]upcomingChunk, 0)}
			all := append([]interface{}{}, before...)
			for i, m := range during {
				if mask>>uint(i)&1 == 1 {
					all = append(all, m)
				}
			}
			for _, m := range all {
				switch m := m.(type) {
				case *comm.NewSongInfo:
					newInfoerPackageHandler().HandleNewSongInfo(m, nil)
				case *comm.ChunkInfo:
					newInfoerPackageHandler().HandleChunkInfo(m, nil)
				case *comm.PauseInfo:
					newInfoerPackageHandler().HandlePauseInfo(m, nil)
				}
			}
			r[l][c21Shown(currentState.Info(c21When(l)))] = true
		}
	}
	return r
}

// c21Scenario: the messages are received while the display is refreshed at the times of some samples; in the end it is
// looked at while the last sample is played.
func c21Scenario(name string, bound int, before, during []interface{}, looks []int64, last int64, want string) mc.Scenario {
	var possible map[int64]map[string]bool
	return mc.Scenario{Name: name, MaxBound: bound, Setup: func() {
		schedule.SampleRate = 1
		if possible == nil {
			possible = c21Possible(before, during, looks)
		}
	}, Body: func() {
		currentState = &state{Songs: make([]upcomingSong, 0), Chunks: make([]upcomingChunk, 0)}
		h := newInfoerPackageHandler()
		for _, m := range before {
			c21Deliver(h, m)
		}
		mc.Quiesce()
		a := mc.GoNamed("connection", func() {
			for _, m := range during {
				c21Deliver(h, m)
			}
		})
		b := mc.GoNamed("display", func() {
			for _, l := range looks {
				got := c21Shown(currentState.Info(c21When(l)))
				mc.Assert(possible[l][got], "between", "while announcements arrive the display shows %s, which no part of them makes it show", got)
			}
		})
		mc.Join(a, b)
		mc.Quiesce()
		got := c21Shown(currentState.Info(c21When(last)))
		mc.Assert(got == want, "display", "the display shows %s instead of %s", got, want)
		mc.Outcome(got)
	}}
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	l := func(m ...interface{}) []interface{} { return m }
	mc.Main(t, []mc.Scenario{
		c21Scenario("songs", 8, l(c21Chunk(0)), l(c21Song(1, 3), c21Song(4, 9), c21Chunk(4)), []int64{2, 5}, 6, "song4@4 true 9s 2s 0.222"),
		c21Scenario("chunks", 8, l(c21Song(1, 4)), l(c21Chunk(0), c21Chunk(4), c21Chunk(8)), []int64{1, 2}, 3, "song1@1 true 4s 2s 0.500"),
		c21Scenario("chunks_go_by", 8, l(c21Song(1, 16), c21Chunk(0), c21Chunk(4)), l(c21Chunk(8), c21Chunk(12)), []int64{6, 9}, 13, "song1@1 true 16s 12s 0.750"),
		c21Scenario("pauses", 8, l(c21Song(1, 8), c21Chunk(0), c21Chunk(4), c21Chunk(8)), l(c21Toggle(2, false), c21Toggle(4, true), c21Toggle(5, false)), []int64{2, 6}, 7, "song1@1 false 8s 2s 0.250"),
		c21Scenario("old_pauses", 3, l(c21Chunk(0), c21Toggle(1, false), c21Toggle(2, true), c21Toggle(3, false), c21Toggle(5, true)), l(c21Song(4, 4), c21Song(6, 4), c21Chunk(4), c21Chunk(8), c21Toggle(7, false)), []int64{4, 6}, 9, "song6@6 false 4s 1s 0.250"),
	})
}
