package main

import (
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/LogicalOverflow/music-sync/zzmc/fakemono"
	"github.com/gdamore/tcell"
	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C03: whatever messages a server sends, the info client does not crash.

func c03Pool() (r []proto.Message) {
	ints := []int64{0, 1, -1, 1e9, math.MaxInt64, math.MinInt64}
	uints := []uint64{0, 1, 1e9, 1<<63 - 1, 1 << 63, math.MaxUint64}
	line := func(as ...int64) *comm.NewSongInfo_SongLyricsLine {
		l := &comm.NewSongInfo_SongLyricsLine{}
		for _, a := range as {
			l.Atoms = append(l.Atoms, &comm.NewSongInfo_SongLyricsAtom{Timestamp: a, Caption: "x\x1b\n語"})
		}
		return l
	}
	lyrics := [][]*comm.NewSongInfo_SongLyricsLine{nil, {}, {line()}, {line(), line(0, 5), line()}, {line(math.MaxInt64), line(math.MinInt64)}, {line(-1, math.MinInt64, math.MaxInt64)}}
	for i, at := range uints {
		for j, n := range ints {
			m := &comm.NewSongInfo{FirstSampleOfSongIndex: at, SongLength: n, SongFileName: "a\x00b", Lyrics: lyrics[(i+j)%len(lyrics)]}
			if (i+j)%2 == 0 {
				m.Metadata = &comm.NewSongInfo_SongMetadata{Title: "\u0301t", Artist: "語語", Album: "\n"}
			}
			r = append(r, m)
		}
		for j, t := range ints {
			r = append(r, &comm.ChunkInfo{StartTime: t, FirstSampleIndex: at, ChunkSize: uints[(i+j)%len(uints)]})
		}
		r = append(r, &comm.ChunkInfo{StartTime: 1e9, FirstSampleIndex: at, ChunkSize: 1 << 30})
		r = append(r, &comm.PauseInfo{ToggleSampleIndex: at}, &comm.PauseInfo{ToggleSampleIndex: at, Playing: true})
	}
	for _, v := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), -1, 1e300, math.SmallestNonzeroFloat64} {
		r = append(r, &comm.SetVolumeRequest{Volume: v})
	}
	return r
}

func c03Handle(h comm.TypedPackageHandler, m proto.Message) {
	switch m := m.(type) {
	case *comm.NewSongInfo:
		h.HandleNewSongInfo(m, nil)
	case *comm.ChunkInfo:
		h.HandleChunkInfo(m, nil)
	case *comm.PauseInfo:
		h.HandlePauseInfo(m, nil)
	case *comm.SetVolumeRequest:
		h.HandleSetVolumeRequest(m, nil)
	}
}

func c03Shows(depth int) func(e *mc.E) {
	return func(e *mc.E) {
		pool := c03Pool()
		e.Rule(fmt.Sprintf("all sequences of %d messages out of %d songs, chunks, pauses and volumes with extreme, missing and odd fields, the display refreshed at seven times after each; distinct: screens", depth, len(pool)))
		timing.ResetOffsets(1)
		timing.UpdateOffset(0, 0, 0, 0)
		clock := int64(0)
		monotime.Fixed = func() int64 { return clock }
		s := tcell.NewSimulationScreen("")
		if err := s.Init(); err != nil {
			panic(err)
		}
		s.SetSize(30, 14)
		d := &drawer{Screen: s}
		d.w, d.h = d.Size()
		idx := 0
		var rec func(ms []proto.Message)
		run := func(ms []proto.Message) {
			currentState = &state{Songs: make([]upcomingSong, 0), Chunks: make([]upcomingChunk, 0)}
			h := newInfoerPackageHandler()
			e.Timeout(60*time.Second, "display", func() {
				for i, m := range ms {
					c03Handle(h, m)
					for _, clock = range []int64{0, 1e9 + 5, 2e9, 1e18, math.MaxInt64, math.MinInt64, 1e9 + 5} {
						if i < len(ms)-1 && clock != 1e9+5 {
							continue
						}
						redraw(d)
					}
				}
			})
			e.Step(1)
			cells, _, _ := s.GetContents()
			b := []byte{}
			for _, c := range cells {
				b = append(b, c.Bytes...)
			}
			e.DistinctH(mc.Hash(b))
		}
		rec = func(ms []proto.Message) {
			if e.Stopped() {
				return
			}
			if len(ms) == depth {
				for _, schedule.SampleRate = range []int{44100, 1} {
					idx++
					if !e.Mine(idx) {
						continue
					}
					e.Case(func() string { return fmt.Sprintf("rate %d: %v", schedule.SampleRate, ms) })
					run(ms)
				}
				return
			}
			for _, m := range pool {
				rec(append(ms[:len(ms):len(ms)], m))
			}
		}
		rec(nil)
	}
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	mc.Main(t, []mc.Scenario{
		{Name: "display1", Enum: c03Shows(1)},
		{Name: "display2", Enum: c03Shows(2), Shards: 8},
	})
}
