package schedule

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
	fakemp3 "github.com/LogicalOverflow/music-sync/zzmc/fakemp3"
)

// C13: the server emits a gapless, regularly timed sequence of chunks.

type c13Step struct {
	wait time.Duration
	cmd  string
	args []string
}

type c13Scn struct {
	cfg    srvCfg
	chunks int // how many chunks are watched
	steps  []c13Step
	stall  int64 // the playlist delivers nothing for so long, once
	stallN int   // at this read of a song
	slow   int   // one of the first slow messages is sent by a goroutine that is not run for a while
}

func (sc c13Scn) body() {
	var audio, meta *vclient
	at := map[int64]int64{} // when chunk k came
	fakemp3.OnStream = nil
	if sc.stall > 0 {
		n := 0
		fakemp3.OnStream = func() {
			n++
			if n == sc.stallN {
				mc.SleepNs(sc.stall)
			}
		}
	}
	s := serve(sc.cfg, func(b *caster) {
		audio, meta = b.client("audio", comm.Channel_AUDIO), b.client("meta", comm.Channel_META)
		audio.unordered, meta.unordered, b.static = true, true, true
		if sc.slow > 0 {
			b.slowN, b.slowFor = 1+mc.Choose(sc.slow), 3*int64(sc.cfg.chunkTime())/2
		}
		b.onSend = func(m proto.Message) {
			if q, ok := m.(*comm.QueueChunkRequest); ok {
				at[q.ChunkId] = timing.GetSyncedTime()
			}
		}
	})
	mc.GoNamed("user", func() {
		for _, st := range sc.steps {
			mc.SleepNs(int64(st.wait))
			s.cmd(st.cmd, st.args...)
		}
	})
	ct := int64(sc.cfg.chunkTime())
	streamStart := s.begin + int64(sc.cfg.startDelay)
	mc.SleepNs(streamStart - timing.GetSyncedTime() + int64(sc.chunks)*ct + sc.stall - ct/2)
	mc.Quiesce()

	var cs []*comm.QueueChunkRequest
	for _, m := range audio.got {
		if q, ok := m.(*comm.QueueChunkRequest); ok {
			cs = append(cs, q)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].ChunkId < cs[j].ChunkId })
	var infos []*comm.ChunkInfo
	for _, m := range meta.got {
		if q, ok := m.(*comm.ChunkInfo); ok {
			infos = append(infos, q)
		}
	}
	sort.Slice(infos, func(i, j int) bool { return infos[i].StartTime < infos[j].StartTime })
	mc.Assert(len(cs) >= sc.chunks, "missing", "%d chunks were sent in the time of %d", len(cs), sc.chunks)
	mc.Assert(len(cs) == len(infos), "infos", "%d chunks were sent, %d announced", len(cs), len(infos))
	first := streamStart + int64(sc.cfg.delay)
	var low, high []float64
	next := uint64(0)
	stalled := int64(0)
	for k, c := range cs {
		mc.Assert(c.ChunkId == int64(k), "ids", "chunk %d has id %d", k, c.ChunkId)
		mc.Assert(c.StartTime == first+int64(k)*ct, "start", "chunk %d starts at %d instead of %d", k, c.StartTime-streamStart, first+int64(k)*ct-streamStart)
		mc.Assert(len(c.SampleLow) == sc.cfg.chunk && len(c.SampleHigh) == sc.cfg.chunk, "size", "chunk %d has %d and %d samples", k, len(c.SampleLow), len(c.SampleHigh))
		mc.Assert(c.FirstSampleIndex == next, "index", "chunk %d has first sample %d instead of %d", k, c.FirstSampleIndex, next)
		next += uint64(sc.cfg.chunk)
		low, high = append(low, c.SampleLow...), append(high, c.SampleHigh...)
		i := infos[k]
		mc.Assert(i.StartTime == c.StartTime && i.FirstSampleIndex == c.FirstSampleIndex && i.ChunkSize == uint64(len(c.SampleLow)), "infos", "chunk %d is announced as %v", k, i)
		due := c.StartTime - int64(sc.cfg.delay)
		if at[c.ChunkId] > due {
			stalled = at[c.ChunkId] - due
			mc.Assert(sc.stall > 0 && stalled <= sc.stall, "late", "chunk %d is sent %v late", k, time.Duration(stalled))
		}
		mc.Assert(at[c.ChunkId] >= due, "early", "chunk %d is sent %v early", k, time.Duration(due-at[c.ChunkId]))
	}
	if sc.stall > 0 {
		k := int64(len(cs) - 1)
		mc.Assert(at[k] == cs[k].StartTime-int64(sc.cfg.delay), "behind", "chunk %d is still sent late after the playlist blocked for %v", k, time.Duration(sc.stall))
	}
	c13Stream(low, high)
	mc.Outcome(show(low, high))
}

// c13Stream: the samples of each song follow each other.
func c13Stream(low, high []float64) {
	id, pos := 0, 0
	for i := range low {
		if math.IsNaN(low[i]) && math.IsNaN(high[i]) {
			continue
		}
		d, k, ok := fakemp3.What(low[i], high[i])
		mc.Assert(ok, "mixed", "sample %d of the chunks is no sample of a song: %s", i, show(low, high))
		if k == 0 {
			id, pos = d, 0
		}
		mc.Assert(d == id && k == pos, "gap", "sample %d of the chunks does not continue the song: %s", i, show(low, high))
		pos++
	}
}

func TestMC(t *testing.T) {
	setupSongs()
	q := func(w time.Duration, song string, pos ...int) c13Step {
		args := []string{song}
		for _, p := range pos {
			args = append(args, strconv.Itoa(p))
		}
		return c13Step{w, "queue", args}
	}
	c := func(w time.Duration, cmd string, args ...string) c13Step { return c13Step{w, cmd, args} }
	base := srvCfg{rate: 4, chunk: 4, nan: 1, startDelay: 2 * time.Second, delay: 5 * time.Second}
	odd := srvCfg{rate: 3, chunk: 2, nan: 0, startDelay: time.Second, delay: 3 * time.Second} // 666.666666 ms
	short := srvCfg{rate: 2, chunk: 4, nan: 2, startDelay: 0, delay: time.Second}             // delay below the chunk time
	var scs []mc.Scenario
	add := func(name string, sc c13Scn, bound int, thorough bool) {
		scs = append(scs, mc.Scenario{Name: name, Setup: setupSongs, Body: sc.body, MaxBound: bound, Thorough: thorough, MaxSteps: 60000})
	}
	add("empty", c13Scn{cfg: base, chunks: 3}, mc.Pick(2, 3), false)
	add("empty_odd", c13Scn{cfg: odd, chunks: 4}, mc.Pick(2, 3), false)
	add("empty_short_delay", c13Scn{cfg: short, chunks: 3}, mc.Pick(2, 3), false)
	add("songs", c13Scn{cfg: base, chunks: 4, steps: []c13Step{c(0, "resume"), q(0, "a3.mp3"), q(0, "c5.mp3")}}, mc.Pick(2, 4), false)
	add("songs_odd", c13Scn{cfg: odd, chunks: 6, steps: []c13Step{c(0, "resume"), q(0, "a3.mp3"), q(0, "b2.mp3")}}, mc.Pick(2, 4), false)
	add("songs_short_delay", c13Scn{cfg: short, chunks: 3, steps: []c13Step{c(0, "resume"), q(0, "c5.mp3")}}, mc.Pick(2, 4), false)
	add("pause_between", c13Scn{cfg: base, chunks: 4, steps: []c13Step{q(0, "l99.mp3"), c(0, "resume"), c(3*time.Second, "pause"), c(time.Second, "resume")}}, mc.Pick(2, 4), false)
	add("jump_at_chunk", c13Scn{cfg: base, chunks: 4, steps: []c13Step{c(0, "resume"), q(0, "l99.mp3"), q(0, "a3.mp3"), c(4*time.Second, "jump", "1")}}, mc.Pick(2, 4), false)
	add("blocked", c13Scn{cfg: base, chunks: 3, steps: []c13Step{c(0, "resume"), q(0, "l99.mp3")}, stall: int64(5 * time.Second), stallN: 6}, mc.Pick(2, 4), false)
	add("blocked_short", c13Scn{cfg: base, chunks: 4, steps: []c13Step{c(0, "resume"), q(0, "l99.mp3")}, stall: int64(1500 * time.Millisecond), stallN: 5}, mc.Pick(2, 4), false)
	for i, cfg := range []srvCfg{base, odd, short} {
		add(fmt.Sprint("slow_", i), c13Scn{cfg: cfg, chunks: 5, slow: 6, steps: []c13Step{c(0, "resume"), q(0, "a3.mp3"), q(0, "c5.mp3")}}, mc.Pick(2, 4), false)
	}
	add("many_chunks", c13Scn{cfg: base, chunks: 20, steps: []c13Step{c(0, "resume"), q(0, "a3.mp3"), q(0, "c5.mp3")}}, mc.Pick(0, 1), false)
	mc.Main(t, scs)
}
