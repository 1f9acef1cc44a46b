package main

import (
	"fmt"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
	fakemp3 "github.com/LogicalOverflow/music-sync/zzmc/fakemp3"
)

// C34: whatever its clock, whenever it joins, an info client shows what the
// server wants to be heard.

// heard is what is to be heard at a sample of the stream.
type heard struct {
	kind string // "nothing", "song", "paused", "over"
	song string
	nth  int // of the songs that have started
	pos  int // in the song
}

func hear(all []sample) []heard {
	r := make([]heard, len(all))
	last := heard{kind: "nothing"}
	for i, s := range all {
		if s.silent() {
			r[i] = last
			if last.kind == "song" {
				r[i].kind = "over"
			}
			continue
		}
		id, k, ok := fakemp3.What(s.low, s.high)
		mc.Assert(ok, "stream", "sample %d is %v/%v", s.index, s.low, s.high)
		h := heard{"song", songNames[id], last.nth, k}
		if last.kind == "nothing" || last.song != h.song || k != last.pos+1 {
			h.nth++
		} else {
			for j := i - 1; j >= 0 && r[j].kind == "over"; j-- {
				r[j].kind, r[j].pos = "paused", k
			}
		}
		r[i], last = h, h
	}
	// how it goes on after the end is not known
	for i := len(r) - 1; i >= 0 && r[i].kind != "song"; i-- {
		r[i].kind = "?"
	}
	return r
}

type infoCase struct {
	cfg
	join   []int64
	skews  []int64
	delays [][2]int64
	stalls [][2]int64
	looks  int64 // once in how many samples the display is refreshed
}

func (ic infoCase) body() {
	join := ic.join[mc.Choose(len(ic.join))]
	r := record(ic.cfg, join, comm.Channel_META)
	all := r.stream()
	hs := hear(all)
	l := &link{recorded: r, ch: comm.Channel_META}
	l.skew = ic.skews[mc.Choose(len(ic.skews))]
	d := ic.delays[mc.Choose(len(ic.delays))]
	l.up, l.down = d[0], d[1]
	if len(ic.stalls) > 0 {
		l.stall = ic.stalls[mc.Choose(len(ic.stalls))]
	}
	known := uint64(0) // from here on it is told everything
	for _, s := range r.joined {
		if m, ok := s.m.(*comm.NewSongInfo); ok {
			known = m.FirstSampleOfSongIndex
		}
	}
	asym := l.up - l.down
	if asym < 0 {
		asym = -asym
	}
	per := r.period()
	tol := 1 + int(asym/2/per) + 1

	currentState = &state{Songs: make([]upcomingSong, 0), Chunks: make([]upcomingChunk, 0)}
	l.beginAt(join - l.up - 500*ms)
	h := newInfoerPackageHandler()
	l.handle = func(m proto.Message) { h.Handle(m, nil) }
	l.receive()
	schedule.Infoer(l)
	l.until(join + l.down + 5*ms)
	mc.Assert(l.subs == 1 && !l.late, "subscribe", "500 ms after the start of the info client it has subscribed %d times", l.subs)
	first := int64(-1) // when it is told which part of the stream is when
	for _, s := range l.sent {
		if _, ok := s.m.(*comm.ChunkInfo); ok && l.subAt <= s.at && first < 0 {
			first = l.arrival(s.at)
		}
	}
	shown := 0
	for i := range all {
		at := all[i].at + per/2
		if at < l.now() || l.length-200*ms < at || (ic.looks > 1 && int64(i)%ic.looks != 0) {
			continue
		}
		l.until(at)
		if l.stall[0] < at && at < l.stall[1]+5*ms {
			continue // it can not know
		}
		info := currentState.Info(timing.GetSyncedTime())
		if all[i].index <= known || at <= first {
			continue
		}
		same := true
		for j := i - tol; j <= i+tol; j++ {
			same = same && j >= 0 && j < len(hs) && hs[j].kind == hs[i].kind && hs[j].nth == hs[i].nth
		}
		if !same {
			continue
		}
		where := fmt.Sprintf("at sample %d (%.1f ms): the display shows %s of %s, %s, %s of %s (clock ahead by %d ms, network %d/%d ms, subscribed at %d ms)", all[i].index, float64(at)/1e6, info.TimeInSong, info.CurrentSong.filename, info.playingString(), info.TimeInSong, info.SongLength, l.skew/ms, l.up/ms, l.down/ms, join/ms)
		pos := int64(info.TimeInSong)
		near := func(k int) bool {
			return int64(k-tol)*per <= pos && pos <= int64(k+tol)*per
		}
		begun := !info.Playing && near(0) // a song, but not a sample of it yet
		switch w := hs[i]; w.kind {
		case "nothing":
			mc.Assert(info.CurrentSong.filename == "None" || begun, "song", "%s; nothing is played", where)
		case "song", "paused":
			mc.Assert(info.CurrentSong.filename == w.song, "song", "%s; %s is played", where, w.song)
			mc.Assert(info.Playing == (w.kind == "song"), "playing", "%s; sample %d of %s (%s) is played", where, w.pos, w.song, w.kind)
			mc.Assert(near(w.pos), "position", "%s; sample %d of %s (%s) is played", where, w.pos, w.song, w.kind)
			want := time.Duration(songLens[w.song]) * time.Second / time.Duration(r.rate)
			mc.Assert(info.SongLength == want, "length", "%s; it takes %s", where, want)
			shown++
		case "over":
			mc.Assert(info.CurrentSong.filename == w.song || begun, "song", "%s; %s is over", where, w.song)
		}
		want, tie := .1, false
		for _, s := range append(append([]sent{}, l.joined...), l.sent...) {
			if m, ok := s.m.(*comm.SetVolumeRequest); ok && s.at >= join {
				tie = tie || l.arrival(s.at) == at
				if l.arrival(s.at) < at {
					want = m.Volume
				}
			}
		}
		mc.Assert(tie || info.Volume == want, "volume", "%s; the volume shown is %v instead of %v", where, info.Volume, want)
	}
	mc.Outcome(fmt.Sprint(shown, l.skew, l.up, l.down, join))
}

func do(at int64, name string, args ...string) act { return act{at, name, args} }

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	queue := []act{do(0, "queue", "a.mp3"), do(0, "queue", "b.mp3"), do(0, "resume")}
	with := func(acts ...act) func() []act {
		return func() []act { return append(append([]act{}, queue...), acts...) }
	}
	base := cfg{rate: 50, chunk: 10, nan: 5, cycles: 8, cycleDelay: 25 * ms, delay: 600 * ms, length: 4000 * ms, acts: with()}
	clocks := []int64{0, 400 * ms, 590 * ms, 5000 * ms, -400 * ms, -5000 * ms, 3600 * 1000 * ms}
	nets := [][2]int64{{1 * ms, 1 * ms}, {40 * ms, 40 * ms}, {1 * ms, 61 * ms}, {120 * ms, 5 * ms}}
	joins := []int64{0, 55 * ms, 300 * ms, 449 * ms, 640 * ms, 777 * ms, 1500 * ms, 2100 * ms, 2750 * ms}
	times := func(from, step, n int64) func() int64 {
		return func() int64 { return from + step*int64(mc.Choose(int(n))) }
	}
	changed := func(f func(*cfg)) cfg {
		r := base
		f(&r)
		return r
	}
	commands := func(f func() []act) cfg { return changed(func(c *cfg) { c.acts = f }) }
	scn := func(name string, ic infoCase) mc.Scenario {
		return mc.Scenario{Name: name, Setup: writeSongs, MaxSteps: 400000, Body: ic.body}
	}
	at := times(30*ms, int64(mc.Pick(70, 30))*ms, int64(mc.Pick(30, 70)))
	gap := times(10*ms, int64(mc.Pick(150, 60))*ms, int64(mc.Pick(7, 17)))
	scns := []mc.Scenario{
		scn("join", infoCase{cfg: base, join: joins, skews: clocks, delays: nets}),
		scn("rarely", infoCase{cfg: base, join: joins, skews: clocks[:2], delays: nets[:1], looks: 17}),
		scn("pause", infoCase{cfg: commands(func() []act {
			p := at()
			return append(with()(), do(p, "pause"), do(p+gap(), "resume"))
		}), join: joins, skews: clocks[3:4], delays: nets[1:2]}),
		scn("jump", infoCase{cfg: commands(func() []act {
			return append(with()(), do(at(), "jump", []string{"0", "1"}[mc.Choose(2)]))
		}), join: joins[2:], skews: clocks[3:4], delays: nets[1:2]}),
		scn("jump_while_paused", infoCase{cfg: commands(func() []act {
			p := at()
			return append(with()(), do(p, "pause"), do(p+110*ms, "jump", "1"), do(p+110*ms+gap(), "resume"))
		}), join: joins[2:7], skews: clocks[3:4], delays: nets[1:2]}),
		scn("edit", infoCase{cfg: commands(func() []act {
			p := at()
			return append(with()(), do(p, "queue", "c.mp3", "1"), do(p+gap(), "remove", "0"))
		}), join: []int64{55 * ms, 900 * ms}, skews: clocks[3:4], delays: nets[1:2]}),
		scn("volume", infoCase{cfg: commands(func() []act {
			p := at()
			return append(with()(), do(p, "volume", "0.2"), do(p+gap(), "volume", "0"), do(p+600*ms, "volume", "0.05"))
		}), join: joins, skews: clocks[3:4], delays: nets[1:2]}),
		scn("late_resume", infoCase{cfg: changed(func(c *cfg) {
			c.acts = func() []act { return []act{queue[0], queue[1], do(at(), "resume")} }
		}), join: joins, skews: clocks[3:4], delays: nets[:2]}),
		scn("rate96", infoCase{cfg: changed(func(c *cfg) { c.rate, c.chunk = 96, 24 }), join: joins, skews: clocks[2:5], delays: nets[:3]}),
		scn("rate70", infoCase{cfg: changed(func(c *cfg) { c.rate, c.chunk = 70, 14 }), join: joins, skews: clocks[2:5], delays: nets[:3]}),
		scn("no_break", infoCase{cfg: changed(func(c *cfg) { c.nan = 0 }), join: joins, skews: clocks[2:5], delays: nets}),
		scn("stall", infoCase{cfg: base, join: []int64{55 * ms}, skews: clocks[3:4], delays: nets[:1], stalls: [][2]int64{{800 * ms, 1200 * ms}, {900 * ms, 1150 * ms}, {1000 * ms, 1449 * ms}, {1240 * ms, 1660 * ms}, {1300 * ms, 2000 * ms}}}),
		scn("resync", infoCase{cfg: changed(func(c *cfg) { c.interval = 700 * ms }), join: joins, skews: clocks, delays: nets}),
	}
	for k, j := range []int64{0, 300 * ms, 900 * ms, 1600 * ms, 2400 * ms, 3100 * ms} {
		scns = append(scns, scn(fmt.Sprint("pauses", k), infoCase{cfg: changed(func(c *cfg) {
			c.length = 4600 * ms
			c.acts = func() []act {
				p := at()
				q := p + gap()
				return append(with()(), do(p, "pause"), do(q, "resume"), do(q+250*ms, "pause"), do(q+250*ms+gap(), "resume"))
			}
		}), join: []int64{j}, skews: clocks[3:4], delays: nets[1:2], looks: 2}))
	}
	mc.Main(t, scns)
}
