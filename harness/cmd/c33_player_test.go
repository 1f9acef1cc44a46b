package main

import (
	"fmt"
	"testing"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
	oto "github.com/LogicalOverflow/music-sync/zzmc/fakeoto"
)

// C33: whatever its clock, whenever it joins, a player plays what the server
// wants to be heard when it wants it to be heard.

type frame struct {
	at          int64 // of the server's clock
	left, right int16
	written     int64 // when it was handed over
}

type playCase struct {
	cfg
	join   []int64 // when the server is told that the player wants the audio, at the earliest
	lead   []int64 // how long before it is started
	skews  []int64
	delays [][2]int64
	focus  [2]int64 // all schedules from here to there (of the server's clock)
	drift  int64    // parts per million by which the device is slow
	stalls [][2]int64
	jitter [][]int64 // sequences of how long time-sync requests and their answers take
}

func (l *link) play(start int64, focus [2]int64, drift int64) (frames []frame) {
	per := l.period() + l.period()*drift/1000000
	oto.Period = per
	oto.OnWrite = func(buf []byte) {
		t := l.now()
		for i := 0; i+3 < len(buf); i += 4 {
			frames = append(frames, frame{t + int64(i/4)*per, int16(buf[i]) | int16(buf[i+1])<<8, int16(buf[i+2]) | int16(buf[i+3])<<8, t})
		}
	}
	l.beginAt(start)
	h := newPlayerPackageHandler()
	l.handle = func(m proto.Message) { h.Handle(m, nil) }
	l.receive()
	schedule.Player(l)
	if focus[0] < focus[1] {
		l.until(focus[0])
		mc.Blur(false)
		l.until(focus[1])
		mc.Blur(true)
	}
	l.until(l.length - 200*ms)
	oto.OnWrite = nil
	return
}

func level(x, volume float64) int { return int(x * volume * 32768) }

func near(a int16, b int) bool { return int(a)-b <= 1 && b-int(a) <= 1 }

func (f frame) is(s sample, volume float64) bool {
	if s.silent() {
		return f.left == 0 && f.right == 0
	}
	return near(f.left, level(s.low, volume)) && near(f.right, level(s.high, volume))
}

func (f frame) name(all []sample, volumes []float64) string {
	if f.left == 0 && f.right == 0 {
		return "silence"
	}
	for _, v := range volumes {
		for _, s := range all {
			if f.is(s, v) {
				return s.String()
			}
		}
	}
	return "noise"
}

// volumes are those that may have been in effect when something was handed over.
func (l *link) volumes(at int64) (vs []float64) {
	vs = []float64{.1}
	set := func(from int64, v float64) {
		if from < at {
			vs = []float64{v}
		} else if from == at {
			vs = append(vs, v)
		}
	}
	for _, s := range l.joined {
		if m, ok := s.m.(*comm.SetVolumeRequest); ok {
			set(l.subAt+l.down, m.Volume)
		}
	}
	for _, s := range l.sent {
		if m, ok := s.m.(*comm.SetVolumeRequest); ok && l.subAt <= s.at {
			set(l.arrival(s.at), m.Volume)
		}
	}
	return
}

func max64(a, b int64) int64 {
	if a < b {
		return b
	}
	return a
}

func abs64(a int64) int64 { return max64(a, -a) }

func (pc playCase) body() {
	c := pc.cfg
	join := pc.join[mc.Choose(len(pc.join))]
	r := record(c, join, comm.Channel_AUDIO)
	all := r.stream()
	l := &link{recorded: r, ch: comm.Channel_AUDIO}
	l.skew = pc.skews[mc.Choose(len(pc.skews))]
	d := pc.delays[mc.Choose(len(pc.delays))]
	l.up, l.down = d[0], d[1]
	asym := abs64(l.up - l.down)
	if len(pc.jitter) > 0 {
		j := pc.jitter[mc.Choose(len(pc.jitter))]
		l.jitter = func(n int) (int64, int64) { return j[2*n%len(j)], j[(2*n+1)%len(j)] }
		asym = 0
		for i := 0; i < len(j); i += 2 {
			asym = max64(asym, abs64(j[i]-j[i+1]))
		}
	}
	if len(pc.stalls) > 0 {
		l.stall = pc.stalls[mc.Choose(len(pc.stalls))]
	}
	start := join - l.up - pc.lead[mc.Choose(len(pc.lead))]
	frames := l.play(start, pc.focus, pc.drift)
	mc.Assert(l.subs == 1, "subscribe", "the player subscribes %d times", l.subs)

	tol := l.period() + asym/2 + 2000
	if pc.drift != 0 {
		tol += l.period()
	}
	// the first chunk it gets
	first := int64(-1)
	for _, s := range r.sent {
		if q, ok := s.m.(*comm.QueueChunkRequest); ok && l.subAt <= s.at {
			first = q.StartTime - r.begin
			break
		}
	}
	mc.Assert(first >= 0, "stream", "no chunk is sent after %d ms", l.subAt/ms)
	played, low := 0, 0
	for _, f := range frames {
		if f.at < first-tol {
			mc.Assert(f.left == 0 && f.right == 0, "early", "at %.1f ms the player plays %s, although the first samples it got are due at %.1f ms", float64(f.at)/1e6, f.name(all, l.volumes(f.written)), float64(first)/1e6)
			continue
		}
		if f.at < first+tol {
			continue
		}
		for low < len(all) && all[low].at < f.at-tol {
			low++
		}
		mc.Assert(low < len(all), "stream", "the stream ends before %d ms", f.at/ms)
		ok := false
		vs := l.volumes(f.written)
		for i := low; i < len(all) && all[i].at <= f.at+tol; i++ {
			for _, v := range vs {
				ok = ok || f.is(all[i], v)
			}
		}
		mc.Assert(ok, "sync", "at %.1f ms the player plays %s (%d/%d) instead of %s at %v (clock ahead by %d ms, network %d/%d ms, subscribed at %.1f ms)", float64(f.at)/1e6, f.name(all, vs), f.left, f.right, all[low], vs, l.skew/ms, l.up/ms, l.down/ms, float64(l.subAt)/1e6)
		if f.left != 0 {
			played++
		}
	}
	// long enough to have been heard
	heard := 0
	for _, s := range all {
		if first+tol < s.at && s.at < frames[len(frames)-1].at-tol && !s.silent() {
			heard++
		}
	}
	slack := 2 + 2*int(tol/l.period())
	mc.Assert(heard-slack <= played && played <= heard+slack, "heard", "%d samples are played, %d are in the stream", played, heard)
	mc.Outcome(fmt.Sprint(played, l.skew, l.up, l.down, l.subAt))
}

func do(at int64, name string, args ...string) act { return act{at, name, args} }

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	queue := []act{do(0, "queue", "a.mp3"), do(0, "queue", "b.mp3"), do(0, "resume")}
	with := func(acts ...act) func() []act {
		return func() []act { return append(append([]act{}, queue...), acts...) }
	}
	base := cfg{rate: 50, chunk: 10, nan: 5, cycles: 8, cycleDelay: 25 * ms, delay: 600 * ms, length: 4000 * ms, acts: with()}
	clocks := []int64{0, 400 * ms, 500 * ms, 550 * ms, 590 * ms, 5000 * ms, -400 * ms, -5000 * ms, 3600 * 1000 * ms}
	some := []int64{-5000 * ms, 590 * ms, 3600 * 1000 * ms}
	nets := [][2]int64{{1 * ms, 1 * ms}, {40 * ms, 40 * ms}, {1 * ms, 41 * ms}, {120 * ms, 5 * ms}}
	joins := []int64{0, 55 * ms, 300 * ms, 449 * ms, 640 * ms, 777 * ms, 1500 * ms}
	times := func(from, step, n int64) func() int64 {
		return func() int64 { return from + step*int64(mc.Choose(int(n))) }
	}
	changed := func(f func(*cfg)) cfg {
		r := base
		f(&r)
		return r
	}
	commands := func(f func() []act) cfg { return changed(func(c *cfg) { c.acts = f }) }
	scn := func(name string, pc playCase) mc.Scenario {
		return mc.Scenario{Name: name, Setup: writeSongs, MaxSteps: 400000, Body: pc.body}
	}
	at := times(30*ms, int64(mc.Pick(70, 30))*ms, int64(mc.Pick(30, 70)))
	gap := times(10*ms, int64(mc.Pick(150, 60))*ms, int64(mc.Pick(7, 17)))
	mc.Main(t, []mc.Scenario{
		scn("join", playCase{cfg: base, join: joins, lead: []int64{0, 1000 * ms}, skews: clocks, delays: nets}),
		scn("pause", playCase{cfg: commands(func() []act {
			p := at()
			return append(with()(), do(p, "pause"), do(p+gap(), "resume"))
		}), join: []int64{55 * ms, 900 * ms}, lead: []int64{0}, skews: some, delays: nets[1:2]}),
		scn("jump", playCase{cfg: commands(func() []act {
			return append(with()(), do(at(), "jump", []string{"0", "1"}[mc.Choose(2)]))
		}), join: []int64{55 * ms, 900 * ms}, lead: []int64{0}, skews: some, delays: nets[1:2]}),
		scn("edit", playCase{cfg: commands(func() []act {
			p := at()
			return append(with()(), do(p, "queue", "c.mp3", "1"), do(p+gap(), "remove", "0"))
		}), join: []int64{55 * ms, 900 * ms}, lead: []int64{0}, skews: some[:1], delays: nets[1:2]}),
		scn("volume", playCase{cfg: commands(func() []act {
			p := at()
			return append(with()(), do(p, "volume", "0.2"), do(p+gap(), "volume", "0.02"), do(p+600*ms, "volume", "0.05"))
		}), join: []int64{55 * ms, 900 * ms}, lead: []int64{0}, skews: some[:1], delays: nets[1:2]}),
		scn("late_resume", playCase{cfg: changed(func(c *cfg) {
			c.acts = func() []act { return []act{queue[0], queue[1], do(at(), "resume")} }
		}), join: []int64{55 * ms}, lead: []int64{0}, skews: some, delays: nets}),
		scn("rate96", playCase{cfg: changed(func(c *cfg) { c.rate, c.chunk = 96, 24 }), join: joins, lead: []int64{0}, skews: some, delays: nets[:3]}),
		scn("rate70", playCase{cfg: changed(func(c *cfg) { c.rate, c.chunk = 70, 14 }), join: joins, lead: []int64{0}, skews: some, delays: nets[:3]}),
		scn("no_break", playCase{cfg: changed(func(c *cfg) { c.nan = 0 }), join: joins, lead: []int64{0}, skews: some, delays: nets}),
		scn("slow_device", playCase{cfg: changed(func(c *cfg) { c.length = 6000 * ms }), join: joins, lead: []int64{0}, skews: some, delays: nets, drift: 20000}),
		scn("fast_device", playCase{cfg: changed(func(c *cfg) { c.length = 6000 * ms }), join: joins, lead: []int64{0}, skews: some, delays: nets, drift: -20000}),
		scn("jitter", playCase{cfg: base, join: joins[1:3], lead: []int64{0}, skews: some, delays: nets[:1], jitter: jitters([]int64{1 * ms, 30 * ms})}),
		scn("resync", playCase{cfg: changed(func(c *cfg) { c.interval, c.length = 700*ms, 6000*ms }), join: joins[:4], lead: []int64{0}, skews: clocks, delays: nets[1:]}),
		scn("resync_jitter", playCase{cfg: changed(func(c *cfg) { c.interval, c.cycles = 420*ms, 5 }), join: joins[1:3], lead: []int64{0}, skews: some, delays: nets[:1], jitter: jitters([]int64{1 * ms, 30 * ms})}),
		// a chunk is longer than what the player keeps ready
		scn("long_chunks", playCase{cfg: changed(func(c *cfg) { c.chunk, c.delay, c.interval, c.length, c.cycles = 120, 5400*ms, 1100*ms, 16000*ms, 2 }), join: []int64{30 * ms, 2000 * ms}, lead: []int64{0}, skews: some, delays: nets}),
		scn("long_chunks_stall", playCase{cfg: changed(func(c *cfg) { c.chunk, c.delay, c.interval, c.length, c.cycles = 120, 7800*ms, 1100*ms, 18000*ms, 2 }), join: []int64{30 * ms}, lead: []int64{0}, skews: some, delays: nets[:1], stalls: [][2]int64{{2400 * ms, 5000 * ms}, {4500 * ms, 7500 * ms}, {7000 * ms, 9700 * ms}}}),
		scn("stall", playCase{cfg: base, join: []int64{55 * ms}, lead: []int64{0}, skews: some[:1], delays: nets[:1], stalls: [][2]int64{{800 * ms, 1200 * ms}, {900 * ms, 1150 * ms}, {1000 * ms, 1449 * ms}, {1240 * ms, 1660 * ms}}}),
		scn("stall_any_order", playCase{cfg: base, join: []int64{55 * ms}, lead: []int64{0}, skews: some[:1], delays: nets[:1], stalls: [][2]int64{{840 * ms, 1260 * ms}}, focus: [2]int64{1259 * ms, 1263 * ms}}),
		scn("begin_any_order", playCase{cfg: base, join: []int64{249 * ms}, lead: []int64{0}, skews: some[:1], delays: nets[:1], focus: [2]int64{440 * ms, 460 * ms}}),
	})
}

// jitters are all sequences of two measurements.
func jitters(of []int64) (r [][]int64) {
	for _, a := range of {
		for _, b := range of {
			for _, c := range of {
				for _, d := range of {
					r = append(r, []int64{a, b, c, d})
				}
			}
		}
	}
	return
}
