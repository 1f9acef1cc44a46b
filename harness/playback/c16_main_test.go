package playback

import (
	"encoding/binary"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/faiface/beep"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
	fakemono "github.com/LogicalOverflow/music-sync/zzmc/fakemono"
	fakeoto "github.com/LogicalOverflow/music-sync/zzmc/fakeoto"
)

// C16: playback starts each run of samples at its scheduled time.

type c16Slot struct {
	t   int64 // when the device plays it
	run int   // -1: silence
	k   int
}

type c16Run struct {
	start int64
	n     int
	from  int64 // earliest time from which the player can know about it
	n1    int   // if positive: samples from n1 on are known from from2 only
	from2 int64
}

func (r c16Run) known(k int) int64 {
	if 0 < r.n1 && r.n1 <= k {
		return r.from2
	}
	return r.from
}

// c16Judge compares what was output with what was scheduled.
func c16Judge(fail func(sig, f string, a ...interface{}), runs []c16Run, out []c16Slot, rate int) {
	period := int64(1000000000) / int64(rate)
	eps := int64(16) // rounding of durations to nanoseconds
	if 1000000000%rate == 0 {
		eps = 0
	}
	at := func(r, k int) int64 { return runs[r].start + int64(k)*1000000000/int64(rate) }
	pos := 0 // index of the first slot not used up
	// playable: a free slot begins no later than t and lasts beyond it
	playable := func(from, t int64) bool {
		for i := pos; i < len(out); i++ {
			if s := out[i]; s.t >= from && s.t+eps <= t && t+eps < s.t+period {
				return true
			}
		}
		return false
	}
	for r, run := range runs {
		first := -1
		for i := pos; i < len(out); i++ {
			if out[i].run == r {
				first = i
				break
			}
			if out[i].run > r {
				break
			}
			if out[i].run >= 0 {
				fail("order", "run %d is output again", out[i].run)
			}
		}
		if pos >= len(out) {
			return
		}
		free := out[pos].t
		if run.from > free {
			free = run.from
		}
		if first < 0 {
			// all of it must be too late already, or not due yet
			for k := 0; k < run.n; k++ {
				if t := at(r, k); playable(run.known(k), t) {
					fail("dropped", "sample %d of run %d, scheduled at %d, is never output; the player was free at %d", k, r, t-out[0].t, free-out[0].t)
				}
			}
			// while it waited for them, the player was not free for a later run
			for pos < len(out) && out[pos].t+eps < at(r, run.n-1) {
				pos++
			}
			continue
		}
		f := out[first].k
		if d := out[first].t - at(r, f); d > period+eps || -d > period+eps {
			fail("misaligned", "run %d starts with sample %d at %d, scheduled at %d", r, f, out[first].t-out[0].t, at(r, f)-out[0].t)
		}
		if f > 0 && playable(run.known(f-1), at(r, f-1)) {
			fail("dropped", "run %d starts with sample %d although sample %d was not too late at %d", r, f, f-1, free-out[0].t)
		}
		i := first
		for k := f; k < run.n && i < len(out); k, i = k+1, i+1 {
			if out[i].run != r || out[i].k != k {
				fail("gap", "after sample %d of run %d comes sample %d of run %d", k-1, r, out[i].k, out[i].run)
			}
		}
		pos = i
	}
	for i := pos; i < len(out); i++ {
		if out[i].run >= 0 {
			fail("order", "run %d is output again", out[i].run)
		}
	}
}

func c16Sample(r, k int) [2]float64 {
	return [2]float64{float64(r+1) + float64(k)/64, -float64(r+1) - float64(k)/64}
}

func c16What(s [2]float64) (r, k int, ok bool) {
	if s == [2]float64{} {
		return -1, 0, true
	}
	r = int(s[0]) - 1
	k = int(math.Round((s[0] - float64(r+1)) * 64))
	return r, k, c16Sample(r, k) == s
}

type c16Case struct {
	rate, buf int
	first     int64 // start of the first run relative to the first call, ns
	lens      []int
	gaps      []int   // silence markers between the runs
	shift     []int64 // by how much later than the markers last the next run starts
	jitter    int64
	prefix    int // silence markers before the first run
}

func c16Eval(e *mc.E, c c16Case) {
	const t0 = int64(1e15)
	now := t0
	fakemono.Fixed = func() int64 { return now }
	format = beep.Format{SampleRate: beep.SampleRate(c.rate), NumChannels: 2, Precision: 2}
	dur := func(n int) int64 { return int64(n) * 1000000000 / int64(c.rate) }
	nan := [2]float64{math.NaN(), math.NaN()}
	total := 64
	initStreamer()
	streamer.samples = newTimedSampleQueue(1024)
	runs := []c16Run{}
	t := t0 + c.first - dur(c.prefix)
	for i := 0; i < c.prefix; i++ {
		streamer.samples.Add(nan, t+dur(i))
	}
	t = t0 + c.first
	for r, n := range c.lens {
		if r > 0 {
			for i := 0; i < c.gaps[r-1]; i++ {
				streamer.samples.Add(nan, t+dur(i))
			}
			t += dur(c.gaps[r-1]) + c.shift[r-1]
		}
		runs = append(runs, c16Run{start: t, n: n})
		for k := 0; k < n; k++ {
			streamer.samples.Add(c16Sample(r, k), t+dur(k))
		}
		t += dur(n)
	}
	for i := 0; i < 6; i++ {
		streamer.samples.Add(nan, t+dur(i))
	}
	// far in the future, so that the player always knows what comes next
	streamer.samples.Add(c16Sample(9, 0), t0+1e14)
	out := []c16Slot{}
	for call := 0; len(out) < total; call++ {
		buf := make([][2]float64, c.buf)
		for i := range buf {
			buf[i] = [2]float64{99, 99}
		}
		now = t0 + dur(call*c.buf)
		switch call % 3 {
		case 1:
			now += c.jitter
		case 2:
			now -= c.jitter
		}
		at := now
		streamer.Stream(buf)
		for i, s := range buf {
			r, k, ok := c16What(s)
			e.Assert(ok, "altered", "output sample %d is %v", len(out), s)
			out = append(out, c16Slot{at + dur(i), r, k})
		}
		e.Step(1)
	}
	c16Judge(e.Fail, runs, out, c.rate)
	e.DistinctH(mc.Hash(out))
	e.State(fmt.Sprint(len(c.lens), c.buf, c.lens, c.gaps))
}

func c16Enum(rates []int, bufs, lens []int, nRuns int) func(e *mc.E) {
	return func(e *mc.E) {
		e.Rule(fmt.Sprintf("players with rates %v and device buffers of %v samples fed with %d runs of %v samples, first run due from long past to far ahead in thirds of a sample, breaks of 1, 2 or 5 markers, next run early, on time or late; distinct: output sequences with their times", rates, bufs, nRuns, lens))
		idx := 0
		for _, rate := range rates {
			p := int64(1000000000) / int64(rate)
			firsts := []int64{}
			for i := int64(-20); i <= 30; i++ {
				firsts = append(firsts, i*p/3, i*p/3+1)
			}
			shifts := []int64{0, -p, -p / 2, p / 3, p, 2*p + p/2, -4 * p, 9 * p}
			for _, buf := range bufs {
				for _, first := range firsts {
					var rec func(c c16Case)
					rec = func(c c16Case) {
						if len(c.lens) == nRuns {
							idx++
							if !e.Mine(idx) {
								return
							}
							cc := c
							e.Case(func() string { return fmt.Sprintf("%+v", cc) })
							e.Timeout(20*time.Second, "Stream", func() { c16Eval(e, cc) })
							return
						}
						for _, n := range lens {
							d := c
							d.lens = append(append([]int{}, c.lens...), n)
							if len(c.lens) == 0 {
								rec(d)
								continue
							}
							for _, g := range []int{1, 2, 5} {
								for _, s := range shifts {
									d.gaps = append(append([]int{}, c.gaps...), g)
									d.shift = append(append([]int64{}, c.shift...), s)
									rec(d)
								}
							}
						}
					}
					for _, j := range []int64{0, p / 4} {
						for _, pre := range []int{0, 2} {
							rec(c16Case{rate: rate, buf: buf, first: first, jitter: j, prefix: pre})
						}
					}
				}
			}
		}
	}
}

// runs due hours, days or years ahead (the client does not know the offset of
// the server's clock yet, or the server is far ahead): silence until they are
// due, then they play in time
func c16Far(e *mc.E) {
	const t0 = int64(1e15)
	rates := []int{1, 3, 7, 10, 200, 8000, 11025, 22050, 44100, 48000, 96000, 192000}
	aheads := []int64{1e9, 6e10, 36e11, 4 * 36e11, 13 * 36e11, 14 * 36e11, 24 * 36e11, 26 * 36e11, 27 * 36e11, 53 * 36e11, 54 * 36e11, 58 * 36e11, 59 * 36e11, 81 * 36e11, 116 * 36e11, 117 * 36e11, 232 * 36e11, 300 * 36e11, 1000 * 36e11, 8760 * 36e11, 1e17, 87600 * 36e11, 1e18, 4e18, 9e18}
	e.Rule(fmt.Sprintf("players with rates %v and device buffers of 1, 2, 5 and 512 samples, a run of 1 or 20 samples due %v ns ahead, shifted by up to 3 seconds in steps of 2/7 second, the device called at once and around the time the run is due; distinct: first non-silent outputs with their times", rates, aheads))
	idx := 0
	for _, rate := range rates {
		period := int64(1000000000) / int64(rate)
		for _, buf := range []int{1, 2, 5, 512} {
			for _, ahead := range aheads {
				for shift := int64(-21); shift <= 21; shift += 2 {
					for _, n := range []int{1, 20} {
						rate, buf, n := rate, buf, n
						first := ahead + shift*(1000000000/7)
						idx++
						if !e.Mine(idx) || first < period*int64(2*buf+4) {
							continue
						}
						e.Case(func() string {
							return fmt.Sprintf("rate %d, buffer %d, run of %d samples due %d ns ahead", rate, buf, n, first)
						})
						e.Timeout(20*time.Second, "Stream", func() {
							now := t0
							fakemono.Fixed = func() int64 { return now }
							format = beep.Format{SampleRate: beep.SampleRate(rate), NumChannels: 2, Precision: 2}
							dur := func(n int) int64 { return int64(n) * 1000000000 / int64(rate) }
							initStreamer()
							streamer.samples = newTimedSampleQueue(1024)
							for k := 0; k < n; k++ {
								streamer.samples.Add(c16Sample(0, k), t0+first+dur(k))
							}
							for i := 0; i < 6; i++ {
								streamer.samples.Add([2]float64{math.NaN(), math.NaN()}, t0+first+dur(n+i))
							}
							streamer.samples.Add([2]float64{.5, .5}, t0+first+dur(n+6)+4e16)
							call := func() []c16Slot {
								b := make([][2]float64, buf)
								for i := range b {
									b[i] = [2]float64{99, 99}
								}
								streamer.Stream(b)
								e.Step(1)
								out := []c16Slot{}
								for i, s := range b {
									r, k, ok := c16What(s)
									e.Assert(ok, "altered", "output sample %d is %v", i, s)
									out = append(out, c16Slot{now + dur(i), r, k})
								}
								return out
							}
							for i := 0; i < 2; i++ {
								for _, s := range call() {
									e.Assert(s.run < 0, "early", "sample %d is output %d ns after the start", s.k, s.t-t0)
								}
								now += dur(buf)
							}
							now = t0 + first - dur(buf) - period/2
							out := []c16Slot{}
							for len(out) < buf+n+2 {
								out = append(out, call()...)
								now += dur(buf)
							}
							c16Judge(e.Fail, []c16Run{{start: t0 + first, n: n}}, out, rate)
							e.DistinctH(mc.Hash(out))
							e.State(fmt.Sprint(rate, buf, ahead, n))
						})
					}
				}
			}
		}
	}
}

// the whole player in virtual time: device, chunk reader, chunks arriving late
func c16Live(arrivals, starts []int64, gaps []int, lens []int) func() {
	return func() {
		const rate = 200 // 5 ms per sample, 20 samples per device buffer
		const period = int64(5e6)
		streamer = nil
		base := mc.NowNs()
		out := []c16Slot{}
		fakeoto.OnWrite = func(buf []byte) {
			for i := 0; i+3 < len(buf); i += 4 {
				v := int16(binary.LittleEndian.Uint16(buf[i:]))
				s := c16Slot{t: mc.Now() + int64(i/4)*period, run: -1}
				if v != 0 {
					s.run, s.k = int(v)/100-1, int(v)%100-1
				}
				out = append(out, s)
			}
		}
		val := func(r, k int) [2]float64 {
			v := (float64((r+1)*100+k+1) + .25) / 32768
			return [2]float64{v, v}
		}
		if err := Init(rate); err != nil {
			mc.Fail("init", "%v", err)
		}
		SetVolume(1)
		arrive := arrivals[mc.Choose(len(arrivals))]
		start := starts[mc.Choose(len(starts))]
		n := lens[mc.Choose(len(lens))]
		gap := gaps[mc.Choose(len(gaps))]
		mc.SleepNs(arrive)
		t := base + arrive + start
		runs := []c16Run{{start: t, n: n, from: base + arrive + 2e6}}
		chunk := [][2]float64{}
		for k := 0; k < n; k++ {
			chunk = append(chunk, val(0, k))
		}
		nan := [2]float64{math.NaN(), math.NaN()}
		for i := 0; i < gap; i++ {
			chunk = append(chunk, nan)
		}
		QueueChunk(t, 0, chunk)
		// the second chunk follows the first without a gap in time
		mc.SleepNs(10e6)
		t2 := t + int64(len(chunk))*period
		c2 := [][2]float64{}
		n2 := 5
		if gap == 0 {
			for k := 0; k < n2; k++ {
				c2 = append(c2, val(0, n+k))
			}
			runs[0].n1 = n
			runs[0].from2 = mc.NowNs() + 2e6
			runs[0].n += n2
		} else {
			for k := 0; k < n2; k++ {
				c2 = append(c2, val(1, k))
			}
			runs = append(runs, c16Run{start: t2, n: n2, from: mc.NowNs() + 2e6})
		}
		for i := 0; i < 60; i++ {
			c2 = append(c2, nan)
		}
		QueueChunk(t2, 1, c2)
		mc.SleepNs(t2 + int64(n2)*period + 250e6 - mc.NowNs())
		// a run is known from the first device buffer begun after its arrival
		known := func(from int64) int64 {
			for _, s := range out {
				if s.t >= from {
					return s.t + 20*period
				}
			}
			return from
		}
		for i := range runs {
			runs[i].from = known(runs[i].from)
			runs[i].from2 = known(runs[i].from2)
		}
		mc.Outcome(fmt.Sprint(arrive, start, n, gap))
		mc.Assert(len(out) > 0 && out[len(out)-1].t+40*period >= mc.Now(), "no-output", "the device was given %d samples only", len(out))
		c16Judge(func(sig, f string, a ...interface{}) {
			mc.Fail(sig, "arrival %d start %d n %d gap %d: "+f+"\n%v", append(append([]interface{}{arrive, start, n, gap}, a...), out)...)
		}, runs, out, rate)
	}
}

func TestMC(t *testing.T) {
	scs := []mc.Scenario{
		{Name: "aligned1", Enum: c16Enum([]int{10, 3, 44100, 48000}, []int{1, 2, 3, 4, 7, 16}, []int{1, 2, 3, 6, 20}, 1), Shards: 2},
		{Name: "aligned2", Enum: c16Enum([]int{10, 44100}, []int{1, 2, 3}, []int{1, 3, 9}, 2), Shards: 8},
		{Name: "aligned3", Enum: c16Enum([]int{7}, []int{1, 3, 4}, []int{1, 4}, 3), Shards: 16, Thorough: true},
		{Name: "far", Enum: c16Far, Shards: 4},
		{Name: "live", Body: c16Live([]int64{0, 6e6, 130e6}, []int64{-81e6, -16e6, -2e6, 0, 2e6, 18e6, 90e6, 101e6, 128e6, 222e6}, []int{0, 1, 3, 8}, []int{1, 4, 7}), MaxSteps: 60000, Horizon: 4e9, MaxBound: 1},
	}
	mc.Main(t, scs)
}
