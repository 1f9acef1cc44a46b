package playback

import (
	"context"
	"fmt"
	"testing"

	"github.com/faiface/beep"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C15: chunks received by a player become correctly timed samples, none lost.

func c15Sample(chunk, i int) [2]float64 {
	return [2]float64{float64(chunk) + float64(i)/64, -float64(chunk) - float64(i)/64 - .001}
}

func c15Start(chunk int) int64 { return int64(chunk)*1000000007 + 5 }

func c15Chunk(chunk, n int) [][2]float64 {
	r := make([][2]float64, n)
	for i := range r {
		r[i] = c15Sample(chunk, i)
	}
	return r
}

type c15Spec struct {
	name     string
	rate     int // the queue holds 2*rate samples
	queuers  [][]int
	reads    [][]int // sizes of consumer's bursts (per consumer one goroutine; only one may be used)
	spare    int     // samples left unread
	thorough bool
}

var c15Hist mc.History

func c15Body(sp c15Spec) func() {
	return func() {
		format = beep.Format{SampleRate: beep.SampleRate(sp.rate), NumChannels: 2, Precision: 2}
		initStreamer()
		mc.GoNamed("readchunks", func() { streamer.ReadChunks(context.Background()) })
		sizes := map[int]int{}
		total := 0
		for q, ns := range sp.queuers {
			q, ns := q, ns
			for i, n := range ns {
				sizes[1+q*8+i] = n
				total += n
			}
			mc.GoNamed(fmt.Sprintf("receiver%d", q), func() {
				for i, n := range ns {
					c := 1 + q*8 + i
					op := c15Hist.Begin("queue", c)
					QueueChunk(c15Start(c), int64(c), c15Chunk(c, n))
					c15Hist.End(op, nil)
				}
			})
		}
		type got struct {
			s [2]float64
			t int64
		}
		out := []got{}
		read := func() {
			s, t := streamer.samples.Remove()
			out = append(out, got{s, t})
		}
		for i := 0; i < total-sp.spare; i++ {
			read() // a deadlock here is a lost sample
		}
		mc.Quiesce()
		ops := c15Hist.Current()
		for _, o := range ops {
			// chunks wait for room in the queue for as long as nobody listens
			mc.Assert(o.Ret >= 0 || sp.spare > 0, "blocked", "chunk %v is never accepted although everything was played", o.In)
		}
		// cut the output into chunks
		order := []int{}
		for i := 0; i < len(out); {
			c := int(out[i].s[0])
			n, ok := sizes[c]
			mc.Assert(ok, "garbled", "sample %d is from no chunk: %v", i, out)
			order = append(order, c)
			for k := 0; k < n && i < len(out); k, i = k+1, i+1 {
				mc.Assert(out[i].s == c15Sample(c, k), "order", "sample %d is not sample %d of chunk %d: %v", i, k, c, out)
				want := c15Start(c) + int64(k)*1000000000/int64(sp.rate)
				mc.Assert(out[i].t-want <= 1 && want-out[i].t <= 1, "time", "sample %d of chunk %d is timed %d, its time is %d", k, c, out[i].t, want)
			}
		}
		mc.Outcome(order)
		pos := map[int]int{}
		for i, c := range order {
			_, twice := pos[c]
			mc.Assert(!twice, "twice", "chunk %d is played twice: %v", c, order)
			pos[c] = i
		}
		if sp.spare == 0 {
			for c, n := range sizes {
				_, ok := pos[c]
				mc.Assert(ok || n == 0, "lost", "chunk %d is never played: %v", c, order)
			}
			mc.Assert(streamer.samples.Len() == 0, "extra", "%d more samples than received", streamer.samples.Len())
		}
		for _, a := range ops {
			for _, b := range ops {
				if a.Ret >= 0 && a.Ret < b.Call {
					pa, oka := pos[a.In.(int)]
					pb, okb := pos[b.In.(int)]
					mc.Assert(!oka || !okb || pa < pb, "chunk-order", "chunk %v was accepted before chunk %v and is played after it", a.In, b.In)
					mc.Assert(oka || !okb || sizes[a.In.(int)] == 0, "chunk-order", "chunk %v was accepted before chunk %v, only the latter is played", a.In, b.In)
				}
			}
		}
	}
}

// chunks that arrive before playback is ready
func c15Early() {
	streamer = nil
	QueueChunk(c15Start(1), 1, c15Chunk(1, 3))
	mc.Assert(streamer == nil, "early", "a chunk that arrives early sets up playback")
	format = beep.Format{SampleRate: 4, NumChannels: 2, Precision: 2}
	late := mc.GoNamed("receiver", func() { QueueChunk(c15Start(2), 2, c15Chunk(2, 2)) })
	initStreamer()
	mc.GoNamed("readchunks", func() { streamer.ReadChunks(context.Background()) })
	mc.Join(late)
	QueueChunk(c15Start(3), 3, c15Chunk(3, 3))
	seq := []int{}
	for {
		s, _ := streamer.samples.Remove()
		seq = append(seq, int(s[0]))
		if s == c15Sample(3, 2) {
			break
		}
	}
	mc.Quiesce()
	mc.Outcome(seq)
	ok := fmt.Sprint(seq) == "[3 3 3]" || fmt.Sprint(seq) == "[2 2 3 3 3]"
	mc.Assert(ok && streamer.samples.Len() == 0, "early", "samples played are of chunks %v", seq)
}

func TestMC(t *testing.T) {
	specs := []c15Spec{
		{name: "one", rate: 4, queuers: [][]int{{3, 5, 2}}},
		{name: "one_small_queue", rate: 1, queuers: [][]int{{3, 5, 2, 4}}},
		{name: "two", rate: 2, queuers: [][]int{{3, 2}, {2, 4}}},
		{name: "two_small_queue", rate: 1, queuers: [][]int{{3, 2}, {4}}},
		{name: "empty_chunks", rate: 2, queuers: [][]int{{0, 2, 0}, {0, 1}}},
		{name: "three", rate: 1, queuers: [][]int{{2}, {3}, {1}}},
		{name: "unread", rate: 1, queuers: [][]int{{3, 1}, {2}}, spare: 3},
		{name: "rate3", rate: 3, queuers: [][]int{{7, 4, 5}, {3}}},
		{name: "rate44100", rate: 44100, queuers: [][]int{{7, 4}, {3}}},
		{name: "two_long", rate: 1, queuers: [][]int{{3, 2, 3, 1}, {4, 1, 0, 2}}, thorough: true},
		{name: "three_long", rate: 2, queuers: [][]int{{2, 1}, {3, 1}, {1, 2}}, thorough: true},
		{name: "four", rate: 1, queuers: [][]int{{2}, {3}, {1}, {2}}, thorough: true},
	}
	scs := []mc.Scenario{{Name: "early", Body: c15Early}}
	for _, sp := range specs {
		scs = append(scs, mc.Scenario{Name: sp.name, Body: c15Body(sp), Thorough: sp.thorough, MaxSteps: 8000, Horizon: 20e9})
	}
	mc.Main(t, scs)
}
