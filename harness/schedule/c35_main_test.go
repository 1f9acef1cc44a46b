package schedule

import (
	"fmt"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/timing"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
	fakemp3 "github.com/LogicalOverflow/music-sync/zzmc/fakemp3"
)

// C35: each client receives the chunks in the order in which they are to be
// played. The whole server, with comm's real sender and connections.

type c35Scn struct {
	cfg    srvCfg
	chunks int
	stallN int           // at this read of a song
	stall  time.Duration // the song can not be read for so long
	block  []c35Block    // connections that take nothing for a while
	late   time.Duration // a further client subscribes then
	gone   time.Duration // the first client is gone from then on
	other  bool          // the second one instead
	part   int           // connections take so many bytes at once
	second comm.Channel  // what the second client subscribes to

	focus, focusTo time.Duration // all schedules are explored in between, one before and after; 0: everywhere
}

type c35Block struct {
	client   int
	from, to time.Duration // after streaming begins
}

func (sc c35Scn) leaving() int {
	if sc.other {
		return 1
	}
	return 0
}

func (sc c35Scn) body() {
	mc.Blur(true)
	fakemp3.Reset()
	fakemp3.OnStream = nil
	ssh.VerifCommands()
	timing.ResetOffsets(0)
	SampleRate, StreamChunkSize, NanBreakSize = sc.cfg.rate, sc.cfg.chunk, sc.cfg.nan
	StreamChunkTime, StreamStartDelay, StreamDelay = sc.cfg.chunkTime(), sc.cfg.startDelay, sc.cfg.delay
	l := &nlistener{}
	sender := comm.VerifServer(l, func(f func()) { mc.GoNamed("acceptor", f) })
	begin := timing.GetSyncedTime() + int64(sc.cfg.startDelay)
	until := func(t time.Duration) { mc.SleepNs(begin + int64(t) - timing.GetSyncedTime()) }
	Server(sender)
	cmds := ssh.VerifCommands()
	n := 0
	if sc.stall > 0 {
		fakemp3.OnStream = func() {
			if n++; n == sc.stallN {
				mc.SleepNs(int64(sc.stall))
			}
		}
	}
	clients := []*nconn{l.join("first", comm.Channel_AUDIO), l.join("second", sc.second)}
	mc.Quiesce()
	cmds["resume"].Exec(nil)
	cmds["queue"].Exec([]string{"l99.mp3"})
	mc.Quiesce()
	for _, c := range clients {
		c.part = sc.part
	}
	for _, b := range sc.block {
		b, c := b, clients[b.client]
		c.full = func() bool {
			t := time.Duration(timing.GetSyncedTime() - begin)
			return b.from <= t && t < b.to
		}
		mc.GoNamed("wake", func() { // the connection's buffer is emptied
			until(b.to)
			c.sh.Access("emptied")
		})
	}
	if sc.late > 0 {
		mc.GoNamed("late", func() {
			until(sc.late)
			clients = append(clients, l.join("late", comm.Channel_AUDIO))
		})
	}
	if sc.gone > 0 {
		mc.GoNamed("gone", func() {
			until(sc.gone)
			c := clients[sc.leaving()]
			c.sh.Access("gone")
			c.eof, c.closed = true, true
		})
	}
	if sc.focusTo > 0 {
		until(sc.focus)
		mc.Blur(false)
		until(sc.focusTo)
		mc.Quiesce()
		mc.Blur(true)
	} else {
		mc.Blur(false)
	}
	ct := int64(sc.cfg.chunkTime())
	chunks := sc.chunks + int((int64(sc.stall)+ct-1)/ct)
	mc.SleepNs(begin + int64(chunks)*ct - ct/2 - timing.GetSyncedTime())
	mc.Quiesce()
	out := ""
	for i, c := range clients {
		starts := []int64{} // in units of the chunk time
		for _, m := range c.got() {
			switch q := m.(type) {
			case *comm.QueueChunkRequest:
				starts = append(starts, (q.StartTime-begin-int64(sc.cfg.delay))/ct)
				mc.Assert(q.ChunkId == starts[len(starts)-1], "id", "chunk %d starts at %d", q.ChunkId, q.StartTime)
			case *comm.ChunkInfo:
				starts = append(starts, (q.StartTime-begin-int64(sc.cfg.delay))/ct)
			}
		}
		out += fmt.Sprintln(starts)
		for k := 1; k < len(starts); k++ {
			mc.Assert(starts[k] == starts[k-1]+1, "order", "the %s client was sent the chunks %v", c.name, starts)
		}
		if i == sc.leaving() && sc.gone > 0 {
			continue
		}
		mc.Assert(len(starts) > 0, "none", "the %s client was sent no chunk", c.name)
		if i < 2 {
			mc.Assert(starts[0] == 0, "first", "the %s client was sent the chunks %v", c.name, starts)
		}
		last, stalled := int64(chunks-1), false
		for _, b := range sc.block {
			stalled = stalled || clients[b.client] == c && b.to > time.Duration(chunks)*sc.cfg.chunkTime()
		}
		if !stalled {
			mc.Assert(starts[len(starts)-1] == last, "last", "the %s client was sent the chunks %v of %d", c.name, starts, chunks)
		}
	}
	mc.Outcome(out)
}

func TestMC(t *testing.T) {
	setupSongs()
	base := srvCfg{rate: 4, chunk: 4, nan: 1, startDelay: 2 * time.Second, delay: 5 * time.Second}
	var scs []mc.Scenario
	add := func(name string, sc c35Scn, bound int) {
		scs = append(scs, mc.Scenario{Name: name, Setup: setupSongs, Body: sc.body, MaxBound: bound, MaxSteps: 60000})
	}
	ms := time.Millisecond
	stalled := func(i int, from, to time.Duration) []c35Block { return []c35Block{{i, from, to}} }
	add("regular", c35Scn{cfg: base, chunks: 3, focus: 500 * ms, focusTo: 2500 * ms}, mc.Pick(2, 4))
	add("slow_song", c35Scn{cfg: base, chunks: 5, stall: 5 * time.Second, stallN: 6, focus: 7500 * ms, focusTo: 8500 * ms}, mc.Pick(2, 4))
	add("slow_client", c35Scn{cfg: base, chunks: 5, block: stalled(0, 500*ms, 3500*ms), focus: 2500 * ms, focusTo: 3700 * ms}, mc.Pick(2, 4))
	add("slow_client_two", c35Scn{cfg: base, chunks: 4, block: stalled(0, 500*ms, 2500*ms), focus: 500 * ms, focusTo: 2700 * ms}, mc.Pick(2, 4))
	add("slow_infoer", c35Scn{cfg: base, chunks: 5, second: comm.Channel_META, block: stalled(1, 500*ms, 3500*ms), focus: 2500 * ms, focusTo: 3700 * ms}, mc.Pick(2, 4))
	add("at_a_chunk", c35Scn{cfg: base, chunks: 5, block: stalled(0, 500*ms, 3000*ms), focus: 2500 * ms, focusTo: 3700 * ms}, mc.Pick(2, 4))
	add("never_reads", c35Scn{cfg: base, chunks: 4, block: stalled(0, 500*ms, 3500*time.Second), focus: 500 * ms, focusTo: 2700 * ms}, mc.Pick(2, 4))
	add("both_slow", c35Scn{cfg: base, chunks: 6, block: append(stalled(0, 500*ms, 2500*ms), c35Block{1, 1500 * ms, 3500 * ms}), focus: 1700 * ms, focusTo: 3700 * ms}, mc.Pick(1, 4))
	add("song_and_client", c35Scn{cfg: base, chunks: 5, stall: 5 * time.Second, stallN: 6, block: stalled(0, 500*ms, 8500*ms), focus: 7500 * ms, focusTo: 8700 * ms}, mc.Pick(1, 4))
	add("bytes", c35Scn{cfg: base, chunks: 4, part: 60, block: stalled(0, 500*ms, 2500*ms), focus: 2200 * ms, focusTo: 2700 * ms}, mc.Pick(1, 4))
	add("late", c35Scn{cfg: base, chunks: 4, late: 2 * time.Second, focus: 1500 * ms, focusTo: 2500 * ms}, mc.Pick(2, 4))
	add("late_in_burst", c35Scn{cfg: base, chunks: 5, stall: 5 * time.Second, stallN: 6, late: 8 * time.Second, focus: 7500 * ms, focusTo: 8500 * ms}, mc.Pick(2, 4))
	add("gone", c35Scn{cfg: base, chunks: 5, block: stalled(0, 500*ms, 3500*ms), gone: 3500 * ms, focus: 2500 * ms, focusTo: 3700 * ms}, mc.Pick(2, 4))
	add("gone_stalled", c35Scn{cfg: base, chunks: 5, block: stalled(0, 500*ms, 3500*time.Second), gone: 3 * time.Second, focus: 2500 * ms, focusTo: 3700 * ms}, mc.Pick(2, 4))
	add("gone_other", c35Scn{cfg: base, chunks: 5, block: stalled(0, 500*ms, 3500*ms), gone: 2200 * ms, other: true, focus: 1800 * ms, focusTo: 3700 * ms}, mc.Pick(1, 4))
	add("gone_other_late", c35Scn{cfg: base, chunks: 5, block: stalled(0, 500*ms, 3500*ms), gone: 3500 * ms, other: true, focus: 2500 * ms, focusTo: 3700 * ms}, mc.Pick(1, 4))
	add("everything", c35Scn{cfg: base, chunks: 3}, mc.Pick(1, 3))
	mc.Main(t, scs)
}
