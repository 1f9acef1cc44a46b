package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
	mono "github.com/LogicalOverflow/music-sync/zzmc/fakemono"
	fakemp3 "github.com/LogicalOverflow/music-sync/zzmc/fakemp3"
)

// C33 and C34: a whole server and a whole client, each with a clock of its
// own. First the server runs and everything it sends is recorded; then it is
// stopped and the client runs, to which all of that is delivered at the times
// at which it was sent, plus what the network takes.

const ms = int64(time.Millisecond)

var songIDs = map[string]int{"a.mp3": 1, "b.mp3": 2, "c.mp3": 3}
var songLens = map[string]int{"a.mp3": 23, "b.mp3": 14, "c.mp3": 90}
var songNames = []string{"", "a.mp3", "b.mp3", "c.mp3"}

func writeSongs() {
	ssh.VerifCommands()
	if playback.AudioDir != "" {
		return
	}
	d, err := os.MkdirTemp("", "songs")
	if err != nil {
		panic(err)
	}
	playback.AudioDir = d
	for n, l := range songLens {
		fakemp3.Write(filepath.Join(d, n), songIDs[n], l, 0)
	}
}

// sent is a message the server sent, at a time of its clock.
type sent struct {
	at int64
	m  proto.Message
}

// recorder is the network of the server.
type recorder struct {
	sh   mc.Shared
	sent []sent
}

func (r *recorder) SendMessage(m proto.Message) error {
	r.sh.Access("send")
	r.sent = append(r.sent, sent{timing.GetRawTime(), proto.Clone(m)})
	return nil
}

// sample is one sample of the stream, due at a time of the server's clock.
type sample struct {
	at        int64
	index     uint64
	low, high float64
}

func (s sample) silent() bool { return math.IsNaN(s.low) || math.IsNaN(s.high) }

func (s sample) String() string {
	if s.silent() {
		return "silence"
	}
	id, k, ok := fakemp3.What(s.low, s.high)
	if !ok {
		return fmt.Sprintf("?%v/%v", s.low, s.high)
	}
	return fmt.Sprintf("%s+%d", songNames[id], k)
}

// act is something a user does.
type act struct {
	at   int64
	name string
	args []string
}

type cfg struct {
	rate, chunk, nan int
	cycles           int
	cycleDelay       int64
	interval         int64 // of the time-sync rounds, if not forever
	delay            int64 // StreamDelay
	length           int64 // how long the server runs
	acts             func() []act
}

func (c cfg) period() int64 { return int64(time.Second) / int64(c.rate) }

// recorded is what a server did.
type recorded struct {
	cfg
	begin  int64
	sent   []sent // broadcasts
	join   int64  // when a client subscribed
	joined []sent // what it was sent then
	volume float64
}

// record runs a server; at join a client subscribes to a channel.
func record(c cfg, join int64, ch comm.Channel) recorded {
	mc.Blur(true)
	mono.Skew = 0
	fakemp3.Reset()
	ssh.VerifCommands()
	timing.ResetOffsets(1)
	timing.UpdateOffset(0, 0, 0, 0)
	timing.ResetOffsets(0)
	schedule.SampleRate, schedule.StreamChunkSize, schedule.NanBreakSize = c.rate, c.chunk, c.nan
	schedule.StreamChunkTime = time.Duration(c.chunk) * time.Second / time.Duration(c.rate)
	schedule.StreamStartDelay, schedule.StreamDelay = 50*time.Millisecond, time.Duration(c.delay)
	schedule.TimeSyncCycles, schedule.TimeSyncCycleDelay, schedule.TimeSyncInterval = c.cycles, time.Duration(c.cycleDelay), 10*time.Minute
	if c.interval != 0 {
		schedule.TimeSyncInterval = time.Duration(c.interval)
	}
	acts := c.acts()
	r := recorded{cfg: c, begin: timing.GetRawTime(), join: join, volume: .1}
	net := &recorder{}
	schedule.Server(net)
	handler, cmds := comm.NewClientHandler, ssh.VerifCommands()
	joined := false
	subscribe := func() {
		one := &recorder{}
		handler(ch, one)
		r.joined, joined = one.sent, true
	}
	for _, a := range acts {
		if !joined && join < a.at {
			mc.SleepNs(r.begin + join - timing.GetRawTime())
			subscribe()
		}
		if d := r.begin + a.at - timing.GetRawTime(); d > 0 {
			mc.SleepNs(d)
		}
		_, ok := cmds[a.name].Exec(a.args)
		mc.Assert(ok, "command", "%s %v is refused", a.name, a.args)
	}
	if !joined {
		if d := r.begin + join - timing.GetRawTime(); d > 0 {
			mc.SleepNs(d)
		}
		subscribe()
	}
	if d := r.begin + c.length - timing.GetRawTime(); d > 0 {
		mc.SleepNs(d)
	}
	mc.Quiesce()
	mc.Freeze()
	r.sent = net.sent
	for i := range r.sent {
		r.sent[i].at -= r.begin
	}
	for i := range r.joined {
		r.joined[i].at = join
	}
	return r
}

// stream is what the server wants to be heard from its clock being from on.
func (r recorded) stream() (all []sample) {
	for _, s := range r.sent {
		q, ok := s.m.(*comm.QueueChunkRequest)
		if !ok {
			continue
		}
		for i := range q.SampleLow {
			all = append(all, sample{q.StartTime - r.begin + int64(i)*int64(time.Second)/int64(r.rate), q.FirstSampleIndex + uint64(i), q.SampleLow[i], q.SampleHigh[i]})
		}
	}
	for i := 1; i < len(all); i++ {
		mc.Assert(all[i].index == all[i-1].index+1, "stream", "sample %d follows sample %d", all[i].index, all[i-1].index)
	}
	return
}

// link connects a client to the recorded server. The client starts at start
// on the server's clock; its own clock is ahead by skew; messages take up and
// down.
type link struct {
	recorded
	ch       comm.Channel
	skew     int64
	up, down int64
	jitter   func(n int) (up, down int64) // of the n-th time-sync request, instead
	stall    [2]int64                     // nothing arrives from here to there, but all at once then
	reqs     int
	handle   func(proto.Message)
	inbox    []proto.Message // what has arrived at the client
	sh       mc.Shared
	subs     int
	subAt    int64 // when the server was told
	heardAt  int64 // when the client got the first
	late     bool
	off      int64 // of the server's clock from the clock of this execution
}

// begin begins the life of the client.
func (l *link) beginAt(start int64) {
	l.off = start - mc.NowNs()
	mono.Skew = l.off + l.skew
	timing.ResetOffsets(1)
	timing.UpdateOffset(0, 0, 0, 0)
	timing.ResetOffsets(0)
}

// now is the time of the server since it was started.
func (l *link) now() int64 { return mc.NowNs() + l.off }

func (l *link) until(t int64) {
	if d := t - l.now(); d > 0 {
		mc.SleepNs(d)
	}
}

// serverClock is what the server's clock shows.
func (l *link) serverClock() int64 { return l.begin + l.now() }

// SendMessage sends to the server.
func (l *link) SendMessage(m proto.Message) error {
	switch m := m.(type) {
	case *comm.TimeSyncRequest:
		stamp := m.ClientSend
		up, down := l.up, l.down
		if l.jitter != nil {
			up, down = l.jitter(l.reqs)
		}
		l.reqs++
		mc.GoNamed("answer", func() {
			mc.SleepNs(up)
			t := l.serverClock()
			mc.SleepNs(down)
			l.arrive(&comm.TimeSyncResponse{ClientSendTime: stamp, ServerRecvTime: t, ServerSendTime: t})
		})
	case *comm.SubscribeChannelRequest:
		mc.Assert(m.Channel == l.ch, "channel", "subscribes to %v", m.Channel)
		mc.GoNamed("server", func() {
			mc.SleepNs(l.up)
			l.sh.Access("subscribe")
			l.subs++
			if l.late = l.now() > l.join; !l.late {
				l.until(l.join)
			}
			l.subAt = l.now()
			for _, s := range l.joined {
				l.until(l.subAt + l.down)
				l.arrive(s.m)
			}
			for _, s := range l.sent {
				if s.at < l.subAt || !entitled(l.ch, s.m) {
					continue
				}
				l.until(l.arrival(s.at))
				l.arrive(s.m)
			}
		})
	default:
		mc.Fail("message", "the client sends %v", m)
	}
	return nil
}

func (l *link) arrive(m proto.Message) {
	l.sh.Access("arrive")
	l.inbox = append(l.inbox, m)
}

// receive hands over what arrives, one after the other.
func (l *link) receive() {
	mc.GoNamed("connection", func() {
		for {
			l.sh.AccessWhen("receive", func() bool { return len(l.inbox) > 0 })
			m := l.inbox[0]
			l.inbox = l.inbox[1:]
			l.handle(m)
		}
	})
}

// arrival is when what the server sends at a time reaches the client.
func (l *link) arrival(at int64) int64 {
	at += l.down
	if l.stall[0] <= at && at < l.stall[1] {
		return l.stall[1]
	}
	return at
}

func entitled(ch comm.Channel, m proto.Message) bool {
	switch m.(type) {
	case *comm.QueueChunkRequest:
		return ch == comm.Channel_AUDIO
	case *comm.SetVolumeRequest:
		return true
	}
	return ch == comm.Channel_META
}
