package schedule

import (
	"errors"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
	"github.com/LogicalOverflow/music-sync/zzmc/fakeoto"
)

// C32: a client that connects is synchronised and subscribed, then kept in
// sync.

const ms = int64(time.Millisecond)

type c32Req struct{ at, stamp int64 }

// c32Server is the connection to a server whose clock is off by offset.
type c32Server struct {
	sh     mc.Shared
	reqs   []c32Req
	subs   []comm.Channel
	other  []proto.Message
	fail   func(n int) bool  // does sending the n-th request fail?
	block  func(n int) int64 // how long does sending it take?
	offset int64             // 0: requests are not answered
	delay  int64             // of request and answer
}

func (s *c32Server) SendMessage(m proto.Message) error {
	s.sh.Access("send")
	switch m := m.(type) {
	case *comm.TimeSyncRequest:
		n := len(s.reqs)
		s.reqs = append(s.reqs, c32Req{timing.GetRawTime(), m.ClientSend})
		if s.block != nil {
			if d := s.block(n); d > 0 {
				mc.SleepNs(d)
			}
		}
		if s.fail != nil && s.fail(n) {
			return errors.New("broken connection")
		}
		if s.offset != 0 {
			stamp := m.ClientSend
			mc.GoNamed("answer", func() {
				mc.SleepNs(s.delay)
				t := timing.GetRawTime() + s.offset
				mc.SleepNs(s.delay)
				timing.UpdateOffset(stamp, t, t, timing.GetRawTime())
			})
		}
	case *comm.SubscribeChannelRequest:
		s.subs = append(s.subs, m.Channel)
	default:
		s.other = append(s.other, m)
	}
	return nil
}

type c32Scn struct {
	cycles          int
	delay, interval int64
	rounds          int   // rounds watched
	fail            int   // 0: nothing fails, 1: one of the requests, 2: any of them, 3: all
	block           int64 // one send takes so long
	offset          int64
}

func (sc c32Scn) body(start func(comm.MessageSender), want comm.Channel) func() {
	return func() {
		TimeSyncCycles, TimeSyncCycleDelay, TimeSyncInterval = sc.cycles, time.Duration(sc.delay), time.Duration(sc.interval)
		SampleRate = 20
		oto.Period = 1000 * 1000 * ms // one buffer lasts longer than any scenario
		timing.ResetOffsets(1)
		timing.UpdateOffset(0, 0, 0, 0)
		timing.ResetOffsets(0)
		s := &c32Server{offset: sc.offset, delay: ms}
		switch sc.fail {
		case 1:
			k := mc.Choose(sc.cycles * 2)
			s.fail = func(n int) bool { return n == k }
		case 2:
			bits := mc.Choose(1 << uint(sc.cycles+1))
			s.fail = func(n int) bool { return bits>>uint(n)&1 == 1 }
		case 3:
			s.fail = func(int) bool { return true }
		}
		slow := -1
		if sc.block > 0 {
			slow = mc.Choose(sc.cycles + 1)
			s.block = func(n int) int64 {
				if n == slow {
					return sc.block
				}
				return 0
			}
		}
		begin := timing.GetRawTime()
		mc.GoNamed("client", func() { start(s) })
		round := int64(sc.cycles) * sc.delay
		mc.SleepNs(int64(sc.rounds)*(sc.interval+round+sc.block) + ms/2)
		mc.Quiesce()

		mc.Assert(len(s.subs) == 1 && s.subs[0] == want, "subscribe", "subscribed to %v", s.subs)
		mc.Assert(len(s.other) == 0, "other", "sent %v", s.other)
		mc.Assert(len(s.reqs) >= sc.rounds*sc.cycles, "rounds", "%d requests were sent in the time of %d rounds of %d", len(s.reqs), sc.rounds, sc.cycles)
		for n, r := range s.reqs {
			mc.Assert(r.stamp == r.at, "stamp", "request %d sent at %d says %d", n, r.at-begin, r.stamp-begin)
			if n == 0 {
				mc.Assert(r.at == begin, "late", "the first request is sent after %v", time.Duration(r.at-begin))
				continue
			}
			gap := r.at - s.reqs[n-1].at
			extra := int64(0)
			if n-1 == slow {
				extra = sc.block
			}
			if n%sc.cycles != 0 {
				mc.Assert(gap == sc.delay+extra, "spacing", "request %d follows after %v instead of %v", n, time.Duration(gap), time.Duration(sc.delay+extra))
				continue
			}
			// a new round: one interval after the previous one began, or
			// ended if it was the first
			first := s.reqs[n-sc.cycles].at
			d := r.at - first
			took := s.reqs[n-1].at + extra + sc.delay - first
			lo, hi := sc.interval, sc.interval+took
			if lo < took {
				lo = took
			}
			if n/sc.cycles > 1 && slow >= 0 { // catching up after a slow round
				lo -= sc.block
			}
			mc.Assert(lo <= d && d <= hi, "interval", "round %d begins %v after the previous one", n/sc.cycles, time.Duration(d))
		}
		if sc.offset != 0 {
			got := timing.GetSyncedTime() - timing.GetRawTime()
			mc.Assert(got == sc.offset, "offset", "the client's clock is set off by %d instead of %d", got, sc.offset)
		}
		mc.Outcome(len(s.reqs))
	}
}

func TestMC(t *testing.T) {
	var scs []mc.Scenario
	for _, cl := range []struct {
		name  string
		start func(comm.MessageSender)
		ch    comm.Channel
	}{{"player", Player, comm.Channel_AUDIO}, {"infoer", Infoer, comm.Channel_META}} {
		add := func(name string, bound int, sc c32Scn) {
			scs = append(scs, mc.Scenario{Name: cl.name + "_" + name, Body: sc.body(cl.start, cl.ch), MaxBound: bound, MaxSteps: 60000})
		}
		add("plain", mc.Pick(2, 4), c32Scn{cycles: 3, delay: 5 * ms, interval: 40 * ms, rounds: 3})
		add("answered", mc.Pick(1, 2), c32Scn{cycles: 2, delay: 5 * ms, interval: 20 * ms, rounds: 2, offset: 12345})
		add("answered_negative", mc.Pick(1, 2), c32Scn{cycles: 2, delay: 5 * ms, interval: 20 * ms, rounds: 1, offset: -777})
		add("one_failing", mc.Pick(1, 2), c32Scn{cycles: 3, delay: 5 * ms, interval: 40 * ms, rounds: 3, fail: 1})
		add("some_failing", mc.Pick(1, 2), c32Scn{cycles: 3, delay: 5 * ms, interval: 40 * ms, rounds: 2, fail: 2})
		add("all_failing", mc.Pick(2, 3), c32Scn{cycles: 2, delay: 5 * ms, interval: 20 * ms, rounds: 3, fail: 3})
		add("slow_send", mc.Pick(1, 2), c32Scn{cycles: 3, delay: 5 * ms, interval: 40 * ms, rounds: 3, block: 30 * ms})
		add("one_cycle", mc.Pick(2, 3), c32Scn{cycles: 1, delay: 5 * ms, interval: 10 * ms, rounds: 4})
		add("interval_below_round", mc.Pick(1, 2), c32Scn{cycles: 4, delay: 10 * ms, interval: 25 * ms, rounds: 3})
		add("no_delay", mc.Pick(2, 3), c32Scn{cycles: 2, delay: 0, interval: 15 * ms, rounds: 3})
	}
	mc.Main(t, scs)
}
