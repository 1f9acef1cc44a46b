package comm

import (
	"fmt"
	"net"
	"strings"
	"testing"

	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C04: a broadcast reaches exactly the connected, entitled clients, once each
// - whatever happens at the same time.

type c04Act struct {
	what string // join, leave, sub, cast
	c    int
	ch   Channel
	m    proto.Message
}

type c04Spec struct {
	name     string
	joined   []int // already joined clients
	subs     map[int][]Channel
	stalled  []int
	broken   []int
	threads  [][]c04Act
	release  bool // stalled clients are disconnected in the end
	thorough bool
}

var c04Hist mc.History

func c04Body(sp c04Spec) func() {
	return func() {
		conns := []*fconn{}
		for i := 0; i < 4; i++ {
			conns = append(conns, &fconn{name: fmt.Sprintf("client%d", i)})
		}
		for _, i := range sp.stalled {
			conns[i].stall = true
		}
		for _, i := range sp.broken {
			conns[i].broken = true
		}
		mms := &multiMessageSender{connections: []net.Conn{}, channels: map[net.Conn][]Channel{}}
		for _, i := range sp.joined {
			mms.AddConn(conns[i])
			for _, ch := range sp.subs[i] {
				mms.Subscribe(conns[i], ch)
			}
		}
		hs := []*mc.Handle{}
		hasStalled := len(sp.stalled) > 0
		stalledOp := map[*mc.LinOp]bool{}
		for ti, acts := range sp.threads {
			acts := acts
			hs = append(hs, mc.GoNamed(fmt.Sprintf("activity%d", ti), func() {
				for _, a := range acts {
					op := c04Hist.Begin(a.what, a)
					var err error
					switch a.what {
					case "join":
						mms.AddConn(conns[a.c])
					case "leave":
						mms.DelConn(conns[a.c])
					case "sub":
						mms.Subscribe(conns[a.c], a.ch)
					case "cast":
						err = mms.SendMessage(a.m)
					}
					c04Hist.End(op, err)
				}
			}))
		}
		mc.Quiesce()
		ops := c04Hist.Current()
		if hasStalled {
			// only broadcasts to the stalled client may still be waiting
			for _, op := range ops {
				if op.Ret < 0 {
					mc.Assert(op.Name == "cast", "blocked", "%v is blocked by a client that does not read", op)
					stalledOp[op] = true
				}
			}
			for i, h := range hs {
				mc.Assert(h.Done() || c04Pending(ops, sp.threads[i]), "blocked", "activity %d is blocked", i)
			}
		} else {
			mc.Join(hs...)
		}
		stalled := map[int]bool{}
		for _, i := range sp.stalled {
			stalled[i] = true
		}
		broken := map[int]bool{}
		for _, i := range sp.broken {
			broken[i] = true
		}
		if sp.release {
			for _, i := range sp.stalled {
				conns[i].Close()
			}
			mc.Join(hs...)
			ops = c04Hist.Current()
		}
		all := []string{}
		for i, c := range conns {
			ms, err := c.got()
			mc.Assert(err == nil, "garbled", "client %d received garbage: %v", i, err)
			got := multiset(keys(ms))
			for _, op := range ops {
				a := op.In.(c04Act)
				if a.what != "cast" {
					continue
				}
				must, may := c04When(sp, ops, op, i)
				n := got[key(a.m)]
				delete(got, key(a.m))
				if stalled[i] || broken[i] {
					mc.Assert(n <= 1, "duplicate", "client %d received %d copies of %v", i, n, a.m)
					if err, _ := op.Out.(error); broken[i] && op.Ret >= 0 {
						named := err != nil && strings.Contains(err.Error(), errBroken.Error())
						mc.Assert(!must || named, "report", "broadcast to the broken client returns %v", err)
						mc.Assert(may || !named, "report", "broadcast fails with %v although the broken client was no receiver", err)
					}
					continue
				}
				mc.Assert(n <= 1, "duplicate", "client %d received %d copies of %v\n%s", i, n, a.m, mc.HistoryString(ops))
				mc.Assert(!must || n == 1, "missed", "client %d did not receive %v\n%s", i, a.m, mc.HistoryString(ops))
				mc.Assert(may || n == 0, "unentitled", "client %d received %v\n%s", i, a.m, mc.HistoryString(ops))
				if n == 1 {
					all = append(all, fmt.Sprintf("%d:%s", i, proto.MessageName(a.m)))
				}
			}
			mc.Assert(len(got) == 0, "invented", "client %d received %q", i, got)
		}
		if len(sp.broken) == 0 && len(sp.stalled) == 0 {
			for _, op := range ops {
				if op.Name == "cast" {
					mc.Assert(op.Out == nil || op.Out.(error) == nil, "report", "%v returns %v", op, op.Out)
				}
			}
		}
		mc.Outcome(all)
	}
}

// c04Pending tells whether the thread with these actions waits in a broadcast.
func c04Pending(ops []*mc.LinOp, acts []c04Act) bool {
	for _, op := range ops {
		if op.Ret < 0 && op.Name == "cast" {
			for _, a := range acts {
				if a.what == "cast" && key(a.m) == key(op.In.(c04Act).m) {
					return true
				}
			}
		}
	}
	return false
}

// c04When tells whether client c must, and whether it may, receive a
// broadcast, given the real-time order of the operations.
func c04When(sp c04Spec, ops []*mc.LinOp, cast *mc.LinOp, c int) (must, may bool) {
	chs, _ := c04Channels(cast.In.(c04Act).m)
	inMust, inMay := false, false
	for _, j := range sp.joined {
		if j == c {
			inMust, inMay = true, true
		}
	}
	subMust, subMay := chs == nil, chs == nil
	for _, s := range sp.subs[c] {
		for _, ch := range chs {
			if s == ch && inMust {
				subMust, subMay = true, true
			}
		}
	}
	before := func(op *mc.LinOp) bool { return op.Ret >= 0 && op.Ret < cast.Call }
	begun := func(op *mc.LinOp) bool { return cast.Ret < 0 || op.Call < cast.Ret }
	leftMust, leftMay := false, false
	for _, op := range ops {
		a := op.In.(c04Act)
		if a.c != c {
			continue
		}
		switch a.what {
		case "join":
			inMust = inMust || before(op)
			inMay = inMay || begun(op)
		case "sub":
			for _, ch := range chs {
				if ch == a.ch {
					subMust = subMust || before(op)
					subMay = subMay || begun(op)
				}
			}
		case "leave":
			leftMust = leftMust || before(op)
			leftMay = leftMay || begun(op)
		}
	}
	return inMust && subMust && !leftMay, inMay && subMay && !leftMust
}

func c04Channels(m proto.Message) ([]Channel, bool) {
	switch m.(type) {
	case *QueueChunkRequest:
		return []Channel{Channel_AUDIO}, true
	case *SetVolumeRequest:
		return []Channel{Channel_AUDIO, Channel_META}, true
	case *ChunkInfo, *NewSongInfo, *PauseInfo:
		return []Channel{Channel_META}, true
	}
	return nil, false
}

func TestMC(t *testing.T) {
	A, M := Channel_AUDIO, Channel_META
	chunk := func(i int64) c04Act { return c04Act{what: "cast", c: -1, m: &QueueChunkRequest{ChunkId: i}} }
	vol := c04Act{what: "cast", c: -1, m: &SetVolumeRequest{Volume: .5}}
	info := c04Act{what: "cast", c: -1, m: &ChunkInfo{ChunkSize: 3}}
	ping := c04Act{what: "cast", c: -1, m: &PingMessage{}}
	join := func(c int) c04Act { return c04Act{what: "join", c: c} }
	leave := func(c int) c04Act { return c04Act{what: "leave", c: c} }
	sub := func(c int, ch Channel) c04Act { return c04Act{what: "sub", c: c, ch: ch} }
	specs := []c04Spec{
		{name: "join_during", joined: []int{0, 1}, subs: map[int][]Channel{0: {A}, 1: {M}}, threads: [][]c04Act{{chunk(1), vol}, {join(2), sub(2, A)}}},
		{name: "leave_during", joined: []int{0, 1, 2}, subs: map[int][]Channel{0: {A}, 1: {A, M}, 2: {A}}, threads: [][]c04Act{{chunk(1)}, {leave(0)}, {leave(1)}}},
		{name: "leave_first_of_three", joined: []int{0, 1, 2}, subs: map[int][]Channel{0: {A}, 1: {A}, 2: {A}}, threads: [][]c04Act{{chunk(1), chunk(2)}, {leave(0), join(3), sub(3, A)}}},
		{name: "subscribe_during", joined: []int{0, 1}, subs: map[int][]Channel{0: {A}}, threads: [][]c04Act{{chunk(1)}, {info}, {sub(0, M), sub(1, M), sub(1, A)}}},
		{name: "two_casts", joined: []int{0, 1}, subs: map[int][]Channel{0: {A}, 1: {A, M}}, threads: [][]c04Act{{chunk(1), vol}, {info, ping}}},
		{name: "joins_race", joined: []int{0}, subs: map[int][]Channel{0: {M}}, threads: [][]c04Act{{join(1), sub(1, M)}, {join(2), sub(2, M)}, {info}}},
		{name: "leaves_race", joined: []int{0, 1, 2, 3}, subs: map[int][]Channel{0: {M}, 1: {M}, 2: {M}, 3: {M}}, threads: [][]c04Act{{leave(0)}, {leave(1)}, {leave(3)}, {info}}},
		{name: "broken", joined: []int{0, 1, 2}, subs: map[int][]Channel{0: {A}, 1: {A}, 2: {A}}, broken: []int{1}, threads: [][]c04Act{{chunk(1), chunk(2)}, {leave(1)}, {vol}}},
		{name: "broken_first", joined: []int{0, 1}, subs: map[int][]Channel{0: {A}, 1: {A}}, broken: []int{0}, threads: [][]c04Act{{chunk(1)}, {vol}}},
		{name: "stalled", joined: []int{0, 1}, subs: map[int][]Channel{0: {A}, 1: {A}}, stalled: []int{0}, threads: [][]c04Act{{chunk(1)}, {chunk(2)}, {join(2), sub(2, A)}}},
		{name: "stalled_leave", joined: []int{0, 1, 2}, subs: map[int][]Channel{0: {A}, 1: {A}, 2: {M}}, stalled: []int{0}, release: true, threads: [][]c04Act{{chunk(1)}, {leave(2)}, {chunk(2)}}},
		{name: "stalled_middle", joined: []int{0, 1, 2}, subs: map[int][]Channel{0: {A}, 1: {A}, 2: {A}}, stalled: []int{1}, release: true, threads: [][]c04Act{{chunk(1)}, {sub(0, M), info}}},
		{name: "mixed", joined: []int{0, 1}, subs: map[int][]Channel{0: {A}, 1: {A}}, threads: [][]c04Act{{chunk(1), leave(1)}, {chunk(2), leave(0)}, {join(2), sub(2, A), join(3), sub(3, A)}}},
		{name: "mixed_big", joined: []int{0, 1}, subs: map[int][]Channel{0: {A}, 1: {A}}, threads: [][]c04Act{{chunk(1), vol, leave(1)}, {info, leave(0), chunk(3)}, {join(2), sub(2, A), join(3), sub(3, M)}}, thorough: true},
	}
	scs := []mc.Scenario{}
	for _, sp := range specs {
		scs = append(scs, mc.Scenario{Name: sp.name, Body: c04Body(sp), MaxSteps: 5000, Thorough: sp.thorough})
	}
	mc.Main(t, scs)
}
