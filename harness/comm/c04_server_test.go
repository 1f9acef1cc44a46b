package comm

import (
	"fmt"
	"net"
	"testing"

	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C04 with the server's own handling of connections: clients connect,
// subscribe and disconnect at any moment while broadcasts are made.

type c04Srv struct {
	name       string
	gone       []int // clients that have disconnected before they are accepted
	leave      []int // clients that disconnect at some moment
	casts      int   // broadcasts made meanwhile
	n          int
	before     bool // the remaining clients are subscribed before the others come
	bound      int
	thorougher bool
}

func c04Server(sp c04Srv) func() {
	return func() {
		NewClientHandler = nil
		mms, l := startServer()
		conns := []*fconn{}
		left := map[int]bool{}
		for i := 0; i < sp.n; i++ {
			conns = append(conns, &fconn{name: fmt.Sprintf("client%d", i)})
		}
		for _, i := range append(append([]int{}, sp.gone...), sp.leave...) {
			left[i] = true
		}
		sub := &SubscribeChannelRequest{Channel: Channel_META}
		stay := []int{}
		for i := range conns {
			if !left[i] {
				stay = append(stay, i)
			}
		}
		if sp.before {
			for _, i := range stay {
				conns[i].feed(sub)
				l.connect(conns[i])
			}
			mc.Quiesce()
		}
		sent := []proto.Message{}
		errs := []error{}
		for _, i := range sp.gone {
			conns[i].feed(sub)
			conns[i].end()
			l.connect(conns[i])
		}
		for _, i := range sp.leave {
			i := i
			mc.GoNamed(conns[i].name, func() {
				l.connect(conns[i])
				conns[i].feed(sub)
				conns[i].end()
			})
		}
		if !sp.before {
			mc.GoNamed("others", func() {
				for _, i := range stay {
					conns[i].feed(sub)
					l.connect(conns[i])
				}
			})
		}
		var h *mc.Handle
		if sp.casts > 0 {
			h = mc.GoNamed("caster", func() {
				for k := 0; k < sp.casts; k++ {
					m := &ChunkInfo{ChunkSize: uint64(k + 1)}
					sent = append(sent, m)
					errs = append(errs, mms.SendMessage(m))
				}
			})
		}
		mc.Quiesce()
		if h != nil {
			mc.Join(h)
		}
		for i, c := range conns {
			ms, err := c.got()
			mc.Assert(err == nil, "garbled", "client %d receives garbage: %v", i, err)
			got := multiset(keys(ms))
			for k, m := range sent {
				n := got[key(m)]
				delete(got, key(m))
				mc.Assert(n <= 1, "duplicate", "client %d receives %d copies of broadcast %d", i, n, k)
				if sp.before && !left[i] {
					mc.Assert(n == 1, "missed", "client %d does not receive broadcast %d", i, k)
				}
			}
			mc.Assert(len(got) == 0, "invented", "client %d receives %v", i, got)
			mc.Assert(!left[i] || c.closed > 0, "open", "connection of client %d, which has disconnected, is not closed", i)
		}
		// only who has disconnected can have been the reason of a failure
		for k, err := range errs {
			mc.Assert(err == nil || len(left) > 0, "report", "broadcast %d returns %v", k, err)
		}
		// all is settled: the next broadcast reaches exactly who is still there
		for k, m := range []proto.Message{&NewSongInfo{SongFileName: "settled"}, &PongMessage{}, &QueueChunkRequest{ChunkId: 4}} {
			was := []int{}
			for _, c := range conns {
				was = append(was, len(c.wrote))
			}
			err := mms.SendMessage(m)
			mc.Assert(err == nil, "settled", "broadcast %d after all has settled returns %v", k, err)
			for i, c := range conns {
				ms, gerr := decodeAll(c.wrote[was[i]:])
				mc.Assert(gerr == nil, "garbled", "client %d receives garbage", i)
				want := 1
				if left[i] || k == 2 {
					want = 0
				}
				mc.Assert(len(ms) == want && (want == 0 || key(ms[0]) == key(m)), "settled", "client %d receives %v instead of %d copies of %v", i, ms, want, m)
			}
		}
		mc.Outcome(fmt.Sprint(errs))
	}
}

var _ net.Conn = &fconn{}

func TestMC(t *testing.T) {
	scs := []mc.Scenario{}
	for _, sp := range []c04Srv{
		{name: "gone_at_once", n: 2, gone: []int{0}},
		{name: "gone_cast", n: 2, gone: []int{0}, casts: 1, before: true},
		{name: "leaves", n: 2, leave: []int{0}, casts: 1, before: true},
		{name: "two_leave", n: 3, leave: []int{0, 1}, before: true, casts: 1, bound: 2},
		{name: "gone_between", n: 3, gone: []int{1}, casts: 1, bound: 2},
		{name: "two_leave_free", n: 3, leave: []int{0, 1}, casts: 2, thorougher: true},
	} {
		scs = append(scs, mc.Scenario{Name: sp.name, Body: c04Server(sp), MaxSteps: 4000, MaxBound: sp.bound, Thorough: sp.thorougher})
	}
	mc.Main(t, scs)
}
