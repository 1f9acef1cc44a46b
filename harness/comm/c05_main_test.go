package comm

import (
	"fmt"
	"net"
	"testing"

	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C05: every request is dispatched once and answered once to its sender.

type c05Call struct {
	kind string // method that was called
	m    proto.Message
	c    net.Conn
}

// c05Rec records what is dispatched to it.
type c05Rec struct {
	sh    mc.Shared
	calls []c05Call
}

func (r *c05Rec) add(kind string, m proto.Message, c net.Conn) {
	r.sh.Access("dispatch")
	r.calls = append(r.calls, c05Call{kind, m, c})
}
func (r *c05Rec) HandleTimeSyncRequest(m *TimeSyncRequest, c net.Conn) { r.add("comm.TimeSyncRequest", m, c) }
func (r *c05Rec) HandleTimeSyncResponse(m *TimeSyncResponse, c net.Conn) {
	r.add("comm.TimeSyncResponse", m, c)
}
func (r *c05Rec) HandleQueueChunkRequest(m *QueueChunkRequest, c net.Conn) {
	r.add("comm.QueueChunkRequest", m, c)
}
func (r *c05Rec) HandlePingMessage(m *PingMessage, c net.Conn)           { r.add("comm.PingMessage", m, c) }
func (r *c05Rec) HandlePongMessage(m *PongMessage, c net.Conn)           { r.add("comm.PongMessage", m, c) }
func (r *c05Rec) HandleSetVolumeRequest(m *SetVolumeRequest, c net.Conn) { r.add("comm.SetVolumeRequest", m, c) }
func (r *c05Rec) HandleSubscribeChannelRequest(m *SubscribeChannelRequest, c net.Conn) {
	r.add("comm.SubscribeChannelRequest", m, c)
}
func (r *c05Rec) HandleNewSongInfo(m *NewSongInfo, c net.Conn) { r.add("comm.NewSongInfo", m, c) }
func (r *c05Rec) HandleChunkInfo(m *ChunkInfo, c net.Conn)     { r.add("comm.ChunkInfo", m, c) }
func (r *c05Rec) HandlePauseInfo(m *PauseInfo, c net.Conn)     { r.add("comm.PauseInfo", m, c) }

// c05Dispatch: messages on several connections, each handed on exactly once.
func c05Dispatch(perConn [][]proto.Message) func() {
	return func() {
		rec := &c05Rec{}
		h := TypedPackageHandler{TypedPackageHandlerInterface: rec}
		want := map[string]int{}
		conns := []*fconn{}
		hs := []*mc.Handle{}
		for i, ms := range perConn {
			c := &fconn{name: fmt.Sprintf("conn%d", i)}
			conns = append(conns, c)
			for _, m := range ms {
				want[fmt.Sprintf("%s|%s|conn%d", proto.MessageName(m), key(m), i)]++
			}
			c.feed(ms...)
			c.end()
			hs = append(hs, mc.GoNamed("reader"+c.name, func() { handleConnection(c, h) }))
		}
		mc.Join(hs...)
		mc.Quiesce()
		got := map[string]int{}
		for _, call := range rec.calls {
			c, _ := call.c.(*fconn)
			mc.Assert(c != nil, "conn", "%s without its connection", call.kind)
			got[fmt.Sprintf("%s|%s|%s", call.kind, key(call.m), c.name)]++
		}
		mc.Assert(fmt.Sprint(got) == fmt.Sprint(want), "dispatch", "dispatched %q instead of %q", got, want)
		for _, c := range conns {
			mc.Assert(c.closed > 0, "open", "%s not closed after its end", c.name)
		}
		mc.Outcome(len(rec.calls))
	}
}

type c05Stamp struct{ fed, answered int64 }

type c05Req struct {
	client int
	m      proto.Message
}

// c05Server: clients of a real server send requests while time passes.
func c05Server(reqs []c05Req, clients, ticks int, disconnect int) func() {
	return func() {
		NewClientHandler = func(Channel, MessageSender) {}
		_, l := startServer()
		conns := []*fconn{}
		fed := map[string]int64{}
		for i := 0; i < clients; i++ {
			c := &fconn{name: fmt.Sprintf("client%d", i)}
			c.onWrite = func(c *fconn, b []byte) {
				ms, err := decodeAll(b)
				mc.Assert(err == nil, "garbled", "%s receives garbage", c.name)
				for _, m := range ms {
					if r, ok := m.(*TimeSyncResponse); ok {
						now := mc.Now()
						f, ok := fed[fmt.Sprint(c.name, r.ClientSendTime)]
						mc.Assert(ok, "misdirected", "%s is answered request %d, which it did not send", c.name, r.ClientSendTime)
						mc.Assert(f <= r.ServerRecvTime && r.ServerRecvTime <= r.ServerSendTime && r.ServerSendTime <= now, "times",
							"request sent at %d and answered at %d says received %d sent %d", f, now, r.ServerRecvTime, r.ServerSendTime)
					}
				}
			}
			conns = append(conns, c)
			l.connect(c)
		}
		for i := 0; i < clients; i++ {
			i := i
			mc.GoNamed(fmt.Sprintf("user%d", i), func() {
				for _, r := range reqs {
					if r.client != i {
						continue
					}
					if t, ok := r.m.(*TimeSyncRequest); ok {
						fed[fmt.Sprint(conns[i].name, t.ClientSend)] = mc.NowNs()
					}
					conns[i].feed(r.m)
				}
				if i == disconnect {
					conns[i].end()
				}
			})
		}
		if ticks > 0 {
			mc.GoNamed("time", func() {
				for i := 0; i < ticks; i++ {
					mc.Advance(10)
				}
			})
		}
		mc.Quiesce()
		for i, c := range conns {
			ms, err := c.got()
			mc.Assert(err == nil, "garbled", "client %d receives garbage", i)
			got := map[string]int{}
			for _, m := range ms {
				if r, ok := m.(*TimeSyncResponse); ok {
					got[fmt.Sprint("timesync ", r.ClientSendTime)]++
				} else {
					got[proto.MessageName(m)]++
				}
			}
			want := map[string]int{}
			for _, r := range reqs {
				if r.client != i {
					continue
				}
				switch m := r.m.(type) {
				case *PingMessage:
					want["comm.PongMessage"]++
				case *TimeSyncRequest:
					want[fmt.Sprint("timesync ", m.ClientSend)]++
				}
			}
			if i == disconnect {
				for k, n := range got {
					mc.Assert(n <= want[k], "answers", "client %d is answered %v instead of %v", i, got, want)
				}
				continue
			}
			mc.Assert(fmt.Sprint(got) == fmt.Sprint(want), "answers", "client %d is answered %v instead of %v", i, got, want)
		}
		mc.Outcome(fmt.Sprint(len(conns[0].wrote) > 0))
	}
}

func TestMC(t *testing.T) {
	ks := kinds()
	ping := &PingMessage{}
	ts := func(n int64) proto.Message { return &TimeSyncRequest{ClientSend: n} }
	sub := &SubscribeChannelRequest{Channel: Channel_META}
	scs := []mc.Scenario{}
	for i := range ks {
		scs = append(scs, mc.Scenario{Name: "dispatch_" + proto.MessageName(ks[i])[5:], Body: c05Dispatch([][]proto.Message{{ks[i], ks[(i+1)%10]}, {ks[i]}}), MaxSteps: 3000})
	}
	scs = append(scs,
		mc.Scenario{Name: "dispatch_all", Body: c05Dispatch([][]proto.Message{ks}), MaxSteps: 3000, MaxBound: 2},
		mc.Scenario{Name: "dispatch_same", Body: c05Dispatch([][]proto.Message{{ks[1], ks[1], ks[5]}, {ks[1], ks[5]}}), MaxSteps: 3000},
		mc.Scenario{Name: "time_one", Body: c05Server([]c05Req{{0, ts(101)}, {0, ts(102)}}, 1, 3, -1), MaxSteps: 3000},
		mc.Scenario{Name: "time_two", Body: c05Server([]c05Req{{0, ts(101)}, {1, ts(101)}, {1, ts(103)}}, 2, 2, -1), MaxSteps: 3000},
		mc.Scenario{Name: "pings", Body: c05Server([]c05Req{{0, ping}, {1, ping}, {0, ping}}, 2, 0, -1), MaxSteps: 3000},
		mc.Scenario{Name: "mixed", Body: c05Server([]c05Req{{0, ping}, {0, ts(5)}, {1, sub}, {1, ts(6)}, {1, ping}}, 2, 1, -1), MaxSteps: 3000},
		mc.Scenario{Name: "others", Body: c05Server([]c05Req{{0, ks[5]}, {0, ks[2]}, {1, ks[1]}, {1, ping}, {0, ks[7]}, {0, ks[9]}, {0, ks[4]}}, 2, 0, -1), MaxSteps: 3000},
		mc.Scenario{Name: "disconnect", Body: c05Server([]c05Req{{0, ping}, {0, ts(5)}, {1, ts(6)}}, 2, 1, 0), MaxSteps: 3000},
	)
	mc.Main(t, scs)
}
