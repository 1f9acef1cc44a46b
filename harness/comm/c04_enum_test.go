package comm

import (
	"fmt"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C04, one activity at a time: every history of joining, leaving,
// subscribing and broadcasting.

type c04Conn struct {
	fconn
	broken error
	n      int
}

func (c *c04Conn) Write(b []byte) (int, error) {
	if c.broken != nil {
		return 0, c.broken
	}
	c.wrote = append(c.wrote, b...)
	return len(b), nil
}

type c04Model struct {
	in  [3]bool
	sub [3][2]bool
}

// c04Kinds: a message of every kind and the channels it belongs to (-1: to all).
var c04Kinds = []struct {
	m   proto.Message
	chs []Channel
}{
	{&QueueChunkRequest{ChunkId: 1}, []Channel{Channel_AUDIO}},
	{&SetVolumeRequest{Volume: 2}, []Channel{Channel_AUDIO, Channel_META}},
	{&ChunkInfo{ChunkSize: 3}, []Channel{Channel_META}},
	{&NewSongInfo{SongLength: 4}, []Channel{Channel_META}},
	{&PauseInfo{ToggleSampleIndex: 5}, []Channel{Channel_META}},
	{&PingMessage{}, nil},
	{&PongMessage{}, nil},
	{&TimeSyncRequest{ClientSend: 6}, nil},
	{&TimeSyncResponse{ClientSendTime: 7}, nil},
	{&SubscribeChannelRequest{Channel: Channel_META}, nil},
}

func c04Entitled(m *c04Model, c, k int) bool {
	if !m.in[c] {
		return false
	}
	if c04Kinds[k].chs == nil {
		return true
	}
	for _, ch := range c04Kinds[k].chs {
		if m.sub[c][ch] {
			return true
		}
	}
	return false
}

type c04Op struct {
	what string
	c, a int
}

func c04Histories(depth, clients int, casts []int) func(*mc.E) {
	return func(e *mc.E) {
		ops := []c04Op{}
		for c := 0; c < clients; c++ {
			ops = append(ops, c04Op{"join", c, 0}, c04Op{"leave", c, 0}, c04Op{"sub", c, 0}, c04Op{"sub", c, 1})
		}
		for _, k := range casts {
			ops = append(ops, c04Op{"cast", 0, k})
		}
		e.Rule(fmt.Sprintf("all histories of %d operations (join, leave, subscribe audio/meta for %d clients, broadcast of %d kinds), with every subset of the clients broken, ending in a broadcast of every kind; distinct: final memberships", depth, clients, len(casts)))
		hist := make([]c04Op, 0, depth)
		idx := 0
		run := func(broken int) {
			mms := &multiMessageSender{connections: []net.Conn{}, channels: map[net.Conn][]Channel{}}
			conns := make([]*c04Conn, clients)
			for i := range conns {
				conns[i] = &c04Conn{fconn: fconn{name: fmt.Sprintf("client%d", i)}}
				if broken>>uint(i)&1 == 1 {
					conns[i].broken = fmt.Errorf("failure of client <%d>", i)
				}
			}
			model := &c04Model{}
			want := make([][]string, clients)
			cast := func(k int) {
				err := mms.SendMessage(c04Kinds[k].m)
				fails := []int{}
				for i, c := range conns {
					if !c04Entitled(model, i, k) {
						continue
					}
					if c.broken != nil {
						fails = append(fails, i)
					} else {
						want[i] = append(want[i], key(c04Kinds[k].m))
					}
				}
				e.Assert((err != nil) == (len(fails) > 0), "report", "broadcast returns %v, failing clients %v", err, fails)
				if err != nil {
					for i := range conns {
						n := strings.Count(err.Error(), fmt.Sprintf("client <%d>", i))
						x := 0
						for _, f := range fails {
							if f == i {
								x = 1
							}
						}
						e.Assert(n == x, "names", "error %q names client %d %d times instead of %d", err, i, n, x)
					}
				}
			}
			for _, op := range hist {
				switch op.what {
				case "join":
					mms.AddConn(conns[op.c])
					model.in[op.c] = true
				case "leave":
					mms.DelConn(conns[op.c])
					model.in[op.c] = false
				case "sub":
					mms.Subscribe(conns[op.c], Channel(op.a))
					model.sub[op.c][op.a] = true
				case "cast":
					cast(op.a)
				}
				e.Step(1)
			}
			for k := range c04Kinds {
				cast(k)
			}
			for i, c := range conns {
				ms, err := c.got()
				e.Assert(err == nil, "garbled", "client %d received garbage: %v", i, err)
				e.Assert(fmt.Sprint(keys(ms)) == fmt.Sprint(want[i]), "received", "client %d received %q instead of %q", i, keys(ms), want[i])
			}
			e.State(*model)
			e.DistinctH(mc.Hash(*model, broken))
		}
		var rec func(in, gone int)
		rec = func(in, gone int) {
			if len(hist) == depth {
				for b := 0; b < 1<<uint(clients); b++ {
					idx++
					if !e.Mine(idx) {
						continue
					}
					e.Case(func() string { return fmt.Sprintf("%v broken %b", hist, b) })
					e.Timeout(20*time.Second, "history", func() { run(b) })
				}
				return
			}
			for _, op := range ops {
				bit := 1 << uint(op.c)
				i, g := in, gone
				switch op.what {
				case "join": // a connection joins once
					if in&bit != 0 || gone&bit != 0 {
						continue
					}
					i |= bit
				case "leave":
					if in&bit == 0 {
						continue
					}
					i &^= bit
					g |= bit
				case "sub": // only a connected client can ask for it
					if in&bit == 0 {
						continue
					}
				}
				hist = append(hist, op)
				rec(i, g)
				hist = hist[:len(hist)-1]
			}
		}
		rec(0, 0)
	}
}

func TestMC(t *testing.T) {
	mc.Main(t, []mc.Scenario{
		{Name: "histories2", Enum: c04Histories(6, 2, []int{0, 1, 2, 5}), Shards: 8},
		{Name: "histories3", Enum: c04Histories(6, 3, []int{1}), Shards: 8},
		{Name: "histories3deep", Enum: c04Histories(8, 3, []int{2}), Shards: 8, Thorough: true},
	})
}
