package schedule

import (
	"fmt"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

func init() { log.DefaultCutoffLevel = log.LevelOff }

// vclient is a client as the server sees it: it gets whole messages, one
// after the other.
type vclient struct {
	sh    mc.Shared
	name  string
	subs  map[comm.Channel]bool
	got   []proto.Message
	stall bool // takes nothing
	fail  bool // fails every delivery

	onMsg     func(interface{})
	unordered bool // the order in which it gets messages plays no role
}

func (c *vclient) deliver(m proto.Message) error {
	if c.stall {
		mc.BlockUntil(c.name+" never reads", func() bool { return false })
	}
	if !c.unordered {
		c.sh.Access("deliver to " + c.name)
	}
	if c.fail {
		return fmt.Errorf("%s is gone", c.name)
	}
	c.got = append(c.got, proto.Clone(m))
	if c.onMsg != nil {
		c.onMsg(m)
	}
	return nil
}

// SendMessage sends to this client only.
func (c *vclient) SendMessage(m proto.Message) error { return c.deliver(m) }

// caster broadcasts as comm's sender does (C04): to the clients subscribed
// when it begins, to each on its own.
type caster struct {
	sh      mc.Shared
	clients []*vclient
	static  bool // nobody subscribes while messages are sent

	noChunk bool // chunks play no role
	onSend  func(proto.Message)
	slowN   int // this message (from 1) is only sent after slowFor
	slowFor int64
	n       int
}

func channelsOf(m proto.Message) []comm.Channel {
	switch m.(type) {
	case *comm.QueueChunkRequest:
		return []comm.Channel{comm.Channel_AUDIO}
	case *comm.SetVolumeRequest:
		return []comm.Channel{comm.Channel_AUDIO, comm.Channel_META}
	}
	return []comm.Channel{comm.Channel_META}
}

func (b *caster) SendMessage(m proto.Message) error {
	if b.noChunk {
		switch m.(type) {
		case *comm.QueueChunkRequest, *comm.ChunkInfo:
			return nil
		}
	}
	if b.onSend != nil {
		b.onSend(m)
	}
	if b.n++; b.n == b.slowN {
		mc.SleepNs(b.slowFor)
	}
	if !b.static {
		b.sh.Access("broadcast")
	}
	to := []*vclient{}
	for _, c := range b.clients {
		for _, ch := range channelsOf(m) {
			if c.subs[ch] {
				to = append(to, c)
				break
			}
		}
	}
	var err error
	hs := []*mc.Handle{}
	for _, c := range to {
		c := c
		if len(to) == 1 || c.unordered && !c.stall {
			if e := c.deliver(m); e != nil {
				err = e
			}
		} else {
			hs = append(hs, mc.GoNamed("deliver", func() {
				if e := c.deliver(m); e != nil {
					err = e
				}
			}))
		}
	}
	mc.Join(hs...)
	return err
}

// subscribe does what comm does when a client subscribes.
func (b *caster) subscribe(c *vclient, ch comm.Channel, handler func(comm.Channel, comm.MessageSender)) {
	b.sh.Access("subscribe")
	c.subs[ch] = true
	if handler != nil {
		handler(ch, c)
	}
}

func (b *caster) client(name string, chs ...comm.Channel) *vclient {
	c := &vclient{name: name, subs: map[comm.Channel]bool{}}
	for _, ch := range chs {
		c.subs[ch] = true
	}
	b.clients = append(b.clients, c)
	return c
}
