package comm

import (
	"fmt"
	"net"
	"testing"

	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C02: messages sent concurrently to one peer never mix on the wire.

var c02Chunk = &QueueChunkRequest{StartTime: 5, ChunkId: 6, SampleLow: []float64{1, 2}, SampleHigh: []float64{3, 4}, FirstSampleIndex: 7}
var c02Info = &ChunkInfo{StartTime: 5, FirstSampleIndex: 7, ChunkSize: 2}
var c02Song = &NewSongInfo{FirstSampleOfSongIndex: 3, SongFileName: "s.mp3", SongLength: 4, Metadata: &NewSongInfo_SongMetadata{Title: "t"}}
var c02Pause = &PauseInfo{Playing: true, ToggleSampleIndex: 12}
var c02Vol = &SetVolumeRequest{Volume: .5}
var c02Vol2 = &SetVolumeRequest{Volume: .75}

type c02Spec struct {
	name     string
	conns    int
	requests []proto.Message   // sent by every client
	casts    [][]proto.Message // per broadcaster
	singles  []proto.Message   // sent by other activities to client 0 alone
	thorough bool
}

func c02Expect(ms []proto.Message, sp c02Spec, c int) (must map[string]int, may map[string]int) {
	must, may = map[string]int{}, map[string]int{}
	for _, cast := range sp.casts {
		for _, m := range cast {
			must[key(m)]++
		}
	}
	if c == 0 {
		for _, m := range sp.singles {
			must[key(m)]++
		}
	}
	for _, r := range sp.requests {
		switch r := r.(type) {
		case *PingMessage:
			must[key(&PongMessage{})]++
		case *TimeSyncRequest:
			must["timesync"]++
		case *SubscribeChannelRequest:
			for _, m := range c02Snapshot(r.Channel) {
				must[key(m)]++
			}
		}
	}
	return
}

func c02Snapshot(c Channel) []proto.Message {
	if c == Channel_AUDIO {
		return []proto.Message{c02Vol2}
	}
	return []proto.Message{c02Vol2, c02Song, c02Pause}
}

func c02Body(sp c02Spec) func() {
	return func() {
		NewClientHandler = func(c Channel, s MessageSender) {
			if c < 0 {
				return
			}
			for _, m := range c02Snapshot(c) {
				s.SendMessage(m)
			}
		}
		conns := []*fconn{}
		mms := &multiMessageSender{channels: map[net.Conn][]Channel{}}
		h := newServerPackageHandler(mms)
		for i := 0; i < sp.conns; i++ {
			c := &fconn{name: fmt.Sprintf("client%d", i)}
			conns = append(conns, c)
			mms.AddConn(c)
			mms.Subscribe(c, Channel_AUDIO)
			mms.Subscribe(c, Channel_META)
		}
		for i, c := range conns {
			c := c
			if len(sp.requests) > 0 {
				c.feed(sp.requests...)
				mc.GoNamed(fmt.Sprintf("reader%d", i), func() { handleConnection(c, h) })
			}
		}
		for i, cast := range sp.casts {
			cast := cast
			mc.GoNamed(fmt.Sprintf("broadcast%d", i), func() {
				for _, m := range cast {
					if err := mms.SendMessage(m); err != nil {
						mc.Fail("error", "SendMessage: %v", err)
					}
				}
			})
		}
		for i, m := range sp.singles {
			m := m
			mc.GoNamed(fmt.Sprintf("single%d", i), func() {
				if err := (&singleMessageSender{connection: conns[0]}).SendMessage(m); err != nil {
					mc.Fail("error", "SendMessage: %v", err)
				}
			})
		}
		mc.Quiesce()
		for i, c := range conns {
			ms, err := c.got()
			mc.Assert(err == nil, "spliced", "what %s received cannot be decoded: %v\n%q", c.name, err, c.wrote)
			got := map[string]int{}
			order := []string{}
			for _, m := range ms {
				k := key(m)
				if r, ok := m.(*TimeSyncResponse); ok {
					k = "timesync"
					mc.Assert(r.ClientSendTime == 77, "altered", "time sync answer %v", r)
				}
				got[k]++
				order = append(order, proto.MessageName(m))
			}
			must, _ := c02Expect(ms, sp, i)
			mc.Assert(fmt.Sprint(got) == fmt.Sprint(must), "messages", "%s received %q instead of %q", c.name, got, must)
			mc.Outcome(order)
		}
	}
}

func TestMC(t *testing.T) {
	req := []proto.Message{&PingMessage{}, &TimeSyncRequest{ClientSend: 77}, &SubscribeChannelRequest{Channel: Channel_META}}
	specs := []c02Spec{
		{name: "broadcasts", conns: 2, casts: [][]proto.Message{{c02Chunk}, {c02Info}}},
		{name: "three_broadcasts", conns: 1, casts: [][]proto.Message{{c02Chunk, c02Vol}, {c02Info}, {c02Pause}}},
		{name: "answers", conns: 1, requests: req[:2], casts: [][]proto.Message{{c02Chunk}}},
		{name: "subscribe", conns: 1, requests: req[2:], casts: [][]proto.Message{{c02Chunk, c02Info}}},
		{name: "singles", conns: 1, casts: [][]proto.Message{{c02Chunk}}, singles: []proto.Message{c02Vol, c02Song}},
		{name: "all", conns: 1, requests: req, casts: [][]proto.Message{{c02Chunk}}, singles: []proto.Message{c02Vol}},
		{name: "two_clients", conns: 2, requests: req, casts: [][]proto.Message{{c02Chunk}, {c02Info}}, thorough: true},
	}
	scs := []mc.Scenario{}
	for _, sp := range specs {
		scs = append(scs, mc.Scenario{Name: sp.name, Body: c02Body(sp), MaxSteps: 5000, Thorough: sp.thorough})
	}
	mc.Main(t, scs)
}
