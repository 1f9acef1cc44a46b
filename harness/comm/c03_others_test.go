package comm

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/golang/protobuf/proto"

	zlib "github.com/LogicalOverflow/music-sync/zzmc/fakezlib"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C03: whatever a client sends, the other clients are served on.

// c03Bad are the ways of misbehaving.
func c03Bad() map[string][]byte {
	frame := func(n uint64, body []byte) []byte {
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, n)
		return append(b, body...)
	}
	env := func(typ string, data []byte) []byte {
		b, err := proto.Marshal(&Envelope{Type: typ, Data: data})
		if err != nil {
			panic(err)
		}
		return frame(uint64(len(b)), b)
	}
	zip := func(data []byte) []byte {
		b := &bytes.Buffer{}
		w := zlib.NewWriter(b)
		w.Write(data)
		w.Close()
		return b.Bytes()
	}
	good, _ := toWire(&PingMessage{})
	return map[string][]byte{
		"huge":       frame(1<<62, good),
		"negative":   frame(1<<63+5, good),
		"no":         frame(3, []byte{255, 255, 255}),
		"unknown":    env("comm.Nothing", zip(nil)),
		"enum":       env("comm.Channel", zip(nil)),
		"unzippable": env("comm.PingMessage", []byte{1, 2, 3}),
		"payload":    env("comm.NewSongInfo", zip([]byte{255, 255, 255})),
		"empty":      frame(0, nil),
	}
}

// c03Others: client 0 sends before, something bad, after and possibly hangs up; client 1 is served meanwhile and
// afterwards. before says what client 0 does before.
func c03Others(bad []byte, before []proto.Message, hangUp, pieces bool) func() {
	return func() {
		NewClientHandler = func(c Channel, s MessageSender) {
			if c == Channel_META {
				s.SendMessage(&SetVolumeRequest{Volume: .5})
			}
		}
		mms, l := startServer()
		culprit, other := &fconn{name: "culprit"}, &fconn{name: "other"}
		l.connect(culprit)
		l.connect(other)
		ping := &PingMessage{}
		pings := 0
		for _, m := range before {
			if _, ok := m.(*PingMessage); ok {
				pings++
			}
		}
		mc.GoNamed("culprit", func() {
			culprit.feed(before...)
			b := bad
			if pieces {
				culprit.sh.Access("feed culprit")
				culprit.in = append(culprit.in, b[:len(b)/2]...)
				b = b[len(b)/2:]
			}
			culprit.sh.Access("feed culprit")
			culprit.in = append(culprit.in, b...)
			culprit.feed(ping, &SubscribeChannelRequest{Channel: Channel_AUDIO})
			if hangUp {
				culprit.end()
			}
		})
		var hs []*mc.Handle
		mc.GoNamed("other", func() { other.feed(&SubscribeChannelRequest{Channel: Channel_META}, ping) })
		hs = append(hs, mc.GoNamed("server", func() { mms.SendMessage(&PongMessage{}) }))
		mc.Quiesce()
		for _, h := range hs {
			mc.Assert(h.Done(), "blocked", "a broadcast does not end")
		}
		if culprit.closed == 0 && !hangUp {
			// the frame may not be complete yet, but nothing can complete it
			culprit.end()
			mc.Quiesce()
		}
		mc.Assert(culprit.closed > 0, "open", "the connection of the client that sent garbage is not closed")
		wrote := len(culprit.wrote)
		other.feed(ping)
		mc.Quiesce()
		var err error
		h := mc.GoNamed("server", func() { err = mms.SendMessage(&ChunkInfo{ChunkSize: 3}) })
		mc.Quiesce()
		mc.Assert(h.Done(), "blocked", "a broadcast does not end")
		mc.Assert(err == nil, "not removed", "a later broadcast fails: %v", err)
		mc.Assert(len(culprit.wrote) == wrote, "not removed", "the client that sent garbage is still sent messages")
		ms, derr := other.got()
		mc.Assert(derr == nil, "garbled", "the other client receives garbage")
		got := map[string]int{}
		for _, m := range ms {
			got[proto.MessageName(m)]++
		}
		pongs := got["comm.PongMessage"] // the broadcast may come before the client is connected
		mc.Assert(other.closed == 0, "closed", "the other client's connection is closed")
		mc.Assert((pongs == 2 || pongs == 3) && got["comm.SetVolumeRequest"] == 1 && got["comm.ChunkInfo"] == 1 && len(ms) == pongs+2, "served", "the other client gets %v", got)
		ms, derr = culprit.got()
		mc.Assert(derr == nil, "garbled", "the client that sent garbage receives garbage")
		got = map[string]int{}
		for _, m := range ms {
			got[proto.MessageName(m)]++
		}
		mc.Assert(got["comm.PongMessage"] <= pings+1 && len(ms) == got["comm.PongMessage"]+got["comm.SetVolumeRequest"], "delivered", "the client that sent garbage gets %v", got)
		mc.Outcome(fmt.Sprint(len(ms), pongs))
	}
}

func TestMC(t *testing.T) {
	bad := c03Bad()
	ping, sub := &PingMessage{}, &SubscribeChannelRequest{Channel: Channel_META}
	scs := []mc.Scenario{}
	for _, k := range []string{"huge", "negative", "no", "unknown", "enum", "unzippable", "payload", "empty"} {
		scs = append(scs, mc.Scenario{Name: k, Body: c03Others(bad[k], nil, false, false), MaxSteps: 4000, MaxBound: mc.Pick(2, 4)})
	}
	scs = append(scs,
		mc.Scenario{Name: "unknown_cut", Body: c03Others(bad["unknown"], nil, true, true), MaxSteps: 4000, MaxBound: mc.Pick(2, 4)},
		mc.Scenario{Name: "payload_late", Body: c03Others(bad["payload"], []proto.Message{ping, sub}, false, false), MaxSteps: 4000, MaxBound: mc.Pick(2, 4)},
		mc.Scenario{Name: "negative_late", Body: c03Others(bad["negative"], []proto.Message{sub}, true, false), MaxSteps: 4000, MaxBound: mc.Pick(2, 4)},
		mc.Scenario{Name: "huge_late", Body: c03Others(bad["huge"], []proto.Message{ping}, true, true), MaxSteps: 4000, MaxBound: mc.Pick(2, 4)},
	)
	mc.Main(t, scs)
}
