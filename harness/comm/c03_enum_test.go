package comm

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"runtime"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C03: malformed input never crashes a process nor disturbs other clients
// (here: everything one connection can send).

type c03Conn struct {
	fconn
	data []byte
	shut int
}

func (c *c03Conn) Close() error { c.shut++; return nil }
func (c *c03Conn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := copy(b, c.data)
	c.data = c.data[n:]
	return n, nil
}

type c03Rec struct{ got []proto.Message }

func (r *c03Rec) Handle(m proto.Message, _ net.Conn) { r.got = append(r.got, m) }

// c03Expect decodes up to the first frame that is not validly encoded.
func c03Expect(b []byte) (ms []proto.Message) {
	for len(b) >= 8 {
		n := binary.LittleEndian.Uint64(b)
		if n > uint64(len(b)-8) {
			return
		}
		m, err := refMessage(b[8 : 8+n])
		if err != nil {
			return
		}
		ms = append(ms, m)
		b = b[8+n:]
	}
	return
}

var c03Evals int

func c03Run(e *mc.E, b []byte) {
	want := c03Expect(b)
	r := &c03Rec{}
	c := &c03Conn{data: b}
	var m0, m1 runtime.MemStats
	c03Evals++
	measure := len(b) >= 8 && binary.LittleEndian.Uint64(b) > 1<<20 || c03Evals%64 == 0
	if measure {
		runtime.ReadMemStats(&m0)
	}
	e.Timeout(20*time.Second, "handleConnection", func() { handleConnection(c, r) })
	if measure {
		runtime.ReadMemStats(&m1)
		if d := m1.TotalAlloc - m0.TotalAlloc; d > 64<<20 {
			e.Fail("memory", "%d MB reserved for %d bytes received", d>>20, len(b))
		}
	}
	e.Assert(fmt.Sprint(keys(r.got)) == fmt.Sprint(keys(want)), "delivered", "delivered %q instead of %q", keys(r.got), keys(want))
	e.Assert(c.shut > 0, "open", "connection not closed")
	e.Step(1)
}

func c03Frame(m proto.Message) []byte {
	w, err := toWire(m)
	if err != nil {
		panic(err)
	}
	return w
}

func c03Raw(typ string, data []byte) []byte {
	env, err := proto.Marshal(&Envelope{Type: typ, Data: data})
	if err != nil {
		panic(err)
	}
	return c03Prefix(uint64(len(env)), env)
}

func c03Prefix(n uint64, body []byte) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, n)
	return append(b, body...)
}

func c03Zip(b []byte) []byte {
	z := &bytes.Buffer{}
	w := zlib.NewWriter(z)
	w.Write(b)
	w.Close()
	return z.Bytes()
}

func join(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

func c03Mutations(e *mc.E) {
	e.Rule("between two valid messages, a message of every kind with every byte replaced by every value, every byte missing, every byte doubled and every truncation; distinct: mutated streams")
	idx := 0
	ping, pong := c03Frame(&PingMessage{}), c03Frame(&PongMessage{})
	do := func(what string, at, v int, b []byte) {
		idx++
		if !e.Mine(idx) {
			return
		}
		e.Case(func() string { return fmt.Sprintf("%s at %d value %d: %q", what, at, v, b) })
		c03Run(e, join(ping, b, pong))
		e.DistinctH(mc.Hash(b))
	}
	for _, m := range kinds() {
		w := c03Frame(m)
		for i := range w {
			for v := 0; v < 256; v++ {
				if byte(v) == w[i] {
					continue
				}
				b := append([]byte{}, w...)
				b[i] = byte(v)
				do("replace", i, v, b)
			}
			do("delete", i, 0, join(w[:i], w[i+1:]))
			do("double", i, 0, join(w[:i+1], w[i:]))
			do("truncate", i, 0, w[:i])
			// the frame cut short, with a matching length
			if i >= 8 {
				do("short frame", i, 0, c03Prefix(uint64(i-8), w[8:i]))
			}
		}
	}
}

func c03Forms(e *mc.E) {
	e.Rule("lengths at every power of two and its neighbours with 0..20 bytes following; envelopes of every type name in a list (known, unknown, registered but no message, odd) with every form of data (none, garbage, damaged, cut, oversized, wrong kind's payload); distinct: streams")
	idx := 0
	ping := c03Frame(&PingMessage{})
	do := func(b []byte) {
		idx++
		if !e.Mine(idx) {
			return
		}
		e.Case(func() string { return fmt.Sprintf("%.200q (%d bytes)", b, len(b)) })
		c03Run(e, b)
		c03Run(e, join(ping, b))
		c03Run(e, join(b, ping))
		e.DistinctH(mc.Hash(b))
	}
	lens := []uint64{}
	for s := uint(0); s < 64; s++ {
		for d := -1; d <= 1; d++ {
			lens = append(lens, uint64(1)<<s+uint64(d))
		}
	}
	lens = append(lens, math.MaxUint64, math.MaxUint64-7, 0x8000000000000000, 0x7fffffffffffffff)
	for _, n := range lens {
		for _, k := range []int{0, 1, 7, 20} {
			do(c03Prefix(n, bytes.Repeat([]byte{10}, k)))
		}
		do(c03Prefix(n, ping[8:]))
	}
	types := []string{"", ".", "comm", "comm.", "comm.Nothing", "comm.Envelope", "comm.Channel", "comm.NewSongInfo.SongLyricsAtom", "NewSongInfo", "comm.PingMessage ", "\x00",
		"google.protobuf.Any", "google.protobuf.Struct", "google.protobuf.Struct.FieldsEntry", "google.protobuf.FileDescriptorProto", "google.protobuf.Timestamp"}
	inner := map[string][]byte{}
	for _, m := range kinds() {
		types = append(types, proto.MessageName(m))
		b, _ := proto.Marshal(m)
		inner[proto.MessageName(m)] = b
	}
	datas := [][]byte{nil, {0}, {0x78}, {0x78, 0x9c}, []byte("garbage that is no zlib stream"), c03Zip(nil), c03Zip([]byte{0xff, 0xff, 0xff}), c03Zip([]byte{8}), c03Zip(bytes.Repeat([]byte{0x0a, 0xff}, 10)),
		c03Zip(bytes.Repeat([]byte{0}, 1<<20)), c03Zip([]byte("\x0a\x05abc")), c03Zip([]byte("\x12\x02\xff\xfe"))}
	for _, b := range inner {
		z := c03Zip(b)
		datas = append(datas, z, append(append([]byte{}, z...), 1, 2, 3), b)
		for i := 0; i < len(z); i++ {
			datas = append(datas, z[:i])
		}
	}
	for _, t := range types {
		for _, d := range datas {
			do(c03Raw(t, d))
		}
	}
	// envelopes that are no envelopes
	for _, b := range [][]byte{{}, {0}, {0xff}, {0x0a}, {0x0a, 0x05}, {0x12, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0x0a, 2, 0xff, 0xfe}, {0x0b}, {0x0c}, {0x80}, bytes.Repeat([]byte{0x80}, 11), {0x1a, 0}} {
		do(c03Prefix(uint64(len(b)), b))
	}
}

func TestMC(t *testing.T) {
	mc.Main(t, []mc.Scenario{
		{Name: "mutations", Enum: c03Mutations, Shards: 8},
		{Name: "forms", Enum: c03Forms, Shards: 8},
		{Name: "clients", Enum: c03Clients, Shards: 4},
	})
}
