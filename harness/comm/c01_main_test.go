package comm

import (
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C01: messages survive the wire unchanged under every segmentation.

// segConn delivers its bytes in the given pieces.
type segConn struct {
	fconn
	data   []byte
	cuts   []int // positions in data at which a read ends
	pos    int
	end    error
	joint  bool // the end comes together with the last bytes
	zeros  int  // every read is preceded by this many empty ones
	z      int
	shut   int
	single bool // one byte at a time
}

func (c *segConn) Close() error { c.shut++; return nil }
func (c *segConn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if c.pos == len(c.data) {
		return 0, c.end
	}
	if c.z < c.zeros {
		c.z++
		return 0, nil
	}
	c.z = 0
	to := len(c.data)
	for _, x := range c.cuts {
		if x > c.pos && x < to {
			to = x
		}
	}
	if c.single {
		to = c.pos + 1
	}
	n := copy(b, c.data[c.pos:to])
	c.pos += n
	if c.joint && c.pos == len(c.data) {
		return n, c.end
	}
	return n, nil
}

type c01Rec struct {
	got  []proto.Message
	from []net.Conn
}

func (r *c01Rec) Handle(m proto.Message, c net.Conn) {
	r.got = append(r.got, m)
	r.from = append(r.from, c)
}

func c01Wire(e *mc.E, m proto.Message) []byte {
	b, err := toWire(m)
	e.Assert(err == nil, "towire", "toWire fails: %v", err)
	return b
}

func c01Receive(e *mc.E, c *segConn, want []proto.Message) {
	r := &c01Rec{}
	e.Try(func() { handleConnection(c, r) })
	e.Assert(fmt.Sprint(keys(r.got)) == fmt.Sprint(keys(want)), "received", "received %q instead of %q", keys(r.got), keys(want))
	for _, f := range r.from {
		e.Assert(f == net.Conn(c), "from", "message handed on with the wrong connection")
	}
	e.Assert(c.shut > 0, "open", "connection not closed after its end")
}

var c01Int = []int64{0, 1, -1, 127, 128, 1 << 31, 1<<32 + 5, math.MaxInt64, math.MinInt64}
var c01Uint = []uint64{0, 1, 127, 128, 1 << 32, math.MaxInt64, math.MaxUint64}
var c01Float = []float64{0, math.Copysign(0, -1), .1, -1, math.NaN(), math.Float64frombits(0x7ff8000000000123), math.Inf(1), math.Inf(-1), math.SmallestNonzeroFloat64, math.MaxFloat64}
var c01String = []string{"", "a", "grün/日本語 \u0000\t", "🎵", strings.Repeat("long ", 20000)}

func c01Samples() [][]float64 {
	r := [][]float64{nil, {}, c01Float}
	for _, n := range []int{1, 2, 3, 1000, 70000} {
		s := make([]float64, n)
		for i := range s {
			s[i] = math.Sin(float64(i * n))
		}
		r = append(r, s)
	}
	return append(r, make([]float64, 100000))
}

// c01Messages makes every message over boundary values of its fields.
func c01Messages(do func(proto.Message)) {
	for _, a := range c01Int {
		do(&TimeSyncRequest{ClientSend: a})
		do(&SubscribeChannelRequest{Channel: Channel(a)})
		for _, b := range c01Int {
			for _, c := range c01Int {
				do(&TimeSyncResponse{ClientSendTime: a, ServerRecvTime: b, ServerSendTime: c})
			}
		}
		for _, b := range c01Uint {
			for _, c := range c01Uint {
				do(&ChunkInfo{StartTime: a, FirstSampleIndex: b, ChunkSize: c})
			}
		}
	}
	do(&PingMessage{})
	do(&PongMessage{})
	for _, v := range c01Float {
		do(&SetVolumeRequest{Volume: v})
	}
	for _, u := range c01Uint {
		do(&PauseInfo{Playing: true, ToggleSampleIndex: u})
		do(&PauseInfo{Playing: false, ToggleSampleIndex: u})
	}
	for i, l := range c01Samples() {
		for j, h := range c01Samples() {
			if len(l) > 1000 && i != j && j > 1 {
				continue
			}
			do(&QueueChunkRequest{StartTime: c01Int[(i+j)%len(c01Int)], ChunkId: c01Int[(i*3+j)%len(c01Int)], SampleLow: l, SampleHigh: h, FirstSampleIndex: c01Uint[(i+2*j)%len(c01Uint)]})
		}
	}
	for _, a := range c01Int {
		for _, u := range c01Uint {
			do(&QueueChunkRequest{StartTime: a, ChunkId: -a, FirstSampleIndex: u, SampleLow: []float64{1}, SampleHigh: []float64{2}})
		}
	}
	lyrics := [][]*NewSongInfo_SongLyricsLine{nil, {{}}, {{}, {Atoms: []*NewSongInfo_SongLyricsAtom{{}}}, {}}}
	for _, a := range c01Int {
		for _, s := range c01String {
			lyrics = append(lyrics, []*NewSongInfo_SongLyricsLine{{Atoms: []*NewSongInfo_SongLyricsAtom{{Timestamp: a, Caption: s}, {Timestamp: -a, Caption: "b" + s}}}, {Atoms: []*NewSongInfo_SongLyricsAtom{{Timestamp: 7, Caption: s}}}})
		}
	}
	for i, l := range lyrics {
		for _, s := range c01String[:4] {
			do(&NewSongInfo{FirstSampleOfSongIndex: c01Uint[i%len(c01Uint)], SongFileName: s, SongLength: c01Int[i%len(c01Int)], Lyrics: l, Metadata: &NewSongInfo_SongMetadata{Title: s}})
		}
	}
	for _, t := range c01String {
		for _, a := range c01String {
			for _, b := range c01String {
				do(&NewSongInfo{SongFileName: a, Metadata: &NewSongInfo_SongMetadata{Title: t, Artist: a, Album: b}})
			}
		}
		do(&NewSongInfo{SongFileName: t})
	}
}

func c01Contents(e *mc.E) {
	e.Rule("every message kind over the product of boundary values of its fields (extreme integers, special floats, Unicode/long strings, empty/huge lists), sent by each sender and received whole, byte by byte and cut in the middle; distinct: messages")
	i := 0
	c01Messages(func(m proto.Message) {
		i++
		if !e.Mine(i) {
			return
		}
		e.Case(func() string { return fmt.Sprintf("%s#%d %.300v", proto.MessageName(m), i, m) })
		w := c01Wire(e, m)
		back, err := decodeAll(w)
		e.Assert(err == nil && len(back) == 1 && key(back[0]) == key(m), "frame", "frame holds %.300v (%v)", back, err)
		c := &fconn{name: "x"}
		e.Assert((&singleMessageSender{connection: c}).SendMessage(m) == nil, "send", "singleMessageSender fails")
		e.Assert(string(c.wrote) == string(w), "sent", "singleMessageSender writes something else")
		c01Receive(e, &segConn{data: w, end: io.EOF}, []proto.Message{m})
		c01Receive(e, &segConn{data: w, end: io.EOF, cuts: []int{3, 8, len(w) / 2, len(w) - 1}, zeros: 1}, []proto.Message{m})
		if len(w) < 4096 {
			c01Receive(e, &segConn{data: w, end: io.EOF, single: true, joint: true}, []proto.Message{m})
		}
		e.DistinctH(mc.Hash(key(m)))
		e.Step(1)
	})
	e.Case(func() string { return "message that cannot be encoded" })
	for _, m := range []proto.Message{&NewSongInfo{SongFileName: "\xff\xfe"}, &NewSongInfo{Lyrics: []*NewSongInfo_SongLyricsLine{nil}}} {
		if _, err := proto.Marshal(m); err == nil {
			continue
		}
		c := &fconn{}
		err := (&singleMessageSender{connection: c}).SendMessage(m)
		e.Assert(err != nil && len(c.wrote) == 0, "unencodable", "sending %v: error %v, %d bytes written", m, err, len(c.wrote))
	}
}

func c01Streams(max int) [][]proto.Message {
	ks := kinds()
	r := [][]proto.Message{}
	for _, a := range ks {
		r = append(r, []proto.Message{a})
		for _, b := range ks {
			if max >= 2 {
				r = append(r, []proto.Message{a, b})
			}
		}
	}
	if max >= 3 {
		for i := range ks {
			r = append(r, []proto.Message{ks[i], ks[(i+3)%10], ks[(i*7+1)%10]})
		}
	}
	return r
}

func c01Segments(cuts, streams int) func(*mc.E) {
	return func(e *mc.E) {
		e.Rule(fmt.Sprintf("streams of up to %d messages of every kind cut into reads at every combination of up to %d positions, read byte by byte, with empty reads in between, and ending together with the last byte; distinct: (stream, cuts)", streams, cuts))
		idx := 0
		for si, ms := range c01Streams(streams) {
			w := []byte{}
			for _, m := range ms {
				w = append(w, c01Wire(e, m)...)
			}
			run := func(c *segConn) {
				e.Case(func() string {
					return fmt.Sprintf("%v cut at %v single %v joint %v zeros %d", ms, c.cuts, c.single, c.joint, c.zeros)
				})
				c01Receive(e, c, ms)
				e.DistinctH(mc.Hash(si, c.cuts, c.single, c.joint, c.zeros))
				e.Step(len(ms))
			}
			var rec func(from int, cs []int)
			rec = func(from int, cs []int) {
				for _, joint := range []bool{false, true} {
					for _, z := range []int{0, 1} {
						if len(cs) > 1 && (joint || z > 0) {
							continue
						}
						idx++
						if e.Mine(idx) {
							run(&segConn{data: w, end: io.EOF, cuts: append([]int{}, cs...), joint: joint, zeros: z})
						}
					}
				}
				if len(cs) < cuts {
					for p := from; p < len(w); p++ {
						rec(p+1, append(cs, p))
					}
				}
			}
			rec(1, nil)
			for z := 0; z < 3; z++ {
				idx++
				if e.Mine(idx) {
					run(&segConn{data: w, end: io.EOF, single: true, zeros: z, joint: z == 1})
				}
			}
		}
	}
}

func c01Broken(e *mc.E) {
	e.Rule("streams of up to three messages of every kind ending or failing after every byte, in one piece, byte by byte and with the failure reported together with the last bytes; distinct: (stream, end, way)")
	idx := 0
	for si, ms := range c01Streams(3) {
		w := []byte{}
		ends := []int{}
		for _, m := range ms {
			w = append(w, c01Wire(e, m)...)
			ends = append(ends, len(w))
		}
		for at := 0; at <= len(w); at++ {
			n := 0
			for n < len(ends) && ends[n] <= at {
				n++
			}
			for ei, end := range []error{io.EOF, errors.New("connection reset by peer")} {
				for way := 0; way < 4; way++ {
					idx++
					if !e.Mine(idx) {
						continue
					}
					c := &segConn{data: w[:at], end: end, single: way&1 == 1, joint: way&2 == 2}
					e.Case(func() string {
						return fmt.Sprintf("%v ending after %d of %d bytes with %v, way %d", ms, at, len(w), end, way)
					})
					c01Receive(e, c, ms[:n])
					e.DistinctH(mc.Hash(si, at, ei, way))
					e.Step(1)
				}
			}
		}
	}
}

// shortConn accepts its bytes in the given pieces and fails at failAt.
type shortConn struct {
	fconn
	cuts   []int
	failAt int // -1: never
	joint  bool
	out    []byte
	extra  bool // wrote after a failure
	failed bool
	once   bool // the failure is a timeout, later writes succeed
}

// errSlow is a passing failure.
type errSlow struct{}

func (errSlow) Error() string   { return "i/o timeout" }
func (errSlow) Timeout() bool   { return true }
func (errSlow) Temporary() bool { return true }

func (c *shortConn) Write(b []byte) (int, error) {
	if c.failed {
		c.extra = true
	}
	if len(b) == 0 {
		return 0, nil
	}
	to := len(c.out) + len(b)
	for _, x := range c.cuts {
		if x > len(c.out) && x < to {
			to = x
		}
	}
	if c.failAt >= 0 && c.failAt < to && !(c.once && c.failed) {
		if c.failAt == len(c.out) || c.joint {
			n := c.failAt - len(c.out)
			c.out = append(c.out, b[:n]...)
			c.failed = true
			if c.once {
				return n, errSlow{}
			}
			return n, errBroken
		}
		to = c.failAt
	}
	n := to - len(c.out)
	c.out = append(c.out, b[:n]...)
	return n, nil
}
func (c *shortConn) SetWriteDeadline(time.Time) error { return nil }

func c01Send(e *mc.E) {
	e.Rule("every message kind sent by each kind of sender over a connection that accepts the bytes in pieces cut at every combination of up to two positions, fails after every byte, or fails once with a timeout after every byte (what is reported as sent is sent, what is not ends at a byte of it); distinct: (kind, sender, cuts, failure)")
	idx := 0
	for _, m := range kinds() {
		w := c01Wire(e, m)
		var once bool
		one := func(sender int, cuts []int, failAt int, joint bool) {
			once := once
			idx++
			if !e.Mine(idx) {
				return
			}
			e.Case(func() string {
				return fmt.Sprintf("%v sender %d cuts %v fail at %d (joint %v, once %v)", m, sender, cuts, failAt, joint, once)
			})
			c := &shortConn{cuts: append([]int{}, cuts...), failAt: failAt, joint: joint, once: once}
			var err error
			e.Timeout(10*time.Second, "send", func() {
				switch sender {
				case 0:
					err = sendWire(m, c)
				case 1:
					err = (&singleMessageSender{connection: c}).SendMessage(m)
				case 2:
					mms := &multiMessageSender{connections: []net.Conn{c}, channels: map[net.Conn][]Channel{c: {Channel_META, Channel_AUDIO}}}
					err = mms.SendMessage(m)
				}
			})
			e.DistinctH(mc.Hash(proto.MessageName(m), sender, cuts, failAt, joint, once))
			e.Step(1)
			if once {
				if err == nil {
					e.Assert(string(c.out) == string(w), "bytes", "reported as sent, but %q was written instead of %q", c.out, w)
				} else {
					e.Assert(len(c.out) <= len(w) && string(c.out) == string(w[:len(c.out)]), "prefix", "%q was written of %q", c.out, w)
				}
				return
			}
			e.Assert((err != nil) == (failAt >= 0), "report", "error %v although failing at %d", err, failAt)
			if failAt >= 0 {
				e.Assert(string(c.out) == string(w[:failAt]), "prefix", "wrote %d bytes other than the first %d", len(c.out), failAt)
				e.Assert(!c.extra, "after", "writes on after a failed write")
			} else {
				e.Assert(string(c.out) == string(w), "bytes", "wrote %q instead of %q", c.out, w)
			}
		}
		for sender := 0; sender < 3; sender++ {
			one(sender, nil, -1, false)
			for a := 0; a < len(w); a++ {
				one(sender, nil, a, false)
				one(sender, nil, a, true)
				once = true
				one(sender, nil, a, false)
				one(sender, nil, a, true)
				one(sender, []int{a / 2}, a, true)
				once = false
				one(sender, []int{a}, -1, false)
				for b := a + 1; b < len(w); b++ {
					one(sender, []int{a, b}, -1, false)
					if sender == 0 {
						one(sender, []int{a}, b, true)
					}
				}
			}
		}
	}
}

func TestMC(t *testing.T) {
	mc.Main(t, []mc.Scenario{
		{Name: "contents", Enum: c01Contents, Shards: 4},
		{Name: "segments1", Enum: c01Segments(1, 3), Shards: 4},
		{Name: "segments2", Enum: c01Segments(2, 1), Shards: 8},
		{Name: "segments2x2", Enum: c01Segments(2, 2), Shards: 8},
		{Name: "segments3", Enum: c01Segments(3, 1), Shards: 8, Thorough: true},
		{Name: "broken", Enum: c01Broken, Shards: 4},
		{Name: "send", Enum: c01Send, Shards: 4},
	})
}
