package comm

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"net"
	"reflect"
	"time"

	"github.com/golang/protobuf/proto"

	log "github.com/LogicalOverflow/music-sync/logging"
	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

func init() {
	log.DefaultCutoffLevel = log.LevelOff
}

type vaddr string

func (a vaddr) Network() string { return "fake" }
func (a vaddr) String() string  { return string(a) }

var errBroken = errors.New("broken pipe")
var errClosed = errors.New("use of closed connection")

// fconn is one end of a connection. Like a TCP connection it accepts a Write
// as a whole or fails, delivers bytes in order and can be closed at any time.
type fconn struct {
	name   string
	sh     mc.Shared
	wrote  []byte
	writes int
	closed int
	in     []byte
	eof    bool // the peer has closed after in
	stall  bool // Write blocks until closed
	broken bool // Write fails
	// at what virtual time which byte was written, if clocked
	onWrite func(c *fconn, b []byte)
}

func (c *fconn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	c.sh.AccessWhen("read "+c.name, func() bool { return len(c.in) > 0 || c.eof || c.closed > 0 })
	if c.closed > 0 {
		return 0, errClosed
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(b, c.in)
	c.in = c.in[n:]
	return n, nil
}

func (c *fconn) Write(b []byte) (int, error) {
	c.sh.Access("write " + c.name)
	if c.closed > 0 {
		return 0, errClosed
	}
	if c.broken {
		return 0, errBroken
	}
	if c.stall {
		c.sh.AccessWhen("write "+c.name, func() bool { return c.closed > 0 || !c.stall })
		if c.closed > 0 {
			return 0, errClosed
		}
	}
	c.wrote = append(c.wrote, b...)
	c.writes++
	if c.onWrite != nil {
		c.onWrite(c, b)
	}
	return len(b), nil
}

// feed is the peer sending; end is the peer closing.
func (c *fconn) feed(ms ...proto.Message) {
	b := []byte{}
	for _, m := range ms {
		w, err := toWire(m)
		if err != nil {
			panic(err)
		}
		b = append(b, w...)
	}
	c.sh.Access("feed " + c.name)
	c.in = append(c.in, b...)
}

func (c *fconn) end() {
	c.sh.Access("end " + c.name)
	c.eof = true
}

func (c *fconn) Close() error {
	c.sh.Access("close " + c.name)
	c.closed++
	return nil
}
func (c *fconn) LocalAddr() net.Addr              { return vaddr("server") }
func (c *fconn) RemoteAddr() net.Addr             { return vaddr(c.name) }
func (c *fconn) SetDeadline(time.Time) error      { return nil }
func (c *fconn) SetReadDeadline(time.Time) error  { return nil }
func (c *fconn) SetWriteDeadline(time.Time) error { return nil }

// got decodes everything written to the connection.
func (c *fconn) got() (ms []proto.Message, err error) {
	return decodeAll(c.wrote)
}

// decodeAll is an independent decoder of the wire format: 8 bytes little
// endian length, then an Envelope.
func decodeAll(b []byte) (ms []proto.Message, err error) {
	for len(b) > 0 {
		if len(b) < 8 {
			return ms, fmt.Errorf("%d trailing bytes", len(b))
		}
		n := uint64(0)
		for i := 7; i >= 0; i-- {
			n = n<<8 | uint64(b[i])
		}
		if n > uint64(len(b)-8) {
			return ms, fmt.Errorf("frame of %d bytes, %d left", n, len(b)-8)
		}
		m, err := refMessage(b[8 : 8+n])
		if err != nil {
			return ms, err
		}
		ms = append(ms, m)
		b = b[8+n:]
	}
	return ms, nil
}

// newUnzip is set to the decompressor matching the build.
var newUnzip func(io.Reader) (io.ReadCloser, error)

func refMessage(b []byte) (proto.Message, error) {
	e := &Envelope{}
	if err := proto.Unmarshal(b, e); err != nil {
		return nil, err
	}
	t := proto.MessageType(e.Type)
	if t == nil {
		return nil, fmt.Errorf("unknown kind %q", e.Type)
	}
	r, err := newUnzip(bytes.NewReader(e.Data))
	if err != nil {
		return nil, err
	}
	data, err := ioutil.ReadAll(r)
	if err != nil {
		return nil, err
	}
	m := reflect.New(t.Elem()).Interface().(proto.Message)
	if err := proto.Unmarshal(data, m); err != nil {
		return nil, err
	}
	return m, nil
}

// key identifies a message's kind and contents.
func key(m proto.Message) string {
	if m == nil {
		return "nil"
	}
	b, err := proto.Marshal(m)
	if err != nil {
		return "unmarshallable " + err.Error()
	}
	return proto.MessageName(m) + ":" + string(b)
}

func keys(ms []proto.Message) []string {
	r := []string{}
	for _, m := range ms {
		r = append(r, key(m))
	}
	return r
}

func multiset(ks []string) map[string]int {
	r := map[string]int{}
	for _, k := range ks {
		r[k]++
	}
	return r
}

// kinds are the ten message kinds.
func kinds() []proto.Message {
	return []proto.Message{
		&TimeSyncRequest{ClientSend: 1},
		&TimeSyncResponse{ClientSendTime: 1, ServerRecvTime: 2, ServerSendTime: 3},
		&QueueChunkRequest{StartTime: 1, ChunkId: 2, SampleLow: []float64{.5, math.NaN()}, SampleHigh: []float64{-1, 2}, FirstSampleIndex: 3},
		&PingMessage{},
		&PongMessage{},
		&SetVolumeRequest{Volume: .25},
		&SubscribeChannelRequest{Channel: Channel_META},
		&NewSongInfo{FirstSampleOfSongIndex: 1, SongFileName: "a/b.mp3", SongLength: 9,
			Lyrics:   []*NewSongInfo_SongLyricsLine{{Atoms: []*NewSongInfo_SongLyricsAtom{{Timestamp: 1, Caption: "x"}}}},
			Metadata: &NewSongInfo_SongMetadata{Title: "t", Artist: "a", Album: "b"}},
		&ChunkInfo{StartTime: 1, FirstSampleIndex: 2, ChunkSize: 3},
		&PauseInfo{Playing: true, ToggleSampleIndex: 5},
	}
}
