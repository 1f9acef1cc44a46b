package schedule

import (
	"fmt"
	"io"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C36: the server keeps nothing of a client that is gone. The whole server
// over comm's real server, in real time, streaming silence.

func init() { log.DefaultCutoffLevel = log.LevelOff }

// c36Conn is what the server gets; nothing else refers to it.
type c36Conn struct{ *c36State }

type c36State struct {
	mu      sync.Mutex
	cond    *sync.Cond
	in      []byte
	readErr error // after in
	closed  bool
	stall   bool // writes wait
	broken  bool // writes fail
	wrote   int
}

func newC36Conn() *c36Conn {
	c := &c36Conn{&c36State{}}
	c.cond = sync.NewCond(&c.mu)
	return c
}

func (c *c36State) set(f func()) {
	c.mu.Lock()
	defer c.mu.Unlock()
	f()
	c.cond.Broadcast()
}

func (c *c36State) is(f func() bool) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return f()
}

func (c *c36State) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for len(b) > 0 && !c.closed && len(c.in) == 0 && c.readErr == nil {
		c.cond.Wait()
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if len(c.in) == 0 && len(b) > 0 {
		return 0, c.readErr
	}
	n := copy(b, c.in)
	c.in = c.in[n:]
	return n, nil
}

func (c *c36State) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for c.stall && !c.closed {
		c.cond.Wait()
	}
	if c.closed {
		return 0, net.ErrClosed
	}
	if c.broken {
		return 0, io.ErrClosedPipe
	}
	c.wrote += len(b)
	return len(b), nil
}

func (c *c36State) Close() error                    { c.set(func() { c.closed = true }); return nil }
func (c *c36Conn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *c36Conn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *c36Conn) SetDeadline(time.Time) error      { return nil }
func (c *c36Conn) SetReadDeadline(time.Time) error  { return nil }
func (c *c36Conn) SetWriteDeadline(time.Time) error { return nil }

type c36Listener chan net.Conn

func (l c36Listener) Accept() (net.Conn, error) { return <-l, nil }
func (l c36Listener) Close() error              { return nil }
func (l c36Listener) Addr() net.Addr            { return &net.TCPAddr{} }

var c36Server struct {
	once sync.Once
	l    c36Listener
	cmds map[string]ssh.Command
}

// c36Fewest is the number of goroutines at the quietest of several moments.
func c36Fewest() int {
	n := 1 << 30
	for i := 0; i < 200; i++ {
		if g := runtime.NumGoroutine(); g < n {
			n = g
		}
		time.Sleep(100 * time.Microsecond)
	}
	return n
}

func c36Start() {
	c36Server.once.Do(func() {
		playback.AudioDir = "/nonexistent"
		SampleRate, StreamChunkSize, NanBreakSize = 1000, 2, 2
		StreamChunkTime, StreamStartDelay, StreamDelay = 20*time.Millisecond, 0, 50*time.Millisecond
		c36Server.l = make(c36Listener, 10)
		Server(comm.VerifServer(c36Server.l, func(f func()) { go f() }))
		c36Server.cmds = ssh.VerifCommands()
	})
}

var c36Ops = []string{"audio", "meta", "sync", "ping", "volume", "half", "set", "stall", "wait"}
var c36Ways = []string{"end", "error", "garbage", "broken", "stalled"}

func c36Client(ops []string, way string) *c36Conn {
	c := newC36Conn()
	c36Server.l <- c
	say := func(m proto.Message) {
		b := comm.VerifEncode(m)
		c.set(func() { c.in = append(c.in, b...) })
	}
	for _, op := range ops {
		switch op {
		case "audio":
			say(&comm.SubscribeChannelRequest{Channel: comm.Channel_AUDIO})
		case "meta":
			say(&comm.SubscribeChannelRequest{Channel: comm.Channel_META})
		case "sync":
			say(&comm.TimeSyncRequest{ClientSend: 1})
		case "ping":
			say(&comm.PingMessage{})
		case "volume":
			say(&comm.SetVolumeRequest{Volume: .3})
		case "half":
			b := comm.VerifEncode(&comm.PingMessage{})
			c.set(func() { c.in = append(c.in, b[:len(b)/2]...) })
		case "set":
			go c36Server.cmds["volume"].Exec([]string{"0.5"})
		case "stall":
			c.set(func() { c.stall = true })
		case "wait": // some chunks are sent
			time.Sleep(3 * StreamChunkTime / 2)
		}
	}
	switch way {
	case "end":
		c.set(func() { c.readErr = io.EOF })
	case "error":
		c.set(func() { c.readErr = io.ErrUnexpectedEOF })
	case "garbage":
		c.set(func() {
			c.in = append(c.in, make([]byte, 40)...)
			c.in = append(c.in, 255, 255, 255, 255, 255, 255, 255, 255)
			c.readErr = io.EOF
		})
	case "broken": // noticed while writing before it is while reading
		c.set(func() { c.broken = true })
		go c36Server.cmds["volume"].Exec([]string{"0.4"})
		time.Sleep(time.Millisecond)
		c.set(func() { c.readErr = io.ErrUnexpectedEOF })
	case "stalled":
		c.set(func() { c.stall = true })
		time.Sleep(3 * StreamChunkTime / 2)
		c.set(func() { c.readErr = io.EOF })
	}
	return c
}

func c36Until(d time.Duration, f func() bool) bool {
	for t := time.Now(); ; time.Sleep(50 * time.Microsecond) {
		if f() {
			return true
		}
		if time.Since(t) > d {
			return false
		}
	}
}

const c36Reps, c36Keep = 8, 4

// c36Histories: clients that do every sequence of operations and leave in
// every way, again and again, while others stay.
func c36Histories(depth, others int) func(*mc.E) {
	return func(e *mc.E) {
		e.Rule(fmt.Sprintf("clients that do every sequence of at most %d of the operations %v and then leave in every way of %v, %d times each, while %d other clients stay; distinct: sequence and way", depth, c36Ops, c36Ways, c36Reps, others))
		c36Start()
		for i := 0; i < others; i++ {
			o := newC36Conn()
			c36Server.l <- o
			b := append(comm.VerifEncode(&comm.SubscribeChannelRequest{Channel: comm.Channel_AUDIO}), comm.VerifEncode(&comm.SubscribeChannelRequest{Channel: comm.Channel_META})...)
			o.set(func() { o.in = b })
		}
		n, base := 0, 0
		run := func(ops []string, way string) {
			if base == 0 {
				time.Sleep(5 * StreamChunkTime)
				base = c36Fewest()
			}
			freed := int32(0)
			for i := 0; i < c36Reps; i++ {
				c := c36Client(ops, way)
				e.Assert(c36Until(10*time.Second, func() bool { return c.is(func() bool { return c.closed }) }), "open", "the connection of a client that is gone stays open")
				runtime.SetFinalizer(c, func(*c36Conn) { atomic.AddInt32(&freed, 1) })
			}
			g := 0
			e.Assert(c36Until(10*time.Second, func() bool { g = runtime.NumGoroutine(); return g <= base }), "goroutines", "%d goroutines instead of %d after %d clients came and went", g, base, c36Reps)
			ok := false
			for t := time.Now(); !ok && time.Since(t) < 10*time.Second; {
				runtime.GC()
				ok = c36Until(3*time.Millisecond, func() bool { return atomic.LoadInt32(&freed) >= c36Reps-c36Keep })
			}
			e.Assert(ok, "kept", "%d of %d connections of clients that are gone are still referred to", c36Reps-atomic.LoadInt32(&freed), c36Reps)
			e.Step(c36Reps * (len(ops) + 1))
			e.DistinctH(mc.Hash(fmt.Sprint(ops, way)))
		}
		var rec func(ops []string)
		rec = func(ops []string) {
			for _, way := range c36Ways {
				if n++; e.Mine(n) && !e.Stopped() {
					way := way
					e.Case(func() string { return fmt.Sprintf("client: %v, leaves by %s", ops, way) })
					e.Timeout(60*time.Second, "history", func() { run(ops, way) })
				}
			}
			if len(ops) < depth {
				for _, op := range c36Ops {
					rec(append(append([]string{}, ops...), op))
				}
			}
		}
		rec(nil)
	}
}

func TestMC(t *testing.T) {
	mc.Main(t, []mc.Scenario{
		{Name: "alone", Enum: c36Histories(mc.Pick(2, 3), 0), Shards: 4},
		{Name: "among_others", Enum: c36Histories(mc.Pick(2, 3), 2), Shards: 4},
	})
}
