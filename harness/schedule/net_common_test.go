package schedule

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// A server's state behind comm's real server, with connections that are
// stand-ins.

type naddr string

func (a naddr) Network() string { return "fake" }
func (a naddr) String() string  { return string(a) }

var errNetClosed = errors.New("use of closed connection")

type nconn struct {
	name   string
	sh     mc.Shared
	in     []byte
	wrote  []byte
	eof    bool
	closed bool
	full   func() bool // nothing is taken while it is true; who makes it false accesses sh
	part   int         // so many bytes are taken at once, 0: all
}

func (c *nconn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	c.sh.AccessWhen("read "+c.name, func() bool { return len(c.in) > 0 || c.eof || c.closed })
	if c.closed {
		return 0, errNetClosed
	}
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := copy(b, c.in)
	c.in = c.in[n:]
	return n, nil
}

func (c *nconn) Write(b []byte) (int, error) {
	c.sh.AccessWhen("write "+c.name, func() bool { return c.full == nil || c.closed || !c.full() })
	if c.closed {
		return 0, errNetClosed
	}
	if c.part > 0 && c.part < len(b) {
		b = b[:c.part]
	}
	c.wrote = append(c.wrote, b...)
	return len(b), nil
}

func (c *nconn) Close() error                     { c.sh.Access("close " + c.name); c.closed = true; return nil }
func (c *nconn) LocalAddr() net.Addr              { return naddr("server") }
func (c *nconn) RemoteAddr() net.Addr             { return naddr(c.name) }
func (c *nconn) SetDeadline(time.Time) error      { return nil }
func (c *nconn) SetReadDeadline(time.Time) error  { return nil }
func (c *nconn) SetWriteDeadline(time.Time) error { return nil }

// got is what the client has been sent.
func (c *nconn) got() []proto.Message { return comm.VerifDecode(c.wrote) }

// say is the client sending.
func (c *nconn) say(m proto.Message) {
	b := comm.VerifEncode(m)
	c.sh.Access("say " + c.name)
	c.in = append(c.in, b...)
}

type nlistener struct {
	sh    mc.Shared
	conns []net.Conn
}

func (l *nlistener) Accept() (net.Conn, error) {
	l.sh.AccessWhen("accept", func() bool { return len(l.conns) > 0 })
	c := l.conns[0]
	l.conns = l.conns[1:]
	return c, nil
}

func (l *nlistener) Close() error   { return nil }
func (l *nlistener) Addr() net.Addr { return naddr("listener") }

// connect is a client connecting.
func (l *nlistener) connect(name string) *nconn {
	c := &nconn{name: name}
	l.sh.Access("connect")
	l.conns = append(l.conns, c)
	return c
}

// join is a client connecting and subscribing.
func (l *nlistener) join(name string, ch comm.Channel) *nconn {
	c := l.connect(name)
	c.say(&comm.SubscribeChannelRequest{Channel: ch})
	return c
}

// behind puts the state behind comm's server.
func behind(ss *serverState) *nlistener {
	l := &nlistener{}
	comm.NewClientHandler = ss.createClientHandler()
	ss.sender = comm.VerifServer(l, func(f func()) { mc.GoNamed("acceptor", f) })
	return l
}
