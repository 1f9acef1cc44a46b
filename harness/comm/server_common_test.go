package comm

import (
	"errors"
	"net"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// vlistener hands out connections made by the harness.
type vlistener struct {
	sh    mc.Shared
	conns []net.Conn
	shut  bool
}

func (l *vlistener) Accept() (net.Conn, error) {
	l.sh.AccessWhen("accept", func() bool { return len(l.conns) > 0 || l.shut })
	if len(l.conns) == 0 {
		return nil, errors.New("listener closed")
	}
	c := l.conns[0]
	l.conns = l.conns[1:]
	return c, nil
}

func (l *vlistener) connect(c net.Conn) {
	l.sh.Access("connect")
	l.conns = append(l.conns, c)
}

func (l *vlistener) Close() error   { l.sh.Access("close listener"); l.shut = true; return nil }
func (l *vlistener) Addr() net.Addr { return vaddr("listener") }

func startServer() (*multiMessageSender, *vlistener) {
	mms := &multiMessageSender{connections: []net.Conn{}, channels: map[net.Conn][]Channel{}}
	l := &vlistener{}
	mc.GoNamed("acceptor", func() { serverConnectionAcceptor(mms, l) })
	return mms, l
}
