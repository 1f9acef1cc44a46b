package comm

import (
	"fmt"
	"net"
	"os"
	"syscall"
	"testing"

	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C39: whatever fails temporarily while clients are accepted, the server goes
// on accepting them.

// c39Listener fails in between.
type c39Listener struct {
	*vlistener
	errs []error // nil: the next connection
}

func (l *c39Listener) Accept() (net.Conn, error) {
	l.sh.AccessWhen("accept", func() bool { return len(l.errs) > 0 || len(l.conns) > 0 || l.shut })
	if len(l.errs) > 0 {
		err := l.errs[0]
		l.errs = l.errs[1:]
		return nil, err
	}
	return l.vlistener.Accept()
}

func (l *c39Listener) fail(err error) {
	l.sh.Access("fail")
	l.errs = append(l.errs, err)
}

// the ways in which accepting fails temporarily, as the net package reports them (aborted connections it skips itself)
var c39Errors = []syscall.Errno{syscall.EMFILE, syscall.ENFILE, syscall.EINTR}

func c39Error(i int) error {
	return &net.OpError{Op: "accept", Net: "tcp", Addr: vaddr("listener"), Err: os.NewSyscallError("accept4", c39Errors[i])}
}

// c39History: every sequence of connecting clients and failures; all at any
// moment, or one after the other.
func c39History(depth, errors int, settled bool) func() {
	return func() {
		NewClientHandler = nil
		mms := &multiMessageSender{connections: []net.Conn{}, channels: map[net.Conn][]Channel{}}
		l := &c39Listener{vlistener: &vlistener{}}
		mc.GoNamed("acceptor", func() { serverConnectionAcceptor(mms, l) })
		conns := []*fconn{}
		story := ""
		connect := func() {
			c := &fconn{name: fmt.Sprintf("client%d", len(conns))}
			c.feed(&PingMessage{}, &SubscribeChannelRequest{Channel: Channel_META})
			conns = append(conns, c)
			l.connect(c)
			story += "client "
		}
		for i := 0; i < depth; i++ {
			if k := mc.Choose(errors + 1); k == 0 {
				connect()
			} else {
				l.fail(c39Error(k - 1))
				story += c39Errors[k-1].Error() + " "
			}
			if settled {
				mc.SleepNs(20e9)
				mc.Quiesce()
			}
		}
		connect()
		mc.SleepNs(20e9)
		mc.Quiesce()
		m := &ChunkInfo{ChunkSize: 7}
		err := mms.SendMessage(m)
		mc.Assert(err == nil, "broadcast", "after %s: broadcasting: %v", story, err)
		for _, c := range conns {
			mc.Assert(c.closed == 0, "closed", "after %s: the connection of %s is closed", story, c.name)
			got, err := c.got()
			mc.Assert(err == nil, "undecodable", "%s was sent what can not be decoded: %v", c.name, err)
			want := []proto.Message{&PongMessage{}, m}
			w, g := fmt.Sprint(multiset(keys(want))), fmt.Sprint(multiset(keys(got)))
			mc.Assert(w == g, "unserved", "after %s: %s was sent %v instead of %v", story, c.name, g, w)
		}
		mc.Outcome(story)
	}
}

func TestMC(t *testing.T) {
	mc.Main(t, []mc.Scenario{
		{Name: "one_by_one", Body: c39History(5, 3, true), MaxBound: 1},
		{Name: "at_once", Body: c39History(3, 2, false), MaxBound: 2},
		{Name: "one_by_one_long", Body: c39History(7, 3, true), Thorough: true},
	})
}
