package ssh

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/logging"
	xssh "golang.org/x/crypto/ssh"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C39 for the control interface: after a shortage of file descriptors one can
// log in again, and sessions open during it go on.

type c39Out struct {
	sync.Mutex
	b bytes.Buffer
}

func (o *c39Out) Write(p []byte) (int, error) {
	o.Lock()
	defer o.Unlock()
	return o.b.Write(p)
}

// shows waits until s has been written n times.
func (o *c39Out) shows(s string, n int) bool {
	for i := 0; i < 1500; i++ {
		o.Lock()
		k := strings.Count(o.b.String(), s)
		o.Unlock()
		if k >= n {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

type c39Session struct {
	c    *xssh.Client
	in   interface{ Write([]byte) (int, error) }
	out  *c39Out
	runs int
}

func c39Login(addr string) (*c39Session, error) {
	c, err := xssh.Dial("tcp", addr, &xssh.ClientConfig{User: "u", Auth: []xssh.AuthMethod{xssh.Password("p")}, HostKeyCallback: xssh.InsecureIgnoreHostKey(), Timeout: 20 * time.Second})
	if err != nil {
		return nil, err
	}
	s, err := c.NewSession()
	if err != nil {
		return nil, err
	}
	out := &c39Out{}
	s.Stdout, s.Stderr = out, out
	in, err := s.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err := s.RequestPty("xterm", 24, 80, xssh.TerminalModes{}); err != nil {
		return nil, err
	}
	return &c39Session{c: c, in: in, out: out}, s.Shell()
}

// works reports whether a command is answered.
func (s *c39Session) works() bool {
	s.runs++
	s.in.Write([]byte("nosuchcommand\r"))
	return s.out.shows("Unknown command 'nosuchcommand'", s.runs)
}

func c39Shortage(e *mc.E) {
	e.Rule("the control interface, 0 or 1 sessions open before, 1 to 2 shortages of file descriptors during each of which 0 to 3 connections are made, one login after each; distinct: histories")
	log.DefaultCutoffLevel = log.LevelOff
	var lim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
	low := lim
	low.Cur = 128
	idx := 0
	for before := 0; before <= 1; before++ {
		for rounds := 1; rounds <= 2; rounds++ {
			for during := 0; during <= 3; during++ {
				idx++
				if !e.Mine(idx) {
					continue
				}
				before, rounds, during := before, rounds, during
				e.Case(func() string {
					return fmt.Sprintf("%d sessions before, %d shortages with %d connections meanwhile", before, rounds, during)
				})
				e.Timeout(100*time.Second, "the control interface", func() {
					syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low)
					defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
					p, err := net.Listen("tcp", "127.0.0.1:0")
					if err != nil {
						panic(err)
					}
					addr := p.Addr().String()
					port := p.Addr().(*net.TCPAddr).Port
					p.Close()
					go StartSSH(addr, map[string]UserAuth{"u": {Password: "p"}})
					var first *c39Session
					for i := 0; i < 200; i++ { // until it listens
						if first, err = c39Login(addr); err == nil {
							break
						}
						time.Sleep(20 * time.Millisecond)
					}
					e.Assert(err == nil, "login", "nobody can log in: %v", err)
					e.Assert(first.works(), "session", "a session does not answer")
					if before == 0 {
						first.c.Close()
						first = nil
					} else {
						defer first.c.Close()
					}
					for r := 0; r < rounds; r++ {
						fds := []int{}
						for i := 0; i < during; i++ {
							fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
							if err != nil {
								panic(err)
							}
							fds = append(fds, fd)
						}
						fill := []*os.File{}
						for {
							f, err := os.Open(os.DevNull)
							if err != nil {
								break
							}
							fill = append(fill, f)
						}
						for _, fd := range fds {
							if err := syscall.Connect(fd, &syscall.SockaddrInet4{Port: port, Addr: [4]byte{127, 0, 0, 1}}); err != nil {
								panic(err)
							}
						}
						time.Sleep(20 * time.Millisecond)
						if first != nil {
							e.Assert(first.works(), "session", "during shortage %d, the session that was open does not answer", r)
						}
						for _, f := range fill {
							f.Close()
						}
						s, err := c39Login(addr)
						e.Assert(err == nil, "login", "nobody can log in after shortage %d: %v", r, err)
						e.Assert(s.works(), "session", "a session opened after shortage %d does not answer", r)
						s.c.Close()
						if first != nil {
							e.Assert(first.works(), "session", "after shortage %d, the session that was open does not answer", r)
						}
						for _, fd := range fds {
							syscall.Close(fd)
						}
						e.Step(1)
					}
					e.Distinct(fmt.Sprint(before, rounds, during))
					e.State(fmt.Sprint(before, rounds, during))
				})
			}
		}
	}
}

func TestMC(t *testing.T) {
	mc.Main(t, []mc.Scenario{{Name: "shortage", Enum: c39Shortage, Shards: 4}})
}
