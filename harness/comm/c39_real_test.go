package comm

import (
	"fmt"
	"net"
	"os"
	"syscall"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C39 with real sockets and real shortages of file descriptors.

type c39Sock struct{ fd int }

// a socket that can be connected while there are no more descriptors
func c39Socket(e *mc.E) *c39Sock {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		panic(err)
	}
	tv := syscall.Timeval{Sec: 15}
	syscall.SetsockoptTimeval(fd, syscall.SOL_SOCKET, syscall.SO_RCVTIMEO, &tv)
	syscall.SetsockoptTimeval(fd, syscall.SOL_SOCKET, syscall.SO_SNDTIMEO, &tv)
	return &c39Sock{fd}
}

func (s *c39Sock) connect(port int) {
	if err := syscall.Connect(s.fd, &syscall.SockaddrInet4{Port: port, Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		panic(err)
	}
}

func (s *c39Sock) send(ms ...proto.Message) error {
	for _, m := range ms {
		b, err := toWire(m)
		if err != nil {
			panic(err)
		}
		if _, err := syscall.Write(s.fd, b); err != nil {
			return err
		}
	}
	return nil
}

func (s *c39Sock) Read(b []byte) (int, error) { return syscall.Read(s.fd, b) }

// receive reads the next n bytes, at most.
func (s *c39Sock) receive(n int) []byte {
	got := make([]byte, 0, n)
	for len(got) < n {
		b := make([]byte, n-len(got))
		k, err := syscall.Read(s.fd, b)
		if err == syscall.EINTR {
			continue
		}
		if k <= 0 || err != nil {
			break
		}
		got = append(got, b[:k]...)
	}
	return got
}

func c39Real(e *mc.E) {
	e.Rule("a server on the loopback interface, 0 or 1 clients before, 1 to 3 shortages of file descriptors during each of which 0 to 3 clients connect, some of which give up again, and one client after each; distinct: histories")
	var lim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
	low := lim
	low.Cur = 128
	idx := 0
	for before := 0; before <= 1; before++ {
		for rounds := 1; rounds <= mc.Pick(2, 3); rounds++ {
			for during := 0; during <= 3; during++ {
				for quit := 0; quit <= during; quit++ {
					idx++
					if !e.Mine(idx) {
						continue
					}
					before, rounds, during, quit := before, rounds, during, quit
					e.Case(func() string {
						return fmt.Sprintf("%d clients before, %d shortages with %d clients connecting meanwhile, %d of which leave again", before, rounds, during, quit)
					})
					e.Timeout(100*time.Second, "the server", func() {
						syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low)
						defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
						p, err := net.Listen("tcp", "127.0.0.1:0")
						if err != nil {
							panic(err)
						}
						port := p.Addr().(*net.TCPAddr).Port
						p.Close()
						NewClientHandler = nil
						if _, err := StartServer(fmt.Sprintf("127.0.0.1:%d", port)); err != nil {
							panic(err)
						}
						all := []*c39Sock{}
						defer func() {
							for _, s := range all {
								syscall.Close(s.fd)
							}
						}()
						sock := func() *c39Sock { s := c39Socket(e); all = append(all, s); return s }
						pong, _ := toWire(&PongMessage{})
						served := func(s *c39Sock, who string) {
							err := s.send(&PingMessage{})
							got := s.receive(len(pong))
							e.Assert(err == nil && string(got) == string(pong), "unserved", "%s got %q as the answer to a ping (%v)", who, got, err)
							e.Step(1)
						}
						for i := 0; i < before; i++ {
							s := sock()
							s.connect(port)
							served(s, "the client that was there before")
						}
						for r := 0; r < rounds; r++ {
							meanwhile := []*c39Sock{}
							for i := 0; i < during; i++ {
								meanwhile = append(meanwhile, sock())
							}
							fill := []*os.File{}
							for {
								f, err := os.Open(os.DevNull)
								if err != nil {
									break
								}
								fill = append(fill, f)
							}
							for _, s := range meanwhile {
								s.connect(port)
							}
							time.Sleep(20 * time.Millisecond)
							for _, s := range meanwhile[:quit] {
								syscall.Shutdown(s.fd, syscall.SHUT_RDWR)
							}
							if before > 0 {
								served(all[0], "the client that was there before, during the shortage,")
							}
							for _, f := range fill {
								f.Close()
							}
							for _, s := range meanwhile[quit:] {
								served(s, fmt.Sprintf("a client that connected during shortage %d", r))
							}
							s := sock()
							s.connect(port)
							served(s, fmt.Sprintf("a client that connected after shortage %d", r))
						}
						e.Distinct(fmt.Sprint(before, rounds, during, quit))
						e.State(fmt.Sprint(before, rounds, during, quit))
					})
				}
			}
		}
	}
}

func TestMC(t *testing.T) {
	mc.Main(t, []mc.Scenario{{Name: "shortage", Enum: c39Real, Shards: 2}})
}
