package ssh

import (
	"fmt"
	"io"
	"io/ioutil"
	"net"
	"runtime"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/logging"
	xssh "golang.org/x/crypto/ssh"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C36, control interface: nothing is left of sessions that are over.

func c36Fds() int {
	fs, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		return 0
	}
	return len(fs)
}

func c36Until(d time.Duration, f func() bool) bool {
	for t := time.Now(); ; time.Sleep(200 * time.Microsecond) {
		if f() {
			return true
		}
		if time.Since(t) > d {
			return false
		}
	}
}

var c36Stages = []string{"tcp", "garbage", "denied", "connected", "session", "pty", "shell", "no-pty", "exec", "two"}
var c36Keys = []string{"", "probe a\r", "prob", "help\r", "\x03", "probe a\rexit\r", "\x04"}
var c36Leave = []string{"close", "drop", "end-of-input"}

// c36Visit goes as far as stage, types keys and leaves.
func c36Visit(addr, stage, keys, leave string) error {
	nc, err := net.Dial("tcp", addr)
	if err != nil {
		return err
	}
	defer nc.Close()
	switch stage {
	case "tcp":
		return nil
	case "garbage":
		io.WriteString(nc, "SSH-2.0-x\r\n\x00\x00\x00\x02ab")
		return nil
	}
	pw := "p"
	if stage == "denied" {
		pw = "wrong"
	}
	c, chans, reqs, err := xssh.NewClientConn(nc, addr, &xssh.ClientConfig{User: "u", Auth: []xssh.AuthMethod{xssh.Password(pw)}, HostKeyCallback: xssh.InsecureIgnoreHostKey()})
	if stage == "denied" {
		if err == nil {
			return fmt.Errorf("a wrong password is accepted")
		}
		return nil
	}
	if err != nil {
		return err
	}
	client := xssh.NewClient(c, chans, reqs)
	if stage == "connected" {
		client.Close()
		return nil
	}
	n := 1
	if stage == "two" {
		n = 2
	}
	var ins []io.WriteCloser
	var ss []*xssh.Session
	for i := 0; i < n; i++ {
		s, err := client.NewSession()
		if err != nil {
			return err
		}
		in, err := s.StdinPipe()
		if err != nil {
			return err
		}
		ins, ss = append(ins, in), append(ss, s)
		if stage == "session" {
			continue
		}
		if stage != "no-pty" {
			if err := s.RequestPty("xterm", 24, 80, xssh.TerminalModes{}); err != nil {
				return err
			}
		}
		switch stage {
		case "pty":
		case "exec":
			s.Start("probe a")
		default:
			s.Shell()
		}
		io.WriteString(in, keys)
		if stage == "shell" || stage == "two" {
			s.WindowChange(30, 100)
		}
	}
	switch leave {
	case "close":
		for _, s := range ss {
			s.Close()
		}
		client.Close()
	case "drop":
		nc.Close()
	case "end-of-input":
		for _, in := range ins {
			in.Close()
		}
		time.Sleep(2 * time.Millisecond)
		client.Close()
	}
	return nil
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	addr, base, fds := "", 0, 0
	start := func(e *mc.E) {
		if addr != "" {
			return
		}
		RegisterCommand(Command{Name: "probe", Usage: "usage", Info: "info", ExecFunc: func([]string) (string, bool) { return "answer", true }})
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		addr = l.Addr().String()
		l.Close()
		go StartSSH(addr, map[string]UserAuth{"u": {Password: "p"}})
		ok := c36Until(20*time.Second, func() bool { return c36Visit(addr, "shell", "exit\r", "close") == nil })
		e.Assert(ok, "start", "the control interface does not start")
		// what is started once is there after some visits; what does not end adds up afterwards
		for i := 0; i < 5; i++ {
			c36Visit(addr, "shell", "exit\r", "close")
		}
		time.Sleep(300 * time.Millisecond)
		base, fds = runtime.NumGoroutine(), c36Fds()
	}
	mc.Main(t, []mc.Scenario{{Name: "sessions", Shards: 8, Enum: func(e *mc.E) {
		reps := mc.Pick(6, 20)
		e.Rule(fmt.Sprintf("visits to the control interface that go as far as each of %v, type each of %q and leave in each of the ways %v, %d times each; distinct: all of these", c36Stages, c36Keys, c36Leave, reps))
		n := 0
		for _, stage := range c36Stages {
			for _, keys := range c36Keys {
				for _, leave := range c36Leave {
					if (stage == "tcp" || stage == "garbage" || stage == "denied" || stage == "connected") && (keys != "" || leave != "close") {
						continue
					}
					if n++; !e.Mine(n) {
						continue
					}
					stage, keys, leave := stage, keys, leave
					e.Case(func() string { return fmt.Sprintf("visits up to %q typing %q and leaving by %s", stage, keys, leave) })
					start(e)
					g, f := 0, 0
					e.Timeout(100*time.Second, "visits", func() {
						for i := 0; i < reps; i++ {
							if err := c36Visit(addr, stage, keys, leave); err != nil {
								e.Assert(false, "visit", "visit %d: %v", i, err)
							}
						}
						c36Until(10*time.Second, func() bool { g, f = runtime.NumGoroutine()-1, c36Fds(); return g <= base+1 && f <= fds+1 })
					})
					e.Assert(g <= base+1, "goroutines", "%d goroutines instead of %d after %d visits", g, base, reps)
					e.Assert(f <= fds+1, "files", "%d open files instead of %d after %d visits", f, fds, reps)
					e.Step(reps)
					e.DistinctH(mc.Hash(stage, keys, leave))
				}
			}
		}
	}}})
}
