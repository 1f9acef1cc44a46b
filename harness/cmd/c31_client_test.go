package main

import (
	"fmt"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/cmd"
	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/schedule"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// set by the programs
var (
	c31Channel  comm.Channel
	c31WantMore func(rate, history int) int
	c31History  bool // there is the option lyrics-history-size
	c31Terminal func(c *exec.Cmd) (closer func())
)

// Clients may subscribe only once their time is synced, which takes five
// seconds by default and can not be set by an option.
func init() {
	if os.Getenv("C31_JOB") != "" {
		schedule.TimeSyncCycles, schedule.TimeSyncCycleDelay = 2, time.Millisecond
	}
}

// c31Subs counts who has subscribed to the parent's servers.
type c31Subs struct {
	mutex sync.Mutex
	subs  []comm.Channel
}

func (s *c31Subs) get() []comm.Channel {
	s.mutex.Lock()
	defer s.mutex.Unlock()
	return append([]comm.Channel(nil), s.subs...)
}

// c31Begin starts the client.
func c31Begin(args []string, env ...string) (p *c31Proc, closer func()) {
	closer = func() {}
	p = c31Start("/", args, nil, func(c *exec.Cmd) {
		c.Env = append(c.Env, env...)
		if c31Terminal != nil {
			closer = c31Terminal(c)
		}
	})
	return
}

type c31ClientCase struct {
	addr, port, rate, history string // "": not given
	args                      []string
}

func c31ClientCases(defaults bool) (r []c31ClientCase) {
	addrs, ports := []string{c31Here(1), ""}, []string{c31Ports(1), ""}
	rates, histories := []string{"", "44100", "1", "48000", "192000"}, []string{""}
	if c31History {
		histories = []string{"", "5", "0", "1", "37"}
	}
	n := 0
	for _, a := range addrs {
		for _, p := range ports {
			if (a == "" && p == "") != defaults {
				continue
			}
			for _, ra := range rates {
				for _, h := range histories {
					opts := [][]string{}
					add := func(v string, names ...string) {
						if v != "" {
							opts = append(opts, c31Form(names[n%len(names)], v, n+len(opts)))
						}
					}
					n++
					add(a, "address", "addr", "a")
					add(p, "port", "p")
					add(ra, "sample-rate")
					add(h, "lyrics-history-size")
					c31Perms(len(opts), func(order []int) {
						c := c31ClientCase{a, p, ra, h, nil}
						for _, k := range order {
							c.args = append(c.args, opts[k]...)
						}
						r = append(r, c)
					})
				}
			}
		}
	}
	return
}

// c31Here is an address for this program, c31Ports a port.
func c31Here(i int) string  { return fmt.Sprintf("127.%d.1.%d", 210+int(c31Channel), i) }
func c31Ports(i int) string { return fmt.Sprint(21010 + 10*int(c31Channel) + i) }

// c31Perms calls f with every permutation of 0..n-1.
func c31Perms(n int, f func(order []int)) {
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(order)
			return
		}
		for i := k; i < n; i++ {
			order[k], order[i] = order[i], order[k]
			rec(k + 1)
			order[k], order[i] = order[i], order[k]
		}
	}
	rec(0)
}

func c31Default(e *mc.E) {
	c31Lock()
	c31Client(e, true, cmd.DefaultMusicAddress+":"+fmt.Sprint(cmd.DefaultMusicPort))
}

func c31Given(e *mc.E) {
	d := fmt.Sprint(cmd.DefaultMusicPort)
	c31Client(e, false, c31Here(1)+":"+c31Ports(1), c31Here(1)+":"+d, cmd.DefaultMusicAddress+":"+c31Ports(1))
}

func c31Client(e *mc.E, defaults bool, servers ...string) {
	e.Rule("client started with every combination and order of its options with several values each, in rotating alias and form; distinct: settings in effect")
	s := &c31Subs{}
	log.DefaultCutoffLevel = log.LevelOff
	comm.NewClientHandler = func(channel comm.Channel, _ comm.MessageSender) {
		s.mutex.Lock()
		defer s.mutex.Unlock()
		if channel != -1 {
			s.subs = append(s.subs, channel)
		}
	}
	for _, at := range servers {
		if _, err := comm.StartServer(at); err != nil {
			panic(err)
		}
	}
	for _, c := range c31ClientCases(defaults) {
		c := c
		if !e.Case(func() string { return strings.Join(c.args, "|") }) {
			return
		}
		s.mutex.Lock()
		s.subs = nil
		s.mutex.Unlock()
		p, closer := c31Begin(c.args)
		rate, history := cmd.DefaultSampleRate, int(cmd.DefaultLyricsHistorySize)
		if c.rate != "" {
			fmt.Sscan(c.rate, &rate)
		}
		if c.history != "" {
			fmt.Sscan(c.history, &history)
		}
		// the connection is made after the options have taken effect
		until := time.Now().Add(c31Limit)
		for len(s.get()) == 0 && time.Now().Before(until) {
			time.Sleep(time.Millisecond)
			select {
			case <-p.done:
				until = time.Time{}
			default:
			}
		}
		v, ok := p.look()
		for try := 0; ok && (v.Rate != rate || v.More != c31WantMore(rate, history)) && try < 50; try++ {
			time.Sleep(20 * time.Millisecond)
			v, ok = p.look()
		}
		p.end()
		closer()
		e.Assert(ok, "start", "the client ended with code %d: %s", p.rc, p.stderr())
		got := s.get()
		e.Assert(len(got) == 1 && got[0] == c31Channel, "subscribed", "the client subscribed to %v: %s", got, p.stderr())
		e.Assert(v.Rate == rate, "rate", "the sample rate is %d instead of %d", v.Rate, rate)
		e.Assert(v.More == c31WantMore(rate, history), "more", "the audio device's sample rate or the number of lyrics lines is %d instead of %d", v.More, c31WantMore(rate, history))
		e.Distinct(fmt.Sprint(c.addr, c.port, v))
		e.Step(1)
	}
}

// c31Where: the client connects to where it is told to, and nowhere else.
func c31Where(e *mc.E) {
	e.Rule("client started with every combination of its address options while there is a server at only one of the addresses they could mean; distinct: combinations")
	c31Lock()
	at := [4]string{"127.0.0.1:13333", c31Here(2) + ":13333", "127.0.0.1:" + c31Ports(2), c31Here(2) + ":" + c31Ports(2)}
	log.DefaultCutoffLevel = log.LevelOff
	for there := range at {
		l, err := net.Listen("tcp", at[there])
		if err != nil {
			panic(err)
		}
		conns := make(chan net.Conn, 16)
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				conns <- c
			}
		}()
		for set := range at {
			args := []string{}
			if set&1 == 1 {
				args = append(args, "--address", c31Here(2))
			}
			if set&2 == 2 {
				args = append(args, "--port", c31Ports(2))
			}
			if !e.Case(func() string { return fmt.Sprint(args, " with a server at ", at[there]) }) {
				return
			}
			p, closer := c31Begin(args)
			if set != there {
				p.fails(e, "no server at "+at[set])
				e.Assert(len(conns) == 0, "where", "the client connected to %s instead of %s", at[there], at[set])
			} else {
				select {
				case c := <-conns:
					p.end()
					c.Close()
				case <-p.done:
					e.Fail("start", "the client did not connect to %s but ended with code %d: %s", at[set], p.rc, p.stderr())
				case <-time.After(c31Limit):
					p.end()
					e.Fail("start", "the client did not connect to %s", at[set])
				}
			}
			closer()
			e.Distinct([2]int{there, set})
			e.Step(1)
		}
		l.Close()
	}
}

// c31ClientFailures: what goes wrong is an error.
func c31ClientFailures(e *mc.E) {
	e.Rule("client started with every combination of its preconditions failing (server to connect to, sample rate, option values, audio device or terminal), in several ways each; distinct: combinations")
	comm.NewClientHandler = nil
	log.DefaultCutoffLevel = log.LevelOff
	l, err := net.Listen("tcp", c31Here(3)+":21001")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	servers := [][]string{{"-a", c31Here(3), "-p", "21001"}, {"-a", c31Here(3), "-p", "21002"}, {"-a", c31Here(3), "-p", "65536"}, {"-a", c31Here(3), "-p", "-1"}, {"-a", c31Here(3)}}
	rates := [][]string{nil, {"--sample-rate", "0"}, {"--sample-rate", "-1"}}
	bad := [][]string{nil, {"--sample-rate", "x"}, {"--sample-rate", ""}, {"--port", "x"}, {"--port", "1x"}, {"--no-such-option"}, {"--address"}}
	if c31History {
		bad = append(bad, []string{"--lyrics-history-size", "-1"}, []string{"--lyrics-history-size", "x"})
	}
	for i, sv := range servers {
		for j, ra := range rates {
			for k, b := range bad {
				for _, broken := range []bool{false, true} {
					if i+j+k == 0 && !broken {
						continue
					}
					args := append(append(append([]string(nil), sv...), ra...), b...)
					if !e.Case(func() string { return fmt.Sprint(strings.Join(args, "|"), " broken ", broken) }) {
						return
					}
					env := []string{}
					closer := func() {}
					var p *c31Proc
					if broken && c31Terminal != nil { // no terminal
						p = c31Start("/", args, nil, func(c *exec.Cmd) {
							c.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
						})
					} else {
						if broken {
							env = append(env, "C31_BROKEN=1")
						}
						p, closer = c31Begin(args, env...)
					}
					p.fails(e, fmt.Sprint(args, " broken ", broken))
					closer()
					e.Distinct(fmt.Sprint(i, j, k, broken))
					e.Step(1)
				}
			}
		}
	}
}

func TestMC(t *testing.T) {
	mc.Main(t, []mc.Scenario{
		{Name: "options", Enum: c31Given},
		{Name: "default", Enum: c31Default},
		{Name: "where", Enum: c31Where},
		{Name: "clientfailures", Enum: c31ClientFailures},
	})
}
