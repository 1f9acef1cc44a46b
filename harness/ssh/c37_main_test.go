package ssh

import (
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/logging"
	xssh "golang.org/x/crypto/ssh"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C37: control sessions do not disturb one another.
//
// Sessions of real ssh connections are driven through every interleaving of
// their inputs; what a session runs and shows has to be what its own input
// asks for, and nothing of what belongs to another session.

// c37Step is one thing that happens to a session. M stands for the session's marker.
type c37Step struct {
	keys string
	act  string   // close, drop, stall, read, release, resize
	runs []string // the commands it runs
	show []string // shown afterwards, in this order
	skip bool     // nothing to wait for
}

func c37Run(keys string, args ...string) c37Step {
	return c37Step{keys: keys, runs: []string{strings.Join(args, "|")}, show: []string{"answer to <" + strings.Join(args[1:], "|") + ">"}}
}

type c37Script struct {
	name  string
	steps []c37Step
}

func c37Scripts() []c37Script {
	exit := c37Step{keys: "exit\r", skip: true}
	return []c37Script{
		{"typed", []c37Step{{keys: "probe M1", show: []string{"probe M1"}}, c37Run("2 x\r", "probe", "M12", "x"), exit}},
		{"history", []c37Step{c37Run("other M3\r", "other", "M3"), {keys: "\x1b[A"}, c37Run("4\r", "other", "M34"), {keys: "\x04", skip: true}}},
		{"completed", []c37Step{{keys: "pro"}, {keys: "\t"}, c37Run("M5\r", "probe", "M5"), {act: "close"}}},
		{"abandoned", []c37Step{{keys: "probe M6"}, {keys: "\x03"}, c37Run("probe M7\r", "probe", "M7"), exit}},
		{"blocked", []c37Step{{keys: "block M8\r", runs: []string{"block|M8"}}, {act: "release", show: []string{"answer to <M8>"}}, c37Run("probe M9\r", "probe", "M9"), exit}},
		{"ahead", []c37Step{{keys: "block Mf\rprobe Mg\rprobe Mh\r", runs: []string{"block|Mf"}}, {act: "release", runs: []string{"probe|Mg", "probe|Mh"}, show: []string{"answer to <Mf>", "answer to <Mg>", "answer to <Mh>"}}, exit}},
		{"stalled", []c37Step{{act: "stall", keys: "flood Ma\r", runs: []string{"flood|Ma"}}, {act: "read", show: []string{"answer to <Ma>"}}, c37Run("probe Mb\r", "probe", "Mb"), exit}},
		{"resized", []c37Step{{keys: "probe Mc"}, {act: "resize", skip: true}, c37Run(" Md\r", "probe", "Mc", "Md"), exit}},
		{"lost", []c37Step{{keys: "probe Me"}, {act: "drop"}}},
		{"refused", []c37Step{{keys: "probe\r", runs: []string{"probe"}, show: []string{"usage-of-probe"}}, {keys: "unknown-M\r", show: []string{"nknown command 'unknown-M'"}}, exit}},
	}
}

var c37Mu sync.Mutex
var c37Calls []string
var c37Gates = map[string]chan struct{}{}

func c37Gate(m string) chan struct{} {
	c37Mu.Lock()
	defer c37Mu.Unlock()
	if c37Gates[m] == nil {
		c37Gates[m] = make(chan struct{})
	}
	return c37Gates[m]
}

const c37Flood = 3 << 20 // more than a channel takes unread

func c37Register() {
	for _, name := range []string{"probe", "other", "block", "flood"} {
		name := name
		RegisterCommand(Command{Name: name, Usage: "usage-of-" + name, Info: "info", ExecFunc: func(args []string) (string, bool) {
			c37Mu.Lock()
			c37Calls = append(c37Calls, strings.Join(append([]string{name}, args...), "|"))
			c37Mu.Unlock()
			if len(args) == 0 {
				return "", false
			}
			text := ""
			switch name {
			case "block":
				<-c37Gate(args[0][:len(args[0])-1])
			case "flood":
				text = strings.Repeat(strings.Repeat("-", 1023)+"\n", c37Flood/1024)
			}
			return text + "answer to <" + strings.Join(args, "|") + ">", true
		}})
	}
}

type c37Session struct {
	marker  string
	conn    net.Conn
	s       *xssh.Session
	in      io.WriteCloser
	mu      sync.Mutex
	cond    *sync.Cond
	stalled bool
	out     []byte
	done    chan struct{}
	ended   bool
}

func (t *c37Session) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for t.stalled {
		t.cond.Wait()
	}
	t.out = append(t.out, b...)
	return len(b), nil
}

func (t *c37Session) shown() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.out)
}

func (t *c37Session) stall(v bool) {
	t.mu.Lock()
	t.stalled = v
	t.cond.Broadcast()
	t.mu.Unlock()
}

func c37Open(e *mc.E, c *xssh.Client, conn net.Conn, marker string) *c37Session {
	t := &c37Session{marker: marker, conn: conn, done: make(chan struct{})}
	t.cond = sync.NewCond(&t.mu)
	s, err := c.NewSession()
	e.Assert(err == nil, "session", "no session: %v", err)
	t.s = s
	s.Stdout, s.Stderr = t, t
	t.in, err = s.StdinPipe()
	e.Assert(err == nil, "session", "no input: %v", err)
	err = s.RequestPty("xterm", 50, 200, xssh.TerminalModes{})
	e.Assert(err == nil, "session", "no terminal: %v", err)
	err = s.Shell()
	e.Assert(err == nil, "session", "no shell: %v", err)
	go func() { s.Wait(); close(t.done) }()
	return t
}

func (t *c37Session) text(s string) string { return strings.Replace(s, "M", t.marker, -1) }

// step lets the step happen.
func (t *c37Session) step(x c37Step) {
	switch x.act {
	case "stall":
		t.stall(true)
	case "read":
		t.stall(false)
	case "release":
		close(c37Gate(t.marker))
	case "resize":
		t.s.WindowChange(20, 30)
	case "close":
		t.s.Close()
	case "drop":
		t.conn.Close()
	}
	if x.keys != "" {
		io.WriteString(t.in, t.text(x.keys))
	}
}

func c37Until(d time.Duration, f func() bool) bool {
	for t := time.Now(); ; time.Sleep(100 * time.Microsecond) {
		if f() {
			return true
		}
		if time.Since(t) > d {
			return false
		}
	}
}

// c37Case plays the scripts, interleaved as order says.
func c37Case(e *mc.E, addr string, scripts []c37Script, shared bool, order []int, grown map[string][]int) {
	c37Mu.Lock()
	c37Calls, c37Gates = nil, map[string]chan struct{}{}
	c37Mu.Unlock()
	var ts []*c37Session
	var client *xssh.Client
	var conn net.Conn
	for i := range scripts {
		if client == nil || !shared {
			client, conn = c37Dial(addr)
			e.Assert(client != nil, "connect", "no connection")
			defer client.Close()
		}
		ts = append(ts, c37Open(e, client, conn, string(rune('P'+i))+string(rune('P'+i))))
	}
	for _, t := range ts { // the prompt
		t := t
		c37Until(time.Second, func() bool { return len(t.shown()) > 10 })
	}
	pos := make([]int, len(scripts))
	from := make([]int, len(scripts)) // what is shown from here on belongs to the next steps
	lines := make([][]string, len(scripts))
	for _, i := range order {
		t, x := ts[i], scripts[i].steps[pos[i]]
		k := scripts[i].name
		pos[i]++
		if !shared || x.act != "drop" {
			t.step(x)
		} else {
			t.step(c37Step{act: "close"})
		}
		for _, r := range x.runs {
			r := t.text(r)
			lines[i] = append(lines[i], r)
			ok := c37Until(20*time.Second, func() bool { return strings.Count("\n"+c37Log()+"\n", "\n"+r+"\n") == 1 })
			e.Assert(ok, "not-run", "session %d of %d does not run %q; run were %q", i, len(scripts), r, c37Log())
		}
		for _, s := range x.show {
			s, at := t.text(s), -1
			ok := c37Until(20*time.Second, func() bool {
				if at = strings.Index(t.shown()[from[i]:], s); at >= 0 {
					from[i] += at + len(s)
				}
				return at >= 0
			})
			e.Assert(ok, "not-shown", "%q is not shown in session %d of %d, its terminal gets %q", s, i, len(scripts), c37Cut(t.shown()[from[i]:]))
		}
		// only to have it processed before what comes next, when all is well
		if g := grown[k]; g != nil && !x.skip && x.act == "" && len(x.runs)+len(x.show) == 0 {
			n := g[pos[i]-1]
			c37Until(20*time.Millisecond, func() bool { return len(t.shown()) >= n })
		}
		if len(scripts) == 1 && grown[k] == nil && pos[0] == len(scripts[0].steps) {
			break
		}
		if len(scripts) == 1 {
			c37Settle(t)
			grown["_"] = append(grown["_"], len(t.shown()))
		}
	}
	for i, t := range ts {
		last := scripts[i].steps[len(scripts[i].steps)-1]
		if last.act == "" {
			select {
			case <-t.done:
			case <-time.After(20 * time.Second):
				e.Fail("stays", "session %d of %d is not closed after %q", i, len(scripts), last.keys)
			}
		}
		t.s.Close()
	}
	got := map[string]int{}
	for _, l := range strings.Split(c37Log(), "\n") {
		got[l]++
	}
	n := 0
	for i := range lines {
		for _, l := range lines[i] {
			n++
			want := 0
			for j := range lines {
				for _, m := range lines[j] {
					if m == l {
						want++
					}
				}
			}
			e.Assert(got[l] == want, "times", "%q ran %d times instead of %d: %q", l, got[l], want, c37Log())
		}
	}
	e.Assert(len(strings.Fields(c37Log())) >= n && strings.Count(c37Log(), "\n")+1 == n || n == 0 && c37Log() == "", "others", "run were %q, entered %q", c37Log(), lines)
	for i, t := range ts {
		out := t.shown()
		for j, u := range ts {
			e.Assert(i == j || !strings.Contains(out, u.marker), "leak", "session %d gets what belongs to session %d: %q", i, j, c37Cut(out))
		}
	}
	e.Step(len(order))
}

func c37Cut(s string) string {
	if len(s) > 600 {
		return s[:300] + " ... " + s[len(s)-300:]
	}
	return s
}

func c37Log() string {
	c37Mu.Lock()
	defer c37Mu.Unlock()
	return strings.Join(c37Calls, "\n")
}

// c37Settle waits until nothing more is shown.
func c37Settle(t *c37Session) {
	for n := -1; n != len(t.shown()); time.Sleep(15 * time.Millisecond) {
		n = len(t.shown())
	}
}

func c37Dial(addr string) (*xssh.Client, net.Conn) {
	conn, err := net.Dial("tcp", addr)
	if err != nil {
		return nil, nil
	}
	c, chans, reqs, err := xssh.NewClientConn(conn, addr, &xssh.ClientConfig{User: "u", Auth: []xssh.AuthMethod{xssh.Password("p")}, HostKeyCallback: xssh.InsecureIgnoreHostKey()})
	if err != nil {
		conn.Close()
		return nil, nil
	}
	return xssh.NewClient(c, chans, reqs), conn
}

// c37Orders calls f with every order of counts[i] steps of each i.
func c37Orders(counts []int, f func(order []int)) {
	left := append([]int(nil), counts...)
	var order []int
	var rec func()
	rec = func() {
		end := true
		for i := range left {
			if left[i] > 0 {
				end = false
				left[i]--
				order = append(order, i)
				rec()
				order = order[:len(order)-1]
				left[i]++
			}
		}
		if end {
			f(append([]int(nil), order...))
		}
	}
	rec()
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	addr := ""
	grown := map[string][]int{}
	scripts := c37Scripts()
	start := func(e *mc.E) {
		if addr != "" {
			return
		}
		c37Register()
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		a := l.Addr().String()
		l.Close()
		go StartSSH(a, map[string]UserAuth{"u": {Password: "p"}})
		ok := c37Until(20*time.Second, func() bool {
			c, _ := c37Dial(a)
			if c != nil {
				c.Close()
			}
			return c != nil
		})
		e.Assert(ok, "start", "the control interface does not start")
		addr = a
		for _, s := range scripts { // alone
			s := s
			e.Case(func() string { return "session " + s.name + " alone" })
			order := make([]int, len(s.steps))
			delete(grown, "_")
			c37Case(e, addr, []c37Script{s}, false, order, grown)
			grown[s.name] = append(grown["_"], 0)
		}
	}
	play := func(e *mc.E, n *int, shared bool, ss ...c37Script) {
		counts, name := []int{}, []string{}
		for _, s := range ss {
			counts, name = append(counts, len(s.steps)), append(name, s.name)
		}
		c37Orders(counts, func(order []int) {
			if *n++; !e.Mine(*n) || e.Stopped() {
				return
			}
			e.Case(func() string {
				return fmt.Sprintf("sessions %v over one connection: %v, steps in the order %v", name, shared, order)
			})
			start(e)
			e.Timeout(200*time.Second, "sessions", func() { c37Case(e, addr, ss, shared, order, grown) })
			e.DistinctH(mc.Hash(fmt.Sprint(name, shared, order)))
		})
	}
	mc.Main(t, append(c37KeyScenarios(), []mc.Scenario{
		{Name: "two", Shards: 16, Enum: func(e *mc.E) {
			e.Rule("every interleaving of the steps of two control sessions, for all pairs of 9 scripts (typing in parts, history, completion, ^C, a command that blocks, a terminal that takes no data, resizing, a lost connection, refused and unknown commands), over one connection and over two; distinct: interleavings")
			n := 0
			for i := range scripts {
				for j := i; j < len(scripts); j++ {
					for _, shared := range []bool{true, false} {
						play(e, &n, shared, scripts[i], scripts[j])
					}
				}
			}
		}},
		{Name: "three", Shards: 16, Thorough: true, Enum: func(e *mc.E) {
			e.Rule("every interleaving of the steps of three control sessions, for all triples of the scripts with at most 3 steps and the blocked one, over one connection and over three; distinct: interleavings")
			n := 0
			for i := range scripts {
				for j := i; j < len(scripts); j++ {
					for k := j; k < len(scripts); k++ {
						if len(scripts[i].steps)+len(scripts[j].steps)+len(scripts[k].steps) > 9 {
							continue
						}
						for _, shared := range []bool{true, false} {
							play(e, &n, shared, scripts[i], scripts[j], scripts[k])
						}
					}
				}
			}
		}},
	}...))
}
