package ssh

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/LogicalOverflow/music-sync/logging"
	xssh "golang.org/x/crypto/ssh"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C37, keys: whatever is typed, the server and the other sessions go on.
//
// The server is a process of its own: keys which stop or end it, or the
// process that started it, reach nothing but processes started for this. As
// in a shell, it is a job (a process group) in a terminal of its own.

// c37Self starts this program again, as role.
func c37Self(role, addr string) *exec.Cmd {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	c := exec.Command(exe, "-test.run", "^TestC37Role$", "-test.timeout", "0")
	for _, x := range os.Environ() {
		if !strings.HasPrefix(x, "MC_") && !strings.HasPrefix(x, "C37_") {
			c.Env = append(c.Env, x)
		}
	}
	c.Env = append(c.Env, "C37_ROLE="+role, "C37_ADDR="+addr)
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return c
}

// TestC37Role is one of the processes: the leader of the terminal's session
// (a shell), the parent of the server and the server.
func TestC37Role(t *testing.T) {
	role, addr := os.Getenv("C37_ROLE"), os.Getenv("C37_ADDR")
	next := map[string]string{"leader": "parent", "parent": "server"}[role]
	switch role {
	case "":
		t.Skip()
	case "server":
		log.DefaultCutoffLevel = log.LevelOff
		RegisterCommand(Command{Name: "probe", Usage: "usage", Info: "info", ExecFunc: func(args []string) (string, bool) {
			return "answer to <" + strings.Join(args, "|") + ">", true
		}, OptionsFunc: func(prefix string, arg int) []string {
			return c37Options[arg%len(c37Options)]
		}})
		StartSSH(addr, map[string]UserAuth{"u": {Password: "p"}})
		os.Exit(3)
	}
	go func() { // ends with what started it, even if that is stopped
		b := make([]byte, 1)
		os.NewFile(3, "life").Read(b)
		os.Exit(4)
	}()
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	c := c37Self(next, addr)
	c.Stdin, c.Stdout, c.Stderr, c.ExtraFiles = os.Stdin, os.Stdout, os.Stderr, []*os.File{r}
	if role == "leader" {
		c.SysProcAttr.Setpgid = true
	}
	if err := c.Start(); err != nil {
		panic(err)
	}
	r.Close()
	if err := c.Wait(); err != nil {
		fmt.Fprintln(os.Stderr, role, "of:", err)
	}
	w.Close()
	os.Exit(5)
}

type c37Server struct {
	addr   string
	cmd    *exec.Cmd
	life   *os.File
	master *os.File
	slave  *os.File
	before syscall.Termios
	mu     sync.Mutex
	errs   bytes.Buffer
}

func (s *c37Server) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.errs.Len() < 1<<14 {
		s.errs.Write(b)
	}
	return len(b), nil
}

func (s *c37Server) said() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.errs.String()
}

func c37Ioctl(f *os.File, req uintptr, arg unsafe.Pointer) {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg)); e != 0 {
		panic(e)
	}
}

func (s *c37Server) termios() (t syscall.Termios) {
	if s.slave != nil {
		c37Ioctl(s.slave, syscall.TCGETS, unsafe.Pointer(&t))
	}
	return
}

// c37Serve starts the server, with a terminal or without.
func c37Serve(e *mc.E, terminal bool) *c37Server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &c37Server{addr: l.Addr().String()}
	l.Close()
	s.cmd = c37Self("leader", s.addr)
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	s.life = w
	s.cmd.ExtraFiles = []*os.File{r}
	s.cmd.SysProcAttr.Setsid = true
	if terminal {
		if s.master, err = os.OpenFile("/dev/ptmx", os.O_RDWR, 0); err != nil {
			panic(err)
		}
		n, unlock := 0, 0
		c37Ioctl(s.master, syscall.TIOCGPTN, unsafe.Pointer(&n))
		c37Ioctl(s.master, syscall.TIOCSPTLCK, unsafe.Pointer(&unlock))
		if s.slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0); err != nil {
			panic(err)
		}
		go io.Copy(s, s.master)
		s.cmd.Stdin, s.cmd.Stdout, s.cmd.Stderr = s.slave, s.slave, s.slave
		s.cmd.SysProcAttr.Setctty, s.cmd.SysProcAttr.Ctty = true, 0
	} else {
		s.cmd.Stderr = s
	}
	s.before = s.termios()
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	r.Close()
	ok := c37Until(20*time.Second, func() bool {
		c, _ := c37Dial(s.addr)
		if c != nil {
			c.Close()
		}
		return c != nil
	})
	e.Assert(ok, "start", "the control interface does not start: %s", s.said())
	return s
}

func (s *c37Server) stop() {
	s.life.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	if s.slave != nil {
		s.slave.Close()
		s.master.Close()
	}
}

// c37Options are what the words of the command are completed to.
var c37Options = [][]string{
	{"p", "q", "日本", "日本語"},
	{"a", strings.Repeat("b", 70), "c"},
	{strings.Repeat("d", 79), strings.Repeat("d", 40) + strings.Repeat("日", 20), "日本"},
	{"single"},
	{},
	{"ef", "eg", "e"},
}

var c37Controls = func() (r []string) {
	for b := byte(0); b < 0x20; b++ {
		if b != 0x1b {
			r = append(r, string([]byte{b}))
		}
	}
	return append(r, "\x7f")
}()

var c37Escapes = []string{"\x1b", "\x1b[", "\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D", "\x1b[H", "\x1b[F", "\x1b[Z", "\x1b[3~", "\x1b[5;7R", "\x1bOA", "\x1bb", "\x1bf", "\x1bd", "\x1b\x7f", "\x1b\x1b"}
var c37Texts = []string{"a", " ", "probe ", "pr", "h", "ü", "日本", "\xff", "\u200b", "probe probe probe", "probe p a ", "\t", "\t\t"}

// c37Typist types in sessions of one server.
type c37Typist struct {
	s     *c37Server
	c     *xssh.Client
	watch *c37Session
	n     int
	where int
}

func c37Begin(e *mc.E, terminal bool) *c37Typist {
	y := &c37Typist{s: c37Serve(e, terminal)}
	c, conn := c37Dial(y.s.addr)
	e.Assert(c != nil, "start", "no connection")
	y.c = c
	y.watch = c37Open(e, c, conn, "W")
	return y
}

// alive asserts that the other session goes on.
func (y *c37Typist) alive(e *mc.E) {
	y.n++
	text := fmt.Sprintf("answer to <w%d>", y.n)
	io.WriteString(y.watch.in, fmt.Sprintf("probe w%d\r", y.n))
	ok := c37Until(10*time.Second, func() bool { return strings.Contains(y.watch.shown()[y.where:], text) })
	if ok {
		y.where = len(y.watch.shown())
	}
	e.Assert(ok, "stops", "another session gets no answer any more, the server says %q", y.s.said())
	now := y.s.termios()
	e.Assert(now == y.s.before, "terminal", "the terminal the server was started from is set to %+v, was %+v", now, y.s.before)
}

// open starts a session on a terminal of w columns.
func (y *c37Typist) open(e *mc.E, w int) *c37Session {
	s, err := y.c.NewSession()
	e.Assert(err == nil, "session", "no session: %v, the server says %q", err, y.s.said())
	in, err := s.StdinPipe()
	e.Assert(err == nil, "session", "no input: %v", err)
	t := &c37Session{s: s, in: in, done: make(chan struct{})}
	t.cond = sync.NewCond(&t.mu)
	s.Stdout, s.Stderr = t, t
	err = s.RequestPty("xterm", 24, w, xssh.TerminalModes{})
	e.Assert(err == nil, "session", "no terminal: %v, the server says %q", err, y.s.said())
	err = s.Shell()
	e.Assert(err == nil, "session", "no shell: %v, the server says %q", err, y.s.said())
	go func() { s.Wait(); close(t.done) }()
	return t
}

func (t *c37Session) over() bool {
	select {
	case <-t.done:
		return true
	default:
		return false
	}
}

// play types the keys on a terminal of w columns.
func (y *c37Typist) play(e *mc.E, w int, keys string) {
	t := y.open(e, w)
	io.WriteString(t.in, keys)
	// afterwards the session is as good as new, if it is not over
	io.WriteString(t.in, "~\x03\x03\x03\x03probe =\r")
	ok := c37Until(10*time.Second, func() bool { return t.over() || strings.Contains(t.shown(), "answer to <=>") })
	e.Assert(ok, "unusable", "no command can be entered any more in the session, which shows %q; the server says %q", c37Cut(t.shown()), y.s.said())
	// and can be left, whatever is typed after that
	io.WriteString(t.in, "exit\r"+keys+"\x03x\x03\x03y\r")
	ok = c37Until(10*time.Second, t.over)
	e.Assert(ok, "stays", "the session cannot be left any more; the server says %q", y.s.said())
	t.s.Close()
	y.alive(e)
	e.Step(1)
}

// playAll types all of the sequences in one session, or more if it ends.
func (y *c37Typist) playAll(e *mc.E, w int, seqs []string) {
	const batch = 64
	begin := func() *c37Session {
		t := y.open(e, w)
		io.WriteString(t.in, "probe one two\rp日p日\rprobe 日本\r")
		return t
	}
	t := begin()
	for from := 0; from < len(seqs) && !e.Stopped(); {
		to := from + batch
		if to > len(seqs) {
			to = len(seqs)
		}
		e.Case(func() string {
			return fmt.Sprintf("%d columns, typing in one session, one after the other, %q", w, seqs[from:to])
		})
		text := ""
		for i := from; i < to; i++ {
			text += seqs[i] + fmt.Sprintf("~\x03\x03\x03\x03probe =%d\r", i)
		}
		go io.WriteString(t.in, text)
		last := fmt.Sprintf("answer to <=%d>", to-1)
		ok := c37Until(20*time.Second, func() bool { return t.over() || strings.Contains(t.shown(), last) })
		e.Assert(ok, "unusable", "no command can be entered any more in the session, which shows %q; the server says %q", c37Cut(t.shown()), y.s.said())
		next := to
		if shown := t.shown(); !strings.Contains(shown, last) { // the session was ended by one of them
			for next = from; strings.Contains(shown, fmt.Sprintf("answer to <=%d>", next)); next++ {
			}
			next++
			t.s.Close()
			y.alive(e)
			t = begin()
		}
		for i := from; i < next; i++ {
			e.Step(1)
			e.DistinctH(mc.Hash(fmt.Sprint(w, seqs[i])))
		}
		from = next
		t.mu.Lock()
		t.out = nil
		t.mu.Unlock()
		y.alive(e)
	}
	t.s.Close()
}

func c37Many(e *mc.E, pool []string, depth int, widths []int) {
	y := c37Begin(e, true)
	n := 0
	for _, w := range widths {
		seqs := []string{}
		var rec func(keys string, left int)
		rec = func(keys string, left int) {
			if left == 0 {
				if n++; e.Mine(n) {
					seqs = append(seqs, keys)
				}
				return
			}
			for _, k := range pool {
				rec(keys+k, left-1)
			}
		}
		rec("", depth)
		y.playAll(e, w, seqs)
	}
	y.s.stop()
}

func c37Keys(e *mc.E, pool []string, least, most int, widths []int, terminals ...bool) {
	n := 0
	var y *c37Typist
	for _, terminal := range terminals {
		for _, w := range widths {
			var rec func(keys string, left int)
			rec = func(keys string, left int) {
				if left <= most-least {
					if n++; e.Mine(n) {
						e.Case(func() string {
							return fmt.Sprintf("server started from a terminal: %v, %d columns, typing %q", terminal, w, keys)
						})
						if y == nil {
							y = c37Begin(e, terminal)
						}
						y.play(e, w, keys)
						e.DistinctH(mc.Hash(fmt.Sprint(terminal, w, keys)))
					}
				}
				if left > 0 && !e.Stopped() {
					for _, k := range pool {
						rec(keys+k, left-1)
					}
				}
			}
			rec("", most)
		}
		if y != nil {
			y.s.stop()
		}
		y = nil
	}
}

func c37KeyScenarios() []mc.Scenario {
	all := append(append(append([]string(nil), c37Controls...), c37Escapes...), c37Texts...)
	few := []string{"\x01", "\x02", "\x03", "\x04", "\x08", "\t", "\r", "\x0b", "\x0e", "\x10", "\x12", "\x13", "\x14", "\x15", "\x17", "\x19", "\x1a", "\x1b", "\x1b[A", "\x1b[D", "\x1b[3~", "a", "p", "probe ", "日本"}
	widths := []int{0, 12, 80}
	if mc.Pick(0, 1) == 1 {
		widths = []int{0, 1, 2, 3, 20, 80}
	}
	return []mc.Scenario{
		{Name: "keys", Shards: 8, Enum: func(e *mc.E) {
			e.Rule(fmt.Sprintf("every sequence of at most 2 of %d keys, key sequences and texts, typed in a session on terminals of %v columns, of servers started from a terminal and not, while another session is open; distinct: all of these", len(all), widths))
			c37Keys(e, all, 0, 2, widths, true, false)
		}},
		{Name: "longer", Shards: 8, Enum: func(e *mc.E) {
			e.Rule(fmt.Sprintf("every sequence of 3 of %d keys (thorough: 4), typed in a session while another session is open; distinct: sequences", len(few)))
			n := mc.Pick(3, 4)
			c37Keys(e, few, n, n, []int{80}, true)
		}},
		{Name: "many", Shards: 8, Enum: func(e *mc.E) {
			e.Rule(fmt.Sprintf("every sequence of 3 of %d keys (thorough: 4), typed one after the other in the same session; distinct: sequences", len(few)))
			c37Many(e, few, mc.Pick(3, 4), []int{20})
		}},
		{Name: "searching", Shards: 8, Enum: func(e *mc.E) {
			pool := []string{"p", "日", "\x12", "\x13", "\x08", "\x07", "\x03", "\r", "\x10", "\x0e", "\x02", "\x0b", "\t"}
			e.Rule(fmt.Sprintf("every sequence of 4 of %d keys about searching the history (thorough: 5), typed one after the other in the same session; distinct: sequences", len(pool)))
			c37Many(e, pool, mc.Pick(4, 5), []int{21})
		}},
		{Name: "completing", Shards: 8, Enum: func(e *mc.E) {
			pool := []string{"probe ", "p ", "日本", "\t", "\x01", "\x05", "\x08", "\x0b", "\x0e", "\x10", "\x02", "\r", "\x03"}
			e.Rule(fmt.Sprintf("every sequence of 4 of %d keys about completion (thorough: 5), typed one after the other in the same session; distinct: sequences", len(pool)))
			c37Many(e, pool, mc.Pick(4, 5), []int{80, 20})
		}},
	}
}
