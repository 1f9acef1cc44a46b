package ssh

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/logging"
	xssh "golang.org/x/crypto/ssh"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C26: what is typed over ssh runs exactly the commands entered, with the
// words written, and what they answer is shown.

type c26Call struct{ user, line string }

var c26Mu sync.Mutex
var c26Calls []string

func c26Answer(args []string) (string, bool) {
	if len(args) == 0 {
		return "", false
	}
	switch args[0] {
	case "lines":
		return "first answer\nsecond answer", true
	case "newline":
		return "one line answer\n", true
	case "none":
		return "", true
	case "refuse":
		return "never shown", false
	}
	return "answer to <" + strings.Join(args, "|") + ">", true
}

func c26Register() {
	for _, name := range []string{"probe", "other"} {
		name := name
		c := Command{Name: name, Usage: "usage-of-" + name, Info: "info about " + name}
		c.ExecFunc = func(args []string) (string, bool) {
			c26Mu.Lock()
			c26Calls = append(c26Calls, fmt.Sprintf("%s%q", name, args))
			c26Mu.Unlock()
			return c26Answer(args)
		}
		RegisterCommand(c)
	}
}

// c26Entry is something typed, what it runs and what has to be shown.
type c26Entry struct {
	keys string
	runs string
	show []string
	ends bool
}

func c26Pool() []c26Entry {
	run := func(text, name string, args ...string) c26Entry {
		x := c26Entry{keys: text + "\r", runs: fmt.Sprintf("%s%q", name, args)}
		if len(args) == 0 {
			x.runs = name + "[]"
		}
		if msg, ok := c26Answer(args); !ok {
			x.show = []string{"usage-of-" + name}
		} else if msg != "" {
			x.show = strings.Split(strings.TrimSuffix(msg, "\n"), "\n")
		}
		return x
	}
	return []c26Entry{
		run("probe a", "probe", "a"),
		run("other b c", "other", "b", "c"),
		run("probe", "probe"),
		run("probe refuse", "probe", "refuse"),
		run("probe lines", "probe", "lines"),
		run("other newline", "other", "newline"),
		run("probe none", "probe", "none"),
		run("  probe   x\\ y  z\\\\ ", "probe", "x y", "z\\"),
		run("probe ü 日本", "probe", "ü", "日本"),
		run("probe ab\x7fc", "probe", "ac"),
		run("other %d %s", "other", "%d", "%s"),
		{keys: "probe abandoned\x03"},
		{keys: "exit\x03"},
		{keys: "\x03"},
		{keys: "prob\r", show: []string{"nknown command 'prob'"}},
		{keys: "Probe a\r", show: []string{"nknown command 'Probe'"}},
		{keys: "unknown-to-all x\r", show: []string{"nknown command 'unknown-to-all'"}},
		{keys: "clear\r"},
		{keys: "\r"},
		{keys: "   \r"},
		{keys: "help\r", show: []string{"clear", "exit", "help", "info about other", "info about probe"}},
		{keys: "help probe\r", show: []string{"info about probe", "usage-of-probe"}},
		{keys: "help nothing\r", show: []string{"'nothing' does not exist"}},
		{keys: "exit\r", ends: true},
		{keys: "\x04", ends: true},
	}
}

type c26Term struct {
	sess *xssh.Session
	in   io.WriteCloser
	out  bytes.Buffer
	mu   sync.Mutex
	done chan error
}

func (t *c26Term) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.out.Write(b)
}

func (t *c26Term) shown() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.out.String()
}

func c26Open(e *mc.E, c *xssh.Client, w, h int) *c26Term {
	s, err := c.NewSession()
	e.Assert(err == nil, "session", "no session: %v", err)
	t := &c26Term{sess: s, done: make(chan error, 1)}
	s.Stdout, s.Stderr = t, t
	t.in, err = s.StdinPipe()
	e.Assert(err == nil, "session", "no input: %v", err)
	err = s.RequestPty("xterm", h, w, xssh.TerminalModes{})
	e.Assert(err == nil, "session", "no terminal: %v", err)
	err = s.Shell()
	e.Assert(err == nil, "session", "no shell: %v", err)
	go func() { t.done <- s.Wait() }()
	return t
}

// c26Play types the entries, one after the other, and checks what happens.
func c26Play(e *mc.E, c *xssh.Client, w, h int, entries []c26Entry) {
	c26Mu.Lock()
	c26Calls = nil
	c26Mu.Unlock()
	t := c26Open(e, c, w, h)
	want := []string{}
	for _, x := range entries {
		if x.runs != "" {
			want = append(want, x.runs)
		}
		if _, err := io.WriteString(t.in, x.keys); err != nil {
			break
		}
	}
	select {
	case <-t.done:
	case <-time.After(30 * time.Second):
		e.Assert(false, "session-stays", "the session is not closed")
	}
	t.sess.Close()
	c26Mu.Lock()
	got := append([]string{}, c26Calls...)
	c26Mu.Unlock()
	out := t.shown()
	e.Step(len(entries))
	e.Assert(strings.Join(got, "\n") == strings.Join(want, "\n"), "commands-run", "commands run are %q, entered were %q", got, want)
	rest := out
	for _, x := range entries {
		end := 0
		for _, s := range x.show {
			i := strings.Index(rest, s)
			e.Assert(i >= 0, "not-shown", "%q is not shown (in this place), the terminal gets %q", s, out)
			if end < i+len(s) {
				end = i + len(s)
			}
		}
		rest = rest[end:]
	}
	e.DistinctH(mc.Hash(out))
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	var client *xssh.Client
	connect := func(e *mc.E) {
		if client != nil {
			return
		}
		c26Register()
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		addr := l.Addr().String()
		l.Close()
		go StartSSH(addr, map[string]UserAuth{"u": {Password: "p"}})
		for i := 0; i < 400; i++ {
			client, err = xssh.Dial("tcp", addr, &xssh.ClientConfig{User: "u", Auth: []xssh.AuthMethod{xssh.Password("p")}, HostKeyCallback: xssh.InsecureIgnoreHostKey()})
			if err == nil {
				return
			}
			time.Sleep(50 * time.Millisecond)
		}
		panic(err)
	}
	pool := c26Pool()
	end := c26Entry{keys: "exit\r", ends: true}
	mc.Main(t, []mc.Scenario{
		{Name: "typed", Shards: 8, Enum: func(e *mc.E) {
			e.Rule("every sequence of at most 3 entries (thorough 4) of a pool of 25 - commands with arguments, refused, unknown, edited, abandoned with ^C, help, clear, empty - typed into a session of a real ssh connection, ending with exit or ^D")
			connect(e)
			n := 0
			var rec func(seq []c26Entry, left int)
			rec = func(seq []c26Entry, left int) {
				if len(seq) > 0 {
					n++
					if e.Mine(n) {
						run := append([]c26Entry{}, seq...)
						if !run[len(run)-1].ends {
							run = append(run, end)
						}
						e.Case(func() string {
							k := ""
							for _, x := range run {
								k += x.keys
							}
							return fmt.Sprintf("typing %q", k)
						})
						c26Play(e, client, 80, 24, run)
					}
					if seq[len(seq)-1].ends {
						return
					}
				}
				if left > 0 {
					for _, x := range pool {
						rec(append(append([]c26Entry{}, seq...), x), left-1)
					}
				}
			}
			rec(nil, mc.Pick(3, 4))
		}},
		{Name: "terminals", Enum: func(e *mc.E) {
			e.Rule("every entry of the pool on terminals of 0 to 3, 10 and 500 columns and 0, 1 and 50 rows")
			connect(e)
			for _, w := range []int{0, 1, 2, 3, 10, 500} {
				for _, h := range []int{0, 1, 50} {
					for _, x := range pool {
						if w < 10 && x.keys == "probe ab\x7fc\r" {
							continue
						}
						e.Case(func() string { return fmt.Sprintf("%d x %d: typing %q", w, h, x.keys) })
						run := []c26Entry{x}
						if !x.ends {
							run = append(run, end)
						}
						c26Play(e, client, w, h, run)
					}
				}
			}
		}},
	})
}
