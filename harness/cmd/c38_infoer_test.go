package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C38: the infoer runs until it is told to end or loses the server, and leaves
// the terminal as it found it.
//
// The program is started as a process of its own with a terminal of its own:
// the test binary executes itself, sets its arguments and calls main. The
// parent is the server, the keyboard and the display.

// TestC38Child is the program.
func TestC38Child(t *testing.T) {
	args := os.Getenv("C38_ARGS")
	if args == "" {
		t.Skip()
	}
	os.Args = append([]string{"program"}, strings.Split(args, " ")...)
	main()
	os.Exit(0) // returned
}

const c38Limit = 60 * time.Second

// c38Buf collects what arrives.
type c38Buf struct {
	mutex sync.Mutex
	data  []byte
}

func (b *c38Buf) Write(p []byte) (int, error) {
	b.mutex.Lock()
	defer b.mutex.Unlock()
	b.data = append(b.data, p...)
	return len(p), nil
}

func (b *c38Buf) get() []byte {
	b.mutex.Lock()
	defer b.mutex.Unlock()
	return append([]byte(nil), b.data...)
}

func (b *c38Buf) from(r interface{ Read([]byte) (int, error) }) {
	p := make([]byte, 4096)
	for {
		n, err := r.Read(p)
		b.Write(p[:n])
		if err != nil {
			return
		}
	}
}

func c38Ioctl(f *os.File, req uintptr, arg unsafe.Pointer) {
	// not f.Fd(), which makes f blocking
	raw, err := f.SyscallConn()
	if err != nil {
		panic(err)
	}
	raw.Control(func(fd uintptr) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg)); e != 0 {
			panic(e)
		}
	})
}

// c38Step is one thing that happens.
type c38Step struct {
	what string // screen, subscribed, send, keys, size, wait, alive, close, reset, half, end
	data []byte
	w, h int
}

func (s c38Step) String() string {
	switch s.what {
	case "send", "keys":
		if len(s.data) > 400 {
			return fmt.Sprintf("%s %d bytes", s.what, len(s.data))
		}
		return fmt.Sprintf("%s %q", s.what, s.data)
	case "size":
		return fmt.Sprintf("size %dx%d", s.w, s.h)
	}
	return s.what
}

type c38Case struct {
	tty    int    // how the terminal is set before
	term   string // the kind of terminal; "": xterm
	refuse bool   // there is no server
	steps  []c38Step
	rc     []int // the exit codes it may have; nil: any but the one of a crash
}

func (c c38Case) String() string {
	return fmt.Sprintf("terminal settings %d, kind %q, no server %v: %v", c.tty, c.term, c.refuse, c.steps)
}

// c38Modes tells in which modes a display that was sent b is.
func c38Modes(b []byte) (s string) {
	m := map[string]bool{}
	for i := 0; i < len(b); i++ {
		if b[i] != 0x1b || i+1 == len(b) {
			continue
		}
		switch b[i+1] {
		case '=', '>':
			m["keypad"] = b[i+1] == '='
		case '[':
			j := i + 2
			for j < len(b) && (b[j] < 0x40 || b[j] > 0x7e) {
				j++
			}
			if j == len(b) {
				continue
			}
			arg := string(b[i+2 : j])
			switch {
			case (b[j] == 'h' || b[j] == 'l') && strings.HasPrefix(arg, "?"):
				for _, x := range strings.Split(arg[1:], ";") {
					switch x {
					case "25":
						m["no cursor"] = b[j] == 'l'
					case "12": // blinking
					case "7": // wrapping
						m["no wrapping"] = b[j] == 'l'
					case "47", "1047", "1048", "1049":
						m["other screen"] = b[j] == 'h'
					default:
						m["mode "+x] = b[j] == 'h'
					}
				}
			case b[j] == 'm':
				m["attributes"] = arg != "" && strings.Trim(arg, "0;") != ""
			}
			i = j
		}
	}
	for _, x := range []string{"keypad", "no cursor", "no wrapping", "other screen", "attributes"} {
		if m[x] {
			s += ", " + x
		}
		delete(m, x)
	}
	for x, on := range m {
		if on {
			s += ", " + x
		}
	}
	return strings.TrimPrefix(s, ", ")
}

func c38Tail(b []byte) []byte {
	if len(b) > 200 {
		b = b[len(b)-200:]
	}
	return b
}

// c38Run runs a case and tells what is wrong.
func c38Run(c c38Case) (sig, msg string) {
	tty, err := os.OpenFile("/dev/ptmx", os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	defer tty.Close()
	n, unlock := int32(0), int32(0)
	c38Ioctl(tty, syscall.TIOCGPTN, unsafe.Pointer(&n))
	c38Ioctl(tty, syscall.TIOCSPTLCK, unsafe.Pointer(&unlock))
	slave, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic(err)
	}
	defer slave.Close()
	size := func(w, h int) {
		s := [4]uint16{uint16(h), uint16(w), 0, 0}
		c38Ioctl(tty, syscall.TIOCSWINSZ, unsafe.Pointer(&s))
	}
	size(100, 30)
	before := syscall.Termios{}
	c38Ioctl(slave, syscall.TCGETS, unsafe.Pointer(&before))
	before.Lflag |= syscall.NOFLSH // a late Ctrl-C would drop what the display is yet to be sent
	switch c.tty {
	case 1: // no echo, no flow control
		before.Lflag &^= syscall.ECHO
		before.Iflag &^= syscall.IXON
	case 2: // raw, with a timeout
		before.Lflag &^= syscall.ICANON | syscall.ECHO | syscall.IEXTEN
		before.Oflag &^= syscall.OPOST
		before.Cc[syscall.VMIN], before.Cc[syscall.VTIME] = 0, 7
	}
	c38Ioctl(slave, syscall.TCSETS, unsafe.Pointer(&before))
	c38Ioctl(slave, syscall.TCGETS, unsafe.Pointer(&before))
	display := &c38Buf{}
	go display.from(tty)

	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	port := l.Addr().(*net.TCPAddr).Port
	if c.refuse { // a port nobody else can have, but nobody listens at
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			panic(err)
		}
		defer syscall.Close(fd)
		if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
			panic(err)
		}
		sa, err := syscall.Getsockname(fd)
		if err != nil {
			panic(err)
		}
		port = sa.(*syscall.SockaddrInet4).Port
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe, "-test.run", "^TestC38Child$", "-test.timeout", "0")
	for _, x := range os.Environ() {
		if !strings.HasPrefix(x, "MC_") && !strings.HasPrefix(x, "TERM=") && !strings.HasPrefix(x, "LC_") && !strings.HasPrefix(x, "LANG=") {
			cmd.Env = append(cmd.Env, x)
		}
	}
	term := c.term
	if term == "" {
		term = "xterm"
	}
	cmd.Env = append(cmd.Env, "TERM="+term, "LC_ALL=en_US.UTF-8", fmt.Sprintf("C38_ARGS=--address 127.0.0.1 --port %d", port))
	cmd.Stdin, cmd.Stdout = slave, slave
	errs := &c38Buf{}
	cmd.Stderr = errs
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan struct{})
	go func() { cmd.Wait(); close(done) }()
	defer func() {
		cmd.Process.Kill()
		<-done
	}()

	// wait waits until f, false if the program ends before.
	wait := func(f func() bool) bool {
		for end := time.Now().Add(c38Limit); ; {
			if f() {
				return true
			}
			select {
			case <-done:
				return f()
			case <-time.After(2 * time.Millisecond):
			}
			if time.Now().After(end) {
				return false
			}
		}
	}
	bad := func(what string) (string, string) {
		state := "it runs"
		select {
		case <-done:
			state = fmt.Sprintf("it ended with %d", cmd.ProcessState.ExitCode())
		default:
		}
		return what, fmt.Sprintf("%s: %s, and printed %.800q", what, state, errs.get())
	}
	var conn *net.TCPConn
	got := &c38Buf{}
	if !c.refuse {
		l.(*net.TCPListener).SetDeadline(time.Now().Add(c38Limit))
		x, err := l.Accept()
		if err != nil {
			return bad("it does not connect to the server")
		}
		conn = x.(*net.TCPConn)
		defer conn.Close()
	}
	ended := false // it may have ended
	reading := false
	for _, s := range c.steps {
		if !reading && s.what != "reset" && s.what != "close" && conn != nil {
			reading = true
			go got.from(conn)
		}
		switch s.what {
		case "screen":
			if !wait(func() bool { return bytes.Contains(display.get(), []byte("Volume:")) }) {
				return bad("it does not show anything")
			}
		case "subscribed":
			sub := comm.VerifEncode(&comm.SubscribeChannelRequest{Channel: comm.Channel_META})
			if !wait(func() bool { return bytes.Contains(got.get(), sub) }) && !ended {
				return bad("it does not subscribe")
			}
		case "alive":
			n := bytes.Count(got.get(), comm.VerifEncode(&comm.PongMessage{}))
			conn.Write(comm.VerifEncode(&comm.PingMessage{}))
			if !wait(func() bool { return bytes.Count(got.get(), comm.VerifEncode(&comm.PongMessage{})) > n }) {
				return bad("it ended without being told to")
			}
			from := len(display.get())
			size(101, 31)
			if !wait(func() bool { return bytes.Contains(display.get()[from:], []byte("Volume:")) }) {
				return bad("it ended without being told to")
			}
		case "send":
			conn.Write(s.data)
		case "keys":
			if _, err := tty.Write(s.data); err != nil {
				panic(err)
			}
		case "read": // until the keys are taken
			n := int32(1)
			wait(func() bool {
				c38Ioctl(slave, syscall.TIOCINQ, unsafe.Pointer(&n))
				return n == 0
			})
		case "size":
			size(s.w, s.h)
		case "wait":
			select {
			case <-done:
			case <-time.After(time.Duration(s.w) * time.Millisecond):
			}
		case "close":
			conn.Close()
			ended = true
		case "reset":
			conn.SetLinger(0)
			conn.Close()
			ended = true
		case "half":
			conn.CloseWrite()
			ended = true
		case "end":
			ended = true
			for i, gone := 0, false; i < int(c38Limit/time.Second) && !gone; i++ {
				tty.Write([]byte{3}) // now and then, if the last one was taken for something else
				select {
				case <-done:
					gone = true
				case <-time.After(time.Second):
				}
			}
		}
	}
	select {
	case <-done:
	case <-time.After(c38Limit):
		cmd.Process.Signal(syscall.SIGQUIT)
		<-done
		return "it does not end", fmt.Sprintf("it does not end: %.20000q", errs.get())
	}
	after := syscall.Termios{}
	c38Ioctl(slave, syscall.TCGETS, unsafe.Pointer(&after))
	if after != before {
		return "the terminal is not restored", fmt.Sprintf("the terminal's settings are %x, %x before; it ended with %d and printed %.800q", after, before, cmd.ProcessState.ExitCode(), errs.get())
	}
	slave.WriteString("\x1b]the end\x07")
	for end := time.Now().Add(c38Limit); !bytes.Contains(display.get(), []byte("\x1b]the end\x07")) && time.Now().Before(end); {
		time.Sleep(time.Millisecond)
	}
	if m := c38Modes(display.get()); m != "" {
		return "the display is not restored", fmt.Sprintf("the display is left in the modes %s after %.300q; it ended with %d and printed %.800q", m, c38Tail(display.get()), cmd.ProcessState.ExitCode(), errs.get())
	}
	rc := cmd.ProcessState.ExitCode()
	ok := c.rc == nil && rc != 2 && rc >= 0
	if s, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && s.Signaled() && s.Signal() == syscall.SIGINT {
		rc = 0 // Ctrl-C once the terminal was restored
	}
	for _, r := range c.rc {
		ok = ok || r == rc
	}
	if !ok {
		return "it ends with the wrong exit code", fmt.Sprintf("it ended with %d instead of %v, and printed %.800q", rc, c.rc, errs.get())
	}
	return "", ""
}

func c38History() (b []byte, starts []int) {
	for _, m := range []proto.Message{
		&comm.TimeSyncResponse{ClientSendTime: 1, ServerRecvTime: 2, ServerSendTime: 3},
		&comm.SetVolumeRequest{Volume: .25},
		&comm.NewSongInfo{FirstSampleOfSongIndex: 1, SongFileName: "a.mp3", SongLength: 441000, Lyrics: []*comm.NewSongInfo_SongLyricsLine{{Atoms: []*comm.NewSongInfo_SongLyricsAtom{{Timestamp: 0, Caption: "la"}}}},
			Metadata: &comm.NewSongInfo_SongMetadata{Title: "t", Artist: "r", Album: "l"}},
		&comm.ChunkInfo{StartTime: 5, FirstSampleIndex: 1, ChunkSize: 44100},
		&comm.PauseInfo{Playing: true, ToggleSampleIndex: 1},
		&comm.PingMessage{},
	} {
		starts = append(starts, len(b))
		b = append(b, comm.VerifEncode(m)...)
	}
	return b, append(starts, len(b))
}

func c38Do(what string) c38Step        { return c38Step{what: what} }
func c38Keys(keys string) c38Step      { return c38Step{what: "keys", data: []byte(keys)} }
func c38Send(b []byte) c38Step         { return c38Step{what: "send", data: b} }
func c38Wait(ms int) c38Step           { return c38Step{what: "wait", w: ms} }
func c38Size(w, h int) c38Step         { return c38Step{what: "size", w: w, h: h} }
func c38Steps(ss ...c38Step) []c38Step { return ss }
func c38Alive(ss []c38Step) []c38Step {
	return append(ss, c38Do("read"), c38Wait(450), c38Do("alive"), c38Do("end"))
}

const c38Alphabet = "\x1b[M<OaA;03m \x80\xc3\xff\x00"

func c38Interesting() (r []string) {
	a := c38Alphabet
	for i := range a {
		for j := range a {
			for k := range a {
				r = append(r, a[i:i+1]+a[j:j+1]+a[k:k+1])
			}
		}
	}
	return
}

func TestMC(t *testing.T) {
	// all runs the cases, some at a time.
	all := func(e *mc.E, cases []c38Case) {
		const some = 6
		mine := []c38Case{}
		for i, c := range cases {
			if e.Mine(i) {
				mine = append(mine, c)
			}
		}
		for len(mine) > 0 && !e.Stopped() {
			n := some
			if n > len(mine) {
				n = len(mine)
			}
			type result struct{ sig, msg string }
			rs, wg := make([]result, n), sync.WaitGroup{}
			for i, c := range mine[:n] {
				i, c := i, c
				wg.Add(1)
				go func() {
					defer wg.Done()
					rs[i].sig, rs[i].msg = c38Run(c)
				}()
			}
			wg.Wait()
			for i, c := range mine[:n] {
				c := c
				e.Case(func() string { return c.String() })
				e.Step(len(c.steps))
				e.DistinctH(mc.Hash(c.String()))
				e.Assert(rs[i].sig == "", rs[i].sig, "%s", rs[i].msg)
			}
			mine = mine[n:]
		}
	}
	history, starts := c38History()
	mc.Main(t, []mc.Scenario{
		{Name: "cut", Shards: 8, Enum: func(e *mc.E) {
			e.Rule("the connection ends (closed, reset, closed in one direction) after every byte of what a server sends, at once, once the screen is shown, and once the infoer has subscribed, with three kinds of terminal settings")
			cases := []c38Case{}
			for k := 0; k <= len(history); k++ {
				for i, how := range []string{"close", "reset", "half"} {
					for j, when := range []string{"", "screen", "subscribed"} {
						ss := []c38Step{}
						if when != "" {
							ss = append(ss, c38Do(when))
						}
						if k > 0 {
							ss = append(ss, c38Send(history[:k]))
						}
						cases = append(cases, c38Case{tty: (k + i + j) % 3, steps: append(ss, c38Do(how)), rc: []int{1}})
					}
				}
			}
			all(e, cases)
		}},
		{Name: "malformed", Shards: 8, Enum: func(e *mc.E) {
			e.Rule("every byte of what a server sends is changed in several ways; then Ctrl-C")
			cases := []c38Case{}
			for k := range history {
				length := false
				for _, s := range starts {
					length = length || s <= k && k < s+2
				}
				for _, x := range []int{0x01, 0xff, 0x08, 0x10, 0x80}[:mc.Pick(2, 5)] {
					if length && history[k]^byte(x) > 1 {
						continue // only makes it wait for more
					}
					b := append([]byte(nil), history...)
					b[k] ^= byte(x)
					cases = append(cases, c38Case{steps: c38Steps(c38Do("screen"), c38Send(b), c38Do("end")), rc: []int{0, 1}})
				}
			}
			all(e, cases)
		}},
		{Name: "keys", Shards: 8, Enum: func(e *mc.E) {
			e.Rule("every key, every sequence of three (thorough: four) bytes out of 16 which form escape sequences, and every report of a mouse with two coordinates, typed in batches; the infoer goes on, and ends at Ctrl-C")
			seqs := []string{}
			for b := 0; b < 256; b++ {
				if b != 3 {
					seqs = append(seqs, string([]byte{byte(b)}))
					if b >= ' ' {
						seqs = append(seqs, "\x1b[M"+string([]byte{byte(b)})+"!!", "\x1b[M"+string([]byte{byte(b)})+"\xf0 ")
					}
					seqs = append(seqs, fmt.Sprintf("\x1b[<%d;1;2M", b), fmt.Sprintf("\x1b[<%d;300;200m", b), "\x1b"+string([]byte{byte(b)}))
				}
			}
			seqs = append(seqs, c38Interesting()...)
			if mc.Pick(0, 1) == 1 {
				for _, x := range c38Interesting() {
					for y := range c38Alphabet {
						seqs = append(seqs, x+c38Alphabet[y:y+1])
					}
				}
			}
			for _, x := range []string{"\x1b[A", "\x1bOA", "\x1b[15~", "\x1b[3~", "\x1b[1;5C", "\x1b[Z", "\x1b[200~paste\x1b[201~", "\x1b[I", "\x1b[6n", "\x1b[?1;2c", "\u00e9", "\u4e16", "\U0001f600"} {
				seqs = append(seqs, x)
			}
			cases := []c38Case{}
			n := 40
			for i := 0; i < len(seqs); i += n {
				ss := c38Steps(c38Do("screen"))
				for j := i; j < i+n && j < len(seqs); j++ {
					ss = append(ss, c38Keys(seqs[j]), c38Do("read"))
				}
				cases = append(cases, c38Case{tty: i % 3, steps: c38Alive(ss), rc: []int{0}})
			}
			all(e, cases)
		}},
		{Name: "together", Shards: 8, Enum: func(e *mc.E) {
			e.Rule("Ctrl-C once or often, alone or with many other keys before and after it, before or after the connection ends, with delays of 0 to 250 ms between them")
			cases := []c38Case{}
			for _, n := range []int{1, 2, 13, 40, 200} {
				for _, keys := range []string{strings.Repeat("\x03", n), "\x03" + strings.Repeat("x", n), strings.Repeat("x", n) + "\x03", "\x03" + strings.Repeat("\x1b[A", n)} {
					cases = append(cases, c38Case{steps: c38Steps(c38Do("screen"), c38Keys(keys)), rc: []int{0}})
					for _, how := range []string{"close", "reset", "half"} {
						for _, d := range []int{0, 20, 100, 150, 190, 200, 210, 250} {
							cases = append(cases,
								c38Case{tty: d % 3, steps: c38Steps(c38Do("screen"), c38Keys(keys), c38Wait(d), c38Do(how)), rc: []int{0, 1}})
							if d <= 20 {
								cases = append(cases, c38Case{tty: d % 3, steps: c38Steps(c38Do("screen"), c38Do(how), c38Wait(d), c38Keys(keys)), rc: []int{0, 1}})
							}
						}
					}
				}
			}
			all(e, cases)
		}},
		{Name: "size", Shards: 8, Enum: func(e *mc.E) {
			e.Rule("while lyrics and a song are shown the terminal is resized three times, to any two of 8 sizes (thorough: any three, and every end); the infoer goes on, and ends at Ctrl-C or as the connection ends")
			sizes := [][2]int{{1, 1}, {2, 3}, {1, 50}, {200, 1}, {20, 6}, {80, 24}, {300, 100}, {12, 9}}
			cases := []c38Case{}
			for i, a := range sizes {
				for j, b := range sizes {
					for k, c := range sizes {
						if mc.Pick(0, 1) == 0 && k != (i+j)%len(sizes) {
							continue
						}
						for l, how := range []string{"end", "close", "reset", "half"} {
							if mc.Pick(0, 1) == 0 && l != (i+j)%4 {
								continue
							}
							rc := 1
							if how == "end" {
								rc = 0
							}
							ss := c38Steps(c38Do("screen"), c38Send(history), c38Size(a[0], a[1]), c38Wait(60*((i+j)%3)), c38Size(b[0], b[1]), c38Wait(60*((i+k)%2)), c38Size(c[0], c[1]), c38Wait(450), c38Do("alive"))
							cases = append(cases, c38Case{tty: j % 3, steps: append(ss, c38Do(how)), rc: []int{rc}})
						}
					}
				}
			}
			all(e, cases)
		}},
		{Name: "start", Shards: 1, Enum: func(e *mc.E) {
			e.Rule("no server, kinds of terminals that are unknown or of all kinds: the infoer ends at Ctrl-C or gives up")
			cases := []c38Case{}
			for tty := 0; tty < 3; tty++ {
				for _, term := range []string{"", "nonsense", "dumb", "vt100", "linux", "xterm-256color", "screen", "rxvt"} {
					cases = append(cases, c38Case{tty: tty, term: term, refuse: true, rc: []int{1}})
					if term == "nonsense" || term == "dumb" {
						cases = append(cases, c38Case{tty: tty, term: term, steps: c38Steps(c38Do("subscribed_")), rc: []int{1}})
						continue
					}
					cases = append(cases, c38Case{tty: tty, term: term, steps: c38Steps(c38Do("screen"), c38Do("end")), rc: []int{0}},
						c38Case{tty: tty, term: term, steps: c38Steps(c38Do("screen"), c38Do("close")), rc: []int{1}},
						c38Case{tty: tty, term: term, steps: c38Steps(c38Do("screen"), c38Keys("\x03")), rc: []int{0}})
				}
			}
			all(e, cases)
		}},
	})
}
