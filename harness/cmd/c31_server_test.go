package main

import (
	"bytes"
	"crypto/ecdsa"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/cmd"
	xssh "golang.org/x/crypto/ssh"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// c31Opt is an option of the server.
type c31Opt struct {
	names  []string
	values []string
}

var c31Opts = []c31Opt{
	{[]string{"time-sync-interval"}, []string{"90s", "1h0m0.5s", "1ns"}},
	{[]string{"time-sync-cycles"}, []string{"1", "20000", "0"}},
	{[]string{"time-sync-cycle-delay"}, []string{"1500us", "2m", "0s"}},
	{[]string{"stream-chunk-size"}, []string{"1", "44101", "1000000"}},
	{[]string{"stream-start-delay"}, []string{"0s", "7777ms", "3h"}},
	{[]string{"stream-delay"}, []string{"1ms", "1m1s", "3ns"}},
	{[]string{"song-break-size"}, []string{"0", "88201", "7"}},
	{[]string{"sample-rate"}, []string{"48000", "7", "1000000007"}},
	{[]string{"music-dir", "dir", "d"}, []string{"other dir", "./audio/../ж", "."}},
	{[]string{"host-key", "key", "k"}, []string{"key 2", "./keys/key3", "missing"}},
	{[]string{"users-file", "users", "u"}, []string{"users 2", "./u/ж.json", "users 2"}},
	{[]string{"port", "p"}, []string{"21001", "9", "65535"}},
	{[]string{"ssh-port", "sp"}, []string{"21002", "22", "2"}},
}

const (
	c31Interval = iota
	c31Cycles
	c31CycleDelay
	c31Chunk
	c31StartDelay
	c31Delay
	c31Break
	c31Rate
	c31Dir
	c31KeyFile
	c31Users
	c31Port
	c31SSHPort
)

// c31World is the directory the server is started in.
type c31World struct {
	dir  string
	keys map[string]*ecdsa.PrivateKey
}

func newC31World() *c31World {
	w := &c31World{c31Temp(), map[string]*ecdsa.PrivateKey{}}
	for _, f := range []string{"id_rsa", "key 2", "./keys/key3"} {
		w.keys[f] = c31Key(filepath.Join(w.dir, f))
	}
	for _, f := range []string{"users.json", "users 2", "./u/ж.json"} {
		c31File(filepath.Join(w.dir, f), fmt.Sprintf(`{"u": {"password": %q}}`, "password of "+f))
	}
	for _, d := range []string{"audio", "other dir", "ж"} {
		if err := os.Mkdir(filepath.Join(w.dir, d), 0700); err != nil {
			panic(err)
		}
	}
	return w
}

func (w *c31World) remove() { os.RemoveAll(w.dir) }

func c31Ns(s string) int64 {
	d, err := time.ParseDuration(s)
	if err != nil {
		panic(err)
	}
	return int64(d)
}

func c31Int(s string) int {
	n := 0
	if _, err := fmt.Sscan(s, &n); err != nil {
		panic(err)
	}
	return n
}

// c31Want is what the given options (option to value) set.
func c31Want(given map[int]string) (v c31Vars, users string, port, sshPort int) {
	v = c31Vars{Interval: int64(cmd.DefaultTimeSyncInterval), CycleDelay: int64(cmd.DefaultTimeSyncCycleDelay), StartDelay: int64(cmd.DefaultStreamStartDelay), Delay: int64(cmd.DefaultStreamDelay),
		Cycles: cmd.DefaultTimeSyncCycles, ChunkSize: cmd.DefaultStreamChunkSize, Break: cmd.DefaultNanBreakSize, Rate: cmd.DefaultSampleRate, Dir: cmd.DefaultAudioDir, Key: cmd.DefaultSSHKeyFile}
	users, port, sshPort = cmd.DefaultSSHUsersFile, cmd.DefaultMusicPort, cmd.DefaultSSHPort
	for o, x := range given {
		switch o {
		case c31Interval:
			v.Interval = c31Ns(x)
		case c31Cycles:
			v.Cycles = c31Int(x)
		case c31CycleDelay:
			v.CycleDelay = c31Ns(x)
		case c31Chunk:
			v.ChunkSize = c31Int(x)
		case c31StartDelay:
			v.StartDelay = c31Ns(x)
		case c31Delay:
			v.Delay = c31Ns(x)
		case c31Break:
			v.Break = c31Int(x)
		case c31Rate:
			v.Rate = c31Int(x)
		case c31Dir:
			v.Dir = x
		case c31KeyFile:
			v.Key = x
		case c31Users:
			users = x
		case c31Port:
			port = c31Int(x)
		case c31SSHPort:
			sshPort = c31Int(x)
		}
	}
	// the time the chunk takes to play, rounded to ns in either direction
	v.ChunkTime = int64(float64(v.ChunkSize) / float64(v.Rate) * 1e9)
	return
}

// c31Same compares what is set with what is to be set; other is the program's
// directory, to which names may have been made absolute.
func c31Same(got, want c31Vars, dir string) bool {
	if d := got.ChunkTime - want.ChunkTime; d < -1-want.ChunkTime>>50 || 1+want.ChunkTime>>50 < d {
		return false
	}
	got.ChunkTime = want.ChunkTime
	for _, x := range [][2]*string{{&got.Dir, &want.Dir}, {&got.Key, &want.Key}} {
		for _, s := range x {
			if !filepath.IsAbs(*s) {
				*s = filepath.Join(dir, *s)
			}
			*s = filepath.Clean(*s)
		}
	}
	return got == want
}

// c31Serve starts the server with the options and checks what they have set.
func (w *c31World) c31Serve(e *mc.E, addr, sshAddr string, given map[int]string, args []string) {
	want, users, port, sshPort := c31Want(given)
	at, sshAt := fmt.Sprintf("%s:%d", addr, port), fmt.Sprintf("%s:%d", sshAddr, sshPort)
	p := c31Start(w.dir, args, []string{at, sshAt}, nil)
	defer p.end()
	got, ok := p.look()
	if !ok {
		<-p.done
		e.Fail("start", "the server did not start at %s and %s (code %d): %s", at, sshAt, p.rc, p.stderr())
		return
	}
	for try := 0; ok && !c31Same(got, want, w.dir) && try < 20; try++ {
		time.Sleep(20 * time.Millisecond)
		got, ok = p.look()
	}
	e.Assert(ok, "start", "the server ended: %s", p.stderr())
	e.Assert(c31Same(got, want, w.dir), "values", "options set %+v instead of %+v", got, want)
	// the users are those of the file, the host key is that of the file
	hostKey := []byte(nil)
	c, err := xssh.Dial("tcp", sshAt, &xssh.ClientConfig{User: "u", Auth: []xssh.AuthMethod{xssh.Password("password of " + users)}, Timeout: c31Limit,
		HostKeyCallback: func(_ string, _ net.Addr, k xssh.PublicKey) error { hostKey = k.Marshal(); return nil }})
	e.Assert(err == nil, "users", "login with the password from %s: %v", users, err)
	if err == nil {
		c.Close()
	}
	if k := w.keys[want.Key]; k != nil {
		pub, err := xssh.NewPublicKey(&k.PublicKey)
		if err != nil {
			panic(err)
		}
		e.Assert(bytes.Equal(pub.Marshal(), hostKey), "hostkey", "the host key is not that of %s", want.Key)
	}
	// the other port is no ssh server
	m, err := net.Dial("tcp", at)
	e.Assert(err == nil, "address", "connecting to %s: %v", at, err)
	if err == nil {
		m.Close()
	}
	e.Distinct(fmt.Sprintf("%+v %s %d %d", got, users, port, sshPort))
	e.Step(1)
}

// c31Combinations calls f with every choice of up to k options and values.
func c31Combinations(k, values int, f func(given map[int]string)) {
	given := map[int]string{}
	var rec func(from, left int)
	rec = func(from, left int) {
		f(given)
		if left == 0 {
			return
		}
		for o := from; o < len(c31Opts); o++ {
			for _, x := range c31Opts[o].values[:values] {
				given[o] = x
				rec(o+1, left-1)
				delete(given, o)
			}
		}
	}
	rec(0, k)
}

func c31Options(k, values, block int) func(e *mc.E) {
	return func(e *mc.E) {
		e.Rule(fmt.Sprintf("server started with every combination of up to %d of its 13 options (besides the addresses) with %d values each, written in rotating order, alias and form; distinct: settings in effect", k, values))
		w := newC31World()
		defer w.remove()
		n, i := 0, 0
		stopped := false
		c31Combinations(k, values, func(given map[int]string) {
			n++
			if stopped || !e.Mine(n) {
				return
			}
			i++
			addr, sshAddr := c31Addr(e, block, 2*i), c31Addr(e, block, 2*i+1)
			args := append(c31Form([]string{"address", "addr", "a"}[n%3], addr, n>>2), c31Form([]string{"ssh-address", "ssh-addr", "sa"}[n%3], sshAddr, n>>3)...)
			for o := range c31Opts {
				if x, ok := given[o]; ok {
					names := c31Opts[o].names
					a := c31Form(names[n/3%len(names)], x, n+o)
					if (n+o)%3 == 0 {
						args = append(args, a...)
					} else {
						args = append(a, args...)
					}
				}
			}
			if !e.Case(func() string { return strings.Join(args, "|") }) {
				stopped = true
				return
			}
			w.c31Serve(e, addr, sshAddr, given, args)
		})
	}
}

// c31Names: every option alone, in every spelling, and none.
func c31Names(e *mc.E) {
	e.Rule("server started with every option alone, in every alias and form and with every value; distinct: settings in effect")
	w := newC31World()
	defer w.remove()
	n, i := 0, 0
	for o := range c31Opts {
		for _, x := range c31Opts[o].values {
			for _, name := range c31Opts[o].names {
				for form := 0; form < 4; form++ {
					if n++; !e.Mine(n) {
						continue
					}
					i++
					addr := c31Addr(e, 6, i)
					args := append(c31Form(name, x, form), "-a", addr, "-sa", addr)
					if !e.Case(func() string { return strings.Join(args, "|") }) {
						return
					}
					w.c31Serve(e, addr, addr, map[int]string{o: x}, args)
				}
			}
		}
	}
}

// c31Defaults: the addresses, by default the same one.
func c31Defaults(e *mc.E) {
	c31Lock()
	e.Rule("server started with every subset of the four address and port options; distinct: settings in effect")
	w := newC31World()
	defer w.remove()
	for set := 0; set < 16; set++ {
		args, given := []string{}, map[int]string{}
		addr, sshAddr := cmd.DefaultMusicAddress, cmd.DefaultSSHAddress
		if set&1 == 1 {
			addr = "127.200.1.1"
			args = append(args, "--address", addr)
		}
		if set&2 == 2 {
			given[c31Port] = "21001"
			args = append(args, "--port", "21001")
		}
		if set&4 == 4 {
			sshAddr = "127.200.1.2"
			args = append(args, "--ssh-address", sshAddr)
		}
		if set&8 == 8 {
			given[c31SSHPort] = "21002"
			args = append(args, "--ssh-port", "21002")
		}
		if !e.Case(func() string { return strings.Join(args, "|") }) {
			return
		}
		w.c31Serve(e, addr, sshAddr, given, args)
	}
}

// c31Failing are the things that can go wrong, each in several ways: the
// options and what to do beforehand.
func c31Failing(w *c31World, addr, sshAddr string) (names []string, ways [][]func() []string) {
	add := func(name string, f ...func() []string) { names, ways = append(names, name), append(ways, f) }
	opt := func(a ...string) func() []string { return func() []string { return a } }
	c31File(filepath.Join(w.dir, "file"), "text")
	add("music dir", opt("--music-dir", "missing"), opt("--music-dir", "file"), opt("--music-dir", ""))
	c31File(filepath.Join(w.dir, "bad.json"), `{"u": {"password": "x"}`)
	c31File(filepath.Join(w.dir, "other.json"), `["u"]`)
	c31File(filepath.Join(w.dir, "empty.json"), ``)
	add("users", opt("--users-file", "missing"), opt("--users-file", "bad.json"), opt("--users-file", "other.json"), opt("--users-file", "empty.json"), opt("--users-file", "audio"))
	add("address", opt("--address", addr, "--port", "21100"), opt("--address", "192.0.2.1"), opt("--port", "65536"), opt("--port", "-1"))
	add("ssh address", opt("--ssh-address", addr, "--ssh-port", "21100"), opt("--ssh-address", "192.0.2.1"), opt("--ssh-port", "65536"), opt("--ssh-port", "-1"))
	c31File(filepath.Join(w.dir, "badkey"), "no key")
	add("host key", opt("--host-key", "badkey"))
	add("rate", opt("--sample-rate", "0"), opt("--sample-rate", "-44100"))
	add("chunk", opt("--stream-chunk-size", "0"), opt("--stream-chunk-size", "-1"))
	bad := []func() []string{opt("--no-such-option"), opt("--port")}
	for o, v := range c31Opts {
		if o != c31Dir && o != c31Users && o != c31KeyFile {
			bad = append(bad, opt("--"+v.names[0], "x"), opt("--"+v.names[0], ""), opt("--"+v.names[0]+"=1x"))
		}
	}
	add("value", bad...)
	return
}

func c31Failures(e *mc.E) {
	e.Rule("server started with every subset of its preconditions failing (music dir, users file, address, ssh address, host key, sample rate, chunk size, option value), each in every way alone and with one other, in its first and last way otherwise; distinct: subsets")
	w := newC31World()
	defer w.remove()
	addr, sshAddr := c31Addr(e, 7, 1), c31Addr(e, 7, 2)
	l, err := net.Listen("tcp", addr+":21100") // in use
	if err != nil {
		panic(err)
	}
	defer l.Close()
	names, ways := c31Failing(w, addr, sshAddr)
	n := 0
	choice := make([]int, len(names)) // 0: none
	var rec func(from, set int)
	rec = func(from, set int) {
		if from == len(names) {
			if n++; set == 0 || !e.Mine(n) || e.Stopped() {
				return
			}
			args, what := []string{}, []string{}
			for k, c := range choice {
				if c > 0 {
					args = append(args, ways[k][c-1]()...)
					what = append(what, names[k])
				}
			}
			// what is given later counts
			args = append([]string{"--address", addr, "--port", "21101", "--ssh-address", sshAddr, "--ssh-port", "21102"}, args...)
			if !e.Case(func() string { return strings.Join(args, "|") }) {
				return
			}
			p := c31Start(w.dir, args, []string{addr + ":21101", sshAddr + ":21102"}, nil)
			p.fails(e, strings.Join(args[8:], " "))
			e.Distinct(fmt.Sprint(what))
			e.Step(1)
			return
		}
		rec(from+1, set)
		for c := 1; c <= len(ways[from]); c++ {
			if set < 2 && (set == 0 || c == 1 || c == len(ways[from])) || c == 1 && (from < 4 || set < 3) {
				choice[from] = c
				rec(from+1, set+1)
				choice[from] = 0
			}
		}
	}
	rec(0, 0)
}

// c31Same: both servers at the same address is an error as well.
func c31Both(e *mc.E) {
	c31Lock()
	e.Rule("server started with both servers at the same address and port, where the address is given or is the default")
	w := newC31World()
	defer w.remove()
	for _, args := range [][]string{{"--port", "13334"}, {"--ssh-port", "13333"}, {"--address", "127.200.2.1", "--ssh-address", "127.200.2.1", "--port", "5", "--ssh-port", "5"}, {"--port", "21003", "--ssh-port", "21003"}} {
		if !e.Case(func() string { return strings.Join(args, "|") }) {
			return
		}
		c31Start(w.dir, args, nil, nil).fails(e, strings.Join(args, " "))
		e.Distinct(fmt.Sprint(args))
		e.Step(1)
	}
	// nothing where it is expected
	d := c31Temp()
	defer os.RemoveAll(d)
	for have := 0; have < 3; have++ {
		if have&1 == 1 {
			os.Mkdir(filepath.Join(d, "audio"), 0700)
		}
		if have&2 == 2 {
			os.Remove(filepath.Join(d, "audio"))
			c31File(filepath.Join(d, "users.json"), "{}")
		}
		if !e.Case(func() string { return fmt.Sprint("missing files ", have) }) {
			return
		}
		c31Start(d, nil, nil, nil).fails(e, "files missing")
		e.Distinct(have)
		e.Step(1)
	}
}

func TestMC(t *testing.T) {
	mc.Main(t, []mc.Scenario{
		{Name: "names", Enum: c31Names, Shards: 4},
		{Name: "defaults", Enum: c31Defaults},
		{Name: "both", Enum: c31Both},
		{Name: "failures", Enum: c31Failures, Shards: 6},
		{Name: "pairs", Enum: c31Options(2, 3, 0), Shards: 6},
		{Name: "triples", Enum: c31Options(3, 2, 1), Shards: 8},
		{Name: "triples3", Enum: c31Options(3, 3, 2), Shards: 8, Thorough: true},
		{Name: "quadruples", Enum: c31Options(4, 2, 3), Shards: 12, Thorough: true},
	})
}
