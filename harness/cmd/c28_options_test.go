package cmd

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"net"
	"strings"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/timing"
	"github.com/golang/protobuf/proto"
	"github.com/urfave/cli"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C28: every logging option sets exactly the subsystem it names.

var c28Subs = []string{"comm", "play", "shed", "ssh", "time"}

type c28Level struct {
	spelling string
	level    log.Level
}

func c28Levels() []c28Level {
	r := []c28Level{}
	for l, n := range [][2]string{{"trace", "trc"}, {"debug", "dbg"}, {"info", "inf"}, {"warn", "wrn"}, {"error", "err"}, {"fatal", "ftl"}, {"off", "oFF"}} {
		for _, s := range n {
			r = append(r, c28Level{s, log.Level(l)}, c28Level{strings.ToUpper(s), log.Level(l)}, c28Level{strings.ToUpper(s[:1]) + s[1:], log.Level(l)})
		}
	}
	return r
}

// c28Run runs a program with logging options.
func c28Run(e *mc.E, args []string) {
	log.CutoffLevels = map[string]log.Level{}
	log.DefaultCutoffLevel = log.LevelInfo
	app := NewApp("test")
	app.Flags = AddLoggingFlags([]cli.Flag{SampleRateFlag})
	app.Writer = ioutil.Discard
	ran := false
	app.Action = func(ctx *cli.Context) error { ran = true; HandleLoggingFlags(ctx); return nil }
	err := app.Run(append([]string{"program"}, args...))
	e.Assert(err == nil && ran, "options", "options rejected: %v", err)
}

// c28Effect checks from which level on loggers write.
func c28Effect(e *mc.E, set map[string]log.Level, def log.Level, out, errs *bytes.Buffer) {
	for _, n := range append([]string{"other", "comm-logging", "logging"}, c28Subs...) {
		want, ok := set[n]
		if !ok {
			want = def
		}
		l := log.GetLogger(n)
		for lv := log.LevelTrace; lv <= log.LevelFatal; lv++ {
			out.Reset()
			errs.Reset()
			l("text", lv)
			got := out.Len()+errs.Len() > 0
			e.Assert(got == (want <= lv), "effect", "a message of %s at level %d is written: %v (expected level %d)", n, lv, got, want)
			e.Step(1)
		}
	}
}

func c28Options(e *mc.E) {
	levels := c28Levels()
	names := append([]string{""}, c28Subs...)
	e.Rule("every combination of up to two logging options with every spelling of every level name, written --o=v or --o v or -o v, checked by logging at every level of every subsystem; distinct: settings")
	out, errs := &bytes.Buffer{}, &bytes.Buffer{}
	log.OutputWriter, log.ErrorWriter = out, errs
	opt := func(name string) string {
		if name == "" {
			return "logging"
		}
		return name + "-logging"
	}
	write := func(form int, o, v string) []string {
		switch form {
		case 0:
			return []string{"--" + o + "=" + v}
		case 1:
			return []string{"--" + o, v}
		}
		return []string{"-" + o, v}
	}
	run := func(args []string, set map[string]log.Level) {
		e.Case(func() string { return fmt.Sprintf("%q", args) })
		e.Try(func() {
			c28Run(e, args)
			def := log.LevelInfo
			if d, ok := set[""]; ok {
				def = d
			}
			c28Effect(e, set, def, out, errs)
			e.DistinctH(mc.Hash(set))
		})
	}
	if e.Mine(0) {
		run(nil, nil)
		for _, n := range names {
			for _, l := range levels {
				for form := 0; form < 3; form++ {
					run(write(form, opt(n), l.spelling), map[string]log.Level{n: l.level})
				}
			}
		}
	}
	v := 0
	for i, a := range names {
		for j, b := range names {
			if i == j {
				continue
			}
			for _, la := range levels {
				for _, lb := range levels {
					v++
					if e.Mine(v) {
						run(append(write(v%3, opt(a), la.spelling), write(v/3%3, opt(b), lb.spelling)...), map[string]log.Level{a: la.level, b: lb.level})
					}
				}
			}
		}
	}
}

type c28Conn struct{ net.Conn }

func (c28Conn) Write([]byte) (int, error) { return 0, fmt.Errorf("broken") }
func (c28Conn) RemoteAddr() net.Addr      { return &net.TCPAddr{} }
func (c28Conn) LocalAddr() net.Addr       { return &net.TCPAddr{} }

type c28Sender struct{}

func (c28Sender) SendMessage(proto.Message) error { return nil }

// c28Buffer is written by several goroutines.
type c28Buffer struct {
	lock chan bool
	b    bytes.Buffer
}

func (b *c28Buffer) Write(p []byte) (int, error) {
	b.lock <- true
	defer func() { <-b.lock }()
	return b.b.Write(p)
}
func (b *c28Buffer) String() string {
	b.lock <- true
	defer func() { <-b.lock }()
	return b.b.String()
}

// c28Real: the options have an effect on the subsystems themselves.
func c28Real(e *mc.E) {
	e.Rule("every subsystem's own messages with every level set for it, by name, and none for the others; distinct: written messages")
	schedule.TimeSyncCycles = 0
	schedule.TimeSyncInterval = time.Hour
	cases := []struct {
		name  string
		do    func()
		text  string
		level log.Level
	}{
		{"comm", func() { comm.PingHandler(c28Conn{}) }, "failed to send ping", log.LevelWarn},
		{"play", func() { playback.SetVolume(.25) }, "volume set to", log.LevelInfo},
		{"shed", func() { schedule.Infoer(c28Sender{}) }, "syncing time", log.LevelInfo},
		{"ssh", func() { ssh.StartSSH("256.1.1.1:http:x", map[string]ssh.UserAuth{}) }, "starting ssh server", log.LevelInfo},
		{"time", func() { timing.ResetOffsets(0); timing.UpdateOffset(1, 2, 3, 4) }, "updating offset", log.LevelTrace},
	}
	for i, c := range cases {
		for _, l := range c28Levels() {
			c, l := c, l
			for def := log.LevelTrace; def <= log.LevelOff; def += 3 {
				e.Case(func() string {
					return fmt.Sprintf("--%s-logging=%s with default level %d, message of %s", c.name, l.spelling, def, c.name)
				})
				buf := &c28Buffer{lock: make(chan bool, 1)}
				log.OutputWriter, log.ErrorWriter = buf, buf
				c28Run(e, []string{"--" + c.name + "-logging=" + l.spelling, "--logging", []string{"trace", "", "", "warn", "", "", "off"}[def]})
				c.do()
				want := l.level <= c.level
				for try := 0; want && !strings.Contains(buf.String(), c.text) && try < 2000; try++ {
					time.Sleep(time.Millisecond)
				}
				if i == 2 && !want {
					time.Sleep(time.Millisecond)
				}
				got := strings.Contains(buf.String(), c.text)
				e.Assert(got == want, "real", "message %q is written: %v", c.text, got)
				e.DistinctH(mc.Hash(c.name, got))
				e.Step(1)
			}
		}
	}
}

func TestMC(t *testing.T) {
	mc.Main(t, []mc.Scenario{
		{Name: "options", Enum: c28Options, Shards: 8},
		{Name: "real", Enum: c28Real},
	})
}
