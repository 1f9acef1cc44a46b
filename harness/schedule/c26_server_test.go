package schedule

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/ssh"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C26: the commands a running server offers, and their effect on it.

func c26Server(depth int, pool []c26Op) func() {
	return func() {
		var meta *vclient
		s := serve(srvCfg{rate: 4, chunk: 4, nan: 1, startDelay: 2 * time.Second, delay: 5 * time.Second}, func(b *caster) {
			meta = b.client("meta", comm.Channel_META)
			meta.unordered, b.static = true, true
		})
		names := []string{}
		for n := range s.cmds {
			names = append(names, n)
		}
		sort.Strings(names)
		mc.Assert(strings.Join(names, " ") == "help jump ls pause playlist queue remove resume volume", "offered", "the commands offered are %v", names)
		for _, n := range names { // serve has taken them away
			if n != "help" && n != "ls" {
				ssh.RegisterCommand(s.cmds[n])
			}
		}
		help, ok := s.cmds["help"].Exec(nil)
		mc.Assert(ok, "help", "help is refused")
		for n, c := range s.cmds {
			mc.Assert(strings.Contains(help, n) && strings.Contains(help, c.Info), "help", "help does not tell %s: %q", n, help)
			h, ok := s.cmds["help"].Exec([]string{n})
			mc.Assert(ok && strings.Contains(h, n) && strings.Contains(h, c.Info) && strings.Contains(h, c.Usage), "help", "help %s answers %q", n, h)
		}
		ssh.VerifCommands()
		first := &vclient{name: "first", subs: map[comm.Channel]bool{}}
		s.join(comm.Channel_META, first)
		m := &c26Model{}
		for _, g := range first.got {
			if v, ok := g.(*comm.SetVolumeRequest); ok {
				m.volume = v.Volume
			}
		}
		sent := 0
		playlist := c26Op{name: "playlist"}
		check := func(op c26Op) {
			out, ok := s.cmds[op.name].Exec(op.args)
			w := m.apply(op)
			mc.Assert(ok == !w.usage, "usage", "%v: usage shown is %v, expected %v", op, !ok, w.usage)
			c26Output(mc.Assert, op, w, m, out, "")
			if w.volume {
				sent++
			}
		}
		check(playlist)
		said := ""
		for i := 0; i < depth; i++ {
			op := pool[mc.Choose(len(pool))]
			said += op.String() + " "
			check(op)
			check(playlist)
			mc.SleepNs([]int64{0, int64(1500 * time.Millisecond)}[mc.Choose(2)])
			mc.Quiesce()
			check(playlist)
			n := 0
			for _, g := range meta.got {
				if v, ok := g.(*comm.SetVolumeRequest); ok {
					n++
					if n == sent {
						mc.Assert(v.Volume == m.volume, "sent", "after %s: the volume sent is %v, expected %v", said, v.Volume, m.volume)
					}
				}
			}
			mc.Assert(n == sent, "sent", "after %s: %d volumes are sent, expected %d", said, n, sent)
		}
		c := &vclient{name: "last", subs: map[comm.Channel]bool{}}
		s.join(comm.Channel_META, c)
		for _, g := range c.got {
			if v, ok := g.(*comm.SetVolumeRequest); ok {
				mc.Assert(v.Volume == m.volume, "volume", "after %s: the volume is %v, expected %v", said, v.Volume, m.volume)
			}
		}
		mc.Outcome(fmt.Sprint(m.songs, m.playing, m.volume))
	}
}

func TestMC(t *testing.T) {
	setupSongs()
	for f := range c26Files {
		delete(c26Files, f)
	}
	all, _ := filepath.Glob(filepath.Join(playback.AudioDir, "*.mp3"))
	for _, f := range all {
		f = filepath.Base(f)
		c26Files[f] = []string{f}
		c26Files["*"] = append(c26Files["*"], f)
	}
	op := func(name string, args ...string) c26Op { return c26Op{name, args} }
	pool := []c26Op{
		op("queue", "a3.mp3"), op("queue", "*", "0"), op("queue"), op("queue", "none.mp3"), op("queue", "["),
		op("remove", "0"), op("remove", "1"), op("remove"), op("remove", "x"),
		op("jump", "0"), op("jump", "1"), op("jump"), op("jump", "1.0"),
		op("volume", "0.5"), op("volume", "0"), op("volume"), op("volume", "nan"), op("volume", "loud"),
		op("pause"), op("resume"),
	}
	small := []c26Op{pool[0], pool[1], pool[5], pool[8], pool[10], pool[12], pool[13], pool[17], pool[18], pool[19]}
	mc.Main(t, []mc.Scenario{
		{Name: "two", Setup: setupSongs, Body: c26Server(2, pool), MaxBound: 0, MaxSteps: 60000},
		{Name: "three", Setup: setupSongs, Body: c26Server(3, small), MaxBound: 0, MaxSteps: 60000},
		{Name: "three_all", Setup: setupSongs, Body: c26Server(3, pool), MaxBound: 0, MaxSteps: 60000, Thorough: true},
		{Name: "four", Setup: setupSongs, Body: c26Server(4, small), MaxBound: 0, MaxSteps: 60000, Thorough: true},
	})
}
