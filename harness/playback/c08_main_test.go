package playback

import (
	"fmt"
	"strings"
	"testing"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
	fakemp3 "github.com/LogicalOverflow/music-sync/zzmc/fakemp3"
)

// C08: concurrent playlist edits are atomic, while the playlist is streamed.

var c08Hist mc.History

type c08Op struct {
	kind string // add insert remove list pos jump
	song string
	pos  int
}

type c08Spec struct {
	name     string
	songs    []string
	threads  [][]c08Op
	stream   bool
	reads    []int
	playing  bool
	thorough bool
}

func c08Clip(n, max int) int {
	if n < 0 {
		return 0
	}
	if n > max {
		return max
	}
	return n
}

// the list as a string of comma-separated names
func c08Step(st interface{}, op *mc.LinOp) (bool, interface{}) {
	l := strings.FieldsFunc(st.(string), func(r rune) bool { return r == ',' })
	in := op.In.(c08Op)
	done := op.Ret >= 0
	switch in.kind {
	case "add":
		return true, strings.Join(append(l, in.song), ",")
	case "insert":
		p := c08Clip(in.pos, len(l))
		return true, strings.Join(append(l[:p:p], append([]string{in.song}, l[p:]...)...), ",")
	case "remove":
		if len(l) == 0 {
			return !done || op.Out == "", st
		}
		p := c08Clip(in.pos, len(l)-1)
		return !done || op.Out == l[p], strings.Join(append(l[:p:p], l[p+1:]...), ",")
	case "list":
		return !done || op.Out == strings.Join(l, ","), st
	case "pos":
		if !done {
			return true, st
		}
		p := op.Out.(int)
		return p >= 0 && (p < len(l) || len(l) == 0), st
	}
	return true, st
}

func c08Body(sp c08Spec) func() {
	return func() {
		r := newRec(2, append([]string{}, sp.songs...), 1, sp.playing)
		for _, ops := range sp.threads {
			for _, o := range ops {
				if o.kind == "jump" {
					r.jumps++
				}
			}
		}
		hs := []*mc.Handle{}
		if sp.stream {
			r.stream()
		}
		for i, ops := range sp.threads {
			ops := ops
			hs = append(hs, mc.GoNamed(fmt.Sprintf("session%d", i), func() {
				for _, o := range ops {
					op := c08Hist.Begin(o.kind, o)
					var out interface{}
					switch o.kind {
					case "add":
						r.pl.AddSong(o.song)
					case "insert":
						r.pl.InsertSong(o.song, o.pos)
					case "remove":
						out = r.pl.RemoveSong(o.pos)
					case "list":
						out = strings.Join(r.pl.Songs(), ",")
					case "pos":
						out = r.pl.Pos()
					case "jump":
						r.pl.SetPos(o.pos)
					}
					c08Hist.End(op, out)
				}
			}))
		}
		r.reads(sp.reads...)
		mc.Quiesce()
		for i, h := range hs {
			mc.Assert(h.Done(), "session-blocked", "session %d never returns: %s", i, h.Blocked())
		}
		mc.Join(hs...)
		final := strings.Join(r.pl.Songs(), ",")
		ops := c08Hist.Current()
		mc.Outcome(final)
		mc.Assert(mc.Linearize(ops, strings.Join(sp.songs, ","), c08Step, func(st interface{}) bool { return st == final }),
			"not-atomic", "no order of the edits explains their results and the final playlist %q: %s", final, mc.HistoryString(ops))
		for _, s := range r.starts {
			_, ok := songFiles[s.name]
			mc.Assert(ok, "unknown-song", "a song that was never in the playlist started: %v", r)
		}
		if sp.stream {
			r.checkSamples()
		}
	}
}

func TestMC(t *testing.T) {
	add := func(s string) c08Op { return c08Op{kind: "add", song: s} }
	ins := func(s string, p int) c08Op { return c08Op{"insert", s, p} }
	rem := func(p int) c08Op { return c08Op{kind: "remove", pos: p} }
	list := c08Op{kind: "list"}
	pos := c08Op{kind: "pos"}
	jump := func(p int) c08Op { return c08Op{kind: "jump", pos: p} }
	specs := []c08Spec{
		{name: "add_add_list", songs: []string{"a3"}, threads: [][]c08Op{{add("b2"), list}, {add("c5")}, {list}}},
		{name: "insert_remove", songs: []string{"a3", "b2"}, threads: [][]c08Op{{ins("c5", 0), rem(2)}, {rem(0), ins("d1", 1)}, {list}}},
		{name: "remove_remove", songs: []string{"a3", "b2", "d1"}, threads: [][]c08Op{{rem(2), list}, {rem(2)}, {rem(0)}}},
		{name: "grow_shrink", songs: []string{"a3"}, threads: [][]c08Op{{add("b2"), rem(0)}, {ins("c5", 1), rem(9)}, {pos, list}}},
		{name: "insert_insert", songs: []string{"a3", "b2", "e4"}, threads: [][]c08Op{{ins("c5", 1), list}, {ins("d1", 1)}, {rem(1), list}}},
		{name: "one_left", songs: []string{"a3"}, threads: [][]c08Op{{rem(0)}, {rem(0)}, {add("b2"), list}}},
		{name: "stream_shrink", songs: []string{"a3", "b2", "d1"}, stream: true, playing: true, reads: []int{3, 3}, threads: [][]c08Op{{rem(2), rem(1)}, {rem(0), list}}},
		{name: "stream_edits", songs: []string{"a3", "b2"}, stream: true, playing: true, reads: []int{4, 3}, threads: [][]c08Op{{ins("d1", 0), list}, {add("c5"), rem(1)}}},
		{name: "stream_from_empty", stream: true, playing: true, reads: []int{5, 3}, threads: [][]c08Op{{add("a3"), rem(0)}, {add("b2"), pos}}},
		{name: "stream_jump", songs: []string{"a3", "b2"}, stream: true, playing: true, reads: []int{4, 3}, threads: [][]c08Op{{jump(1), rem(1)}, {add("d1"), list}}},
		{name: "stream_removed_playing", songs: []string{"c5"}, stream: true, playing: true, reads: []int{3, 6}, threads: [][]c08Op{{rem(0), add("a3")}, {list, pos}}},
		{name: "stream_blocked", songs: []string{"c5"}, stream: true, playing: true, reads: nil, threads: [][]c08Op{{jump(0), rem(0), jump(-3)}, {add("a3"), jump(7), list}}},
		{name: "stream_three", songs: []string{"a3", "b2"}, stream: true, playing: true, reads: []int{4, 4}, threads: [][]c08Op{{ins("d1", 1), list}, {rem(0)}, {jump(2), add("e4")}}, thorough: true},
		{name: "edits_deep", songs: []string{"a3", "b2"}, threads: [][]c08Op{{ins("c5", 0), rem(1), list}, {rem(0), ins("d1", 1), list}, {add("e4"), rem(3), list}}, thorough: true},
	}
	scs := []mc.Scenario{}
	for _, sp := range specs {
		scs = append(scs, mc.Scenario{Name: sp.name, Body: c08Body(sp), Setup: setupSongs, Teardown: fakemp3.Reset, Thorough: sp.thorough, MaxSteps: 6000})
	}
	mc.Main(t, scs)
}
