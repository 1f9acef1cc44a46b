package schedule

import (
	"fmt"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C20 on a whole server: clients subscribe at any time of a stream with
// songs, pauses and jumps.

type c20Step struct {
	wait time.Duration
	cmd  string
	args []string
}

func c20Server(cfg srvCfg, steps []c20Step, seconds, joinTimes int) func() {
	return func() {
		var full *vclient
		s := serve(cfg, func(b *caster) { b.noChunk = true; full = c20Client(b, "full", comm.Channel_META) })
		mc.GoNamed("user", func() {
			for _, st := range steps {
				mc.SleepNs(int64(st.wait))
				s.cmd(st.cmd, st.args...)
			}
		})
		late := c20Client(s.caster, "late")
		when := mc.Choose(joinTimes)
		mc.GoNamed("late", func() {
			mc.SleepNs(int64(when) * int64(time.Second))
			s.subscribe(late, comm.Channel_META, s.join)
		})
		mc.SleepNs(int64(seconds)*int64(time.Second) + int64(time.Second)/2)
		mc.Quiesce()
		last := c20Client(s.caster, "last")
		mc.Join(mc.GoNamed("last", func() { s.subscribe(last, comm.Channel_META, s.join) }))
		k := knowledge(full.got)
		end := uint64(0)
		for _, m := range k.songs {
			if end < m.FirstSampleOfSongIndex {
				end = m.FirstSampleOfSongIndex
			}
		}
		for _, m := range k.pauses {
			if end < m.ToggleSampleIndex {
				end = m.ToggleSampleIndex
			}
		}
		agree(k, knowledge(late.got), end+2, fmt.Sprintf("a client subscribing after %d s", when))
		agree(k, knowledge(last.got), end+2, "a client subscribing at the end")
		mc.Outcome(fmt.Sprint(k))
	}
}

func TestMC(t *testing.T) {
	setupSongs()
	q := func(song string) c20Step { return c20Step{0, "queue", []string{song}} }
	c := func(w int, cmd string, args ...string) c20Step {
		return c20Step{time.Duration(w) * time.Second, cmd, args}
	}
	cfg := srvCfg{rate: 4, chunk: 4, nan: 1, startDelay: time.Second, delay: 5 * time.Second}
	var scs []mc.Scenario
	add := func(name string, bound int, body func()) {
		scs = append(scs, mc.Scenario{Name: name, Setup: setupSongs, Body: body, MaxBound: bound, MaxSteps: 60000})
	}
	add("songs", mc.Pick(2, 3), c20Server(cfg, []c20Step{c(0, "resume"), q("a3.mp3"), q("c5.mp3")}, 5, 5))
	add("paused_start", mc.Pick(2, 3), c20Server(cfg, []c20Step{q("l99.mp3"), c(2, "resume"), c(1, "pause"), c(1, "resume")}, 6, 6))
	add("paused_jump", mc.Pick(2, 3), c20Server(cfg, []c20Step{c(0, "resume"), q("l99.mp3"), q("a3.mp3"), c(2, "pause"), c(1, "jump", "1"), c(1, "resume")}, 7, 6))
	mc.Main(t, scs)
}
