package schedule

import (
	"fmt"
	"strconv"
	"testing"

	"github.com/LogicalOverflow/music-sync/comm"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C06: after volume changes everyone agrees on the last volume set.

const startVolume = 0.1

// volume is what the client plays with.
func (c *vclient) volume() float64 {
	v := startVolume // a player's own default
	for _, m := range c.got {
		if s, ok := m.(*comm.SetVolumeRequest); ok {
			v = s.Volume
		}
	}
	return v
}

type volOp struct {
	begin, end int
	v          float64
	valid      bool
}

// c06 runs the sessions' volume commands while the joiners subscribe.
// sessions: arguments of volume commands issued one after the other;
// present: channels of clients subscribed from the start; joining: of clients
// subscribing meanwhile.
func c06(sessions [][]string, present, joining []comm.Channel, failing bool) func() {
	return func() {
		b := &caster{}
		ss := &serverState{sender: b, volume: startVolume}
		handler := ss.createClientHandler()
		for i, ch := range present {
			b.client(fmt.Sprint("present", i), ch)
		}
		if failing {
			c := b.client("gone", comm.Channel_AUDIO)
			c.fail = true
		}
		var clk int
		var ops []*volOp
		hs := []*mc.Handle{}
		cmd := ss.volumeCommand()
		for i, args := range sessions {
			args := args
			hs = append(hs, mc.GoNamed(fmt.Sprint("session", i), func() {
				for _, a := range args {
					v, err := strconv.ParseFloat(a, 64)
					clk++
					op := &volOp{begin: clk, v: v, valid: err == nil}
					ops = append(ops, op)
					_, ok := cmd.ExecFunc([]string{a})
					mc.Assert(ok == op.valid, "accepted", "volume %q accepted: %v", a, ok)
					clk++
					op.end = clk
				}
			}))
		}
		for i, ch := range joining {
			c := b.client(fmt.Sprint("joiner", i))
			ch := ch
			hs = append(hs, mc.GoNamed(c.name, func() { b.subscribe(c, ch, handler) }))
		}
		mc.Join(hs...)
		mc.Quiesce()
		possible := map[float64]bool{}
		any := false
		for _, o := range ops {
			last := o.valid
			any = any || o.valid
			for _, p := range ops {
				if p.valid && p.begin > o.end {
					last = false
				}
			}
			if last {
				possible[o.v] = true
			}
		}
		if !any {
			possible[startVolume] = true
		}
		mc.Assert(possible[ss.volume], "stale", "the server's volume is %v after the commands %v", ss.volume, sessions)
		for _, c := range b.clients {
			if !c.fail {
				mc.Assert(c.volume() == ss.volume, "disagree", "%s plays at %v, the server's volume is %v (it got %v)", c.name, c.volume(), ss.volume, c.got)
			}
		}
		mc.Outcome(fmt.Sprint(ss.volume))
	}
}

func TestMC(t *testing.T) {
	A, M := comm.Channel_AUDIO, comm.Channel_META
	ch := func(c ...comm.Channel) []comm.Channel { return c }
	one, two, three := [][]string{{"0.5"}}, [][]string{{"0.5"}, {"0.75"}}, [][]string{{"0.5"}, {"0.75"}, {"0.25"}}
	row := [][]string{{"0.5", "0.75"}}
	mixed := [][]string{{"0.5", "loud"}, {"0.75"}}
	mc.Main(t, []mc.Scenario{
		{Name: "one_command_joiner", Body: c06(one, nil, ch(A), false)},
		{Name: "one_command_meta_joiner", Body: c06(one, ch(A), ch(M), false)},
		{Name: "one_command_two_joiners", Body: c06(one, nil, ch(A, M), false)},
		{Name: "two_commands", Body: c06(two, ch(A), nil, false)},
		{Name: "two_commands_two_clients", Body: c06(two, ch(A, M), nil, false), MaxBound: mc.Pick(5, 8)},
		{Name: "two_commands_joiner", Body: c06(two, nil, ch(A), false)},
		{Name: "two_commands_client_joiner", Body: c06(two, ch(M), ch(A), false), MaxBound: mc.Pick(5, 8)},
		{Name: "commands_in_a_row_joiner", Body: c06(row, nil, ch(A), false)},
		{Name: "row_and_command", Body: c06([][]string{{"0.5", "0.75"}, {"0.25"}}, ch(A), nil, false)},
		{Name: "malformed", Body: c06([][]string{{"loud"}, {""}}, ch(A), ch(M), false)},
		{Name: "malformed_between", Body: c06(mixed, ch(A), nil, false)},
		{Name: "one_client_gone", Body: c06(two, ch(A), nil, true), MaxBound: mc.Pick(5, 8)},
		{Name: "same_volume_again", Body: c06([][]string{{"0.5", "0.75"}, {"0.5"}}, ch(A), nil, false)},
		{Name: "three_commands", Body: c06(three, ch(A), nil, false), MaxBound: mc.Pick(5, 8)},
		{Name: "three_commands_joiner", Thorough: true, Body: c06(three, nil, ch(A), false), MaxBound: 5},
		{Name: "row_command_joiner", Thorough: true, Body: c06([][]string{{"0.5", "0.75"}, {"0.25"}}, nil, ch(M), false), MaxBound: 5},
		{Name: "two_commands_two_joiners", Thorough: true, Body: c06(two, nil, ch(A, M), false), MaxBound: 5},
	})
}
