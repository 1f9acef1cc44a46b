package schedule

import (
	"fmt"
	"testing"

	"github.com/LogicalOverflow/music-sync/comm"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C06 with comm's server: clients joining while the volume is changed end up
// with it.

const netVolume = 0.1

func (c *nconn) volume() float64 {
	v := netVolume
	for _, m := range c.got() {
		if s, ok := m.(*comm.SetVolumeRequest); ok {
			v = s.Volume
		}
	}
	return v
}

// c06Net runs the volume commands of the sessions while clients join: all of
// a session's commands one after the other.
func c06Net(sessions [][]string, present, joining []comm.Channel, connected bool) func() {
	return func() {
		ss := &serverState{volume: netVolume}
		l := behind(ss)
		conns := []*nconn{}
		for i, ch := range present {
			conns = append(conns, l.join(fmt.Sprint("present", i), ch))
		}
		late := []*nconn{}
		for i := range joining {
			if connected {
				late = append(late, l.connect(fmt.Sprint("joiner", i)))
			}
		}
		mc.Quiesce()
		hs := []*mc.Handle{}
		last := map[float64]bool{}
		cmd := ss.volumeCommand()
		for i, args := range sessions {
			args := args
			v := 0.0
			fmt.Sscan(args[len(args)-1], &v)
			last[v] = true
			hs = append(hs, mc.GoNamed(fmt.Sprint("session", i), func() {
				for _, a := range args {
					_, ok := cmd.Exec([]string{a})
					mc.Assert(ok, "accepted", "volume %q is refused", a)
				}
			}))
		}
		for i, ch := range joining {
			if connected {
				late[i].say(&comm.SubscribeChannelRequest{Channel: ch})
			} else {
				late = append(late, l.join(fmt.Sprint("joiner", i), ch))
			}
		}
		mc.Join(hs...)
		mc.Quiesce()
		mc.Assert(last[ss.volume], "stale", "the server's volume is %v after the commands %v", ss.volume, sessions)
		for _, c := range append(conns, late...) {
			mc.Assert(c.volume() == ss.volume, "disagree", "%s plays at %v, the server's volume is %v (it got %v)", c.name, c.volume(), ss.volume, c.got())
		}
		mc.Outcome(fmt.Sprint(ss.volume))
	}
}

func TestMC(t *testing.T) {
	A, M := comm.Channel_AUDIO, comm.Channel_META
	ch := func(c ...comm.Channel) []comm.Channel { return c }
	one, two, row := [][]string{{"0.5"}}, [][]string{{"0.5"}, {"0.75"}}, [][]string{{"0.5", "0.75"}}
	mc.Main(t, []mc.Scenario{
		{Name: "command_joiner", Body: c06Net(one, nil, ch(A), true)},
		{Name: "command_meta_joiner", Body: c06Net(one, nil, ch(M), true)},
		{Name: "command_connecting", Body: c06Net(one, nil, ch(A), false)},
		{Name: "command_client_joiner", Body: c06Net(one, ch(M), ch(A), true), MaxBound: mc.Pick(8, 99)},
		{Name: "row_joiner", Body: c06Net(row, nil, ch(A), true), MaxBound: mc.Pick(8, 99)},
		{Name: "commands_joiner", Body: c06Net(two, nil, ch(A), true), MaxBound: mc.Pick(5, 9)},
		{Name: "commands_client", Body: c06Net(two, ch(A), nil, true), MaxBound: mc.Pick(8, 99)},
		{Name: "command_joiners", Body: c06Net(one, nil, ch(A, M), true), MaxBound: mc.Pick(4, 7)},
	})
}
