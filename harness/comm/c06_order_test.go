package comm

import (
	"fmt"
	"net"
	"testing"

	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C06: volume messages received on one connection take effect in the order
// in which they arrived, whatever else arrives in between.

type c06Rec struct {
	BaseTypedPackageHandler
	sh   mc.Shared
	vols map[string][]float64
	n    int
}

func (r *c06Rec) HandleSetVolumeRequest(m *SetVolumeRequest, c net.Conn) {
	r.sh.Access("volume")
	name := c.(*fconn).name
	r.vols[name] = append(r.vols[name], m.Volume)
}

func (r *c06Rec) HandleNewSongInfo(m *NewSongInfo, c net.Conn) { r.sh.Access("song"); r.n++ }
func (r *c06Rec) HandlePauseInfo(m *PauseInfo, c net.Conn)     { r.sh.Access("pause"); r.n++ }

// c06Order: some messages are already there, the others arrive later.
func c06Order(perConn [][]proto.Message, there int) func() {
	return func() {
		rec := &c06Rec{vols: map[string][]float64{}}
		h := TypedPackageHandler{TypedPackageHandlerInterface: rec}
		conns := []*fconn{}
		want := map[string][]float64{}
		for i, ms := range perConn {
			ms := ms
			c := &fconn{name: fmt.Sprintf("conn%d", i)}
			conns = append(conns, c)
			for _, m := range ms {
				if v, ok := m.(*SetVolumeRequest); ok {
					want[c.name] = append(want[c.name], v.Volume)
				}
			}
			n := there
			if n > len(ms) {
				n = len(ms)
			}
			c.feed(ms[:n]...)
			mc.GoNamed("reader "+c.name, func() { handleConnection(c, h) })
			if n < len(ms) {
				mc.GoNamed("peer "+c.name, func() {
					for _, m := range ms[n:] {
						c.feed(m)
					}
				})
			}
		}
		mc.Quiesce()
		for _, c := range conns {
			mc.Assert(fmt.Sprint(rec.vols[c.name]) == fmt.Sprint(want[c.name]), "order", "%s received the volumes %v, which took effect as %v", c.name, want[c.name], rec.vols[c.name])
		}
		mc.Outcome(fmt.Sprint(rec.vols))
	}
}

func TestMC(t *testing.T) {
	v := func(x float64) proto.Message { return &SetVolumeRequest{Volume: x} }
	song, pause := &NewSongInfo{SongFileName: "a"}, &PauseInfo{ToggleSampleIndex: 3}
	mc.Main(t, []mc.Scenario{
		{Name: "three", Body: c06Order([][]proto.Message{{v(.1), v(.2), v(.3)}}, 3), MaxSteps: 3000},
		{Name: "mixed", Body: c06Order([][]proto.Message{{v(.1), song, v(.2), pause, v(.3), v(.1)}}, 9), MaxSteps: 3000},
		{Name: "arriving", Body: c06Order([][]proto.Message{{v(.1), v(.2), v(.2), v(.1)}}, 1), MaxSteps: 3000},
		{Name: "two_connections", Body: c06Order([][]proto.Message{{v(.1), v(.2)}, {v(.3), v(.1), v(.4)}}, 2), MaxSteps: 3000},
	})
}
