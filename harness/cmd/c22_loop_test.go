package main

import (
	"testing"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/gdamore/tcell"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C22: the display follows the terminal's size and ends with Ctrl-C, whenever
// either comes.

// c22Term is a terminal whose events come from the harness.
type c22Term struct {
	tcell.SimulationScreen
	sh     mc.Shared
	events []tcell.Event
	ended  int
	shown  int
}

func (t *c22Term) PollEvent() tcell.Event {
	t.sh.AccessWhen("poll", func() bool { return len(t.events) > 0 || t.ended > 0 })
	if t.ended > 0 {
		return nil
	}
	ev := t.events[0]
	t.events = t.events[1:]
	return ev
}

func (t *c22Term) post(ev tcell.Event) {
	t.sh.Access("post")
	t.events = append(t.events, ev)
}

func (t *c22Term) resize(w, h int) {
	t.SetSize(w, h)
	t.post(tcell.NewEventResize(w, h))
}

func (t *c22Term) Fini() {
	t.sh.Access("fini")
	t.ended++
}

func (t *c22Term) Show() {
	t.SimulationScreen.Show()
	t.shown++
}

type c22Ev struct {
	after int64 // ms
	w, h  int
	key   tcell.Key
}

func c22Loop(w, h int, evs []c22Ev) func() {
	return func() {
		schedule.SampleRate = 1000
		lyricsHistorySize = 3
		currentState = &state{Songs: make([]upcomingSong, 0), Chunks: make([]upcomingChunk, 0)}
		newInfoerPackageHandler().HandleNewSongInfo(&comm.NewSongInfo{SongFileName: "a song", SongLength: 100,
			Lyrics: []*comm.NewSongInfo_SongLyricsLine{{Atoms: []*comm.NewSongInfo_SongLyricsAtom{{Timestamp: 0, Caption: "words"}}}}}, nil)
		t := &c22Term{SimulationScreen: tcell.NewSimulationScreen("")}
		if err := t.SimulationScreen.Init(); err != nil {
			panic(err)
		}
		t.SetSize(w, h)
		t.SimulationScreen.Show()
		loop := mc.GoNamed("display", func() { tcellLoop(t) })
		users := []*mc.Handle{mc.GoNamed("user", func() {
			for _, ev := range evs {
				mc.SleepNs(ev.after * 1e6)
				if ev.key != 0 {
					t.post(tcell.NewEventKey(ev.key, 'x', tcell.ModNone))
				} else {
					w, h = ev.w, ev.h
					t.resize(w, h)
				}
			}
		})}
		mc.Join(users...)
		mc.SleepNs(1100e6)
		mc.Assert(!loop.Done() && t.ended == 0, "ended", "the display has ended")
		mc.Assert(t.shown > 0, "shown", "nothing is displayed")
		cells, cw, ch := t.GetContents()
		mc.Assert(cw == w && ch == h, "size", "the screen is %d x %d", cw, ch)
		if w > 1 && h > 5 {
			for _, c := range []struct {
				x, y int
				r    string
			}{{0, h - 1, "╚"}, {w - 1, h - 1, "╝"}, {0, h - 5, "╔"}, {w - 1, h - 5, "╗"}} {
				got := string(cells[c.y*cw+c.x].Runes)
				mc.Assert(got == c.r, "layout", "on a terminal of %d x %d the corner at %d, %d is %q instead of %q", w, h, c.x, c.y, got, c.r)
			}
		}
		t.post(tcell.NewEventKey(tcell.KeyCtrlC, 0, tcell.ModCtrl))
		mc.SleepNs(1100e6)
		mc.Assert(loop.Done() && t.ended == 1, "quit", "the display does not end with Ctrl-C")
		mc.Outcome(t.shown > 3)
	}
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	key := func(after int64, k tcell.Key) c22Ev { return c22Ev{after: after, key: k} }
	size := func(after int64, w, h int) c22Ev { return c22Ev{after: after, w: w, h: h} }
	mc.Main(t, []mc.Scenario{
		{Name: "grow", Body: c22Loop(10, 5, []c22Ev{size(0, 30, 14)}), MaxSteps: 20000},
		{Name: "shrink", Body: c22Loop(30, 20, []c22Ev{size(400, 12, 9)}), MaxSteps: 20000},
		{Name: "vanish", Body: c22Loop(20, 10, []c22Ev{size(199, 0, 0), size(1, 1, 1), key(0, tcell.KeyEnter), size(2, 20, 10)}), MaxSteps: 20000},
		{Name: "keys", Body: c22Loop(20, 10, []c22Ev{key(0, tcell.KeyRune), key(200, tcell.KeyEscape), size(0, 40, 12), key(0, tcell.KeyCtrlD)}), MaxSteps: 20000},
		{Name: "sizes", Body: c22Loop(20, 10, []c22Ev{size(200, 40, 6), size(0, 6, 40), size(200, 13, 13)}), MaxSteps: 20000},
	})
}
