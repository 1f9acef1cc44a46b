package playback

import (
	"fmt"
	"math"
	"testing"
	"time"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C07: playlist edits behave like list edits for all positions.

type c07Op struct {
	kind byte // a(dd) i(nsert) r(emove) j(ump) n(ext song) l(ist)
	pos  int
}

func (o c07Op) String() string {
	if o.kind == 'i' || o.kind == 'r' || o.kind == 'j' {
		return fmt.Sprintf("%c%d", o.kind, o.pos)
	}
	return string(o.kind)
}

func c07Run(e *mc.E, start int, ops []c07Op) {
	names := 0
	fresh := func() string { names++; return fmt.Sprintf("s%d", names) }
	model := []string{}
	for i := 0; i < start; i++ {
		model = append(model, fresh())
	}
	pl := NewPlaylist(4, append([]string{}, model...), 0)
	type listing struct{ got, want []string }
	var listings []listing
	jump, jumped := 0, false
	same := func(a, b []string) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	for _, o := range ops {
		edited := false
		switch o.kind {
		case 'a':
			n := fresh()
			pl.AddSong(n)
			model = append(model, n)
			edited = true
		case 'i':
			n := fresh()
			pl.InsertSong(n, o.pos)
			p := o.pos
			if p < 0 {
				p = 0
			}
			if p > len(model) {
				p = len(model)
			}
			model = append(model[:p:p], append([]string{n}, model[p:]...)...)
			edited = true
		case 'r':
			got := pl.RemoveSong(o.pos)
			want := ""
			if len(model) > 0 {
				p := o.pos
				if p < 0 {
					p = 0
				}
				if p >= len(model) {
					p = len(model) - 1
				}
				want = model[p]
				model = append(model[:p:p], model[p+1:]...)
				edited = true
			}
			e.Assert(got == want, "removed", "remove at %d reported %q, expected %q", o.pos, got, want)
		case 'j':
			pl.SetPos(o.pos)
			jump, jumped = o.pos, true
		case 'n':
			got := pl.nextSong()
			if len(model) == 0 {
				e.Assert(got == "", "next", "next song of an empty playlist is %q", got)
			} else {
				e.Assert(got == model[pl.Pos()], "next", "next song is %q, the position designates %q", got, model[pl.Pos()])
			}
		case 'l':
			l := pl.Songs()
			e.Assert(same(l, model), "content", "listing %v, expected %v", l, model)
			listings = append(listings, listing{l, append([]string{}, model...)})
		}
		if edited {
			jumped = false
		}
		l := pl.Songs()
		e.Assert(same(l, model), "content", "after %v the playlist is %v, expected %v", o, l, model)
		p := pl.Pos()
		if len(model) > 0 {
			e.Assert(0 <= p && p < len(model), "pos-range", "position %d of a playlist of length %d after %v", p, len(model), o)
			if jumped {
				w := jump % len(model)
				if w < 0 {
					w += len(model)
				}
				e.Assert(p == w, "jump", "position %d after a jump to %d in a playlist of length %d", p, jump, len(model))
			}
		}
		e.Step(1)
	}
	for _, l := range listings {
		e.Assert(same(l.got, l.want), "listing-changed", "an earlier listing changed from %v to %v", l.want, l.got)
		// and the other way round: a listing belongs to whoever asked for it
		for i := range l.got {
			l.got[i] = "scribble"
		}
	}
	e.Assert(same(pl.Songs(), model), "listing-aliased", "changing a listing changed the playlist to %v", pl.Songs())
	e.State(fmt.Sprint(len(model), pl.Pos()))
	e.DistinctH(mc.Hash(model, pl.Pos()))
}

func c07Enum(depth int, positions []int, starts []int, kinds string) func(e *mc.E) {
	return func(e *mc.E) {
		e.Rule(fmt.Sprintf("every sequence of %d operations out of add, insert(p), remove(p), jump(p), next song, list with p in %v on playlists of %v songs, compared with a list; distinct: (final content, position)", depth, positions, starts))
		var univ []c07Op
		for _, k := range kinds {
			switch k {
			case 'i', 'r', 'j':
				for _, p := range positions {
					univ = append(univ, c07Op{byte(k), p})
				}
			default:
				univ = append(univ, c07Op{kind: byte(k)})
			}
		}
		seq := make([]c07Op, depth)
		for _, st := range starts {
			var rec func(i int)
			rec = func(i int) {
				if i == depth {
					st := st
					cur := append([]c07Op{}, seq...)
					e.Case(func() string { return fmt.Sprintf("start %d ops %v", st, cur) })
					e.Timeout(20*time.Second, "playlist operations", func() { c07Run(e, st, cur) })
					return
				}
				for k, o := range univ {
					if i == 0 && !e.Mine(k) {
						continue
					}
					seq[i] = o
					rec(i + 1)
				}
			}
			rec(0)
		}
	}
}

func TestMC(t *testing.T) {
	extreme := []int{math.MinInt64, -2, 0, 1, 3, math.MaxInt64}
	small := []int{-4, -3, -1, 0, 1, 2, 3, 4, 5}
	scs := []mc.Scenario{
		{Name: "edits_depth3", Enum: c07Enum(3, []int{math.MinInt64, -9, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 9, math.MaxInt64}, []int{0, 1, 2, 3, 4}, "airjnl"), Shards: 8},
		{Name: "edits_depth4", Enum: c07Enum(4, small, []int{0, 1, 3}, "airjn"), Shards: 8},
		{Name: "edits_extreme_depth4", Enum: c07Enum(4, extreme, []int{0, 2}, "airjnl"), Shards: 8},
		{Name: "jumps_depth6", Enum: c07Enum(6, []int{-1, 0, 2}, []int{0, 3}, "arjn"), Shards: 8},
		{Name: "edits_depth5", Enum: c07Enum(5, []int{-1, 0, 1, 2, 5}, []int{0, 1, 3}, "airjnl"), Shards: 16, Thorough: true},
		{Name: "edits_depth7", Enum: c07Enum(7, []int{-1, 1}, []int{0, 2}, "airjn"), Shards: 16, Thorough: true},
	}
	mc.Main(t, scs)
}
