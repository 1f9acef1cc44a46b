package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"
	"time"
	"unicode"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/metadata"
	"github.com/LogicalOverflow/music-sync/schedule"
	"github.com/LogicalOverflow/music-sync/zzmc/fakemono"
	"github.com/gdamore/tcell"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C22: the info display renders any text, lyrics, time and progress faithfully.

// c22Look is what is to be displayed.
type c22Look struct {
	file, title, artist, album string
	lyrics                     []metadata.LyricsLine
	length, at                 int64 // in samples, of which there are 1000 in a second
	paused                     bool
	volume                     float64
}

// c22Width is the number of cells a character takes up.
func c22Width(r rune) int {
	if 0x1100 <= r && r <= 0x115f || 0x2e80 <= r && r <= 0xa4cf || 0xac00 <= r && r <= 0xd7a3 || 0xff00 <= r && r <= 0xff60 || 0x1f300 <= r && r <= 0x1f64f {
		return 2
	}
	return 1
}

// c22Cells are the characters of a text: bases with their marks.
func c22Cells(s string) (r [][]rune) {
	for _, c := range s {
		if unicode.Is(unicode.Mn, c) && len(r) > 0 {
			r[len(r)-1] = append(r[len(r)-1], c)
		} else {
			r = append(r, []rune{c})
		}
	}
	return
}

func c22TextWidth(s string) int {
	n := 0
	for _, c := range c22Cells(s) {
		n += c22Width(c[0])
	}
	return n
}

const c22Start = 500 // index of the song's first sample

// c22Show has the look displayed on the screen.
func c22Show(e *mc.E, d *drawer, l c22Look) {
	schedule.SampleRate = 1000
	currentState = &state{Songs: make([]upcomingSong, 0), Chunks: make([]upcomingChunk, 0)}
	h := newInfoerPackageHandler()
	song := &comm.NewSongInfo{FirstSampleOfSongIndex: c22Start, SongFileName: l.file, SongLength: l.length, Metadata: &comm.NewSongInfo_SongMetadata{Title: l.title, Artist: l.artist, Album: l.album}}
	for _, line := range l.lyrics {
		ll := &comm.NewSongInfo_SongLyricsLine{}
		for _, a := range line {
			ll.Atoms = append(ll.Atoms, &comm.NewSongInfo_SongLyricsAtom{Timestamp: a.Timestamp, Caption: a.Caption})
		}
		song.Lyrics = append(song.Lyrics, ll)
	}
	h.HandleNewSongInfo(song, nil)
	if l.paused {
		h.HandlePauseInfo(&comm.PauseInfo{Playing: false, ToggleSampleIndex: uint64(c22Start + l.at)}, nil)
	}
	h.HandleSetVolumeRequest(&comm.SetVolumeRequest{Volume: l.volume}, nil)
	// in the middle of a chunk, half a sample into the sample
	now := int64(1e18)
	const into = 2
	if l.paused { // some samples ago
		l.at += 3
	}
	h.HandleChunkInfo(&comm.ChunkInfo{StartTime: now - into*1e6, FirstSampleIndex: uint64(c22Start + l.at - into), ChunkSize: 10}, nil)
	monotime.Fixed = func() int64 { return now + 5e5 }
	e.Try(func() { redraw(d) })
}

// c22Screen is a terminal of the given size.
func c22Screen(w, h int) (tcell.SimulationScreen, *drawer) {
	s := tcell.NewSimulationScreen("")
	if err := s.Init(); err != nil {
		panic(err)
	}
	s.SetSize(w, h)
	s.Show()
	d := &drawer{Screen: s}
	d.w, d.h = d.Size()
	return s, d
}

func c22Row(s tcell.SimulationScreen, y int) string {
	cells, w, h := s.GetContents()
	r := ""
	for x := 0; x < w && 0 <= y && y < h; x++ {
		rs := cells[y*w+x].Runes
		r += string(rs)
		if len(rs) > 0 {
			x += c22Width(rs[0]) - 1
		}
	}
	return r
}

// c22Text: the text stands in row y from column x on up to (excluding) column to.
func c22Text(e *mc.E, s tcell.SimulationScreen, sig string, x, to, y int, text string) {
	cells, w, h := s.GetContents()
	if y < 0 || h <= y {
		return
	}
	for _, c := range c22Cells(text) {
		cw := c22Width(c[0])
		if x+cw > to || w < x+cw {
			return
		}
		if 0 <= x {
			got := cells[y*w+x].Runes
			e.Assert(string(got) == string(c), sig, "column %d of row %d shows %q instead of the %q of %q: %q", x, y, string(got), string(c), text, c22Row(s, y))
			if string(got) != string(c) {
				return
			}
		}
		x += cw
	}
}

func c22Lines(l c22Look) (name, by string) {
	name = l.title
	if name == "" {
		name = l.file
	}
	by = l.artist
	if by != "" && l.album != "" {
		by += " - " + l.album
	}
	return
}

func c22Time(ms int64) string {
	s := ms / 1000
	if s < 3600 {
		return fmt.Sprintf("%d:%02d", s/60, s%60)
	}
	return fmt.Sprintf("%d:%02d:%02d", s/3600, s/60%60, s%60)
}

// c22Check compares what is on the screen with the look.
func c22Check(e *mc.E, s tcell.SimulationScreen, w, h int, l c22Look, history int) {
	name, by := c22Lines(l)
	c22Text(e, s, "title", 1, w-1, h-4, name)
	c22Text(e, s, "artist", 1, w-1, h-3, by)
	playing := "Playing"
	if l.paused {
		playing = "Paused"
	}
	c22Text(e, s, "playing", 2, w, h-5, playing)
	vol := fmt.Sprintf("%.2f%%", l.volume*100)
	for i, x := range []struct{ left, right string }{{name, vol}, {by, c22Time(l.at) + "/" + c22Time(l.length)}} {
		if 0 < l.at && c22TextWidth(x.left)+len(x.right)+20 < w && 5 <= h {
			f := strings.Fields(strings.TrimSuffix(c22Row(s, h-4+i), "║"))
			e.Assert(len(f) > 0 && strings.TrimLeft(f[len(f)-1], "0") == strings.TrimLeft(x.right, "0"), []string{"volume", "time"}[i], "row %q does not end in %q", c22Row(s, h-4+i), x.right)
		}
	}
	c22Bar(e, s, w, h, l)
	rows := history
	if h-7 < rows {
		rows = h - 7
	}
	if 0 < rows && l.lyrics != nil {
		want := c22History(l.lyrics, l.at, rows)
		c22Accept(e, len(want), func(k int, assert func(bool, string, string, ...interface{})) {
			for i, t := range want[k] {
				y := h - 7 - i
				cells, cw, _ := s.GetContents()
				x := 1
				for _, c := range c22Cells(t) {
					if n := c22Width(c[0]); x+n <= w-1 {
						assert(string(cells[y*cw+x].Runes) == string(c), "lyrics", "lyrics row %d shows %q instead of %q", i, c22Row(s, y), t)
						x += n
					} else {
						x = w
					}
				}
				for ; x < w-1; x++ {
					assert(string(cells[y*cw+x].Runes) == " ", "lyrics", "lyrics row %d shows %q instead of %q", i, c22Row(s, y), t)
				}
			}
		})
	}
}

// c22Accept reports the last alternative's failure if all alternatives fail.
func c22Accept(e *mc.E, n int, try func(k int, assert func(bool, string, string, ...interface{}))) {
	for k := 0; k < n; k++ {
		ok, sig, msg := true, "", ""
		try(k, func(o bool, s, f string, args ...interface{}) {
			if !o && ok {
				ok, sig, msg = false, s, fmt.Sprintf(f, args...)
			}
		})
		if ok {
			return
		}
		if k == n-1 {
			e.Assert(false, sig, "%s", msg)
		}
	}
}

// c22Bar: the progress bar is filled in proportion.
func c22Bar(e *mc.E, s tcell.SimulationScreen, w, h int, l c22Look) {
	if h < 3 || w < 3 || l.length <= 0 {
		return
	}
	cells, cw, _ := s.GetContents()
	n := w - 2
	filled, ended := 0., false
	for x := 1; x <= n; x++ {
		got := string(cells[(h-2)*cw+x].Runes)
		v := map[string]float64{" ": 0, "▌": .5, "█": 1}
		f, ok := v[got]
		e.Assert(ok, "bar", "the bar is %q", c22Row(s, h-2))
		e.Assert(f == 0 || !ended, "bar", "the bar has a gap: %q", c22Row(s, h-2))
		ended = ended || f < 1
		filled += f
	}
	p := float64(l.at) / float64(l.length)
	if p > 1 {
		p = 1
	}
	e.Assert(math.Abs(filled-p*float64(n)) <= 1.01, "bar", "at %d of %d the bar is filled in %v of %d cells: %q", l.at, l.length, filled, n, c22Row(s, h-2))
}

// c22History are the acceptable lyrics views after ms milliseconds, newest first.
func c22History(lyrics []metadata.LyricsLine, ms int64, rows int) (r [][]string) {
	// words in the next tenth of a second may or may not be shown; all or none of those up to a time
	times := []int64{ms}
	for _, l := range lyrics {
		for _, a := range l {
			if ms < a.Timestamp && a.Timestamp <= ms+100 {
				times = append(times, a.Timestamp)
			}
		}
	}
	sort.Slice(times, func(i, j int) bool { return times[i] < times[j] })
	for _, begin := range times {
		for _, word := range times {
			view := []string{}
			begun := 0
			for i, l := range lyrics {
				if len(l) > 0 && l[0].Timestamp <= begin {
					begun = i + 1
				}
			}
			build := func(n int) []string {
				v := []string{}
				for i := n - 1; i >= 0 && len(v) < rows; i-- {
					t := ""
					for _, a := range lyrics[i] {
						if a.Timestamp <= word {
							t += a.Caption
						}
					}
					v = append(v, t)
				}
				for len(v) < rows {
					v = append(v, "")
				}
				return v
			}
			view = build(begun)
			r = append(r, view)
			for n := begun; n < len(lyrics) && len(lyrics[n]) == 0; n++ { // lines without words begin at no particular time
				r = append(r, build(n+1))
			}
		}
	}
	return
}

var c22Alphabet = []string{"a", "ü", "ж", "日", "😀", "e\u0301", " "}

func c22Texts(n int) []string {
	r := []string{""}
	last := r
	for i := 0; i < n; i++ {
		next := []string{}
		for _, s := range last {
			for _, c := range c22Alphabet {
				next = append(next, s+c)
			}
		}
		r = append(r, next...)
		last = next
	}
	return r
}

func c22Strings(n int) func(*mc.E) {
	return func(e *mc.E) {
		e.Rule(fmt.Sprintf("all texts of up to %d characters out of %q as title, file name, artist, album and lyrics, on terminals of 6, 9 and 40 columns; distinct: screens", n, c22Alphabet))
		lyricsHistorySize = 2
		for wi, w := range []int{6, 9, 40} {
			s, d := c22Screen(w, 12)
			for i, t := range c22Texts(n) {
				if !e.Mine(i) {
					continue
				}
				rev := c22Texts(1)[(i+wi)%len(c22Alphabet)] + t
				for k, l := range []c22Look{
					{title: t, file: "f", artist: rev, album: "x"},
					{file: t, artist: "b", album: t, paused: true},
					{title: rev, artist: t, lyrics: []metadata.LyricsLine{{{Timestamp: 0, Caption: t}, {Timestamp: 1, Caption: rev}}, {{Timestamp: 2, Caption: rev + t}}}},
				} {
					l.at, l.length = int64(1000+i%100000), 100000
					e.Case(func() string { return fmt.Sprintf("%d columns, look %d: %+v", w, k, l) })
					c22Show(e, d, l)
					c22Check(e, s, w, 12, l, 2)
					e.Step(1)
					e.DistinctH(mc.Hash(wi, i, k))
				}
			}
		}
	}
}

func c22Sizes(e *mc.E) {
	looks := []c22Look{
		{},
		{file: "a/b.mp3", length: 1, at: 1},
		{title: "Ein Titel mit einem langen Namen, der nicht in jedes Fenster passt, und noch mehr", artist: "日本語のアーティスト", album: strings.Repeat("😀", 60), length: 300000, at: 100000, volume: .5,
			lyrics: []metadata.LyricsLine{{{Timestamp: 1, Caption: "eins "}, {Timestamp: 2, Caption: strings.Repeat("zwei ", 40)}}, {}, {{Timestamp: 3, Caption: "日本"}}, nil, {{Timestamp: 4, Caption: ""}}, {{Timestamp: 1e6, Caption: "x"}}}},
		{title: "t", length: 5, at: 500, volume: 1, paused: true, lyrics: []metadata.LyricsLine{}},
		{title: "\x00\x1b[2J\u202e\xff", artist: "\u0301", album: "b", length: 1 << 50, at: 1 << 49, volume: 1e300, lyrics: []metadata.LyricsLine{{{Timestamp: -5, Caption: "\n"}}}},
		{title: "t", length: 0, at: 1000, volume: math.NaN(), lyrics: []metadata.LyricsLine{{}, {}}},
		{title: "t", length: -7, at: 1000, volume: math.Inf(1), lyrics: []metadata.LyricsLine{nil}},
	}
	histories := []int{0, 1, 5, 1000000}
	ws, hs := mc.Pick(70, 140), mc.Pick(24, 60)
	e.Rule(fmt.Sprintf("all terminals of 0 to %d columns and 0 to %d rows, %d looks, histories of %v lines; plus resizing from every size to the next; distinct: screens", ws, hs, len(looks), histories))
	n := 0
	for w := 0; w <= ws; w++ {
		if !e.Mine(w) {
			continue
		}
		s, d := c22Screen(w, 0)
		for h := 0; h <= hs; h++ {
			s.SetSize(w, h)
			s.Show() // as Sync does
			d.w, d.h = d.Size()
			for i, l := range looks {
				for _, hist := range histories {
					n++
					e.Case(func() string { return fmt.Sprintf("%d x %d, history of %d, look %d: %.300v", w, h, hist, i, l) })
					lyricsHistorySize = hist
					c22Show(e, d, l)
					if i != 4 && i < 5 {
						c22Check(e, s, w, h, l, hist)
					}
					e.Step(1)
					e.DistinctH(mc.Hash(w, h, i, hist))
				}
			}
		}
	}
}

func c22Durations(e *mc.E) {
	e.Rule("positions and lengths around every boundary of seconds, minutes and hours up to days; distinct: times")
	lyricsHistorySize = 0
	s, d := c22Screen(80, 8)
	vals := []int64{}
	for _, unit := range []int64{1, 59, 60, 61, 599, 600, 3599, 3600, 3601, 3660, 7199, 7200, 35999, 36000, 86399, 86400, 86401, 360000, 3600000} {
		for _, more := range []int64{0, 1, 9, 10, 30} {
			for _, ms := range []int64{0, 1, 500, 999} {
				vals = append(vals, (unit+more)*1000+ms)
			}
		}
	}
	for i := int64(1); i < 130; i++ {
		vals = append(vals, i*1000-1, i*60000-1, i*60000)
	}
	for i, v := range vals {
		l := c22Look{title: "t", artist: "a", at: v, length: vals[(i*7+1)%len(vals)]}
		e.Case(func() string { return fmt.Sprintf("%d of %d ms", l.at, l.length) })
		c22Show(e, d, l)
		c22Check(e, s, 80, 8, l, 0)
		e.Step(1)
		e.DistinctH(mc.Hash(l.at, l.length))
	}
}

func c22Progress(e *mc.E) {
	ws := mc.Pick(60, 140)
	e.Rule(fmt.Sprintf("progress bars of terminals of 3 to %d columns at every 200th part of the song and after its end; distinct: (width, progress)", ws))
	lyricsHistorySize = 0
	for w := 3; w <= ws; w++ {
		if !e.Mine(w) {
			continue
		}
		s, d := c22Screen(w, 6)
		for i := int64(0); i <= 230; i++ {
			for _, length := range []int64{200, 3, 200 * 977} {
				l := c22Look{title: "t", at: i * length / 200, length: length}
				if l.at == 0 {
					l.at = 1 // at the first sample either song may be shown
				}
				e.Case(func() string { return fmt.Sprintf("%d columns, at %d of %d", w, l.at, l.length) })
				c22Show(e, d, l)
				c22Check(e, s, w, 6, l, 0)
				e.Step(1)
				e.DistinctH(mc.Hash(w, i, length))
			}
		}
	}
}

func c22LyricsViews(words int) func(*mc.E) {
	return func(e *mc.E) {
		times := []int64{0, 40, 100, 140, 350}
		e.Rule(fmt.Sprintf("all lyrics of up to 3 lines of up to %d words beginning at %v, sorted, lines may be empty; at every 10 ms up to 500, in views of 1 to 4 rows; distinct: views", words, times))
		var lines [][]int64 // times of a line
		var gen func(l []int64, from int)
		gen = func(l []int64, from int) {
			lines = append(lines, append([]int64{}, l...))
			for i := from; i < len(times) && len(l) < words; i++ {
				gen(append(l[:len(l):len(l)], times[i]), i)
			}
		}
		gen(nil, 0)
		n := 0
		var rec func(lyrics []metadata.LyricsLine, from int64)
		rec = func(lyrics []metadata.LyricsLine, from int64) {
			n++
			if len(lyrics) > 0 && e.Mine(n) {
				for ms := int64(0); ms <= 500; ms += 10 {
					for rows := 1; rows <= 4; rows++ {
						e.Case(func() string { return fmt.Sprintf("%v at %d ms in %d rows", lyrics, ms, rows) })
						var got []string
						e.Try(func() {
							got = lyricsHistory(rows, upcomingSong{lyrics: lyrics}, time.Duration(ms)*time.Millisecond+time.Duration(ms%7)*100)
						})
						want := c22History(lyrics, ms, rows)
						ok := false
						for _, v := range want {
							ok = ok || strings.Join(v, "\n") == strings.Join(got, "\n") && len(v) == len(got)
						}
						e.Assert(ok, "lyrics", "shows %q, not one of %q", got, want)
						e.Step(1)
						e.DistinctH(mc.Hash(got))
					}
				}
			}
			if len(lyrics) == 3 {
				return
			}
			for _, l := range lines {
				if len(l) > 0 && l[0] < from {
					continue
				}
				line := metadata.LyricsLine{}
				f := from
				for k, t := range l {
					line = append(line, metadata.LyricsAtom{Timestamp: t, Caption: fmt.Sprintf("%d.%d ", len(lyrics), k)})
				}
				if len(l) > 0 {
					f = l[len(l)-1]
				}
				rec(append(lyrics[:len(lyrics):len(lyrics)], line), f)
			}
		}
		rec(nil, 0)
	}
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	mc.Main(t, []mc.Scenario{
		{Name: "texts", Enum: c22Strings(3), Shards: 4},
		{Name: "textslong", Enum: c22Strings(5), Shards: 8, Thorough: true},
		{Name: "sizes", Enum: c22Sizes, Shards: 8},
		{Name: "durations", Enum: c22Durations},
		{Name: "progress", Enum: c22Progress, Shards: 4},
		{Name: "lyrics", Enum: c22LyricsViews(2), Shards: 4},
		{Name: "lyrics3", Enum: c22LyricsViews(3), Shards: 8, Thorough: true},
	})
}
