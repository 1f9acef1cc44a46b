package playback

import (
	"context"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
	fakemp3 "github.com/LogicalOverflow/music-sync/zzmc/fakemp3"
)

// Song files: name -> id, samples, sample at which decoding fails (0: never).
type songSpec struct{ id, n, failAt int }

var songFiles = map[string]songSpec{
	"a3":     {1, 3, 0},
	"b2":     {2, 2, 0}, // exactly one buffer
	"c5":     {3, 5, 0},
	"d1":     {4, 1, 0},
	"e4":     {5, 4, 0}, // exactly two buffers
	"f8":     {6, 8, 0},
	"g0":     {7, 0, 0}, // empty
	"h6bad3": {8, 6, 3}, // decoding fails after three samples
	"l400":   {9, 400, 0},
	// the decoder panics
	"p6panic2": {10, 6, -2},
	"q6panic1": {11, 6, -1},
	"r0panic":  {12, -1, 0},
}

const undecodable, missing, directory = "junk", "nosuchfile", "dir"

var songNames = func() map[int]string {
	r := map[int]string{}
	for n, s := range songFiles {
		r[s.id] = n
	}
	return r
}()

func playable(name string) bool { return songFiles[name].n > 0 && songFiles[name].failAt >= 0 }

func setupSongs() {
	if AudioDir != "" {
		return
	}
	d, err := os.MkdirTemp("", "songs")
	if err != nil {
		panic(err)
	}
	AudioDir = d
	for n, s := range songFiles {
		fakemp3.Write(filepath.Join(d, n), s.id, s.n, s.failAt)
	}
	os.WriteFile(filepath.Join(d, undecodable), []byte("this is not a song"), 0o644)
	os.Mkdir(filepath.Join(d, directory), 0o755)
}

type startEv struct {
	at   uint64
	name string
	len  int64
}

type pauseEv struct {
	at      uint64
	playing bool
}

// rec is what one execution shows to the outside.
type rec struct {
	pl     *Playlist
	nan    int
	low    []float64
	high   []float64
	starts []startEv
	pauses []pauseEv
	jumps  int // jumps issued; each may cut a song short
}

func newRec(buf int, songs []string, nan int, playing bool) *rec {
	r := &rec{nan: nan}
	r.pl = NewPlaylist(buf, songs, nan)
	r.pl.SetPlaying(playing)
	r.pl.SetNewSongHandler(func(at uint64, name string, n int64) {
		r.starts = append(r.starts, startEv{at, name, n})
	})
	r.pl.SetPauseToggleHandler(func(playing bool, at uint64) {
		r.pauses = append(r.pauses, pauseEv{at, playing})
	})
	return r
}

func (r *rec) stream() {
	mc.GoNamed("streamloop", func() { r.pl.StreamLoop(context.Background()) })
}

// read reads one block and checks its index.
func (r *rec) read(n int) {
	low, high := make([]float64, n), make([]float64, n)
	at := r.pl.Fill(low, high)
	mc.Assert(at == uint64(len(r.low)), "index", "block of %d samples read after %d samples has index %d", n, len(r.low), at)
	r.low = append(r.low, low...)
	r.high = append(r.high, high...)
}

func (r *rec) reads(sizes ...int) {
	for _, n := range sizes {
		r.read(n)
	}
}

// settle orders what was announced; the order of announcements is not
// specified, their content is.
func (r *rec) settle() {
	mc.Quiesce()
	sort.SliceStable(r.starts, func(i, j int) bool {
		a, b := r.starts[i], r.starts[j]
		return a.at < b.at || (a.at == b.at && a.name < b.name)
	})
	sort.SliceStable(r.pauses, func(i, j int) bool { return r.pauses[i].at < r.pauses[j].at })
}

func (r *rec) String() string {
	s := []string{}
	for i := range r.low {
		if math.IsNaN(r.low[i]) || math.IsNaN(r.high[i]) {
			s = append(s, "-")
			continue
		}
		id, k, ok := fakemp3.What(r.low[i], r.high[i])
		if !ok {
			s = append(s, fmt.Sprintf("?%v/%v", r.low[i], r.high[i]))
		} else {
			s = append(s, fmt.Sprintf("%s.%d", songNames[id], k))
		}
	}
	return fmt.Sprintf("stream [%s] songs %v pauses %v", strings.Join(s, " "), r.starts, r.pauses)
}

func (r *rec) nanAt(i int) bool { return math.IsNaN(r.low[i]) }

// length is how many samples of the song can be decoded.
func length(name string) int {
	s := songFiles[name]
	if s.failAt > 0 {
		return s.failAt
	}
	if s.failAt < 0 || s.n < 0 {
		return 0
	}
	return s.n
}

// checkSamples: the samples of each song appear once, in order, channels in
// step, and a song is only left unfinished because of a jump.
func (r *rec) checkSamples() {
	type run struct {
		id, next int
		first    int
	}
	var cur *run
	cuts := 0
	finish := func(i int) {
		if cur != nil && cur.next < length(songNames[cur.id]) {
			cuts++
		}
	}
	for i := range r.low {
		ln, hn := math.IsNaN(r.low[i]), math.IsNaN(r.high[i])
		mc.Assert(ln == hn, "out-of-step", "silence in one channel only at sample %d: %v", i, r)
		if ln {
			continue
		}
		id, k, ok := fakemp3.What(r.low[i], r.high[i])
		mc.Assert(ok, "out-of-step", "sample %d is no sample of a song (channels out of step or altered): %v", i, r)
		if k == 0 {
			finish(i)
			cur = &run{id: id, first: i}
		}
		mc.Assert(cur != nil && cur.id == id && cur.next == k, "order", "sample %d is sample %d of %s, which is not the next one: %v", i, k, songNames[id], r)
		cur.next++
	}
	mc.Assert(cuts <= r.jumps, "lost", "%d songs were not played to their end, %d jumps were made: %v", cuts, r.jumps, r)
}

// checkAnnounced: the announcements alone explain every sample.
func (r *rec) checkAnnounced() {
	n := len(r.low)
	for i := 1; i < len(r.pauses); i++ {
		mc.Assert(r.pauses[i].playing != r.pauses[i-1].playing, "pause-twice", "the same status is announced twice: %v", r)
		mc.Assert(r.pauses[i].at != r.pauses[i-1].at, "pause-empty", "a pause of no samples is announced: %v", r)
	}
	if len(r.pauses) > 0 {
		mc.Assert(!r.pauses[0].playing, "pause-first", "the first toggle announced is a resume: %v", r)
	}
	for i := 1; i < len(r.starts); i++ {
		mc.Assert(r.starts[i].at != r.starts[i-1].at || length(r.starts[i-1].name) == 0 || length(r.starts[i].name) == 0 || r.nan == 0, "song-twice", "two songs start at the same sample: %v", r)
	}
	playing, pi, si := true, 0, 0
	name, pos, cut := "", 0, false
	cuts := 0
	for i := 0; i < n; i++ {
		for si < len(r.starts) && r.starts[si].at <= uint64(i) {
			if name != "" && !cut && pos < length(name) {
				cuts++
			}
			name, pos, cut = r.starts[si].name, 0, false
			s, ok := songFiles[name]
			mc.Assert(ok && int64(s.n) == r.starts[si].len, "song-length", "song %s announced with length %d: %v", name, r.starts[si].len, r)
			si++
		}
		for pi < len(r.pauses) && r.pauses[pi].at <= uint64(i) {
			playing = r.pauses[pi].playing
			pi++
		}
		if r.nanAt(i) {
			if name != "" && playing && pos < length(name) && !cut {
				// only a jump ends a song early
				cut = true
				cuts++
				mc.Assert(cuts <= r.jumps, "unannounced-silence", "sample %d is silent although %s is announced to be playing: %v", i, name, r)
			}
			continue
		}
		id, k, ok := fakemp3.What(r.low[i], r.high[i])
		mc.Assert(ok, "out-of-step", "sample %d is no sample of a song: %v", i, r)
		mc.Assert(songNames[id] == name, "song-unannounced", "sample %d belongs to %s, announced is %s: %v", i, songNames[id], name, r)
		mc.Assert(playing, "pause-wrong", "sample %d is audible, announced is a pause: %v", i, r)
		mc.Assert(!cut && k == pos, "position", "sample %d is sample %d of %s, the announcements say %d: %v", i, k, name, pos, r)
		pos++
	}
}

// checkOrder: the songs that started are, in this order, a run of consecutive
// songs from the beginning and one run of consecutive songs from the target of
// each jump; only the runs of superseded jumps may be empty.
func (r *rec) checkOrder(songs []string, jumps []int, lastMust bool) {
	var play []int // positions that can be played
	for i, s := range songs {
		if _, ok := songFiles[s]; ok {
			play = append(play, i)
		}
	}
	next := func(p int) int { // first playable position at or after p
		for _, q := range play {
			if q >= p {
				return q
			}
		}
		return play[0]
	}
	if len(play) == 0 {
		mc.Assert(len(r.starts) == 0, "song-order", "a song that cannot be played started: %v", r)
		return
	}
	wrap := func(p int) int {
		p %= len(songs)
		if p < 0 {
			p += len(songs)
		}
		return p
	}
	// run(k, i, pos, fresh): can starts[i:] be explained from run k on?
	var run func(k, i, pos int, empty bool) bool
	run = func(k, i, pos int, empty bool) bool {
		if i == len(r.starts) && k == len(jumps) && !(empty && k > 0 && lastMust) {
			return true
		}
		if k < len(jumps) && run(k+1, i, next(wrap(jumps[k])), true) {
			return true
		}
		if i < len(r.starts) && r.starts[i].name == songs[pos] {
			return run(k, i+1, next(wrap(pos+1)), false)
		}
		return false
	}
	mc.Assert(run(0, 0, next(0), true), "song-order", "the songs started are not those of playlist %v with jumps to %v: %v", songs, jumps, r)
}
