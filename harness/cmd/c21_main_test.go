package main

import (
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/schedule"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C21: what the info display shows is a function of the set of announcements.

type c21Song struct{ at, length int64 }

// c21Stream is a part of a stream.
type c21Stream struct {
	rate    int64
	t0      int64 // when sample 0 is played
	chunk   int64 // samples per chunk
	chunks  int64
	base    int64 // offset of all sample indices
	songs   []c21Song
	toggles []int64 // the first pauses, the second resumes, and so on
}

func (s *c21Stream) chunkTime() int64 { return s.chunk * int64(time.Second) / s.rate }

// messages are the announcements, in the order of the stream.
func (s *c21Stream) messages() (songs, pauses, chunks []interface{}) {
	for i, x := range s.songs {
		songs = append(songs, &comm.NewSongInfo{
			FirstSampleOfSongIndex: uint64(s.base + x.at), SongLength: x.length, SongFileName: fmt.Sprintf("song%d.mp3", i),
			Lyrics:   []*comm.NewSongInfo_SongLyricsLine{{Atoms: []*comm.NewSongInfo_SongLyricsAtom{{Timestamp: int64(i), Caption: fmt.Sprint("words of ", i)}}}},
			Metadata: &comm.NewSongInfo_SongMetadata{Title: fmt.Sprint("title ", i), Artist: fmt.Sprint("artist ", i), Album: fmt.Sprint("album ", i)},
		})
	}
	for i, x := range s.toggles {
		pauses = append(pauses, &comm.PauseInfo{Playing: i%2 == 1, ToggleSampleIndex: uint64(s.base + x)})
	}
	for k := int64(0); k < s.chunks; k++ {
		chunks = append(chunks, &comm.ChunkInfo{StartTime: s.t0 + k*s.chunkTime(), FirstSampleIndex: uint64(s.base + k*s.chunk), ChunkSize: uint64(s.chunk)})
	}
	return
}

// when is a time in the middle of playing a sample.
func (s *c21Stream) when(sample int64) int64 {
	k := sample / s.chunk
	if sample < 0 {
		k = 0
	}
	return s.t0 + k*s.chunkTime() + (2*(sample-k*s.chunk)+1)*int64(time.Second)/(2*s.rate)
}

// playing tells whether a sample is one of the music; early treats toggles as having happened a sample before.
func (s *c21Stream) playing(sample int64) bool {
	p := true
	for i, t := range s.toggles {
		if t <= sample {
			p = i%2 == 1
		}
	}
	return p
}

var c21Handler = newInfoerPackageHandler()

func c21Deliver(m interface{}) {
	switch m := m.(type) {
	case *comm.NewSongInfo:
		c21Handler.HandleNewSongInfo(m, nil)
	case *comm.PauseInfo:
		c21Handler.HandlePauseInfo(m, nil)
	case *comm.ChunkInfo:
		c21Handler.HandleChunkInfo(m, nil)
	}
}

func c21Reset() {
	currentState = &state{Songs: make([]upcomingSong, 0), Chunks: make([]upcomingChunk, 0)}
}

// c21Shown is what is displayed.
type c21Shown struct {
	song             string
	length, position time.Duration
	progress         float64
	playing          bool
}

func c21Show(i *playbackInformation) c21Shown {
	s := i.CurrentSong
	lyrics := ""
	for _, l := range s.lyrics {
		for _, a := range l {
			lyrics += fmt.Sprint(a.Timestamp, a.Caption)
		}
	}
	return c21Shown{fmt.Sprintf("%s|%s|%s|%s|%s|%d", s.filename, s.metadata.Title, s.metadata.Artist, s.metadata.Album, lyrics, s.startIndex), i.SongLength, i.TimeInSong, i.ProgressInSong, i.Playing}
}

// c21Judge compares what is shown while a sample is played with the stream itself.
func c21Judge(assert func(bool, string, string, ...interface{}), s *c21Stream, sample int64, g c21Shown) {
	for _, at := range []int64{sample, sample - 1} { // a sample late is as good
		if at == sample || !c21Same(s, sample, at) {
			if c21Fits(s, sample, at, at, g) || c21Fits(s, sample, at, sample, g) || c21Fits(s, sample, sample, at, g) {
				return
			}
		}
	}
	assert(false, "display", "playing sample %d of %+v the display shows %+v", sample, *s, g)
}

func c21Same(s *c21Stream, a, b int64) bool {
	for _, x := range s.songs {
		if (x.at <= a) != (x.at <= b) {
			return false
		}
	}
	return s.playing(a) == s.playing(b)
}

// c21Fits: songs are taken to begin as seen at songAt, playing as at toggleAt.
func c21Fits(s *c21Stream, sample, songAt, toggleAt int64, g c21Shown) bool {
	cur := -1
	for i, x := range s.songs {
		if x.at <= songAt {
			cur = i
		}
	}
	if g.playing != s.playing(toggleAt) {
		return false
	}
	if cur < 0 {
		return g.song == "None||||"+"|0" && g.length == 0 && g.position == 0 && g.progress == 0
	}
	x := s.songs[cur]
	if g.song != fmt.Sprintf("song%d.mp3|title %d|artist %d|album %d|%dwords of %d|%d", cur, cur, cur, cur, cur, cur, s.base+x.at) {
		return false
	}
	pos := int64(0)
	if sample-x.at < 100 {
		for i := x.at; i < sample; i++ {
			if s.playing(i) {
				pos++
			}
		}
	} else { // a long song
		last, on := x.at, s.playing(x.at)
		for _, t := range append(append([]int64{}, s.toggles...), sample) {
			if x.at < t && t <= sample {
				if on {
					pos += t - last
				}
				last, on = t, s.playing(t)
			}
		}
	}
	length := c21Time(x.length, s.rate)
	if sample == x.at { // the first sample: nothing has to be known yet
		if g.position == 0 && g.progress == 0 && (g.length == 0 || c21Near(g.length, length, s.rate)) {
			return true
		}
	}
	if !c21Near(g.length, length, s.rate) {
		return false
	}
	if x.length > 0 && pos >= x.length { // it is over
		return g.position >= length-time.Microsecond && g.progress >= 1-1e-9
	}
	if !c21Near(g.position, c21Time(pos, s.rate), s.rate) {
		return false
	}
	if x.length == 0 {
		return !math.IsNaN(g.progress) && !math.IsInf(g.progress, 0)
	}
	return math.Abs(g.progress*float64(x.length)-(float64(pos)+.5)) < .5+1e-3
}

func c21Time(samples, rate int64) time.Duration {
	return time.Duration(samples/rate)*time.Second + time.Duration(samples%rate*int64(time.Second)/rate)
}

// c21Near: got is want or up to almost one sample more.
func c21Near(got, want time.Duration, rate int64) bool {
	return want-1 <= got && got < want+time.Duration(int64(time.Second)/rate)-1
}

// c21Fresh shows what a client sees that got everything in order and looks once.
func c21Fresh(e *mc.E, s *c21Stream, now int64) c21Shown {
	c21Reset()
	songs, pauses, chunks := s.messages()
	for _, l := range [][]interface{}{songs, pauses, chunks} {
		for _, m := range l {
			c21Deliver(m)
		}
	}
	var g c21Shown
	e.Try(func() { g = c21Show(currentState.Info(now)) })
	return g
}

// c21Streams enumerates small streams.
func c21Streams(e *mc.E, length int64, songs, toggles int, base func(int) c21Stream, f func(*c21Stream)) {
	n := 0
	var sub func(max int, from int64, cur []int64, f func([]int64))
	sub = func(max int, from int64, cur []int64, f func([]int64)) {
		f(cur)
		if max == 0 {
			return
		}
		for i := from; i <= length; i++ {
			sub(max-1, i+1, append(cur[:len(cur):len(cur)], i), f)
		}
	}
	sub(songs, 0, nil, func(starts []int64) {
		sub(toggles, 0, nil, func(ts []int64) {
			n++
			if !e.Mine(n) {
				return
			}
			s := base(n)
			for i, x := range starts {
				l := int64(4)
				if i+1 < len(starts) {
					l = starts[i+1] - x
				}
				if n%3 == 0 {
					l += 3 // jumped away from
				}
				s.songs = append(s.songs, c21Song{x, l})
			}
			s.toggles = append([]int64{}, ts...)
			f(&s)
		})
	})
}

func c21Base(n int) c21Stream {
	rates := []int64{1, 2, 3, 4, 44100}
	s := c21Stream{rate: rates[n%5], t0: 5e9 + int64(n%7), chunk: 3, chunks: 4}
	if n%2 == 1 {
		s.base = []int64{1, 44100 * 3600 * 24, 1 << 33}[n%3]
	}
	return s
}

func c21Desc(s *c21Stream, more string) func() string {
	return func() string { return fmt.Sprintf("stream %+v%s", *s, more) }
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	set := func(s *c21Stream) { schedule.SampleRate = int(s.rate) }
	const length = 9
	mc.Main(t, []mc.Scenario{
		{Name: "stream", Shards: 8, Enum: func(e *mc.E) {
			e.Rule("every stream of up to 3 songs and 4 (thorough 5) toggles anywhere in its first 10 samples; at every sample from before the beginning to the end of what is announced, the display compared with the stream; announcements in order, in reverse, rotated and all twice")
			c21Streams(e, length, 3, mc.Pick(4, 5), c21Base, func(s *c21Stream) {
				set(s)
				e.Case(c21Desc(s, ""))
				songs, pauses, chunks := s.messages()
				for k := int64(-4); k < s.chunk*s.chunks; k++ {
					now := s.when(k)
					want := c21Fresh(e, s, now)
					c21Judge(e.Assert, s, k, want)
					for order := 0; order < 4; order++ {
						c21Reset()
						for _, l := range [][]interface{}{songs, pauses, chunks} {
							for i := range l {
								switch order {
								case 0:
									c21Deliver(l[len(l)-1-i])
								case 1:
									c21Deliver(l[(i+1)%len(l)])
								case 2:
									c21Deliver(l[i])
									c21Deliver(l[len(l)-1-i])
								case 3:
									c21Deliver(l[(i+2)%len(l)])
									c21Deliver(l[(i+2)%len(l)])
								}
							}
						}
						var g c21Shown
						e.Try(func() { g = c21Show(currentState.Info(now)) })
						e.Assert(g == want, "order", "at sample %d the display shows %+v if announcements come in order, and %+v in order %d", k, want, g, order)
						e.Step(1)
						for i := 0; i < 2; i++ {
							again := c21Show(currentState.Info(now))
							e.Assert(again == g, "again", "looking again at sample %d shows %+v instead of %+v", k, again, g)
						}
					}
					e.DistinctH(mc.Hash(fmt.Sprint(want)))
				}
			})
		}},
		{Name: "arrival", Shards: 8, Enum: func(e *mc.E) {
			e.Rule("every stream of up to 2 songs and 3 toggles in its first 8 samples; every subset of the song, pause and chunk announcements arriving before an earlier look at the display and the others after it (some twice), every pair of looks; what is shown last is what a client sees that looks only then")
			c21Streams(e, 7, 2, 3, c21Base, func(s *c21Stream) {
				set(s)
				e.Case(c21Desc(s, ""))
				songs, pauses, chunks := s.messages()
				all := append(append(append([]interface{}{}, songs...), pauses...), chunks...)
				step := int64(mc.Pick(2, 1))
				for k := int64(-1); k < s.chunk*s.chunks; k += step {
					now := s.when(k)
					want := c21Fresh(e, s, now)
					for early := int64(-2); early <= k; early += 2 {
						for mask := 0; mask < 1<<uint(len(all)); mask += 1 + mc.Pick(2, 0) {
							c21Reset()
							for i, m := range all {
								if mask>>uint(i)&1 == 1 {
									c21Deliver(m)
								}
							}
							var g c21Shown
							e.Try(func() { currentState.Info(s.when(early)) })
							for i := len(all) - 1; i >= 0; i-- {
								if mask>>uint(i)&1 == 0 || (mask+i)%5 == 0 {
									c21Deliver(all[i])
								}
							}
							e.Try(func() { g = c21Show(currentState.Info(now)) })
							e.Assert(g == want, "earlier-look", "at sample %d the display shows %+v, but %+v if it was looked at at sample %d before all of %v had arrived (mask %b)", k, want, g, early, all, mask)
							e.Step(1)
						}
					}
				}
			})
		}},
		{Name: "arrival3", Shards: 8, Enum: func(e *mc.E) {
			e.Rule("every stream of up to 3 songs and 1 (thorough 2) toggles in its first 8 samples; every subset of the song and pause announcements and none, every other or all of the chunks arriving before one or two earlier looks at the display and the others after them, every pair of looks; what is shown last is what a client sees that looks only then")
			c21Streams(e, 7, 3, mc.Pick(1, 2), c21Base, func(s *c21Stream) {
				set(s)
				e.Case(c21Desc(s, ""))
				songs, pauses, chunks := s.messages()
				all := append(append([]interface{}{}, songs...), pauses...)
				n := uint(len(all))
				all = append(all, chunks...)
				for k := int64(-1); k < s.chunk*s.chunks; k++ {
					now := s.when(k)
					want := c21Fresh(e, s, now)
					for early := int64(-1); early <= k; early++ {
						for mask := 0; mask < 3<<n; mask++ {
							m := mask&(1<<n-1) | []int{0, 5, 15}[mask>>n]<<n
							c21Reset()
							for i, x := range all {
								if m>>uint(i)&1 == 1 {
									c21Deliver(x)
								}
							}
							var g c21Shown
							e.Try(func() {
								currentState.Info(s.when(early))
								if mask%2 == 1 && early+1 < k {
									currentState.Info(s.when(early + 1))
								}
							})
							for i, x := range all {
								if m>>uint(i)&1 == 0 {
									c21Deliver(x)
								}
							}
							e.Try(func() { g = c21Show(currentState.Info(now)) })
							e.Assert(g == want, "earlier-look", "at sample %d the display shows %+v, but %+v if it was looked at at sample %d before all of %v had arrived (mask %b)", k, want, g, early, all, m)
							e.Step(1)
						}
					}
				}
			})
		}},
		{Name: "long", Enum: func(e *mc.E) {
			e.Rule("songs of seconds to days, with up to 2 toggles, watched up to a week after they began, at sample rates of 8 to 192 kHz")
			for _, rate := range []int64{8000, 44100, 48000, 192000} {
				schedule.SampleRate = int(rate)
				for _, secs := range []int64{1, 3600, 86400 * 4} {
					for _, after := range []int64{1, 60, 3600, 86400, 86400 * 7} {
						for _, base := range []int64{1, 44100, 1 << 40, 1 << 50} {
							for toggles := 0; toggles < 3; toggles++ {
								s := &c21Stream{rate: rate, base: base, t0: 1e18, chunk: rate, chunks: 1, songs: []c21Song{{0, secs * rate}}}
								for i := 0; i < toggles; i++ {
									s.toggles = append(s.toggles, int64(i+1)*after*rate/4)
								}
								// only the chunk being played is announced
								k := after * rate
								e.Case(c21Desc(s, fmt.Sprint(" after ", after, " s")))
								c21Reset()
								songs, pauses, _ := s.messages()
								for _, m := range append(songs, pauses...) {
									c21Deliver(m)
								}
								c21Deliver(&comm.ChunkInfo{StartTime: s.t0, FirstSampleIndex: uint64(s.base + k), ChunkSize: uint64(s.chunk)})
								var g c21Shown
								e.Try(func() { g = c21Show(currentState.Info(s.t0 + int64(time.Second)/(2*rate))) })
								c21Judge(e.Assert, s, k, g)
								e.Step(1)
								e.DistinctH(mc.Hash(fmt.Sprint(g)))
							}
						}
					}
				}
			}
		}},
	})
}
