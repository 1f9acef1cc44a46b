package schedule

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"testing"
	"time"
	"unicode/utf16"
	"unicode/utf8"
	"unsafe"

	"github.com/LogicalOverflow/music-sync/comm"
	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/metadata"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/golang/protobuf/proto"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C29: lyrics and metadata announced are those stored with the song, or none.

type c29Sender struct{ msgs []proto.Message }

func (s *c29Sender) SendMessage(m proto.Message) error {
	s.msgs = append(s.msgs, m)
	return nil
}

type c29Atom struct {
	Timestamp int64  `json:"timestamp"`
	Caption   string `json:"caption"`
}

type c29Meta struct{ title, artist, album string }

func c29Open() int {
	n := 0
	ents, _ := ioutil.ReadDir("/proc/self/fd")
	for _, e := range ents {
		if l, err := os.Readlink(filepath.Join("/proc/self/fd", e.Name())); err == nil && strings.HasPrefix(l, playback.AudioDir+"/") {
			n++
		}
	}
	return n
}

// c29Announce lets the server announce a song and returns what a client gets.
func c29Announce(e *mc.E, start uint64, name string, length int64) *comm.NewSongInfo {
	s := &c29Sender{}
	ss := &serverState{sender: s, lyricsProvider: metadata.GetLyricsProvider(), metadataProvider: metadata.GetProvider()}
	announce := func() { ss.createNewSongHandler()(start, name, length) }
	if c29Direct {
		e.Try(announce)
	} else {
		e.Timeout(20*time.Second, "announcing", announce)
	}
	e.Assert(c29Open() == 0, "files-open", "%d files are open after the song has been announced", c29Open())
	e.Assert(len(s.msgs) == 1, "announced", "%d messages are sent for a new song", len(s.msgs))
	e.Step(1)
	var got proto.Message
	var err error
	e.Try(func() { got, err = comm.VerifWire(s.msgs[0]) })
	e.Assert(err == nil, "unsendable", "the announcement does not reach the clients: %v", err)
	m, ok := got.(*comm.NewSongInfo)
	e.Assert(ok, "announced", "the announcement arrives as %T", got)
	e.Assert(m.FirstSampleOfSongIndex == start && m.SongLength == length, "song", "song starting at %d with %d samples is announced as starting at %d with %d", start, length, m.FirstSampleOfSongIndex, m.SongLength)
	e.Assert(m.SongFileName == name || !utf8.ValidString(name), "song", "song %q is announced as %q", name, m.SongFileName)
	return m
}

func c29Lyrics(e *mc.E, m *comm.NewSongInfo, want [][]c29Atom) {
	same := len(m.Lyrics) == len(want)
	for i := 0; same && i < len(want); i++ {
		same = len(m.Lyrics[i].Atoms) == len(want[i])
		for j := 0; same && j < len(want[i]); j++ {
			a := m.Lyrics[i].Atoms[j]
			same = a.Timestamp == want[i][j].Timestamp && a.Caption == want[i][j].Caption
		}
	}
	e.Assert(same, "lyrics", "lyrics announced are %v, stored are %v", m.Lyrics, want)
}

func c29IsMeta(e *mc.E, m *comm.NewSongInfo, want c29Meta) {
	md := m.Metadata
	e.Assert(md != nil && md.Title == want.title && md.Artist == want.artist && md.Album == want.album, "metadata", "metadata announced are %v, stored are %+v", md, want)
}

var c29Cases int

// c29Direct is set once this thread may not read everything.
var c29Direct bool

// c29Collect runs the garbage collector now and then; never while a case runs.
func c29Collect() {
	if c29Cases++; c29Cases%512 == 0 {
		runtime.GC()
	}
}

// c29Doc announces a song with a lyrics document.
func c29Doc(e *mc.E, desc string, doc []byte, want [][]c29Atom) {
	e.Case(func() string { return fmt.Sprintf("%s: lyrics document %q", desc, c29Short(doc)) })
	c29Collect()
	if err := ioutil.WriteFile(filepath.Join(playback.AudioDir, "s.mp3.json"), doc, 0644); err != nil {
		panic(err)
	}
	m := c29Announce(e, 7, "s.mp3", 8)
	c29Lyrics(e, m, want)
	c29IsMeta(e, m, c29Meta{"t", "", ""})
	e.DistinctH(mc.Hash(string(doc)))
}

// c29Strict is what a whole document says; nothing if it is malformed.
func c29Strict(doc []byte) [][]c29Atom {
	var r [][]c29Atom
	if err := json.Unmarshal(doc, &r); err != nil {
		return nil
	}
	return r
}

func c29Short(b []byte) []byte {
	if 160 < len(b) {
		return append(append([]byte{}, b[:160]...), "..."...)
	}
	return b
}

func c29Latin1(s string) (b []byte, ok bool) {
	for _, r := range s {
		if 0xff < r {
			return nil, false
		}
		b = append(b, byte(r))
	}
	return b, true
}

func c29UTF16(s string, big bool) []byte {
	b := []byte{}
	for _, u := range utf16.Encode([]rune(s)) {
		if big {
			b = append(b, byte(u>>8), byte(u))
		} else {
			b = append(b, byte(u), byte(u>>8))
		}
	}
	return b
}

// c29Encoded is a text in one of six encodings of tags, with the byte telling so.
func c29Encoded(s string, how int) (enc byte, b []byte, ok bool) {
	switch how {
	case 0:
		b, ok = c29Latin1(s)
		return 0, b, ok
	case 1:
		return 1, append([]byte{0xff, 0xfe}, c29UTF16(s, false)...), true
	case 2:
		return 1, append([]byte{0xfe, 0xff}, c29UTF16(s, true)...), true
	case 3:
		return 2, c29UTF16(s, true), true
	default:
		return 3, []byte(s), true
	}
}

func c29Frame(version byte, id string, enc byte, text []byte) []byte {
	n := len(text) + 1
	body := append([]byte{enc}, text...)
	switch version {
	case 2:
		return append([]byte{id[0], id[1], id[2], byte(n >> 16), byte(n >> 8), byte(n)}, body...)
	case 4:
		return append([]byte{id[0], id[1], id[2], id[3], byte(n >> 21 & 127), byte(n >> 14 & 127), byte(n >> 7 & 127), byte(n & 127), 0, 0}, body...)
	}
	return append([]byte{id[0], id[1], id[2], id[3], byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), 0, 0}, body...)
}

var c29IDs = map[byte][]string{2: {"TT2", "TP1", "TAL", "TXX"}, 3: {"TIT2", "TPE1", "TALB", "TXXX"}, 4: {"TIT2", "TPE1", "TALB", "TXXX"}}

func c29ID3v1(md c29Meta, pad byte) []byte {
	b := []byte("TAG")
	for _, s := range []string{md.title, md.artist, md.album} {
		l, _ := c29Latin1(s)
		for len(l) < 30 {
			l = append(l, pad)
		}
		b = append(b, l[:30]...)
	}
	b = append(b, "2001"...)
	for len(b) < 127 {
		b = append(b, 0)
	}
	return append(b, 12)
}

// c29WithoutEnd is md without the text a version 2.2 tag ends with.
func c29WithoutEnd(md c29Meta, which int) c29Meta {
	if which >= 0 && which < 3 {
		*[]*string{&md.title, &md.artist, &md.album}[which] = ""
	}
	return md
}

// c29Tagged announces a song; want is nil if anything may be announced. short
// is the text of a frame of less than 11 bytes ending the tag, or -1.
func c29Tagged(e *mc.E, desc string, data []byte, want *c29Meta, plays bool, short int) {
	e.Case(func() string { return fmt.Sprintf("%s: song file %q", desc, c29Short(data)) })
	c29Collect()
	if err := ioutil.WriteFile(filepath.Join(playback.AudioDir, "t.mp3"), data, 0644); err != nil {
		panic(err)
	}
	m := c29Announce(e, 1<<63, "t.mp3", 1<<40)
	c29Lyrics(e, m, [][]c29Atom{{{5, "x"}}})
	if want != nil {
		if cut := c29WithoutEnd(*want, short); short >= 0 && m.Metadata != nil && *want != cut && (c29Meta{m.Metadata.Title, m.Metadata.Artist, m.Metadata.Album}) == cut {
			e.Assert(false, "id3v22-short-last-frame", "metadata announced are %v, stored are %+v", m.Metadata, want)
			return
		}
		c29IsMeta(e, m, *want)
	}
	if plays {
		var n int
		var err error
		e.Try(func() { n, err = playback.VerifOpen("t.mp3") })
		e.Assert(err == nil && n == 3*1152, "does-not-play", "the song does not play: %d samples, %v", n, err)
	}
	e.DistinctH(mc.Hash(string(data)))
}

// c29Giant returns if a size in a version 2.3 tag says 128 MiB or more.
func c29Giant(b []byte) bool {
	if len(b) < 14 || string(b[:4]) != "ID3\x03" {
		return false
	}
	i := 10
	if b[5]&0x40 != 0 {
		if 8 <= b[10] {
			return true
		}
		i += 4 + int(b[10])<<24 + int(b[11])<<16 + int(b[12])<<8 + int(b[13])
	}
	for ; i+10 <= len(b); i += 10 + int(b[i+4])<<24 + int(b[i+5])<<16 + int(b[i+6])<<8 + int(b[i+7]) {
		if 8 <= b[i+4] {
			return true
		}
	}
	return false
}

func c29NoOverride() bool {
	runtime.LockOSThread()
	hdr := struct {
		version uint32
		pid     int32
	}{0x20080522, 0}
	var data [2]struct{ effective, permitted, inheritable uint32 }
	if _, _, err := syscall.RawSyscall(syscall.SYS_CAPGET, uintptr(unsafe.Pointer(&hdr)), uintptr(unsafe.Pointer(&data[0])), 0); err != 0 {
		return false
	}
	data[0].effective &^= 1<<1 | 1<<2 // CAP_DAC_OVERRIDE, CAP_DAC_READ_SEARCH
	_, _, err := syscall.RawSyscall(syscall.SYS_CAPSET, uintptr(unsafe.Pointer(&hdr)), uintptr(unsafe.Pointer(&data[0])), 0)
	return err == 0
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(1 << 30)
	playback.AudioDir, _ = ioutil.TempDir("", "songs")
	playback.AudioDir, _ = filepath.EvalSymlinks(playback.AudioDir)
	ioutil.WriteFile(filepath.Join(playback.AudioDir, "s.mp3"), mp3File(id3Tag(3, id3Frame("TIT2", 0, []byte("t"))), 3), 0644)
	ioutil.WriteFile(filepath.Join(playback.AudioDir, "t.mp3.json"), []byte(`[[{"timestamp":5,"caption":"x"}]]`), 0644)
	texts := []string{"", "a", "Title", "ü", "Björk & Sigur Rós", "日本語", "😀 clef 𝄞", "a/b\\c\"d'", " lead", "x;y", "\u0416\u0416", "30 characters in one text, so.", strings.Repeat("long ", 60)}

	mc.Main(t, []mc.Scenario{
		{Name: "lyrics", Shards: 8, Enum: func(e *mc.E) {
			stamps := []int64{0, 1, -1, 123456, 1 << 53, 1<<63 - 1, -1 << 63}
			captions := []string{"", "a", "line of lyrics.", "ü", "日本語", "😀", "\"quoted\"", "back\\slash", "two\nlines", "\u0000", "<&>", " "}
			e.Rule("every lyrics document of at most 2 lines with at most 2 words of a pool of 14 times and captions, and of 3 lines with at most 1 word, compact, indented, with further fields and with all characters escaped")
			atoms := []c29Atom{}
			for i, c := range captions {
				atoms = append(atoms, c29Atom{stamps[i%len(stamps)], c})
			}
			atoms = append(atoms, c29Atom{1<<63 - 1, "a"}, c29Atom{-1 << 63, "b"})
			lines := [][]c29Atom{{}}
			for _, a := range atoms {
				lines = append(lines, []c29Atom{a})
			}
			short := len(lines)
			for i, a := range atoms {
				for k := 0; k < mc.Pick(3, len(atoms)); k++ {
					lines = append(lines, []c29Atom{a, atoms[(i*5+k)%len(atoms)]})
				}
			}
			n := 0
			doc := func(l ...[]c29Atom) {
				n++
				if !e.Mine(n) {
					return
				}
				want := append([][]c29Atom{}, l...)
				b, err := json.Marshal(want)
				if err != nil {
					panic(err)
				}
				c29Doc(e, "compact", b, want)
				switch n % 3 {
				case 0:
					b, _ = json.MarshalIndent(want, "\t", "    ")
					c29Doc(e, "indented", append(append([]byte("\n  "), b...), "\n\n"...), want)
				case 1:
					s := strings.Replace(string(b), `"timestamp":`, `"note":{"x":[1,null]},"timestamp":`, -1)
					c29Doc(e, "further fields", []byte(strings.Replace(s, `"}`, `","z":1.5e3}`, -1)), want)
				case 2:
					var sb strings.Builder
					in := false
					for _, r := range string(b) {
						if 127 < r {
							for _, u := range utf16.Encode([]rune{r}) {
								fmt.Fprintf(&sb, "\\u%04x", u)
							}
						} else {
							sb.WriteRune(r)
						}
						in = !in
					}
					c29Doc(e, "escaped", []byte(sb.String()), want)
				}
			}
			doc()
			for _, a := range lines {
				doc(a)
				for _, b := range lines {
					doc(a, b)
				}
			}
			for _, a := range lines[:short] {
				for _, b := range lines[:short] {
					for _, c := range lines[:short] {
						doc(a, b, c)
					}
				}
			}
			long := [][]c29Atom{}
			for i := 0; i < 2000; i++ {
				long = append(long, []c29Atom{{int64(i), fmt.Sprintf("word %d", i)}, {int64(i) + 1, "日本"}})
				if i%500 == 499 {
					doc(append([][]c29Atom{}, long...)...)
				}
			}
		}},
		{Name: "malformed_lyrics", Shards: 8, Enum: func(e *mc.E) {
			e.Rule("documents of other shapes; a document with every single byte replaced by each of a pool of bytes, removed, doubled, cut at every byte, with every pair of its structural bytes exchanged, and with a pool of texts before and behind it: what is not entirely a list of lines gives no lyrics")
			n := 0
			doc := func(desc string, b []byte) {
				n++
				if e.Mine(n) {
					c29Doc(e, desc, b, c29Strict(b))
				}
			}
			for _, s := range []string{"", " ", "null", "{}", "[]", "[[]]", "[null]", "[[null]]", "[[{}]]", "[{}]", "0", "\"x\"", "[[[]]]", "[[{\"timestamp\":1}]]", "[[{\"caption\":\"x\"}]]", "[[{\"timestamp\":\"1\",\"caption\":\"x\"}]]", "[[{\"timestamp\":1.5,\"caption\":\"x\"}]]", "[[{\"timestamp\":1e3,\"caption\":\"x\"}]]",
				"[[{\"timestamp\":9223372036854775808,\"caption\":\"x\"}]]", "[[{\"timestamp\":1,\"caption\":2}]]", "[[{\"timestamp\":null,\"caption\":null}]]", "[[{\"timestamp\":1,\"caption\":\"a\"}],[{\"timestamp\":\"x\",\"caption\":\"b\"}]]", "[[{\"timestamp\":1,\"caption\":\"a\"}],{}]", "[[{\"timestamp\":1,\"caption\":\"a\"},3]]",
				"[[{\"Timestamp\":1,\"CAPTION\":\"a\"}]]", "[[{\"timestamp\":1,\"timestamp\":2,\"caption\":\"a\"}]]", "[[{\"caption\":\"\xff\xfe\"}]]", "[[{\"caption\":\"\\ud800\"}]]", "\xff\xfe[\x00]\x00", strings.Repeat("[", 20000), strings.Repeat("[", 5000) + strings.Repeat("]", 5000)} {
				doc("shape", []byte(s))
			}
			base := `[[{"timestamp": 12, "caption": "w\u00fc"}, {"timestamp": -3,"caption":"x\n"}],[],[{"caption":"b","timestamp":40}]]`
			pool := []byte("{}[]:,\"\\ \n0-1.eEtnux/'a\x00\x7f\x80\xff")
			for i := range base {
				for _, c := range pool {
					b := []byte(base)
					b[i] = c
					doc("byte replaced", b)
					if mc.Pick(0, 1) == 1 {
						doc("byte inserted", append(append([]byte(base[:i]), c), base[i:]...))
					}
				}
				doc("byte removed", []byte(base[:i]+base[i+1:]))
				doc("byte doubled", []byte(base[:i+1]+base[i:]))
				doc("cut", []byte(base[:i]))
			}
			for i := range base {
				for k := range base[:i] {
					if strings.IndexByte("{}[],:\"", base[i]) >= 0 && strings.IndexByte("{}[],:\"", base[k]) >= 0 && base[i] != base[k] {
						b := []byte(base)
						b[i], b[k] = b[k], b[i]
						doc("exchanged", b)
					}
				}
			}
			for _, x := range []string{" ", "\n\t\r ", "x", "]", "}", "[]", "{}", ",", "null", "0", "\"", "\x00", "\xef\xbb\xbf", "//", "[[{\"caption\":\"y\"}]]", "\x0b", "\u00a0"} {
				doc("behind", []byte(base+x))
				doc("behind", []byte(base+"\n"+x))
				doc("before", []byte(x+base))
			}
		}},
		{Name: "tags", Shards: 8, Enum: func(e *mc.E) {
			e.Rule("every combination of title, artist and album of a pool of 13 texts, in tags of three versions and four text encodings, terminated or not, with other frames and padding around; and in tags at the end of the file; announced with different positions and lengths")
			n := 0
			for v := byte(2); v <= 4; v++ {
				ids := c29IDs[v]
				for how := 0; how < 5; how++ {
					if v < 4 && how > 2 {
						continue
					}
					for ti := range texts {
						for ai := range texts {
							n++
							if !e.Mine(n) {
								continue
							}
							all := []string{texts[ti], texts[ai], texts[(ti*3+ai+1)%len(texts)]}
							frames, which := [][]byte{}, []int{}
							want := make([]string, 3)
							enc := byte(0)
							for i, s := range all {
								en, b, ok := c29Encoded(s, how)
								if !ok || s == "" && n%2 == 0 {
									continue
								}
								enc = en
								switch { // a terminated text
								case n%3 == 0 && (en == 0 || en == 3):
									b = append(b, 0)
								case n%3 == 0:
									b = append(b, 0, 0)
								}
								want[i] = s
								frames, which = append(frames, c29Frame(v, ids[i], en, b)), append(which, i)
							}
							if len(frames) == 0 {
								continue
							}
							last, short := which[len(which)-1], -1
							switch n % 5 {
							case 1: // another frame first
								desc := []byte("note\x00ignored")
								frames = append([][]byte{c29Frame(v, ids[3], 0, desc)}, frames...)
							case 2: // the other way round
								for i, k := 0, len(frames)-1; i < k; i, k = i+1, k-1 {
									frames[i], frames[k] = frames[k], frames[i]
								}
								last = which[0]
							case 3: // padding
								frames = append(frames, make([]byte, 64))
							}
							if v == 2 && len(frames[len(frames)-1]) < 11 {
								short = last
							}
							c29Tagged(e, fmt.Sprintf("tag version 2.%d, encoding %d", v, enc), mp3File(id3Tag(v, frames...), 3), &c29Meta{want[0], want[1], want[2]}, true, short)
						}
					}
				}
			}
			for ti, a := range texts {
				for _, b := range texts {
					for _, pad := range []byte{0, ' '} {
						n++
						if !e.Mine(n) {
							continue
						}
						want := c29Meta{a, b, texts[(ti+n)%len(texts)]}
						ok := true
						for _, s := range []*string{&want.title, &want.artist, &want.album} {
							l, fits := c29Latin1(*s)
							ok = ok && fits && len(l) <= 30
							*s = strings.TrimSpace(*s)
						}
						if ok {
							c29Tagged(e, "tag at the end", append(mp3File(nil, 3), c29ID3v1(want, pad)...), &want, true, -1)
						}
					}
				}
			}
		}},
		{Name: "malformed_tags", Shards: 8, Enum: func(e *mc.E) {
			e.Rule("tags of every version and encoding with every single byte replaced by each of a pool of bytes, pairs of bytes of headers replaced, every combination of header and frame flags with every small size, cut at every byte, files of other and mixed kinds: the song is announced, without crash, hang or file left open, and plays if the tag's own header is intact")
			n := 0
			tag := func(desc string, b []byte, plays bool) {
				if c29Giant(b) { // sizes the tag library allocates
					return
				}
				n++
				if e.Mine(n) {
					c29Tagged(e, desc, b, nil, plays, -1)
				}
			}
			vals := []byte{0, 1, 2, 3, 4, 5, 0x0b, 0x10, 0x20, 0x40, 0x41, 0x54, 0x57, 0x7f, 0x80, 0xfe, 0xff}
			bases := [][]byte{}
			for v := byte(2); v <= 4; v++ {
				ids := c29IDs[v]
				u := []byte("description\x00text")
				other := []byte{}
				for _, id := range map[byte][]string{2: {"COM", "PIC", "UFI", "WXX", "ULT"}, 3: {"COMM", "APIC", "UFID", "WXXX", "USLT"}, 4: {"COMM", "APIC", "UFID", "WXXX", "USLT"}}[v] {
					other = append(other, c29Frame(v, id, 0, append([]byte("eng"), u...))...)
				}
				bases = append(bases, id3Tag(v, c29Frame(v, ids[0], 0, []byte("abc")), c29Frame(v, ids[1], 1, append([]byte{0xff, 0xfe}, c29UTF16("de", false)...)), c29Frame(v, ids[2], 0, []byte("f")), other))
			}
			for bi, b := range bases {
				for i := range b {
					for _, c := range vals {
						d := append([]byte{}, b...)
						d[i] = c
						tag(fmt.Sprintf("tag version 2.%d, byte %d replaced", bi+2, i), mp3File(d, 3), 10 <= i)
					}
					tag("cut tag", b[:i], false)
					tag("cut tag before audio", mp3File(b[:i], 3), false)
				}
				head := 22 // the tag's header and most of the first frame's
				for i := 3; i < head; i++ {
					for k := 3; k < i; k++ {
						for _, x := range []byte{1, 4, 0x40, 0x7f, 0x80, 0xff} {
							for _, y := range []byte{1, 4, 0x40, 0x7f, 0x80, 0xff} {
								d := append([]byte{}, b...)
								d[i], d[k] = x, y
								tag(fmt.Sprintf("tag version 2.%d, bytes %d and %d replaced", bi+2, i, k), mp3File(d, 3), 10 <= k)
							}
						}
					}
				}
			}
			for v := byte(2); v <= 4; v++ {
				for flags := 0; flags < 256; flags += mc.Pick(16, 1) {
					for _, ext := range [][]byte{nil, {0, 0, 0, 0}, {0, 0, 0, 3}, {0, 0, 0, 4}, {0, 0, 0, 6, 1, 0}, {0, 0, 0, 10, 0, 0, 0, 0, 0, 0}, {0, 0, 0x7f, 0x7f}} {
						b := id3Tag(v, ext, c29Frame(v, c29IDs[v][0], 0, []byte("abc")))
						b[5] = byte(flags)
						tag(fmt.Sprintf("tag version 2.%d, flags %#x, extended header %v", v, flags, ext), mp3File(b, 3), false)
					}
				}
			}
			for v := byte(3); v <= 4; v++ {
				for flags := 0; flags < 256; flags++ {
					for size := 0; size <= 8; size++ {
						for _, id := range []string{"TIT2", "TXXX", "COMM", "APIC", "UFID", "WXXX", "USLT", "PRIV"} {
							if size%2 == 0 && id != "TIT2" && mc.Pick(0, 1) == 0 {
								continue
							}
							f := append([]byte(id), 0, 0, 0, byte(size), 0, byte(flags))
							f = append(f, []byte{1, 0, 0, 3, 'a', 'b', 'c', 'd'}[:size]...)
							tag(fmt.Sprintf("frame %s of version 2.%d, flags %#x, %d bytes", id, v, flags, size), mp3File(id3Tag(v, f), 3), true)
						}
					}
				}
			}
			for _, id := range []string{"TIT2", "TPE1", "TALB", "TXXX", "COMM", "APIC", "UFID", "WXXX", "WOAF", "USLT", "PRIV"} {
				for l := 0; l <= mc.Pick(2, 3); l++ {
					pool := []byte{0, 1, 2, 3, 4, 'a', 0xfe, 0xff}
					total := 1
					for i := 0; i < l; i++ {
						total *= len(pool)
					}
					for c := 0; c < total; c++ {
						body, x := []byte{}, c
						for i := 0; i < l; i++ {
							body = append(body, pool[x%len(pool)])
							x /= len(pool)
						}
						for enc := byte(0); enc <= 4; enc++ {
							tag(fmt.Sprintf("frame %s with encoding %d and contents %q", id, enc, body), mp3File(id3Tag(3, c29Frame(3, id, enc, body)), 3), true)
						}
					}
				}
			}
			for _, s := range []string{"", "I", "ID3", "ID3\x03\x00\x00\x00\x00\x00", "fLaC", "fLaC\x84\x00\x00\x00\x00\x00\x00\x00", "fLaC\x04\xff\xff\xff0000", "fLaC\x04\x00\x00\x08\xff\xff\xff\x7f0000", "OggS", "OggS\x00\x02\x00\x00\x00\x00\x00\x00\x00\x00", "OggS" + strings.Repeat("\xff", 60), "OggS" + strings.Repeat("\x01", 60), "DSD ", "DSD " + strings.Repeat("\xff", 60), "DSD " + strings.Repeat("\x00", 60),
				"\x00\x00\x00\x18ftypM4A \x00\x00\x00\x00", "\x00\x00\x00\x00ftypM4A ", "\x00\x00\x00\x04ftypM4A \x00\x00\x00\x04moov\x00\x00\x00\x00", "\x00\x00\x00\x14ftypM4A 12345678\x00\x00\x00\x08moov\x00\x00\x00\x10udta\x00\x00\x00\x08meta0000\x00\x00\x00\x05ilst\x00\x00\x00\x07\xa9nam\x00\x00\x00\x02data", "TAG" + strings.Repeat("\xff", 125), "TAG" + strings.Repeat("\x00", 125), strings.Repeat("\x00", 200)} {
				for cut := 0; cut <= len(s); cut++ {
					tag("other file", []byte(s[:cut]), false)
				}
				tag("other file before audio", mp3File([]byte(s), 3), false)
			}
			for i := 3; i < 128; i++ {
				for _, c := range vals {
					d := c29ID3v1(c29Meta{"abc", "de", "f"}, ' ')
					d[i] = c
					tag("tag at the end, byte replaced", append(mp3File(nil, 3), d...), true)
				}
			}
		}},
		{Name: "files", Enum: func(e *mc.E) {
			e.Rule("the song and its lyrics missing, directories, unreadable, links to nothing, empty; names of songs of all kinds; positions and lengths")
			dir := playback.AudioDir
			good := mp3File(id3Tag(3, id3Frame("TIT2", 0, []byte("t"))), 3)
			doc := []byte(`[[{"timestamp":5,"caption":"x"}]]`)
			restricted := c29NoOverride()
			c29Direct = true
			defer func() { c29Direct = false }()
			for _, name := range []string{"n.mp3", "a b.mp3", "sub/n.mp3", "ü日.mp3", "\xff\xfe.mp3", "a\xffb.mp3"} {
				os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0755)
				for kind := 0; kind < 36; kind++ {
					songKind, docKind := kind%6, kind/6
					e.Case(func() string {
						return fmt.Sprintf("song %q: song %d, lyrics %d (there, missing, directory, unreadable, link to nothing, empty)", name, songKind, docKind)
					})
					for i, k := range []int{songKind, docKind} {
						p := filepath.Join(dir, name)
						data := good
						if i == 1 {
							p += ".json"
							data = doc
						}
						os.RemoveAll(p)
						switch k {
						case 0:
							ioutil.WriteFile(p, data, 0644)
						case 2:
							os.MkdirAll(filepath.Join(p, "x"), 0755)
						case 3:
							ioutil.WriteFile(p, data, 0)
						case 4:
							os.Symlink("nothing", p)
						case 5:
							ioutil.WriteFile(p, nil, 0644)
						}
					}
					for _, start := range []uint64{0, 1, 1<<64 - 1} {
						m := c29Announce(e, start, name, int64(kind)<<56)
						want := [][]c29Atom{}
						if docKind == 0 {
							want = [][]c29Atom{{{5, "x"}}}
						}
						md := c29Meta{}
						if songKind == 0 {
							md.title = "t"
						}
						if docKind != 3 || restricted {
							c29Lyrics(e, m, want)
						}
						if songKind != 3 || restricted {
							c29IsMeta(e, m, md)
						}
					}
					e.DistinctH(mc.Hash(name, kind))
				}
			}
		}},
	})
}
