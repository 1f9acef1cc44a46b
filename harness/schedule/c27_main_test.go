package schedule

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"testing"
	"unicode/utf8"
	"unsafe"

	"github.com/LogicalOverflow/music-sync/logging"
	"github.com/LogicalOverflow/music-sync/metadata"
	"github.com/LogicalOverflow/music-sync/playback"
	"github.com/LogicalOverflow/music-sync/ssh"
	"github.com/LogicalOverflow/music-sync/ssh/parser"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C27: songs listed can be queued and played, for every spelling of the music
// dir, and nothing outside of it is shown or queued.

// c27Pool: what may be in a music directory.
var c27Pool = []string{
	"s.mp3", ".h.mp3", "a b.mp3", "sub/s.mp3", "sub/deep/e.mp3", "audio/s.mp3", "[s].mp3", "b\\s.mp3", "\\l.mp3", "ü.mp3",
	"x.mp3/in.mp3", "no.txt", "..a.mp3", "..sub/q.mp3", "\xff.mp3", ".mp3", "*.mp3", "sub/[s.mp3", ".audio/s.mp3", "a?b.mp3", "audiox.mp3", "/audio/audio/s.mp3"[1:], "sub/link.mp3", "link.mp3",
}

func c27Song(name string) bool { return strings.HasSuffix(name, ".mp3") }

// c27World is a directory with a music directory and things around it that
// must not be seen.
type c27World struct {
	root  string
	name  string // of the music directory
	files []string
	songs []string
	nr    map[string]int
}

func c27Write(file string, nr int) {
	if err := os.MkdirAll(filepath.Dir(file), 0755); err != nil {
		panic(err)
	}
	song := file
	if strings.HasSuffix(file, "link.mp3") { // links to where the song is
		song = strings.TrimSuffix(file, ".mp3") + ".data"
		if err := os.Symlink(filepath.Base(song), file); err != nil {
			panic(err)
		}
	}
	title := fmt.Sprintf("title-%d", nr)
	if err := ioutil.WriteFile(song, mp3File(id3Tag(3, id3Frame("TIT2", 0, []byte(title))), nr+3), 0644); err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(file+".json", []byte(fmt.Sprintf(`[[{"timestamp":%d,"caption":"line-%d"}]]`, nr, nr)), 0644); err != nil {
		panic(err)
	}
}

func c27Make(name string, files []string) *c27World {
	root, err := ioutil.TempDir("", "c27-")
	if err != nil {
		panic(err)
	}
	if root, err = filepath.EvalSymlinks(root); err != nil {
		panic(err)
	}
	w := &c27World{root: root, name: name, files: files, nr: map[string]int{}}
	dir := filepath.Join(root, "base", name)
	if err := os.MkdirAll(filepath.Join(dir, "void", "deep"), 0755); err != nil {
		panic(err)
	}
	for i, f := range files {
		c27Write(filepath.Join(dir, f), i)
		if c27Song(f) {
			w.songs = append(w.songs, f)
			w.nr[f] = i
		}
	}
	for i, f := range []string{"secret.mp3", name + "secret.mp3", name + "2/secret.mp3", "void/secret.mp3", "../secret.mp3", "../sub/secret.mp3"} {
		c27Write(filepath.Join(root, "base", f), 100+i)
	}
	if err := os.Symlink(name, filepath.Join(root, "base", "link")); err != nil {
		panic(err)
	}
	return w
}

func (w *c27World) remove() { os.RemoveAll(w.root) }

type c27Spelling struct{ cwd, dir string }

// spellings of the music directory.
func (w *c27World) spellings() []c27Spelling {
	n, base := w.name, filepath.Join(w.root, "base")
	abs := filepath.Join(base, n)
	r := []c27Spelling{}
	for _, d := range []string{n, "./" + n, n + "/", n + "//", n + "/.", "./" + n + "/./", n + "/../" + n, "../base/" + n, ".//" + n, "void/../" + n + "/void/..", n + "/void/../", "link", "./link/", abs, abs + "/", abs + "/.", base + "//" + n, abs + "/../" + n, "/" + abs, base + "/link"} {
		r = append(r, c27Spelling{base, d})
	}
	for _, d := range []string{".", "./", "../" + n, "././.", "void/..", "./void/../"} {
		r = append(r, c27Spelling{abs, d})
	}
	for _, d := range []string{"..", "../", "../.", "../../" + n, "deep/../.."} {
		r = append(r, c27Spelling{filepath.Join(abs, "void"), d})
	}
	r = append(r, c27Spelling{"/", strings.TrimPrefix(abs, "/")})
	return r
}

// c27Inside tells whether an argument is a clean name of something inside.
func c27Inside(arg string) (string, bool) {
	c := filepath.Clean(arg)
	if arg == "" {
		c = "."
	}
	if arg == "/" {
		return ".", true
	}
	if filepath.IsAbs(c) || c == ".." || strings.HasPrefix(c, "../") {
		return "", false
	}
	return c, true
}

func c27Sorted(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}

func c27Same(a, b []string) bool {
	return strings.Join(c27Sorted(a), "\n") == strings.Join(c27Sorted(b), "\n")
}

// c27Subset: every entry of a is in b, and none twice.
func c27Subset(a, b []string) bool {
	in := map[string]bool{}
	for _, x := range b {
		in[x] = true
	}
	for _, x := range a {
		if !in[x] {
			return false
		}
		in[x] = false
	}
	return true
}

// c27Ls runs ls.
func c27Ls(e *mc.E, ls ssh.Command, args ...string) []string {
	var out string
	var ok bool
	e.Try(func() { out, ok = ls.Exec(args) })
	e.Assert(ok, "ls", "ls %q only gives its usage", args)
	out = strings.TrimSuffix(out, "\n")
	if out == "" {
		return nil
	}
	return strings.Split(out, "\n")
}

// c27Queue runs queue on a fresh playlist.
func c27Queue(e *mc.E, args ...string) ([]string, string) {
	ss := &serverState{playlist: playback.NewPlaylist(44100, []string{}, 0)}
	var out string
	var ok bool
	e.Try(func() { out, ok = ss.queueCommand().Exec(args) })
	e.Assert(ok, "queue", "queue %q only gives its usage", args)
	return ss.playlist.Songs(), out
}

func (w *c27World) check(e *mc.E, sp c27Spelling, lss, patterns []string) {
	if err := os.Chdir(sp.cwd); err != nil {
		panic(err)
	}
	playback.AudioDir = sp.dir
	commands := ssh.VerifCommands()
	ls := commands["ls"]

	for _, arg := range lss {
		got := c27Ls(e, ls, arg)
		e.Step(1)
		dir, inside := c27Inside(arg)
		if !inside {
			e.Assert(c27Subset(got, w.songs), "escape", "music dir %q: ls %q lists %q, in the music dir are %q", sp.dir, arg, got, w.songs)
			continue
		}
		want, file := []string{}, false
		for _, s := range w.songs {
			if dir == "." || strings.HasPrefix(s, dir+"/") {
				want = append(want, s)
			}
			file = file || s == dir
		}
		e.Assert(c27Same(got, want) || file && c27Same(got, []string{dir}), "ls", "music dir %q: ls %q lists %q, the songs there are %q", sp.dir, arg, got, want)
	}
	got := c27Ls(e, ls)
	e.Assert(c27Same(got, w.songs), "ls", "music dir %q: ls lists %q, the songs are %q", sp.dir, got, w.songs)

	ss := &serverState{playlist: playback.NewPlaylist(44100, []string{}, 0)}
	queue := ss.queueCommand()
	var options []string
	e.Try(func() { options = queue.Options("", 0) })
	e.Assert(c27Same(options, w.songs), "options", "music dir %q: queue offers %q, the songs are %q", sp.dir, options, w.songs)
	for _, d := range []string{"..", "../", "../secret", "/", sp.cwd, w.root + "/"} {
		e.Try(func() { options = append(queue.Options(d, 0), ls.Options(d, 0)...) })
		for _, o := range options {
			in := false
			for _, f := range w.files {
				in = in || f == o || strings.HasPrefix(f, o)
			}
			e.Assert(in, "escape", "music dir %q: %q is offered for %q", sp.dir, o, d)
		}
	}

	for _, s := range got {
		nr := w.nr[s]
		songs, out := c27Queue(e, s)
		e.Assert(c27Same(songs, []string{s}), "queue", "music dir %q: song %q is listed, queue adds %q (%q)", sp.dir, s, songs, out)
		cmd := parser.ParseCommand(parser.ParsedCommand{Command: "queue", Parameters: []string{s}}.Unparse())
		if utf8.ValidString(s) { // others cannot be typed
			e.Assert(len(cmd.Parameters) == 1, "queue", "written as command line, song %q is %q", s, cmd.Parameters)
			songs, out = c27Queue(e, cmd.Parameters...)
			e.Assert(c27Same(songs, []string{s}), "queue", "music dir %q: written as command line, song %q adds %q (%q)", sp.dir, s, songs, out)
		}
		var n int
		var err error
		e.Try(func() { n, err = playback.VerifOpen(s) })
		e.Assert(err == nil && n == (nr+3)*1152, "open", "music dir %q: song %q has %d samples (%v) instead of %d", sp.dir, s, n, err, (nr+3)*1152)
		var ly []metadata.LyricsLine
		e.Try(func() { ly = metadata.GetLyricsProvider().CollectLyrics(s) })
		e.Assert(len(ly) == 1 && len(ly[0]) == 1 && ly[0][0].Timestamp == int64(nr), "lyrics", "music dir %q: song %q has lyrics %v", sp.dir, s, ly)
		var md metadata.SongMetadata
		e.Try(func() { md = metadata.GetProvider().CollectMetadata(s) })
		e.Assert(md.Title == fmt.Sprintf("title-%d", nr), "metadata", "music dir %q: song %q has metadata %v", sp.dir, s, md)
		e.Step(5)
	}

	for _, p := range patterns {
		songs, out := c27Queue(e, p)
		e.Step(1)
		literal, inside := c27Inside(p)
		if !inside || strings.Contains(p, "..") {
			e.Assert(c27Subset(songs, w.songs), "escape", "music dir %q: queue %q adds %q, in the music dir are %q", sp.dir, p, songs, w.songs)
			e.Assert(!strings.Contains(strings.Replace(out, p, "", -1), "secret"), "escape", "music dir %q: queue %q says %q", sp.dir, p, out)
			continue
		}
		want, exact := []string{}, false
		bad := false
		for _, s := range w.songs {
			m, err := filepath.Match(literal, s)
			bad = bad || err != nil
			if m {
				want = append(want, s)
			}
			exact = exact || s == literal
		}
		if exact && (bad || c27Same(songs, []string{literal})) {
			want = []string{literal}
		} else if exact && !c27Subset([]string{literal}, want) {
			want = append(want, literal)
		}
		e.Assert(c27Same(songs, want), "queue", "music dir %q: queue %q adds %q, matching songs are %q (%q)", sp.dir, p, songs, want, out)
		for _, s := range want {
			e.Assert(strings.Contains(out, s), "queue", "music dir %q: queue %q reports %q, added is %q", sp.dir, p, out, songs)
		}
	}
}

func (w *c27World) requests() (lss, patterns []string) {
	abs := filepath.Join(w.root, "base", w.name)
	n := w.name
	lss = []string{"", ".", "./", "/", "sub", "sub/", "./sub", "sub/.", "sub/deep", "sub/../sub", "sub/..", "audio", "audio/", "audio/audio", ".audio", "..sub", "x.mp3", "x.mp3/", "void", "nothing", "s.mp3",
		"..", "../", "../..", "../" + n, "../" + n + "2", "../void", "sub/../..", "sub/../../" + n + "2", "void/../../void", "/sub", "/..", "/../..", "/../void", abs, filepath.Dir(abs), w.root, "../../base", "//..", "..//.."}
	patterns = []string{"*", "*.mp3", "?.mp3", "[a-t].mp3", "[s].mp3", "sub/*", "sub/*.mp3", "./s.mp3", "sub/../s.mp3", "./*", "*/*", "*/s.mp3", "s*/*", "*/*/*", ".*", "..*", "..*/*", "[.]*", "\\[s\\].mp3", "\\*.mp3", "x.mp3", "x.mp3/*", "nothing", "no.txt", "*.txt",
		"sub", "[", "sub/[", "\\", "", ".", "/",
		"..", "../*", "../*.mp3", "../secret.mp3", "../*/*", "../" + n + "2/*", "../" + n + "*", "*/../../secret.mp3", "*/../../*", "sub/../../*.mp3", "../../*", "../../sub/*", "../../*/*", "?./secret.mp3", "[.][.]/secret.mp3", "[.]./*", "\\.\\./*.mp3", ".?/*.mp3", "*/secret.mp3",
		"/*", "/s.mp3", abs + "/s.mp3", abs + "/*", w.root + "/*", w.root + "/base/*", "/../*", "//../secret.mp3"}
	return
}

func c27Run(e *mc.E, name string, files []string, n *int, some ...int) bool {
	*n++
	if !e.Mine(*n) {
		return true
	}
	w := c27Make(name, files)
	defer func() { os.Chdir("/"); w.remove() }()
	lss, patterns := w.requests()
	sps := w.spellings()
	if 0 < len(some) {
		for i, k := range some {
			sps[i] = sps[k]
		}
		sps = sps[:len(some)]
	}
	for _, sp := range sps {
		sp := sp
		if !e.Case(func() string {
			return fmt.Sprintf("music dir %q with %q, written %q in %q", name, files, strings.Replace(sp.dir, w.root, "ROOT", 1), strings.Replace(sp.cwd, w.root, "ROOT", 1))
		}) {
			return false
		}
		w.check(e, sp, lss, patterns)
		e.DistinctH(mc.Hash(name, files, strings.Replace(sp.dir, w.root, "ROOT", 1), strings.Replace(sp.cwd, w.root, "ROOT", 1)))
	}
	return true
}

// c27NoOverride makes this thread respect the permissions of its own files.
func c27NoOverride() bool {
	runtime.LockOSThread()
	hdr := struct {
		version uint32
		pid     int32
	}{0x20080522, 0}
	var data [2]struct{ effective, permitted, inheritable uint32 }
	if _, _, err := syscall.RawSyscall(syscall.SYS_CAPGET, uintptr(unsafe.Pointer(&hdr)), uintptr(unsafe.Pointer(&data[0])), 0); err != 0 {
		return false
	}
	data[0].effective &^= 1<<1 | 1<<2 // CAP_DAC_OVERRIDE, CAP_DAC_READ_SEARCH
	_, _, err := syscall.RawSyscall(syscall.SYS_CAPSET, uintptr(unsafe.Pointer(&hdr)), uintptr(unsafe.Pointer(&data[0])), 0)
	return err == 0
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	mc.Main(t, []mc.Scenario{
		{Name: "trees", Shards: 8, Enum: func(e *mc.E) {
			max := mc.Pick(2, 3)
			e.Rule(fmt.Sprintf("every set of at most %d of %d kinds of files in the music dir, and all of them together, x 32 spellings of the music dir (relative, absolute, redundant, parent, through links, from different working directories) x all listing and queueing requests of a pool of 38 and 56 and one per listed song", max, len(c27Pool)))
			n := 0
			if !c27Run(e, "audio", c27Pool, &n) {
				return
			}
			var pick func(files []string, from int) bool
			pick = func(files []string, from int) bool {
				if !c27Run(e, "audio", append([]string{}, files...), &n) {
					return false
				}
				for i := from; len(files) < max && i < len(c27Pool); i++ {
					if !pick(append(files, c27Pool[i]), i+1) {
						return false
					}
				}
				return true
			}
			pick(nil, 0)
		}},
		{Name: "names", Shards: 8, Enum: func(e *mc.E) {
			e.Rule("names of the music dir (hidden, with pattern characters, backslashes, spaces, other scripts, like a song) x every single file of the pool and all together x 8 and 32 spellings")
			n := 0
			for _, name := range []string{".music", "mu[s]ic", "m*", "m?", "[", "a\\b", "\\", "ü x", "audio.mp3", "s", "..m", "a b", "*"} {
				some := []int{0, 2, 6, 11, 13, 20, 22, 26} // ascending
				if !c27Run(e, name, c27Pool, &n) {
					return
				}
				for _, f := range c27Pool {
					if !c27Run(e, name, []string{f}, &n, some...) {
						return
					}
				}
			}
		}},
		{Name: "unreadable", Enum: func(e *mc.E) {
			e.Rule("every set of the sub directories cannot be read x spellings: the songs elsewhere are listed all the same")
			if !c27NoOverride() {
				return
			}
			dirs := []string{"audio", "sub", "sub/deep", "..sub", "x.mp3", "void", ".audio"}
			for set := 1; set < 1<<uint(len(dirs)); set++ {
				w := c27Make("audio", c27Pool)
				abs := filepath.Join(w.root, "base", "audio")
				blocked := []string{}
				for i := len(dirs) - 1; 0 <= i; i-- {
					if set>>uint(i)&1 == 1 {
						blocked = append(blocked, dirs[i])
					}
				}
				sort.Sort(sort.Reverse(sort.StringSlice(blocked)))
				for _, d := range blocked {
					os.Chmod(filepath.Join(abs, d), 0)
				}
				want := []string{}
				for _, s := range w.songs {
					ok := true
					for _, d := range blocked {
						ok = ok && !strings.HasPrefix(s, d+"/")
					}
					if ok {
						want = append(want, s)
					}
				}
				sp := w.spellings()
				for _, i := range []int{0, 5, 11, 13} {
					if !e.Case(func() string { return fmt.Sprintf("unreadable: %q, music dir %q", blocked, sp[i].dir) }) {
						break
					}
					os.Chdir(sp[i].cwd)
					playback.AudioDir = sp[i].dir
					got := c27Ls(e, ssh.VerifCommands()["ls"])
					e.Assert(c27Same(got, want), "unreadable", "ls lists %q, the readable songs are %q", got, want)
					songs, _ := c27Queue(e, "*.mp3")
					e.Assert(0 < len(songs), "unreadable", "queue *.mp3 adds nothing")
					e.DistinctH(mc.Hash(set, i))
				}
				os.Chdir("/")
				sort.Strings(blocked)
				for _, d := range blocked {
					os.Chmod(filepath.Join(abs, d), 0755)
				}
				w.remove()
			}
		}},
	})
}
