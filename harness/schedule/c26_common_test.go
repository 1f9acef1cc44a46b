package schedule

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

// c26Op is a command with arguments.
type c26Op struct {
	name string
	args []string
}

func (o c26Op) String() string { return fmt.Sprintf("%s %q", o.name, o.args) }

func c26Pool() []c26Op {
	pool := []c26Op{}
	add := func(name string, args ...string) { pool = append(pool, c26Op{name, args}) }
	for _, name := range []string{"queue", "playlist", "remove", "jump", "volume", "pause", "resume"} {
		add(name)
	}
	for _, p := range []string{"a.mp3", "dir/*", "*", "dir/[xz].mp3", "nothing.mp3", "note.txt", "[", ""} {
		add("queue", p)
	}
	for _, pos := range []string{"0", "1", "2", "-1", "100", "-9223372036854775808", "9223372036854775807", "x", "", "1.5", "9223372036854775808"} {
		add("queue", "dir/*", pos)
		add("remove", pos)
		add("jump", pos)
	}
	add("queue", "b.mp3", "1")
	add("queue", "nothing.mp3", "1")
	for _, v := range []string{"0", "1", "0.5", "1e-3", "x", "", "nan", "inf", "-Inf", "1e999", "0.5x", "0,5", "0x", "--1"} {
		add("volume", v)
	}
	return pool
}

var c26Files = map[string][]string{
	"a.mp3": {"a.mp3"}, "b.mp3": {"b.mp3"}, "*": {"a.mp3", "b.mp3"}, "dir/*": {"dir/x.mp3", "dir/y.mp3", "dir/z.mp3"}, "dir/[xz].mp3": {"dir/x.mp3", "dir/z.mp3"},
}

// c26Model is what the commands work on.
type c26Model struct {
	songs   []string
	playing bool
	volume  float64
}

// c26Want is what a command has to do.
type c26Want struct {
	usage, jump, volume bool
	edit                bool // the playlist changes
	to                  int
	songs               []string // added or removed
	at                  int
}

func (m *c26Model) apply(op c26Op) (w c26Want) {
	num := func(i int) (int, bool) {
		if len(op.args) <= i {
			return 0, false
		}
		n, err := strconv.Atoi(op.args[i])
		return n, err == nil
	}
	clip := func(n, max int) int {
		if n < 0 {
			return 0
		}
		if max < n {
			return max
		}
		return n
	}
	switch op.name {
	case "queue":
		if len(op.args) == 0 {
			w.usage = true
			return
		}
		at, ok := num(1)
		if !ok {
			at = len(m.songs)
		}
		at = clip(at, len(m.songs))
		w.songs, w.at = c26Files[op.args[0]], at
		w.edit = len(w.songs) > 0
		m.songs = append(append(append([]string{}, m.songs[:at]...), w.songs...), m.songs[at:]...)
	case "remove":
		at, ok := num(0)
		if !ok {
			w.usage = true
			return
		}
		if len(m.songs) == 0 {
			return
		}
		w.to = at
		at = clip(at, len(m.songs)-1)
		w.edit, w.songs, w.at = true, []string{m.songs[at]}, at
		m.songs = append(append([]string{}, m.songs[:at]...), m.songs[at+1:]...)
	case "jump":
		at, ok := num(0)
		if !ok {
			w.usage = true
			return
		}
		w.jump, w.to = true, at
	case "volume":
		if len(op.args) == 0 {
			w.usage = true
			return
		}
		v, err := strconv.ParseFloat(op.args[0], 64)
		if err != nil || v-v != 0 {
			w.usage = true
			return
		}
		w.volume, m.volume = true, v
	case "pause":
		m.playing = false
	case "resume":
		m.playing = true
	}
	return
}

var c26Entry = regexp.MustCompile(`^\s*\[(\d+)\] (.*)$`)

// c26Output checks what a command answers. m is the state after it.
func c26Output(assert func(bool, string, string, ...interface{}), op c26Op, w c26Want, m *c26Model, out, current string) {
	if w.usage {
		return
	}
	has := func(s string) {
		assert(strings.Contains(out, s), "answer", "%v: the answer %q does not say %q", op, out, s)
	}
	switch op.name {
	case "queue":
		for _, s := range w.songs {
			has(s)
		}
		if len(w.songs) > 0 {
			has(strconv.Itoa(len(w.songs)) + " song")
		} else {
			assert(!strings.Contains(out, "added"), "answer", "%v: adds nothing, but answers %q", op, out)
			assert(out != "", "answer", "%v: adds nothing without an answer", op)
		}
	case "remove":
		if len(w.songs) == 0 {
			assert(!strings.HasPrefix(out, "removed"), "answer", "%v: the playlist is empty, but the answer is %q", op, out)
			break
		}
		has(w.songs[0])
		if w.at == w.to { // beyond the ends the last or first is removed
			has("position " + strconv.Itoa(w.at))
		}
	case "jump":
		has(strconv.Itoa(w.to))
	case "volume":
		has(fmt.Sprintf("%.3f", m.volume))
	case "pause", "resume":
		has(op.name + "d")
	case "playlist":
		got := []string{}
		for _, l := range strings.Split(out, "\n") {
			if x := c26Entry.FindStringSubmatch(l); x != nil {
				n, err := strconv.Atoi(x[1])
				assert(err == nil && n == len(got), "answer", "%v: entry %d is numbered %s", op, len(got), x[1])
				got = append(got, x[2])
			}
		}
		assert(strings.Join(got, "\n") == strings.Join(m.songs, "\n"), "answer", "%v: lists %q, the playlist is %q", op, got, m.songs)
		if m.playing {
			has("Playing")
			assert(!strings.Contains(out, "Paused"), "answer", "%v: says %q while playing", op, out)
		} else {
			has("Paused")
			assert(!strings.Contains(out, "Playing"), "answer", "%v: says %q while paused", op, out)
		}
		if current != "" {
			has("Current Song: " + current)
		}
	}
}
