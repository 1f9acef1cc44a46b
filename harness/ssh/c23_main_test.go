package parser

import (
	"fmt"
	"testing"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C23: command lines are split into exactly the words the user wrote.

func c23Check(e *mc.E, line string) {
	e.Case(func() string { return fmt.Sprintf("%q", line) })
	want, _ := refSplit(line)
	e.Try(func() {
		c := ParseCommand(line)
		cmd := ""
		if len(want) > 0 {
			cmd, want = want[0], want[1:]
		}
		e.Assert(c.Command == cmd, "command", "command %q instead of %q", c.Command, cmd)
		ok := len(c.Parameters) == len(want)
		for i := 0; ok && i < len(want); i++ {
			ok = c.Parameters[i] == want[i]
		}
		e.Assert(ok, "parameters", "parameters %q instead of %q", c.Parameters, want)
		e.Step(1)
		if len(want) > 0 {
			e.DistinctH(mc.Hash(cmd, len(want), want))
		}
	})
}

func c23Lines(symbols []string, n int) func(*mc.E) {
	return func(e *mc.E) {
		e.Rule(fmt.Sprintf("all lines of up to %d symbols out of %q; distinct: results with parameters", n, symbols))
		allLines(symbols, n, func(i int, s string) {
			if e.Mine(i) {
				c23Check(e, s)
			}
		})
	}
}

// c23Words: lines made of words, written with or without superfluous escapes.
func c23Words(words, gaps []string, n int) func(*mc.E) {
	return func(e *mc.E) {
		e.Rule(fmt.Sprintf("all lines of up to %d words out of %q separated by %q; distinct: results with parameters", n, words, gaps))
		i := 0
		var rec func(s string, left int)
		rec = func(s string, left int) {
			for _, g := range gaps {
				i++
				if e.Mine(i) {
					c23Check(e, s+g)
				}
			}
			if left == 0 {
				return
			}
			for _, g := range gaps {
				if s != "" && g == "" {
					continue
				}
				for _, w := range words {
					rec(s+g+w, left-1)
				}
			}
		}
		rec("", n)
	}
}

func TestMC(t *testing.T) {
	// one parser per thread of the library's caches is enough
	mc.Main(t, []mc.Scenario{
		{Name: "lines", Enum: c23Lines([]string{"a", " ", "\\", "é", "😀"}, 7), Shards: 6},
		{Name: "lines8", Enum: c23Lines([]string{"a", " ", "\\", "語"}, 8), Shards: 6},
		{Name: "lines10", Enum: c23Lines([]string{"a", " ", "\\"}, 10), Shards: 6},
		{Name: "lines11", Enum: c23Lines([]string{"é", " ", "\\"}, 12), Shards: 8, Thorough: true},
		{Name: "linesdeep", Enum: c23Lines([]string{"a", " ", "\\", "é", "😀", "\""}, 8), Shards: 8, Thorough: true},
		{Name: "symbols", Enum: c23Lines([]string{"a", "B", "0", " ", "\\", "\"", "'", "\t", "\n", "\u00a0", "é", "\u0080", "語", "\ufffd", "😀", "\x00", "/", "*", "-"}, 4), Shards: 6},
		{Name: "words", Enum: c23Words([]string{"ls", "a\\ b", "\\\\", "\\x", "日本", "\\ ", "x\\"}, []string{"", " ", "  "}, 4), Shards: 6},
		{Name: "many", Enum: c23Words([]string{"ü", "\\\\\\ "}, []string{" "}, 10), Shards: 1},
	})
}
