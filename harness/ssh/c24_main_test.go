package ssh

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/LogicalOverflow/music-sync/ssh/parser"
	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C24: completion only offers lines that mean what was offered; writing
// commands back round-trips.

func c24Words(symbols []string, n int) []string {
	r := []string{}
	allLines(symbols, n, func(_ int, s string) {
		if s != "" {
			r = append(r, s)
		}
	})
	return r
}

func c24RoundTrip(symbols []string, n, params int) func(*mc.E) {
	return func(e *mc.E) {
		words := c24Words(symbols, n)
		e.Rule(fmt.Sprintf("all commands with %d parameters out of all words of up to %d symbols out of %q; distinct: texts", params, n, symbols))
		total := 1
		for i := 0; i <= params; i++ {
			total *= len(words)
		}
		for v := 0; v < total; v++ {
			if !e.Mine(v) {
				continue
			}
			c := parser.ParsedCommand{Command: words[v%len(words)], Parameters: []string{}}
			for i, x := 0, v/len(words); i < params; i, x = i+1, x/len(words) {
				c.Parameters = append(c.Parameters, words[x%len(words)])
			}
			e.Case(func() string { return fmt.Sprintf("%q %q", c.Command, c.Parameters) })
			e.Try(func() {
				s := c.Unparse()
				back := parser.ParseCommand(s)
				e.Assert(back.Command == c.Command && fmt.Sprintf("%q", back.Parameters) == fmt.Sprintf("%q", c.Parameters), "roundtrip",
					"written as %q, which means %q %q", s, back.Command, back.Parameters)
				e.DistinctH(mc.Hash(s))
				e.Step(1)
			})
		}
	}
}

// c24Check completes what stands before the cursor.
func c24Check(e *mc.E, line []rune, pos int) {
	e.Case(func() string { return fmt.Sprintf("%q with the cursor at %d", string(line), pos) })
	typed := string(line[:pos])
	words, open := refSplit(typed)
	word := ""
	if open {
		word = words[len(words)-1]
		words = words[:len(words)-1]
	}
	options := []string{}
	if len(words) == 0 {
		options = append(options, "clear", "exit")
		for _, c := range commands {
			options = append(options, c.Name)
		}
	} else {
		for _, c := range commands {
			if c.Name == words[0] {
				options = c.Options(word, len(words)-1)
			}
		}
	}
	want := map[string]bool{}
	for _, o := range options {
		if strings.HasPrefix(o, word) {
			want[o] = true
		}
	}
	e.Try(func() {
		sac := &sshAutoCompleter{}
		before := string(line)
		got, _ := sac.Do(line, pos)
		e.Assert(string(line) == before, "line", "the line itself was changed to %q", string(line))
		seen := map[string]bool{}
		for _, g := range got {
			w, _ := refSplit(typed + string(g))
			ok := len(w) == len(words)+1
			for i := 0; ok && i < len(words); i++ {
				ok = w[i] == words[i]
			}
			e.Assert(ok && want[w[len(w)-1]], "offer", "offers %q, which makes %q out of %q", string(g), w, typed)
			seen[w[len(w)-1]] = true
		}
		for o := range want {
			e.Assert(seen[o], "missing", "does not offer %q", o)
		}
		if len(got) > 0 {
			ks := []string{}
			for k := range seen {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			e.DistinctH(mc.Hash(len(words), ks, word))
		}
		e.Step(1)
	})
}

func c24Complete(names []string, options [][]string, symbols []string, n int, prefix string) func(*mc.E) {
	return func(e *mc.E) {
		e.Rule(fmt.Sprintf("all lines of up to %d symbols out of %q after %q and all cursor positions, against commands %q with options %q; distinct: non-empty offers", n, symbols, prefix, names, options))
		old := commands
		commands = append([]Command{}, old...)
		defer func() { commands = old }()
		for i, name := range names {
			name, filter := name, i%2 == 1
			RegisterCommand(Command{Name: name, OptionsFunc: func(p string, arg int) []string {
				if arg >= len(options) {
					return []string{}
				}
				r := []string{}
				for _, o := range options[arg] {
					if !filter || strings.HasPrefix(o, p) {
						r = append(r, o)
					}
				}
				return r
			}})
		}
		RegisterCommand(Command{Name: "none"})
		allLines(symbols, n, func(i int, s string) {
			if !e.Mine(i) {
				return
			}
			line := []rune(prefix + s)
			for pos := 0; pos <= len(line); pos++ {
				c24Check(e, line, pos)
			}
		})
	}
}

func TestMC(t *testing.T) {
	opts := [][]string{{"a", "ab", "a b", "a\\b", "ü", "üa", "a ", " a", "\\", "\\ ", "b\\\\", "a/", "日本 語"}, {"b", " ", "a\\ b"}}
	mc.Main(t, []mc.Scenario{
		{Name: "roundtrip1", Enum: c24RoundTrip([]string{"a", " ", "\\", "ü", "\""}, 4, 0), Shards: 1},
		{Name: "roundtrip2", Enum: c24RoundTrip([]string{"a", " ", "\\", "語"}, 4, 1), Shards: 6},
		{Name: "roundtrip3", Enum: c24RoundTrip([]string{"a", " ", "\\"}, 3, 2), Shards: 6},
		{Name: "roundtrip4", Enum: c24RoundTrip([]string{"a", " ", "\\"}, 3, 3), Shards: 8, Thorough: true},
		{Name: "complete", Enum: c24Complete([]string{"a", "aü", "b a"}, opts, []string{"a", " ", "\\", "ü"}, 7, ""), Shards: 8},
		{Name: "argument", Enum: c24Complete([]string{"do"}, opts, []string{"a", "b", " ", "\\"}, 7, "do"), Shards: 8},
		{Name: "spaces", Enum: c24Complete([]string{"do", "do it"}, opts, []string{" ", "\\", "a"}, 9, " do"), Shards: 6},
		{Name: "names", Enum: c24Complete([]string{"el", "cle", "exits"}, opts, []string{"c", "l", "e", "x", " ", "h"}, 6, ""), Shards: 6},
		{Name: "case", Enum: c24Complete([]string{"do", "Do", "DO", "dÜ"}, [][]string{{"a", "A", "Ab", "aB", "AB", "ü", "Üa", "ﬀ", "K"}}, []string{"a", "A", "b", "B", "Ü"}, 3, "do "), Shards: 2},
		{Name: "casenames", Enum: c24Complete([]string{"do", "Do", "DO", "dÜ", "Exit", "EXIT"}, [][]string{{"a", "A", "ü", "Ü"}}, []string{"d", "D", "o", "O", "E", "e", "x", " ", "Ü"}, 4, ""), Shards: 4},
		{Name: "completedeep", Enum: c24Complete([]string{"a", "aü", "b a"}, opts, []string{"a", "b", " ", "\\", "ü"}, 8, ""), Shards: 8, Thorough: true},
	})
}
