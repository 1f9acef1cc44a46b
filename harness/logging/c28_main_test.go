package log

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C28: log messages appear exactly when their level and subsystem setting say so.

var c28Names = map[Level][2]string{LevelTrace: {"TRACE", "TRC"}, LevelDebug: {"DEBUG", "DBG"}, LevelInfo: {"INFO", "INF"},
	LevelWarn: {"WARN", "WRN"}, LevelError: {"ERROR", "ERR"}, LevelFatal: {"FATAL", "FTL"}}

func c28Log(l Logger, lv Level, form int, msg string) {
	if form == 0 {
		[]func(string){l.Trace, l.Debug, l.Info, l.Warn, l.Error, l.Fatal}[lv](msg)
	} else {
		[]func(string, ...interface{}){l.Tracef, l.Debugf, l.Infof, l.Warnf, l.Errorf, l.Fatalf}[lv]("%s", msg)
	}
}

func c28Filter(names, others []string, msgs []string) func(*mc.E) {
	return func(e *mc.E) {
		e.Rule(fmt.Sprintf("all combinations of the levels of a message, of its subsystem %q (or none set), of another subsystem %q and of the default, of two ways to log, of four different settings at the time the logger was made and of the texts %q; distinct: outputs", names, others, msgs))
		oldL, oldD, oldO, oldE := CutoffLevels, DefaultCutoffLevel, OutputWriter, ErrorWriter
		defer func() { CutoffLevels, DefaultCutoffLevel, OutputWriter, ErrorWriter = oldL, oldD, oldO, oldE }()
		out, errs := &bytes.Buffer{}, &bytes.Buffer{}
		OutputWriter, ErrorWriter = out, errs
		v := 0
		for _, name := range names {
			// what was set when a logger was made, or first used, does not matter
			ls := []Logger{}
			for made := 0; made < 4; made++ {
				CutoffLevels = map[string]Level{}
				if made%2 == 1 {
					CutoffLevels[name] = []Level{LevelTrace, LevelOff}[made/2]
				}
				DefaultCutoffLevel = []Level{LevelTrace, LevelOff}[made/2]
				ls = append(ls, GetLogger(name))
				if made > 1 {
					ls[made].Info("used")
				}
			}
			for _, other := range others {
				if other == name {
					continue
				}
				for set := -1; set <= int(LevelOff); set++ {
					for oset := -1; oset <= int(LevelOff); oset++ {
						for def := LevelTrace; def <= LevelOff; def++ {
							v++
							if !e.Mine(v) {
								continue
							}
							CutoffLevels = map[string]Level{}
							if set >= 0 {
								CutoffLevels[name] = Level(set)
							}
							if oset >= 0 {
								CutoffLevels[other] = Level(oset)
							}
							DefaultCutoffLevel = def
							cut := def
							if set >= 0 {
								cut = Level(set)
							}
							for lv := LevelTrace; lv <= LevelFatal; lv++ {
								for form := 0; form < 2; form++ {
									for mi := 0; mi < len(msgs)*len(ls); mi++ {
										lv, form, msg, l := lv, form, msgs[mi%len(msgs)], ls[mi/len(msgs)]
										e.Case(func() string {
											return fmt.Sprintf("%q at %v of %s (set %d), %s set %d, default %d", msg, lv, name, set, other, oset, def)
										})
										out.Reset()
										errs.Reset()
										c28Log(l, lv, form, msg)
										want, not := out, errs
										if lv >= LevelWarn {
											want, not = errs, out
										}
										e.Assert(not.Len() == 0, "stream", "written to the wrong output: %q", not.String())
										if lv < cut {
											e.Assert(want.Len() == 0, "filter", "written: %q", want.String())
										} else {
											s := want.String()
											e.Assert(strings.HasSuffix(s, msg+"\n") && strings.Count(s, "\n") == 1+strings.Count(msg, "\n"), "message", "written %q", s)
											n := c28Names[lv]
											head := strings.TrimSuffix(s, msg+"\n")
											e.Assert(strings.Contains(head, n[0]) || strings.Contains(head, n[1]), "level", "level not named in %q", s)
											short := name
											if len(short) > 4 {
												short = short[:4]
											}
											e.Assert(strings.Contains(head, short), "name", "subsystem not named in %q", s)
											e.DistinctH(mc.Hash(name, lv, msg, form))
										}
										e.State(fmt.Sprint(lv, cut, want.Len() > 0))
										e.Step(1)
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

func TestMC(t *testing.T) {
	msgs := []string{"text", "", "{date} {message} {name} {lvl}", "two\nlines", "100%d", "日本"}
	mc.Main(t, []mc.Scenario{
		{Name: "filter", Enum: c28Filter([]string{"comm", "play", "ssh", "a", ""}, []string{"comm", "time", "com", "ssh "}, msgs), Shards: 8},
	})
}
