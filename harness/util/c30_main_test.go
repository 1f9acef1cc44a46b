package util

import (
	"errors"
	"fmt"
	"strings"
	"testing"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C30: error collection reports every error added, exactly once.

type c30Sc struct {
	adders  []int // number of errors each of them adds
	rounds  int   // after each round, everything is collected
	readers int   // collecting concurrently
	same    bool  // all errors have the same text
}

func (sc c30Sc) body() {
	ec := &ErrorCollector{}
	state := map[string]int{} // 1: being added, 2: added
	sh := &mc.Shared{}
	text := func(r, a, i int) string {
		if sc.same {
			return "<failure>"
		}
		return fmt.Sprintf("<%d-%d-%d>", r, a, i)
	}
	total := 0
	check := func(err error, must map[string]int, exact bool) {
		n := 0
		for _, c := range must {
			n += c
		}
		if err == nil {
			mc.Assert(n == 0, "missing", "no error although %v were added", must)
			return
		}
		s := err.Error()
		mc.Assert(strings.Contains(s, "base message"), "base", "error %q does not name the base message", s)
		mc.Assert(strings.Count(s, "base message") == 1, "base", "error %q names the base message several times", s)
		got := strings.Count(s, "<")
		if exact {
			mc.Assert(got == n, "number", "error %q instead of %v", s, must)
		}
		mc.Assert(got > 0, "empty", "an error %q without any failure", s)
		for k, c := range must {
			x := strings.Count(s, k)
			mc.Assert(x >= c && (!exact || x == c), "each", "%d times %s in %q, added %d times", x, k, s, c)
		}
		if !sc.same {
			for k := range state {
				mc.Assert(strings.Count(s, k) <= 1, "twice", "%s twice in %q", k, s)
			}
			for _, part := range strings.Split(s, "<")[1:] {
				k := "<" + part[:strings.Index(part, ">")+1]
				mc.Assert(state[k] > 0, "invented", "%s in %q was never added", k, s)
			}
		} else {
			mc.Assert(got <= total, "twice", "error %q with %d failures although %d were added", s, got, total)
		}
	}
	if err := ec.Err("base message"); err != nil {
		mc.Fail("nothing", "error %v of an empty collector", err)
	}
	all := map[string]int{}
	for r := 0; r < sc.rounds; r++ {
		hs := []*mc.Handle{}
		for a, n := range sc.adders {
			a, n := a, n
			hs = append(hs, mc.GoNamed(fmt.Sprintf("adder%d", a), func() {
				for i := 0; i < n; i++ {
					k := text(r, a, i)
					sh.Access("adding")
					state[k] |= 1
					total++
					ec.Add(errors.New(k))
					sh.Access("added")
					state[k] |= 2
				}
			}))
			for i := 0; i < n; i++ {
				all[text(r, a, i)]++
			}
		}
		for i := 0; i < sc.readers; i++ {
			hs = append(hs, mc.GoNamed("reader", func() {
				must := map[string]int{}
				sh.Access("before reading")
				for k, s := range state {
					if s&2 == 2 {
						must[k] = 1
					}
				}
				err := ec.Err("base message")
				sh.Access("after reading")
				check(err, must, false)
			}))
		}
		mc.Join(hs...)
		ec.Wait()
		err := ec.Err("base message")
		check(err, all, true)
		again := ec.Err("base message")
		check(again, all, true)
		check(err, all, true)
	}
	mc.Outcome(fmt.Sprint(ec.Err("base message")))
}

func TestMC(t *testing.T) {
	scs := []mc.Scenario{}
	add := func(name string, sc c30Sc, thorough bool) {
		if sc.rounds == 0 {
			sc.rounds = 1
		}
		scs = append(scs, mc.Scenario{Name: name, Body: sc.body, MaxSteps: 3000, Thorough: thorough})
	}
	add("nothing", c30Sc{readers: 1}, false)
	add("one", c30Sc{adders: []int{1}}, false)
	add("sequence", c30Sc{adders: []int{3}}, false)
	add("two", c30Sc{adders: []int{1, 1}}, false)
	add("three", c30Sc{adders: []int{1, 1, 1}}, false)
	add("two_two", c30Sc{adders: []int{2, 2}}, false)
	add("rounds", c30Sc{adders: []int{1, 1}, rounds: 2}, false)
	add("reader", c30Sc{adders: []int{1, 1}, readers: 1}, false)
	add("reader_sequence", c30Sc{adders: []int{2}, readers: 1}, false)
	add("reader_rounds", c30Sc{adders: []int{1}, readers: 1, rounds: 2}, false)
	add("readers", c30Sc{adders: []int{1}, readers: 2}, false)
	add("same", c30Sc{adders: []int{2, 1}, same: true}, false)
	add("deep", c30Sc{adders: []int{2, 2}, readers: 1, rounds: 2}, true)
	mc.Main(t, scs)
}
