package playback

import (
	"fmt"
	"testing"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C14: the player's sample queue is a bounded FIFO that never loses a wake-up.

func c14Sample(id int) ([2]float64, int64) {
	return [2]float64{float64(id) + .25, -float64(id) - .5}, int64(id)*1000 + 7
}

func c14ID(s [2]float64, t int64) (int, bool) {
	id := int((t - 7) / 1000)
	ws, wt := c14Sample(id)
	return id, ws == s && wt == t
}

type c14Spec struct {
	name      string
	cap       int
	pre       int   // samples added and removed before, to move head and tail
	producers []int // number of samples each adds
	consumers []int // number each removes
	peekers   []int
	lens      []int
	thorough  bool
	maxBound  int
}

var c14Hist mc.History

func c14Body(sp c14Spec) func() {
	return func() {
		q := newTimedSampleQueue(sp.cap)
		for i := 0; i < sp.pre; i++ {
			q.Add(c14Sample(900 + i))
			q.Remove()
		}
		total := 0
		for p, n := range sp.producers {
			p, n := p, n
			total += n
			mc.GoNamed(fmt.Sprintf("producer%d", p), func() {
				for i := 0; i < n; i++ {
					id := p*10 + i
					op := c14Hist.Begin("add", id)
					q.Add(c14Sample(id))
					c14Hist.End(op, 0)
				}
			})
		}
		removed := 0
		for c, n := range sp.consumers {
			n := n
			removed += n
			mc.GoNamed(fmt.Sprintf("consumer%d", c), func() {
				for i := 0; i < n; i++ {
					op := c14Hist.Begin("remove", 0)
					id, ok := c14ID(q.Remove())
					mc.Assert(ok, "garbled", "a removed sample does not have its own time stamp")
					c14Hist.End(op, id)
				}
			})
		}
		for c, n := range sp.peekers {
			n := n
			mc.GoNamed(fmt.Sprintf("peeker%d", c), func() {
				for i := 0; i < n; i++ {
					op := c14Hist.Begin("peek", 0)
					id, ok := c14ID(q.Peek())
					mc.Assert(ok, "garbled", "a peeked sample does not have its own time stamp")
					c14Hist.End(op, id)
				}
			})
		}
		for c, n := range sp.lens {
			n := n
			mc.GoNamed(fmt.Sprintf("len%d", c), func() {
				for i := 0; i < n; i++ {
					op := c14Hist.Begin("len", 0)
					l := q.Len()
					mc.Assert(0 <= l && l <= sp.cap, "len-range", "length %d outside 0..%d", l, sp.cap)
					c14Hist.End(op, l)
				}
			})
		}
		mc.Quiesce()
		ops := c14Hist.Current()
		mc.Assert(mc.Linearize(ops, "", c14Step(sp.cap), func(st interface{}) bool { return true }), "not-fifo",
			"history is not that of a bounded FIFO queue: %s", mc.HistoryString(ops))
		// who still waits must be justified: the final state decides who may proceed
		pendAdd, pendTake, pendLen, in, out := 0, 0, 0, 0, 0
		for _, o := range ops {
			switch {
			case o.Name == "add" && o.Ret >= 0:
				in++
			case o.Name == "add":
				pendAdd++
			case o.Name == "remove" && o.Ret >= 0:
				out++
			case (o.Name == "remove" || o.Name == "peek") && o.Ret < 0:
				pendTake++
			case o.Name == "len" && o.Ret < 0:
				pendLen++
			}
		}
		fill := in - out
		mc.Outcome(fmt.Sprint(fill, pendAdd, pendTake))
		mc.Assert(pendAdd == 0 || fill >= sp.cap, "lost-wakeup", "a producer sleeps although only %d of %d places are taken: %s", fill, sp.cap, mc.HistoryString(ops))
		mc.Assert(pendTake == 0 || fill <= 0, "lost-wakeup", "a consumer sleeps although %d samples are queued: %s", fill, mc.HistoryString(ops))
		mc.Assert(pendLen == 0 || pendAdd+pendTake > 0, "len-blocked", "Len never returns although nobody waits")
		if pendAdd+pendTake+pendLen == 0 {
			mc.Assert(q.Len() == fill && q.Cap() == sp.cap, "len", "Len is %d after %d adds and %d removes", q.Len(), in, out)
		}
	}
}

// c14Step: the queue content is a string of comma-terminated ids.
func c14Step(capacity int) func(st interface{}, op *mc.LinOp) (bool, interface{}) {
	return func(st interface{}, op *mc.LinOp) (bool, interface{}) {
		s := st.(string)
		n := 0
		for _, c := range s {
			if c == ',' {
				n++
			}
		}
		headIs := func(id int) (bool, string) {
			p := fmt.Sprintf("%d,", id)
			if len(s) >= len(p) && s[:len(p)] == p {
				return true, s[len(p):]
			}
			return false, ""
		}
		switch op.Name {
		case "add":
			return n < capacity, s + fmt.Sprintf("%d,", op.In.(int))
		case "remove":
			if op.Ret < 0 { // pending: may take whatever is at the head
				for i := range s {
					if s[i] == ',' {
						return true, s[i+1:]
					}
				}
				return false, s
			}
			ok, rest := headIs(op.Out.(int))
			return ok, rest
		case "peek":
			if op.Ret < 0 {
				return false, s
			}
			ok, _ := headIs(op.Out.(int))
			return ok, s
		case "len":
			return op.Ret >= 0 && op.Out.(int) == n, s
		}
		return false, s
	}
}

// all operation sequences on a small queue against a slice
func c14Seq(e *mc.E) {
	e.Rule("every sequence of add/remove/peek/len of the given depth on a queue of capacity 1..4 in which no operation would block, compared with a slice; non-trivial: distinct (capacity, content lengths over time)")
	depth := mc.Pick(10, 12)
	for capacity := 1; capacity <= 4; capacity++ {
		if !e.Mine(capacity - 1) {
			continue
		}
		ops := make([]byte, 0, depth)
		var rec func()
		rec = func() {
			if len(ops) == depth {
				seq := string(ops)
				e.Case(func() string { return fmt.Sprintf("cap %d ops %s", capacity, seq) })
				e.Try(func() { c14RunSeq(e, capacity, seq) })
				return
			}
			n := 0
			for _, o := range ops {
				switch o {
				case 'a':
					n++
				case 'r':
					n--
				}
			}
			if n < capacity {
				ops = append(ops, 'a')
				rec()
				ops = ops[:len(ops)-1]
			}
			if n > 0 {
				ops = append(ops, 'r')
				rec()
				ops[len(ops)-1] = 'p'
				rec()
				ops = ops[:len(ops)-1]
			}
		}
		rec()
	}
}

func c14RunSeq(e *mc.E, capacity int, seq string) {
	q := newTimedSampleQueue(capacity)
	model := []int{}
	next := 1
	key := make([]byte, 0, 32)
	check := func(cond bool, what string) { e.Assert(cond, what, "%s with model %v", what, model) }
	for _, o := range []byte(seq) {
		switch o {
		case 'a':
			q.Add(c14Sample(next))
			model = append(model, next)
			next++
		case 'r':
			id, ok := c14ID(q.Remove())
			check(ok && id == model[0], "remove")
			model = model[1:]
		case 'p':
			id, ok := c14ID(q.Peek())
			check(ok && id == model[0], "peek")
		}
		check(q.Len() == len(model), "len")
		check(q.Cap() == capacity, "cap")
		key = append(key, byte('0'+len(model)))
		e.Step(1)
	}
	e.Distinct(fmt.Sprint(capacity, string(key)))
	e.State(fmt.Sprint(capacity, model, next))
}

func TestMC(t *testing.T) {
	specs := []c14Spec{
		{name: "1p1c_cap1", cap: 1, producers: []int{3}, consumers: []int{3}},
		{name: "1p1c_cap2_wrap", cap: 2, pre: 3, producers: []int{4}, consumers: []int{4}},
		{name: "1p1c1peek_cap1", cap: 1, producers: []int{2}, consumers: []int{2}, peekers: []int{2}},
		{name: "2p1c_cap1", cap: 1, producers: []int{2, 1}, consumers: []int{3}},
		{name: "1p2c_cap1", cap: 1, producers: []int{3}, consumers: []int{1, 2}},
		{name: "2p2c_cap1", cap: 1, producers: []int{1, 1}, consumers: []int{1, 1}},
		{name: "2p2c_cap2", cap: 2, pre: 1, producers: []int{2, 1}, consumers: []int{2, 1}},
		{name: "starved_cap1", cap: 1, producers: []int{2}, consumers: []int{2, 2}, peekers: []int{1}},
		{name: "flooded_cap2", cap: 2, producers: []int{3, 3}, consumers: []int{2}},
		{name: "len_cap1", cap: 1, producers: []int{3}, consumers: []int{3}, lens: []int{2}},
		{name: "len_cap2", cap: 2, pre: 1, producers: []int{2, 1}, consumers: []int{3}, lens: []int{1, 1}},
		{name: "peek2_cap2", cap: 2, pre: 2, producers: []int{3}, consumers: []int{3}, peekers: []int{1, 1}},
		{name: "3p3c_cap2", cap: 2, producers: []int{1, 1, 1}, consumers: []int{1, 1, 1}},
		{name: "3p3c_cap1", cap: 1, pre: 1, producers: []int{2, 1, 1}, consumers: []int{2, 1, 1}, thorough: true},
		{name: "2p2c2peek_cap2", cap: 2, pre: 3, producers: []int{2, 2}, consumers: []int{2, 2}, peekers: []int{1, 1}, thorough: true},
		{name: "all_cap3", cap: 3, pre: 2, producers: []int{3, 2}, consumers: []int{2, 3}, peekers: []int{1}, lens: []int{2}, thorough: true},
	}
	scs := []mc.Scenario{{Name: "sequences", Enum: c14Seq, Shards: 4}}
	for _, sp := range specs {
		scs = append(scs, mc.Scenario{Name: sp.name, Body: c14Body(sp), Thorough: sp.thorough, MaxSteps: 4000})
	}
	mc.Main(t, scs)
}
