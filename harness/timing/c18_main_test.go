package timing

import (
	"fmt"
	"math/big"
	"testing"
	"time"

	"github.com/LogicalOverflow/music-sync/logging"
	mc "github.com/LogicalOverflow/music-sync/zzmc"
	"github.com/LogicalOverflow/music-sync/zzmc/fakemono"
)

// C18: the clock offset is the mean of a full round of measurements.

var c18Clock int64

func c18Offset(e *mc.E) int64 {
	raw := GetRawTime()
	e.Assert(raw == c18Clock, "raw", "raw time is %d while the clock shows %d", raw, c18Clock)
	return GetSyncedTime() - raw
}

// c18Fresh: no round is running and the offset is off.
func c18Fresh(e *mc.E, off int64) {
	ResetOffsets(1)
	UpdateOffset(0, off, off, 0)
	e.Assert(c18Offset(e) == off, "single", "a round of the single offset %d gives the offset %d", off, c18Offset(e))
}

// c18Near: off is the mean of the n doubled offsets summing up to sum2.
func c18Near(off, sum2 int64, n int) bool {
	d := 2*int64(n)*off - sum2
	return -3*int64(n) <= d && d <= 3*int64(n)
}

func c18Accuracy(cycles int, delays, thetas, bases, thinks []int64) func(*mc.E) {
	return func(e *mc.E) {
		e.Rule(fmt.Sprintf("all rounds of %d measurements over network delays %v in each direction, true offsets %v, client times %v, server delays %v; distinct: resulting errors", cycles, delays, thetas, bases, thinks))
		n := len(delays)
		total := 1
		for i := 0; i < 2*cycles; i++ {
			total *= n
		}
		for _, theta := range thetas {
			for _, base := range bases {
				for _, think := range thinks {
					for v := 0; v < total; v++ {
						if !e.Mine(v) {
							continue
						}
						e.Case(func() string {
							return fmt.Sprintf("true offset %d, start %d, server delay %d, delays #%d", theta, base, think, v)
						})
						prev := int64(-12345)
						c18Clock = base
						c18Fresh(e, prev)
						ResetOffsets(cycles)
						t := base
						worst := int64(0)
						for i, x := 0, v; i < cycles; i++ {
							e.Assert(c18Offset(e) == prev, "early", "after %d of %d measurements the offset changed from %d to %d", i, cycles, prev, c18Offset(e))
							up, down := delays[x%n], delays[x/n%n]
							x /= n * n
							sr := t + up + theta
							ss := sr + think
							cr := t + up + think + down
							c18Clock = cr
							UpdateOffset(t, sr, ss, cr)
							if d := up - down; d > worst {
								worst = d
							} else if -d > worst {
								worst = -d
							}
							t = cr + 7
							e.Step(1)
						}
						err := c18Offset(e) - theta
						e.Assert(2*err <= worst+3 && 2*err >= -worst-3, "accuracy", "offset %d although the true offset is %d and the largest asymmetry %d", theta+err, theta, worst)
						e.DistinctH(uint64(err) ^ uint64(worst)<<32)
						e.State(err)
					}
				}
			}
		}
	}
}

func c18Histories(depth int, rounds []int, offs []int64, asym int64) func(*mc.E) {
	return func(e *mc.E) {
		nops := len(rounds) + len(offs)
		total := 1
		for i := 0; i < depth; i++ {
			total *= nops
		}
		e.Rule(fmt.Sprintf("all histories of %d operations, each the start of a round of %v measurements or a measurement with an offset of %v; distinct: sequences of offsets", depth, rounds, offs))
		for v := 0; v < total; v++ {
			if !e.Mine(v) {
				continue
			}
			e.Case(func() string {
				s := ""
				for i, x := 0, v; i < depth; i, x = i+1, x/nops {
					if o := x % nops; o < len(rounds) {
						s += fmt.Sprintf("round(%d) ", rounds[o])
					} else {
						s += fmt.Sprintf("measured(%d) ", offs[o-len(rounds)])
					}
				}
				return s
			})
			c18Clock = 1000
			c18Fresh(e, 77)
			want, exact := int64(77), true // the offset, or a doubled sum and a number
			sum, num, left := int64(0), 0, 0
			lastSum, lastNum := int64(0), 0
			h := uint64(v % 2)
			for i, x := 0, v; i < depth; i, x = i+1, x/nops {
				if o := x % nops; o < len(rounds) {
					ResetOffsets(rounds[o])
					sum, num, left = 0, 0, rounds[o]
				} else {
					off := offs[o-len(rounds)]
					// sent at clock-20, received at the server after 10-asym, back after 10+asym
					UpdateOffset(c18Clock-20, c18Clock-10+off, c18Clock-10+off, c18Clock)
					if left > 0 {
						left--
						sum += 2 * off
						num++
						if left == 0 {
							exact, lastSum, lastNum = false, sum, num
						}
					}
				}
				c18Clock += 5
				got := c18Offset(e)
				if exact {
					e.Assert(got == want, "changed", "operation %d changes the offset from %d to %d although no round was completed", i, want, got)
				} else {
					e.Assert(c18Near(got, lastSum, lastNum), "mean", "after operation %d the offset is %d instead of the mean of the last complete round %d/%d", i, got, lastSum, 2*lastNum)
					exact, want = true, got
				}
				h = h*1099511628211 ^ uint64(got)
				e.Step(1)
			}
			e.DistinctH(h)
			e.State(fmt.Sprint(sum, num, left, want))
		}
	}
}

// c18Grid: single measurements over a grid of four timestamps.
func c18Grid(vals []int64) func(*mc.E) {
	return func(e *mc.E) {
		e.Rule(fmt.Sprintf("all pairs of measurements whose four timestamps are among %v; distinct: offsets", vals))
		n := len(vals)
		for v := 0; v < n*n*n*n*n; v++ {
			if !e.Mine(v) {
				continue
			}
			a, b, c, d, f := vals[v%n], vals[v/n%n], vals[v/n/n%n], vals[v/n/n/n%n], vals[v/n/n/n/n]
			e.Case(func() string { return fmt.Sprintf("measurements (%d,%d,%d,%d), (0,%d,%d,0)", a, b, c, d, f, f) })
			c18Clock = 5
			ResetOffsets(2)
			UpdateOffset(a, b, c, d)
			UpdateOffset(0, f, f, 0)
			got := c18Offset(e)
			e.Assert(c18Near(got, (b-a)+(c-d)+2*f, 2), "mean", "offset %d instead of %d/4", got, (b-a)+(c-d)+2*f)
			e.DistinctH(uint64(got))
			e.Step(2)
		}
	}
}

// c18Large: many measurements of large offsets.
func c18Large(e *mc.E) {
	counts, offs, spreads := []int{1, 2, 3, 10, 100, 500, 1000}, []int64{26e15, 9e15, 1e18, 1 << 60, 1<<60 + 1, 1 << 61}, []int64{0, 1, 1000, 1e15}
	e.Rule(fmt.Sprintf("rounds of %v measurements of offsets of +/-%v, varying by %v, one of them possibly of the opposite sign; distinct: offsets", counts, offs, spreads))
	n := 0
	for _, count := range counts {
		for _, off := range offs {
			for _, spread := range spreads {
				for v := 0; v < 4; v++ {
					if n++; !e.Mine(n) {
						continue
					}
					o := off
					if v&1 == 1 {
						o = -off
					}
					e.Case(func() string { return fmt.Sprintf("%d measurements of %d, varying by %d, way %d", count, o, spread, v) })
					c18Clock = 1e9
					c18Fresh(e, 3)
					ResetOffsets(count)
					sum := big.NewInt(0)
					for i := 0; i < count; i++ {
						e.Assert(c18Offset(e) == 3, "early", "the offset changes after %d of %d measurements", i, count)
						x := o + int64(i%7-3)*spread
						if v&2 == 2 && i == count-1 {
							x = -x
						}
						sum.Add(sum, big.NewInt(x))
						UpdateOffset(c18Clock-2, c18Clock-1+x, c18Clock-1+x, c18Clock)
						e.Step(1)
					}
					got := c18Offset(e)
					d := sum.Sub(new(big.Int).Mul(big.NewInt(got), big.NewInt(int64(count))), sum)
					e.Assert(d.CmpAbs(big.NewInt(int64(2*count))) <= 0, "mean", "the offset is %d", got)
					e.DistinctH(uint64(got))
				}
			}
		}
	}
}

func TestMC(t *testing.T) {
	log.DefaultCutoffLevel = log.LevelOff
	monotime.Fixed = func() int64 { return c18Clock }
	ms := int64(time.Millisecond)
	huge := int64(1) << 58
	mc.Main(t, []mc.Scenario{
		{Name: "accuracy1", Enum: c18Accuracy(1, []int64{0, 1, 2, 3, 100, ms, 50 * ms, 3000 * ms}, []int64{0, 1, -1, 2, -7, 1000, -ms, 86400 * 1000 * ms, huge, -huge}, []int64{0, 1, 999, 1e15, huge}, []int64{0, 1, ms}), Shards: 2},
		{Name: "accuracy2", Enum: c18Accuracy(2, []int64{0, 1, 2, 7, ms, 3000 * ms}, []int64{0, 1, -1, -7, 86400 * 1000 * ms, huge}, []int64{0, 1e15}, []int64{0, 3}), Shards: 2},
		{Name: "accuracy3", Enum: c18Accuracy(3, []int64{0, 1, 5, 300 * ms}, []int64{0, 1, -3, -huge}, []int64{1e12}, []int64{0, 3}), Shards: 4},
		{Name: "accuracy4", Enum: c18Accuracy(4, []int64{0, 1, 5, 300 * ms}, []int64{0, 1, -3, -huge}, []int64{1e12}, []int64{0, 3}), Shards: 8, Thorough: true},
		{Name: "histories", Enum: c18Histories(7, []int{1, 2, 3}, []int64{-8, 0, 5, huge}, 0), Shards: 8},
		{Name: "rounds0", Enum: c18Histories(6, []int{0, 1, 4}, []int64{-1, 3, 1 << 40}, 0), Shards: 2},
		{Name: "historiesdeep", Enum: c18Histories(9, []int{2, 3}, []int64{-8, 0, 5, huge}, 0), Shards: 8, Thorough: true},
		{Name: "large", Enum: c18Large, Shards: 2},
		{Name: "grid", Enum: c18Grid([]int64{0, 1, -1, 2, 3, -7, 1e9, 1e18, -1e17}), Shards: 4},
	})
}
