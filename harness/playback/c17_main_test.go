package playback

import (
	"fmt"
	"math"
	"testing"

	mc "github.com/LogicalOverflow/music-sync/zzmc"
)

// C17: output samples are the scaled, clipped input.

func c17Ideal(v float64) float64 {
	v *= 32768
	if v < -32768 {
		return -32768
	}
	if v > 32767 {
		return 32767
	}
	return v
}

func c17Int(low, high byte) int { return int(int16(uint16(low) | uint16(high)<<8)) }

// every quantisation interval, at and around its borders
func c17Convert(e *mc.E) {
	e.Rule("sample values around every one of the 65536 quantisation borders (and beyond full scale): the border, its neighbouring floats, and points inside; plus extreme floats; compared with exact scaling and with each other for monotonicity")
	last, lastV := math.MinInt32, math.Inf(-1)
	one := func(v float64) {
		e.Case(func() string { return fmt.Sprintf("sample %v (%b)", v, v) })
		l, h := convertSampleToBytes(v)
		got := c17Int(l, h)
		e.Assert(math.Abs(float64(got)-c17Ideal(v)) <= 1, "value", "%v becomes %d, ideal is %v", v, got, c17Ideal(v))
		e.Assert(got >= last, "monotone", "%v becomes %d, but %v became %d", v, got, lastV, last)
		last, lastV = got, v
		e.DistinctH(mc.Hash(got))
		e.Step(1)
	}
	for _, v := range []float64{math.Inf(-1), -math.MaxFloat64, -1e300, -65536, -1000, -3, -2} {
		one(v)
	}
	for k := -49152; k <= 49152; k++ {
		b := float64(k) / 32768
		for _, v := range []float64{math.Nextafter(b, -10), b, math.Nextafter(b, 10), b + .25/32768, b + .5/32768, b + .75/32768} {
			one(v)
		}
	}
	for _, v := range []float64{2, 3, 1000, 65536, 1e300, math.MaxFloat64, math.Inf(1)} {
		one(v)
	}
	last = math.MinInt32
	for _, v := range []float64{-math.SmallestNonzeroFloat64, math.Copysign(0, -1), 0, math.SmallestNonzeroFloat64} {
		one(v)
	}
}

// whole buffers: channels, byte order, volume
func c17Buffers(e *mc.E) {
	e.Rule("buffers of every length up to 4 with left and right samples from a set of values from far below to far above full scale, at volumes from 0 to 2")
	vals := []float64{-3, -1.00001, -1, -.99999, -.5, -.1, -1.0 / 32768, 0, 1.0 / 65536, 1.0 / 32768, .1, .3, .5, .99996, .99997, .99999, 1, 1.00001, 2.5}
	vols := []float64{0, .001, .1, .25, .33333, .5, .75, .9, .99999, 1, 1.00001, 1.5, 2}
	old := volume
	defer func() { volume = old }()
	for vi, vol := range vols {
		if !e.Mine(vi) {
			continue
		}
		for n := 1; n <= 4; n++ {
			for i := range vals {
				for j := range vals {
					in := make([][2]float64, n)
					given := make([][2]float64, n) // buffers may be changed in place
					for k := range in {
						in[k] = [2]float64{vals[(i+k)%len(vals)], vals[(j+3*k)%len(vals)]}
					}
					copy(given, in)
					e.Case(func() string { return fmt.Sprintf("volume %v samples %v", vol, given) })
					buf := make([]byte, 4*n)
					for k := range buf {
						buf[k] = 0xA5
					}
					SetVolume(vol)
					samplesToAudioBuf(in, buf)
					for k := range in {
						for c := 0; c < 2; c++ {
							got := c17Int(buf[4*k+2*c], buf[4*k+2*c+1])
							want := c17Ideal(given[k][c] * vol)
							e.Assert(math.Abs(float64(got)-want) <= 1, "buffer", "sample %d channel %d is %d, ideal is %v", k, c, got, want)
						}
					}
					e.Step(n)
					e.DistinctH(mc.Hash(string(buf)))
				}
			}
		}
	}
}

func c17Combine(e *mc.E) {
	e.Rule("channel lists of every pair of lengths up to 12")
	for a := 0; a <= 12; a++ {
		for b := 0; b <= 12; b++ {
			low, high := make([]float64, a), make([]float64, b)
			for i := range low {
				low[i] = float64(i) + .5
			}
			for i := range high {
				high[i] = -float64(i) - .25
			}
			e.Case(func() string { return fmt.Sprintf("%d low, %d high", a, b) })
			e.Try(func() {
				r := CombineSamples(low, high)
				n := a
				if b < n {
					n = b
				}
				e.Assert(len(r) == n, "length", "%d pairs", len(r))
				for i := range r {
					e.Assert(r[i] == [2]float64{float64(i) + .5, -float64(i) - .25}, "pair", "pair %d is %v", i, r[i])
				}
				for i := range low {
					e.Assert(low[i] == float64(i)+.5, "input", "the input was changed")
				}
			})
			e.DistinctH(mc.Hash(a, b))
			e.Step(1)
		}
	}
}

func TestMC(t *testing.T) {
	mc.Main(t, []mc.Scenario{
		{Name: "convert", Enum: c17Convert},
		{Name: "buffers", Enum: c17Buffers, Shards: 4},
		{Name: "combine", Enum: c17Combine},
	})
}
