package main

import (
	"math"
	"math/rand/v2"
	"strings"

	"github.com/justyntemme/vst3go/pkg/dsp"
	"github.com/justyntemme/vst3go/pkg/dsp/delay"
	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"github.com/justyntemme/vst3go/pkg/dsp/filter"
	"github.com/justyntemme/vst3go/pkg/dsp/gain"
	"github.com/justyntemme/vst3go/pkg/dsp/mix"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
	"verif/harness/mon"
)

func named(k kind, prefixes ...string) bool {
	for _, p := range prefixes {
		if strings.HasPrefix(k.name, p) {
			return true
		}
	}
	return false
}

// linear processors: their gain does not depend on the signal.
func linear(k kind) bool {
	return named(k, "biquad", "svf", "dcblock", "delay", "chorus", "flanger", "phaser", "ringmod", "tremolo", "allpass-stage", "interp-allpass", "schroeder", "freeverb", "fdn", "damping", "autopan", "adsr-multiply")
}

// c08: a linear processor answers the sum of two signals with the sum of its answers.
func c08(r *mon.Run) {
	each(r, "linear", r.N(12, 400), linear, func(c *mon.C, k kind, sr float64, i int) {
		top := mon.Pick(c.Rand, 1, 1e-3, 20)
		if named(k, "phaser", "flanger", "chorus") { // their feedback path clips at full scale
			top = mon.LogUniform(c.Rand, 1e-4, 0.002)
		}
		n := 1 + c.Rand.IntN(4000)
		var x [2][2][]float32
		for s := range x {
			x[s] = [2][]float32{signal(c.Rand, n, sr), signal(c.Rand, n, sr)}
			for ch := range x[s] {
				for q := range x[s][ch] {
					x[s][ch][q] *= float32(top)
				}
			}
		}
		g := [2]float32{float32(mon.Uni(c.Rand, -2, 2)), float32(mon.Uni(c.Rand, -2, 2))}
		pow2 := i%3 == 0
		if pow2 { // louder and softer by a power of two: not even rounding changes
			g = [2]float32{float32(mon.Pick(c.Rand, 1.0/1024, 0.5, 4, -1, -2)), 0}
		}
		if i%6 == 1 { // one channel each
			clear(x[0][1])
			clear(x[1][0])
		}
		sum := [2][]float32{make([]float32, n), make([]float32, n)}
		for ch := range sum {
			for q := range sum[ch] {
				sum[ch][q] = g[0]*x[0][ch][q] + g[1]*x[1][ch][q]
			}
		}
		seed := c.Rand.Uint64()
		moved := i%2 == 1
		at0 := c.Rand.IntN(n)
		one := func(l, rr []float32) (a, b []float32) {
			u := k.mk(sr)
			settleAll(u, seed)
			settleAll(u, seed)
			cut := n
			if moved {
				cut = at0
			}
			a, b = run(u, l[:cut], rr[:cut])
			if moved {
				settleAll(u, seed+1)
				e, f := run(u, l[cut:], rr[cut:])
				a, b = append(a, e...), append(b, f...)
			}
			return
		}
		a0, b0 := one(x[0][0], x[0][1])
		a1, b1 := one(x[1][0], x[1][1])
		as, bs := one(sum[0], sum[1])
		rel := 1e-3
		if named(k, "biquad") { // single precision at 20 Hz and a Q of 20
			rel = 0.5
		}
		low := 1e-5
		if pow2 {
			rel, low = 1e-6, 1e-9
		}
		for ch, p := range [][3][]float32{{a0, a1, as}, {b0, b1, bs}} {
			tol := rel*(math.Abs(float64(g[0]))*float64(p1(p[0]))+math.Abs(float64(g[1]))*float64(p1(p[1]))) + low*top
			for q := range p[0] {
				w := float64(g[0])*float64(p[0][q]) + float64(g[1])*float64(p[1][q])
				if !(math.Abs(float64(p[2][q])-w) <= tol) {
					c.Failf("C08/"+k.name, "%g Hz, peak %g: %g and %g times two signals: sample %d of channel %d is %g, the sum of the answers is %g (%g and %g)", sr, top, g[0], g[1], q, ch, p[2][q], w, p[0][q], p[1][q])
					return
				}
			}
		}
		c.Evals(n)
		c.Distinct(k.name, seed, n)
	})
}

// steady processors keep no clock of their own: nothing runs on while they are fed silence. (An expander closes in
// silence, and a biased tube settles at its operating point.)
func steady(k kind) bool {
	return !k.gen && !named(k, "chorus", "flanger", "phaser", "ringmod", "tremolo", "autopan", "adsr", "delay-modulated", "tape", "bitcrusher", "fdn", "smooth", "expander", "tube")
}

// c09: what is played later sounds the same, later.
func c09(r *mon.Run) {
	each(r, "later", r.N(10, 300), steady, func(c *mon.C, k kind, sr float64, i int) {
		seed := c.Rand.Uint64()
		n := 1 + c.Rand.IntN(4000)
		l, rr := signal(c.Rand, n, sr), signal(c.Rand, n, sr)
		z := mon.Pick(c.Rand, 1+c.Rand.IntN(5), 64, 1+c.Rand.IntN(5000), 1+c.Rand.IntN(int(2*sr)))
		one := func(z int) (a, b []float32) {
			u := k.mk(sr)
			settleAll(u, seed)
			settleAll(u, seed)
			q := rand.New(rand.NewPCG(seed, 5))
			for s := make([]float32, 4096); z > 0; {
				m := min(z, 1+q.IntN(4096))
				a, b = run(u, s[:m], s[:m])
				if x := max(p1(a), p1(b)); x > 1e-6 {
					c.Failf("C09/silence/"+k.name, "%g Hz: fed silence from its start, gives %g", sr, x)
				}
				z -= m
			}
			return run(u, l, rr)
		}
		a0, b0 := one(0)
		a1, b1 := one(z)
		for ch, p := range [][2][]float32{{a0, a1}, {b0, b1}} {
			if at := diff(p[0], p[1], k.tol+1e-6*(1e-3+float64(p1(p[0])))); at >= 0 {
				c.Failf("C09/"+k.name, "%g Hz: sample %d of channel %d of the same signal is %g, and %g when it begins %d samples later", sr, at, ch, p[0][at], p[1][at], z)
				return
			}
		}
		c.Evals(n)
		c.Distinct(k.name, seed, n, z)
	})
}

// eq0 are the filters and functions that have a flat setting, as in-place functions.
func eq0(q *rand.Rand, sr float64) (string, func(l, r []float32)) {
	b := filter.NewBiquad(2)
	two := func(l, r []float32) { b.Process(l, 0); b.Process(r, 1) }
	fc, w, u := lg(q, 100, 0.45*sr), lg(q, 0.3, 20), lg(q, 0.5, 2)
	cp := func(x []float32) []float32 { return append([]float32(nil), x...) }
	switch q.IntN(16) {
	case 0:
		b.SetPeakingEQ(sr, fc, w, 0)
		return "peak", two
	case 1:
		b.SetLowShelf(sr, fc, u, 0)
		return "low-shelf", two
	case 2:
		b.SetHighShelf(sr, fc, u, 0)
		return "high-shelf", two
	case 3:
		return "width", func(l, r []float32) { pan.Width(cp(l), cp(r), 1, l, r) }
	case 4:
		return "balance", func(l, r []float32) { pan.Balance(cp(l), cp(r), 0, l, r) }
	case 5:
		return "dry", func(l, r []float32) { mix.DryWetBufferTo(cp(l), r, 0, l) }
	case 6:
		return "wet", func(l, r []float32) { x := cp(r); mix.DryWetBufferTo(l, x, 1, r) }
	case 7:
		return "gain", func(l, r []float32) { gain.ApplyBuffer(l, 1); gain.ApplyDbBuffer(r, 0) }
	case 8:
		return "fade", func(l, r []float32) { gain.Fade(l, 1, 1); gain.FadeDb(r, 0, 0) }
	case 9:
		return "add-nothing", func(l, r []float32) { dsp.AddScaled(l, cp(r), 0); dsp.Add(r, make([]float32, len(r))) }
	case 10:
		return "clip-above", func(l, r []float32) { dsp.Clip(l, 1); gain.HardClipBuffer(r, 1) }
	case 11:
		return "sum-of-one", func(l, r []float32) {
			mix.Sum([][]float32{cp(l)}, l)
			mix.SumWeighted([][]float32{cp(r), cp(l)}, []float32{1, 0}, r)
		}
	case 12:
		return "scale", func(l, r []float32) { dsp.Scale(l, 1); dsp.Scale(r, -1); dsp.Scale(r, -1) }
	case 13:
		return "sustain-1", func(l, r []float32) {
			e := envelope.New(sr)
			e.SetADSR(0.001, 0.001, 1, 0.1)
			e.Trigger()
			e.Process(make([]float32, int(0.02*sr)))
			e.ProcessMultiply(l)
			e.ProcessMultiply(r)
		}
	case 14:
		return "one-sample", func(l, r []float32) {
			d := delay.New(0.01, sr)
			x := cp(l)
			d.ProcessBuffer(l, 1) // one sample late
			for i := range l[1:] {
				l[i] = l[i+1]
			}
			l[len(l)-1] = x[len(x)-1]
		}
	}
	return "autopan-still", func(l, r []float32) {
		g := pan.NewAutoPan(5, 0, pan.Balanced)
		x, y := make([]float32, len(l)), make([]float32, len(l))
		g.Process(l, float32(sr), x, y)
		g.Process(l, float32(sr), x, y)
		for i := range l { // no depth: both sides stay equally loud
			if !mon.Close(float64(x[i]), float64(y[i]), 1e-6, 1e-5) {
				l[i] = 99
			}
		}
	}
}

// c10: at its neutral settings a processor passes the signal through, whatever the others are.
func c10(r *mon.Run) {
	each(r, "neutral", r.N(12, 400), func(k kind) bool { return k.mk(48000).off != nil }, func(c *mon.C, k kind, sr float64, i int) {
		u := k.mk(sr)
		fresh := named(k, "limiter", "gate", "compressor", "expander") // these return to unity over their release time
		feed := func(n int) (l, rr, a, b []float32) {
			l, rr = signal(c.Rand, n, sr), signal(c.Rand, n, sr)
			if fresh { // below the ceiling of a limiter, between the samples too
				for q := range l {
					l[q] *= 0.3
					rr[q] *= 0.3
				}
			}
			if u.tick != nil && c.Rand.IntN(2) == 0 {
				for q := range l {
					x, y := u.tick(l[q], rr[q])
					a, b = append(a, x), append(b, y)
				}
				return
			}
			a, b = run(u, l, rr)
			return
		}
		if fresh {
			u.off()
		} else {
			settleAll(u, c.Rand.Uint64())
			feed(1 + c.Rand.IntN(3000))
		}
		for part := 0; part < 4; part++ {
			seed := c.Rand.Uint64()
			if fresh {
				for q, f := range u.set {
					if c.Rand.IntN(3) == 0 {
						f(rand.New(rand.NewPCG(seed, uint64(q))))
					}
				}
			} else {
				settleAll(u, seed)
			}
			u.off()
			l, rr, a, b := feed(1 + c.Rand.IntN(3000))
			for ch, p := range [][2][]float32{{l, a}, {rr, b}} {
				if ch == 1 {
					if k.name == "chorus-mono" {
						p[0] = l
					} else if !k.stereo || k.name == "compressor-sidechain" {
						break
					}
				}
				for q := range p[0] {
					if w := p[0][q]; !(math.Abs(float64(p[1][q]-w)) <= 2e-6+2e-5*math.Abs(float64(w))) {
						c.Failf("C10/"+k.name, "%g Hz, stretch %d: with neutral settings sample %d of channel %d comes out as %g instead of %g", sr, part, q, ch, p[1][q], w)
						return
					}
				}
			}
			c.Evals(len(l))
			c.Distinct(k.name, seed)
		}
	})
	r.Par("flat", r.N(600, 20000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		nm, f := eq0(c.Rand, sr)
		n := 2 + c.Rand.IntN(3000)
		l, rr := signal(c.Rand, n, sr), signal(c.Rand, n, sr)
		a, b := append([]float32(nil), l...), append([]float32(nil), rr...)
		f(a, b)
		for ch, p := range [][2][]float32{{l, a}, {rr, b}} {
			tol := 2e-5
			if nm == "peak" || strings.HasSuffix(nm, "shelf") { // recursive, in single precision
				tol = 0.05
			}
			if at := diff(p[0], p[1], tol*math.Max(float64(p1(l)), float64(p1(rr)))); at >= 0 {
				c.Failf("C10/"+nm, "%g Hz: with neutral settings sample %d of channel %d comes out as %g instead of %g", sr, at, ch, p[1][at], p[0][at])
				return
			}
		}
		c.Evals(n)
		c.Distinct(nm, n)
	})
}
