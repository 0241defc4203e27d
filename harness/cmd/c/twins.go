package main

import (
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"verif/harness/mon"
)

// odd processors answer a signal turned over with their answer turned over. (Tubes and asymmetric curves do not.)
func odd(k kind) bool {
	return !k.gen && !named(k, "tube", "waveshaper", "detector", "follower", "bitcrusher")
}

// twin is the two-channel form of a one-channel kind with the same settings.
var twin = map[string]string{
	"compressor": "compressor-stereo", "expander": "expander-stereo", "gate": "gate-stereo", "limiter": "limiter-stereo",
	"bitcrusher-mono": "bitcrusher", "tape-mono": "tape", "tube-mono": "tube", "waveshaper-mono": "waveshaper",
	"ringmod-mono": "ringmod", "tremolo-mono": "tremolo", "flanger-mono": "flanger", "phaser-mono": "phaser",
	"schroeder-mono": "schroeder",
}

// play runs a signal through a new instance, with its settings changed on the way.
func play(u *unit, seed uint64, cuts []int, l, r []float32) (a, b []float32) {
	settleAll(u, seed)
	settleAll(u, seed)
	for i, n := range cuts {
		if i > 0 && i%2 == 0 {
			settleAll(u, seed+uint64(i))
		}
		x, y := run(u, l[:n], r[:n])
		a, b = append(a, x...), append(b, y...)
		l, r = l[n:], r[n:]
	}
	return
}

// plainLimiter is a limiter without lookahead and true-peak estimate.
func plainLimiter(sr float64) *unit {
	d := dynamics.NewLimiter(sr)
	d.SetTruePeak(false)
	d.SetLookahead(0)
	return &unit{tick: m1(d.Process), blk: d.ProcessStereo, set: []func(R){s1(d.SetThreshold, -40, 0), func(r R) { d.SetRelease(lg(r, 1e-3, 2)) }}}
}

// c12: turned over, mirrored, or through one channel: the same sound.
func c12(r *mon.Run) {
	each(r, "turned", r.N(10, 300), odd, func(c *mon.C, k kind, sr float64, i int) {
		n, seed := 1+c.Rand.IntN(4000), c.Rand.Uint64()
		l, rr := signal(c.Rand, n, sr), signal(c.Rand, n, sr)
		cs := splits(c, n)
		a0, b0 := play(k.mk(sr), seed, cs, l, rr)
		for q := range l {
			l[q], rr[q] = -l[q], -rr[q]
		}
		a1, b1 := play(k.mk(sr), seed, cs, l, rr)
		for q := range a1 {
			a1[q], b1[q] = -a1[q], -b1[q]
		}
		for ch, p := range [][2][]float32{{a0, a1}, {b0, b1}} {
			if at := diff(p[0], p[1], k.tol+1e-6*(1e-3+float64(p1(p[0])))); at >= 0 {
				c.Failf("C12/turned/"+k.name, "%g Hz: sample %d of channel %d is %g, and %g when the input is turned over", sr, at, ch, p[0][at], -p[1][at])
				return
			}
		}
		c.Evals(n)
		c.Distinct(k.name, seed, n)
	})
	each(r, "mirrored", r.N(10, 300), func(k kind) bool {
		return k.stereo && !named(k, "compressor-sidechain", "chorus", "freeverb", "fdn", "flanger", "phaser", "tremolo")
	}, func(c *mon.C, k kind, sr float64, i int) {
		n, seed := 1+c.Rand.IntN(4000), c.Rand.Uint64()
		l, rr := signal(c.Rand, n, sr), signal(c.Rand, n, sr)
		if i%4 == 1 {
			clear(rr)
		}
		if i%4 == 2 {
			for q := range rr {
				rr[q] *= float32(1e-3)
			}
		}
		cs := splits(c, n)
		if k.name == "limiter-stereo" { // its true-peak estimate hears the left channel only, as it says
			k.mk = plainLimiter
		}
		a0, b0 := play(k.mk(sr), seed, cs, l, rr)
		b1, a1 := play(k.mk(sr), seed, cs, rr, l)
		for ch, p := range [][2][]float32{{a0, a1}, {b0, b1}} {
			if at := diff(p[0], p[1], k.tol+1e-6*(1e-3+float64(p1(p[0])))); at >= 0 {
				c.Failf("C12/mirrored/"+k.name, "%g Hz: sample %d of channel %d is %g, and %g on the other side when the channels are exchanged", sr, at, ch, p[0][at], p[1][at])
				return
			}
		}
		c.Evals(n)
		c.Distinct("mirrored", k.name, seed, n)
	})
	all := map[string]kind{}
	for _, k := range kinds() {
		all[k.name] = k
	}
	each(r, "twin", r.N(12, 400), func(k kind) bool { return twin[k.name] != "" }, func(c *mon.C, k kind, sr float64, i int) {
		t := all[twin[k.name]]
		n, seed := 1+c.Rand.IntN(6000), c.Rand.Uint64()
		x := signal(c.Rand, n, sr)
		for g, q := 1.0, 0; q < n; q++ { // loud and quiet stretches
			if q%700 == 0 {
				g = math.Pow(10, in(c.Rand, -60, 0)/20)
			}
			x[q] *= float32(g)
		}
		cs := splits(c, n)
		if k.name == "limiter" {
			k.mk, t.mk = func(sr float64) *unit {
				u := plainLimiter(sr)
				u.blk = tickBlk(u.tick)
				return u
			}, plainLimiter
		}
		u, v := k.mk(sr), t.mk(sr)
		m := min(len(u.set), len(v.set))
		u.set, v.set = u.set[:m], v.set[:m]
		if k.name == "tremolo-mono" { // not its stereo mode
			u.set = append(u.set[:4:4], u.set[6:]...)
			v.set = append(v.set[:4:4], v.set[6:]...)
		}
		a0, _ := play(u, seed, cs, x, x)
		a1, b1 := play(v, seed, cs, x, x)
		if named(k, "flanger", "phaser") { // their sides move apart
			b1 = a0
		}
		for ch, p := range [][2][]float32{{a0, a1}, {a0, b1}} {
			if at := diff(p[0], p[1], 2*k.tol+1e-6*(1e-3+float64(p1(p[0])))); at >= 0 {
				c.Failf("C12/twin/"+k.name, "%g Hz: sample %d of channel %d is %g through one channel, %g through both", sr, at, ch, p[0][at], p[1][at])
				return
			}
		}
		c.Evals(n)
		c.Distinct("twin", k.name, seed, n)
	})
}

// splits cuts n samples into a few parts.
func splits(c *mon.C, n int) (cs []int) {
	for n > 0 {
		k := 1 + c.Rand.IntN(n)
		if len(cs) == 5 {
			k = n
		}
		cs = append(cs, k)
		n -= k
	}
	return
}
