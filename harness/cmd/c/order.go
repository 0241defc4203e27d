package main

import (
	"math"
	"math/rand/v2"
	"slices"

	"verif/harness/mon"
)

// c13: which order a plug-in hands its settings over in, and what was set before them while no
// audio had been played yet, makes no difference.
func c13(r *mon.Run) {
	each(r, "order", r.N(240, 1200), func(k kind) bool {
		u := k.mk(48000)
		return len(u.set)-u.acts > 0 && !named(k, "smooth-parameter") // its two setters are orders, not settings
	}, func(c *mon.C, k kind, sr float64, i int) {
		u, v := k.mk(sr), k.mk(sr)
		seed, other := c.Rand.Uint64(), c.Rand.Uint64()
		n := len(u.set) - u.acts
		one := func(x *unit, j int, s uint64) {
			p := rand.NewPCG(s, uint64(j))
			if s%3 == 0 { // settings at the ends of their ranges
				x.set[j](rand.New(&ends{p}))
				return
			}
			x.set[j](rand.New(p))
		}
		for j := range n {
			one(u, j, seed)
		}
		perm := func() []int {
			p := c.Rand.Perm(n)
			if named(k, "tremolo") { // the waveform decides on smoothing unless that is said after it
				w, s := slices.Index(p, 2), slices.Index(p, 6)
				if w > s {
					p[w], p[s] = p[s], p[w]
				}
			}
			return p
		}
		how := mon.Pick(c.Rand, "another order", "another order", "other settings before", "other settings before", "twice")
		switch how {
		case "other settings before":
			for range 1 + c.Rand.IntN(3) {
				for _, j := range perm() {
					one(v, j, other)
				}
				other++
			}
		case "twice":
			for _, j := range perm() {
				one(v, j, seed)
			}
		}
		for _, j := range perm() {
			one(v, j, seed)
		}
		for j := n; j < len(u.set); j++ { // the actions, in order
			one(u, j, seed)
			one(v, j, seed)
		}
		m := 1500 + c.Rand.IntN(3000)
		l, rr := signal(c.Rand, m, sr), signal(c.Rand, m, sr)
		wa, wb := run(u, l, rr)
		a, b := run(v, l, rr)
		for ch, p := range [][2][]float32{{a, wa}, {b, wb}} {
			if at := diff(p[0], p[1], k.tol+1e-6*math.Abs(float64(p1(p[1])))); at >= 0 {
				c.Failf("C13/"+k.name, "%g Hz, %s: the same settings give sample %d of channel %d as %g instead of %g", sr, how, at, ch, p[0][at], p[1][at])
				return
			}
		}
		c.Count(how, 1)
		c.Distinct(k.name, seed)
	})
}

// ends draws the lowest and the highest number half of the time.
type ends struct{ *rand.PCG }

func (e *ends) Uint64() uint64 {
	switch e.PCG.Uint64() >> 62 {
	case 0:
		return 0
	case 1:
		return math.MaxUint64
	}
	return e.PCG.Uint64()
}
