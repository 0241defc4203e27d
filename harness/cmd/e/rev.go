package main

import (
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/reverb"
	"verif/harness/mon"
)

// combRef and passRef are the reverberator elements in double precision.
type combRef struct {
	buf           []float64
	k             int
	fb, damp, low float64
}

func newComb(n int) *combRef { return &combRef{buf: make([]float64, n), fb: 0.5, damp: 0.5} }
func (c *combRef) step(x float64) float64 {
	y := c.buf[c.k]
	c.low = y*(1-c.damp) + c.low*c.damp
	c.buf[c.k] = x + c.fb*c.low
	c.k = (c.k + 1) % len(c.buf)
	return y
}

type passRef struct {
	buf []float64
	k   int
	g   float64
}

func newPass(n int) *passRef { return &passRef{buf: make([]float64, n), g: 0.5} }
func (c *passRef) step(x float64) float64 {
	b := c.buf[c.k]
	c.buf[c.k] = x + c.g*b
	c.k = (c.k + 1) % len(c.buf)
	return b - x
}

func e10(r *mon.Run) {
	r.Par("element", r.N(120, 2000), func(c *mon.C, i int) {
		n := mon.Pick(c.Rand, 1, 2, 1+c.Rand.IntN(2000))
		if i%2 == 0 {
			cf, ref := reverb.NewCombFilter(n), newComb(n)
			peak, trips := 1.0, 0.0 // rounding of a lossless loop adds up with every trip
			for seg := 0; seg < 4; seg++ {
				if c.Rand.IntN(2) == 0 {
					v := mon.Pick(c.Rand, 0, 1, c.Rand.Float64(), mon.Uni(c.Rand, -1, 2))
					cf.SetFeedback(v)
					ref.fb = clamp(v, 0, 1)
				}
				if c.Rand.IntN(2) == 0 {
					ref.damp = mon.Pick(c.Rand, 0, c.Rand.Float64())
					cf.SetDamping(ref.damp)
				}
				if seg > 0 && c.Rand.IntN(4) == 0 {
					cf.Reset()
					d := newComb(n)
					d.fb, d.damp = ref.fb, ref.damp
					ref = d
				}
				for k, v := range program(c, 3000, -30, 0) {
					y, want := cf.Process(v), ref.step(float64(v))
					peak, trips = math.Max(peak, math.Abs(want)), trips+1/float64(n)
					if !mon.Close(float64(y), want, 2e-4+2e-7*peak*trips, 1e-4) {
						c.Failf("E10/comb", "delay %d, feedback %g, damping %g: sample %d gives %g, want %g", n, ref.fb, ref.damp, k, y, want)
						return
					}
				}
				c.Distinct(n, ref.fb, ref.damp)
			}
		} else {
			af, ref := reverb.NewAllPassFilter(n), newPass(n)
			for seg := 0; seg < 4; seg++ {
				if c.Rand.IntN(2) == 0 {
					ref.g = mon.Uni(c.Rand, -0.9, 0.9)
					af.SetFeedback(ref.g)
				}
				if seg > 0 && c.Rand.IntN(4) == 0 {
					af.Reset()
					d := newPass(n)
					d.g = ref.g
					ref = d
				}
				for k, v := range program(c, 3000, -30, 0) {
					y, want := af.Process(v), ref.step(float64(v))
					if !mon.Close(float64(y), want, 1e-4, 1e-4) {
						c.Failf("E10/diffusor", "delay %d, feedback %g: sample %d gives %g, want %g", n, ref.g, k, y, want)
						return
					}
				}
				c.Distinct(n, ref.g)
			}
		}
	})
	unit := func(c *mon.C) (set, eff float64) {
		v := mon.Pick(c.Rand, 0, 1, c.Rand.Float64(), c.Rand.Float64(), mon.Uni(c.Rand, -1, 2))
		return v, clamp(v, 0, 1)
	}
	r.Par("schroeder", r.N(40, 600), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		s := reverb.NewSchroeder(sr)
		room, damp, wet, dry, width := 0.5, 0.5, 0.3, 0.7, 1.0
		var cb []*combRef
		var ps []*passRef
		fresh := func() {
			cb, ps = nil, nil
			for _, ms := range []float64{29.7, 37.1, 41.1, 43.7} {
				cb = append(cb, newComb(int(ms*sr/1000)))
			}
			for _, ms := range []float64{5.0, 1.7} {
				ps = append(ps, newPass(int(ms*sr/1000)))
			}
		}
		fresh()
		stereo := i%2 == 1
		for seg := 0; seg < 4; seg++ {
			for k := 0; k < 3; k++ {
				v, e := unit(c)
				switch c.Rand.IntN(5) {
				case 0:
					s.SetRoomSize(v)
					room = e
				case 1:
					s.SetDamping(v)
					damp = e
				case 2:
					s.SetWetLevel(v)
					wet = e
				case 3:
					s.SetDryLevel(v)
					dry = e
				case 4:
					s.SetWidth(v)
					width = e
				}
			}
			if c.Rand.IntN(4) == 0 {
				s.Reset()
				fresh()
			}
			for _, q := range cb {
				q.fb, q.damp = 0.28+0.7*room, damp
			}
			n := int(sr * 0.15)
			xl, xr := program(c, n, -20, 0), program(c, n, -20, 0)
			for k := range xl {
				m := float64(xl[k])
				if stereo {
					m = (m + float64(xr[k])) / 2
				}
				w := 0.0
				for _, q := range cb {
					w += q.step(m) / 4
				}
				for _, q := range ps {
					w = q.step(w)
				}
				el := float64(xl[k])*dry + w*wet
				if stereo {
					// the width scales the wet signal of both channels alike
					wd := w * (1 - (1-width)/2)
					el, er := float64(xl[k])*dry+wd*wet, float64(xr[k])*dry+wd*wet
					a, b := s.ProcessStereo(xl[k], xr[k])
					if !mon.Close(float64(a), el, 5e-4, 1e-4) || !mon.Close(float64(b), er, 5e-4, 1e-4) {
						c.Failf("E10/schroeder", "%g Hz, room %g, damping %g, wet %g, dry %g, width %g, stereo: segment %d sample %d gives %g %g, want %g %g", sr, room, damp, wet, dry, width, seg, k, a, b, el, er)
						return
					}
				} else if a := s.Process(xl[k]); !mon.Close(float64(a), el, 5e-4, 1e-4) {
					c.Failf("E10/schroeder", "%g Hz, room %g, damping %g, wet %g, dry %g: segment %d sample %d gives %g, want %g", sr, room, damp, wet, dry, seg, k, a, el)
					return
				}
			}
			c.Distinct(sr, room, damp, wet, dry, width)
		}
	})
	r.Par("freeverb", r.N(30, 400), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		f := reverb.NewFreeverb(sr)
		room, damp, wet, dry, width, mode := 0.5, 0.5, 1/3.0, 0.0, 1.0, 0.0
		var cb [2][]*combRef
		var ps [2][]*passRef
		fresh := func() {
			for ch := 0; ch < 2; ch++ {
				cb[ch], ps[ch] = nil, nil
				for _, t := range []int{1116, 1188, 1277, 1356, 1422, 1491, 1557, 1617} {
					cb[ch] = append(cb[ch], newComb(int(float64(t+23*ch)*(sr/44100))))
				}
				for _, t := range []int{556, 441, 341, 225} {
					ps[ch] = append(ps[ch], newPass(int(float64(t+23*ch)*(sr/44100))))
				}
			}
		}
		fresh()
		for seg := 0; seg < 5; seg++ {
			for k := 0; k < 3; k++ {
				v, e := unit(c)
				switch c.Rand.IntN(6) {
				case 0:
					f.SetRoomSize(v)
					room = e
				case 1:
					f.SetDamping(v)
					damp = e
				case 2:
					f.SetWetLevel(v)
					wet = e
				case 3:
					f.SetDryLevel(v)
					dry = e
				case 4:
					f.SetWidth(v)
					width = e
				case 5:
					if seg > 0 {
						f.SetMode(v)
						mode = e
					}
				}
			}
			if c.Rand.IntN(5) == 0 {
				f.Reset()
				fresh()
			}
			gain := 0.015
			for ch := 0; ch < 2; ch++ {
				for _, q := range cb[ch] {
					q.fb, q.damp = 0.7+0.28*room, 0.4*damp
					if mode >= 0.5 {
						q.fb, q.damp, gain = 1, 0, 0
					}
				}
			}
			n := int(sr * 0.12)
			xl, xr := program(c, n, -20, 0), program(c, n, -20, 0)
			mono := i%3 == 2
			for k := range xl {
				if mono {
					xr[k] = xl[k]
				}
				in := (float64(xl[k]) + float64(xr[k])) * gain
				var w [2]float64
				for ch := range w {
					for _, q := range cb[ch] {
						w[ch] += q.step(in)
					}
					for _, q := range ps[ch] {
						w[ch] = q.step(w[ch])
					}
				}
				w1, w2 := wet*(width/2+0.5), wet*(1-width)/2
				el, er := w[0]*w1+w[1]*w2+float64(xl[k])*dry, w[1]*w1+w[0]*w2+float64(xr[k])*dry
				var a, b float32
				if mono {
					a = f.Process(xl[k])
					b = float32(er)
				} else {
					a, b = f.ProcessStereo(xl[k], xr[k])
				}
				if !mon.Close(float64(a), el, 5e-4, 1e-4) || !mon.Close(float64(b), er, 5e-4, 1e-4) {
					c.Failf("E10/freeverb", "%g Hz, room %g, damping %g, wet %g, dry %g, width %g, freeze %g: segment %d sample %d gives %g %g, want %g %g", sr, room, damp, wet, dry, width, mode, seg, k, a, b, el, er)
					return
				}
			}
			c.Distinct(sr, room, damp, wet, dry, width, mode)
		}
	})
	r.Par("freeze", r.N(6, 60), func(c *mon.C, i int) {
		sr := 44100.0
		f := reverb.NewFreeverb(sr)
		f.SetRoomSize(c.Rand.Float64())
		f.SetDamping(c.Rand.Float64())
		x := program(c, 20000, -10, 0)
		for _, v := range x {
			f.ProcessStereo(v, v)
		}
		f.SetMode(1)
		en := func() float64 {
			s := 0.0
			for k := 0; k < 44100; k++ {
				a, b := f.ProcessStereo(0, 0)
				s += float64(a)*float64(a) + float64(b)*float64(b)
			}
			return s
		}
		en()
		e1 := en()
		for k := 0; k < 441000; k++ {
			f.ProcessStereo(1, -0.3) // nothing gets in
		}
		if e2 := en(); !(e2/e1 > 0.4 && e2/e1 < 2.5) || e1 == 0 && maxAbs(x) > 0.01 {
			c.Failf("E10/freeze", "energy per second %g after a second, %g after ten more", e1, e2)
		}
		f.SetMode(0)
		for k := 0; k < 10*44100; k++ {
			f.ProcessStereo(0, 0)
		}
		if e3 := en(); e3 > e1*1e-3 {
			c.Failf("E10/thaw", "energy %g frozen, %g ten seconds after", e1, e3)
		}
		c.Distinct(i)
	})
	r.Par("fdn", r.N(60, 800), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		nd := mon.Pick(c.Rand, 4, 4, 8, 8, 16, 1+c.Rand.IntN(16))
		decay, damp, diff, mod, wet, dry := c.Rand.Float64(), c.Rand.Float64()*0.95, mon.Pick(c.Rand, 0, 1, c.Rand.Float64()), mon.Pick(c.Rand, 0, 0, 1, c.Rand.Float64()), mon.Pick(c.Rand, 1, c.Rand.Float64()), mon.Pick(c.Rand, 0, c.Rand.Float64())
		if i%5 == 0 {
			decay = 1
		}
		if i%4 == 0 {
			damp = 0
		}
		f := reverb.NewFDN(nd, sr)
		conf := func() {
			f.SetDecay(decay)
			f.SetDamping(damp)
			f.SetDiffusion(diff)
			f.SetModulation(mod)
			f.SetWetLevel(wet)
			f.SetDryLevel(dry)
		}
		conf()
		desc := fmt.Sprintf("%d delays at %g Hz, decay %g, damping %g, diffusion %g, modulation %g, wet %g, dry %g", nd, sr, decay, damp, diff, mod, wet, dry)
		c.Distinct(desc)
		n := int(sr * 0.3)
		x, x2 := program(c, n, -20, 0), program(c, n, -20, 0)
		run := func(in []float32, sign, tail int) []float64 { // mono run from reset
			f.Reset()
			out := make([]float64, len(in)+tail)
			for k := range out {
				v := float32(0)
				if k < len(in) {
					v = in[k] * float32(sign)
				}
				out[k] = float64(f.Process(v))
			}
			return out
		}
		y := run(x, 1, int(sr*0.2))
		again := run(x, 1, int(sr*0.2))
		for k := range y {
			if y[k] != again[k] {
				c.Failf("E10/fdn-reset", "%s: sample %d is %g after a reset, was %g", desc, k, again[k], y[k])
				return
			}
		}
		// linear: the response to a sum is the sum of the responses
		sum := make([]float32, n)
		for k := range sum {
			sum[k] = x[k]/2 - x2[k]/4
		}
		y2, ys := run(x2, 1, int(sr*0.2)), run(sum, 1, int(sr*0.2))
		for k := range ys {
			if want := y[k]/2 - y2[k]/4; !mon.Close(ys[k], want, 1e-3, 1e-3) {
				c.Failf("E10/fdn-linear", "%s: sample %d of a combination is %g, want %g", desc, k, ys[k], want)
				return
			}
		}
		// nothing comes back before the shortest delay, and the dry path is exact
		f.Reset()
		base := int(sr * 0.01)
		for k := 0; k < base-7; k++ {
			if k < len(x) {
				if v := f.Process(x[k]); !mon.Close(float64(v), float64(x[k])*dry, 1e-7, 1e-6) {
					c.Failf("E10/fdn-early", "%s: sample %d gives %g, the dry signal is %g", desc, k, v, float64(x[k])*dry)
					return
				}
			}
		}
		// bounded under continuous excitation, then dying away
		f.Reset()
		peak, bound := 0.0, 0.0
		for k := 0; k < int(sr); k++ {
			v := float32(math.Sin(float64(k) * 0.01))
			a, b := f.ProcessStereo(v, v)
			peak = math.Max(peak, math.Max(math.Abs(float64(a)), math.Abs(float64(b))))
		}
		// loop gain at most g: the input of 1/sqrt(n) per line grows by at most 1/(1-g)
		bound = dry + wet*1.3*math.Sqrt(float64(nd))/(1-(0.4+0.58*decay))*1.2
		if !(peak <= bound) {
			c.Failf("E10/fdn-bound", "%s: reaches %g, the loop allows %g", desc, peak, bound)
			return
		}
		en := func(sec float64) float64 {
			s := 0.0
			for k := 0; k < int(sec*sr); k++ {
				a, b := f.ProcessStereo(0, 0)
				s += float64(a)*float64(a) + float64(b)*float64(b)
			}
			return s
		}
		e1 := en(0.5)
		en(1)
		e2 := en(0.5)
		if !(e2 <= e1*0.9+1e-12) {
			c.Failf("E10/fdn-decay", "%s: tail energy %g, 1.5 s later %g", desc, e1, e2)
		}
		// stereo: equal wet signal, dry separate
		f.Reset()
		g := reverb.NewFDN(nd, sr)
		_ = g
		l0, r0 := f.ProcessStereo(0.5, -0.25)
		spread := 0.3 * wet * math.Abs(0.125) / math.Sqrt(float64(nd))
		if !(math.Abs(float64(l0)-0.5*dry) <= spread+1e-6) || !(math.Abs(float64(r0)+0.25*dry) <= spread+1e-6) {
			c.Failf("E10/fdn-stereo-dry", "%s: 0.5 -0.25 gives %g %g at once", desc, l0, r0)
		}
	})
	// energy of the lossless core: with the filters open, each turn keeps exactly the decay share
	r.Par("fdn-tail", r.N(24, 250), func(c *mon.C, i int) {
		sr := 48000.0
		nd := mon.Pick(c.Rand, 4, 8, 16)
		diff := mon.Pick(c.Rand, 0, 0.3, 1)
		tail := func(decay, damp float64) float64 {
			f := reverb.NewFDN(nd, sr)
			f.SetDecay(decay)
			f.SetDamping(damp)
			f.SetDiffusion(diff)
			f.SetModulation(0)
			f.SetWetLevel(1)
			f.SetDryLevel(0)
			f.Process(1)
			s := 0.0
			for k := 0; k < int(sr*0.5); k++ {
				v := float64(f.Process(0))
				if k > int(sr*0.2) {
					s += v * v
				}
			}
			return s
		}
		d1 := c.Rand.Float64() * 0.7
		d2 := d1 + 0.3
		if a, b := tail(d1, 0), tail(d2, 0); !(a < b) {
			c.Failf("E10/fdn-longer", "%d delays, diffusion %g: decay %g leaves %g, decay %g leaves %g", nd, diff, d1, a, d2, b)
		}
		if diff == 1 {
			// orthogonal feedback: total energy per turn falls by the square of 0.4 + 0.58 decay
			// (only checked loosely: the longest line turns at least every 40 ms)
			if a := tail(1, 0); !(a > 1e-3) {
				c.Failf("E10/fdn-sustains", "%d delays: the longest decay leaves %g", nd, a)
			}
		}
		if a, b := tail(d2, 0.9), tail(d2, 0); !(a < b) {
			c.Failf("E10/fdn-damping", "%d delays, diffusion %g, decay %g: damped tail %g, open tail %g", nd, diff, d2, a, b)
		}
		c.Distinct(nd, diff, d1)
	})
	// the damping filter: open passes everything, more damping is darker, steady level unchanged
	r.Case("damping", func(c *mon.C) {
		prev := math.Inf(1)
		for d := 0.0; d <= 0.95; d += 0.05 {
			f := reverb.NewDampingFilter()
			f.SetDamping(d)
			y := float32(0)
			for k := 0; k < 2000; k++ {
				y = f.Process(1)
			}
			if !(math.Abs(float64(y)-1) <= 1e-3) {
				c.Failf("E10/damping-dc", "damping %g passes %g of a steady level", d, y)
			}
			f.Reset()
			a := 0.0
			for k := 0; k < 2000; k++ {
				v := f.Process(float32(1 - 2*(k%2)))
				if k > 1000 {
					a = math.Max(a, math.Abs(float64(v)))
				}
			}
			if !(a < prev) || d == 0 && !(math.Abs(a-1) <= 1e-6) {
				c.Failf("E10/damping", "damping %g passes %g at the top, less damping %g", d, a, prev)
			}
			prev = a
			c.Distinct(d)
		}
	})
}
