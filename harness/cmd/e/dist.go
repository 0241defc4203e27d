package main

import (
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/distortion"
	"verif/harness/mon"
)

var curves = []distortion.CurveType{distortion.CurveHardClip, distortion.CurveSoftClip, distortion.CurveSaturate, distortion.CurveFoldback, distortion.CurveAsymmetric, distortion.CurveSine, distortion.CurveExponential}

func triangle(x float64) float64 { // folds into [-1,1] with slope one at zero
	u := math.Mod(x+1, 4)
	if u < 0 {
		u += 4
	}
	return 1 - math.Abs(u-2)
}

func curve(k distortion.CurveType, x, asym float64) float64 {
	clip := math.Max(-1, math.Min(1, x))
	switch k {
	case distortion.CurveHardClip:
		return clip
	case distortion.CurveSoftClip:
		return math.Tanh(x)
	case distortion.CurveSaturate:
		return 2 / math.Pi * math.Atan(x*math.Pi/2)
	case distortion.CurveFoldback:
		return triangle(x)
	case distortion.CurveAsymmetric:
		if x >= 0 {
			return math.Tanh(x * (1 + asym))
		}
		return math.Tanh(x * (1 - asym))
	case distortion.CurveSine:
		return math.Sin(clip * math.Pi / 2)
	case distortion.CurveExponential:
		return math.Copysign(-math.Expm1(-3*math.Abs(clip))/-math.Expm1(-3), x)
	}
	return x
}

func clamp(x, lo, hi float64) float64 { return math.Max(lo, math.Min(hi, x)) }

func e05(r *mon.Run) {
	r.Par("shape", r.N(200, 10000), func(c *mon.C, i int) {
		w := distortion.NewWaveshaper()
		k := curves[i%len(curves)]
		drive, mix, out, asym := 1.0, 1.0, 1.0, 0.0
		w.SetCurveType(k)
		for seg := 0; seg < 4; seg++ {
			if c.Rand.IntN(2) == 0 {
				d := mon.Pick(c.Rand, 1, 100, mon.LogUniform(c.Rand, 1, 100), mon.LogUniform(c.Rand, 0.01, 1e4))
				w.SetDrive(d)
				drive = clamp(d, 1, 100)
			}
			if c.Rand.IntN(2) == 0 {
				d := mon.Pick(c.Rand, 0, 1, c.Rand.Float64(), mon.Uni(c.Rand, -2, 3))
				w.SetMix(d)
				mix = clamp(d, 0, 1)
			}
			if c.Rand.IntN(2) == 0 {
				d := mon.Pick(c.Rand, 0, 1, 2, mon.Uni(c.Rand, -1, 4))
				w.SetOutput(d)
				out = clamp(d, 0, 2)
			}
			if c.Rand.IntN(2) == 0 {
				d := mon.Pick(c.Rand, -1, 0, 1, mon.Uni(c.Rand, -2, 2))
				w.SetAsymmetry(d)
				asym = clamp(d, -1, 1)
			}
			n := 300
			x := make([]float64, n)
			for j := range x {
				x[j] = mon.Pick(c.Rand, 0, 1, -1, 1/drive, -1/drive, mon.Uni(c.Rand, -1, 1), mon.Uni(c.Rand, -3, 3)/drive, mon.Uni(c.Rand, -100, 100), math.Copysign(mon.LogUniform(c.Rand, 1e-12, 1e12), c.Rand.Float64()-0.5))
			}
			y, l, rr := make([]float64, n), make([]float64, n), make([]float64, n)
			w.ProcessBlock(x, y)
			w.ProcessStereo(x, y, l, rr)
			for j := range x {
				one := w.Process(x[j])
				if one != y[j] || one != l[j] || rr[j] != w.Process(y[j]) {
					c.Failf("E05/forms", "curve %d: %g gives %g by sample, %g by block, %g in stereo", k, x[j], one, y[j], l[j])
					return
				}
				want := (curve(k, x[j]*drive, asym)*mix + x[j]*(1-mix)) * out
				tol := 1e-9
				if k == distortion.CurveFoldback {
					tol += 1e-14 * math.Abs(x[j]*drive) // the fold of a huge value is limited by its own resolution
				}
				if !mon.Close(one, want, tol*(1+mix*out), 1e-9) {
					c.Failf(fmt.Sprintf("E05/curve%d", k), "drive %g, mix %g, output %g, asymmetry %g: %.12g gives %.12g, want %.12g", drive, mix, out, asym, x[j], one, want)
					return
				}
				if a := math.Abs(one); a > out*(mix+math.Abs(x[j])*(1-mix))*(1+1e-9) {
					c.Failf("E05/bound", "curve %d: %g gives %g over full scale", k, x[j], one)
					return
				}
			}
			c.Distinct(k, drive, mix, out, asym)
		}
	})
	r.Par("continuity", r.N(30, 600), func(c *mon.C, i int) {
		w := distortion.NewWaveshaper()
		k := curves[i%len(curves)]
		w.SetCurveType(k)
		asym := 0.0
		if k == distortion.CurveAsymmetric {
			asym = mon.Uni(c.Rand, -1, 1)
			w.SetAsymmetry(asym)
		}
		prev, px := math.NaN(), 0.0
		step := mon.Uni(c.Rand, 0.0005, 0.002)
		for x := -6.0; x <= 6; x += step {
			y := w.Process(x)
			if !(math.Abs(y) <= 1+1e-12) {
				c.Failf("E05/bound", "curve %d: %g gives %g", k, x, y)
				return
			}
			if !math.IsNaN(prev) {
				if !(math.Abs(y-prev) <= 4*step) {
					c.Failf("E05/jump", "curve %d jumps from %g at %g to %g at %g", k, prev, px, y, x)
					return
				}
				if k != distortion.CurveFoldback && y < prev-1e-12 {
					c.Failf("E05/monotone", "curve %d falls from %g at %g to %g at %g", k, prev, px, y, x)
					return
				}
			}
			if z := w.Process(-x); k != distortion.CurveAsymmetric && !(math.Abs(y+z) <= 1e-9) {
				c.Failf("E05/odd", "curve %d: %g gives %g, %g gives %g", k, x, y, -x, z)
				return
			}
			prev, px = y, x
		}
		c.Distinct(k, asym, step)
	})
	r.Par("util", r.N(200, 8000), func(c *mon.C, i int) {
		// foldback
		th := mon.LogUniform(c.Rand, 1e-3, 10)
		for j := 0; j < 60; j++ {
			x := mon.Pick(c.Rand, th, -th, 3*th, 0, mon.Uni(c.Rand, -20, 20)*th, math.Copysign(mon.LogUniform(c.Rand, 1e-6, 1e9), c.Rand.Float64()-0.5))
			y := distortion.FoldbackDistortion(x, th)
			if !(math.Abs(y) <= th*(1+1e-12)) {
				c.Failf("E05/fold", "folding %g at %g gives %g", x, th, y)
				return
			}
			if want := th * triangle(x/th); !mon.Close(y, want, 1e-9*th+1e-13*math.Abs(x), 1e-9) {
				c.Failf("E05/fold", "folding %g at %g gives %g, want %g", x, th, y, want)
				return
			}
		}
		for _, x := range []float64{math.MaxFloat64, -math.MaxFloat64, 1e300, 5e-324} {
			if y := distortion.FoldbackDistortion(x, th); !(math.Abs(y) <= th*(1+1e-12)) {
				c.Failf("E05/fold", "folding %g at %g gives %g", x, th, y)
			}
		}
		// gate effect
		for j := 0; j < 20; j++ {
			x := mon.Uni(c.Rand, -2, 2)
			t := c.Rand.Float64()
			want := x
			if math.Abs(x) < t {
				want = 0
			}
			if y := distortion.GateEffect(x, t); y != want {
				c.Failf("E05/gate", "gating %g at %g gives %g", x, t, y)
			}
		}
		// quantization to steps
		n := mon.Pick(c.Rand, 1, 2, 3, 17, 2+c.Rand.IntN(1000))
		for j := 0; j < 40; j++ {
			x := mon.Uni(c.Rand, -1, 1)
			y := distortion.QuantizeToSteps(x, n)
			if n <= 1 {
				if y != 0 {
					c.Failf("E05/steps", "%d steps give %g", n, y)
				}
				continue
			}
			s := 2 / float64(n-1)
			if !(math.Abs(y-x) <= s/2*(1+1e-9)) || !(math.Abs(y) <= 1+1e-12) || !(math.Abs((y+1)/s-math.Round((y+1)/s)) <= 1e-6) {
				c.Failf("E05/steps", "%g to %d steps gives %g", x, n, y)
				return
			}
		}
		// sigmoid: odd, rising, bounded, steeper with k, limited k
		k := mon.Pick(c.Rand, mon.LogUniform(c.Rand, 0.1, 10), mon.LogUniform(c.Rand, 0.001, 1000))
		ke := clamp(k, 0.1, 10)
		for j := 0; j < 40; j++ {
			x := mon.Pick(c.Rand, mon.Uni(c.Rand, -3, 3), mon.Uni(c.Rand, -1e3, 1e3))
			y := distortion.Sigmoid(x, k)
			if want := math.Tanh(ke * x / 2); !(math.Abs(y) < 1) || math.Abs(y-want) > 2e-6 {
				c.Failf("E05/sigmoid", "sigmoid of %g with %g is %g, want %g", x, k, y, want)
				return
			}
		}
		// Chebyshev: cos(n acos x)
		for j := 0; j < 40; j++ {
			o := mon.Pick(c.Rand, c.Rand.IntN(20), c.Rand.IntN(120))
			t := mon.Uni(c.Rand, 0, math.Pi)
			if y := distortion.ChebyshevPolynomial(math.Cos(t), o); !(math.Abs(y-math.Cos(float64(o)*t)) <= 1e-9*float64(o*o+1)) {
				c.Failf("E05/chebyshev", "T%d(cos %g) = %g, want %g", o, t, y, math.Cos(float64(o)*t))
				return
			}
		}
		// polynomial against Horner
		co := make([]float64, c.Rand.IntN(8))
		for j := range co {
			co[j] = mon.Uni(c.Rand, -2, 2)
		}
		x := mon.Uni(c.Rand, -2, 2)
		want := 0.0
		for j := len(co) - 1; j >= 0; j-- {
			want = want*x + co[j]
		}
		if y := distortion.Polynomial(x, co); !mon.Close(y, want, 1e-9, 1e-9) {
			c.Failf("E05/polynomial", "coefficients %v at %g give %g, want %g", co, x, y, want)
		}
		c.Distinct(th, n, k, x)
	})
}

func e06(r *mon.Run) {
	r.Par("crush", r.N(250, 10000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		b := distortion.NewBitcrusher(sr)
		bits, red, aa, dth, mix, out := 16.0, 1.0, true, distortion.DitherNone, 1.0, 1.0
		bits = mon.Pick(c.Rand, 1, 2, 4, 8, 16, 24, 32, mon.Uni(c.Rand, 1, 32), mon.Uni(c.Rand, -4, 50))
		b.SetBitDepth(bits)
		bits = clamp(bits, 1, 32)
		red = mon.Pick(c.Rand, 1, 1, 2, 3, 10, 100, float64(1+c.Rand.IntN(100)))
		x := red
		if c.Rand.IntN(8) == 0 {
			if c.Rand.IntN(2) == 0 {
				x, red = mon.Uni(c.Rand, -3, 1), 1
			} else {
				x, red = mon.Uni(c.Rand, 100, 1e4), 100
			}
		}
		b.SetSampleRateReduction(x)
		aa = c.Rand.IntN(2) == 0
		b.SetAntiAlias(aa)
		dth = mon.Pick(c.Rand, distortion.DitherNone, distortion.DitherNone, distortion.DitherWhite, distortion.DitherTriangular)
		b.SetDither(dth)
		if c.Rand.IntN(2) == 0 {
			mix = mon.Pick(c.Rand, 0, 1, c.Rand.Float64())
			b.SetMix(mix)
			if c.Rand.IntN(6) == 0 {
				b.SetMix(-2)
				mix = 0
			}
			out = mon.Pick(c.Rand, 1, 2, mon.Uni(c.Rand, 0, 2))
			b.SetOutput(out)
			if c.Rand.IntN(6) == 0 {
				b.SetOutput(9)
				out = 2
			}
		}
		n := 800
		stereo := i%2 == 1
		in := [2][]float64{to64(program(c, n, -40, 3)), to64(program(c, n, -40, 3))}
		res := [2][]float64{make([]float64, n), make([]float64, n)}
		run := func() {
			for p := 0; p < n; {
				m := min(n-p, 1+c.Rand.IntN(200))
				if stereo {
					b.ProcessStereo(in[0][p:p+m], in[1][p:p+m], res[0][p:p+m], res[1][p:p+m])
				} else if c.Rand.IntN(2) == 0 {
					b.ProcessBlock(in[0][p:p+m], res[0][p:p+m])
				} else {
					for q := p; q < p+m; q++ {
						res[0][q] = b.Process(in[0][q])
					}
				}
				p += m
			}
		}
		run()
		step := 2 / math.Pow(2, bits)
		desc := fmt.Sprintf("%g Hz, %g bits, reduction %g, anti-alias %v, dither %d, mix %g, output %g, stereo %v", sr, bits, red, aa, dth, mix, out, stereo)
		judge := func() bool {
			for ch := 0; ch < 2 && (ch == 0 || stereo); ch++ {
				f, hold := 0.0, 0.0
				al := -math.Expm1(-2 * math.Pi * 0.45 / red)
				for k, v := range in[ch] {
					want := v
					if aa && red > 1 {
						f += al * (v - f)
						want = f
					}
					if red > 1 {
						if k%int(red) == 0 {
							hold = want
						}
						want = hold
					}
					y := res[ch][k]
					if mix == 0 || out == 0 {
						if !mon.Close(y, v*out, 1e-12, 1e-12) {
							c.Failf("E06/dry", "%s: %g gives %g", desc, v, y)
							return false
						}
						continue
					}
					wet := (y/out - v*(1-mix)) / mix
					tol := 1e-9 / mix / out * 4
					if bits >= 32 {
						if !(math.Abs(wet-want) <= tol) {
							c.Failf("E06/hold", "%s: channel %d sample %d gives %g, want %g", desc, ch, k, wet, want)
							return false
						}
						continue
					}
					clipped := math.Abs(math.Abs(wet)-1) < tol
					if q := wet / step; !clipped && !(math.Abs(q-math.Round(q)) <= tol/step) {
						c.Failf("E06/grid", "%s: channel %d sample %d gives %.12g, not a multiple of %g", desc, ch, k, wet, step)
						return false
					}
					lim := 0.5 * step
					if dth != distortion.DitherNone {
						lim = 1.5 * step
					}
					if !(math.Abs(wet) <= 1+tol) || !(math.Abs(wet-clamp(want, -1, 1)) <= lim+tol+1e-9) {
						c.Failf("E06/error", "%s: channel %d sample %d gives %.12g for %.12g, more than %g away", desc, ch, k, wet, want, lim)
						return false
					}
				}
			}
			return true
		}
		if !judge() {
			return
		}
		b.Reset()
		first := append([]float64(nil), res[0]...)
		run()
		if !judge() {
			return
		}
		for k := range first {
			if dth == distortion.DitherNone && first[k] != res[0][k] {
				c.Failf("E06/reset", "%s: sample %d is %g after a reset, was %g", desc, k, res[0][k], first[k])
				return
			}
		}
		c.Distinct(sr, bits, red, aa, dth, mix, out, stereo)
	})
	// dither is random, unbiased and turns a level between two steps into their mean
	r.Par("dither", r.N(20, 600), func(c *mon.C, i int) {
		b := distortion.NewBitcrusher(48000)
		bits := float64(2 + c.Rand.IntN(12))
		b.SetBitDepth(bits)
		dth := mon.Pick(c.Rand, distortion.DitherWhite, distortion.DitherTriangular)
		b.SetDither(dth)
		step := 2 / math.Pow(2, bits)
		v := mon.Uni(c.Rand, -0.4, 0.4)
		const n = 8000
		sum, seen := 0.0, map[float64]int{}
		for k := 0; k < n; k++ {
			y := b.Process(v)
			sum += y
			seen[y]++
		}
		if e := (sum/n - v) / step; !(math.Abs(e) <= 0.06) {
			c.Failf("E06/bias", "%g bits, dither %d: the mean of %g is off by %g steps", bits, dth, v, e)
		}
		if len(seen) < 2 {
			c.Failf("E06/no-dither", "%g bits, dither %d: %g always gives the same output", bits, dth, v)
		}
		c.Distinct(bits, dth, v)
	})
	r.Par("fraction", r.N(20, 400), func(c *mon.C, i int) {
		b := distortion.NewBitcrusher(48000)
		b.SetBitDepth(32)
		b.SetAntiAlias(false)
		f := mon.Uni(c.Rand, 1, 100)
		b.SetSampleRateReduction(f)
		run, last := 0, math.NaN()
		for k := 0; k < 3000; k++ {
			y := b.Process(float64(k))
			if y == last {
				run++
			} else {
				if k > 0 && (float64(run) < f-1 || float64(run) > f+1) {
					c.Failf("E06/hold", "reduction by %g holds %d samples", f, run)
					return
				}
				if y != float64(k) {
					c.Failf("E06/hold", "sample %d became %g", k, y)
					return
				}
				run, last = 1, y
			}
		}
		c.Distinct(f)
	})
}

type tapeSpec struct {
	sat, comp, warm float64
	pre, de, env    float64
}

// tape path up to the saturation
func (t *tapeSpec) record(x float64) float64 {
	hp := x - t.pre
	t.pre += hp * (0.15 + 0.1*t.warm)
	x += hp * t.warm * 0.3
	k := 0.1
	if math.Abs(x) > t.env {
		k = 0.01
	}
	t.env += (math.Abs(x) - t.env) * k
	if t.env > 0.5 {
		x *= (0.5 + (t.env-0.5)/(2+3*t.comp)) / t.env
	}
	d := x * (1 + 4*t.sat)
	l := math.Sqrt(1 / 0.3)
	h := clamp(d, -l, l)
	return math.Tanh(0.7*d)*0.8 + (h-0.1*h*h*h)*0.2*t.sat
}

func (t *tapeSpec) play(x float64) float64 {
	t.de += (x - t.de) * (0.8 - 0.5*t.warm)
	return t.de
}

// the range of the sine between two phases (in cycles)
func sineRange(a, b float64) (lo, hi float64) {
	if b-a >= 1 {
		return -1, 1
	}
	lo, hi = math.Inf(1), math.Inf(-1)
	for j := 0; j <= 100; j++ {
		v := math.Sin(2 * math.Pi * (a + (b-a)*float64(j)/100))
		lo, hi = math.Min(lo, v), math.Max(hi, v)
	}
	w := (b - a) * 2 * math.Pi / 100
	return math.Max(-1, lo-w*w), math.Min(1, hi+w*w)
}

func e07(r *mon.Run) {
	unit := func(c *mon.C) float64 {
		return mon.Pick(c.Rand, 0, 1, c.Rand.Float64(), c.Rand.Float64(), mon.Uni(c.Rand, -1, 2))
	}
	r.Par("tape", r.N(200, 8000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		t := distortion.NewTapeSaturation(sr)
		sat, comp, flut, warm, mix, out := 0.5, 0.5, 0.0, 0.5, 1.0, 1.0
		withFlutter := i%3 == 2
		slow := i%12 == 5 // long enough for the flutter to go all the way round
		if slow {
			sr = 2000
			t = distortion.NewTapeSaturation(sr)
		}
		set := func() {
			if c.Rand.IntN(2) == 0 {
				v := unit(c)
				t.SetSaturation(v)
				sat = clamp(v, 0, 1)
			}
			if c.Rand.IntN(2) == 0 {
				v := unit(c)
				t.SetCompression(v)
				comp = clamp(v, 0, 1)
			}
			if c.Rand.IntN(2) == 0 {
				v := unit(c)
				t.SetWarmth(v)
				warm = clamp(v, 0, 1)
			}
			if c.Rand.IntN(2) == 0 {
				v := unit(c)
				t.SetMix(v)
				mix = clamp(v, 0, 1)
			}
			if c.Rand.IntN(2) == 0 {
				v := mon.Pick(c.Rand, 1, 2, mon.Uni(c.Rand, -1, 3))
				t.SetOutput(v)
				out = clamp(v, 0, 2)
			}
		}
		set()
		if withFlutter {
			flut = mon.Pick(c.Rand, 1, mon.Uni(c.Rand, 0.02, 1), mon.Uni(c.Rand, 1, 3))
			t.SetFlutter(flut)
			flut = math.Min(flut, 1)
		}
		stereo := i%2 == 1
		hot := mon.Pick(c.Rand, 0.0, 0.0, 20.0, 200.0)
		var sp [2]tapeSpec
		var past [2][]float64
		var fl [2][2]float64 // bounds of the played signal
		var hiss [2]float64  // bound of the noise in the de-emphasis filter
		segs := 4
		for seg := 0; seg < segs; seg++ {
			if seg > 0 && !withFlutter {
				set()
			}
			if seg > 0 && c.Rand.IntN(4) == 0 {
				t.Reset()
				sp = [2]tapeSpec{}
				past = [2][]float64{}
				fl = [2][2]float64{}
				hiss = [2]float64{}
			}
			n := 600
			if slow {
				n = 4000
			}
			in := [2][]float64{to64(program(c, n, -40, hot)), to64(program(c, n, -40, hot))}
			res := [2][]float64{make([]float64, n), make([]float64, n)}
			if stereo {
				t.ProcessStereo(in[0], in[1], res[0], res[1])
			} else if c.Rand.IntN(2) == 0 {
				t.ProcessBlock(in[0], res[0])
			} else {
				for k := range in[0] {
					res[0][k] = t.Process(in[0][k])
				}
			}
			desc := fmt.Sprintf("%g Hz, saturation %g, compression %g, flutter %g, warmth %g, mix %g, output %g, stereo %v, segment %d", sr, sat, comp, flut, warm, mix, out, stereo, seg)
			for ch := 0; ch < 2 && (ch == 0 || stereo); ch++ {
				m := &sp[ch]
				m.sat, m.comp, m.warm = sat, comp, warm
				for k, v := range in[ch] {
					s := m.record(v)
					hiss[ch] += (1e-4*sat - hiss[ch]) * (0.8 - 0.5*warm)
					slack := hiss[ch] + 1e-9 + 1e-9*math.Abs(v)
					if flut >= 0.01 {
						// the played sample is up to 3 samples, wandering 0.3 to 0.5 times a second from the middle, and 0.9 at random from 5 samples ago
						past[ch] = append(past[ch], s)
						p := past[ch]
						lo, hi := math.Inf(1), math.Inf(-1)
						s0, s1 := sineRange(0.3*float64(len(p))/sr, 0.5*float64(len(p))/sr)
						for d := int(5 + flut*(3*s0-0.9) - 1e-6); d <= int(5+flut*(3*s1+0.9)+1e-6)+1; d++ { // written before it is read: delays count from the next position
							q := 0.0
							if j := len(p) - d; j >= 0 && j < len(p) {
								q = p[j]
							} else if j >= len(p) {
								continue
							}
							lo, hi = math.Min(lo, q), math.Max(hi, q)
						}
						// track the hull through the linear de-emphasis
						fl[ch][0] += (lo - fl[ch][0]) * (0.8 - 0.5*warm)
						fl[ch][1] += (hi - fl[ch][1]) * (0.8 - 0.5*warm)
						lo, hi = fl[ch][0], fl[ch][1]
						lo = lo*mix + v*(1-mix) - slack*mix - 1e-9
						hi = hi*mix + v*(1-mix) + slack*mix + 1e-9
						y := res[ch][k]
						if !(y >= lo*out-1e-9-1e-9*math.Abs(lo*out) && y <= hi*out+1e-9+1e-9*math.Abs(hi*out)) {
							c.Failf("E07/flutter", "%s: channel %d sample %d gives %g, want %g to %g", desc, ch, k, y, lo*out, hi*out)
							return
						}
						continue
					}
					want := (m.play(s)*mix + v*(1-mix)) * out
					if y := res[ch][k]; !mon.Close(y, want, slack*mix*out+1e-9, 1e-7) {
						c.Failf("E07/tape", "%s: channel %d sample %d (%g) gives %g, want %g", desc, ch, k, v, y, want)
						return
					}
				}
			}
			c.Distinct(desc)
		}
	})
	// any level: bounded, and louder never comes out quieter on steady levels
	r.Par("tape-level", r.N(20, 500), func(c *mon.C, i int) {
		sat, comp, warm := unit(c), unit(c), unit(c)
		prev := 0.0
		for d := -40.0; d < 200; d += mon.Uni(c.Rand, 1, 12) {
			t := distortion.NewTapeSaturation(48000)
			t.SetSaturation(sat)
			t.SetCompression(comp)
			t.SetWarmth(warm)
			y := 0.0
			for k := 0; k < 4000; k++ {
				y = t.Process(lin(d))
				if !(math.Abs(y) <= 1.1) {
					c.Failf("E07/tape-bound", "saturation %g, compression %g, warmth %g: level %g dB gives %g", sat, comp, warm, d, y)
					return
				}
			}
			if y < prev-5e-4 {
				c.Failf("E07/tape-monotone", "saturation %g, compression %g, warmth %g: level %g dB gives %g, a lower level %g", sat, comp, warm, d, y, prev)
				return
			}
			prev = y
			c.Distinct(sat, comp, warm, d)
		}
	})
	e07tube(r, unit)
}

type tubeSpec struct {
	warm, harm, bias, hyst float64
	pre, de, in, out       float64
}

func (t *tubeSpec) step(x float64) float64 {
	hp := x - t.pre
	t.pre += hp * (0.1 + 0.4*t.warm)
	x += hp*t.warm*0.5 + 0.1*t.bias
	k := 0.5
	if x > t.in {
		k = 0.3
	}
	t.out += (x - t.out) * (1 - t.hyst*k)
	t.in = x
	v := t.out
	a := math.Abs(v)
	even := a - 0.1*a*a + 0.05*a*a*a*a
	if v < 0 {
		even = a - 0.15*a*a + 0.08*a*a*a*a
	}
	even = math.Copysign(even, v)
	odd := v - 0.15*v*v*v + 0.05*v*v*v*v*v
	y := even*(1-0.5*t.harm) + odd*0.5*t.harm
	if a := math.Abs(y); a >= 0.8 {
		y = math.Copysign(0.7+(a-0.7)/3, y)
	} else if a > 0.7 {
		f := (a - 0.7) / 0.1
		y = math.Copysign(0.7+(a-0.7)*(1-f*f*2/3), y)
	}
	t.de += (y - t.de) * (0.9 - 0.6*t.warm)
	return t.de
}

func e07tube(r *mon.Run, unit func(c *mon.C) float64) {
	r.Par("tube", r.N(150, 6000), func(c *mon.C, i int) {
		t := distortion.NewTubeSaturation()
		m := [2]tubeSpec{}
		warm, harm, bias, hyst, mix, out := 0.5, 0.5, 0.0, 0.1, 1.0, 1.0
		stereo := i%2 == 1
		for seg := 0; seg < 5; seg++ {
			for k := 0; k < 6; k++ {
				if c.Rand.IntN(2) == 0 {
					continue
				}
				v := unit(c)
				switch k {
				case 0:
					t.SetWarmth(v)
					warm = clamp(v, 0, 1)
				case 1:
					t.SetHarmonics(v)
					harm = clamp(v, 0, 1)
				case 2:
					v = v*2 - 1
					t.SetBias(v)
					bias = clamp(v, -1, 1)
				case 3:
					t.SetHysteresis(v)
					hyst = clamp(v, 0, 1)
				case 4:
					t.SetMix(v)
					mix = clamp(v, 0, 1)
				case 5:
					v *= 2
					t.SetOutput(v)
					out = clamp(v, 0, 2)
				}
			}
			if seg > 0 && c.Rand.IntN(4) == 0 {
				t.Reset()
				m = [2]tubeSpec{}
			}
			n := 600
			in := [2][]float64{to64(program(c, n, -40, 0)), to64(program(c, n, -40, 0))}
			res := [2][]float64{make([]float64, n), make([]float64, n)}
			if stereo {
				t.ProcessStereo(in[0], in[1], res[0], res[1])
			} else if c.Rand.IntN(2) == 0 {
				t.ProcessBlock(in[0], res[0])
			} else {
				for k := range in[0] {
					res[0][k] = t.Process(in[0][k])
				}
			}
			for ch := 0; ch < 2 && (ch == 0 || stereo); ch++ {
				m[ch].warm, m[ch].harm, m[ch].bias, m[ch].hyst = warm, harm, bias, hyst
				for k, v := range in[ch] {
					want := (m[ch].step(v)*mix + v*(1-mix)) * out
					desc := func() string {
						return fmt.Sprintf("warmth %g, harmonics %g, bias %g, hysteresis %g, mix %g, output %g, stereo %v, segment %d, channel %d, sample %d (%g)", warm, harm, bias, hyst, mix, out, stereo, seg, ch, k, v)
					}
					y := res[ch][k]
					if !mon.Close(y, want, 1e-6, 1e-6) {
						c.Failf("E07/tube", "%s gives %g, want %g", desc(), y, want)
						return
					}
					if !(math.Abs(y) <= 1.6*out) {
						c.Failf("E07/tube-bound", "%s gives %g", desc(), y)
						return
					}
				}
			}
			c.Distinct(warm, harm, bias, hyst, mix, out, seg)
		}
	})
}
