package main

import (
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	"verif/harness/mon"
)

// octave energies (per Hz, dB) of x between sr/4 and downwards, by averaged short transforms.
func octaves(x []float32, n int) []float64 {
	out := make([]float64, n)
	for o := 0; o < n; o++ {
		lo, hi := math.Pi/math.Pow(2, float64(o+2)), math.Pi/math.Pow(2, float64(o+1))
		const probes = 24
		seg := int(40 * math.Pow(2, float64(o)))
		e, cnt := 0.0, 0
		for s := 0; s+seg <= len(x) && cnt < 400; s += seg {
			w := lo + (hi-lo)*float64(cnt%probes)/probes
			// Hann-windowed single-bin energy
			var re, im float64
			for k := 0; k < seg; k++ {
				h := 0.5 - 0.5*math.Cos(2*math.Pi*float64(k)/float64(seg))
				sn, cs := math.Sincos(w * float64(k))
				re += h * float64(x[s+k]) * cs
				im += h * float64(x[s+k]) * sn
			}
			e += (re*re + im*im) / float64(seg)
			cnt++
		}
		out[o] = 10 * math.Log10(e/float64(cnt))
	}
	return out
}

func d12(r *mon.Run) {
	kinds := []utility.NoiseType{utility.WhiteNoise, utility.PinkNoise, utility.BrownNoise, utility.BlueNoise, utility.VioletNoise}
	names := []string{"white", "pink", "brown", "blue", "violet"}
	// expected slope per octave (rising frequency) and tolerance, over the octaves examined
	slope := [][2]float64{{-0.9, 0.9}, {-4.1, -2.2}, {-7, -4.9}, {4.8, 7}, {10.1, 12.8}}
	oct := []int{6, 8, 5, 4, 3}
	r.Par("colour", r.N(50, 800), func(c *mon.C, i int) {
		t := i % 5
		seed := c.Rand.Int64()
		n := 1 << 16
		if t == 1 {
			n = 1 << 18
		}
		g, h := utility.NewNoiseGenerator(kinds[t]), utility.NewNoiseGenerator(kinds[c.Rand.IntN(5)])
		// an unrelated past must not show after seeding
		for k := c.Rand.IntN(40); k > 0; k-- {
			h.Next()
		}
		g.SetSeed(seed)
		if c.Rand.IntN(2) == 0 {
			h.SetType(kinds[t])
			h.SetSeed(seed)
		} else {
			h.SetSeed(seed)
			h.SetType(kinds[t])
		}
		x, y := make([]float32, n), make([]float32, n)
		g.Generate(x)
		for k := range y {
			y[k] = 1
		}
		cutAt := c.Rand.IntN(n / 4)
		h.GenerateAdd(y[:cutAt], 0.5)
		mute := c.Rand.IntN(200)
		h.GenerateAdd(y[cutAt:cutAt+mute], 0)
		h.GenerateAdd(y[cutAt+mute:n/2], 0.5)
		sum, sq := 0.0, 0.0
		for k, v := range x {
			if !(v >= -1 && v <= 1) {
				c.Failf("D12/range", "%s noise sample %g", names[t], v)
				return
			}
			if k >= cutAt && k < cutAt+mute {
				if y[k] != 1 {
					c.Failf("D12/add", "noise added at no level changes 1 to %g", y[k])
					return
				}
			} else if k < n/2 && !(math.Abs(float64(y[k])-1-0.5*float64(v)) <= 1e-6) {
				c.Failf("D12/seed", "%s noise with one seed: generators differ at sample %d (%g, %g)", names[t], k, v, (y[k]-1)*2)
				return
			}
			sum += float64(v)
			sq += float64(v) * float64(v)
		}
		rms := math.Sqrt(sq / float64(n))
		if rms < 0.02 {
			c.Failf("D12/level", "%s noise rms %g", names[t], rms)
		}
		if t != 1 && t != 2 && !(math.Abs(sum/float64(n)) <= 6*rms/math.Sqrt(float64(n))) {
			c.Failf("D12/mean", "%s noise mean %g", names[t], sum/float64(n))
		}
		if m := math.Abs(sum / float64(n)); t == 1 && m > 0.17 || t == 2 && m > 0.35 {
			c.Failf("D12/mean", "%s noise mean %g", names[t], sum/float64(n))
		}
		o := octaves(x, oct[t])
		sl := (o[0] - o[len(o)-1]) / float64(len(o)-1)
		if !(sl >= slope[t][0] && sl <= slope[t][1]) {
			c.Failf("D12/"+names[t], "%s noise changes by %.2f dB per octave, expected between %g and %g (octave levels %.1f)", names[t], sl, slope[t][0], slope[t][1], o)
		}
		if t == 1 { // pink all the way down, not white below some octave
			o := octaves(x, 11)
			if sl := ((o[4]+o[5])/2 - (o[9]+o[10])/2) / 5; !(sl >= -4.6 && sl <= -1.6) {
				c.Failf("D12/pink-low", "pink noise changes by %.2f dB per octave in the low octaves (octave levels %.1f)", sl, o)
			}
		}
		g.SetSeed(seed)
		for k := 0; k < 100; k++ {
			if v := g.Next(); v != x[k] {
				c.Failf("D12/reseed", "%s noise seeded again differs at sample %d", names[t], k)
				break
			}
		}
		g.SetSeed(seed + 1)
		same := 0
		for k := 0; k < 100; k++ {
			if g.Next() == x[k] {
				same++
			}
		}
		if same > 60 {
			c.Failf("D12/other-seed", "%s noise: another seed gives the same noise", names[t])
		}
		g.Reset()
		if v := g.Next(); !(v >= -1 && v <= 1) {
			c.Failf("D12/reset", "%s noise %g after a reset", names[t], v)
		}
		c.Distinct(names[t], seed)
		c.Count("samples", n)
		if i < 5 {
			c.Sample(names[t], o)
		}
	})
	r.Par("free", r.N(10, 100), func(c *mon.C, i int) {
		b := make([]float32, 20000)
		utility.WhiteNoiseBuffer(b)
		s, q := 0.0, 0.0
		for _, v := range b {
			if !(v >= -1 && v <= 1) {
				c.Failf("D12/white-range", "%g", v)
			}
			s += float64(v)
			q += float64(v) * float64(v)
		}
		if !(math.Abs(s/2e4) <= 0.03) || !(math.Abs(q/2e4-1.0/3) <= 0.02) {
			c.Failf("D12/white-stat", "mean %g power %g", s/2e4, q/2e4)
		}
		g := utility.NewGaussianNoise()
		g.Generate(b)
		s, q = 0, 0
		f4 := 0.0
		for _, v := range b {
			if !mon.Fin32(v) || !(math.Abs(float64(v)) <= 3) {
				c.Failf("D12/gauss-range", "%g", v)
			}
			z := float64(v) / 0.3
			s += z
			q += z * z
			f4 += z * z * z * z
		}
		if !(math.Abs(s/2e4) <= 0.05) || !(math.Abs(q/2e4-1) <= 0.08) || !(math.Abs(f4/2e4-3) <= 0.6) {
			c.Failf("D12/gauss-stat", "mean %g variance %g fourth moment %g", s/2e4, q/2e4, f4/2e4)
		}
		c.Distinct("free", i)
	})
}

func d13(r *mon.Run) {
	r.Par("dc", r.N(150, 5000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, 44100.0, 48000, 96000, 192000)
		cut := mon.Uni(c.Rand, 5, 60)
		chs := 1 + c.Rand.IntN(mon.Pick(c.Rand, 3, 3, 24))
		d := utility.NewDCBlocker(chs, float32(cut), sr)
		if c.Rand.IntN(2) == 0 {
			d.SetCutoff(float32(cut*2), sr)
			d.SetCutoff(float32(cut), sr)
		}
		s := utility.NewSimpleDCBlocker(sr)
		off := mon.Uni(c.Rand, -2, 2)
		f := mon.LogUniform(c.Rand, 20*cut+400, sr/3)
		n := int(sr * 12 / (2 * math.Pi * 5))
		x := make([]float32, n)
		for k := range x {
			x[k] = float32(off + 0.5*math.Sin(2*math.Pi*f*float64(k)/sr))
		}
		chk := func(what string, y []float32) {
			// last whole cycles: mean gone, tone kept
			per := sr / f
			m := int(math.Floor(float64(n/8)/per) * per)
			var mean, e float64
			for _, v := range y[n-m:] {
				mean += float64(v)
			}
			mean /= float64(m)
			for _, v := range y[n-m:] {
				e += (float64(v) - mean) * (float64(v) - mean)
			}
			rms := math.Sqrt(e / float64(m))
			if !(math.Abs(mean) <= 0.01*math.Abs(off)+0.01) {
				c.Failf("D13/offset", "%s cutoff %g at %g: offset %g leaves %g", what, cut, sr, off, mean)
			}
			if !(math.Abs(rms-0.5/math.Sqrt2) <= 0.02) {
				c.Failf("D13/tone", "%s cutoff %g at %g: tone of %g Hz comes out at %g rms", what, cut, sr, f, rms)
			}
		}
		ch := c.Rand.IntN(chs)
		y := dup(x)
		h := c.Rand.IntN(n)
		d.ProcessBuffer(y[:h], ch)
		d.ProcessBuffer(y[h:], ch)
		chk("blocker", y)
		z := dup(x)
		s.ProcessBuffer(z)
		chk("simple", z)
		// reset and the sample, stereo and multi-channel forms agree with the buffer form
		d.Reset()
		s.Reset()
		for k := 0; k < 200; k++ {
			if v := d.Process(x[k], ch); !mon.Close(float64(v), float64(y[k]), 1e-6, 1e-5) {
				c.Failf("D13/forms", "sample %d: %g, block form %g", k, v, y[k])
				break
			}
			if v := s.Process(x[k]); !mon.Close(float64(v), float64(z[k]), 1e-6, 1e-5) {
				c.Failf("D13/forms-simple", "sample %d: %g, block form %g", k, v, z[k])
				break
			}
		}
		d.Reset()
		var bufs [][]float32
		for q := range max(4, chs+c.Rand.IntN(2)) {
			bufs = append(bufs, dup(x[q*50:q*50+200]))
		}
		d.ProcessMultiChannel(bufs)
		for q := range bufs {
			src := x[q*50 : q*50+200]
			if q >= chs {
				for k := range src {
					if bufs[q][k] != src[k] {
						c.Failf("D13/surplus", "channel %d of %d changed", q, chs)
						break
					}
				}
				continue
			}
			one := utility.NewDCBlocker(1, float32(cut), sr)
			for k := range src {
				if v := one.Process(src[k], 0); !mon.Close(float64(bufs[q][k]), float64(v), 1e-6, 1e-5) {
					c.Failf("D13/multi", "channel %d of %d sample %d: %g, on its own %g", q, chs, k, bufs[q][k], v)
					break
				}
			}
		}
		if chs >= 2 {
			d.Reset()
			l, rr := dup(x[:200]), make([]float32, 200)
			d.ProcessStereo(l, rr)
			for k := range l {
				if !mon.Close(float64(l[k]), float64(y[k]), 1e-6, 1e-5) || rr[k] != 0 {
					c.Failf("D13/stereo", "sample %d: %g/%g, expected %g/0", k, l[k], rr[k], y[k])
					break
				}
			}
		}
		// a cutoff set later is the same as one given at the start
		{
			cut := mon.LogUniform(c.Rand, 0.05, 20000)
			p, q := utility.NewDCBlocker(1, float32(cut), sr), utility.NewDCBlocker(1, 33, sr)
			q.SetCutoff(float32(cut), sr)
			for k := 0; k < 2000; k++ {
				if a, b := p.Process(x[k], 0), q.Process(x[k], 0); !mon.Close(float64(a), float64(b), 1e-6, 1e-5) {
					c.Failf("D13/setcutoff", "cutoff %g at %g: sample %d is %g when given at the start, %g when set later", cut, sr, k, a, b)
					break
				}
			}
		}
		if v := d.Process(0.25, chs); v != 0.25 {
			c.Failf("D13/nochannel", "a channel that does not exist turns 0.25 into %g", v)
		}
		c.Distinct(sr, cut, off, f)
	})
}

func d14(r *mon.Run) {
	r.Par("scale", r.N(3000, 100000), func(c *mon.C, i int) {
		lo := mon.Uni(c.Rand, -1000, 1000)
		hi := lo + mon.LogUniform(c.Rand, 1e-3, 1e4)
		plo := mon.LogUniform(c.Rand, 1e-3, 1e3)
		phi := plo * mon.LogUniform(c.Rand, 1.01, 1e4)
		x := mon.Pick(c.Rand, 0, 1, c.Rand.Float64(), c.Rand.Float64())
		x2 := math.Min(1, x+c.Rand.Float64()*0.5)
		cl := func(what string, got, want, tol float64) {
			if !(math.Abs(got-want) <= tol) {
				c.Failf("D14/"+what, "range [%g,%g] / [%g,%g] at %g: %g, expected %g", lo, hi, plo, phi, x, got, want)
			}
		}
		cl("linear", utility.ScaleParameter(x, lo, hi), lo+x*(hi-lo), 1e-9*(math.Abs(lo)+math.Abs(hi)))
		cl("linear-inverse", utility.UnscaleParameter(utility.ScaleParameter(x, lo, hi), lo, hi), x, 1e-6)
		e := utility.ScaleParameterExp(x, plo, phi)
		cl("exp", math.Log(e), math.Log(plo)+x*math.Log(phi/plo), 1e-9)
		cl("exp-inverse", utility.UnscaleParameterExp(e, plo, phi), x, 1e-9)
		if e2 := utility.ScaleParameterExp(x2, plo, phi); e2 < e {
			c.Failf("D14/exp-monotone", "exponential scale falls from %g to %g", e, e2)
		}
		cl("exp-fallback", utility.ScaleParameterExp(x, -hi-1e4, hi), -hi-1e4+x*(2*hi+1e4), 1e-6)
		cl("exp-fallback-down", utility.ScaleParameterExp(x, plo, -phi), plo-x*(plo+phi), 1e-9*(plo+phi))
		cl("exp-fallback-down-inverse", utility.UnscaleParameterExp(plo-x*(plo+phi), plo, -phi), x, 1e-6)
		cl("exp-fallback-zero", utility.ScaleParameterExp(x, plo, 0), plo-x*plo, 1e-9*plo)
		cl("exp-falling", math.Log(utility.ScaleParameterExp(x, phi, plo)), math.Log(phi)+x*math.Log(plo/phi), 1e-9)
		cl("exp-fallback-inverse", utility.UnscaleParameterExp(utility.ScaleParameterExp(x, -1, 5), -1, 5), x, 1e-9)
		if v := utility.UnscaleParameter(3, lo, lo); !mon.Fin(v) {
			c.Failf("D14/empty", "empty range gives %g", v)
		}
		if v := utility.UnscaleParameterExp(plo, plo, plo); !mon.Fin(v) {
			c.Failf("D14/empty", "empty exponential range gives %g", v)
		}
		a := mon.Uni(c.Rand, lo-100, hi+100)
		cl("clamp", utility.ClampParameter(a, lo, hi), math.Max(lo, math.Min(hi, a)), 0)
		cu := mon.LogUniform(c.Rand, 0.01, 30)
		v := utility.ScaleParameterWithCurve(x, lo, hi, cu)
		cl("curve", v, lo+math.Pow(x, cu)*(hi-lo), 1e-9*(math.Abs(lo)+math.Abs(hi)))
		if v2 := utility.ScaleParameterWithCurve(x2, lo, hi, cu); v2 < v {
			c.Failf("D14/curve-monotone", "curve %g falls", cu)
		}
		steps := 2 + c.Rand.IntN(mon.Pick(c.Rand, 30, 30, 30, 2000, 100000))
		q := utility.QuantizeParameter(x, steps) * float64(steps-1)
		if !(math.Abs(q-math.Round(q)) <= 1e-9) || !(math.Abs(q-x*float64(steps-1)) <= 0.5+1e-9) {
			c.Failf("D14/quantize", "%g in %d steps gives step %g", x, steps, q)
		}
		if utility.QuantizeParameter(x, 1) != x || utility.QuantizeParameter(x, 0) != x {
			c.Failf("D14/quantize1", "a single step changes %g", x)
		}
		cl("bipolar", utility.BipolarToUnipolar(utility.UnipolarToBipolar(x)), x, 1e-12)
		cl("bipolar-range", utility.UnipolarToBipolar(x), 2*x-1, 1e-12)
		sk := mon.LogUniform(c.Rand, 0.1, 10)
		s := utility.SkewParameter(x, sk)
		cl("skew", s, math.Pow(x, 1/sk), 1e-9)
		c.Distinct(lo, hi, x)
		c.Evals(12)
	})
	r.Par("smooth", r.N(200, 5000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, 44100.0, 48000, 96000)
		t := mon.Pick(c.Rand, 0, mon.LogUniform(c.Rand, 1e-4, 0.05))
		s := utility.NewSmoothParameter(t, sr)
		v := mon.Uni(c.Rand, -5, 5)
		s.SetImmediate(v)
		if s.GetCurrent() != v || s.IsSmoothing() {
			c.Failf("D14/immediate", "current %g after setting %g", s.GetCurrent(), v)
		}
		for seg := 0; seg < 4; seg++ {
			tg := mon.Uni(c.Rand, -5, 5)
			s.SetTarget(tg)
			from := v
			n := int(20*t*sr) + 3
			for k := 1; k <= n; k++ {
				y := s.Process()
				w := tg
				if t > 0 {
					w = tg + (from-tg)*math.Exp(-float64(k)/(t*sr))
				}
				if !(math.Abs(y-w) <= 1e-6) || y != s.GetCurrent() {
					c.Failf("D14/smooth", "time %g: sample %d from %g to %g is %g, expected %g", t, k, from, tg, y, w)
					return
				}
				if s.IsSmoothing() != (!(math.Abs(y-tg) <= 1e-6)) {
					c.Failf("D14/smoothing-flag", "smoothing=%v at distance %g", s.IsSmoothing(), y-tg)
				}
				v = y
			}
			if s.IsSmoothing() {
				c.Failf("D14/smooth-end", "still smoothing after 20 time constants")
			}
			c.Distinct("sm", t, tg)
		}
	})
}
