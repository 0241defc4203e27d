package main

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/justyntemme/vst3go/pkg/dsp/filter"
	"verif/harness/mon"
)

var bqNames = []string{"lowpass", "highpass", "bandpass", "notch", "allpass", "peaking", "lowshelf", "highshelf"}

func setBq(b *filter.Biquad, t int, sr, f, q, g float64) {
	switch t {
	case 0:
		b.SetLowpass(sr, f, q)
	case 1:
		b.SetHighpass(sr, f, q)
	case 2:
		b.SetBandpass(sr, f, q)
	case 3:
		b.SetNotch(sr, f, q)
	case 4:
		b.SetAllpass(sr, f, q)
	case 5:
		b.SetPeakingEQ(sr, f, q, g)
	case 6:
		b.SetLowShelf(sr, f, q, g)
	case 7:
		b.SetHighShelf(sr, f, q, g)
	}
}

// analog evaluates the normalised prototype at s, returning numerator and denominator.
func analog(t int, s complex128, q, gdb float64) (n, d complex128) {
	Q := complex(1/q, 0)
	A := math.Pow(10, gdb/40)
	ca := complex(A, 0)
	sa := complex(math.Sqrt(A)/q, 0)
	den := s*s + s*Q + 1
	switch t {
	case 0:
		return 1, den
	case 1:
		return s * s, den
	case 2:
		return s * Q, den
	case 3:
		return s*s + 1, den
	case 4:
		return s*s - s*Q + 1, den
	case 5:
		return s*s + s*Q*ca + 1, s*s + s*Q/ca + 1
	case 6:
		return ca * (s*s + s*sa + ca), ca*s*s + s*sa + 1
	default:
		return ca * (ca*s*s + s*sa + 1), s*s + s*sa + ca
	}
}

// hotCorner draws corner frequencies a host's fixed parameter range can ask for at a low sample rate
func hotCorner(c *mon.C, sr float64) float64 {
	return mon.Pick(c.Rand, 0.5*sr, 0.4999*sr, sr, 20000, mon.Uni(c.Rand, 0.49, 1)*sr, mon.Uni(c.Rand, 0.5, 6)*sr)
}

// bounded feeds noise, then silence, and returns the largest output; the silence must not grow louder.
func bounded(c *mon.C, sig string, what any, f func(x float32) float64) {
	var loud, tail float64
	for k := 0; k < 40000; k++ {
		x := float32(0)
		if k < 8000 {
			x = float32(mon.Uni(c.Rand, -1, 1))
		}
		y := math.Abs(f(x))
		if !(y <= 1e4) {
			c.Failf(sig, "%v: sample %d of noise within 1 comes out at %g", what, k, y)
			return
		}
		if k < 8000 {
			loud = math.Max(loud, y)
		} else if k >= 36000 {
			tail = math.Max(tail, y)
		}
	}
	if tail > loud+1e-3 {
		c.Failf(sig, "%v: silence grows from %g to %g", what, loud, tail)
	}
	c.Evals(1)
}

func d01(r *mon.Run) {
	r.Par("corner", r.N(60, 1500), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, 8000.0, 11025.0, 22050.0, 32000.0, 44100.0)
		t, f, q, g := i%8, hotCorner(c, sr), mon.LogUniform(c.Rand, 0.3, 20), mon.Uni(c.Rand, -24, 24)
		b := filter.NewBiquad(1)
		setBq(b, t, sr, f, q, g)
		bounded(c, "D01/corner", fmt.Sprintf("%s at %g Hz of %g, Q %g, %g dB", bqNames[t], f, sr, q, g), func(x float32) float64 {
			one := []float32{x}
			b.Process(one, 0)
			return float64(one[0])
		})
		c.Distinct("corner", t, f, q)
	})
	r.Par("response", r.N(400, 20000), func(c *mon.C, i int) {
		t := i % 8
		sr := mon.Pick(c.Rand, rates...)
		f := mon.LogUniform(c.Rand, sr/1500, sr*0.46)
		q := mon.LogUniform(c.Rand, 0.3, 10)
		g := mon.Uni(c.Rand, -24, 24)
		b := filter.NewBiquad(2)
		if c.Rand.IntN(2) == 0 { // history: other settings and audio before the reset
			setBq(b, c.Rand.IntN(8), sr, mon.LogUniform(c.Rand, 100, 8000), 1, 6)
			b.Process(noise(c, 64, 1), 0)
			b.Reset()
		}
		setBq(b, t, sr, f, q, g)
		w0 := 2 * math.Pi * f / sr
		tn := math.Tan(w0 / 2)
		// slowest pole decides how long the response is
		A := math.Pow(10, g/40)
		qe := q
		if t == 5 {
			qe = q * math.Max(A, 1)
		}
		if t > 5 {
			qe = q * math.Max(A, 1/A)
		}
		n := int(math.Min(40000, 14*math.Max(qe, 1/(2*q))*2/w0*math.Max(A, 1/A)+600))
		x := make([]float32, n)
		x[0] = 1
		// random chunking: a block boundary is invisible
		for p := 0; p < n; {
			k := min(n-p, 1+c.Rand.IntN(700))
			b.Process(x[p:p+k], 0)
			p += k
		}
		peak := 0.0
		for k := 1; k < 200; k++ {
			s := complex(0, math.Tan(math.Pi*float64(k)/400)/tn)
			a, d := analog(t, s, q, g)
			peak = math.Max(peak, cmplx.Abs(a/d))
		}
		if !(maxAbs(x[n-50:]) < 1e-2*peak) {
			c.Failf("D01/unstable", "%s f=%g Q=%g gain=%g at %g: impulse response still %g after %d samples", bqNames[t], f, q, g, sr, maxAbs(x[n-50:]), n)
			return
		}
		probe := []float64{0, w0, math.Pi * 0.97}
		for k := 0; k < 9; k++ {
			probe = append(probe, mon.LogUniform(c.Rand, w0/30, math.Pi*0.98))
		}
		for _, w := range probe {
			w = math.Min(w, math.Pi*0.98)
			s := complex(0, math.Tan(w/2)/tn)
			an, ad := analog(t, s, q, g)
			want := an / ad
			got := dft(x, w)
			// single-precision coefficients move poles: error scales with the inverse denominator
			_, c0 := analog(t, 0, q, g)
			_, p1 := analog(t, 1, q, g)
			_, m1 := analog(t, -1, q, g)
			c1 := (real(p1) - real(m1)) / 2
			c2 := (real(p1)+real(m1))/2 - real(c0)
			a0 := c2 + c1*tn + real(c0)*tn*tn
			dz := cmplx.Abs(ad) * tn * tn * math.Pow(2*math.Cos(w/2), 2) / a0
			tol := 2e-3*peak + 8e-6*(cmplx.Abs(want)+1)/dz
			if e := cmplx.Abs(got - want); !(e <= tol) {
				c.Failf("D01/"+bqNames[t], "%s f=%g Q=%g gain=%g at %g: response at %g Hz is %.5g (%.4g dB), expected %.5g (%.4g dB), tolerance %.3g", bqNames[t], f, q, g, sr,
					w*sr/2/math.Pi, got, 20*math.Log10(cmplx.Abs(got)), want, 20*math.Log10(cmplx.Abs(want)), tol)
				return
			}
			c.Distinct(t, sr, f, q, w)
		}
		c.Evals(len(probe))
		if i < 8 {
			c.Sample("setting", fmt.Sprintf("%s f=%.1f Q=%.2f gain=%.1f at %g", bqNames[t], f, q, g, sr))
		}
	})
	r.Par("direct", r.N(200, 5000), func(c *mon.C, i int) {
		// explicit coefficients are the difference equation, a0 normalised; several channels are independent
		var k [6]float32
		for q := range k {
			k[q] = float32(mon.Uni(c.Rand, -1, 1))
		}
		k[3] = float32(mon.Pick(c.Rand, 1, 2, -1.5, 0.5, 4))
		k[4], k[5] = k[4]*k[3]*0.6, k[5]*k[3]*0.35
		chs := 1 + c.Rand.IntN(4)
		if i%4 == 0 {
			chs = 1 + c.Rand.IntN(24)
		}
		b := filter.NewBiquad(chs)
		b.SetCoefficients(k[0], k[1], k[2], k[3], k[4], k[5])
		n := 300
		bufs := make([][]float32, chs+c.Rand.IntN(2))
		var orig [][]float32
		for q := range bufs {
			bufs[q] = noise(c, n, 1)
			orig = append(orig, dup(bufs[q]))
		}
		cut := c.Rand.IntN(n)
		// cuts of any size, empty and single samples among them, not the same in every channel
		at := make([]int, len(bufs))
		for range 5 {
			v := make([][]float32, len(bufs))
			for q := range bufs {
				to := min(n, cut)
				if i%3 == 0 {
					to = min(n, at[q]+mon.Pick(c.Rand, 0, 1, 1, c.Rand.IntN(n)))
				}
				v[q] = bufs[q][at[q]:max(at[q], to)]
				at[q] += len(v[q])
			}
			b.ProcessMulti(v)
		}
		for q := range bufs {
			if q < chs {
				b.Process(bufs[q][at[q]:], q)
			}
		}
		for q := range bufs {
			var x1, x2, y1, y2 float64
			for s := 0; s < n; s++ {
				x := float64(orig[q][s])
				y := (float64(k[0])*x + float64(k[1])*x1 + float64(k[2])*x2 - float64(k[4])*y1 - float64(k[5])*y2) / float64(k[3])
				if q >= chs {
					y = x // surplus channels are left alone
				}
				x2, x1, y2, y1 = x1, x, y1, y
				if !mon.Close(float64(bufs[q][s]), y, 2e-4, 1e-3) {
					c.Failf("D01/direct", "coefficients %v channel %d of %d sample %d: %g, expected %g", k, q, chs, s, bufs[q][s], y)
					return
				}
			}
		}
		c.Distinct("direct", k)
	})
}

func d02(r *mon.Run) {
	r.Par("corner", r.N(40, 1500), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, 8000.0, 11025.0, 22050.0, 32000.0, 44100.0)
		f, q := hotCorner(c, sr), mon.LogUniform(c.Rand, 0.3, 20)
		s := filter.NewSVF(1)
		s.SetFrequencyAndQ(sr, f, q)
		bounded(c, "D02/corner", fmt.Sprintf("%g Hz of %g, Q %g", f, sr, q), func(x float32) float64 {
			y := s.ProcessSample(x, 0)
			return math.Max(math.Max(math.Abs(float64(y.Lowpass)), math.Abs(float64(y.Highpass))), math.Max(math.Abs(float64(y.Bandpass)), math.Abs(float64(y.Notch))))
		})
		c.Distinct("corner", f, q)
	})
	r.Par("response", r.N(250, 10000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		f := mon.LogUniform(c.Rand, sr/2000, sr*0.45)
		q := mon.LogUniform(c.Rand, 0.3, 15)
		s := filter.NewSVF(2)
		if i%2 == 0 {
			s.SetFrequencyAndQ(sr, f, q)
		} else {
			s.SetQ(q)
			s.SetFrequency(sr, f)
		}
		tn := math.Tan(math.Pi * f / sr)
		n := int(math.Min(60000, 14*math.Max(q, 1/q)/tn+600))
		var o [4][]float32
		for k := range o {
			o[k] = make([]float32, n)
		}
		for k := 0; k < n; k++ {
			in := float32(0)
			if k == 0 {
				in = 1
			}
			y := s.ProcessSample(in, 1)
			o[0][k], o[1][k], o[2][k], o[3][k] = y.Lowpass, y.Highpass, y.Bandpass, y.Notch
		}
		for k := 0; k < 8; k++ {
			w := math.Min(mon.LogUniform(c.Rand, 2*math.Atan(tn)/20, math.Pi*0.97), math.Pi*0.97)
			if k == 0 {
				w = 2 * math.Atan(tn)
			}
			if k == 1 {
				w = 0
			}
			p := complex(0, math.Tan(w/2)/tn)
			d := p*p + p*complex(1/q, 0) + 1
			want := [4]complex128{1 / d, p * p / d, p / d, (p*p + 1) / d}
			for t := range want {
				tol := 4e-3 * math.Max(1, q)
				if e := cmplx.Abs(dft(o[t], w) - want[t]); !(e <= tol) {
					c.Failf(fmt.Sprintf("D02/response-%d", t), "f=%g Q=%g at %g: output %d (LP HP BP notch) at %g Hz is %.5g, expected %.5g", f, q, sr, t, w*sr/2/math.Pi, dft(o[t], w), want[t])
					return
				}
			}
			c.Distinct(sr, f, q, w)
		}
		c.Evals(32)
	})
	r.Par("identity", r.N(300, 10000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		f := mon.LogUniform(c.Rand, 20, sr*0.45)
		q := mon.LogUniform(c.Rand, 0.3, 15)
		chs := 1 + c.Rand.IntN(3)
		ref := filter.NewSVF(chs)
		ref.SetFrequencyAndQ(sr, f, q)
		x := noise(c, 400, 1)
		ch := c.Rand.IntN(chs)
		mk := func() *filter.SVF { s := filter.NewSVF(chs); s.SetFrequencyAndQ(sr, f, q); return s }
		var lp, hp, bp, no []float32
		for _, v := range x {
			y := ref.ProcessSample(v, ch)
			lp, hp, bp, no = append(lp, y.Lowpass), append(hp, y.Highpass), append(bp, y.Bandpass), append(no, y.Notch)
			k := 1 / q
			sc := 1 + math.Abs(float64(y.Lowpass)) + math.Abs(float64(y.Bandpass))
			if !(math.Abs(float64(y.Lowpass)+float64(y.Highpass)+k*float64(y.Bandpass)-float64(v)) <= 1e-5*sc) || !(math.Abs(float64(y.Notch)-float64(y.Lowpass)-float64(y.Highpass)) <= 1e-5*sc) {
				c.Failf("D02/sum", "f=%g Q=%g: LP %g HP %g BP %g notch %g from input %g", f, q, y.Lowpass, y.Highpass, y.Bandpass, y.Notch, v)
				return
			}
		}
		eq := func(what string, got []float32, want func(k int) float64) {
			for k := range got {
				if !mon.Close(float64(got[k]), want(k), 1e-4*(1+q), 1e-4) {
					c.Failf("D02/"+what, "f=%g Q=%g: sample %d is %g, expected %g", f, q, k, got[k], want(k))
					return
				}
			}
		}
		// block forms equal the sample form whatever the chunking
		for t, w := range [][]float32{lp, hp, bp, no} {
			y := dup(x)
			s := mk()
			for p := 0; p < len(y); {
				k := min(len(y)-p, 1+c.Rand.IntN(200))
				switch t {
				case 0:
					s.ProcessLowpass(y[p:p+k], ch)
				case 1:
					s.ProcessHighpass(y[p:p+k], ch)
				case 2:
					s.ProcessBandpass(y[p:p+k], ch)
				case 3:
					s.ProcessNotch(y[p:p+k], ch)
				}
				p += k
			}
			eq([]string{"block-lp", "block-hp", "block-bp", "block-notch"}[t], y, func(k int) float64 { return float64(w[k]) })
		}
		m := [4]float64{c.Rand.Float64(), c.Rand.Float64(), c.Rand.Float64(), c.Rand.Float64()}
		y := dup(x)
		mk().ProcessMixed(y, ch, float32(m[0]), float32(m[1]), float32(m[2]), float32(m[3]))
		eq("mixed", y, func(k int) float64 {
			return m[0]*float64(lp[k]) + m[1]*float64(hp[k]) + m[2]*float64(bp[k]) + m[3]*float64(no[k])
		})
		mode := mon.Pick(c.Rand, 0, 0.25, 0.5, 0.75, 1, 2.25, -0.5, c.Rand.Float64(), c.Rand.Float64(), c.Rand.Float64()*6-3)
		mm := filter.NewMultiModeSVF(chs)
		mm.SetFrequencyAndQ(sr, f, q)
		mm.SetMode(mode)
		y = dup(x)
		mm.Process(y, ch)
		ph := (mode - math.Floor(mode)) * 4
		a := int(ph) % 4
		fr := ph - math.Floor(ph)
		seq := [][]float32{lp, bp, hp, no}
		eq("morph", y, func(k int) float64 { return (1-fr)*float64(seq[a][k]) + fr*float64(seq[(a+1)%4][k]) })
		c.Distinct("id", f, q, mode)
	})
	r.Par("modulated", r.N(100, 4000), func(c *mon.C, i int) {
		sr := 48000.0
		s := filter.NewSVF(1)
		worst := 0.0
		q := mon.LogUniform(c.Rand, 0.5, 20)
		for k := 0; k < 20000; k++ {
			if c.Rand.IntN(1+i%50) == 0 {
				s.SetFrequencyAndQ(sr, mon.LogUniform(c.Rand, 20, 20000), q)
			}
			y := s.ProcessSample(float32(c.Rand.Float64()*2-1), 0)
			a := math.Max(math.Abs(float64(y.Lowpass)), math.Abs(float64(y.Bandpass)))
			if !(a <= 1000) {
				c.Failf("D02/modulated", "Q=%g with the cutoff jumping: output reaches %g", q, a)
				return
			}
			worst = math.Max(worst, a)
		}
		c.Distinct("mod", q, i)
		c.Count("modulated_samples", 20000)
	})
}
