package main

import (
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/delay"
	"github.com/justyntemme/vst3go/pkg/dsp/interpolation"
	"verif/harness/mon"
)

// at returns the history value d samples (fractional) before the next write.
func at(h []float32, d float64) float64 {
	pos := float64(len(h)) - d
	k := math.Floor(pos)
	fr := pos - k
	g := func(i int) float64 {
		if i < 0 || i >= len(h) {
			return 0
		}
		return float64(h[i])
	}
	return g(int(k))*(1-fr) + g(int(k)+1)*fr
}

func d03(r *mon.Run) {
	r.Par("line", r.N(600, 20000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		maxN := 1 + c.Rand.IntN(3000)
		if c.Rand.IntN(4) == 0 {
			maxN = 1 + c.Rand.IntN(5)
		}
		maxSec := float64(maxN) / sr
		l := delay.New(maxSec, sr)
		lim := math.Floor(maxSec * sr) // at least this many samples are held
		var h []float32
		if c.Rand.IntN(3) == 0 {
			for k := c.Rand.IntN(50); k > 0; k-- {
				l.Write(1)
			}
			l.Reset()
		}
		d := 1.0
		n := 200 + c.Rand.IntN(2*maxN+10)
		style := c.Rand.IntN(4)
		hist := make([]float32, 0, n)
		for k := 0; k < n; k++ {
			if k == 0 || c.Rand.IntN(30) == 0 || style == 3 {
				switch c.Rand.IntN(5) {
				case 0:
					d = math.Max(1, lim)
				case 1:
					d = 1 + float64(c.Rand.IntN(int(math.Max(1, lim))))
				case 2:
					d = 1
				case 3: // a hair beyond a whole number of samples back
					d = math.Nextafter(math.Max(1, math.Min(float64(1+len(hist)%int(math.Max(1, lim))), lim)), 0)
				default:
					d = mon.Uni(c.Rand, 1, math.Max(1, lim))
				}
				d = math.Max(1, math.Min(d, math.Max(1, lim)))
			}
			x := float32(c.Rand.Float64()*2 - 1)
			want := at(hist, d)
			var got float32
			switch c.Rand.IntN(5) {
			case 0:
				got = l.Read(d)
				l.Write(x)
			case 1:
				got = l.Tap(d)
				l.Write(x)
			case 2:
				got = l.ProcessMs(x, d*1000/sr)
			case 3:
				b := []float32{x}
				l.ProcessBuffer(b, d)
				got = b[0]
			default:
				got = l.Process(x, d)
			}
			hist = append(hist, x)
			if !mon.Close(float64(got), want, 2e-3, 0) {
				c.Failf("D03/read", "line of %d samples at %g: delay %.9g at sample %d gives %g, history holds %g", maxN, sr, d, k, got, want)
				return
			}
		}
		// dry/wet
		mix := float32(c.Rand.Float64())
		l.Reset()
		h = noise(c, 100, 1)
		y := dup(h)
		d = math.Max(1, float64(c.Rand.IntN(int(lim)+1)))
		cut := c.Rand.IntN(100)
		l.ProcessBufferMix(y[:cut], d, mix)
		l.ProcessBufferMix(y[cut:], d, mix)
		for k := range y {
			w := float64(h[k])*(1-float64(mix)) + at(h[:k], d)*float64(mix)
			if !mon.Close(float64(y[k]), w, 1e-5, 0) {
				c.Failf("D03/mix", "mix %g delay %g: sample %d is %g, expected %g", mix, d, k, y[k], w)
				return
			}
		}
		c.Distinct(maxN, d, n)
		c.Evals(n)
	})
	r.Par("long", r.N(24, 400), func(c *mon.C, i int) {
		// ten seconds at high rates: positions far from the start of the line stay exact
		sr := mon.Pick(c.Rand, 48000.0, 96000, 192000)
		sec := mon.Uni(c.Rand, 3, 10)
		l := delay.New(sec, sr)
		n := int(sec * sr)
		w := mon.Uni(c.Rand, 0.2, 1)
		v := func(k int) float32 { return float32(math.Sin(w * float64(k))) }
		tot := n + c.Rand.IntN(n)
		for k := 0; k < tot; k++ {
			l.Write(v(k))
		}
		for q := 0; q < 2000; q++ {
			d := mon.Uni(c.Rand, 1, float64(n))
			pos := float64(tot) - d
			k := math.Floor(pos)
			f := pos - k
			want := float64(v(int(k)))*(1-f) + float64(v(int(k)+1))*f
			if k < 0 {
				continue
			}
			y := float32(0)
			switch q % 3 {
			case 0:
				y = l.Read(d)
			case 1:
				y = l.ReadMs(d * 1000 / sr)
			case 2:
				y = l.Tap(d)
			}
			if !mon.Close(float64(y), want, 2e-3, 0) {
				c.Failf("D03/long-line", "line of %g s at %g: a delay of %.6f samples reads %g, history holds %g", sec, sr, d, y, want)
				return
			}
			c.Distinct("long", n, d)
		}
		c.Evals(2000)
	})
	r.Par("hostile", r.N(300, 10000), func(c *mon.C, i int) {
		n := 1 + c.Rand.IntN(400)
		l := delay.New(float64(n)/48000, 48000)
		for k := 0; k < 3*n; k++ {
			l.Write(float32(c.Rand.Float64()*2 - 1))
			d := mon.AnyF64(c.Rand)
			if c.Rand.IntN(2) == 0 {
				d = mon.Uni(c.Rand, -float64(2*n), float64(3*n))
			}
			if c.Rand.IntN(3) == 0 { // positions that round onto the end of the line
				d = float64(k%(n+1)) * (1 + mon.Pick(c.Rand, 1e-16, 3e-16, 1e-15))
			}
			y := l.Read(d)
			if !(y >= -1 && y <= 1) {
				c.Failf("D03/hostile", "line of %d samples, delay %g reads %g, which was never written", n, d, y)
			}
			c.Distinct("h", n, d)
		}
		// a delay below one sample reads the newest sample, one beyond the end the oldest held
		l2 := delay.New(float64(n)/48000, 48000)
		for k := 0; k < 2*n+5; k++ {
			l2.Write(float32(k))
		}
		last := float32(2*n + 4)
		if y := l2.Read(mon.Pick(c.Rand, 0, 0.25, 0.999, -5, -1e300)); y != last {
			c.Failf("D03/short", "line of %d: a delay below one sample reads the sample written %g samples ago", n, last-y+1)
		}
		if y := l2.Read(mon.Pick(c.Rand, 10, 1e6, 1e300) + float64(n)*2); !(last-y >= float32(n)-1 && last-y <= float32(n)+1) {
			c.Failf("D03/long", "line of %d: an over-long delay reads the sample written %g samples ago", n, last-y+1)
		}
		c.Evals(3 * n)
	})
	r.Par("echo", r.N(200, 5000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		n := 1 + c.Rand.IntN(300)
		fb := c.Rand.Float64()*1.9 - 0.95
		N := 5*n + 10
		ap := delay.NewAllpass(0.1, sr)
		ap.SetFeedback(float32(fb))
		cb := delay.NewComb(0.1, sr)
		cb.SetFeedback(float32(fb))
		damp := mon.Pick(c.Rand, 0, c.Rand.Float64()*0.9)
		cb.SetDamp(float32(damp))
		if i%2 == 0 {
			ap.Process(0, float64(n))
			cb.Process(0, float64(n))
		}
		ya, yc := make([]float32, N), make([]float32, N)
		ya[0], yc[0] = 1, 1
		ap.ProcessBuffer(ya, float64(n))
		cb.ProcessBuffer(yc, float64(n))
		// references
		ra, rc := make([]float64, N), make([]float64, N)
		wa, wc := make([]float64, N), make([]float64, N)
		z := 0.0
		for k := 0; k < N; k++ {
			x := 0.0
			if k == 0 {
				x = 1
			}
			da, dc := 0.0, 0.0
			if k >= n {
				da, dc = wa[k-n], wc[k-n]
			}
			ra[k] = -x + da
			wa[k] = x + da*fb
			rc[k] = dc
			z = dc*(1-damp) + z*damp
			wc[k] = x + z*fb
		}
		for k := 0; k < N; k++ {
			if !mon.Close(float64(ya[k]), ra[k], 1e-5, 1e-4) {
				c.Failf("D03/allpass", "delay %d feedback %g: sample %d is %g, expected %g", n, fb, k, ya[k], ra[k])
				return
			}
			if !mon.Close(float64(yc[k]), rc[k], 1e-5, 1e-4) {
				c.Failf("D03/comb", "delay %d feedback %g damping %g: sample %d is %g, expected %g", n, fb, damp, k, yc[k], rc[k])
				return
			}
		}
		// taps
		nt := 1 + c.Rand.IntN(5)
		if i%10 == 3 {
			nt = mon.Pick(c.Rand, 17, 40, 100, 300)
		}
		mt := delay.NewMultiTap(0.05, sr, nt)
		var taps []delay.TapOutput
		for k := 0; k < nt+c.Rand.IntN(3); k++ {
			taps = append(taps, delay.TapOutput{DelaySamples: float64(1 + c.Rand.IntN(int(0.05*sr)-2)), Gain: float32(c.Rand.Float64()*2 - 1), Pan: float32(c.Rand.Float64()*2 - 1)})
		}
		var h []float32
		okA, okB := true, true // a tap counts the current sample as the first or as none: both conventions are exact delays
		for k := 0; k < 600; k++ {
			x := float32(c.Rand.Float64()*2 - 1)
			var l, rr float32 = 9, 9
			mt.ProcessMultiTap(x, taps, &l, &rr)
			h = append(h, x)
			for conv := 0; conv < 2; conv++ {
				wl, wr := 0.0, 0.0
				for q, t := range taps {
					if q >= nt {
						break
					}
					v := at(h, t.DelaySamples+float64(conv)) * float64(t.Gain)
					an := (float64(t.Pan) + 1) * math.Pi / 4
					wl += v * math.Cos(an)
					wr += v * math.Sin(an)
				}
				if tol := 1e-4 * math.Max(1, float64(nt)/20); !mon.Close(float64(l), wl, tol, 0) || !mon.Close(float64(rr), wr, tol, 0) {
					if conv == 0 {
						okA = false
					} else {
						okB = false
					}
				}
			}
			if !okA && !okB {
				c.Failf("D03/taps", "%d taps %+v: sample %d is %g/%g", nt, taps, k, l, rr)
				return
			}
		}
		// modulated: a delayed, never amplified copy, steady when the depth is zero
		md := delay.NewModulated(0.05, sr)
		center := mon.Uni(c.Rand, 1, 40)
		depth := mon.Pick(c.Rand, 0, mon.Uni(c.Rand, 0, 60))
		md.SetCenterDelay(center)
		md.SetLFO(mon.Uni(c.Rand, 0.01, 20), depth)
		h = h[:0]
		for k := 0; k < 3000; k++ {
			x := float32(c.Rand.Float64()*2 - 1)
			want := at(h, math.Max(1, center*sr/1000))
			y := md.Process(x)
			h = append(h, x)
			if !(y >= -1.0001 && y <= 1.0001) {
				c.Failf("D03/modulated", "center %g ms depth %g ms: output %g from input within 1", center, depth, y)
				return
			}
			if depth == 0 && !mon.Close(float64(y), want, 2e-3, 0) {
				c.Failf("D03/modulated-center", "center %g ms depth 0 at %g: sample %d is %g, expected %g", center, sr, k, y, want)
				return
			}
		}
		// the modulation is a steady sine, period after period, at any rate
		{
			rate := mon.Uni(c.Rand, 20, 400)
			cn := mon.Uni(c.Rand, 5, 20)
			dp := mon.Uni(c.Rand, 0.5, cn-2)
			md := delay.NewModulated(0.1, sr)
			md.SetCenterDelay(cn)
			md.SetLFO(rate, dp)
			w := mon.Uni(c.Rand, 0.001, 0.01)
			h := make([]float32, 0, 12000)
			for k := 0; k < 12000; k++ {
				x := float32(math.Sin(w * float64(k)))
				want := at(h, math.Max(1, (cn+dp*math.Sin(2*math.Pi*rate*float64(k)/sr))*sr/1000))
				y := md.Process(x)
				h = append(h, x)
				if !mon.Close(float64(y), want, 1e-3, 0) {
					c.Failf("D03/modulated-lfo", "center %g ms depth %g ms rate %g Hz at %g: sample %d is %g, expected %g", cn, dp, rate, sr, k, y, want)
					return
				}
			}
		}
		// a reset leaves no echo and no trace in the damping
		ap.Reset()
		cb.Reset()
		mt.Reset()
		for k := 0; k < 40; k++ {
			x := float32(c.Rand.Float64()*2 - 1)
			ap.Process(x, float64(n))
			cb.Process(x, 1)
			mt.Write(x)
		}
		ap.Reset()
		cb.Reset()
		mt.Reset()
		for k := 0; k < 60; k++ {
			var l, rr float32
			mt.ProcessMultiTap(0, taps, &l, &rr)
			if a, b := ap.Process(0, float64(n)), cb.Process(0, 1); a != 0 || b != 0 || l != 0 || rr != 0 {
				c.Failf("D03/reset", "silence after a reset: allpass %g comb %g taps %g/%g at sample %d (damping %g)", a, b, l, rr, k, damp)
				return
			}
		}
		c.Distinct("echo", n, fb, damp, nt, center)
		c.Evals(N + 3600)
	})
}

func d04(r *mon.Run) {
	r.Par("point", r.N(2000, 80000), func(c *mon.C, i int) {
		y := noise(c, 4, 10)
		fr := float32(mon.Pick(c.Rand, 0, 1, 0.5, c.Rand.Float64(), c.Rand.Float64()))
		sc := 30.0
		lin := float64(y[0]) + (float64(y[1])-float64(y[0]))*float64(fr)
		if g := interpolation.Linear(y[0], y[1], fr); !mon.Close(float64(g), lin, 1e-5*sc, 0) {
			c.Failf("D04/linear", "Linear(%g,%g,%g)=%g", y[0], y[1], fr, g)
		}
		for t, f := range []func(a, b, c, d, e float32) float32{interpolation.Cubic, interpolation.Hermite} {
			nm := []string{"cubic", "hermite"}[t]
			if g := f(y[0], y[1], y[2], y[3], 0); !mon.Close(float64(g), float64(y[1]), 1e-5*sc, 0) {
				c.Failf("D04/"+nm+"-start", "%s at 0 is %g, sample %g", nm, g, y[1])
			}
			if g := f(y[0], y[1], y[2], y[3], 1); !mon.Close(float64(g), float64(y[2]), 1e-5*sc, 0) {
				c.Failf("D04/"+nm+"-end", "%s at 1 is %g, sample %g", nm, g, y[2])
			}
			// quadratics are reproduced exactly
			a, b, q := mon.Uni(c.Rand, -2, 2), mon.Uni(c.Rand, -2, 2), mon.Uni(c.Rand, -2, 2)
			p := func(x float64) float64 { return a + b*x + q*x*x }
			if g := f(float32(p(-1)), float32(p(0)), float32(p(1)), float32(p(2)), fr); !mon.Close(float64(g), p(float64(fr)), 1e-4, 1e-4) {
				c.Failf("D04/"+nm+"-poly", "%s of %g+%gx+%gx^2 at %g is %g, expected %g", nm, a, b, q, fr, g, p(float64(fr)))
			}
			// mirrored data give mirrored results
			g1, g2 := f(y[0], y[1], y[2], y[3], fr), f(y[3], y[2], y[1], y[0], 1-fr)
			if !mon.Close(float64(g1), float64(g2), 1e-4*sc, 0) {
				c.Failf("D04/"+nm+"-mirror", "%s of %v at %g: %g, mirrored %g", nm, y, fr, g1, g2)
			}
		}
		c.Distinct(y[0], y[1], fr)
		// kernels
		n := 1 + c.Rand.IntN(80)
		b := noise(c, n, 1)
		a := c.Rand.IntN(6)
		win := 2 * (1 + c.Rand.IntN(16))
		idx := c.Rand.IntN(n+8) - 4
		if idx >= 0 && idx < n {
			if g := interpolation.Lanczos(b, idx, 0, a); !mon.Close(float64(g), float64(b[idx]), 1e-5, 0) {
				c.Failf("D04/lanczos-node", "Lanczos a=%d at node %d is %g, sample %g", a, idx, g, b[idx])
			}
			if g := interpolation.Sinc(b, idx, 0, win); !mon.Close(float64(g), float64(b[idx]), 1e-5, 0) {
				c.Failf("D04/sinc-node", "Sinc window %d at node %d is %g, sample %g", win, idx, g, b[idx])
			}
		}
		{ // the Lanczos kernel sinc(x) sinc(x/a), zero outside the data
			fr := float32(mon.Pick(c.Rand, float64(fr), 0.25, 0.7))
			a := 1 + c.Rand.IntN(8)
			want := 0.0
			for q := range b {
				x := float64(q-idx) - float64(fr)
				k := 1.0
				if math.Abs(x) >= float64(a) {
					k = 0
				} else if x != 0 {
					k = math.Sin(math.Pi*x) / (math.Pi * x) * math.Sin(math.Pi*x/float64(a)) / (math.Pi * x / float64(a))
				}
				want += k * float64(b[q])
			}
			if g := interpolation.Lanczos(b, idx, fr, a); !mon.Close(float64(g), want, 2e-4, 0) {
				c.Failf("D04/lanczos-kernel", "Lanczos a=%d at %d+%g is %g, expected %g", a, idx, fr, g, want)
			}
		}
		// linear in the data, bounded, and blind to samples outside the window
		for t := 0; t < 2; t++ {
			k := func(x []float32) float64 {
				if t == 0 {
					return float64(interpolation.Lanczos(x, idx, fr, a))
				}
				return float64(interpolation.Sinc(x, idx, fr, win))
			}
			nm := []string{"lanczos", "sinc"}[t]
			half := win/2 + 1
			if t == 0 {
				half = a
				if a < 1 {
					half = 2
				}
				half++
			}
			v := k(b)
			if !(math.Abs(v) <= 5) {
				c.Failf("D04/"+nm+"-bound", "%s of data within 1 is %g", nm, v)
			}
			x2 := dup(b)
			for q := range x2 {
				x2[q] *= 2
				if q < idx-half || q > idx+half {
					x2[q] = 1e6
				}
			}
			if g := k(x2); !mon.Close(g, 2*v, 1e-4, 1e-4) {
				c.Failf("D04/"+nm+"-local", "%s depends on samples outside its window or is not linear: %g against %g", nm, g, 2*v)
			}
		}
		// a slow tone is reproduced by wide kernels
		if i%4 == 0 {
			w := mon.Uni(c.Rand, 0.01, 0.6)
			s := make([]float32, 120)
			for q := range s {
				s[q] = float32(math.Sin(w * float64(q)))
			}
			want := math.Sin(w * (60 + float64(fr)))
			if g := interpolation.Lanczos(s, 60, fr, 3+c.Rand.IntN(4)); !mon.Close(float64(g), want, 0.03, 0) {
				c.Failf("D04/lanczos-tone", "tone at %g rad: %g at +%g, expected %g", w, g, fr, want)
			}
			// the windowed sinc is not renormalised off the nodes: only the shape near the node is promised
			if g := interpolation.Sinc(s, 60, fr, 32); fr < 1 && !mon.Close(float64(g), want, 0.06, 0) {
				c.Failf("D04/sinc-tone", "tone at %g rad: %g at +%g, expected %g", w, g, fr, want)
			}
		}
	})
	r.Par("resample", r.N(300, 10000), func(c *mon.C, i int) {
		n := c.Rand.IntN(400)
		in := noise(c, n, 1)
		ratio := float32(mon.Pick(c.Rand, 1, 2, 0.5, 4, mon.LogUniform(c.Rand, 0.1, 10)))
		outN := c.Rand.IntN(1500)
		for t := 0; t < 2; t++ {
			out := make([]float32, outN)
			for k := range out {
				out[k] = 7
			}
			var w int
			minLen := 2
			edge := 1
			if t == 0 {
				w = interpolation.Resample(in, ratio, out)
			} else {
				w = interpolation.ResampleCubic(in, ratio, out)
				minLen, edge = 4, 2
			}
			// number produced: every position that has data on both sides, as far as the output reaches
			cnt := 0
			if n >= minLen {
				for cnt < outN && float32(cnt)/ratio < float32(n)-float32(edge) {
					cnt++
				}
			}
			if d := w - cnt; d < -1 || d > 1 {
				c.Failf("D04/resample-count", "resampling %d samples by %g into %d produced %d, expected %d", n, ratio, outN, w, cnt)
				return
			}
			for k := 0; k < outN; k++ {
				if k >= w {
					if out[k] != 7 {
						c.Failf("D04/resample-beyond", "sample %d written beyond the reported %d", k, w)
						return
					}
					continue
				}
				p := float64(k) / float64(ratio)
				if k >= cnt {
					continue
				}
				q := int(p)
				f := p - float64(q)
				var want float64
				if t == 0 || q < 1 || q+2 >= n {
					hi := float64(in[min(q+1, n-1)])
					want = float64(in[q])*(1-f) + hi*f
				} else {
					y0, y1, y2, y3 := float64(in[q-1]), float64(in[q]), float64(in[q+1]), float64(in[q+2])
					want = ((0.5*(y3-y0+3*(y1-y2))*f+(y0-2.5*y1+2*y2-0.5*y3))*f+0.5*(y2-y0))*f + y1
				}
				if !mon.Close(float64(out[k]), want, 2e-3, 1e-3) {
					c.Failf("D04/resample", "kind %d ratio %g: output %d is %g, input at %g is %g", t, ratio, k, out[k], p, want)
					return
				}
			}
			c.Distinct("rs", t, n, ratio, outN)
		}
		for _, bad := range []float32{0, -1} {
			if interpolation.Resample(in, bad, make([]float32, 4)) != 0 || interpolation.ResampleCubic(in, bad, make([]float32, 4)) != 0 {
				c.Failf("D04/resample-bad", "ratio %g produced output", bad)
			}
		}
	})
	r.Par("allpass", r.N(200, 4000), func(c *mon.C, i int) {
		fr := mon.Uni(c.Rand, 0.05, 1)
		ap := interpolation.NewAllPass()
		ap.Process(0.3, 0.5)
		ap.Reset()
		// low-frequency tone: unit gain, delayed by the fraction
		w := mon.Uni(c.Rand, 0.005, 0.1)
		var e, p float64
		for k := 0; k < 6000; k++ {
			y := float64(ap.Process(float32(math.Sin(w*float64(k))), float32(fr)))
			if k > 3000 {
				d := y - math.Sin(w*(float64(k)-fr))
				e += d * d
				p++
			}
		}
		if rms := math.Sqrt(e / p); rms > 0.01*w/0.1+1e-4 {
			c.Failf("D04/allpass-delay", "fraction %g: a tone of %g rad comes out off by %g rms from the delayed tone", fr, w, rms)
		}
		// all frequencies pass with unit gain: energy of the impulse response is one
		ap.Reset()
		en := 0.0
		for k := 0; k < 20000; k++ {
			x := float32(0)
			if k == 0 {
				x = 1
			}
			y := float64(ap.Process(x, float32(fr)))
			en += y * y
		}
		if !(math.Abs(en-1) <= 1e-3) {
			c.Failf("D04/allpass-gain", "fraction %g: impulse energy %g", fr, en)
		}
		c.Distinct("ap", fr, w)
		// smoothing helpers
		cur, tgt, k := c.Rand.Float32(), c.Rand.Float32(), c.Rand.Float32()
		v := interpolation.Smooth(cur, tgt, k)
		if !mon.Close(float64(v), float64(cur)+(float64(tgt)-float64(cur))*float64(k), 1e-5, 0) {
			c.Failf("D04/smooth", "Smooth(%g,%g,%g)=%g", cur, tgt, k, v)
		}
		b := noise(c, 20, 1)
		b0 := dup(b)
		interpolation.SmoothBuffer(b, tgt, k)
		for q := range b {
			if b[q] != interpolation.Smooth(b0[q], tgt, k) {
				c.Failf("D04/smooth-buffer", "sample %d: %g", q, b[q])
			}
		}
	})
}
