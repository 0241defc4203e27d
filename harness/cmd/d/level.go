package main

import (
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp"
	"github.com/justyntemme/vst3go/pkg/dsp/gain"
	"github.com/justyntemme/vst3go/pkg/dsp/mix"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
	"verif/harness/mon"
)

func d09(r *mon.Run) {
	r.Case("db", func(c *mon.C) {
		prev, prevL := math.Inf(-1), -1.0
		for e := -14.0; e <= 5; e += 0.003 {
			l := math.Pow(10, e)
			d := gain.LinearToDb(l)
			if w := math.Max(gain.MinDB, 20*math.Log10(l)); !(math.Abs(d-w) <= 1e-9) {
				c.Failf("D09/db", "%g is %g dB, expected %g", l, d, w)
			}
			if d < prev || d < gain.LinearToDb(0) {
				c.Failf("D09/db-monotone", "%g is %g dB, less than a smaller level (%g dB; zero is %g dB)", l, d, prev, gain.LinearToDb(0))
			}
			if d32 := gain.LinearToDb32(float32(l)); !(math.Abs(float64(d32)-d) <= 1e-3) {
				c.Failf("D09/db32", "%g: %g against %g dB", l, d32, d)
			}
			if d > -199.9 {
				if b := gain.DbToLinear(d); !mon.Close(b, l, 0, 1e-9) {
					c.Failf("D09/roundtrip", "%g -> %g dB -> %g", l, d, b)
				}
			}
			prev = d
			c.Distinct(e)
		}
		for d := -260.0; d <= 100; d += 0.01 {
			l := gain.DbToLinear(d)
			w := math.Pow(10, d/20)
			if d <= gain.MinDB {
				w = 0
			}
			if !mon.Close(l, w, 0, 1e-9) || l < prevL {
				c.Failf("D09/lin", "%g dB is %g, expected %g", d, l, w)
			}
			if l32 := gain.DbToLinear32(float32(d)); !mon.Close(float64(l32), float64(float32(math.Pow(10, float64(float32(d))/20))), 0, 1e-5) && float32(d) > gain.MinDB {
				c.Failf("D09/lin32", "%g dB is %g in single precision", d, l32)
			}
			prevL = l
			c.Distinct("lin", d)
		}
		for _, v := range []float64{0, -0.5, math.Inf(-1), -1e-300} {
			if gain.LinearToDb(v) != gain.MinDB || float64(gain.LinearToDb32(float32(v))) != gain.MinDB {
				c.Failf("D09/nonpositive", "%g is %g dB", v, gain.LinearToDb(v))
			}
		}
		if gain.LinearToDb(1) != 0 || gain.DbToLinear(0) != 1 {
			c.Failf("D09/unity", "unity is %g dB", gain.LinearToDb(1))
		}
		c.Evals(40000)
	})
	r.Par("apply", r.N(400, 20000), func(c *mon.C, i int) {
		n := c.Rand.IntN(600)
		x := noise(c, n, 2)
		g := float32(mon.Pick(c.Rand, mon.Uni(c.Rand, -3, 3), mon.Uni(c.Rand, -3, 3), 0, 1, -1))
		db := float32(mon.Uni(c.Rand, -100, 20))
		eq := func(what string, got []float32, want func(k int) float64) {
			for k := range got {
				if !mon.Close(float64(got[k]), want(k), 1e-6, 1e-5) {
					c.Failf("D09/"+what, "gain %g (%g dB): sample %d is %g, expected %g", g, db, k, got[k], want(k))
					return
				}
			}
		}
		y := dup(x)
		gain.ApplyBuffer(y, g)
		eq("apply", y, func(k int) float64 { return float64(x[k]) * float64(g) })
		y = dup(x)
		gain.ApplyDbBuffer(y, db)
		lin := math.Pow(10, float64(db)/20)
		eq("apply-db", y, func(k int) float64 { return float64(x[k]) * lin })
		if n > 0 {
			if gain.Apply(x[0], g) != x[0]*g || !mon.Close(float64(gain.ApplyDb(x[0], db)), float64(x[0])*lin, 1e-6, 1e-5) {
				c.Failf("D09/apply1", "sample %g gain %g / %g dB: %g, %g", x[0], g, db, gain.Apply(x[0], g), gain.ApplyDb(x[0], db))
			}
		}
		m := c.Rand.IntN(700)
		dst := noise(c, m, 1)
		d0 := dup(dst)
		gain.ApplyBufferTo(x, g, dst)
		eq("apply-to", dst, func(k int) float64 {
			if k < n {
				return float64(x[k]) * float64(g)
			}
			return float64(d0[k])
		})
		// fades start and end exactly and are straight
		a, b := mon.Uni(c.Rand, -1, 2), mon.Uni(c.Rand, -1, 2)
		one := make([]float32, n)
		for k := range one {
			one[k] = 1
		}
		gain.Fade(one, float32(a), float32(b))
		fadeEq := func(what string, a, b float64) {
			for k := range one {
				w := a
				if n > 1 {
					w = a + (b-a)*float64(k)/float64(n-1)
				}
				if !mon.Close(float64(one[k]), w, 2e-4, 0) {
					c.Failf("D09/"+what, "fade %g to %g over %d: sample %d is %g, expected %g", a, b, n, k, one[k], w)
					return
				}
				one[k] = 1
			}
		}
		fadeEq("fade", a, b)
		da, dbb := mon.Uni(c.Rand, -80, 6), mon.Uni(c.Rand, -80, 6)
		gain.FadeDb(one, float32(da), float32(dbb))
		fadeEq("fade-db", math.Pow(10, da/20), math.Pow(10, dbb/20))
		// clipping
		t := mon.LogUniform(c.Rand, 0.01, 2)
		hc, sc := dup(x), dup(x)
		gain.HardClipBuffer(hc, float32(t))
		gain.SoftClipBuffer(sc, float32(t))
		t = float64(float32(t))
		for k, v := range x {
			w := math.Max(-t, math.Min(t, float64(v)))
			if float64(hc[k]) != w || gain.HardClip(v, float32(t)) != hc[k] {
				c.Failf("D09/hardclip", "hard clip of %g at %g is %g", v, t, hc[k])
			}
			s := float64(sc[k])
			if gain.SoftClip(v, float32(t)) != sc[k] || gain.SoftClip(-v, float32(t)) != -sc[k] {
				c.Failf("D09/softclip-odd", "soft clip of %g at %g: buffer %g, sample %g, negated %g", v, t, s, gain.SoftClip(v, float32(t)), gain.SoftClip(-v, float32(t)))
			}
			if math.Abs(float64(v)) <= t && s != float64(v) {
				c.Failf("D09/softclip-clean", "soft clip at %g changes %g to %g", t, v, s)
			}
			if !(math.Abs(s) <= t*1.1*(1+1e-6)) || !(math.Abs(s) <= math.Abs(float64(v))*(1+1e-6)) || s*float64(v) < 0 {
				c.Failf("D09/softclip-bound", "soft clip of %g at %g is %g", v, t, s)
			}
		}
		c.Distinct(n, g, db, t)
	})
	r.Par("softclip", r.N(50, 2000), func(c *mon.C, i int) {
		t := float32(mon.LogUniform(c.Rand, 0.01, 2))
		prev := gain.SoftClip(t*1.0005, t)
		for k := 0; k < 3000; k++ {
			v := t * (1.001 + float32(k)*0.002)
			y := gain.SoftClip(v, t)
			if y < prev-t*1e-5 || y-prev > 0.01*t {
				c.Failf("D09/softclip-shape", "soft clip at %g: %g -> %g after %g", t, v, y, prev)
				return
			}
			prev = y
		}
		if prev < 0.95*t {
			c.Failf("D09/softclip-limit", "soft clip at %g approaches %g", t, prev)
		}
		if y := gain.SoftClip(t*1.0005, t); y < t*0.99 {
			c.Failf("D09/softclip-step", "soft clip at %g: the threshold passes unchanged but %g, a hair above, comes out as %g", t, t*1.0005, y)
		}
		c.Distinct("sc", t)
	})
}

func d10(r *mon.Run) {
	r.Par("mix", r.N(500, 20000), func(c *mon.C, i int) {
		ln := func() int {
			if i%50 == 9 {
				return c.Rand.IntN(20000)
			}
			return mon.Pick(c.Rand, 0, 1, c.Rand.IntN(300), 64, 64)
		}
		a, b, d := noise(c, ln(), 1), noise(c, ln(), 1), noise(c, ln(), 1)
		w := float32(mon.Pick(c.Rand, 0, 1, 0.5, c.Rand.Float64()))
		W := float64(w)
		nab := min(len(a), len(b))
		nabd := min(nab, len(d))
		lin := func(k int) float64 { return float64(a[k])*(1-W) + float64(b[k])*W }
		ca, cb := math.Cos(W*math.Pi/2), math.Sin(W*math.Pi/2)
		pow := func(k int) float64 { return float64(a[k])*ca + float64(b[k])*cb }
		chk := func(what string, got, orig []float32, n int, want func(k int) float64) {
			for k := range got {
				e := float64(orig[k])
				if k < n {
					e = want(k)
				}
				if !mon.Close(float64(got[k]), e, 1e-5, 1e-5) {
					c.Failf("D10/"+what, "lengths %d %d %d amount %g: sample %d is %g, expected %g", len(a), len(b), len(d), w, k, got[k], e)
					return
				}
			}
		}
		y := dup(a)
		mix.DryWetBuffer(y, b, w)
		chk("drywet", y, a, nab, lin)
		y = dup(d)
		mix.DryWetBufferTo(a, b, w, y)
		chk("drywet-to", y, d, nabd, lin)
		y = dup(d)
		mix.CrossfadeBuffer(a, b, w, false, y)
		chk("crossfade-linear", y, d, nabd, lin)
		y = dup(d)
		mix.CrossfadeBuffer(a, b, w, true, y)
		chk("crossfade-power", y, d, nabd, pow)
		y = dup(d)
		mix.Blend(a, b, 2*w-1, y)
		chk("blend", y, d, nabd, pow)
		y = dup(d)
		dsp.Mix(y, a, b, w)
		chk("dsp-mix", y, d, nabd, lin)
		if nab > 0 {
			if g := mix.DryWet(a[0], b[0], w); !mon.Close(float64(g), lin(0), 1e-5, 0) {
				c.Failf("D10/drywet1", "DryWet(%g,%g,%g)=%g", a[0], b[0], w, g)
			}
			if g := mix.CrossfadeLinear(a[0], b[0], w); !mon.Close(float64(g), lin(0), 1e-5, 0) {
				c.Failf("D10/linear1", "CrossfadeLinear(%g,%g,%g)=%g", a[0], b[0], w, g)
			}
			if g := mix.CrossfadeCosine(a[0], b[0], w); !mon.Close(float64(g), pow(0), 1e-5, 0) {
				c.Failf("D10/cosine1", "CrossfadeCosine(%g,%g,%g)=%g", a[0], b[0], w, g)
			}
		}
		// sums of buffers of any lengths
		nb := c.Rand.IntN(6)
		var bs [][]float32
		var gs []float32
		for k := 0; k < nb; k++ {
			bs = append(bs, noise(c, ln(), 1))
		}
		for k := c.Rand.IntN(nb + 2); k > 0; k-- {
			gs = append(gs, float32(mon.Uni(c.Rand, -2, 2)))
		}
		sum := func(k int, g []float32) float64 {
			s := 0.0
			for q, x := range bs {
				m := 1.0
				if g != nil && q < len(g) {
					m = float64(g[q])
				}
				if k < len(x) {
					s += m * float64(x[k])
				}
			}
			return s
		}
		nd := len(d)
		if nb == 0 {
			nd = 0
		}
		y = dup(d)
		if p := mon.Try(func() { mix.Sum(bs, y) }); p != nil {
			c.Failf("D10/sum-panic", "Sum of lengths %v into %d: %v", lens(bs), len(d), p)
		} else {
			chk("sum", y, d, nd, func(k int) float64 { return sum(k, nil) })
		}
		y = dup(d)
		if p := mon.Try(func() { mix.SumWeighted(bs, gs, y) }); p != nil {
			c.Failf("D10/sum-panic", "SumWeighted of lengths %v into %d: %v", lens(bs), len(d), p)
		} else {
			g2 := gs
			if g2 == nil {
				g2 = []float32{}
			}
			chk("sum-weighted", y, d, nd, func(k int) float64 { return sum(k, g2) })
		}
		c.Distinct(len(a), len(b), len(d), w, nb)
		c.Evals(10)
	})
	r.Par("buffer", r.N(500, 20000), func(c *mon.C, i int) {
		most := 700
		if i%50 == 9 {
			most = 120000
		}
		a, b := noise(c, c.Rand.IntN(most), mon.LogUniform(c.Rand, 1e-4, 10)), noise(c, c.Rand.IntN(most), 1)
		n := min(len(a), len(b))
		s := float32(mon.Uni(c.Rand, -2, 2))
		eq := func(what string, got []float32, want func(k int) float64) {
			for k := range got {
				if !mon.Close(float64(got[k]), want(k), 1e-6, 1e-5) {
					c.Failf("D10/"+what, "lengths %d %d: sample %d is %g, expected %g", len(a), len(b), k, got[k], want(k))
					return
				}
			}
		}
		at := func(x []float32, k int) float64 {
			if k < len(x) {
				return float64(x[k])
			}
			return 0
		}
		y := dup(a)
		dsp.Clear(y)
		eq("clear", y, func(k int) float64 { return 0 })
		y = dup(a)
		dsp.Copy(y, b)
		eq("copy", y, func(k int) float64 {
			if k < n {
				return float64(b[k])
			}
			return float64(a[k])
		})
		y = dup(a)
		dsp.Add(y, b)
		eq("add", y, func(k int) float64 { return float64(a[k]) + at(b, k) })
		y = dup(a)
		dsp.AddScaled(y, b, s)
		eq("addscaled", y, func(k int) float64 { return float64(a[k]) + at(b, k)*float64(s) })
		y = dup(a)
		dsp.Scale(y, s)
		eq("scale", y, func(k int) float64 { return float64(a[k]) * float64(s) })
		pk, sq := 0.0, 0.0
		for _, v := range a {
			pk = math.Max(pk, math.Abs(float64(v)))
			sq += float64(v) * float64(v)
		}
		if float64(dsp.Peak(a)) != pk {
			c.Failf("D10/peak", "peak %g, expected %g", dsp.Peak(a), pk)
		}
		if len(a) > 0 { // what is over range counts too
			q := dup(a)
			q[c.Rand.IntN(len(q))] = mon.Pick(c.Rand, float32(math.Inf(-1)), float32(math.Inf(1)), -math.MaxFloat32, -1e10)
			w := 0.0
			for _, v := range q {
				w = math.Max(w, math.Abs(float64(v)))
			}
			if float64(dsp.Peak(q)) != w {
				c.Failf("D10/peak", "peak %g, expected %g", dsp.Peak(q), w)
			}
		}
		rms := 0.0
		if len(a) > 0 {
			rms = math.Sqrt(sq / float64(len(a)))
		}
		if !mon.Close(float64(dsp.RMS(a)), rms, 1e-9, 1e-3) {
			c.Failf("D10/rms", "rms %g, expected %g", dsp.RMS(a), rms)
		}
		t := mon.Uni(c.Rand, 0, 1)
		y = dup(a)
		dsp.Clip(y, float32(t))
		eq("clip", y, func(k int) float64 {
			return math.Max(-float64(float32(t)), math.Min(float64(float32(t)), float64(a[k])))
		})
		y = dup(a)
		dsp.SoftClip(y, float32(t))
		T := float64(float32(t))
		for k, v := range y {
			x := float64(a[k])
			w := x
			if !(math.Abs(x) <= T) {
				w = math.Copysign(T+(1-T)*math.Tanh(math.Abs(x)-T), x)
			}
			if !(math.Abs(float64(v)) <= 1+1e-6) || math.Abs(x) <= T && float64(v) != x || !(math.Abs(float64(v)-w) <= 0.05) || !(math.Abs(float64(v)) <= math.Abs(x)+1e-6) {
				c.Failf("D10/softclip", "soft clip of %g at %g is %g", x, T, v)
				break
			}
		}
		c.Distinct("b", len(a), len(b), s)
		if i == 0 {
			c.Sample("shape", fmt.Sprint(len(a), len(b)))
		}
	})
}

func lens(b [][]float32) (o []int) {
	for _, x := range b {
		o = append(o, len(x))
	}
	return
}

func d11(r *mon.Run) {
	laws := []pan.Law{pan.Linear, pan.ConstantPower, pan.Balanced}
	names := []string{"linear", "constant-power", "balanced"}
	r.Case("law", func(c *mon.C) {
		for li, law := range laws {
			var pl, pr float32
			N := 4000
			for k := 0; k <= N; k++ {
				p := float32(2*k-N) / float32(N)
				l, rr := pan.MonoToStereo(p, law)
				l2, r2 := pan.MonoToStereo(-p, law)
				if !(math.Abs(float64(l-r2)) <= 1e-6) || !(math.Abs(float64(rr-l2)) <= 1e-6) {
					c.Failf("D11/mirror", "%s at %g: %g/%g, mirrored %g/%g", names[li], p, l, rr, l2, r2)
				}
				if l < 0 || rr < 0 || l > 1.0001 || rr > 1.0001 {
					c.Failf("D11/range", "%s at %g: gains %g/%g", names[li], p, l, rr)
				}
				if k > 0 && (l > pl+1e-6 || rr < pr-1e-6) {
					c.Failf("D11/monotone", "%s at %g: %g/%g after %g/%g", names[li], p, l, rr, pl, pr)
				}
				if k > 0 && (!(math.Abs(float64(l-pl)) <= 0.002) || !(math.Abs(float64(rr-pr)) <= 0.002)) {
					c.Failf("D11/step", "%s at %g: gain jumps %g/%g -> %g/%g", names[li], p, pl, pr, l, rr)
				}
				pl, pr = l, rr
				L, R := float64(l), float64(rr)
				switch law {
				case pan.Linear:
					if !(math.Abs(L+R-1) <= 1e-6) {
						c.Failf("D11/linear", "gains at %g sum to %g", p, L+R)
					}
				case pan.ConstantPower:
					if !(math.Abs(L*L+R*R-1) <= 1e-5) {
						c.Failf("D11/power", "power at %g is %g", p, L*L+R*R)
					}
				case pan.Balanced:
					if k == N/2 && !(math.Abs(20*math.Log10(L)+4.5) <= 0.1) {
						c.Failf("D11/balanced-center", "balanced law at the center is %g dB, documented -4.5", 20*math.Log10(L))
					}
				}
				c.Distinct(li, k)
			}
			l, rr := pan.MonoToStereo(-1, law)
			if !(math.Abs(float64(l)-1) <= 1e-5) || !(math.Abs(float64(rr)) <= 1e-6) {
				c.Failf("D11/left", "%s hard left: %g/%g", names[li], l, rr)
			}
			l, rr = pan.MonoToStereo(1, law)
			if !(math.Abs(float64(rr)-1) <= 1e-5) || !(math.Abs(float64(l)) <= 1e-6) {
				c.Failf("D11/right", "%s hard right: %g/%g", names[li], l, rr)
			}
		}
		c.Evals(12000)
	})
	r.Par("process", r.N(400, 15000), func(c *mon.C, i int) {
		law := laws[i%3]
		p := float32(mon.Pick(c.Rand, -1, 0, 1, 0.001, -0.001, c.Rand.Float64()*2-1, c.Rand.Float64()*2-1))
		ln := func() int { return mon.Pick(c.Rand, 80, 80, c.Rand.IntN(100)) }
		a, b := noise(c, ln(), 1), noise(c, ln(), 1)
		lo, ro := noise(c, ln(), 1), noise(c, ln(), 1)
		l0, r0 := dup(lo), dup(ro)
		gl, gr := pan.MonoToStereo(p, law)
		chk := func(what string, n int, wl, wr func(k int) float64) {
			for s, y := range [][]float32{lo, ro} {
				o := [][]float32{l0, r0}[s]
				f := []func(int) float64{wl, wr}[s]
				for k := range y {
					w := float64(o[k])
					if k < n {
						w = f(k)
					}
					if !mon.Close(float64(y[k]), w, 1e-5, 0) {
						c.Failf("D11/"+what, "%s pan %g: side %d sample %d is %g, expected %g", names[i%3], p, s, k, y[k], w)
						return
					}
				}
			}
			copy(lo, l0)
			copy(ro, r0)
		}
		A := func(k int) float64 { return float64(a[k]) }
		B := func(k int) float64 { return float64(b[k]) }
		n1 := min(len(a), len(lo), len(ro))
		n2 := min(n1, len(b))
		pan.Process(a, p, law, lo, ro)
		chk("mono", n1, func(k int) float64 { return A(k) * float64(gl) }, func(k int) float64 { return A(k) * float64(gr) })
		c0, _ := pan.MonoToStereo(0, law)
		kl, kr := 1.0, 1.0
		if p < 0 {
			kr = float64(gr) / float64(c0)
		} else if p > 0 {
			kl = float64(gl) / float64(c0)
		}
		pan.ProcessStereo(a, b, p, law, lo, ro)
		chk("stereo", n2, func(k int) float64 { return A(k) * kl }, func(k int) float64 { return B(k) * kr })
		bl, br := math.Min(1, 1-float64(p)), math.Min(1, 1+float64(p))
		pan.Balance(a, b, p, lo, ro)
		chk("balance", n2, func(k int) float64 { return A(k) * bl }, func(k int) float64 { return B(k) * br })
		w := mon.Pick(c.Rand, 0, 1, 2, c.Rand.Float64()*2)
		pan.Width(a, b, float32(w), lo, ro)
		chk("width", n2, func(k int) float64 { return (A(k)+B(k))/2 + w*(A(k)-B(k))/2 }, func(k int) float64 { return (A(k)+B(k))/2 - w*(A(k)-B(k))/2 })
		// in place
		x, y := dup(a), dup(b)
		pan.Width(x, y, float32(w), x, y)
		for k := 0; k < min(len(a), len(b)); k++ {
			if !mon.Close(float64(x[k]), (A(k)+B(k))/2+w*(A(k)-B(k))/2, 1e-5, 0) || !mon.Close(float64(y[k]), (A(k)+B(k))/2-w*(A(k)-B(k))/2, 1e-5, 0) {
				c.Failf("D11/width-inplace", "width %g in place: sample %d is %g/%g", w, k, x[k], y[k])
				break
			}
		}
		c.Distinct("p", p, i%3, len(a))
	})
	r.Par("auto", r.N(60, 2000), func(c *mon.C, i int) {
		law := laws[i%3]
		rate, depth := float32(mon.LogUniform(c.Rand, 0.1, 20)), float32(mon.Pick(c.Rand, 0, 1, c.Rand.Float64()))
		sr := float32(mon.Pick(c.Rand, 44100.0, 48000, 96000, 2000, 8000))
		ap := pan.NewAutoPan(rate, depth, law)
		n := 20000
		one := make([]float32, n)
		for k := range one {
			one[k] = 1
		}
		lo, ro := make([]float32, n), make([]float32, n)
		ph, dep := make([]float64, n), make([]float32, n)
		angle := 0.0
		for p := 0; p < n; {
			k := min(n-p, 1+c.Rand.IntN(3000))
			if i%3 == 2 && c.Rand.IntN(3) == 0 { // settings moved on the way; the phase keeps turning
				if c.Rand.IntN(2) == 0 {
					depth = float32(mon.Pick(c.Rand, 0, 1, c.Rand.Float64()))
					ap.SetDepth(depth)
				} else {
					rate = float32(mon.LogUniform(c.Rand, 0.1, 20))
					ap.SetRate(rate)
				}
			}
			ap.Process(one[p:p+k], sr, lo[p:p+k], ro[p:p+k])
			for q := p; q < p+k; q++ {
				ph[q], dep[q] = angle, depth
				angle += 2 * math.Pi * float64(rate) / float64(sr)
			}
			p += k
		}
		for k := range lo {
			pp := float32(math.Sin(ph[k])) * dep[k]
			l, rr := pan.MonoToStereo(pp, law)
			if !(math.Abs(float64(lo[k]-l)) <= 0.03) || !(math.Abs(float64(ro[k]-rr)) <= 0.03) {
				c.Failf("D11/auto", "%s rate %g depth %g: sample %d is %g/%g, expected %g/%g", names[i%3], rate, depth, k, lo[k], ro[k], l, rr)
				return
			}
		}
		// channels of different lengths: the shortest one counts
		for _, m := range [][3]int{{9, 5, 7}, {9, 7, 5}, {5, 9, 9}, {0, 4, 4}, {4, 0, 4}, {4, 4, 0}} {
			a, b := make([]float32, 10), make([]float32, 10)
			for k := range a {
				a[k], b[k] = 77, 77
			}
			c.NoPanic("D11/auto-length", func() { ap.Process(one[:m[0]], sr, a[:m[1]], b[:m[2]]) })
			w := min(m[0], m[1], m[2])
			for k := range a {
				if (a[k] != 77 || b[k] != 77) != (k < w) {
					c.Failf("D11/auto-length", "lengths %v: sample %d is %g/%g", m, k, a[k], b[k])
					return
				}
			}
		}
		ap.Reset()
		x, y := make([]float32, 1), make([]float32, 1)
		ap.Process(one[:1], sr, x, y)
		l, rr := pan.MonoToStereo(0, law)
		if !(math.Abs(float64(x[0]-l)) <= 1e-4) || !(math.Abs(float64(y[0]-rr)) <= 1e-4) {
			c.Failf("D11/auto-reset", "first sample after a reset %g/%g", x[0], y[0])
		}
		c.Distinct("auto", rate, depth)
	})
}
