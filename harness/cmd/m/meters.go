package main

import (
	"math"
	"math/rand/v2"
	"sort"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	"verif/harness/mon"
)

// levels is a recording whose loudness keeps changing, exact silence included.
func levels(r *rand.Rand, n int) []float64 {
	x := make([]float64, n)
	for i := 0; i < n; {
		m := 1 + r.IntN(n/3+2)
		amp, kind, w := mon.LogUniform(r, 1e-5, 2), r.IntN(5), mon.LogUniform(r, 0.001, 3)
		for k := 0; k < m && i < n; k, i = k+1, i+1 {
			switch kind {
			case 0:
			case 1:
				x[i] = amp * math.Sin(w*float64(k))
			case 2:
				x[i] = amp * (2*r.Float64() - 1)
			case 3:
				x[i] = -amp
			case 4:
				if k%17 == 0 {
					x[i] = amp
				}
			}
		}
	}
	return x
}

// cuts splits n samples into blocks, empty ones included.
func cuts(r *rand.Rand, n int) []int {
	var o []int
	style := r.IntN(3)
	for n > 0 {
		k := 0
		switch style {
		case 0:
			k = mon.Pick(r, 0, 1, 64, 512, 1+r.IntN(4096))
		case 1:
			k = 256
		case 2:
			k = 1 + r.IntN(20000)
		}
		k = min(k, n)
		o = append(o, k)
		n -= k
	}
	return o
}

func log20(x float64) float64 { return 20 * math.Log10(x) }

func m03(r *mon.Run) {
	r.Par("peak", r.N(300, 5000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, 8000.0, 44100, 48000, 192000)
		pm := analysis.NewPeakMeter(sr)
		hold, rate := 3.0, 20.0
		peak, held := 0.0, 0.0
		left := 0 // samples of hold left
		for rep := 0; rep < 4; rep++ {
			if c.Rand.IntN(2) == 0 {
				hold = mon.Pick(c.Rand, 0, mon.LogUniform(c.Rand, 0.001, 2))
				pm.SetHoldTime(hold)
			}
			if c.Rand.IntN(2) == 0 {
				rate = mon.Pick(c.Rand, 0, mon.LogUniform(c.Rand, 1, 500))
				pm.SetDecayRate(rate)
			}
			if rep > 0 && c.Rand.IntN(4) == 0 {
				pm.Reset()
				peak, held, left = 0, 0, 0
			}
			x := levels(c.Rand, 1000+c.Rand.IntN(30000))
			if i%50 == 3 { // a crest, and then next to nothing for longer than a long hold
				if rep == 0 {
					hold = mon.Uni(c.Rand, 3, 14)
					pm.SetHoldTime(hold)
				}
				x = append(x, make([]float64, int(mon.Uni(c.Rand, 0.3, 1.5)*hold*sr))...)
			} else if c.Rand.IntN(3) == 0 { // the same crest again and again
				for k := range x {
					x[k] = 0
					if k%500 == 0 && k < len(x)/2 {
						x[k] = 0.7
					}
				}
			}
			for _, k := range cuts(c.Rand, len(x)) {
				b := x[:k]
				x = x[k:]
				m := 0.0
				for _, v := range b {
					m = math.Max(m, math.Abs(v))
				}
				pm.Process(b)
				peak = math.Max(m, peak*math.Pow(10, -rate*float64(k)/sr/20))
				// the held value stays for the hold time after its last crest, then joins the peak
				if m >= held {
					held, left = m, int(hold*sr)
				} else if left -= k; left <= 0 {
					held, left = peak, 0
				}
				gp, gh := pm.GetPeak(), pm.GetHold()
				if !mon.Close(gp, peak, 1e-12, 1e-9) {
					c.Failf("M03/peak", "rate %g dB/s: peak after a block of %d (crest %g) reads %g, want %g", rate, k, m, gp, peak)
					return
				}
				if gh < gp || !mon.Close(gh, held, 1e-12, 1e-9) {
					c.Failf("M03/hold", "hold %g s: held value after a block of %d (crest %g) reads %g, want %g (peak %g, %d samples left)", hold, k, m, gh, held, gp, left)
					return
				}
				for _, p := range [][2]float64{{gp, pm.GetPeakDB()}, {gh, pm.GetHoldDB()}} {
					if p[0] == 0 && !math.IsInf(p[1], -1) || p[0] > 0 && !mon.Close(p[1], log20(p[0]), 1e-9, 0) {
						c.Failf("M03/decibel", "level %g reads %g dB", p[0], p[1])
						return
					}
				}
				peak, held = gp, gh
				c.Evals(1)
			}
			c.Distinct(hold, rate, rep)
		}
	})
	r.Par("rms", r.N(300, 5000), func(c *mon.C, i int) {
		w := mon.Pick(c.Rand, 1, 2, 64, 1+c.Rand.IntN(5000))
		wide := i%30 == 4
		if wide {
			w = mon.Pick(c.Rand, 9000, 16384, 30011, 70000)
		}
		rm := analysis.NewRMSMeter(w)
		var tape []float64
		for rep := 0; rep < 4; rep++ {
			if rep > 0 && c.Rand.IntN(4) == 0 {
				rm.Reset()
				tape = nil
				if g := rm.GetRMS(); g != 0 {
					c.Failf("M03/rms-reset", "RMS %g after Reset", g)
				}
			}
			x := levels(c.Rand, 1000+c.Rand.IntN(20000))
			if wide {
				x = append(x, levels(c.Rand, 3*w)...)
				for k := range x {
					if rep == 3 || rep == 1 && k > w {
						x[k] *= 1e-10
					}
				}
			} else if c.Rand.IntN(3) == 0 {
				for k := len(x) / 2; k < len(x); k++ {
					x[k] *= 1e-7
				}
			}
			for _, k := range cuts(c.Rand, len(x)) {
				rm.Process(x[:k])
				tape = append(tape, x[:k]...)
				x = x[k:]
				if len(tape) == 0 {
					continue
				}
				sq, n, loud := 0.0, min(w, len(tape)), 0.0
				for _, v := range tape[len(tape)-n:] {
					sq += v * v
				}
				for _, v := range tape[max(0, len(tape)-2*w):] { // rounding of a running sum
					loud = math.Max(loud, v*v)
				}
				g := rm.GetRMS()
				if !mon.Close(g*g, sq/float64(n), 1e-13*float64(min(w, len(tape)))*loud+1e-300, 1e-9) {
					c.Failf("M03/rms", "window %d after %d samples: RMS %g, want %g", w, len(tape), g, math.Sqrt(sq/float64(n)))
					return
				}
				d := rm.GetRMSDB()
				if g == 0 && !math.IsInf(d, -1) || g > 0 && !mon.Close(d, log20(g), 1e-9, 0) {
					c.Failf("M03/decibel", "RMS %g reads %g dB", g, d)
					return
				}
				c.Evals(1)
			}
			c.Distinct(w, rep, i)
		}
	})
}

// kweight is the K-weighting of BS.1770 for any rate: a high shelf and a
// second-order high-pass, each bilinear with the published analogue constants.
func kweight(sr float64, x []float64) []float64 {
	y := append([]float64(nil), x...)
	run := func(b0, b1, b2, a1, a2 float64) {
		var x1, x2, y1, y2 float64
		for i, v := range y {
			o := b0*v + b1*x1 + b2*x2 - a1*y1 - a2*y2
			x2, x1, y2, y1 = x1, v, y1, o
			y[i] = o
		}
	}
	k := math.Tan(math.Pi * 1681.974450955533 / sr)
	q, vh := 0.7071752369554196, math.Pow(10, 3.999843853973347/20)
	vb := math.Pow(vh, 0.4996667741545416)
	d := 1 + k/q + k*k
	run((vh+vb*k/q+k*k)/d, 2*(k*k-vh)/d, (vh-vb*k/q+k*k)/d, 2*(k*k-1)/d, (1-k/q+k*k)/d)
	k = math.Tan(math.Pi * 38.13547087602444 / sr)
	q = 0.5003270373238773
	d = 1 + k/q + k*k
	run(1, -2, 1, 2*(k*k-1)/d, (1-k/q+k*k)/d)
	return y
}

func weightOf(ch, n int) float64 {
	switch {
	case n == 5 && ch >= 3, n >= 6 && (ch == 4 || ch == 5):
		return 1.41
	case n >= 6 && ch == 3:
		return 0
	}
	return 1
}

// blockLoudness returns the loudness of every window of win frames, one each hop.
func blockLoudness(kw [][]float64, win, hop int) []float64 {
	var o []float64
	for at := 0; at+win <= len(kw[0]); at += hop {
		p := 0.0
		for ch := range kw {
			s := 0.0
			for _, v := range kw[ch][at : at+win] {
				s += v * v
			}
			p += weightOf(ch, len(kw)) * s / float64(win)
		}
		o = append(o, -0.691+10*math.Log10(p))
	}
	return o
}

func meanLoudness(b []float64, gate float64) float64 {
	s, n := 0.0, 0
	for _, v := range b {
		if v >= gate {
			s, n = s+math.Pow(10, v/10), n+1
		}
	}
	if n == 0 {
		return math.Inf(-1)
	}
	return 10 * math.Log10(s/float64(n))
}

func m04(r *mon.Run) {
	same := func(a, b float64) bool {
		return math.IsInf(a, -1) && (math.IsInf(b, -1) || b < -150) || math.IsInf(b, -1) && a < -150 || a < -150 && b < -150 || mon.Close(a, b, 0.01, 0)
	}
	r.Par("programme", r.N(20, 400), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, 8000.0, 11025, 16000, 22050, 44100, 48000)
		chn := mon.Pick(c.Rand, 1, 2, 2, 3, 5, 6)
		if i%10 == 3 {
			sr, chn = mon.Pick(c.Rand, 88200.0, 96000, 176400, 192000), mon.Pick(c.Rand, 1, 2)
		}
		lm := analysis.NewLUFSMeter(sr, chn)
		for run := 0; run < 2; run++ {
			if run > 0 {
				lm.Reset()
			}
			secs := mon.Uni(c.Rand, 0.1, 9)
			n := int(secs * sr)
			if sr > 30000 {
				n /= 2
			}
			sig := make([][]float64, chn)
			for ch := range sig {
				sig[ch] = make([]float64, n)
			}
			// passages of tones and noise at different levels, some under the gates, some silent
			for at := 0; at < n; {
				m := int(mon.Uni(c.Rand, 0.2, 3) * sr)
				lev := math.Pow(10, mon.Uni(c.Rand, -80, 0)/20) * mon.Pick(c.Rand, 1.0, 1, 1, 0)
				w := 2 * math.Pi * mon.LogUniform(c.Rand, 15, sr*0.4) / sr
				kind, dc := c.Rand.IntN(3), mon.Pick(c.Rand, 0, 0, 0.3)
				var g [8]float64
				for ch := range sig {
					g[ch] = mon.Pick(c.Rand, 1, 1, 0, c.Rand.Float64())
				}
				for k := 0; k < m && at < n; k, at = k+1, at+1 {
					for ch := range sig {
						v := math.Sin(w * float64(k))
						if kind == 1 {
							v = 2*c.Rand.Float64() - 1
						}
						sig[ch][at] = lev * g[ch] * (v + dc)
					}
				}
			}
			kw := make([][]float64, chn)
			inter := make([]float64, n*chn)
			for ch := range sig {
				kw[ch] = kweight(sr, sig[ch])
				for k, v := range sig[ch] {
					inter[k*chn+ch] = v
				}
			}
			hop := int(0.4*sr) - int(0.3*sr)
			mom := blockLoudness(kw, int(0.4*sr), hop)
			shop := int(3*sr) - int(2.9*sr)
			st := blockLoudness(kw, int(3*sr), shop)
			pos := 0
			for _, k := range cuts(c.Rand, n) {
				lm.Process(inter[pos*chn : (pos+k)*chn])
				pos += k
				want := math.Inf(-1)
				nm := 0
				if pos >= int(0.4*sr) {
					nm = (pos-int(0.4*sr))/hop + 1
					want = mom[nm-1]
				}
				if g := lm.GetMomentaryLUFS(); !same(g, want) {
					c.Failf("M04/momentary", "%d channels at %g Hz after %.3f s: momentary %g LUFS, want %g", chn, sr, float64(pos)/sr, g, want)
					return
				}
				want = math.Inf(-1)
				if pos >= int(3*sr) {
					want = st[(pos-int(3*sr))/shop]
				}
				if g := lm.GetShortTermLUFS(); !same(g, want) {
					c.Failf("M04/short-term", "%d channels at %g Hz after %.3f s: short-term %g LUFS, want %g", chn, sr, float64(pos)/sr, g, want)
					return
				}
				rel := meanLoudness(mom[:nm], -70) - 10
				want = meanLoudness(mom[:nm], math.Max(rel, -70))
				near := false // a block at a gate may fall on either side
				var over []float64
				for _, v := range mom[:nm] {
					near = near || math.Abs(v-rel) < 1e-3 || math.Abs(v+70) < 1e-3
					if v >= -70 {
						over = append(over, v)
					}
				}
				if g := lm.GetIntegratedLUFS(); !near && !same(g, want) {
					c.Failf("M04/integrated", "%d channels at %g Hz after %.3f s (%d blocks): integrated %g LUFS, want %g", chn, sr, float64(pos)/sr, nm, g, want)
					return
				}
				lra := 0.0
				if len(over) >= 20 {
					sort.Float64s(over)
					lra = over[int(float64(len(over))*0.95)] - over[int(float64(len(over))*0.1)]
				}
				if g := lm.GetLoudnessRange(); !near && !mon.Close(g, lra, 0.01, 0) {
					c.Failf("M04/range", "%d channels at %g Hz after %.3f s: loudness range %g, want %g over %d blocks", chn, sr, float64(pos)/sr, g, lra, len(over))
					return
				}
				c.Evals(4)
			}
			c.Count("gating_blocks", len(mom))
			c.Distinct(chn, sr, n, run)
		}
	})
	// a long programme: nothing of its beginning may be forgotten
	r.Par("long", r.N(8, 60), func(c *mon.C, i int) {
		sr := 8000.0
		secs := mon.Uni(c.Rand, 110, 320)
		if i%20 == 1 { // over an hour
			sr, secs = 4000, mon.Uni(c.Rand, 3700, 4500)
		}
		n := int(secs * sr)
		x := make([]float64, n)
		for at := 0; at < n; {
			m := int(mon.Uni(c.Rand, 2, 25) * sr * max(1, secs/320))
			lev := math.Pow(10, mon.Uni(c.Rand, -40, -5)/20)
			if at == 0 {
				lev = 0.9
			}
			w := 2 * math.Pi * mon.LogUniform(c.Rand, 100, sr*0.37) / sr
			for k := 0; k < m && at < n; k, at = k+1, at+1 {
				x[at] = lev * math.Sin(w*float64(k))
			}
		}
		lm := analysis.NewLUFSMeter(sr, 1)
		b := blockLoudness([][]float64{kweight(sr, x)}, int(0.4*sr), int(0.4*sr)-int(0.3*sr))
		for at := 0; at < n; at += 4096 {
			lm.Process(x[at:min(n, at+4096)])
		}
		rel := meanLoudness(b, -70) - 10
		near := false
		for _, v := range b {
			near = near || math.Abs(v-rel) < 1e-3
		}
		s := append([]float64(nil), b...)
		sort.Float64s(s)
		lra := s[int(float64(len(s))*0.95)] - s[int(float64(len(s))*0.1)]
		if g, w := lm.GetIntegratedLUFS(), meanLoudness(b, math.Max(rel, -70)); !near && !same(g, w) {
			c.Failf("M04/long", "%.1f s (%d blocks): integrated %g LUFS, want %g", secs, len(b), g, w)
		}
		if g := lm.GetLoudnessRange(); !mon.Close(g, lra, 0.01, 0) {
			c.Failf("M04/long-range", "%.1f s (%d blocks): loudness range %g, want %g", secs, len(b), g, lra)
		}
		c.Count("gating_blocks", len(b))
		c.Distinct("long", n)
		c.Evals(2)
	})
	// the calibration points of the standard
	r.Case("calibration", func(c *mon.C) {
		for _, sr := range []float64{32000, 44100, 48000, 96000} {
			for _, t := range []struct {
				gain []float64
				want float64
			}{
				{[]float64{1}, -3.01}, {[]float64{1, 0}, -3.01}, {[]float64{0.1, 0.1}, -20}, {[]float64{0, 0, 1}, -3.01},
				{[]float64{0, 0, 0, 1, 0, 0}, math.Inf(-1)}, {[]float64{0, 0, 0, 0, 1, 0}, -1.52}, {[]float64{0, 0, 0, 0, 0, 1}, -1.52},
				{[]float64{1, 0, 0, 0, 0, 0}, -3.01}, {[]float64{0, 0, 0, 1, 0}, -1.52}, {[]float64{0, 0, 0, 0, 1}, -1.52},
			} {
				n := len(t.gain)
				lm := analysis.NewLUFSMeter(sr, n)
				x := make([]float64, int(4*sr)*n)
				for k := range x {
					x[k] = t.gain[k%n] * math.Sin(2*math.Pi*997/sr*float64(k/n))
				}
				for len(x) > 0 {
					k := min(512*n, len(x))
					lm.Process(x[:k])
					x = x[k:]
				}
				for nm, g := range map[string]float64{"momentary": lm.GetMomentaryLUFS(), "short-term": lm.GetShortTermLUFS(), "integrated": lm.GetIntegratedLUFS()} {
					if !(math.IsInf(g, -1) && math.IsInf(t.want, -1)) && !mon.Close(g, t.want, 0.05, 0) {
						c.Failf("M04/calibration", "997 Hz with gains %v at %g Hz: %s %g LUFS, want %g", t.gain, sr, nm, g, t.want)
					}
					c.Evals(1)
				}
				c.Distinct(sr, n, t.want)
			}
		}
	})
}
