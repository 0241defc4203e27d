package main

import (
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/pkg/dsp/modulation"
	"verif/harness/mon"
)

// tap reads x d samples (at most len, fractional) before its end, between the
// samples linearly; x's last element is the current sample.
func tap(x []float64, d float64) float64 {
	at := func(k int) float64 {
		if j := len(x) - 1 - k; j >= 0 {
			return x[j]
		}
		return 0
	}
	k := math.Floor(d)
	f := d - k
	return at(int(k))*(1-f) + at(int(k)+1)*f
}

func e08(r *mon.Run) {
	r.Par("chorus", r.N(100, 4000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		ch := modulation.NewChorus(sr)
		rate, depth, delay, mix, fb, spread, voices := 0.5, 2.0, 20.0, 0.5, 0.0, 1.0, 2
		setters := []func(){
			func() { rate = mon.LogUniform(c.Rand, 0.01, 10); ch.SetRate(rate) },
			func() {
				depth = mon.Pick(c.Rand, 0, 10, mon.Uni(c.Rand, 0, 10))
				ch.SetDepth(depth)
				if c.Rand.IntN(8) == 0 {
					ch.SetDepth(50)
					depth = 10
				}
			},
			func() { mix = mon.Pick(c.Rand, 0, 1, c.Rand.Float64()); ch.SetMix(mix) },
			func() { fb = mon.Uni(c.Rand, 0, 0.5); ch.SetFeedback(fb) },
			func() {
				fb = 0.5
				ch.SetFeedback(mon.Uni(c.Rand, 0.5, 3))
			},
			func() { spread = mon.Pick(c.Rand, 0, 1, c.Rand.Float64()); ch.SetSpread(spread) },
		}
		var lfo []*modulation.LFO
		mk := func() {
			lfo = nil
			for v := 0; v < voices; v++ {
				l := modulation.NewLFO(sr)
				l.SetFrequency(rate)
				l.SetPhase(float64(v) / float64(voices))
				lfo = append(lfo, l)
			}
		}
		for k := c.Rand.IntN(5); k > 0; k-- {
			setters[c.Rand.IntN(len(setters))]()
		}
		// voices and delay clear the lines: set before the first sample, in any order with the rest
		for k := 0; k < 2; k++ {
			if c.Rand.IntN(2) == 0 {
				voices = 1 + c.Rand.IntN(4)
				ch.SetVoices(voices)
				if c.Rand.IntN(8) == 0 {
					ch.SetVoices(9)
					voices = 4
				}
			} else {
				delay = mon.Pick(c.Rand, 1, 50, mon.Uni(c.Rand, 1, 50))
				ch.SetDelay(delay)
			}
		}
		for k := c.Rand.IntN(5); k > 0; k-- {
			setters[c.Rand.IntN(len(setters))]()
		}
		mk()
		var hl, hr []float64
		fl, fr := 0.0, 0.0
		mono := i%3 == 0
		for seg := 0; seg < 3; seg++ {
			if seg > 0 {
				setters[c.Rand.IntN(len(setters))]()
				for _, l := range lfo {
					l.SetFrequency(rate)
				}
				if c.Rand.IntN(4) == 0 {
					ch.Reset()
					mk()
					hl, hr, fl, fr = nil, nil, 0, 0
				}
			}
			n := 400 + c.Rand.IntN(int(sr*0.1))
			xl, xr := program(c, n, -30, 0), program(c, n, -30, 0)
			if mono {
				xr = xl
			}
			yl, yr := make([]float32, n), make([]float32, n)
			switch i % 3 {
			case 0:
				ch.ProcessBuffer(xl, yl, yr)
			case 1:
				ch.ProcessStereoBuffer(xl, xr, yl, yr)
			default:
				for k := range xl {
					yl[k], yr[k] = ch.ProcessStereo(xl[k], xr[k])
				}
			}
			for k := range xl {
				hl, hr = append(hl, float64(xl[k])+fl*fb), append(hr, float64(xr[k])+fr*fb)
				wl, wr := 0.0, 0.0
				for v, l := range lfo {
					d := math.Max(1, (delay+depth*l.Process())*sr/1000)
					a, b := tap(hl, d), tap(hr, d)
					if voices > 1 {
						p := ((float64(v)/float64(voices-1)-0.5)*spread + 0.5) * math.Pi / 2
						a, b = a*math.Cos(p)/float64(voices), b*math.Sin(p)/float64(voices)
					}
					wl, wr = wl+a, wr+b
				}
				fl, fr = wl, wr
				el, er := float64(xl[k])*(1-mix)+wl*mix, float64(xr[k])*(1-mix)+wr*mix
				if !mon.Close(float64(yl[k]), el, 3e-5, 0) || !mon.Close(float64(yr[k]), er, 3e-5, 0) {
					c.Failf("E08/chorus", "%g Hz, rate %g, depth %g ms, delay %g ms, mix %g, feedback %g, spread %g, %d voices, segment %d: sample %d gives %g %g, want %g %g", sr, rate, depth, delay, mix, fb, spread, voices, seg, k, yl[k], yr[k], el, er)
					return
				}
			}
			c.Distinct(sr, rate, depth, delay, mix, fb, spread, voices)
		}
	})
	r.Par("flanger", r.N(120, 5000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, append([]float64{500, 2000, 8000}, rates...)...)
		f := modulation.NewFlanger(sr)
		rate, depth, delay, mix, fb, manual, man := 0.5, 2.0, 5.0, 0.5, 0.5, 0.5, false
		setters := []func(){
			func() { rate = mon.LogUniform(c.Rand, 0.01, 20); f.SetRate(rate) },
			func() {
				depth = mon.Pick(c.Rand, 0, 10, mon.Uni(c.Rand, 0, 10))
				f.SetDepth(depth)
				if c.Rand.IntN(8) == 0 {
					f.SetDepth(50)
					depth = 10
				}
			},
			func() { mix = mon.Pick(c.Rand, 0, 1, c.Rand.Float64()); f.SetMix(mix) },
			func() {
				fb = mon.Uni(c.Rand, -0.9, 0.9)
				if c.Rand.IntN(5) == 0 {
					fb = mon.Pick(c.Rand, 0.99, -0.99, mon.Uni(c.Rand, -0.99, 0.99))
				}
				f.SetFeedback(fb)
			},
			func() { manual = c.Rand.Float64(); f.SetManual(manual) },
			func() { man = c.Rand.IntN(2) == 0; f.SetManualMode(man) },
		}
		for k := c.Rand.IntN(6); k > 0; k-- {
			setters[c.Rand.IntN(len(setters))]()
		}
		if c.Rand.IntN(2) == 0 {
			delay = mon.Pick(c.Rand, 0.1, 10, mon.Uni(c.Rand, 0.1, 10))
			f.SetDelay(delay)
		}
		for k := c.Rand.IntN(6); k > 0; k-- {
			setters[c.Rand.IntN(len(setters))]()
		}
		l := modulation.NewLFO(sr)
		l.SetWaveform(modulation.WaveformTriangle)
		l.SetFrequency(rate)
		var h []float64
		last := 0.0
		for seg := 0; seg < 4; seg++ {
			if seg > 0 {
				setters[c.Rand.IntN(len(setters))]()
				l.SetFrequency(rate)
				if c.Rand.IntN(4) == 0 {
					f.Reset()
					l.Reset()
					h, last = nil, 0
				}
			}
			n := 400 + c.Rand.IntN(int(sr*0.1))
			hot := mon.Pick(c.Rand, -6.0, 12.0)
			xl, xr := program(c, n, -30, hot), program(c, n, -30, hot)
			yl, yr := make([]float32, n), make([]float32, n)
			form := (i + seg) % 4
			switch form {
			case 0:
				f.ProcessBuffer(xl, yl)
			case 1:
				f.ProcessStereoBuffer(xl, xr, yl, yr)
			case 2:
				for k := range xl {
					yl[k] = f.Process(xl[k])
				}
			default:
				for k := range xl {
					yl[k], yr[k] = f.ProcessStereo(xl[k], xr[k])
				}
			}
			for k := range xl {
				h = append(h, clamp(float64(xl[k])+last*fb, -1, 1))
				m := 2*manual - 1
				if !man {
					m = l.Process()
				}
				last = tap(h, math.Max(0.1, (delay+depth*m)*sr/1000))
				el := float64(xl[k])*(1-mix) + last*mix
				er := float64(xr[k])*(1-mix) - last*mix
				if !mon.Close(float64(yl[k]), el, 1e-4, 0) || form&1 == 1 && !mon.Close(float64(yr[k]), er, 1e-4, 0) {
					c.Failf("E08/flanger", "%g Hz, rate %g, depth %g ms, delay %g ms, mix %g, feedback %g, manual %v %g, form %d, segment %d: sample %d gives %g %g, want %g %g", sr, rate, depth, delay, mix, fb, man, manual, form, seg, k, yl[k], yr[k], el, er)
					return
				}
			}
			c.Distinct(sr, rate, depth, delay, mix, fb, man, manual)
		}
	})
	// changing delay or voices while running restarts the lines but never breaks them
	r.Par("live", r.N(30, 1000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		ch, f := modulation.NewChorus(sr), modulation.NewFlanger(sr)
		for k := 0; k < 40; k++ {
			switch c.Rand.IntN(6) {
			case 0:
				ch.SetVoices(c.Rand.IntN(7) - 1)
			case 1:
				ch.SetDelay(mon.Uni(c.Rand, -5, 70))
				f.SetDelay(mon.Uni(c.Rand, -5, 20))
			case 2:
				ch.SetDepth(mon.Uni(c.Rand, -2, 20))
				f.SetDepth(mon.Uni(c.Rand, -2, 20))
			case 3:
				ch.SetFeedback(mon.Uni(c.Rand, -1, 2))
				f.SetFeedback(mon.Uni(c.Rand, -2, 2))
			case 4:
				ch.SetMix(mon.Uni(c.Rand, -1, 2))
				f.SetMix(mon.Uni(c.Rand, -1, 2))
			case 5:
				ch.SetRate(mon.Uni(c.Rand, -1, 40))
				f.SetRate(mon.Uni(c.Rand, -1, 40))
			}
			for j, v := range program(c, 300, -30, 0) {
				a, b := ch.ProcessStereo(v, -v)
				d := f.Process(v)
				if !(math.Abs(float64(a)) < 4.1 && math.Abs(float64(b)) < 4.1 && math.Abs(float64(d)) < 2.1) {
					c.Failf("E08/bound", "%g Hz, step %d sample %d: chorus %g %g, flanger %g", sr, k, j, a, b, d)
					return
				}
			}
		}
		c.Distinct(i)
	})
}

func e09(r *mon.Run) {
	// phase of one stage
	r.Par("stage", r.N(40, 1500), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		fc := mon.LogUniform(c.Rand, 50, sr*0.4)
		a := modulation.NewAllPassFilter()
		a.SetFrequency(fc, sr)
		n := int(math.Min(40*sr/fc+2000, 60000))
		im := make([]float64, n)
		e := 0.0
		for k := range im {
			x := float32(0)
			if k == 0 {
				x = 1
			}
			im[k] = float64(a.Process(x))
			e += im[k] * im[k]
		}
		if !(math.Abs(e-1) <= 1e-4) {
			c.Failf("E09/all-pass", "%g Hz stage at %g Hz: energy %g", fc, sr, e)
		}
		for _, m := range []float64{1, mon.LogUniform(c.Rand, 0.2, 1), mon.Uni(c.Rand, 1, 0.49*sr/fc)} {
			var re, ii float64
			w := 2 * math.Pi * fc * m / sr
			for k, v := range im {
				s, co := math.Sincos(w * float64(k))
				re += v * co
				ii -= v * s
			}
			t0, t := math.Tan(math.Pi*fc/sr), math.Tan(w/2)
			want := -2 * math.Atan(t/t0)
			got := math.Atan2(ii, re)
			if d := math.Remainder(got-want, 2*math.Pi); !(math.Abs(d) <= 2e-3) || !(math.Abs(math.Hypot(re, ii)-1) <= 2e-3) {
				c.Failf("E09/phase", "%g Hz stage at %g Hz: gain %g and phase %g at %g Hz, want 1 and %g", fc, sr, math.Hypot(re, ii), got, fc*m, want)
				return
			}
		}
		a.Reset()
		if y := a.Process(0); y != 0 {
			c.Failf("E09/stage-reset", "%g after a reset", y)
		}
		c.Distinct(sr, fc)
	})
	r.Par("phaser", r.N(120, 5000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates[1:]...)
		p := modulation.NewPhaser(sr)
		rate, depth, center, fb, mix, stages := 0.5, 0.5, 1000.0, 0.5, 0.5, 4
		lo, hi := 750.0, 1250.0
		upd := func() {
			lo, hi = math.Max(20, center*(1-depth/2)), math.Min(sr/4, center*(1+depth/2))
		}
		l := modulation.NewLFO(sr)
		l.SetFrequency(rate)
		type ap struct{ x, y float64 }
		st := make([]ap, 8)
		last := 0.0
		set := func() {
			switch c.Rand.IntN(7) {
			case 0:
				rate = mon.LogUniform(c.Rand, 0.01, 10)
				p.SetRate(rate)
				l.SetFrequency(rate)
			case 1:
				depth = mon.Pick(c.Rand, 0, 1, c.Rand.Float64())
				x := depth
				if c.Rand.IntN(6) == 0 {
					x, depth = 3, 1
				}
				p.SetDepth(x)
				upd()
			case 2:
				center = mon.LogUniform(c.Rand, 100, 4000)
				p.SetCenterFrequency(center)
				upd()
			case 3:
				a := mon.LogUniform(c.Rand, 20, 2000)
				lo, hi = a, a+mon.LogUniform(c.Rand, 101, 2000)
				p.SetFrequencyRange(lo, hi)
				center = (lo + hi) / 2
			case 4:
				fb = mon.Uni(c.Rand, -0.9, 0.9)
				p.SetFeedback(fb)
			case 5:
				mix = mon.Pick(c.Rand, 0, 1, c.Rand.Float64())
				p.SetMix(mix)
			case 6:
				k := c.Rand.IntN(12) - 1
				p.SetStages(k)
				if n := int(clamp(float64(k), 2, 8)) &^ 1; n != stages { // the same number again changes nothing
					stages = n
					for j := range st {
						st[j] = ap{}
					}
				}
			}
		}
		for k := c.Rand.IntN(10); k > 0; k-- {
			set()
		}
		for seg := 0; seg < 4; seg++ {
			if seg > 0 {
				set()
				if c.Rand.IntN(4) == 0 {
					p.Reset()
					l.Reset()
					last = 0
					for j := range st {
						st[j] = ap{}
					}
				}
			}
			n := 1000
			hot := mon.Pick(c.Rand, -10.0, 6.0)
			xl, xr := program(c, n, -30, hot), program(c, n, -30, hot)
			yl, yr := make([]float32, n), make([]float32, n)
			form := (i + seg) % 4
			switch form {
			case 0:
				p.ProcessBuffer(xl, yl)
			case 1:
				p.ProcessStereoBuffer(xl, xr, yl, yr)
			case 2:
				for k := range xl {
					yl[k] = p.Process(xl[k])
				}
			default:
				for k := range xl {
					yl[k], yr[k] = p.ProcessStereo(xl[k], xr[k])
				}
			}
			for k := range xl {
				fq := lo * math.Pow(hi/lo, (l.Process()+1)/2)
				t := math.Tan(math.Pi * fq / sr)
				a := (t - 1) / (t + 1)
				v := clamp(float64(xl[k])+last*fb, -1, 1)
				for j := 0; j < stages; j++ {
					// y = a x + x' - a' y', with the coefficient in use when the state was written
					y := a*v + st[j].x
					st[j].x = v - a*y
					v = y
				}
				last = v
				el, er := float64(xl[k])*(1-mix)+v*mix, float64(xr[k])*(1-mix)-v*mix
				if !mon.Close(float64(yl[k]), el, 2e-3, 0) || form&1 == 1 && !mon.Close(float64(yr[k]), er, 2e-3, 0) {
					c.Failf("E09/phaser", "%g Hz, rate %g, depth %g, range %g-%g Hz, mix %g, feedback %g, %d stages, form %d, segment %d: sample %d gives %g %g, want %g %g", sr, rate, depth, lo, hi, mix, fb, stages, form, seg, k, yl[k], yr[k], el, er)
					return
				}
			}
			c.Distinct(sr, rate, depth, lo, hi, mix, fb, stages)
		}
	})
	wave := func(c *mon.C) modulation.Waveform {
		return mon.Pick(c.Rand, modulation.WaveformSine, modulation.WaveformTriangle, modulation.WaveformSquare, modulation.WaveformSawtooth)
	}
	shape := func(w modulation.Waveform, p float64) float64 {
		switch w {
		case modulation.WaveformTriangle:
			return 1 - 4*math.Abs(p-0.5)
		case modulation.WaveformSquare:
			if p < 0.5 {
				return 1
			}
			return -1
		case modulation.WaveformSawtooth:
			return 2*p - 1
		}
		return math.Sin(2 * math.Pi * p)
	}
	r.Par("tremolo", r.N(120, 5000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		t := modulation.NewTremolo(sr)
		rate, depth, wf, mode, stereo, phase, smooth := 5.0, 0.5, modulation.WaveformSine, modulation.TremoloModeNormal, false, 0.0, false
		ll, lr := modulation.NewLFO(sr), modulation.NewLFO(sr)
		ll.SetFrequency(rate)
		lr.SetFrequency(rate)
		form := i % 4
		set := func() {
			k := c.Rand.IntN(7)
			if (k == 4 || k == 5) && form%2 == 0 {
				k = 0
			}
			switch k {
			case 0:
				rate = mon.LogUniform(c.Rand, 0.01, 20)
				t.SetRate(rate)
			case 1:
				depth = mon.Pick(c.Rand, 0, 1, c.Rand.Float64())
				x := depth
				if c.Rand.IntN(6) == 0 {
					x, depth = 4, 1
				}
				t.SetDepth(x)
			case 2:
				wf = wave(c)
				t.SetWaveform(wf)
				smooth = wf == modulation.WaveformSquare
			case 3:
				mode = mon.Pick(c.Rand, modulation.TremoloModeNormal, modulation.TremoloModeHarmonic)
				t.SetMode(mode)
			case 4:
				stereo = c.Rand.IntN(3) > 0
				t.SetStereo(stereo)
				if stereo {
					lr.SetPhase(ll.GetPhase() + phase)
				}
			case 5:
				phase = mon.Pick(c.Rand, 0, 0.5, 1, c.Rand.Float64())
				t.SetStereoPhase(phase)
				if stereo {
					lr.SetPhase(ll.GetPhase() + phase)
				}
			case 6:
				smooth = c.Rand.IntN(2) == 0
				t.EnableSmoothing(smooth)
			}
			ll.SetFrequency(rate)
			lr.SetFrequency(rate)
			ll.SetWaveform(wf)
			lr.SetWaveform(wf)
		}
		for k := c.Rand.IntN(10); k > 0; k-- {
			set()
		}
		gl, gr := 1.0, 1.0
		smoothAll := smooth
		for seg := 0; seg < 5; seg++ {
			if seg > 0 {
				set()
				if c.Rand.IntN(5) == 0 {
					t.Reset()
					ll.Reset()
					lr.Reset()
					if stereo {
						lr.SetPhase(phase)
					}
					gl, gr = 1, 1
				}
			}
			smoothAll = smoothAll || smooth
			n := 300 + c.Rand.IntN(3000)
			xl, xr := program(c, n, -30, 0), program(c, n, -30, 0)
			yl, yr := make([]float32, n), make([]float32, n)
			one := form < 2
			if !one {
				if form%2 == 1 {
					t.ProcessStereoBuffer(xl, xr, yl, yr)
				} else {
					t.ProcessBuffer(xl, yl)
				}
			}
			k1 := math.Exp(-1 / (0.005 * sr))
			gain := func(v float64) float64 {
				if mode == modulation.TremoloModeHarmonic {
					return 1 - depth*math.Abs(v)
				}
				return 1 - depth*(1-v)/2
			}
			for k := range xl {
				if one {
					if form == 1 {
						yl[k], yr[k] = t.ProcessStereo(xl[k], xr[k])
					} else {
						yl[k] = t.Process(xl[k])
					}
				}
				a := ll.Process()
				b := a
				if stereo && form%2 == 1 {
					b = lr.Process()
				}
				ta, tb := gain(a), gain(b)
				if smooth {
					gl, gr = ta+(gl-ta)*k1, tb+(gr-tb)*k1
				} else {
					gl, gr = ta, tb
				}
				desc := func() string {
					return fmt.Sprintf("%g Hz, rate %g, depth %g, waveform %d, mode %d, stereo %v phase %g, smoothing %v, form %d, segment %d, sample %d", sr, rate, depth, wf, mode, stereo, phase, smooth, form, seg, k)
				}
				// at a jump of the waveform rounding of the phase may decide either way
				if !mon.Close(float64(yl[k]), float64(xl[k])*gl, 1e-6, 1e-5) || form%2 == 1 && !mon.Close(float64(yr[k]), float64(xr[k])*gr, 1e-6, 1e-5) {
					c.Failf("E09/tremolo", "%s: %g %g gives %g %g, gains should be %g %g", desc(), xl[k], xr[k], yl[k], yr[k], gl, gr)
					return
				}
				if one {
					if g := t.GetCurrentGain(); !(math.Abs(g-gl) <= 1e-6) {
						c.Failf("E09/current-gain", "%s: reports %g, gain is %g", desc(), g, gl)
						return
					}
				}
			}
			c.Distinct(sr, rate, depth, wf, mode, stereo, phase, smooth)
		}
	})
	r.Par("ring", r.N(120, 5000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		rm := modulation.NewRingModulator(sr)
		f, mix, wf, en, lr, ld := 440.0, 0.5, modulation.WaveformSine, false, 0.5, 0.1
		l := modulation.NewLFO(sr)
		l.SetFrequency(lr)
		ph := 0.0
		set := func() {
			switch c.Rand.IntN(6) {
			case 0:
				f = mon.Pick(c.Rand, 0.1, sr/2, mon.LogUniform(c.Rand, 0.1, sr/2))
				x := f
				if c.Rand.IntN(6) == 0 {
					x, f = sr*3, sr/2
				}
				rm.SetFrequency(x)
			case 1:
				mix = mon.Pick(c.Rand, 0, 1, c.Rand.Float64())
				rm.SetMix(mix)
			case 2:
				wf = wave(c)
				rm.SetWaveform(wf)
			case 3:
				en = c.Rand.IntN(2) == 0
				rm.EnableLFO(en)
			case 4:
				lr = mon.LogUniform(c.Rand, 0.01, 20)
				rm.SetLFORate(lr)
				l.SetFrequency(lr)
			case 5:
				ld = mon.Pick(c.Rand, 0, 1, c.Rand.Float64())
				x := ld
				if c.Rand.IntN(6) == 0 {
					x, ld = 4, 1
				}
				rm.SetLFODepth(x)
			}
		}
		for k := c.Rand.IntN(8); k > 0; k-- {
			set()
		}
		for seg := 0; seg < 5; seg++ {
			if seg > 0 {
				set()
				if c.Rand.IntN(5) == 0 {
					rm.Reset()
					l.Reset()
					ph = 0
				}
			}
			n := 300 + c.Rand.IntN(1500)
			xl, xr := program(c, n, -30, 0), program(c, n, -30, 0)
			yl, yr := make([]float32, n), make([]float32, n)
			form := (i + seg) % 4
			switch form {
			case 0:
				rm.ProcessBuffer(xl, yl)
			case 1:
				rm.ProcessStereoBuffer(xl, xr, yl, yr)
			case 2:
				for k := range xl {
					yl[k] = rm.Process(xl[k])
				}
			default:
				for k := range xl {
					yl[k], yr[k] = rm.ProcessStereo(xl[k], xr[k])
				}
			}
			for k := range xl {
				inc := f / sr
				if en {
					inc *= 1 + l.Process()*ld
				}
				g := 1 - mix + mix*shape(wf, ph)
				ok := mon.Close(float64(yl[k]), float64(xl[k])*g, 1e-6, 1e-5) && (form&1 == 0 || mon.Close(float64(yr[k]), float64(xr[k])*g, 1e-6, 1e-5))
				edge := math.Min(math.Abs(ph-0.5), math.Min(ph, 1-ph)) < 1e-7 && (wf == modulation.WaveformSquare || wf == modulation.WaveformSawtooth)
				if !ok && !edge {
					c.Failf("E09/ring", "%g Hz, carrier %g Hz, mix %g, waveform %d, LFO %v %g Hz %g, form %d, segment %d: sample %d %g %g gives %g %g, gain should be %g", sr, f, mix, wf, en, lr, ld, form, seg, k, xl[k], xr[k], yl[k], yr[k], g)
					return
				}
				ph += inc
				ph -= math.Floor(ph)
			}
			c.Distinct(sr, f, mix, wf, en, lr, ld)
		}
	})
}
