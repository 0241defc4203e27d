package main

import (
	"math"
	"math/rand/v2"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	"github.com/justyntemme/vst3go/pkg/dsp/delay"
	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"github.com/justyntemme/vst3go/pkg/dsp/filter"
	"github.com/justyntemme/vst3go/pkg/dsp/modulation"
	"github.com/justyntemme/vst3go/pkg/dsp/oscillator"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
	"github.com/justyntemme/vst3go/pkg/dsp/reverb"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	"verif/harness/mon"
)

// timed is a processor whose settings are in hertz, seconds, milliseconds and decibels.
type timed struct {
	name string
	tol  float64 // of the peak of what is compared
	step bool    // what is compared may jump: compare within a millisecond either way
	env  bool    // compare levels over 20 ms, not samples
	hall bool    // fed a cloud of tones, compared over 100 ms: its echoes fall on whole samples
	flat bool    // fed levels that hold and then jump far, or little: its detector jumps to levels twice its own
	mk   func(sr float64, q R) func(x float32) float32
}

func timeds() []timed {
	var ts []timed
	wave := func(name string, tol float64, mk func(sr float64, q R) func(float32) float32) {
		ts = append(ts, timed{name: name, tol: tol, mk: mk})
	}
	level := func(name string, tol float64, mk func(sr float64, q R) func(float32) float32) {
		ts = append(ts, timed{name: name, tol: tol, env: true, mk: mk})
	}
	flat := func(name string, tol float64, mk func(sr float64, q R) func(float32) float32) {
		ts = append(ts, timed{name: name, tol: tol, env: true, flat: true, mk: mk})
	}
	hall := func(name string, tol float64, mk func(sr float64, q R) func(float32) float32) {
		ts = append(ts, timed{name: name, tol: tol, env: true, hall: true, mk: mk})
	}
	jump := func(name string, tol float64, mk func(sr float64, q R) func(float32) float32) {
		ts = append(ts, timed{name: name, tol: tol, step: true, mk: mk})
	}
	one := func(f func([]float32, int)) func(float32) float32 {
		b := make([]float32, 1)
		return func(x float32) float32 { b[0] = x; f(b, 0); return b[0] }
	}
	wave("biquad", 0.06, func(sr float64, q R) func(float32) float32 {
		b := filter.NewBiquad(1)
		f, w, g := lg(q, 60, 2000), lg(q, 0.3, 4), in(q, -12, 12)
		switch q.IntN(8) {
		case 0:
			b.SetLowpass(sr, f, w)
		case 1:
			b.SetHighpass(sr, f, w)
		case 2:
			b.SetBandpass(sr, f, w)
		case 3:
			b.SetNotch(sr, f, w)
		case 4:
			b.SetAllpass(sr, f, w)
		case 5:
			b.SetPeakingEQ(sr, f, w, g)
		case 6:
			b.SetLowShelf(sr, f, 1, g)
		case 7:
			b.SetHighShelf(sr, f, 1, g)
		}
		return one(b.Process)
	})
	wave("svf", 0.06, func(sr float64, q R) func(float32) float32 {
		s := filter.NewSVF(1)
		s.SetFrequencyAndQ(sr, lg(q, 60, 2000), lg(q, 0.5, 4))
		m := q.IntN(4)
		return func(x float32) float32 {
			o := s.ProcessSample(x, 0)
			return []float32{o.Lowpass, o.Highpass, o.Bandpass, o.Notch}[m]
		}
	})
	wave("dcblock", 0.03, func(sr float64, q R) func(float32) float32 {
		d := utility.NewDCBlocker(1, float32(in(q, 2, 60)), sr)
		return func(x float32) float32 { return d.Process(x, 0) }
	})
	wave("delay", 0.03, func(sr float64, q R) func(float32) float32 {
		d, ms := delay.New(0.3, sr), in(q, 1, 290)
		return func(x float32) float32 { return d.ProcessMs(x, ms) }
	})
	wave("delay-modulated", 0.05, func(sr float64, q R) func(float32) float32 {
		d := delay.NewModulated(0.1, sr)
		d.SetCenterDelay(in(q, 10, 40))
		d.SetLFO(lg(q, 0.1, 5), in(q, 0, 8))
		return d.Process
	})
	wave("chorus", 0.05, func(sr float64, q R) func(float32) float32 {
		d := modulation.NewChorus(sr)
		d.SetRate(lg(q, 0.1, 5))
		d.SetDepth(in(q, 0, 5))
		d.SetDelay(in(q, 5, 40))
		d.SetMix(q.Float64())
		d.SetFeedback(0)
		d.SetVoices(1 + q.IntN(4))
		return func(x float32) float32 { a, _ := d.Process(x); return a }
	})
	wave("flanger", 0.05, func(sr float64, q R) func(float32) float32 {
		d := modulation.NewFlanger(sr)
		d.SetRate(lg(q, 0.1, 5))
		d.SetDepth(in(q, 0, 3))
		d.SetDelay(in(q, 3, 8))
		d.SetMix(q.Float64())
		d.SetFeedback(0)
		return d.Process
	})
	wave("phaser", 0.12, func(sr float64, q R) func(float32) float32 {
		d := modulation.NewPhaser(sr)
		d.SetRate(lg(q, 0.1, 5))
		d.SetDepth(q.Float64())
		d.SetCenterFrequency(lg(q, 200, 1500))
		d.SetMix(q.Float64())
		d.SetFeedback(0)
		d.SetStages(2 + 2*q.IntN(3))
		return d.Process
	})
	wave("ringmod", 0.03, func(sr float64, q R) func(float32) float32 {
		d := modulation.NewRingModulator(sr)
		d.SetFrequency(lg(q, 1, 500))
		d.SetMix(q.Float64())
		d.EnableLFO(q.IntN(2) == 0)
		d.SetLFORate(lg(q, 0.1, 3))
		d.SetLFODepth(q.Float64() * 0.2)
		return d.Process
	})
	wave("tremolo", 0.03, func(sr float64, q R) func(float32) float32 {
		d := modulation.NewTremolo(sr)
		d.SetRate(lg(q, 0.1, 15))
		d.SetDepth(q.Float64())
		d.SetWaveform(mon.Pick(q, modulation.WaveformSine, modulation.WaveformTriangle))
		d.EnableSmoothing(q.IntN(2) == 0)
		return d.Process
	})
	jump("lfo", 0.03, func(sr float64, q R) func(float32) float32 {
		d := modulation.NewLFO(sr)
		d.SetFrequency(lg(q, 0.1, 15))
		d.SetWaveform(modulation.Waveform(q.IntN(4)))
		d.SetDepth(q.Float64())
		return func(float32) float32 { return float32(d.Process()) }
	})
	jump("oscillator", 0.06, func(sr float64, q R) func(float32) float32 {
		d := oscillator.New(sr)
		d.SetFrequency(lg(q, 5, 60))
		f := []func() float32{d.Sine, d.Saw, d.Square, d.Triangle}[q.IntN(4)]
		return func(float32) float32 { return f() }
	})
	flat("compressor", 0.03, func(sr float64, q R) func(float32) float32 {
		d := dynamics.NewCompressor(sr)
		d.SetThreshold(in(q, -40, -6))
		d.SetRatio(in(q, 1, 10))
		d.SetAttack(lg(q, 0.003, 0.1))
		d.SetRelease(lg(q, 0.02, 0.1))
		d.SetKnee(dynamics.KneeType(q.IntN(2)), in(q, 0, 12))
		d.SetLookahead(mon.Pick(q, 0, in(q, 0, 0.01)))
		return d.Process
	})
	flat("expander", 0.03, func(sr float64, q R) func(float32) float32 {
		d := dynamics.NewExpander(sr)
		d.SetThreshold(in(q, -40, -6))
		d.SetRatio(in(q, 1, 4))
		d.SetAttack(lg(q, 0.003, 0.1))
		d.SetRelease(lg(q, 0.02, 0.1))
		return d.Process
	})
	level("limiter", 0.03, func(sr float64, q R) func(float32) float32 {
		d := dynamics.NewLimiter(sr)
		d.SetThreshold(in(q, -24, -1))
		d.SetRelease(lg(q, 0.01, 0.5))
		d.SetLookahead(in(q, 0, 0.01))
		return d.Process
	})
	flat("gate", 0.06, func(sr float64, q R) func(float32) float32 {
		d := dynamics.NewGate(sr)
		d.SetThreshold(-30)
		d.SetHysteresis(6)
		d.SetAttack(lg(q, 0.001, 0.02))
		d.SetHold(in(q, 0.01, 0.3))
		d.SetRelease(lg(q, 0.02, 0.3))
		d.SetRange(in(q, -90, 0))
		return d.Process
	})
	wave("adsr", 0.03, func(sr float64, q R) func(float32) float32 {
		d := envelope.New(sr)
		d.SetADSR(lg(q, 0.01, 0.3), lg(q, 0.01, 0.3), q.Float64(), lg(q, 0.01, 0.3))
		d.Trigger()
		off, k := int(in(q, 0.1, 0.8)*48000)*int(sr/44100), 0
		if sr/48000 == math.Trunc(sr/48000) {
			off = off / int(sr/44100) * int(sr/48000)
		}
		return func(float32) float32 {
			if k++; k == off {
				d.Release()
			}
			return d.Next()
		}
	})
	wave("ar", 0.03, func(sr float64, q R) func(float32) float32 {
		d := envelope.NewAR(sr)
		d.SetAttack(lg(q, 0.01, 0.5))
		d.SetRelease(lg(q, 0.01, 0.5))
		d.Trigger()
		return func(float32) float32 { return d.Next() }
	})
	wave("follower", 0.03, func(sr float64, q R) func(float32) float32 {
		d := envelope.NewFollower(sr)
		d.SetAttack(lg(q, 0.002, 0.1))
		d.SetRelease(lg(q, 0.01, 0.5))
		return d.Follow
	})
	wave("detector-rms", 0.03, func(sr float64, q R) func(float32) float32 {
		d := envelope.NewDetector(sr, envelope.ModeRMS)
		d.SetRMSWindow(in(q, 5, 80))
		d.SetAttack(lg(q, 0.002, 0.1))
		d.SetRelease(lg(q, 0.01, 0.5))
		return d.Detect
	})
	flat("detector-hold", 0.06, func(sr float64, q R) func(float32) float32 {
		d := envelope.NewDetector(sr, envelope.ModePeakHold)
		d.SetType(envelope.TypeAnalog)
		d.SetHold(in(q, 0.05, 0.3))
		d.SetAttack(lg(q, 0.002, 0.01))
		d.SetRelease(lg(q, 0.02, 0.5))
		return d.Detect
	})
	wave("smooth-parameter", 0.03, func(sr float64, q R) func(float32) float32 {
		d := utility.NewSmoothParameter(lg(q, 0.01, 0.3), sr)
		d.SetTarget(in(q, 0.2, 1))
		return func(float32) float32 { return float32(d.Process()) }
	})
	wave("peak-meter", 0.03, func(sr float64, q R) func(float32) float32 {
		d := analysis.NewPeakMeter(sr)
		d.SetDecayRate(in(q, 3, 60))
		b := make([]float64, 1)
		return func(x float32) float32 { b[0] = float64(x); d.Process(b); return float32(d.GetPeak()) }
	})
	flat("peak-hold", 0.05, func(sr float64, q R) func(float32) float32 {
		d := analysis.NewPeakMeter(sr)
		d.SetDecayRate(in(q, 20, 90))
		d.SetHoldTime(in(q, 0.02, 0.4))
		b := make([]float64, 1)
		return func(x float32) float32 { b[0] = float64(x); d.Process(b); return float32(d.GetHold()) }
	})
	hall("loudness", 0.08, func(sr float64, q R) func(float32) float32 {
		d := analysis.NewLUFSMeter(sr, 1)
		b, k, y := make([]float64, 1), 0, float32(0)
		return func(x float32) float32 {
			b[0] = float64(x)
			d.Process(b)
			if k++; k%int(sr/100) == 0 {
				y = float32(math.Pow(10, d.GetMomentaryLUFS()/20))
			}
			return y
		}
	})
	wave("autopan", 0.03, func(sr float64, q R) func(float32) float32 {
		d := pan.NewAutoPan(float32(lg(q, 0.1, 10)), q.Float32(), pan.Linear)
		a, b, e := make([]float32, 1), make([]float32, 1), make([]float32, 1)
		return func(x float32) float32 { a[0] = x; d.Process(a, float32(sr), b, e); return b[0] }
	})
	hall("schroeder", 0.3, func(sr float64, q R) func(float32) float32 {
		d := reverb.NewSchroeder(sr)
		d.SetRoomSize(q.Float64())
		d.SetDamping(0)
		d.SetDryLevel(0)
		d.SetWetLevel(1)
		return d.Process
	})
	hall("freeverb", 0.3, func(sr float64, q R) func(float32) float32 {
		d := reverb.NewFreeverb(sr)
		d.SetRoomSize(q.Float64())
		d.SetDamping(0)
		d.SetDryLevel(0)
		d.SetWetLevel(1)
		return d.Process
	})
	hall("fdn", 0.3, func(sr float64, q R) func(float32) float32 {
		d := reverb.NewFDN(mon.Pick(q, 4, 8), sr)
		d.SetDecay(q.Float64())
		d.SetDamping(0)
		d.SetModulation(0)
		d.SetDryLevel(0)
		d.SetWetLevel(1)
		return d.Process
	})
	return ts
}

// c11: hertz, seconds and decibels mean the same at every sample rate.
func c11(r *mon.Run) {
	ts := timeds()
	r.Par("rates", r.N(12, 300)*len(ts), func(c *mon.C, i int) {
		t := ts[i%len(ts)]
		base := mon.Pick(c.Rand, 44100.0, 48000)
		mul := mon.Pick(c.Rand, 2, 4)
		seed := c.Rand.Uint64()
		// bursts of slow tones with smooth edges
		type tone struct{ at, len, f, a, ph float64 }
		var tones []tone
		for at := in(c.Rand, 0, 0.05); at < 1; {
			p := tone{at, in(c.Rand, 0.05, 0.4), lg(c.Rand, 40, 900), math.Pow(10, in(c.Rand, -50, -2)/20), 7 * c.Rand.Float64()}
			tones = append(tones, p)
			at += in(c.Rand, 0.05, 0.5)
		}
		if t.hall {
			tones = nil
			for len(tones) < 100 {
				tones = append(tones, tone{in(c.Rand, 0, 0.3), in(c.Rand, 0.01, 0.05), lg(c.Rand, 200, 2500), 1, 7 * c.Rand.Float64()})
			}
		}
		sig := func(x float64) (y float64) {
			for _, p := range tones {
				if u := (x - p.at) / p.len; u > 0 && u < 1 {
					y += p.a * math.Sin(2*math.Pi*p.f*(x-p.at)+p.ph) * math.Pow(math.Sin(math.Pi*u), 2)
				}
			}
			return y / 2
		}
		if t.flat {
			// silence, a level, far below it, a little or far above that, ...
			lv := []float64{0}
			for len(lv) < 5 {
				l := math.Pow(10, in(c.Rand, -40, 0)/20)
				if len(lv)%2 == 0 {
					l = lv[len(lv)-1] * mon.Pick(c.Rand, in(c.Rand, 0.05, 0.2), in(c.Rand, 0.6, 1))
				} else if q := l / lv[len(lv)-1]; q > 1.4 && q < 4 {
					l *= 0.3
				}
				lv = append(lv, l)
			}
			sig = func(x float64) float64 { return lv[min(int((x+1e-9)/0.26), 4)] }
		}
		one := func(sr float64) []float64 {
			f := t.mk(sr, rand.New(rand.NewPCG(seed, 1)))
			y := make([]float64, int(1.3*sr))
			for k := range y {
				y[k] = float64(f(float32(sig(float64(k) / sr))))
			}
			return y
		}
		a, b := one(base), one(base*float64(mul))
		peak := 1e-4
		if !t.env {
			for k := 0; k < int(base); k++ {
				peak = math.Max(peak, 0.1*math.Abs(sig(float64(k)/base)))
			}
		}
		if t.env { // 20 ms levels at both rates
			lv := func(y []float64, w int) (o []float64) {
				for k := 0; k+w <= len(y); k += w {
					s := 0.0
					for _, v := range y[k : k+w] {
						s += v * v
					}
					o = append(o, math.Sqrt(s/float64(w)))
				}
				return
			}
			w := int(base * 0.02)
			if t.hall {
				w *= 5
			}
			a, b = lv(a, w), lv(b, w*mul)
			for _, v := range a {
				peak = math.Max(peak, v)
			}
			for k := range a {
				if !(math.Abs(a[k]-b[k]) <= t.tol*peak) {
					c.Failf("C11/"+t.name, "the same settings and sound: at %.2f s the level is %g at %g Hz, %g at %g Hz (peak %g)", float64(k*w)/base, a[k], base, b[k], base*float64(mul), peak)
					return
				}
			}
		} else {
			for _, v := range a {
				peak = math.Max(peak, math.Abs(v))
			}
			bad := 0
			for k := range a {
				ok := math.Abs(a[k]-b[k*mul]) <= t.tol*peak
				if t.step && !ok {
					if bad++; bad < int(0.02*base) { // jumps fall between samples
						ok = true
					}
				}
				if !ok {
					c.Failf("C11/"+t.name, "the same settings and sound: at %.4f s %g at %g Hz, %g at %g Hz (peak %g)", float64(k)/base, a[k], base, b[k*mul], base*float64(mul), peak)
					return
				}
			}
		}
		c.Count("processor "+t.name, 1)
		c.Evals(len(a))
		c.Distinct(t.name, seed, base, mul)
	})
}
