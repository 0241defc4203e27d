package main

import (
	"math/rand/v2"

	"github.com/justyntemme/vst3go/pkg/dsp/delay"
	"github.com/justyntemme/vst3go/pkg/dsp/distortion"
	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"github.com/justyntemme/vst3go/pkg/dsp/filter"
	"github.com/justyntemme/vst3go/pkg/dsp/interpolation"
	"github.com/justyntemme/vst3go/pkg/dsp/modulation"
	"github.com/justyntemme/vst3go/pkg/dsp/oscillator"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
	"github.com/justyntemme/vst3go/pkg/dsp/reverb"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	"verif/harness/mon"
)

// unit is one instance of a processor behind a common face.
type unit struct {
	blk   func(inL, inR, outL, outR []float32)  // block path
	tick  func(l, r float32) (float32, float32) // sample path (nil: none)
	set   []func(r *rand.Rand)                  // setters, each drawing its own arguments
	acts  int                                   // how many of them, at the end, are actions (notes) rather than settings
	reset func()                                // nil: no Reset
	off   func()                                // makes the settings under which nothing happens to the signal (nil: there are none)
}

type kind struct {
	name    string
	stereo  bool    // two channels in and out
	apart   bool    // channels must not affect one another
	gen     bool    // ignores its input
	tol     float64 // randomness of the output that is not reproducible
	noblk   bool    // block splits may differ (documented per-block update)
	aliased bool    // in-place use is part of the interface (in and out slices may be the same)
	bound   float64 // ceiling per unit of input peak
	tame    bool    // ceiling claimed up to full-scale input only
	quiet   bool    // silence in, silence out after the tail
	tailS   float64 // seconds of tail at most
	mk      func(sr float64) *unit
}

type R = *rand.Rand

// draw returns mostly values inside lo..hi, sometimes the ends, sometimes a little outside.
func draw(r R, lo, hi float64) float64 {
	switch r.IntN(12) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return lo - r.Float64()*(hi-lo)*0.2
	case 3:
		return hi + r.Float64()*(hi-lo)*0.2
	}
	return lo + r.Float64()*(hi-lo)
}

// in returns values inside lo..hi.
func in(r R, lo, hi float64) float64 { return lo + r.Float64()*(hi-lo) }

func lg(r R, lo, hi float64) float64 { return mon.LogUniform(r, lo, hi) }

func s1(f func(float64), lo, hi float64) func(R) { return func(r R) { f(draw(r, lo, hi)) } }
func sb(f func(bool)) func(R)                    { return func(r R) { f(r.IntN(2) == 0) } }

func f64blk(st func(a, b, c, d []float64)) func(a, b, c, d []float32) {
	return func(a, b, c, d []float32) {
		x, y := make([]float64, len(a)), make([]float64, len(a))
		for i := range a {
			x[i], y[i] = float64(a[i]), float64(b[i])
		}
		st(x, y, x, y)
		for i := range a {
			c[i], d[i] = float32(x[i]), float32(y[i])
		}
	}
}

func mono(f func(in, out []float32)) func(a, b, c, d []float32) {
	return func(a, b, c, d []float32) {
		f(a, c)
		clear(d)
	}
}

func inplace(f func(buf []float32)) func(a, b, c, d []float32) {
	return mono(func(a, c []float32) { copy(c, a); f(c) })
}

func inplace2(f func(buf []float32, ch int)) func(a, b, c, d []float32) {
	return func(a, b, c, d []float32) {
		copy(c, a)
		copy(d, b)
		f(c, 0)
		f(d, 1)
	}
}

func m1(f func(float32) float32) func(l, r float32) (float32, float32) {
	return func(l, r float32) (float32, float32) { return f(l), 0 }
}

// fields of the filter, distortion and other processors: one entry per way of using it
func kinds() []kind {
	var ks []kind
	add := func(k kind) {
		if k.bound == 0 {
			k.bound = 100
		}
		ks = append(ks, k)
	}
	type bq func(b *filter.Biquad, sr float64, r R)
	for n, f := range map[string]bq{
		"lowpass":  func(b *filter.Biquad, sr float64, r R) { b.SetLowpass(sr, lg(r, 20, 0.45*sr), lg(r, 0.1, 20)) },
		"highpass": func(b *filter.Biquad, sr float64, r R) { b.SetHighpass(sr, lg(r, 20, 0.45*sr), lg(r, 0.1, 20)) },
		"bandpass": func(b *filter.Biquad, sr float64, r R) { b.SetBandpass(sr, lg(r, 20, 0.45*sr), lg(r, 0.1, 20)) },
		"notch":    func(b *filter.Biquad, sr float64, r R) { b.SetNotch(sr, lg(r, 20, 0.45*sr), lg(r, 0.1, 20)) },
		"allpass":  func(b *filter.Biquad, sr float64, r R) { b.SetAllpass(sr, lg(r, 20, 0.45*sr), lg(r, 0.1, 20)) },
		"peak": func(b *filter.Biquad, sr float64, r R) {
			b.SetPeakingEQ(sr, lg(r, 20, 0.45*sr), lg(r, 0.1, 20), in(r, -24, 24))
		},
		"lowshelf": func(b *filter.Biquad, sr float64, r R) {
			b.SetLowShelf(sr, lg(r, 20, 0.45*sr), lg(r, 0.5, 2), in(r, -24, 24))
		},
		"highshelf": func(b *filter.Biquad, sr float64, r R) {
			b.SetHighShelf(sr, lg(r, 20, 0.45*sr), lg(r, 0.5, 2), in(r, -24, 24))
		},
	} {
		add(kind{name: "biquad-" + n, stereo: true, apart: true, bound: 1e5, quiet: true, tailS: 8, mk: func(sr float64) *unit {
			b := filter.NewBiquad(2)
			f(b, sr, rand.New(rand.NewPCG(1, 1)))
			return &unit{blk: inplace2(b.Process), reset: b.Reset, set: []func(R){func(r R) { f(b, sr, r) }}}
		}})
	}
	for m, nm := range []string{"low", "high", "band", "notch", "mixed"} {
		add(kind{name: "svf-" + nm, stereo: true, apart: true, bound: 3000, quiet: true, tailS: 8, mk: func(sr float64) *unit {
			s := filter.NewSVF(2)
			s.SetFrequencyAndQ(sr, 1000, 0.7)
			var mx [4]float32
			blk := inplace2([]func([]float32, int){s.ProcessLowpass, s.ProcessHighpass, s.ProcessBandpass, s.ProcessNotch, func(b []float32, ch int) { s.ProcessMixed(b, ch, mx[0], mx[1], mx[2], mx[3]) }}[m])
			pick := func(o filter.SVFOutputs) float32 {
				switch m {
				case 0:
					return o.Lowpass
				case 1:
					return o.Highpass
				case 2:
					return o.Bandpass
				case 3:
					return o.Notch
				}
				return o.Lowpass*mx[0] + o.Highpass*mx[1] + o.Bandpass*mx[2] + o.Notch*mx[3]
			}
			return &unit{blk: blk, reset: s.Reset,
				tick: func(l, r float32) (float32, float32) { return pick(s.ProcessSample(l, 0)), pick(s.ProcessSample(r, 1)) },
				set: []func(R){func(r R) { s.SetFrequencyAndQ(sr, lg(r, 20, 0.45*sr), lg(r, 0.2, 20)) }, func(r R) {
					for i := range mx {
						mx[i] = float32(r.Float64())
					}
				}}}
		}})
	}
	add(kind{name: "svf-multimode", stereo: true, apart: true, bound: 3000, quiet: true, tailS: 8, mk: func(sr float64) *unit {
		s := filter.NewMultiModeSVF(2)
		s.SetFrequencyAndQ(sr, 1000, 0.7)
		return &unit{blk: inplace2(s.Process), reset: s.Reset,
			set: []func(R){func(r R) { s.SetFrequencyAndQ(sr, lg(r, 20, 0.45*sr), lg(r, 0.2, 20)) }, s1(s.SetMode, 0, 3)}}
	}})
	add(kind{name: "dcblock", stereo: true, apart: true, quiet: true, tailS: 1, mk: func(sr float64) *unit {
		d := utility.NewDCBlocker(2, 10, sr)
		return &unit{blk: func(a, b, c, e []float32) { copy(c, a); copy(e, b); d.ProcessStereo(c, e) }, reset: d.Reset,
			tick: func(l, r float32) (float32, float32) { return d.Process(l, 0), d.Process(r, 1) },
			set:  []func(R){func(r R) { d.SetCutoff(float32(in(r, 1, 100)), sr) }}}
	}})
	add(kind{name: "dcblock-multi", stereo: true, apart: true, quiet: true, tailS: 1, mk: func(sr float64) *unit {
		d := utility.NewDCBlocker(2, 10, sr)
		var b2 [2][]float32
		return &unit{blk: func(a, b, c, e []float32) {
			copy(c, a)
			copy(e, b)
			b2 = [2][]float32{c, e}
			d.ProcessMultiChannel(b2[:])
		}, reset: d.Reset,
			tick: func(l, r float32) (float32, float32) { return d.Process(l, 0), d.Process(r, 1) }}
	}})
	add(kind{name: "dcblock-simple", quiet: true, tailS: 1, mk: func(sr float64) *unit {
		d := utility.NewSimpleDCBlocker(sr)
		return &unit{blk: inplace(d.ProcessBuffer), reset: d.Reset, tick: m1(d.Process)}
	}})
	// delays
	add(kind{name: "delay-line", quiet: true, tailS: 0.2, mk: func(sr float64) *unit {
		d := delay.New(0.1, sr)
		n := 100.5
		return &unit{blk: inplace(func(b []float32) { d.ProcessBuffer(b, n) }), reset: d.Reset,
			tick: m1(func(x float32) float32 { return d.Process(x, n) }), set: []func(R){func(r R) { n = draw(r, 1, 0.1*sr) }}}
	}})
	add(kind{name: "delay-mix", quiet: true, tailS: 0.2, mk: func(sr float64) *unit {
		d := delay.New(0.1, sr)
		n, m := 100.5, float32(0.5)
		return &unit{off: func() { m = 0 }, blk: inplace(func(b []float32) { d.ProcessBufferMix(b, n, m) }), reset: d.Reset,
			set: []func(R){func(r R) { n = draw(r, 1, 0.1*sr) }, func(r R) { m = r.Float32() }}}
	}})
	add(kind{name: "delay-allpass", quiet: true, tailS: 30, mk: func(sr float64) *unit {
		d := delay.NewAllpass(0.05, sr)
		n := 100.5
		return &unit{blk: inplace(func(b []float32) { d.ProcessBuffer(b, n) }), reset: d.Reset,
			tick: m1(func(x float32) float32 { return d.Process(x, n) }),
			set:  []func(R){func(r R) { n = in(r, 1, 0.05*sr) }, func(r R) { d.SetFeedback(float32(in(r, -0.9, 0.9))) }}}
	}})
	add(kind{name: "delay-comb", quiet: true, tailS: 30, mk: func(sr float64) *unit {
		d := delay.NewComb(0.05, sr)
		n := 100.5
		return &unit{blk: inplace(func(b []float32) { d.ProcessBuffer(b, n) }), reset: d.Reset,
			tick: m1(func(x float32) float32 { return d.Process(x, n) }),
			set:  []func(R){func(r R) { n = in(r, 1, 0.05*sr) }, func(r R) { d.SetFeedback(float32(in(r, -0.9, 0.9))) }, func(r R) { d.SetDamp(float32(in(r, 0, 0.9))) }}}
	}})
	add(kind{name: "delay-multitap", quiet: true, tailS: 0.2, mk: func(sr float64) *unit {
		d := delay.NewMultiTap(0.1, sr, 4)
		taps := []delay.TapOutput{{DelaySamples: 10, Gain: 0.5}, {DelaySamples: 100.5, Gain: 0.5, Pan: -1}, {DelaySamples: 700, Gain: 0.2, Pan: 1}, {DelaySamples: 900, Gain: 0.3, Pan: 0.3}}
		return &unit{blk: func(a, b, c, e []float32) {
			for i := range a {
				d.ProcessMultiTap(a[i], taps, &c[i], &e[i])
			}
		}, reset: d.Reset, set: []func(R){func(r R) {
			for i := range taps {
				taps[i] = delay.TapOutput{DelaySamples: in(r, 1, 0.1*sr), Gain: r.Float32(), Pan: r.Float32()*2 - 1}
			}
		}}}
	}})
	add(kind{name: "delay-modulated", quiet: true, tailS: 0.3, mk: func(sr float64) *unit {
		d := delay.NewModulated(0.1, sr)
		return &unit{blk: inplace(d.ProcessBuffer), tick: m1(d.Process), // Reset clears the line only, the LFO keeps running
			set: []func(R){func(r R) { d.SetLFO(in(r, 0.01, 20), in(r, 0, 20)) }, s1(d.SetCenterDelay, 1, 60)}}
	}})
	// distortion
	add(kind{name: "bitcrusher", stereo: true, apart: true, aliased: true, bound: 10, mk: func(sr float64) *unit {
		d := distortion.NewBitcrusher(sr)
		return &unit{off: func() { d.SetMix(0); d.SetOutput(1) }, blk: f64blk(d.ProcessStereo), reset: d.Reset, set: []func(R){s1(d.SetBitDepth, 1, 32), s1(d.SetSampleRateReduction, 1, 100), s1(d.SetMix, 0, 1), s1(d.SetOutput, 0, 2), sb(d.SetAntiAlias)}}
	}})
	add(kind{name: "bitcrusher-mono", aliased: true, bound: 10, mk: func(sr float64) *unit {
		d := distortion.NewBitcrusher(sr)
		return &unit{off: func() { d.SetMix(0); d.SetOutput(1) }, blk: f64blk(func(a, b, c, e []float64) { d.ProcessBlock(a, c); clear(e) }), reset: d.Reset,
			tick: m1(func(x float32) float32 { return float32(d.Process(float64(x))) }),
			set:  []func(R){s1(d.SetBitDepth, 1, 32), s1(d.SetSampleRateReduction, 1, 100), s1(d.SetMix, 0, 1), s1(d.SetOutput, 0, 2), sb(d.SetAntiAlias)}}
	}})
	tapeSet := func(d *distortion.TapeSaturation) []func(R) {
		return []func(R){s1(d.SetSaturation, 0, 1), s1(d.SetCompression, 0, 1), s1(d.SetWarmth, 0, 1), s1(d.SetMix, 0, 1), s1(d.SetOutput, 0, 2)}
	}
	add(kind{name: "tape", stereo: true, apart: true, aliased: true, tol: 2e-3, bound: 10, quiet: true, tailS: 0.5, mk: func(sr float64) *unit {
		d := distortion.NewTapeSaturation(sr)
		return &unit{off: func() { d.SetMix(0); d.SetOutput(1) }, blk: f64blk(d.ProcessStereo), reset: d.Reset, set: tapeSet(d)}
	}})
	add(kind{name: "tape-mono", aliased: true, tol: 2e-3, bound: 10, quiet: true, tailS: 0.5, mk: func(sr float64) *unit {
		d := distortion.NewTapeSaturation(sr)
		return &unit{off: func() { d.SetMix(0); d.SetOutput(1) }, blk: f64blk(func(a, b, c, e []float64) { d.ProcessBlock(a, c); clear(e) }), reset: d.Reset,
			tick: m1(func(x float32) float32 { return float32(d.Process(float64(x))) }), set: tapeSet(d)}
	}})
	tubeSet := func(d *distortion.TubeSaturation) []func(R) {
		return []func(R){s1(d.SetWarmth, 0, 1), s1(d.SetHarmonics, 0, 1), s1(d.SetBias, -1, 1), s1(d.SetHysteresis, 0, 1), s1(d.SetMix, 0, 1), s1(d.SetOutput, 0, 2)}
	}
	add(kind{name: "tube", stereo: true, apart: true, aliased: true, bound: 100, tame: true, mk: func(sr float64) *unit {
		d := distortion.NewTubeSaturation()
		return &unit{off: func() { d.SetMix(0); d.SetOutput(1) }, blk: f64blk(d.ProcessStereo), reset: d.Reset, set: tubeSet(d)}
	}})
	add(kind{name: "tube-mono", aliased: true, bound: 100, tame: true, mk: func(sr float64) *unit {
		d := distortion.NewTubeSaturation()
		return &unit{off: func() { d.SetMix(0); d.SetOutput(1) }, blk: f64blk(func(a, b, c, e []float64) { d.ProcessBlock(a, c); clear(e) }), reset: d.Reset,
			tick: m1(func(x float32) float32 { return float32(d.Process(float64(x))) }), set: tubeSet(d)}
	}})
	shSet := func(d *distortion.Waveshaper) []func(R) {
		return []func(R){func(r R) { d.SetCurveType(distortion.CurveType(r.IntN(7))) }, s1(d.SetDrive, 1, 100), s1(d.SetMix, 0, 1), s1(d.SetOutput, 0, 2), s1(d.SetAsymmetry, -1, 1)}
	}
	add(kind{name: "waveshaper", stereo: true, apart: true, aliased: true, bound: 10, mk: func(sr float64) *unit {
		d := distortion.NewWaveshaper()
		return &unit{off: func() { d.SetMix(0); d.SetOutput(1) }, blk: f64blk(d.ProcessStereo), set: shSet(d)}
	}})
	add(kind{name: "waveshaper-mono", aliased: true, bound: 10, mk: func(sr float64) *unit {
		d := distortion.NewWaveshaper()
		return &unit{off: func() { d.SetMix(0); d.SetOutput(1) }, blk: f64blk(func(a, b, c, e []float64) { d.ProcessBlock(a, c); clear(e) }),
			tick: m1(func(x float32) float32 { return float32(d.Process(float64(x))) }), set: shSet(d)}
	}})
	// dynamics
	compSet := func(d *dynamics.Compressor, look bool) []func(R) {
		s := []func(R){s1(d.SetThreshold, -60, 0), s1(d.SetRatio, 1, 20), func(r R) { d.SetAttack(lg(r, 1e-4, 0.2)) }, func(r R) { d.SetRelease(lg(r, 1e-3, 2)) },
			func(r R) { d.SetKnee(dynamics.KneeType(r.IntN(2)), in(r, 0, 20)) }, s1(d.SetMakeupGain, -12, 24)}
		if look {
			s = append(s, s1(d.SetLookahead, 0, 0.01))
		}
		return s
	}
	add(kind{name: "compressor", aliased: true, bound: 50, mk: func(sr float64) *unit {
		d := dynamics.NewCompressor(sr)
		return &unit{off: func() { d.SetRatio(1); d.SetMakeupGain(0); d.SetLookahead(0) }, blk: mono(d.ProcessBuffer), tick: m1(d.Process), reset: d.Reset, set: compSet(d, true)}
	}})
	add(kind{name: "compressor-stereo", stereo: true, aliased: true, bound: 50, mk: func(sr float64) *unit {
		d := dynamics.NewCompressor(sr)
		return &unit{off: func() { d.SetRatio(1); d.SetMakeupGain(0) }, blk: d.ProcessStereo, reset: d.Reset, set: compSet(d, false)}
	}})
	add(kind{name: "compressor-sidechain", aliased: true, bound: 50, stereo: true, mk: func(sr float64) *unit {
		d := dynamics.NewCompressor(sr)
		return &unit{off: func() { d.SetRatio(1); d.SetMakeupGain(0) }, blk: func(a, b, c, e []float32) { d.ProcessSidechain(a, b, c); clear(e) }, reset: d.Reset, set: compSet(d, false)}
	}})
	expSet := func(d *dynamics.Expander) []func(R) {
		return []func(R){s1(d.SetThreshold, -60, 0), s1(d.SetRatio, 1, 10), func(r R) { d.SetAttack(lg(r, 1e-4, 0.2)) }, func(r R) { d.SetRelease(lg(r, 1e-3, 2)) }, s1(d.SetKnee, 0, 20), s1(d.SetRange, -90, 0)}
	}
	add(kind{name: "expander", aliased: true, bound: 1.001, mk: func(sr float64) *unit {
		d := dynamics.NewExpander(sr)
		return &unit{off: func() { d.SetRatio(1) }, blk: mono(d.ProcessBuffer), tick: m1(d.Process), reset: d.Reset, set: expSet(d)}
	}})
	add(kind{name: "expander-stereo", stereo: true, aliased: true, bound: 1.001, mk: func(sr float64) *unit {
		d := dynamics.NewExpander(sr)
		return &unit{off: func() { d.SetRatio(1) }, blk: d.ProcessStereo, reset: d.Reset, set: expSet(d)}
	}})
	gateSet := func(d *dynamics.Gate) []func(R) {
		return []func(R){s1(d.SetThreshold, -60, 0), s1(d.SetHysteresis, 0, 12), func(r R) { d.SetAttack(lg(r, 1e-4, 0.2)) }, func(r R) { d.SetRelease(lg(r, 1e-3, 2)) }, s1(d.SetHold, 0, 0.1), s1(d.SetRange, -90, 0),
			func(r R) { d.SetSidechainFilter(r.IntN(2) == 0, lg(r, 20, 1000)) }}
	}
	add(kind{name: "gate", aliased: true, bound: 1.001, mk: func(sr float64) *unit {
		d := dynamics.NewGate(sr)
		return &unit{off: func() { d.SetRange(0) }, blk: mono(d.ProcessBuffer), tick: m1(d.Process), reset: d.Reset, set: gateSet(d)}
	}})
	add(kind{name: "gate-stereo", stereo: true, aliased: true, bound: 1.001, mk: func(sr float64) *unit {
		d := dynamics.NewGate(sr)
		return &unit{off: func() { d.SetRange(0) }, blk: d.ProcessStereo, reset: d.Reset, set: gateSet(d)}
	}})
	limSet := func(d *dynamics.Limiter, look bool) []func(R) {
		s := []func(R){s1(d.SetThreshold, -40, 0), func(r R) { d.SetRelease(lg(r, 1e-3, 2)) }, sb(d.SetTruePeak)}
		if look {
			s = append(s, s1(d.SetLookahead, 0, 0.01))
		}
		return s
	}
	add(kind{name: "limiter", aliased: true, bound: 1.001, mk: func(sr float64) *unit {
		d := dynamics.NewLimiter(sr)
		return &unit{off: func() { d.SetThreshold(0); d.SetLookahead(0) }, blk: mono(d.ProcessBuffer), tick: m1(d.Process), reset: d.Reset, set: limSet(d, true)}
	}})
	add(kind{name: "limiter-stereo", stereo: true, aliased: true, bound: 1.001, mk: func(sr float64) *unit {
		d := dynamics.NewLimiter(sr)
		return &unit{off: func() { d.SetThreshold(0); d.SetLookahead(0) }, blk: d.ProcessStereo, reset: d.Reset, set: limSet(d, false)}
	}})
	// envelopes
	for m, nm := range []string{"peak", "rms", "peakhold"} {
		add(kind{name: "detector-" + nm, aliased: true, bound: 1.01, mk: func(sr float64) *unit {
			d := envelope.NewDetector(sr, envelope.DetectorMode(m))
			return &unit{blk: mono(d.Process), tick: m1(d.Detect), reset: d.Reset,
				set: []func(R){func(r R) { d.SetType(envelope.DetectorType(r.IntN(3))) }, func(r R) { d.SetAttack(lg(r, 1e-4, 0.2)) }, func(r R) { d.SetRelease(lg(r, 1e-3, 2)) }, s1(d.SetHold, 0, 0.1)}}
		}})
	}
	add(kind{name: "follower", aliased: true, bound: 1.01, mk: func(sr float64) *unit {
		d := envelope.NewFollower(sr)
		return &unit{blk: mono(d.Process), set: []func(R){func(r R) { d.SetAttack(lg(r, 1e-4, 0.2)) }, func(r R) { d.SetRelease(lg(r, 1e-3, 2)) }}}
	}})
	add(kind{name: "adsr", gen: true, bound: 1.001, mk: func(sr float64) *unit {
		d := envelope.New(sr)
		return &unit{blk: mono(func(a, c []float32) { d.Process(c) }), tick: m1(func(float32) float32 { return d.Next() }),
			reset: func() { d.Reset(); d.Trigger() }, acts: 1,
			set: []func(R){func(r R) { d.SetADSR(lg(r, 1e-3, 0.1), lg(r, 1e-3, 0.1), r.Float64(), lg(r, 1e-3, 0.1)) }, func(R) { d.Trigger() }}}
	}})
	add(kind{name: "adsr-multiply", bound: 1.001, mk: func(sr float64) *unit {
		d := envelope.New(sr)
		d.Trigger()
		return &unit{blk: inplace(d.ProcessMultiply), tick: m1(func(x float32) float32 { return x * d.Next() }), acts: 2,
			set: []func(R){func(r R) { d.SetADSR(lg(r, 1e-3, 0.1), lg(r, 1e-3, 0.1), r.Float64(), lg(r, 1e-3, 0.1)) }, func(R) { d.Trigger() }, func(R) { d.Release() }}}
	}})
	add(kind{name: "ar", gen: true, bound: 1.001, mk: func(sr float64) *unit {
		d := envelope.NewAR(sr)
		return &unit{acts: 2, blk: mono(func(a, c []float32) { d.Process(c) }), tick: m1(func(float32) float32 { return d.Next() }),
			set: []func(R){func(r R) { d.SetAttack(lg(r, 1e-3, 0.1)) }, func(r R) { d.SetRelease(lg(r, 1e-3, 0.1)) }, func(R) { d.Trigger() }, func(R) { d.Release() }}}
	}})
	// modulation
	chSet := func(d *modulation.Chorus) []func(R) {
		return []func(R){s1(d.SetRate, 0.01, 10), s1(d.SetDepth, 0, 10), s1(d.SetMix, 0, 1), s1(d.SetFeedback, -0.9, 0.9), s1(d.SetSpread, 0, 1), s1(d.SetDelay, 1, 50), func(r R) { d.SetVoices(1 + r.IntN(4)) }}
	}
	add(kind{name: "chorus", stereo: true, aliased: true, mk: func(sr float64) *unit {
		d := modulation.NewChorus(sr)
		return &unit{off: func() { d.SetMix(0) }, blk: d.ProcessStereoBuffer, tick: d.ProcessStereo, reset: d.Reset, set: chSet(d)}
	}})
	add(kind{name: "chorus-mono", mk: func(sr float64) *unit {
		d := modulation.NewChorus(sr)
		return &unit{off: func() { d.SetMix(0) }, blk: func(a, b, c, e []float32) { d.ProcessBuffer(a, c, e) }, tick: func(l, r float32) (float32, float32) { return d.Process(l) }, reset: d.Reset, set: chSet(d)}
	}})
	flSet := func(d *modulation.Flanger) []func(R) {
		return []func(R){s1(d.SetRate, 0.01, 10), s1(d.SetDepth, 0, 5), s1(d.SetDelay, 0.1, 10), s1(d.SetFeedback, -0.9, 0.9), s1(d.SetMix, 0, 1), s1(d.SetManual, 0, 1), sb(d.SetManualMode)}
	}
	add(kind{name: "flanger", stereo: true, aliased: true, mk: func(sr float64) *unit {
		d := modulation.NewFlanger(sr)
		return &unit{off: func() { d.SetMix(0) }, blk: d.ProcessStereoBuffer, tick: d.ProcessStereo, reset: d.Reset, set: flSet(d)}
	}})
	add(kind{name: "flanger-mono", aliased: true, mk: func(sr float64) *unit {
		d := modulation.NewFlanger(sr)
		return &unit{off: func() { d.SetMix(0) }, blk: mono(d.ProcessBuffer), tick: m1(d.Process), reset: d.Reset, set: flSet(d)}
	}})
	phSet := func(d *modulation.Phaser, sr float64) []func(R) {
		return []func(R){s1(d.SetRate, 0.01, 10), s1(d.SetDepth, 0, 1), func(r R) { d.SetCenterFrequency(lg(r, 200, 4000)) }, s1(d.SetFeedback, -0.9, 0.9), s1(d.SetMix, 0, 1), func(r R) { d.SetStages(2 + 2*r.IntN(4)) }}
	}
	add(kind{name: "phaser", stereo: true, aliased: true, mk: func(sr float64) *unit {
		d := modulation.NewPhaser(sr)
		return &unit{off: func() { d.SetMix(0) }, blk: d.ProcessStereoBuffer, tick: d.ProcessStereo, reset: d.Reset, set: phSet(d, sr)}
	}})
	add(kind{name: "phaser-mono", aliased: true, mk: func(sr float64) *unit {
		d := modulation.NewPhaser(sr)
		return &unit{off: func() { d.SetMix(0) }, blk: mono(d.ProcessBuffer), tick: m1(d.Process), reset: d.Reset, set: phSet(d, sr)}
	}})
	rmSet := func(d *modulation.RingModulator) []func(R) {
		return []func(R){s1(d.SetFrequency, 0.1, 5000), s1(d.SetMix, 0, 1), func(r R) { d.SetWaveform(modulation.Waveform(r.IntN(4))) }, sb(d.EnableLFO), s1(d.SetLFORate, 0.01, 20), s1(d.SetLFODepth, 0, 1)}
	}
	add(kind{name: "ringmod", stereo: true, apart: true, aliased: true, bound: 1.001, quiet: true, mk: func(sr float64) *unit {
		d := modulation.NewRingModulator(sr)
		return &unit{off: func() { d.SetMix(0) }, blk: d.ProcessStereoBuffer, tick: d.ProcessStereo, reset: d.Reset, set: rmSet(d)}
	}})
	add(kind{name: "ringmod-mono", aliased: true, bound: 1.001, quiet: true, mk: func(sr float64) *unit {
		d := modulation.NewRingModulator(sr)
		return &unit{off: func() { d.SetMix(0) }, blk: mono(d.ProcessBuffer), tick: m1(d.Process), reset: d.Reset, set: rmSet(d)}
	}})
	trSet := func(d *modulation.Tremolo) []func(R) {
		return []func(R){s1(d.SetRate, 0.01, 20), s1(d.SetDepth, 0, 1), func(r R) { d.SetWaveform(modulation.Waveform(r.IntN(4))) }, func(r R) { d.SetMode(modulation.TremoloMode(r.IntN(2))) }, sb(d.SetStereo), s1(d.SetStereoPhase, 0, 1), sb(d.EnableSmoothing)}
	}
	add(kind{name: "tremolo", stereo: true, apart: true, aliased: true, bound: 1.001, quiet: true, mk: func(sr float64) *unit {
		d := modulation.NewTremolo(sr)
		return &unit{off: func() { d.SetDepth(0); d.EnableSmoothing(false) }, blk: d.ProcessStereoBuffer, tick: d.ProcessStereo, reset: d.Reset, set: trSet(d)}
	}})
	add(kind{name: "tremolo-mono", aliased: true, bound: 1.001, quiet: true, mk: func(sr float64) *unit {
		d := modulation.NewTremolo(sr)
		return &unit{off: func() { d.SetDepth(0); d.EnableSmoothing(false) }, blk: mono(d.ProcessBuffer), tick: m1(d.Process), reset: d.Reset, set: trSet(d)}
	}})
	add(kind{name: "lfo", gen: true, bound: 1.001, mk: func(sr float64) *unit {
		d := modulation.NewLFO(sr)
		var buf []float64
		return &unit{blk: mono(func(a, c []float32) {
			if cap(buf) < len(c) {
				buf = make([]float64, len(c))
			}
			b := buf[:len(c)]
			d.ProcessBuffer(b)
			for i, v := range b {
				c[i] = float32(v)
			}
		}), tick: m1(func(float32) float32 { return float32(d.Process()) }),
			set: []func(R){s1(d.SetFrequency, 0.01, 50), func(r R) { d.SetWaveform(modulation.Waveform(r.IntN(4))) }, s1(d.SetDepth, 0, 1), s1(d.SetOffset, -1, 1)}}
	}})
	add(kind{name: "lfo-random", gen: true, tol: 2.5, bound: 1.001, mk: func(sr float64) *unit {
		d := modulation.NewLFO(sr)
		d.SetWaveform(modulation.WaveformRandom)
		d.SetFrequency(sr / 10)
		return &unit{blk: mono(func(a, c []float32) {
			for i := range c {
				c[i] = float32(d.Process())
			}
		}), tick: m1(func(float32) float32 { return float32(d.Process()) }),
			set: []func(R){func(R) { d.SetWaveform(modulation.WaveformRandom) }, s1(d.SetFrequency, 100, 5000), s1(d.SetDepth, 0, 1), s1(d.SetOffset, -1, 1)}}
	}})
	add(kind{name: "allpass-stage", quiet: true, tailS: 1, mk: func(sr float64) *unit {
		d := modulation.NewAllPassFilter()
		d.SetFrequency(1000, sr)
		return &unit{blk: mono(func(a, c []float32) {
			for i := range a {
				c[i] = d.Process(a[i])
			}
		}), reset: d.Reset, set: []func(R){func(r R) { d.SetFrequency(lg(r, 20, 0.4*sr), sr) }}}
	}})
	add(kind{name: "interp-allpass", quiet: true, tailS: 1, mk: func(sr float64) *unit {
		d := interpolation.NewAllPass()
		f := float32(0.3)
		return &unit{blk: mono(func(a, c []float32) {
			for i := range a {
				c[i] = d.Process(a[i], f)
			}
		}), reset: d.Reset, set: []func(R){func(r R) { f = float32(in(r, 0.05, 0.95)) }}}
	}})
	// oscillators
	for w, nm := range []string{"sine", "saw", "square", "pulse", "triangle"} {
		add(kind{name: "osc-" + nm, gen: true, bound: 1.001, mk: func(sr float64) *unit {
			d := oscillator.New(sr)
			d.SetFrequency(440)
			width := 0.3
			blk := []func([]float32){d.ProcessSine, d.ProcessSaw, d.ProcessSquare, func(b []float32) { d.ProcessPulse(b, width) }, d.ProcessTriangle}[w]
			tick := []func() float32{d.Sine, d.Saw, d.Square, func() float32 { return d.Pulse(width) }, d.Triangle}[w]
			return &unit{blk: mono(func(a, c []float32) { blk(c) }), tick: m1(func(float32) float32 { return tick() }), reset: d.Reset,
				set: []func(R){func(r R) { d.SetFrequency(lg(r, 1, 0.4*sr)) }, func(r R) { width = in(r, 0.05, 0.95) }}}
		}})
	}
	add(kind{name: "blit-saw", gen: true, bound: 10, mk: func(sr float64) *unit {
		d := oscillator.NewBandLimitedSaw(sr)
		d.SetFrequency(440)
		return &unit{blk: mono(func(a, c []float32) { d.Process(c) }), tick: m1(func(float32) float32 { return d.Next() }),
			set: []func(R){func(r R) { d.SetFrequency(lg(r, 30, 0.4*sr)) }}}
	}})
	// reverbs
	rvTail := 0.0
	add(kind{name: "schroeder", stereo: true, aliased: true, bound: 100, tailS: rvTail, mk: func(sr float64) *unit {
		d := reverb.NewSchroeder(sr)
		return &unit{off: func() { d.SetWetLevel(0); d.SetDryLevel(1) }, tick: d.ProcessStereo, blk: tickBlk(d.ProcessStereo), reset: d.Reset,
			set: []func(R){s1(d.SetRoomSize, 0, 1), func(r R) { d.SetDamping(in(r, 0, 0.95)) }, s1(d.SetWetLevel, 0, 1), s1(d.SetDryLevel, 0, 1), s1(d.SetWidth, 0, 1)}}
	}})
	add(kind{name: "schroeder-mono", bound: 100, mk: func(sr float64) *unit {
		d := reverb.NewSchroeder(sr)
		return &unit{off: func() { d.SetWetLevel(0); d.SetDryLevel(1) }, tick: m1(d.Process), blk: tickBlk(m1(d.Process)), reset: d.Reset,
			set: []func(R){s1(d.SetRoomSize, 0, 1), func(r R) { d.SetDamping(in(r, 0, 0.95)) }, s1(d.SetWetLevel, 0, 1), s1(d.SetDryLevel, 0, 1)}}
	}})
	add(kind{name: "freeverb", stereo: true, aliased: true, bound: 300, mk: func(sr float64) *unit {
		d := reverb.NewFreeverb(sr)
		return &unit{off: func() { d.SetWetLevel(0); d.SetDryLevel(1) }, tick: d.ProcessStereo, blk: tickBlk(d.ProcessStereo), reset: d.Reset,
			set: []func(R){s1(d.SetRoomSize, 0, 1), s1(d.SetDamping, 0, 1), s1(d.SetWetLevel, 0, 1), s1(d.SetDryLevel, 0, 1), s1(d.SetWidth, 0, 1), func(r R) { d.SetMode(mon.Pick(r, 0.0, 0.0, 1.0)) }}}
	}})
	add(kind{name: "freeverb-mono", bound: 300, mk: func(sr float64) *unit {
		d := reverb.NewFreeverb(sr)
		return &unit{off: func() { d.SetWetLevel(0); d.SetDryLevel(1) }, tick: m1(d.Process), blk: tickBlk(m1(d.Process)), reset: d.Reset,
			set: []func(R){s1(d.SetRoomSize, 0, 1), s1(d.SetDamping, 0, 1), s1(d.SetWetLevel, 0, 1), s1(d.SetDryLevel, 0, 1), func(r R) { d.SetMode(mon.Pick(r, 0.0, 0.0, 1.0)) }}}
	}})
	for _, n := range []int{4, 8} {
		add(kind{name: "fdn-" + string(rune('0'+n)), stereo: true, aliased: true, bound: 300, mk: func(sr float64) *unit {
			d := reverb.NewFDN(n, sr)
			return &unit{off: func() { d.SetWetLevel(0); d.SetDryLevel(1) }, tick: d.ProcessStereo, blk: tickBlk(d.ProcessStereo), reset: d.Reset,
				set: []func(R){s1(d.SetDecay, 0, 1), func(r R) { d.SetDamping(in(r, 0, 0.95)) }, s1(d.SetDiffusion, 0, 1), s1(d.SetModulation, 0, 1), s1(d.SetWetLevel, 0, 1), s1(d.SetDryLevel, 0, 1)}}
		}})
	}
	add(kind{name: "fdn-mono", bound: 300, mk: func(sr float64) *unit {
		d := reverb.NewFDN(4, sr)
		return &unit{off: func() { d.SetWetLevel(0); d.SetDryLevel(1) }, tick: m1(d.Process), blk: tickBlk(m1(d.Process)), reset: d.Reset,
			set: []func(R){s1(d.SetDecay, 0, 1), func(r R) { d.SetDamping(in(r, 0, 0.95)) }, s1(d.SetDiffusion, 0, 1), s1(d.SetModulation, 0, 1), s1(d.SetWetLevel, 0, 1), s1(d.SetDryLevel, 0, 1)}}
	}})
	add(kind{name: "damping", bound: 1.01, quiet: true, tailS: 5, mk: func(sr float64) *unit {
		d := reverb.NewDampingFilter()
		return &unit{tick: m1(d.Process), blk: tickBlk(m1(d.Process)), reset: d.Reset, set: []func(R){func(r R) { d.SetDamping(in(r, 0, 0.99)) }}}
	}})
	// noise
	for t, nm := range []string{"white", "pink", "brown", "blue", "violet"} {
		add(kind{name: "noise-" + nm, gen: true, bound: 1.5, mk: func(sr float64) *unit {
			d := utility.NewNoiseGenerator(utility.NoiseType(t))
			d.SetSeed(42)
			return &unit{blk: tickBlk(m1(func(float32) float32 { return d.Next() })), tick: m1(func(float32) float32 { return d.Next() })}
		}})
	}
	add(kind{name: "autopan", bound: 1.001, quiet: true, mk: func(sr float64) *unit {
		d := pan.NewAutoPan(1, 0.7, pan.ConstantPower)
		return &unit{blk: func(a, b, c, e []float32) { d.Process(a, float32(sr), c, e) }, reset: d.Reset,
			set: []func(R){func(r R) { d.SetRate(float32(in(r, 0.01, 20))) }, func(r R) { d.SetDepth(r.Float32()) }}}
	}})
	add(kind{name: "smooth-parameter", gen: true, bound: 1.001, mk: func(sr float64) *unit {
		d := utility.NewSmoothParameter(0.01, sr)
		return &unit{blk: tickBlk(m1(func(float32) float32 { return float32(d.Process()) })), tick: m1(func(float32) float32 { return float32(d.Process()) }),
			set: []func(R){func(r R) { d.SetTarget(in(r, -1, 1)) }, func(r R) { d.SetImmediate(in(r, -1, 1)) }}}
	}})
	sortKinds(ks)
	return ks
}

func tickBlk(f func(l, r float32) (float32, float32)) func(a, b, c, d []float32) {
	return func(a, b, c, d []float32) {
		for i := range a {
			c[i], d[i] = f(a[i], b[i])
		}
	}
}
