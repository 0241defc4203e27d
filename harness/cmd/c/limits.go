package main

import (
	"math"
	"math/rand/v2"

	"github.com/justyntemme/vst3go/pkg/dsp/distortion"
	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"github.com/justyntemme/vst3go/pkg/dsp/modulation"
	"github.com/justyntemme/vst3go/pkg/dsp/reverb"
	"verif/harness/mon"
)

// limit is one setting with the range its setter keeps to; an infinite end is open.
type limit struct {
	name   string
	lo, hi float64
	set    func(x float64)
}

type limited struct {
	kind string // the entry of kinds() whose sound is compared
	tol  float64
	mk   func(sr float64) (*unit, []limit)
}

var inf = math.Inf(1)

func limiteds() []limited {
	vals := func(f func() float32) func(a, b, c, d []float32) {
		return func(a, b, c, d []float32) {
			for i := range c {
				c[i], d[i] = f(), 0
			}
		}
	}
	return []limited{
		{"chorus", 0, func(sr float64) (*unit, []limit) {
			d := modulation.NewChorus(sr)
			return &unit{blk: d.ProcessStereoBuffer}, []limit{{"rate", .01, 10, d.SetRate}, {"depth", 0, 10, d.SetDepth}, {"delay", 1, 50, d.SetDelay}, {"mix", 0, 1, d.SetMix}, {"feedback", 0, .5, d.SetFeedback}, {"spread", 0, 1, d.SetSpread},
				{"voices", 1, 4, func(x float64) { d.SetVoices(toInt(x)) }}}
		}},
		{"flanger", 0, func(sr float64) (*unit, []limit) {
			d := modulation.NewFlanger(sr)
			d.SetManualMode(sr < 48000)
			return &unit{blk: d.ProcessStereoBuffer}, []limit{{"rate", .01, 20, d.SetRate}, {"depth", 0, 10, d.SetDepth}, {"delay", .1, 10, d.SetDelay}, {"feedback", -.99, .99, d.SetFeedback}, {"mix", 0, 1, d.SetMix}, {"manual", 0, 1, d.SetManual}}
		}},
		{"phaser", 0, func(sr float64) (*unit, []limit) {
			d := modulation.NewPhaser(sr)
			return &unit{blk: d.ProcessStereoBuffer}, []limit{{"rate", .01, 10, d.SetRate}, {"depth", 0, 1, d.SetDepth}, {"center", 100, 4000, d.SetCenterFrequency}, {"feedback", -.99, .99, d.SetFeedback}, {"mix", 0, 1, d.SetMix},
				{"stages", 2, 8, func(x float64) { d.SetStages(toInt(x)) }}}
		}},
		{"ringmod", 0, func(sr float64) (*unit, []limit) {
			d := modulation.NewRingModulator(sr)
			d.EnableLFO(true)
			return &unit{blk: d.ProcessStereoBuffer}, []limit{{"frequency", .1, sr / 2, d.SetFrequency}, {"mix", 0, 1, d.SetMix}, {"lfo rate", .01, 20, d.SetLFORate}, {"lfo depth", 0, 1, d.SetLFODepth}}
		}},
		{"tremolo", 0, func(sr float64) (*unit, []limit) {
			d := modulation.NewTremolo(sr)
			d.SetStereo(true)
			return &unit{blk: d.ProcessStereoBuffer}, []limit{{"rate", .01, 20, d.SetRate}, {"depth", 0, 1, d.SetDepth}, {"stereo phase", 0, 1, d.SetStereoPhase}}
		}},
		{"lfo", 0, func(sr float64) (*unit, []limit) {
			d := modulation.NewLFO(sr)
			return &unit{blk: vals(func() float32 { return float32(d.Process()) })}, []limit{{"frequency", .01, 20, d.SetFrequency}, {"depth", 0, 1, d.SetDepth}, {"offset", -1, 1, d.SetOffset}}
		}},
		{"bitcrusher", 0, func(sr float64) (*unit, []limit) {
			d := distortion.NewBitcrusher(sr)
			return &unit{blk: f64blk(d.ProcessStereo)}, []limit{{"bits", 1, 32, d.SetBitDepth}, {"reduction", 1, 100, d.SetSampleRateReduction}, {"mix", 0, 1, d.SetMix}, {"output", 0, 2, d.SetOutput}}
		}},
		{"tape", 2e-3, func(sr float64) (*unit, []limit) {
			d := distortion.NewTapeSaturation(sr)
			return &unit{blk: f64blk(d.ProcessStereo)}, []limit{{"saturation", 0, 1, d.SetSaturation}, {"compression", 0, 1, d.SetCompression}, {"warmth", 0, 1, d.SetWarmth}, {"mix", 0, 1, d.SetMix}, {"output", 0, 2, d.SetOutput}}
		}},
		{"tube", 0, func(sr float64) (*unit, []limit) {
			d := distortion.NewTubeSaturation()
			return &unit{blk: f64blk(d.ProcessStereo)}, []limit{{"warmth", 0, 1, d.SetWarmth}, {"harmonics", 0, 1, d.SetHarmonics}, {"bias", -1, 1, d.SetBias}, {"hysteresis", 0, 1, d.SetHysteresis}, {"mix", 0, 1, d.SetMix}, {"output", 0, 2, d.SetOutput}}
		}},
		{"waveshaper", 0, func(sr float64) (*unit, []limit) {
			d := distortion.NewWaveshaper()
			d.SetCurveType(distortion.CurveType(int(sr) / 50 % 7))
			return &unit{blk: f64blk(d.ProcessStereo)}, []limit{{"drive", 1, 100, d.SetDrive}, {"mix", 0, 1, d.SetMix}, {"output", 0, 2, d.SetOutput}, {"asymmetry", -1, 1, d.SetAsymmetry}}
		}},
		{"compressor", 0, func(sr float64) (*unit, []limit) {
			d := dynamics.NewCompressor(sr)
			d.SetThreshold(-30)
			return &unit{blk: mono(d.ProcessBuffer)}, []limit{{"ratio", 1, inf, d.SetRatio}, {"attack", 1e-4, inf, d.SetAttack}, {"release", 1e-3, inf, d.SetRelease}, {"knee", 0, inf, func(x float64) { d.SetKnee(dynamics.KneeSoft, x) }}, {"lookahead", 0, .01, d.SetLookahead}}
		}},
		{"expander", 0, func(sr float64) (*unit, []limit) {
			d := dynamics.NewExpander(sr)
			d.SetThreshold(-15)
			return &unit{blk: mono(d.ProcessBuffer)}, []limit{{"ratio", 1, inf, d.SetRatio}, {"attack", 0, inf, d.SetAttack}, {"release", 0, inf, d.SetRelease}, {"knee", 0, inf, d.SetKnee}, {"range", -inf, 0, d.SetRange}}
		}},
		{"gate", 0, func(sr float64) (*unit, []limit) {
			d := dynamics.NewGate(sr)
			d.SetThreshold(-15)
			return &unit{blk: mono(d.ProcessBuffer)}, []limit{{"hysteresis", 0, inf, d.SetHysteresis}, {"attack", 0, inf, d.SetAttack}, {"hold", 0, inf, d.SetHold}, {"release", 0, inf, d.SetRelease}, {"range", -inf, 0, d.SetRange},
				{"sidechain frequency", 20, sr / 2, func(x float64) { d.SetSidechainFilter(true, x) }}}
		}},
		{"limiter", 0, func(sr float64) (*unit, []limit) {
			d := dynamics.NewLimiter(sr)
			d.SetThreshold(-12)
			return &unit{blk: mono(d.ProcessBuffer)}, []limit{{"threshold", -inf, 0, d.SetThreshold}, {"release", .001, inf, d.SetRelease}, {"lookahead", 0, .01, d.SetLookahead}}
		}},
		{"adsr", 0, func(sr float64) (*unit, []limit) {
			d := envelope.New(sr)
			d.SetADSR(.002, .004, .5, .01)
			d.Trigger()
			n := 0
			return &unit{blk: vals(func() float32 {
				if n++; n == 1000 {
					d.Release()
				}
				return d.Next()
			})}, []limit{{"attack", .001, inf, d.SetAttack}, {"decay", .001, inf, d.SetDecay}, {"sustain", 0, 1, d.SetSustain}, {"release", .001, inf, d.SetRelease}}
		}},
		{"ar", 0, func(sr float64) (*unit, []limit) {
			d := envelope.NewAR(sr)
			d.Trigger()
			n := 0
			return &unit{blk: vals(func() float32 {
				if n++; n == 1000 {
					d.Release()
				}
				return d.Next()
			})}, []limit{{"attack", .001, inf, d.SetAttack}, {"release", .001, inf, d.SetRelease}}
		}},
		{"follower", 0, func(sr float64) (*unit, []limit) {
			d := envelope.NewFollower(sr)
			return &unit{blk: func(a, b, c, e []float32) { d.Process(a, c) }}, []limit{{"attack", 1e-4, inf, d.SetAttack}, {"release", 1e-4, inf, d.SetRelease}}
		}},
		{"detector", 0, func(sr float64) (*unit, []limit) {
			d := envelope.NewDetector(sr, []envelope.DetectorMode{envelope.ModePeak, envelope.ModeRMS, envelope.ModePeakHold}[int(sr)/50%3])
			return &unit{blk: func(a, b, c, e []float32) {
				for i := range a {
					c[i] = d.Detect(a[i])
				}
			}}, []limit{{"attack", 1e-4, inf, d.SetAttack}, {"release", 1e-4, inf, d.SetRelease}, {"hold", 0, inf, d.SetHold}}
		}},
		{"schroeder", 0, func(sr float64) (*unit, []limit) {
			d := reverb.NewSchroeder(sr)
			return &unit{blk: tickBlk(d.ProcessStereo)}, []limit{{"room", 0, 1, d.SetRoomSize}, {"damping", 0, 1, d.SetDamping}, {"wet", 0, 1, d.SetWetLevel}, {"dry", 0, 1, d.SetDryLevel}, {"width", 0, 1, d.SetWidth}}
		}},
		{"freeverb", 0, func(sr float64) (*unit, []limit) {
			d := reverb.NewFreeverb(sr)
			return &unit{blk: tickBlk(d.ProcessStereo)}, []limit{{"room", 0, 1, d.SetRoomSize}, {"damping", 0, 1, d.SetDamping}, {"wet", 0, 1, d.SetWetLevel}, {"dry", 0, 1, d.SetDryLevel}, {"width", 0, 1, d.SetWidth}, {"mode", 0, 1, d.SetMode}}
		}},
		{"fdn", 0, func(sr float64) (*unit, []limit) {
			d := reverb.NewFDN(8, sr)
			return &unit{blk: tickBlk(d.ProcessStereo)}, []limit{{"decay", 0, 1, d.SetDecay}, {"damping", 0, 1, d.SetDamping}, {"diffusion", 0, 1, d.SetDiffusion}, {"modulation", 0, 1, d.SetModulation}, {"wet", 0, 1, d.SetWetLevel}, {"dry", 0, 1, d.SetDryLevel}}
		}},
		{"comb", 0, func(sr float64) (*unit, []limit) {
			d := reverb.NewCombFilter(int(sr / 100))
			return &unit{blk: tickBlk(m1(d.Process))}, []limit{{"feedback", 0, 1, d.SetFeedback}}
		}},
		{"damping", 0, func(sr float64) (*unit, []limit) {
			d := reverb.NewDampingFilter()
			return &unit{blk: tickBlk(m1(d.Process))}, []limit{{"damping", 0, 1, d.SetDamping}}
		}},
	}
}

func toInt(x float64) int {
	if !(math.Abs(x) < 1e9) {
		return map[bool]int{true: math.MaxInt32, false: math.MinInt32}[x > 0]
	}
	return int(x)
}

// c14: a setting beyond the end of its range is the setting at that end, and settings inside
// the range survive their neighbours' excursions.
func c14(r *mon.Run) {
	ls := limiteds()
	r.Par("limit", len(ls)*r.N(30, 1500), func(c *mon.C, i int) {
		l := ls[i%len(ls)]
		sr := mon.Pick(c.Rand, rates...)
		u, us := l.mk(sr)
		v, vs := l.mk(sr)
		x := make([]float64, len(us))
		seed := c.Rand.Uint64()
		q := rand.New(rand.NewPCG(seed, 5))
		inside := func(m limit) float64 {
			lo, hi := m.lo, m.hi
			switch {
			case math.IsInf(lo, -1):
				lo = hi - 40
			case math.IsInf(hi, 1):
				hi = lo + mon.Pick(q, .05, 1.0, 10)
			}
			return in(q, lo, hi)
		}
		for j, m := range us {
			x[j] = inside(m)
			m.set(x[j])
			vs[j].set(x[j])
		}
		j := c.Rand.IntN(len(us))
		m := us[j]
		end, beyond := m.hi, 0.0
		up := c.Rand.IntN(2) == 0
		if math.IsInf(m.hi, 1) || !up && !math.IsInf(m.lo, -1) {
			end, up = m.lo, false
		} else {
			up = true
		}
		by := mon.Pick(c.Rand, 1e-3*(1+math.Abs(end)), mon.LogUniform(c.Rand, .01, 10), 1+math.Abs(end), 1e3, 1e6, 1e18, inf)
		if by < 1 && (m.name == "voices" || m.name == "stages") {
			by = 1
		}
		if beyond = end - by; up {
			beyond = end + by
		}
		warm := 0
		if c.Rand.IntN(3) == 0 { // while it plays
			warm = 1 + c.Rand.IntN(700)
		}
		n := warm + 1200 + c.Rand.IntN(1500)
		sl, sr2 := signal(c.Rand, n, sr), signal(c.Rand, n, sr)
		var wa, wb, a, b []float32
		for _, y := range []struct {
			u    *unit
			set  func(float64)
			x    float64
			a, b *[]float32
		}{{u, us[j].set, end, &wa, &wb}, {v, vs[j].set, beyond, &a, &b}} {
			p, q := make([]float32, n), make([]float32, n)
			y.u.blk(sl[:warm], sr2[:warm], p[:warm], q[:warm])
			y.set(y.x)
			y.u.blk(sl[warm:], sr2[warm:], p[warm:], q[warm:])
			*y.a, *y.b = p, q
		}
		for ch, p := range [][2][]float32{{a, wa}, {b, wb}} {
			if at := diff(p[0], p[1], l.tol+1e-6*math.Abs(float64(p1(p[1])))); at >= 0 {
				c.Failf("C14/"+l.kind+"/"+m.name, "%g Hz, settings %.4g: %s set to %g (its range ends at %g) gives sample %d of channel %d as %g, set to %g as %g", sr, x, m.name, beyond, end, at, ch, p[0][at], end, p[1][at])
				return
			}
		}
		c.Count(l.kind+" "+m.name, 1)
		c.Distinct(l.kind, m.name, by, seed)
	})
}
