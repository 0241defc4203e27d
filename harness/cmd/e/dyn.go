package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"verif/harness/mon"
)

// level in dB of a detector output, silence counting as -96 dB
func level(env float32) float64 {
	if env > 0 {
		return db(float64(env))
	}
	return -96
}

type curvePoint struct{ in, red float64 }

// checkCurve judges the observed static curve: rising (or falling) without a
// jump.
func checkCurve(c *mon.C, sig string, pts []curvePoint, slope float64, what string) {
	sort.Slice(pts, func(i, j int) bool { return pts[i].in < pts[j].in })
	for i := 1; i < len(pts); i++ {
		d, dx := pts[i].red-pts[i-1].red, pts[i].in-pts[i-1].in
		if d < -1e-6 {
			c.Failf(sig+"/monotone", "%s: %.6g dB gives %.6g dB, %.6g dB gives %.6g dB", what, pts[i-1].in, pts[i-1].red, pts[i].in, pts[i].red)
			return
		}
		if d > 3*slope*dx+1e-6 {
			c.Failf(sig+"/jump", "%s: jump from %.6g dB at %.6g dB to %.6g dB at %.6g dB", what, pts[i-1].red, pts[i-1].in, pts[i].red, pts[i].in)
			return
		}
	}
}

// curveBounds of the reduction over a threshold th at level l: exact outside
// the knee w, inside between nothing and the rounded-off or hard line.
func curveBounds(l, th, slope, w float64) (lo, hi float64) {
	over := l - th
	hard := math.Max(0, over*slope)
	if math.Abs(over) > w/2+1e-6 {
		return hard, hard
	}
	q := (over + w/2) * (over + w/2) / (2 * math.Max(w, 1e-9)) * slope
	return 0, math.Max(hard, q) + 1e-6*slope
}

func e01(r *mon.Run) {
	r.Par("comp", r.N(150, 6000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		cp := dynamics.NewCompressor(sr)
		det := envelope.NewDetector(sr, envelope.ModePeak)
		det.SetType(envelope.TypeLogarithmic)
		det.SetTimeConstants(0.005, 0.050)
		th, ratio, knee, soft, mk, la := -20.0, 4.0, 2.0, true, 0.0, 0
		form := i % 4 // sample, buffer, stereo, sidechain
		var delay []float32
		set := func(k int) {
			switch k {
			case 0:
				th = mon.Uni(c.Rand, -70, 6)
				cp.SetThreshold(th)
			case 1:
				ratio = mon.Pick(c.Rand, 1, 1.5, 4, 20, 1e6, mon.LogUniform(c.Rand, 1, 100))
				x := ratio
				if c.Rand.IntN(6) == 0 {
					x, ratio = mon.Pick(c.Rand, 0.5, 0, -3), 1
				}
				cp.SetRatio(x)
			case 2:
				knee = mon.Pick(c.Rand, 0, 1, 6, 12, mon.Uni(c.Rand, 0, 24))
				soft = c.Rand.IntN(3) > 0
				kt := dynamics.KneeHard
				if soft {
					kt = dynamics.KneeSoft
				}
				if c.Rand.IntN(8) == 0 {
					cp.SetKnee(kt, -knee)
					knee = 0
				} else {
					cp.SetKnee(kt, knee)
				}
			case 3:
				a := mon.Pick(c.Rand, 0, 0.0001, mon.LogUniform(c.Rand, 0.0001, 0.1))
				cp.SetAttack(a)
				det.SetAttack(math.Max(0.0001, a))
			case 4:
				a := mon.Pick(c.Rand, 0, 0.001, mon.LogUniform(c.Rand, 0.001, 0.5))
				cp.SetRelease(a)
				det.SetRelease(math.Max(0.001, a))
			case 5:
				mk = mon.Pick(c.Rand, 0, mon.Uni(c.Rand, -12, 24))
				cp.SetMakeupGain(mk)
			case 6:
				if form > 1 {
					return
				}
				k := c.Rand.IntN(int(0.0099*sr) + 1)
				switch c.Rand.IntN(4) {
				case 0:
					k = 0
					cp.SetLookahead(mon.Pick(c.Rand, 0, -1, 0.1/sr))
				default:
					cp.SetLookahead((float64(k) + 0.5) / sr)
				}
				if k != la {
					la = k
					delay = make([]float32, k)
				}
			}
		}
		for k := 0; k < 7; k++ {
			if c.Rand.IntN(3) > 0 {
				set(k)
			}
		}
		var pts []curvePoint
		var ptKey string
		flush := func() {
			if len(pts) > 1 {
				checkCurve(c, "E01", pts, 1-1/ratio, ptKey)
			}
			pts = pts[:0]
		}
		judge := func(env float32, in, out []float32) bool {
			l := level(env)
			gr := cp.GetGainReduction()
			w := 0.0
			if soft {
				w = knee
			}
			lo, hi := curveBounds(l, th, 1-1/ratio, w)
			if !(gr >= lo-1e-5-1e-6*lo && gr <= hi+1e-5+1e-6*hi) {
				c.Failf("E01/curve", "%g Hz, threshold %g, ratio %g, knee %g (soft %v): level %.8g dB reduced by %.8g dB, want %.8g to %.8g", sr, th, ratio, knee, soft, l, gr, lo, hi)
				return false
			}
			pts = append(pts, curvePoint{l, gr})
			g := lin(mk - gr)
			for k := range in {
				want := float64(in[k]) * g
				if !mon.Close(float64(out[k]), want, 1e-30, 2e-6) {
					c.Failf("E01/gain", "%g Hz, form %d, reduction %.8g dB, makeup %g dB, lookahead %d: sample %g became %g, want %g", sr, form, gr, mk, la, in[k], out[k], want)
					return false
				}
			}
			return true
		}
		for seg := 0; seg < 6; seg++ {
			if seg > 0 {
				flush()
				set(c.Rand.IntN(7))
				if c.Rand.IntN(5) == 0 {
					cp.Reset()
					det.Reset()
					if g := cp.GetGainReduction(); g != 0 {
						c.Failf("E01/reset", "reduction %g after a reset", g)
					}
					for k := range delay {
						delay[k] = 0
					}
				}
			}
			ptKey = fmt.Sprintf("threshold %g, ratio %g, knee %g (soft %v)", th, ratio, knee, soft)
			n := 500 + c.Rand.IntN(2500)
			x := program(c, n, -90, 20)
			switch form {
			case 0, 1:
				for k := range x {
					var y [1]float32
					if form == 0 {
						y[0] = cp.Process(x[k])
					} else {
						cp.ProcessBuffer(x[k:k+1], y[:])
					}
					p := x[k]
					if la > 0 {
						p = delay[0]
						copy(delay, delay[1:])
						delay[la-1] = x[k]
					}
					if !judge(det.Detect(x[k]), []float32{p}, y[:]) {
						return
					}
				}
			case 2:
				xr := program(c, n, -90, 20)
				yl, yr := make([]float32, n), make([]float32, n)
				one := c.Rand.IntN(2) == 0
				if !one { // whole block: compare outputs with a sample-wise twin through the common gain
					il, ir := dup(x), dup(xr)
					cp.ProcessStereo(il, ir, yl, yr)
					for k := range x {
						l := level(det.Detect(float32(math.Max(math.Abs(float64(x[k])), math.Abs(float64(xr[k]))))))
						w := 0.0
						if soft {
							w = knee
						}
						lo, hi := curveBounds(l, th, 1-1/ratio, w)
						for ch, v := range [][2]float32{{x[k], yl[k]}, {xr[k], yr[k]}} {
							if v[0] == 0 && v[1] == 0 || math.Abs(float64(v[0])) < 1e-20 {
								continue
							}
							g := db(float64(v[1]) / float64(v[0]))
							if !(g <= mk-lo+1e-4 && g >= mk-hi-1e-4) {
								c.Failf("E01/stereo", "%g Hz, %s, makeup %g: channel %d sample %d %g became %g (%.6g dB) at level %.6g dB, want %.6g to %.6g", sr, ptKey, mk, ch, k, v[0], v[1], g, l, mk-hi, mk-lo)
								return
							}
						}
					}
					break
				}
				for k := range x {
					cp.ProcessStereo(x[k:k+1], xr[k:k+1], yl[k:k+1], yr[k:k+1])
					if !judge(det.Detect(float32(math.Max(math.Abs(float64(x[k])), math.Abs(float64(xr[k]))))), []float32{x[k], xr[k]}, []float32{yl[k], yr[k]}) {
						return
					}
				}
			case 3:
				sc := program(c, n, -90, 20)
				y := make([]float32, n)
				for k := range x {
					cp.ProcessSidechain(x[k:k+1], sc[k:k+1], y[k:k+1])
					if !judge(det.Detect(sc[k]), x[k:k+1], y[k:k+1]) {
						return
					}
				}
			}
			c.Distinct(sr, th, ratio, knee, soft, mk, la, form, x[n/2])
		}
		flush()
	})
	// dense static curve: one sample after a reset, instantaneous enough levels
	r.Par("static", r.N(40, 1500), func(c *mon.C, i int) {
		sr := 48000.0
		cp := dynamics.NewCompressor(sr)
		th, ratio, knee := mon.Uni(c.Rand, -50, 0), mon.LogUniform(c.Rand, 1, 50), mon.Uni(c.Rand, 0, 20)
		kt := dynamics.KneeSoft
		if i%3 == 0 {
			kt = dynamics.KneeHard
		}
		cp.SetThreshold(th)
		cp.SetRatio(ratio)
		cp.SetKnee(kt, knee)
		cp.SetAttack(0.0001)
		det := envelope.NewDetector(sr, envelope.ModePeak)
		det.SetType(envelope.TypeLogarithmic)
		det.SetTimeConstants(0.0001, 0.050)
		var pts []curvePoint
		w := knee
		if kt == dynamics.KneeHard {
			w = 0
		}
		for k := 0; k < 3000; k++ {
			// sweep up slowly across threshold and knee
			d := th - 15 + 30*float64(k)/3000
			x := float32(lin(d))
			cp.Process(x)
			l := level(det.Detect(x))
			gr := cp.GetGainReduction()
			lo, hi := curveBounds(l, th, 1-1/ratio, w)
			if !(gr >= lo-1e-5 && gr <= hi+1e-5) {
				c.Failf("E01/curve", "threshold %g, ratio %g, knee %g type %d: level %.8g dB reduced by %.8g dB, want %.8g to %.8g", th, ratio, knee, kt, l, gr, lo, hi)
				return
			}
			pts = append(pts, curvePoint{l, gr})
		}
		checkCurve(c, "E01", pts, 1-1/ratio, fmt.Sprintf("threshold %g, ratio %g, knee %g type %d", th, ratio, knee, kt))
		c.Distinct(th, ratio, knee, kt)
	})
}

func e02(r *mon.Run) {
	r.Par("exp", r.N(150, 6000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		ex := dynamics.NewExpander(sr)
		det := envelope.NewDetector(sr, envelope.ModePeak)
		det.SetType(envelope.TypeLogarithmic)
		det.SetAttack(0.001)
		det.SetRelease(0.1)
		th, ratio, knee, rng, at, rl := -40.0, 2.0, 2.0, -40.0, 0.001, 0.1
		set := func(k int) {
			switch k {
			case 0:
				th = mon.Uni(c.Rand, -70, 0)
				ex.SetThreshold(th)
			case 1:
				ratio = mon.Pick(c.Rand, 1, 2, 10, mon.LogUniform(c.Rand, 1, 30))
				x := ratio
				if c.Rand.IntN(6) == 0 {
					x, ratio = mon.Pick(c.Rand, 0.5, 0, -3), 1
				}
				ex.SetRatio(x)
			case 2:
				knee = mon.Pick(c.Rand, 0, 0, 6, mon.Uni(c.Rand, 0, 24))
				ex.SetKnee(knee)
				if c.Rand.IntN(8) == 0 {
					ex.SetKnee(-3)
					knee = 0
				}
			case 3:
				rng = mon.Pick(c.Rand, 0, -12, -80, mon.Uni(c.Rand, -100, 0))
				ex.SetRange(rng)
				if c.Rand.IntN(8) == 0 {
					ex.SetRange(7)
					rng = 0
				}
			case 4:
				at = mon.Pick(c.Rand, 0, mon.LogUniform(c.Rand, 0.0001, 0.1))
				ex.SetAttack(at)
				det.SetAttack(at)
			case 5:
				rl = mon.Pick(c.Rand, 0, mon.LogUniform(c.Rand, 0.0001, 0.5))
				ex.SetRelease(rl)
				det.SetRelease(rl)
			}
		}
		for k := 0; k < 6; k++ {
			if c.Rand.IntN(3) > 0 {
				set(k)
			}
		}
		lo, hi := 1.0, 1.0 // bounds of the smoothed gain
		coef := func(t float64) float64 {
			if t > 0 {
				return math.Exp(-1 / (t * sr))
			}
			return 0
		}
		step := func(g, t float64) float64 {
			k := coef(rl)
			if g > t {
				k = coef(at)
			}
			return t + (g-t)*k
		}
		var pts []curvePoint
		what := func() string {
			return fmt.Sprintf("%g Hz, threshold %g, ratio %g, knee %g, range %g, attack %g, release %g", sr, th, ratio, knee, rng, at, rl)
		}
		judge := func(env float32, in, out []float32) bool {
			l := level(env)
			rlo, rhi := curveBounds(-l, -th, ratio-1, knee)
			rlo, rhi = math.Min(rlo, -rng), math.Min(rhi, -rng)
			lo, hi = step(lo, lin(-rhi)), step(hi, lin(-rlo))
			gr := ex.GetGainReduction()
			g := lin(gr)
			if !(gr <= 0 && g <= hi*(1+1e-5) && g >= lo*(1-1e-5)) {
				c.Failf("E02/gain", "%s: gain %.8g (%.6g dB) at level %.6g dB, want %.8g to %.8g", what(), g, gr, l, lo, hi)
				return false
			}
			if at == 0 && rl == 0 {
				pts = append(pts, curvePoint{-l, -gr})
			}
			for k := range in {
				if want := float64(in[k]) * g; !mon.Close(float64(out[k]), want, 1e-30, 3e-6) {
					c.Failf("E02/apply", "%s: gain %.8g: sample %g became %g, want %g", what(), g, in[k], out[k], want)
					return false
				}
			}
			return true
		}
		form := i % 3
		for seg := 0; seg < 6; seg++ {
			if seg > 0 {
				if len(pts) > 1 {
					checkCurve(c, "E02", pts, ratio-1, what())
				}
				pts = pts[:0]
				set(c.Rand.IntN(6))
				if c.Rand.IntN(5) == 0 {
					ex.Reset()
					det.Reset()
					lo, hi = 1, 1
					if g := ex.GetGainReduction(); g != 0 {
						c.Failf("E02/reset", "reduction %g after a reset", g)
					}
				}
			}
			n := 500 + c.Rand.IntN(2500)
			x := program(c, n, -90, 6)
			switch form {
			case 0, 1:
				for k := range x {
					var y [1]float32
					if form == 0 {
						y[0] = ex.Process(x[k])
					} else {
						ex.ProcessBuffer(x[k:k+1], y[:])
					}
					if !judge(det.Detect(x[k]), x[k:k+1], y[:]) {
						return
					}
				}
			case 2:
				xr := program(c, n, -90, 6)
				var a, b [1]float32
				for k := range x {
					ex.ProcessStereo(x[k:k+1], xr[k:k+1], a[:], b[:])
					if !judge(det.Detect(float32(math.Max(math.Abs(float64(x[k])), math.Abs(float64(xr[k]))))), []float32{x[k], xr[k]}, []float32{a[0], b[0]}) {
						return
					}
				}
			}
			c.Distinct(sr, th, ratio, knee, rng, at, rl, form, x[n/2])
		}
		if len(pts) > 1 {
			checkCurve(c, "E02", pts, ratio-1, what())
		}
	})
	r.Par("static", r.N(40, 1500), func(c *mon.C, i int) {
		sr := 48000.0
		ex := dynamics.NewExpander(sr)
		th, ratio, knee, rng := mon.Uni(c.Rand, -50, -10), mon.LogUniform(c.Rand, 1.1, 20), mon.Pick(c.Rand, 0, mon.Uni(c.Rand, 0, 20)), mon.Uni(c.Rand, -60, -1)
		ex.SetThreshold(th)
		ex.SetRatio(ratio)
		ex.SetKnee(knee)
		ex.SetRange(rng)
		ex.SetAttack(0)
		ex.SetRelease(0)
		det := envelope.NewDetector(sr, envelope.ModePeak)
		det.SetType(envelope.TypeLogarithmic)
		det.SetAttack(0)
		det.SetRelease(0)
		var pts []curvePoint
		for k := 0; k < 3000; k++ {
			x := float32(lin(th - 15 + 30*float64(k)/3000))
			y := ex.Process(x)
			l := level(det.Detect(x))
			gr := db(float64(y) / float64(x))
			rlo, rhi := curveBounds(-l, -th, ratio-1, knee)
			rlo, rhi = math.Min(rlo, -rng), math.Min(rhi, -rng)
			if !(-gr >= rlo-1e-4 && -gr <= rhi+1e-4) {
				c.Failf("E02/curve", "threshold %g, ratio %g, knee %g, range %g: level %.8g dB changed by %.8g dB, want %.8g to %.8g", th, ratio, knee, rng, l, gr, -rhi, -rlo)
				return
			}
			pts = append(pts, curvePoint{-l, -ex.GetGainReduction()})
		}
		checkCurve(c, "E02", pts, ratio-1, fmt.Sprintf("threshold %g, ratio %g, knee %g, range %g", th, ratio, knee, rng))
		c.Distinct(th, ratio, knee, rng)
	})
}

// gateSpec is the gate's specification as a state machine over levels.
type gateSpec struct {
	sr, th, hyst, at, hold, rl, rng float64
	hpf                             bool
	fc                              float64
	st                              string
	gain, target                    float64
	count                           int
	open                            bool
	last, hp                        float32
}

// step returns false if the sample is too close to a decision to judge.
func (g *gateSpec) step(x float32) bool {
	d := x
	if g.hpf {
		a := math.Exp(-2 * math.Pi * g.fc / g.sr)
		y := float32((1+a)/2)*(x-g.last) + float32(a)*g.hp
		g.last, g.hp = x, y
		d = y
	}
	l := -96.0
	if d != 0 {
		l = db(math.Abs(float64(d)))
	}
	tol := 1e-5
	if g.hpf {
		tol = 1e-3
	}
	if math.Abs(l-g.th) < tol || math.Abs(l-(g.th-g.hyst)) < tol {
		return false
	}
	above, below := l > g.th, l < g.th-g.hyst
	closed := lin(g.rng)
	switch g.st {
	case "closed":
		if above {
			g.st, g.target = "attack", 1
		}
	case "attack":
		if below {
			g.st, g.target = "release", closed
		}
	case "open":
		if below {
			g.st, g.count = "hold", int(g.hold*g.sr)
		}
	case "hold":
		if !below {
			g.st = "open"
		} else if g.count > 0 {
			g.count--
		} else {
			g.st, g.target, g.open = "release", closed, false
		}
	case "release":
		if above {
			g.st, g.target = "attack", 1
		}
	}
	t := g.rl
	if g.gain < g.target {
		t = g.at
	}
	k := 0.0
	if t > 0 {
		k = math.Exp(-1 / (t * g.sr))
	}
	g.gain = g.target + (g.gain-g.target)*k
	if math.Abs(g.gain-0.99) < 1e-9 || math.Abs(g.gain-g.target*1.01) < 1e-9*g.target {
		return false
	}
	if g.st == "attack" && g.gain >= 0.99 {
		g.st, g.open = "open", true
	} else if g.st == "release" && g.gain <= g.target*1.01 {
		g.st = "closed"
	}
	return true
}

func e03(r *mon.Run) {
	r.Par("gate", r.N(200, 8000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		g := dynamics.NewGate(sr)
		m := &gateSpec{sr: sr, th: -40, hyst: 5, at: 0.001, hold: 0.010, rl: 0.1, rng: -80, st: "closed", gain: lin(-80), target: lin(-80)}
		m.hold = (float64(int(0.010*sr)) + 0.5) / sr
		set := func(k int) {
			switch k {
			case 0:
				m.th = mon.Uni(c.Rand, -70, -3)
				g.SetThreshold(m.th)
			case 1:
				m.hyst = mon.Pick(c.Rand, 0, 3, mon.Uni(c.Rand, 0, 20))
				if c.Rand.IntN(6) == 0 {
					g.SetHysteresis(-4)
					m.hyst = 0
				} else {
					g.SetHysteresis(m.hyst)
				}
			case 2:
				m.at = mon.Pick(c.Rand, 0, mon.LogUniform(c.Rand, 0.0001, 0.05))
				g.SetAttack(m.at)
			case 3:
				m.hold = (float64(c.Rand.IntN(2000)) + 0.5) / sr
				if i%20 == 7 {
					m.hold = (float64(c.Rand.IntN(int(4*sr))) + 0.5) / sr
				}
				g.SetHold(m.hold)
			case 4:
				m.rl = mon.Pick(c.Rand, 0, mon.LogUniform(c.Rand, 0.0005, 0.1))
				g.SetRelease(m.rl)
			case 5:
				old := m.rng
				m.rng = mon.Pick(c.Rand, 0, -6, -80, -96, mon.Uni(c.Rand, -130, 0), mon.Uni(c.Rand, -90, 0))
				x := m.rng
				if c.Rand.IntN(6) == 0 {
					x, m.rng = 5, 0
				}
				g.SetRange(x)
				if m.rng == old {
					// the same range again leaves a running release alone
				} else if m.st == "closed" {
					m.gain, m.target = lin(m.rng), lin(m.rng)
				} else if m.st == "release" {
					m.target = lin(m.rng)
				}
			case 6:
				m.hpf = c.Rand.IntN(3) > 0
				m.fc = mon.LogUniform(c.Rand, 20, sr/2)
				g.SetSidechainFilter(m.hpf, m.fc)
			}
		}
		for k := 0; k < 7; k++ {
			if c.Rand.IntN(3) > 0 {
				set(k)
			}
		}
		hist := ""
		stereo := i%2 == 1
		for seg := 0; seg < 8; seg++ {
			if seg > 0 {
				k := c.Rand.IntN(7)
				set(k)
				if c.Rand.IntN(6) == 0 {
					g.Reset()
					m.st, m.open, m.count, m.last, m.hp = "closed", false, 0, 0, 0
					m.gain, m.target = lin(m.rng), lin(m.rng)
					hist += " reset"
				}
			}
			n := 300 + c.Rand.IntN(3000)
			x := program(c, n, m.th-m.hyst-15, m.th+15)
			xr := make([]float32, n)
			if stereo {
				xr = program(c, n, m.th-m.hyst-15, m.th+15)
			}
			y, yr := make([]float32, n), make([]float32, n)
			for k := range x {
				d := x[k]
				if stereo {
					if math.Abs(float64(xr[k])) > math.Abs(float64(d)) { // the louder channel, as a signal
						d = xr[k]
					}
					g.ProcessStereo(x[k:k+1], xr[k:k+1], y[k:k+1], yr[k:k+1])
				} else if k%2 == 0 {
					y[k] = g.Process(x[k])
				} else {
					g.ProcessBuffer(x[k:k+1], y[k:k+1])
				}
				was := m.st
				if !m.step(d) {
					return
				}
				if m.st != was {
					hist += fmt.Sprintf(" %s@%d", m.st, k)
					c.Distinct(m.st, was, m.th, m.hyst, m.rng, m.hold, k)
				}
				desc := func() string {
					h := hist
					if len(h) > 300 {
						h = "..." + h[len(h)-300:]
					}
					return fmt.Sprintf("%g Hz, threshold %g, hysteresis %g, attack %g, hold %g (%d samples), release %g, range %g, filter %v %g, stereo %v, sample %d (%g):%s", sr, m.th, m.hyst, m.at, m.hold, int(m.hold*sr), m.rl, m.rng, m.hpf, m.fc, stereo, k, x[k], h)
				}
				if s := g.GetState(); s != m.st {
					c.Failf("E03/state/"+was, "state %s, specified %s after %s; %s", s, m.st, was, desc())
					return
				}
				if g.IsOpen() != m.open {
					c.Failf("E03/open", "IsOpen %v in state %s; %s", g.IsOpen(), m.st, desc())
					return
				}
				gr := g.GetGainReduction()
				want := db(m.gain)
				if !(math.Abs(gr-want) < 1e-5 || want > -0.1001 && gr == 0) {
					c.Failf("E03/reduction", "reports %g dB, gain is %g dB; %s", gr, want, desc())
					return
				}
				if !mon.Close(float64(y[k]), float64(x[k])*m.gain, 1e-30, 3e-6) || stereo && !mon.Close(float64(yr[k]), float64(xr[k])*m.gain, 1e-30, 3e-6) {
					c.Failf("E03/gain", "output %g %g for %g %g, gain should be %g; %s", y[k], yr[k], x[k], xr[k], m.gain, desc())
					return
				}
			}
			// in quiet the gate must close and in loud it must open, ending at the range and at unity
			if seg%4 == 3 && !m.hpf {
				for k, n := 0, m.count+int((m.hold+20*m.rl+20*m.at)*sr)+10; k < n; k++ {
					g.Process(0)
					if !m.step(0) {
						return
					}
					if s := g.GetState(); s != m.st {
						c.Failf("E03/silence", "%g Hz, hold %g s, release %g s: state %s after %d samples of silence, specified %s;%s", sr, m.hold, m.rl, s, k+1, m.st, hist)
						return
					}
				}
				if g.GetState() != "closed" || g.IsOpen() {
					c.Failf("E03/closes", "state %s after long silence", g.GetState())
					return
				}
				lim := float64(g.Process(1e-9)) / 1e-9
				if !mon.Close(lim, lin(m.rng), 0, 0.0101) && m.th > -96 {
					c.Failf("E03/range", "gain %g when closed, range is %g", lim, lin(m.rng))
					return
				}
				for k := 0; k < int(20*m.at*sr)+10; k++ {
					g.Process(2)
				}
				if g.GetState() != "open" || !g.IsOpen() {
					c.Failf("E03/opens", "state %s after a long loud signal", g.GetState())
					return
				}
				if gn := float64(g.Process(2)) / 2; !(math.Abs(gn-1) <= 1e-3) {
					c.Failf("E03/unity", "gain %g when open", gn)
					return
				}
				g.Reset()
				m.st, m.open, m.count, m.last, m.hp = "closed", false, 0, 0, 0
				m.gain, m.target = lin(m.rng), lin(m.rng)
			}
		}
	})
}

func e04(r *mon.Run) {
	r.Par("lim", r.N(150, 6000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		l := dynamics.NewLimiter(sr)
		th, rl := -0.3, 0.05
		la := int(0.005 * sr)
		stereo := i%2 == 1
		delay := make([]float32, la)
		tp := true
		peak := 0.0 // loudest input since the last reset
		peakTh := -0.3
		set := func(k int) {
			switch k {
			case 0:
				th = mon.Pick(c.Rand, 0, -0.1, -6, mon.Uni(c.Rand, -40, 0))
				x := th
				if c.Rand.IntN(6) == 0 {
					x, th = mon.Uni(c.Rand, 0, 12), 0
				}
				l.SetThreshold(x)
				peakTh = math.Min(peakTh, th)
			case 1:
				rl = mon.Pick(c.Rand, 0, 0.001, mon.LogUniform(c.Rand, 0.001, 0.5))
				l.SetRelease(rl)
				rl = math.Max(rl, 0.001)
			case 2:
				k := c.Rand.IntN(int(0.0099*sr) + 1)
				if c.Rand.IntN(4) == 0 {
					k = 0
				}
				l.SetLookahead((float64(k) + 0.5) / sr)
				if k != la {
					la = k
					delay = make([]float32, k)
				}
			case 3:
				tp = c.Rand.IntN(2) == 0
				l.SetTruePeak(tp)
			}
		}
		for k := 0; k < 4; k++ {
			if c.Rand.IntN(3) > 0 {
				set(k)
			}
		}
		judge := func(in, out []float32) bool {
			ceil := lin(th)
			gr := l.GetGainReduction()
			desc := func() string {
				return fmt.Sprintf("%g Hz, ceiling %g dB, release %g, lookahead %d, true peak %v, stereo %v, reduction %g", sr, th, rl, la, tp, stereo, gr)
			}
			if !(gr >= 0) {
				c.Failf("E04/negative", "%s", desc())
				return false
			}
			g := lin(-gr)
			// never more reduction than the loudest sample so far asks for
			if need := math.Min(1, ceil/math.Max(peak, 1e-30)); g < need*(1-1e-5) {
				c.Failf("E04/too-much", "%s: gain %g, the loudest input so far %g needs %g", desc(), g, peak, need)
				return false
			}
			for k := range in {
				if !(math.Abs(float64(out[k])) <= ceil*(1+2e-6)) {
					c.Failf("E04/ceiling", "%s: input %g (delayed) gives %g over the ceiling %g", desc(), in[k], out[k], ceil)
					return false
				}
				if !mon.Close(float64(out[k]), float64(in[k])*g, 1e-30, 3e-6) {
					c.Failf("E04/gain", "%s: sample %g became %g, want %g", desc(), in[k], out[k], float64(in[k])*g)
					return false
				}
			}
			return true
		}
		for seg := 0; seg < 6; seg++ {
			if seg > 0 {
				set(c.Rand.IntN(4))
				if c.Rand.IntN(4) == 0 {
					l.Reset()
					peak = 0
					for k := range delay {
						delay[k] = 0
					}
					if g := l.GetGainReduction(); g != 0 {
						c.Failf("E04/reset", "reduction %g after a reset", g)
					}
				}
			}
			n := 500 + c.Rand.IntN(2500)
			hi := mon.Pick(c.Rand, -1.0, 20.0, 60.0)
			x := program(c, n, th-20, th+hi)
			if stereo {
				xr := program(c, n, th-20, th+hi)
				var a, b [1]float32
				for k := range x {
					l.ProcessStereo(x[k:k+1], xr[k:k+1], a[:], b[:])
					peak = math.Max(peak, math.Max(math.Abs(float64(x[k])), math.Abs(float64(xr[k]))))
					if la > 0 {
						// stereo processing has no lookahead
					}
					if !judge([]float32{x[k], xr[k]}, []float32{a[0], b[0]}) {
						return
					}
				}
			} else {
				for k := range x {
					var y [1]float32
					if k%2 == 0 {
						y[0] = l.Process(x[k])
					} else {
						l.ProcessBuffer(x[k:k+1], y[:])
					}
					peak = math.Max(peak, math.Abs(float64(x[k])))
					p := x[k]
					if la > 0 {
						p = delay[0]
						copy(delay, delay[1:])
						delay[la-1] = x[k]
					}
					if !judge([]float32{p}, y[:]) {
						return
					}
				}
			}
			c.Distinct(sr, th, rl, la, tp, stereo, x[n/2])
		}
		// afterwards a quiet signal passes unchanged once the release is over
		q := float32(lin(th) * 0.5)
		var y float32
		for k := 0; k < int((40*rl+0.1)*sr)+la; k++ {
			if stereo {
				var a, b [1]float32
				l.ProcessStereo([]float32{q}, []float32{-q}, a[:], b[:])
				y = a[0]
			} else {
				y = l.Process(q)
			}
		}
		if !(math.Abs(float64(y/q)-1) <= 1e-5) || l.GetGainReduction() > 1e-4 {
			c.Failf("E04/recovers", "%g Hz, ceiling %g dB, release %g: steady level 6 dB below the ceiling comes out with gain %g, reduction %g", sr, th, rl, y/q, l.GetGainReduction())
		}
	})
	// both polarities are limited alike
	r.Par("polarity", r.N(60, 2000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		th, rl, la, tp := mon.Uni(c.Rand, -30, 0), mon.LogUniform(c.Rand, 0.001, 0.2), mon.Pick(c.Rand, 0, mon.Uni(c.Rand, 0, 0.01)), i%2 == 0
		var ls [2]*dynamics.Limiter
		for k := range ls {
			ls[k] = dynamics.NewLimiter(sr)
			ls[k].SetThreshold(th)
			ls[k].SetRelease(rl)
			ls[k].SetLookahead(la)
			ls[k].SetTruePeak(tp)
		}
		n := 2000
		x := program(c, n, th-20, th+20)
		xr := program(c, n, th-20, th+20)
		off := float32(mon.Uni(c.Rand, 0, lin(th+6)))
		for k := range x {
			x[k] += off
			var a, b, p, q [1]float32
			if i%3 == 0 {
				ls[0].ProcessStereo(x[k:k+1], xr[k:k+1], a[:], b[:])
				ls[1].ProcessStereo([]float32{-x[k]}, []float32{-xr[k]}, p[:], q[:])
			} else {
				a[0], p[0] = ls[0].Process(x[k]), ls[1].Process(-x[k])
			}
			if a[0] != -p[0] || b[0] != -q[0] {
				c.Failf("E04/polarity", "%g Hz, ceiling %g dB, lookahead %g, true peak %v: sample %d (%g) gives %g/%g, inverted %g/%g", sr, th, la, tp, k, x[k], a[0], b[0], p[0], q[0])
				return
			}
		}
		c.Distinct("pol", th, rl, la, tp)
	})
}
