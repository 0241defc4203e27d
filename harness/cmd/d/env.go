package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/justyntemme/vst3go/pkg/dsp/envelope"
	"verif/harness/mon"
)

func d05(r *mon.Run) {
	r.Par("adsr", r.N(300, 10000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		e := envelope.New(sr)
		A, D, S, R := 0.01, 0.1, 0.7, 0.3
		tm := func() float64 { return mon.Pick(c.Rand, 0, 0.001, mon.LogUniform(c.Rand, 0.001, 0.05)) }
		lv := func() float64 { return mon.Pick(c.Rand, 0, 1, c.Rand.Float64(), c.Rand.Float64()) }
		eff := func(x float64) float64 { return math.Max(0.001, x) }
		var log strings.Builder
		v := 0.0
		st := envelope.StageIdle
		since := 0 // samples in this stage
		enter := 0.0
		sustainTouched, timesTouched := false, false
		decayFrom := 0.0
		for op := 0; op < 25; op++ {
			switch c.Rand.IntN(8) {
			case 0, 1:
				log.WriteString("trigger ")
				e.Trigger()
				if e.GetStage() != envelope.StageAttack {
					c.Failf("D05/trigger", "stage %d after a trigger", e.GetStage())
				}
			case 2, 3:
				log.WriteString("release ")
				was := e.GetStage()
				e.Release()
				want := envelope.StageRelease
				if was == envelope.StageIdle {
					want = envelope.StageIdle
				}
				if e.GetStage() != want {
					c.Failf("D05/release", "stage %d after a release from stage %d", e.GetStage(), was)
				}
			case 4:
				A, D, S, R = tm(), tm(), lv(), tm()
				fmt.Fprintf(&log, "adsr(%.4g,%.4g,%.4g,%.4g) ", A, D, S, R)
				e.SetADSR(A, D, S, R)
				sustainTouched, timesTouched, since = true, true, 0
			case 5:
				S = lv()
				if c.Rand.IntN(4) == 0 {
					S = S*4 - 1.5
				}
				fmt.Fprintf(&log, "sustain(%.4g) ", S)
				e.SetSustain(S)
				S = math.Max(0, math.Min(1, S))
				sustainTouched, since = true, 0 // the distance still to go changes
			case 6:
				switch c.Rand.IntN(3) {
				case 0:
					A = tm()
					e.SetAttack(A)
				case 1:
					D = tm()
					e.SetDecay(D)
				default:
					R = tm()
					e.SetRelease(R)
				}
				fmt.Fprintf(&log, "times(%.4g,%.4g,%.4g) ", A, D, R)
				timesTouched = true
			case 7:
				if c.Rand.IntN(5) == 0 {
					log.WriteString("reset ")
					e.Reset()
					v = 0
					if e.IsActive() || e.GetStage() != envelope.StageIdle {
						c.Failf("D05/reset", "active after a reset")
					}
				}
			}
			if e.GetStage() != st {
				st, since, enter, sustainTouched, timesTouched = e.GetStage(), 0, v, false, false
				if st == envelope.StageDecay {
					decayFrom = v
				}
			}
			n := 1 + c.Rand.IntN(3000)
			fmt.Fprintf(&log, "run%d ", n)
			buf := make([]float32, n)
			for k := range buf {
				buf[k] = 1
			}
			step := c.Rand.IntN(3)
			for k := 0; k < n; k++ {
				var y float64
				switch step {
				case 0:
					y = float64(e.Next())
				case 1:
					e.Process(buf[k : k+1])
					y = float64(buf[k])
				default:
					e.ProcessMultiply(buf[k : k+1])
					y = float64(buf[k])
				}
				ns := e.GetStage()
				fail := func(sig, f string, a ...any) {
					l := log.String()
					if len(l) > 400 {
						l = "..." + l[len(l)-400:]
					}
					c.Failf("D05/"+sig, "at %g Hz, A=%.4g D=%.4g S=%.4g R=%.4g, stage %d->%d, value %g->%g: %s\n%s", sr, A, D, S, R, st, ns, v, y, fmt.Sprintf(f, a...), l)
				}
				if !(y >= 0 && y <= 1) {
					fail("range", "outside 0 to 1")
					return
				}
				if e.IsActive() != (ns != envelope.StageIdle) {
					fail("active", "activity disagrees with the stage")
				}
				since++
				var tau float64
				switch st {
				case envelope.StageIdle:
					if y != 0 || ns != st {
						fail("idle", "an idle envelope moves")
						return
					}
				case envelope.StageAttack:
					tau = eff(A)
					if y < v-1e-9 {
						fail("attack-falls", "attack goes down")
						return
					}
					if ns != envelope.StageAttack && (ns != envelope.StageDecay || y < 0.998) {
						fail("attack-end", "attack ends at %g", y)
						return
					}
				case envelope.StageDecay:
					tau = eff(D)
					if !(math.Abs(y-S) <= math.Abs(v-S)+1e-6) {
						fail("decay-away", "decay moves away from the sustain level")
						return
					}
					if y > v+1e-7 && !sustainTouched {
						fail("decay-rises", "decay goes up")
						return
					}
					if y < S-1e-6 && !sustainTouched {
						fail("decay-under", "decay undershoots the sustain level")
						return
					}
					if ns == envelope.StageSustain && !(math.Abs(y-S) <= 1e-6) || ns != st && ns != envelope.StageSustain {
						fail("decay-end", "decay ends away from the sustain level")
						return
					}
				case envelope.StageSustain:
					if !(math.Abs(y-S) <= 1e-6) || ns != st {
						fail("sustain", "sustain away from its level")
						return
					}
				case envelope.StageRelease:
					tau = eff(R)
					if y > v+1e-9 {
						fail("release-rises", "release goes up")
						return
					}
					if ns != st && (ns != envelope.StageIdle || y != 0) {
						fail("release-end", "release ends at %g in stage %d", y, ns)
						return
					}
				}
				if tau > 0 {
					// no click: one sample moves at most the exponential step plus the snap at the end
					lim := (1 - math.Exp(-1/(tau*sr))) + 0.0021
					if !(math.Abs(y-v) <= lim) && !sustainTouched {
						fail("jump", "moves by more than %g in a sample", lim)
						return
					}
					// time constant: the distance to the target shrinks by e per set time
					if !timesTouched && !sustainTouched && ns == st {
						tgt := map[envelope.Stage]float64{envelope.StageAttack: 1, envelope.StageDecay: S, envelope.StageRelease: 0}[st]
						from := enter
						if st == envelope.StageDecay {
							from = decayFrom
						}
						want := tgt + (from-tgt)*math.Exp(-float64(since)/(tau*sr))
						if !(math.Abs(y-want) <= 2e-3) {
							fail("time-constant", "%d samples into the stage from %g the value should be %g", since, from, want)
							return
						}
					}
					if !timesTouched && float64(since) > 10*tau*sr+5 {
						fail("stuck", "stage lasts %d samples", since)
						return
					}
				}
				v = y
				if ns != st {
					st, since, enter, sustainTouched, timesTouched = ns, 0, y, false, false
					decayFrom = y
				}
			}
			if st != envelope.StageIdle {
				c.Distinct(log.Len(), st, v)
			}
			c.Count("samples", n)
		}
		c.Evals(25)
		if i == 0 {
			c.Sample("history", log.String()[:300])
		}
	})
	r.Par("ar", r.N(100, 3000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		e := envelope.NewAR(sr)
		a, rl := mon.LogUniform(c.Rand, 0.001, 0.05), mon.LogUniform(c.Rand, 0.001, 0.05)
		e.SetAttack(a)
		e.SetRelease(rl)
		v := 0.0
		on := false
		for op := 0; op < 8; op++ {
			if c.Rand.IntN(2) == 0 {
				e.Trigger()
				on = true
			} else {
				e.Release()
				on = false
			}
			from, n := v, 1+c.Rand.IntN(4000)
			b := make([]float32, n)
			e.Process(b)
			for k, y := range b {
				tau, tgt := rl, 0.0
				if on {
					tau, tgt = a, 1
				}
				want := tgt + (from-tgt)*math.Exp(-float64(k+1)/(tau*sr))
				if !(math.Abs(float64(y)-want) <= 1e-4) {
					c.Failf("D05/ar", "attack %g release %g on=%v: sample %d is %g, expected %g", a, rl, on, k, y, want)
					return
				}
				v = float64(y)
			}
		}
		c.Distinct("ar", a, rl)
	})
}

func d06(r *mon.Run) {
	r.Par("follower", r.N(150, 5000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, rates...)
		a, rl := mon.LogUniform(c.Rand, 0.0001, 0.05), mon.LogUniform(c.Rand, 0.0005, 0.2)
		f, g := envelope.NewFollower(sr), envelope.NewFollower(sr)
		f.SetAttack(a)
		f.SetRelease(rl)
		g.SetAttack(a)
		g.SetRelease(rl)
		x := sig(c, 3000)
		o := make([]float32, len(x))
		cut := c.Rand.IntN(len(x))
		f.Process(x[:cut], o[:cut])
		f.Process(x[cut:], o[cut:])
		env, peak := 0.0, 0.0
		for k, v := range x {
			ab := math.Abs(float64(v))
			tau := rl
			if ab > env {
				tau = a
			}
			env = ab + (env-ab)*math.Exp(-1/(tau*sr))
			peak = math.Max(peak, ab)
			if y := g.Follow(v); y != o[k] || !mon.Close(float64(y), env, 1e-5*(1+peak), 1e-4) || float64(y) < 0 || float64(y) > peak*(1+1e-6) {
				c.Failf("D06/follower", "attack %g release %g: sample %d input %g gives %g (block form %g), expected %g, peak so far %g", a, rl, k, v, y, o[k], env, peak)
				return
			}
		}
		c.Distinct("f", a, rl, x[0], x[7])
	})
	modes := []envelope.DetectorMode{envelope.ModePeak, envelope.ModeRMS, envelope.ModePeakHold}
	types := []envelope.DetectorType{envelope.TypeLinear, envelope.TypeLogarithmic, envelope.TypeAnalog}
	r.Par("detector", r.N(400, 15000), func(c *mon.C, i int) {
		m, t := i%3, (i/3)%3
		sr := mon.Pick(c.Rand, rates...)
		d := envelope.NewDetector(sr, modes[c.Rand.IntN(3)])
		d.SetMode(modes[m])
		d.SetType(types[t])
		a, rl := mon.LogUniform(c.Rand, 0.0001, 0.02), mon.LogUniform(c.Rand, 0.001, 0.05)
		if c.Rand.IntN(2) == 0 {
			d.SetTimeConstants(a, rl)
		} else {
			d.SetAttack(a)
			d.SetRelease(rl)
		}
		hold := mon.Pick(c.Rand, 0, mon.Uni(c.Rand, 0, 0.02))
		if i%40 == 2 {
			hold = mon.Uni(c.Rand, 0.2, 4)
		}
		d.SetHold(hold)
		win := 3.0
		if i%40 == 4 {
			win = mon.Uni(c.Rand, 100, 1500)
			d.SetRMSWindow(win)
		} else if c.Rand.IntN(2) == 0 {
			win = mon.Uni(c.Rand, 0.1, 20)
			d.SetRMSWindow(win)
		}
		nm := fmt.Sprintf("%s/%s attack %.4g release %.4g hold %.4g window %.3g ms at %g", []string{"peak", "rms", "peakhold"}[m], []string{"lin", "log", "analog"}[t], a, rl, hold, win, sr)
		x := sig(c, 2500)
		peak := 0.0
		var env float32
		out := make([]float32, len(x))
		side := c.Rand.IntN(2) == 0
		if side {
			d.ProcessSidechain(noise(c, len(x), 5), x, out)
		} else {
			d.Process(x, out)
		}
		prev := float32(0)
		for k, v := range x {
			peak = math.Max(peak, math.Abs(float64(v)))
			env = out[k]
			if !(float64(env) >= 0 && float64(env) <= peak*(1+1e-5)) {
				c.Failf("D06/bound", "%s: sample %d envelope %g, loudest input so far %g", nm, k, env, peak)
				return
			}
			if m == 0 { // the envelope moves towards the input, never past it
				ab := float32(math.Abs(float64(v)))
				lo, hi := min(prev, ab), max(prev, ab)
				if env < lo-1e-6*hi || env > hi+1e-6*hi {
					c.Failf("D06/direction", "%s: sample %d input %g moves the envelope from %g to %g", nm, k, ab, prev, env)
					return
				}
			}
			prev = env
		}
		if d.GetEnvelope() != env {
			c.Failf("D06/get", "%s: envelope %g, last output %g", nm, d.GetEnvelope(), env)
		}
		db := float64(d.GetEnvelopeDB())
		if w := math.Max(-96, 20*math.Log10(float64(env))); !mon.Close(db, w, 1e-2, 0) {
			c.Failf("D06/db", "%s: %g dB for envelope %g", nm, db, env)
		}
		// a steady tone or level is measured right
		lvl := mon.LogUniform(c.Rand, 1e-4, 4)
		if c.Rand.IntN(3) == 0 {
			lvl = mon.LogUniform(c.Rand, 4, 1e4)
		}
		n := int(sr * (24*math.Max(a, rl) + hold + 2*win/1000))
		sq := c.Rand.IntN(2) == 0
		for k := 0; k < n; k++ {
			v := lvl
			if sq && k%2 == 1 {
				v = -v
			}
			env = d.Detect(float32(v))
		}
		if !mon.Close(float64(env), lvl, 1e-5, 0.01) {
			c.Failf("D06/steady", "%s: steady level %g is reported as %g", nm, lvl, env)
			return
		}
		if db, w := float64(d.GetEnvelopeDB()), math.Max(-96, 20*math.Log10(float64(env))); !mon.Close(db, w, 1e-2, 0) {
			c.Failf("D06/db", "%s: %g dB for envelope %g", nm, db, env)
		}
		// hold, then decay to nothing
		w := int(win / 1000 * sr)
		first := -1
		held := env
		if m == 2 { // a burst above the level restarts the hold
			for k := 0; k < n; k++ {
				held = d.Detect(float32(2 * lvl))
				if k > 0 && float64(held) > 1.9*lvl {
					break
				}
			}
			env = held
			lvl *= 2
		}
		for k := 0; k < n+w; k++ {
			p := env
			env = d.Detect(0)
			if !(env >= 0 && env <= p*(1+1e-6)) {
				c.Failf("D06/decay", "%s: envelope goes %g -> %g in silence", nm, p, env)
				return
			}
			if first < 0 && env < held*0.99999 {
				first = k
			}
		}
		if m == 2 {
			if h := int(hold * sr); first >= 0 && (first < h-2 || first > h+2+int(1e-4*sr*rl)+1) {
				c.Failf("D06/hold", "%s: starts to fall after %d samples, hold is %d", nm, first, h)
			}
		}
		if !(float64(env) <= 1e-3*lvl+3e-7*peak) {
			c.Failf("D06/silence", "%s: still %g after silence (was %g)", nm, env, lvl)
		}
		d.Reset()
		if d.GetEnvelope() != 0 || d.Detect(0) != 0 {
			c.Failf("D06/reset", "%s: envelope %g after a reset", nm, d.GetEnvelope())
		}
		c.Distinct("d", m, t, a, rl, hold, win)
		c.Evals(4)
	})
	r.Par("ballistics", r.N(300, 12000), func(c *mon.C, i int) {
		// the envelope rises and falls with the time constants of its response type, sample by sample
		m, t := i%3, (i/3)%3
		sr := mon.Pick(c.Rand, rates...)
		d := envelope.NewDetector(sr, modes[m])
		a, rl := mon.LogUniform(c.Rand, 0.0002, 0.02), mon.LogUniform(c.Rand, 0.001, 0.05)
		hold, win := mon.Pick(c.Rand, 0, 0.005, mon.Uni(c.Rand, 0, 0.02)), 3.0
		if c.Rand.IntN(2) == 0 {
			win = mon.Uni(c.Rand, 0.1, 12)
		}
		k := 1.0
		if t == 1 {
			k = 2.2 // 10 to 90 percent
		}
		set := []func(){func() { d.SetType(types[t]) }, func() { d.SetAttack(a) }, func() { d.SetRelease(rl) }, func() { d.SetHold(hold) }, func() { d.SetRMSWindow(win) }}
		c.Rand.Shuffle(len(set), func(i, j int) { set[i], set[j] = set[j], set[i] })
		for _, f := range set {
			f()
		}
		w := max(1, int(sr*win/1000))
		hist := make([]float64, w)
		env, level, left, acc := 0.0, 0.5, 0, 0.0
		ca, cr := math.Exp(-k/(a*sr)), math.Exp(-k/(rl*sr))
		rising := 0
		for n := 0; n < 3000; n++ {
			if n%200 == 0 {
				level = mon.Pick(c.Rand, level*1.3, level*0.6, level*1.05, mon.LogUniform(c.Rand, 0.05, 1), 0)
				if level == 0 && c.Rand.IntN(2) == 0 {
					level = 0.4
				}
			}
			x := float32(level)
			if c.Rand.IntN(2) == 0 {
				x = -x
			}
			in := math.Abs(float64(x))
			if m == 1 {
				acc += in*in - hist[n%w]
				hist[n%w] = in * in
				if n%50 == 0 {
					acc = 0
					for _, v := range hist {
						acc += v
					}
				}
				in = math.Sqrt(math.Max(0, acc) / float64(w))
			}
			got := float64(d.Detect(x))
			if math.Abs(in-env) < 1e-7*(in+env) { // steady: rounding decides the branch, and whether a hold runs
				env, left = got, -1
			} else if in > env {
				rising++
				env = in + (env-in)*ca
				left = int(hold * sr)
				if t < 2 && m != 1 {
					if q := in / (2 * env); ca < 0.5 || q > 1.0001 {
						env = in
					} else if math.Abs(ca-0.5) < 1e-6 || q > 0.9999 {
						env = got
					}
				}
			} else if m == 2 && left < 0 {
				if math.Abs(got-env) > 1e-7*env {
					env, left = in+(env-in)*cr, 0
				}
			} else if m == 2 && left > 0 {
				left--
			} else {
				env = in + (env-in)*cr
			}
			if !mon.Close(got, env, 2e-6, 2e-4) {
				c.Failf("D06/ballistics", "%s/%s attack %.4g release %.4g hold %.4g window %.3g ms at %g: sample %d, level %g, envelope %g, expected %g", []string{"peak", "rms", "peakhold"}[m], []string{"lin", "log", "analog"}[t], a, rl, hold, win, sr, n, in, got, env)
				return
			}
		}
		c.Distinct("b", m, t, a, rl, rising)
		c.Evals(3000)
	})
	r.Par("reuse", r.N(200, 6000), func(c *mon.C, i int) {
		// whatever it was used for, a detector that is reset starts like a new one
		sr := mon.Pick(c.Rand, rates...)
		d := envelope.NewDetector(sr, modes[c.Rand.IntN(3)])
		keep := c.Rand.IntN(2) == 0 // leave the window as it was made
		for op := c.Rand.IntN(6); op >= 0; op-- {
			d.SetMode(modes[c.Rand.IntN(3)])
			d.SetType(types[c.Rand.IntN(3)])
			d.SetHold(mon.Uni(c.Rand, 0, 0.02))
			d.SetTimeConstants(mon.LogUniform(c.Rand, 0.0001, 0.02), mon.LogUniform(c.Rand, 0.001, 0.05))
			if c.Rand.IntN(3) == 0 && !keep {
				d.SetRMSWindow(mon.Uni(c.Rand, 0.1, 20))
			}
			for k := c.Rand.IntN(400); k > 0; k-- {
				d.Detect(float32(c.Rand.Float64()*4 - 2))
			}
		}
		early := c.Rand.IntN(2) == 0
		m, t := modes[c.Rand.IntN(3)], types[c.Rand.IntN(3)]
		a, rl, hold, win := mon.LogUniform(c.Rand, 0.0001, 0.02), mon.LogUniform(c.Rand, 0.001, 0.05), mon.Uni(c.Rand, 0, 0.02), mon.Uni(c.Rand, 0.1, 20)
		if early {
			d.Reset()
		}
		f := envelope.NewDetector(sr, m)
		for _, x := range []*envelope.Detector{d, f} {
			x.SetMode(m)
			x.SetType(t)
			x.SetHold(hold)
			x.SetTimeConstants(a, rl)
			if !keep {
				x.SetRMSWindow(win)
			}
		}
		if !early {
			d.Reset()
		}
		for k, v := range sig(c, 600) {
			if y, w := d.Detect(v), f.Detect(v); !mon.Close(float64(y), float64(w), 1e-7, 1e-4) {
				c.Failf("D06/reuse", "mode %d type %d hold %g window %g ms, reset before the final settings: %v: sample %d is %g, a new detector gives %g", m, t, hold, win, early, k, y, w)
				return
			}
		}
		c.Distinct("reuse", m, t, a, hold)
	})
	r.Par("rms-window", r.N(60, 2000), func(c *mon.C, i int) {
		// one impulse stays in the level for exactly the window
		sr := mon.Pick(c.Rand, 44100.0, 48000, 96000)
		d := envelope.NewDetector(sr, modes[c.Rand.IntN(3)])
		d.SetMode(envelope.ModeRMS)
		d.SetType(types[i%3])
		d.SetTimeConstants(0.0001, 0.0001)
		for k := c.Rand.IntN(4); k > 0; k-- {
			d.SetRMSWindow(mon.Uni(c.Rand, 0.1, 60))
			d.Detect(0)
		}
		win := mon.Uni(c.Rand, 4, 50)
		if i%10 == 4 {
			win = mon.Uni(c.Rand, 100, 2000)
		}
		d.SetRMSWindow(win)
		w := int(sr * win / 1000)
		for k := 0; k < w; k++ {
			d.Detect(0)
		}
		y := make([]float64, w+120)
		for k := range y {
			x := float32(0)
			if k == 0 {
				x = 1
			}
			y[k] = float64(d.Detect(x))
		}
		lv := 1 / math.Sqrt(float64(w))
		if !(math.Abs(y[w-3]-lv) <= 0.01*lv) || y[w+3] > 0.95*lv || y[w+110] > 0.01*lv {
			c.Failf("D06/rms-window", "window of %g ms (%d samples): an impulse is held at %g (expected %g), then %g just past the window and %g later", win, w, y[w-3], lv, y[w+3], y[w+110])
		}
		c.Distinct("win", win, sr)
	})
	r.Par("rms-drift", r.N(60, 2000), func(c *mon.C, i int) {
		// long loud and quiet stretches: rounding of a running sum must not leak into the level
		sr := 48000.0
		d := envelope.NewDetector(sr, envelope.ModeRMS)
		d.SetTimeConstants(0.0001, 0.0005)
		d.SetType(types[i%3])
		loudest := 0.0
		for k := 0; k < 6; k++ {
			amp := mon.LogUniform(c.Rand, 1e-6, 1e3)
			loudest = math.Max(loudest, amp)
			for q := 0; q < 3000; q++ {
				if y := d.Detect(float32((c.Rand.Float64()*2 - 1) * amp)); !mon.Fin32(y) || y < 0 {
					c.Failf("D06/rms-nan", "RMS envelope is %g after loud input", y)
					return
				}
			}
			for q := 0; q < 4000; q++ {
				if y := d.Detect(0); !mon.Fin32(y) || y < 0 {
					c.Failf("D06/rms-nan", "RMS envelope is %g in silence after loud input", y)
					return
				}
			}
			if y := d.Detect(0); float64(y) > 1e-6*loudest {
				c.Failf("D06/rms-rest", "RMS envelope rests at %g after noise of %g", y, amp)
			}
			c.Distinct("drift", amp)
		}
	})
}

// sig draws a test signal: noise, bursts, tones, impulses and levels over many magnitudes.
func sig(c *mon.C, n int) []float32 {
	x := make([]float32, n)
	k := 0
	for k < n {
		m := min(n-k, 1+c.Rand.IntN(800))
		amp := mon.LogUniform(c.Rand, 1e-5, 4)
		w := mon.Uni(c.Rand, 0.001, 3)
		kind := c.Rand.IntN(6)
		for q := 0; q < m; q++ {
			v := 0.0
			switch kind {
			case 0:
				v = amp * (c.Rand.Float64()*2 - 1)
			case 1:
				v = amp * math.Sin(w*float64(q))
			case 2:
				v = amp
			case 3:
				if q == 0 {
					v = amp
				}
			case 4:
				v = amp * float64(1-2*(q%2))
			}
			x[k+q] = float32(v)
		}
		k += m
	}
	return x
}
