package main

import (
	"fmt"
	"math"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"verif/harness/mon"
)

// a06 judges every smoothing step: towards the target, never past it, arriving within a
// bounded number of steps, and then staying there.
func a06(r *mon.Run) {
	kinds := []param.SmoothingType{param.LinearSmoothing, param.ExponentialSmoothing, param.LogarithmicSmoothing}
	names := []string{"linear", "exponential", "logarithmic"}
	r.Par("walk", r.N(900, 20000), func(c *mon.C, i int) {
		ki := i % 3
		kind, name := kinds[ki], names[ki]
		var rate float64
		var maxSteps int
		draw := func() {
			if kind == param.ExponentialSmoothing {
				rate = []float64{0, 0.5, 0.9, 0.99, 0.995}[c.Rand.IntN(5)]
				maxSteps = max(maxSteps, int(60/(1-rate))+5)
			} else {
				rate = []float64{1, 2, 10, 64, 100, 441.5, 0, -1}[c.Rand.IntN(8)]
				maxSteps = max(maxSteps, int(math.Max(rate, 0))+3)
			}
		}
		draw()
		s := param.NewSmoother(kind, rate)
		thr := 0.0001
		if c.Rand.IntN(3) == 0 {
			thr = mon.Pick(c.Rand, 1e-6, 1e-3, 0.01)
			s.SetThreshold(thr)
		}
		val := func() float64 {
			switch c.Rand.IntN(6) {
			case 0:
				return 0
			case 1:
				return mon.LogUniform(c.Rand, 20, 20000)
			case 2:
				return (c.Rand.Float64()*2 - 1) * 80
			case 3:
				return float64(c.Rand.IntN(3))
			case 4:
				return c.Rand.Float64() * 0.002
			}
			return c.Rand.Float64()
		}
		cur := val()
		s.Reset(cur)
		if s.IsSmoothing() || s.Next() != cur {
			c.Failf("A06/reset/"+name, "after Reset(%g) Next=%g smoothing=%v", cur, s.Next(), s.IsSmoothing())
		}
		for k := 0; k < 12; k++ {
			tgt := val()
			if c.Rand.IntN(6) == 0 {
				tgt = cur // back to where it is now
			} else if kind != param.ExponentialSmoothing && c.Rand.IntN(8) == 0 { // so near that a step may be lost in rounding
				s.SetThreshold(0)
				thr = 0
				tgt = cur
				for q := 1 + c.Rand.IntN(4); q > 0; q-- {
					tgt = math.Nextafter(tgt, 1e6*float64(1-2*(i&4)/4))
				}
			}
			if c.Rand.IntN(6) == 0 && k > 0 {
				draw()
				s.SetRate(rate)
			}
			s.SetTarget(tgt)
			steps := 0
			partial := c.Rand.IntN(3) == 0 // interrupt with a new target
			lim := maxSteps
			if thr == 0 {
				lim *= 2 // steps of an ulp or so are rounded
			}
			if partial {
				lim = 1 + c.Rand.IntN(5)
			}
			from := cur
			slack := 1e-9 * math.Max(1, math.Max(math.Abs(from), math.Abs(tgt)))
			if math.Abs(tgt-from) < thr { // below the threshold the value may legitimately stay
				slack += thr
			}
			slack += thr
			nag := c.Rand.IntN(3) == 0 // hosts set the rate again on every block
			for steps < lim {
				if nag && c.Rand.IntN(4) == 0 {
					s.SetRate(rate)
				}
				v := s.Next()
				steps++
				lo, hi := math.Min(cur, tgt), math.Max(cur, tgt)
				if !(v >= lo-slack && v <= hi+slack) {
					c.Failf("A06/overshoot/"+name, "rate %g from %g to %g step %d: %g left [%g,%g]", rate, from, tgt, steps, v, lo, hi)
					return
				}
				cur = v
				if !s.IsSmoothing() {
					break
				}
			}
			c.Count("steps", steps)
			if !partial {
				if s.IsSmoothing() {
					c.Failf("A06/no-termination/"+name, "rate %g from %g to %g: still smoothing after %d steps at %g", rate, from, tgt, steps, cur)
					return
				}
				if !(math.Abs(cur-tgt) <= thr*1.0001) {
					c.Failf("A06/wrong-end/"+name, "rate %g from %g to %g: ended at %g (threshold %g)", rate, from, tgt, cur, thr)
					return
				}
				for q := 0; q < 3; q++ {
					if v := s.Next(); v != cur {
						c.Failf("A06/drift/"+name, "settled at %g then moved to %g", cur, v)
						return
					}
				}
			}
			c.Distinct(name, rate, from, tgt)
		}
		c.Evals(12)
	})
	// Laws: linear takes `rate` equal steps; exponential is a one-pole; logarithmic moves in equal ratios.
	r.Par("law", r.N(300, 6000), func(c *mon.C, i int) {
		n := 2 + c.Rand.IntN(200)
		a, b := mon.Uni(c.Rand, 1, 1000), mon.Uni(c.Rand, 1, 1000)
		if math.Abs(a-b) < 1 {
			b = a + 5
		}
		l := param.NewSmoother(param.LinearSmoothing, float64(n))
		l.Reset(a)
		l.SetTarget(b)
		g := param.NewSmoother(param.LogarithmicSmoothing, float64(n))
		g.Reset(a)
		g.SetTarget(b)
		coef := mon.Uni(c.Rand, 0.5, 0.999)
		e := param.NewSmoother(param.ExponentialSmoothing, coef)
		e.Reset(a)
		e.SetTarget(b)
		buf := make([]float32, n)
		for k := range buf {
			buf[k] = 1
		}
		lb := param.NewSmoother(param.LinearSmoothing, float64(n))
		lb.Reset(a)
		lb.SetTarget(b)
		lb.Process(buf, func(v float64, x float32) float32 { return float32(v) * x })
		for k := 1; k <= n; k++ {
			f := float64(k) / float64(n)
			lv := l.Next()
			if w := a + (b-a)*f; !mon.Close(lv, w, 1e-6, 1e-6) {
				c.Failf("A06/linear-law", "step %d/%d from %g to %g: %g expected %g", k, n, a, b, lv, w)
			}
			if !mon.Close(float64(buf[k-1]), lv, 1e-3, 1e-5) {
				c.Failf("A06/process", "buffer step %d: %g, sample-wise %g", k, buf[k-1], lv)
			}
			if w, v := a*math.Pow(b/a, f), g.Next(); !mon.Close(v, w, 1e-6, 1e-6) {
				c.Failf("A06/log-law", "step %d/%d from %g to %g: %g expected %g", k, n, a, b, v, w)
			}
			if w, v := b+(a-b)*math.Pow(coef, float64(k)), e.Next(); !mon.Close(v, w, 2e-4, 1e-9) {
				c.Failf("A06/exp-law", "step %d from %g to %g coef %g: %g expected %g", k, a, b, coef, v, w)
			}
		}
		for k := 0; k < 2; k++ {
			l.Next()
			g.Next()
		}
		if l.IsSmoothing() || g.IsSmoothing() || l.Next() != b || g.Next() != b {
			c.Failf("A06/law-end", "n=%d: linear %v %g, log %v %g, target %g", n, l.IsSmoothing(), l.Next(), g.IsSmoothing(), g.Next(), b)
		}
		c.Distinct("law", n, a, b, coef)
	})
	// Smoothed parameters follow the parameter's plain value across enable/disable and rate changes.
	r.Par("smoothed", r.N(300, 6000), func(c *mon.C, i int) {
		lo := mon.Uni(c.Rand, 1, 100)
		hi := lo + mon.LogUniform(c.Rand, 0.5, 10000)
		ps := param.NewParameterSmoother()
		type ent struct {
			p       *param.Parameter
			kind    param.SmoothingType
			enabled bool
			last    float64
		}
		var es []*ent
		n := 1 + c.Rand.IntN(4)
		for k := 0; k < n; k++ {
			p := param.New(uint32(k), fmt.Sprint(k)).Range(lo, hi).Default(mon.Uni(c.Rand, lo, hi)).Build()
			kd := kinds[c.Rand.IntN(3)]
			rate := 20.0
			if kd == param.ExponentialSmoothing {
				rate = 0.9
			}
			ps.Add(uint32(k), p, kd, rate)
			es = append(es, &ent{p, kd, true, p.GetPlainValue()})
		}
		log := ""
		thr := 0.0002 + 1e-9*hi
		for k := 0; k < 30; k++ {
			id := c.Rand.IntN(n)
			e := es[id]
			switch c.Rand.IntN(7) {
			case 5: // the host, a preset or the plug-in itself sets the parameter, not the smoother
				v := c.Rand.Float64()
				e.p.SetValue(v)
				log += fmt.Sprintf("param(%d,%.3f) ", id, v)
			case 6:
				if sp, ok := ps.Get(uint32(id)); ok {
					v := mon.Uni(c.Rand, lo, hi)
					sp.SetPlainValue(v)
					log += fmt.Sprintf("plain(%d,%.3f) ", id, v)
				}
			case 0, 1:
				v := c.Rand.Float64()
				ps.SetValue(uint32(id), v)
				log += fmt.Sprintf("set(%d,%.3f) ", id, v)
				if e.p.GetValue() != v {
					c.Failf("A06/param-not-set", "smoother SetValue(%g) left the parameter at %g", v, e.p.GetValue())
				}
			case 2:
				e.enabled = c.Rand.IntN(2) == 0
				ps.SetSmoothing(uint32(id), e.enabled)
				log += fmt.Sprintf("enable(%d,%v) ", id, e.enabled)
			case 3:
				if sp, ok := ps.Get(uint32(id)); ok && e.kind != param.LogarithmicSmoothing {
					sp.UpdateSampleRate(48000, mon.Uni(c.Rand, 0.1, 2))
					log += fmt.Sprintf("rate(%d) ", id)
				}
			case 4:
				ps.UpdateAll()
			}
			for q := 0; q < 3; q++ {
				v := ps.GetSmoothed(uint32(id))
				if !(v >= lo-thr && v <= hi+thr) {
					c.Failf("A06/smoothed-range", "smoothed value %g outside [%g,%g]\n%s", v, lo, hi, log)
				}
				if !e.enabled && v != e.p.GetPlainValue() {
					c.Failf("A06/disabled", "smoothing off but value %g, parameter %g\n%s", v, e.p.GetPlainValue(), log)
				}
			}
			c.Count("smoothed_ops", 1)
		}
		for id, e := range es {
			v := 0.0
			for q := 0; q < 3000; q++ {
				v = ps.GetSmoothed(uint32(id))
			}
			if !(math.Abs(v-e.p.GetPlainValue()) <= thr) {
				c.Failf("A06/not-followed", "smoothed value settles at %g, parameter is %g (law %v)\n%s", v, e.p.GetPlainValue(), names[e.kind], log)
			}
		}
		if ps.GetSmoothed(999) != 0 {
			c.Failf("A06/unknown", "unknown id smoothed to non-zero")
		}
		c.Distinct(log)
	})
	// Time-based rates: settle time tracks sample rate.
	r.Par("time", r.N(100, 1000), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, 8000.0, 22050, 44100, 48000, 88200, 96000, 176400, 192000, 384000)
		ms := mon.Uni(c.Rand, 1, 50)
		for ki := 0; ki < 2; ki++ {
			p := param.New(1, "p").Build()
			sp := param.NewSmoothedParameter(p, kinds[ki], 10)
			sp.UpdateSampleRate(sr, ms)
			sp.SetValue(1)
			n := sr * ms / 1000
			at := -1
			for k := 1; k < int(4*n)+10; k++ {
				if sp.GetSmoothedValue() >= 0.999 {
					at = k
					break
				}
			}
			if at < 0 || !(math.Abs(float64(at)-n) <= 0.02*n+2) {
				c.Failf("A06/time/"+names[ki], "%g ms at %g Hz: reached 99.9%% after %d samples, expected %g", ms, sr, at, n)
			}
			c.Distinct("time", sr, ms, ki)
		}
	})
}
