package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"sync"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	"verif/harness/mon"
)

// field is a stereo recording: passages panned, inverted, decorrelated or silent.
func field(r *rand.Rand, n int) (l, rr []float64) {
	l, rr = make([]float64, n), make([]float64, n)
	for i := 0; i < n; {
		m := 1 + r.IntN(n/3+2)
		amp, kind, w := mon.LogUniform(r, 1e-4, 1.5), r.IntN(7), mon.LogUniform(r, 0.01, 3)
		g := r.Float64()
		for k := 0; k < m && i < n; k, i = k+1, i+1 {
			s := amp * (math.Sin(w*float64(k)) + 0.2*(r.Float64()-0.5))
			switch kind {
			case 0:
			case 1:
				l[i], rr[i] = s, s
			case 2:
				l[i], rr[i] = s, -s
			case 3:
				l[i], rr[i] = s*(1-g), s*g
			case 4:
				l[i], rr[i] = s, amp*(2*r.Float64()-1)
			case 5:
				l[i] = s
			case 6:
				rr[i] = s
			}
		}
	}
	return
}

func pearson(l, r []float64) (v float64, defined bool) {
	n := float64(len(l))
	var ml, mr, a, b, ab float64
	for i := range l {
		ml, mr = ml+l[i]/n, mr+r[i]/n
	}
	for i := range l {
		a, b, ab = a+(l[i]-ml)*(l[i]-ml), b+(r[i]-mr)*(r[i]-mr), ab+(l[i]-ml)*(r[i]-mr)
	}
	silent := func(x []float64) bool {
		for _, v := range x {
			if v != 0 {
				return false
			}
		}
		return true
	}
	switch sl, sr := silent(l), silent(r); {
	case sl && sr:
		return 1, true
	case sl, sr:
		return 0, true
	case a < 1e-12*(ml*ml*n+1e-30) || b < 1e-12*(mr*mr*n+1e-30):
		return 0, false // constant: the quotient is rounding noise
	}
	return ab / math.Sqrt(a) / math.Sqrt(b), true
}

func m05(r *mon.Run) {
	r.Par("correlation", r.N(200, 3000), func(c *mon.C, i int) {
		w := mon.Pick(c.Rand, 2, 16, 128, 2+c.Rand.IntN(1000))
		wide := i%50 == 6
		if wide {
			w = mon.Pick(c.Rand, 20000, 33000, 50000, 90000)
		}
		sr := mon.Pick(c.Rand, 8000.0, 44100, 48000)
		cm := analysis.NewCorrelationMeter(w, sr)
		avg, hold := 0.9, 3.0
		cur, held, left := 0.0, 1.0, 0
		var tl, tr []float64
		for rep := 0; rep < 3; rep++ {
			if c.Rand.IntN(2) == 0 {
				v := mon.Pick(c.Rand, 0, 1, c.Rand.Float64(), -1, 2)
				cm.SetAveraging(v)
				if v >= 0 && v <= 1 {
					avg = v
				}
			}
			if c.Rand.IntN(2) == 0 {
				hold = mon.Pick(c.Rand, 0, mon.LogUniform(c.Rand, 0.01, 1))
				cm.SetPeakHoldTime(hold)
			}
			if rep > 0 && c.Rand.IntN(3) == 0 {
				cm.Reset()
				cur, held, left, tl, tr = 0, 1, 0, nil, nil
				if g, h := cm.GetCorrelation(), cm.GetPeakHold(); g != 0 || h != 1 {
					c.Failf("M05/correlation-reset", "after Reset the meter reads %g, held %g; a new one reads 0, held 1", g, h)
					return
				}
			}
			l, rr := field(c.Rand, 3000+c.Rand.IntN(8000))
			if wide {
				l, rr = field(c.Rand, w+c.Rand.IntN(w))
			}
			for _, k := range cuts(c.Rand, len(l)) {
				if c.Rand.IntN(30) == 0 && k > 1 {
					cm.Process(l[:k], rr[:k-1]) // refused: channels differ in length
				}
				cm.Process(l[:k], rr[:k])
				tl, tr = append(tl, l[:k]...), append(tr, rr[:k]...)
				l, rr = l[k:], rr[k:]
				if len(tl) < w {
					continue
				}
				v, ok := pearson(tl[len(tl)-w:], tr[len(tr)-w:])
				g, h := cm.GetCorrelation(), cm.GetPeakHold()
				if ok {
					cur = avg*cur + (1-avg)*v
					if !mon.Close(g, cur, 1e-7, 0) {
						c.Failf("M05/correlation", "window %d, averaging %g, %d samples in: correlation reads %g, want %g", w, avg, len(tl), g, cur)
						return
					}
					exp := false
					slack := 1e-7
					if v < held-slack {
						held, left = v, int(hold*sr)
					} else if v < held+slack {
						// equal up to rounding: either branch may have been taken
						held, exp = h, true
						left = -1
					} else if left != -1 {
						if left -= k; left <= 0 {
							held, left = cur, 0
						}
					} else {
						exp = true
					}
					if !exp && !mon.Close(h, held, 1e-6, 0) {
						c.Failf("M05/hold", "window %d, hold %g s: held correlation after a block of %d reads %g, want %g (%d samples left)", w, hold, k, h, held, left)
						return
					}
				} else {
					left = -1
				}
				cur, held = g, h
				if g < -1 || g > 1 || h < -1 || h > 1 || cm.GetMonoCompatibility() != (g+1)/2 {
					c.Failf("M05/range", "correlation %g, held %g, mono compatibility %g", g, h, cm.GetMonoCompatibility())
					return
				}
				st, want := cm.GetPhaseStatus(), analysis.PhaseOutOfPhase
				switch {
				case g > 0.9:
					want = analysis.PhaseInPhase
				case g > 0.5:
					want = analysis.PhaseMostlyInPhase
				case g > -0.5:
					want = analysis.PhasePartiallyCorrelated
				case g > -0.9:
					want = analysis.PhaseMostlyOutOfPhase
				}
				if st != want {
					c.Failf("M05/status", "correlation %g is called %v", g, st)
					return
				}
				c.Distinct(w, rep, int(st))
				c.Evals(1)
			}
		}
	})
	// the held value stays for as long as it was told to, and no longer
	r.Par("long-hold", r.N(6, 30), func(c *mon.C, i int) {
		sr := mon.Pick(c.Rand, 44100.0, 48000, 192000)
		hold := mon.Uni(c.Rand, 2, 12)
		cm := analysis.NewCorrelationMeter(256, sr)
		cm.SetPeakHoldTime(hold)
		cm.SetAveraging(0)
		feed := func(n int, same bool) {
			l, rr := make([]float64, n), make([]float64, n)
			for k := range l {
				l[k] = 2*c.Rand.Float64() - 1
				if rr[k] = 2*c.Rand.Float64() - 1; same {
					rr[k] = l[k]
				}
			}
			cm.Process(l, rr)
		}
		feed(256, false)
		low := cm.GetPeakHold()
		if low > 0.9 || low != cm.GetCorrelation() {
			c.Failf("M05/hold", "held correlation %g after one window of unrelated noise (reading %g)", low, cm.GetCorrelation())
			return
		}
		for at := 0; at < int((hold+0.5)*sr); at += 500 {
			feed(500, true)
			g, t := cm.GetPeakHold(), float64(at+500)/sr
			if t < hold-0.02 && g != low || t > hold+0.02 && g < 0.99 {
				c.Failf("M05/hold", "hold %g s at %g Hz: %g s after the low of %g the held value is %g", hold, sr, t, low, g)
				return
			}
			c.Evals(1)
		}
		c.Distinct("long-hold", sr, i)
	})
	r.Par("field", r.N(200, 3000), func(c *mon.C, i int) {
		bm, wm := analysis.NewBalanceMeter(1024), analysis.NewStereoWidthMeter(1024)
		var pl, pr, pm, ps float64
		l, rr := field(c.Rand, 3000+c.Rand.IntN(8000))
		for _, k := range cuts(c.Rand, len(l)) {
			bm.Process(l[:k], rr[:k])
			wm.Process(l[:k], rr[:k])
			if k > 0 {
				var a, b, m, s float64
				for j := 0; j < k; j++ {
					x, y := l[j], rr[j]
					a, b, m, s = a+x*x, b+y*y, m+(x+y)*(x+y)/4, s+(x-y)*(x-y)/4
				}
				n := float64(k)
				pl, pr, pm, ps = 0.95*pl+0.05*a/n, 0.95*pr+0.05*b/n, 0.95*pm+0.05*m/n, 0.95*ps+0.05*s/n
			}
			l, rr = l[k:], rr[k:]
			bal, bdb, wd := 0.0, 0.0, 0.0
			if pl+pr > 0 {
				bal = (pr - pl) / (pl + pr)
				bdb = 10 * math.Log10(pr/pl) // infinite when one side is silent
				wd = math.Sqrt(ps / pm)
			}
			wdb := 20 * math.Log10(wd)
			if g := bm.GetBalance(); !mon.Close(g, bal, 1e-9, 0) || g < -1 || g > 1 {
				c.Failf("M05/balance", "powers %g and %g: balance %g, want %g", pl, pr, g, bal)
				return
			}
			if g := bm.GetBalanceDB(); g != bdb && !mon.Close(g, bdb, 1e-6, 0) {
				c.Failf("M05/balance-db", "powers %g and %g: balance %g dB, want %g", pl, pr, g, bdb)
				return
			}
			if g := wm.GetWidth(); g != wd && !mon.Close(g, wd, 1e-7, 1e-6) {
				c.Failf("M05/width", "mid %g, side %g: width %g, want %g", pm, ps, g, wd)
				return
			}
			if g := wm.GetWidthDB(); g != wdb && !mon.Close(g, wdb, 1e-5, 0) && ps > 1e-25 && pm > 1e-25 {
				c.Failf("M05/width-db", "mid %g, side %g: width %g dB, want %g", pm, ps, g, wdb)
				return
			}
			c.Evals(4)
			c.Distinct(i, math.Round(bal*10), math.Round(wd*10))
		}
	})
	r.Par("scope", r.N(200, 3000), func(c *mon.C, i int) {
		n, steps := 1+c.Rand.IntN(400), 40
		if i%50 == 8 {
			n, steps = mon.Pick(c.Rand, 5000, 17000, 40000, 80000), 8
		}
		ps := analysis.NewPhaseScope(n)
		var vs *analysis.VectorScope
		decay, scale, rot := 0.95, 1.0, 0.0
		if c.Rand.IntN(3) == 0 {
			vs, rot = analysis.NewVectorScope(n), math.Pi/4
		}
		type pt struct{ l, r, x, y, br float64 }
		var pts []pt
		for step := 0; step < steps; step++ {
			if vs == nil {
				switch c.Rand.IntN(6) {
				case 0:
					md := analysis.PhaseScopeMode(c.Rand.IntN(3))
					ps.SetMode(md)
					rot = 0
					if md == analysis.ModeGoniometer {
						rot = math.Pi / 4
					}
				case 1:
					v := mon.Pick(c.Rand, 0, 1, c.Rand.Float64(), -1, 2)
					ps.SetDecay(v)
					if v >= 0 && v <= 1 {
						decay = v
					}
				case 2:
					v := mon.Pick(c.Rand, 0, -1, mon.Uni(c.Rand, 0.1, 4), mon.LogUniform(c.Rand, 0.01, 100))
					ps.SetScale(v)
					if v > 0 {
						scale = v
					}
				}
			}
			l, rr := field(c.Rand, c.Rand.IntN(2*n+2))
			if i%5 == 0 { // nothing but side (or nothing but middle) all along
				for k := range l {
					rr[k] = -l[k]
					if i%10 == 0 {
						rr[k] = l[k]
					}
				}
			}
			if c.Rand.IntN(12) == 0 {
				if vs != nil {
					vs.Reset()
				} else {
					ps.Reset()
				}
				pts = nil
			}
			if vs != nil {
				vs.Process(l, rr)
			} else {
				ps.Process(l, rr)
			}
			for k := range pts {
				pts[k].br *= decay
			}
			for k := range l {
				a, b := l[k]*scale, rr[k]*scale
				pts = append(pts, pt{l[k], rr[k], a*math.Cos(rot) - b*math.Sin(rot), a*math.Sin(rot) + b*math.Cos(rot), 1})
			}
			if len(pts) > n {
				pts = pts[len(pts)-n:]
			}
			var xy []analysis.PhasePoint
			var br []float64
			var st analysis.PhaseScopeStats
			if vs != nil {
				var grid []analysis.PhasePoint
				xy, br, grid, _ = vs.GetDisplay()
				st = vs.GetStatistics()
				for _, g := range grid {
					if math.Hypot(g.X, g.Y) > 1+1e-9 {
						c.Failf("M05/grid", "grid point %v lies outside the scope", g)
						return
					}
				}
			} else {
				xy, br = ps.GetPoints()
				st = ps.GetStatistics()
				rad, ang, pb := ps.GetPolarData()
				if len(rad) != len(pts) || len(ang) != len(pts) || len(pb) != len(pts) {
					c.Failf("M05/polar-length", "%d points: polar data has %d", len(pts), len(rad))
					return
				}
				for k, p := range pts {
					x, y := rad[k]*math.Cos(ang[k]), rad[k]*math.Sin(ang[k])
					if !mon.Close(x, p.l*scale, 1e-9, 0) || !mon.Close(y, p.r*scale, 1e-9, 0) || !mon.Close(pb[k], p.br, 1e-9, 0) {
						c.Failf("M05/polar", "point %d of %d is (%g,%g) at %g, want (%g,%g) at %g", k, len(pts), x, y, pb[k], p.l*scale, p.r*scale, p.br)
						return
					}
				}
			}
			if len(xy) != len(pts) || len(br) != len(pts) {
				c.Failf("M05/points-length", "buffer of %d: %d points, want %d", n, len(xy), len(pts))
				return
			}
			var am, as, rad float64
			for k, p := range pts {
				if !mon.Close(xy[k].X, p.x, 1e-9, 0) || !mon.Close(xy[k].Y, p.y, 1e-9, 0) || !mon.Close(br[k], p.br, 1e-9, 0) {
					c.Failf("M05/points", "buffer of %d: point %d is %v at %g, want (%g,%g) at %g", n, k, xy[k], br[k], p.x, p.y, p.br)
					return
				}
				am, as = am+math.Abs(p.l+p.r)/2, as+math.Abs(p.l-p.r)/2
				rad = math.Max(rad, math.Hypot(p.l, p.r))
			}
			if m := float64(len(pts)); m > 0 {
				am, as = am/m, as/m
				wd := 0.0
				if as > 0 {
					wd = as / am
				}
				if !mon.Close(st.AverageMid, am, 1e-9, 0) || !mon.Close(st.AverageSide, as, 1e-9, 0) || !mon.Close(st.MaxRadius, rad, 1e-9, 0) ||
					st.Width != wd && !mon.Close(st.Width, wd, 1e-9, 1e-9) || !(st.PhaseConcentration >= 0 && st.PhaseConcentration <= 1) {
					c.Failf("M05/statistics", "statistics %+v, want mid %g, side %g, width %g, radius %g", st, am, as, wd, rad)
					return
				}
			} else if st != (analysis.PhaseScopeStats{}) {
				c.Failf("M05/statistics", "statistics of nothing: %+v", st)
				return
			}
			c.Evals(len(pts))
			c.Distinct(n, step, len(pts))
		}
	})
}

// m06: readers of a meter see sequential snapshots only.
func m06(r *mon.Run) {
	type meter struct {
		name string
		make func() (feed func(l, rr []float64), read []func() string)
	}
	f := func(v ...any) string { return fmt.Sprint(v...) }
	ms := []meter{
		{"peak", func() (func(l, rr []float64), []func() string) {
			m := analysis.NewPeakMeter(48000)
			return func(l, rr []float64) { m.Process(l) }, []func() string{func() string { return f(m.GetPeak()) }, func() string { return f(m.GetHold()) }, func() string { return f(m.GetPeakDB()) }, func() string { return f(m.GetHoldDB()) }}
		}},
		{"rms", func() (func(l, rr []float64), []func() string) {
			m := analysis.NewRMSMeter(500)
			return func(l, rr []float64) { m.Process(l) }, []func() string{func() string { return f(m.GetRMS()) }, func() string { return f(m.GetRMSDB()) }}
		}},
		{"loudness", func() (func(l, rr []float64), []func() string) {
			m := analysis.NewLUFSMeter(200, 1) // 400 ms are 80 samples
			return func(l, rr []float64) { m.Process(l) }, []func() string{func() string { return f(m.GetMomentaryLUFS()) }, func() string { return f(m.GetShortTermLUFS()) }, func() string { return f(m.GetIntegratedLUFS()) }, func() string { return f(m.GetLoudnessRange()) }}
		}},
		{"correlation", func() (func(l, rr []float64), []func() string) {
			m := analysis.NewCorrelationMeter(300, 48000)
			return m.Process, []func() string{func() string { return f(m.GetCorrelation()) }, func() string { return f(m.GetPeakHold()) }, func() string { return f(m.GetPhaseStatus()) }, func() string { return f(m.GetMonoCompatibility()) }}
		}},
		{"balance", func() (func(l, rr []float64), []func() string) {
			m := analysis.NewBalanceMeter(300)
			return m.Process, []func() string{func() string { return f(m.GetBalance()) }, func() string { return f(m.GetBalanceDB()) }}
		}},
		{"width", func() (func(l, rr []float64), []func() string) {
			m := analysis.NewStereoWidthMeter(300)
			return m.Process, []func() string{func() string { return f(m.GetWidth()) }, func() string { return f(m.GetWidthDB()) }}
		}},
		{"field", func() (func(l, rr []float64), []func() string) {
			m := analysis.NewStereoFieldAnalyzer(300, 48000)
			return m.Process, []func() string{func() string { return f(m.GetAnalysis().Balance) }, func() string { return f(m.GetAnalysis().Width) }, func() string { return f(m.GetAnalysis().Correlation) }}
		}},
		{"scope", func() (func(l, rr []float64), []func() string) {
			m := analysis.NewPhaseScope(100)
			return m.Process, []func() string{func() string { return f(m.GetPoints()) }, func() string { return f(m.GetStatistics()) }, func() string { return f(m.GetPolarData()) }}
		}},
		{"vector", func() (func(l, rr []float64), []func() string) {
			m := analysis.NewVectorScope(100)
			return m.Process, []func() string{func() string { p, b, _, _ := m.GetDisplay(); return f(p, b) }, func() string { return f(m.GetStatistics()) }}
		}},
		{"spectrum", func() (func(l, rr []float64), []func() string) {
			m := analysis.NewSpectrumAnalyzer(64, 48000, analysis.HannWindow)
			m.SetAveraging(analysis.LinearAveraging, 3)
			return func(l, rr []float64) { m.Process(l) }, []func() string{func() string { return f(m.GetSpectrum()) }, func() string { return f(m.GetSpectrumDBInRange()) }, func() string { return f(m.GetSpectrumDB()) },
				func() string { return f(m.GetPeakFrequency()) }, func() string { return f(m.GetBandEnergy(100, 9000)) }, func() string { return f(m.GetOctaveBands(analysis.StandardOctaveBands())) }}
		}},
	}
	for _, m := range ms {
		for rep := 0; rep < r.N(4, 60); rep++ {
			r.Case(fmt.Sprintf("%s/%d", m.name, rep), func(c *mon.C) {
				size, blk := 6000, 60
				if rep%4 == 3 { // blocks longer than any host plays
					size, blk = 75000, 5000
				}
				l, rr := field(c.Rand, size)
				feed, read := m.make()
				// sequential snapshots of every reading
				snaps := make([][]string, len(read))
				for k, g := range read {
					snaps[k] = append(snaps[k], g())
				}
				for p := 0; p < len(l); p += blk {
					feed(l[p:p+blk], rr[p:p+blk])
					for k, g := range read {
						snaps[k] = append(snaps[k], g())
					}
				}
				feed, read = m.make()
				var wg sync.WaitGroup
				stop := make(chan struct{})
				seen := make([][]string, len(read))
				for k, g := range read {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for {
							select {
							case <-stop:
								seen[k] = append(seen[k], g())
								return
							default:
								if v := g(); len(seen[k]) == 0 || v != seen[k][len(seen[k])-1] {
									seen[k] = append(seen[k], v)
								}
							}
						}
					}()
				}
				for p := 0; p < len(l); p += blk {
					feed(l[p:p+blk], rr[p:p+blk])
					if p%(blk*7) == 0 {
						spin(c.Rand.IntN(20000))
					}
				}
				close(stop)
				wg.Wait()
				for k := range seen {
					at := 0
					for _, v := range seen[k] {
						for at < len(snaps[k]) && snaps[k][at] != v {
							at++
						}
						if at == len(snaps[k]) {
							if len(v) > 300 {
								v = v[:300]
							}
							c.Failf("M06/"+m.name, "reading %d returned %s, which no order of whole blocks gives", k, v)
							return
						}
						c.Distinct(m.name, k, at, rep)
					}
					if seen[k][len(seen[k])-1] != snaps[k][len(snaps[k])-1] {
						c.Failf("M06/"+m.name+"/final", "reading %d ends at %s", k, seen[k][len(seen[k])-1])
					}
					c.Count("values_read", len(seen[k]))
				}
			})
		}
	}
	// setters and Reset against a running meter: only the race detector and sanity judge
	for rep := 0; rep < r.N(4, 60); rep++ {
		r.Case(fmt.Sprintf("setters/%d", rep), func(c *mon.C) {
			pm, rm, lm, cm := analysis.NewPeakMeter(48000), analysis.NewRMSMeter(300), analysis.NewLUFSMeter(200, 2), analysis.NewCorrelationMeter(300, 48000)
			ps, sa := analysis.NewPhaseScope(100), analysis.NewSpectrumAnalyzer(64, 48000, analysis.HannWindow)
			l, rr := field(c.Rand, 4000)
			var wg sync.WaitGroup
			run := func(f func(rd *rand.Rand, k int)) {
				rd := rand.New(rand.NewPCG(c.Rand.Uint64(), 1))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 60; k++ {
						f(rd, k)
					}
				}()
			}
			run(func(rd *rand.Rand, k int) {
				a, b := l[k*60:k*60+60], rr[k*60:k*60+60]
				pm.Process(a)
				rm.Process(a)
				lm.Process(a)
				cm.Process(a, b)
				ps.Process(a, b)
				sa.Process(a)
			})
			run(func(rd *rand.Rand, k int) {
				pm.SetHoldTime(rd.Float64())
				pm.SetDecayRate(rd.Float64() * 50)
				cm.SetAveraging(rd.Float64())
				cm.SetPeakHoldTime(rd.Float64())
				ps.SetMode(analysis.PhaseScopeMode(rd.IntN(3)))
				ps.SetDecay(rd.Float64())
				ps.SetScale(rd.Float64() + 0.1)
				ps.SetPersistence(rd.Float64())
				sa.SetHopSize(1 + rd.IntN(64))
				sa.SetAveraging(analysis.AveragingMode(rd.IntN(4)), 1+rd.IntN(5))
				sa.SetSmoothing(rd.Float64())
				sa.SetFrequencyRange(rd.Float64()*1000, rd.Float64()*24000)
			})
			run(func(rd *rand.Rand, k int) {
				switch rd.IntN(6) {
				case 0:
					pm.Reset()
				case 1:
					rm.Reset()
				case 2:
					lm.Reset()
				case 3:
					cm.Reset()
				case 4:
					ps.Reset()
				case 5:
					sa.Reset()
				}
				p, b := ps.GetPoints()
				q := rm.GetRMS()
				if x := cm.GetCorrelation(); len(p) != len(b) || len(p) > 100 || x < -1 || x > 1 || math.IsNaN(q) || lm.GetLoudnessRange() < 0 {
					c.Failf("M06/setters", "%d points, %d brightness values, correlation %g, RMS %g", len(p), len(b), x, q)
				}
			})
			wg.Wait()
			c.Evals(180)
			c.Distinct("setters", rep)
		})
	}
}

func spin(n int) {
	x := 0
	for i := 0; i < n; i++ {
		x += i
	}
	sink = x
}

var sink int
