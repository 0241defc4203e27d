package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/justyntemme/vst3go/pkg/framework/debug"
	"verif/harness/mon"
)

type row struct {
	count                       int64
	total, avg, min, max, last_ time.Duration
}

var repRe = regexp.MustCompile(`(?m)^(.+):\n  Count:   (\d+)\n  Total:   (\S+)\n  Average: (\S+)\n  Min:     (\S+)\n  Max:     (\S+)\n  Last:    (\S+)\n`)

func parseReport(s string) map[string]row {
	out := map[string]row{}
	for _, m := range repRe.FindAllStringSubmatch(s, -1) {
		var r row
		fmt.Sscan(m[2], &r.count)
		for i, p := range []*time.Duration{&r.total, &r.avg, &r.min, &r.max, &r.last_} {
			d, err := time.ParseDuration(m[3+i])
			if err != nil {
				d = -1
			}
			*p = d
		}
		out[m[1]] = r
	}
	return out
}

// spin keeps the processor busy for about d.
func spin(d time.Duration) {
	t := time.Now()
	for time.Since(t) < d {
	}
}

// rankOK says whether v is the p-th percentile of s by some usual rank convention.
func rankOK(s []time.Duration, p float64, v time.Duration) bool {
	x := append([]time.Duration(nil), s...)
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	if p < 0 {
		p = 0
	}
	if p > 100 {
		p = 100
	}
	n := float64(len(x))
	lo := int(math.Floor((n-1)*p/100)) - 1
	hi := int(math.Ceil((n-1)*p/100)) + 1
	if p == 0 {
		hi = 0
	}
	if p == 100 {
		lo = len(x) - 1
	}
	lo, hi = max(lo, 0), min(hi, len(x)-1)
	return v >= x[lo] && v <= x[hi]
}

func f05(r *mon.Run) {
	if !r.Race {
		r.Par("history", r.N(60, 600), func(c *mon.C, ci int) {
			q := c.Rand
			ring := mon.Pick(q, 1, 2, 3, 10, 50, 1000, 1+q.IntN(40))
			sr, bs := mon.Pick(q, 44100.0, 48000, 96000), mon.Pick(q, 32, 64, 512, 2048)
			ap := debug.NewAudioProcessProfiler(sr, bs)
			p := debug.NewProfiler(ring)
			if ci%4 == 0 {
				p = ap.Profiler
				ring = 1000
			}
			names := []string{"ProcessAudio", "b", "section c: x"}
			hist := map[string][]time.Duration{}
			enabled := true
			if !strings.Contains(p.Report(), "No measurements") {
				c.Failf("report-empty", "a new profiler reports %q", p.Report())
			}
			ops := 20 + q.IntN(150)
			if ci%15 == 3 {
				ops, names = 800, names[:1]
				if ci%4 != 0 {
					ring = 1000
					p = debug.NewProfiler(ring)
				}
			}
			var snapM *debug.Measurement
			var snapV [3]time.Duration
			for k := 0; k < ops; k++ {
				name := names[q.IntN(len(names))]
				switch q.IntN(14) {
				case 0:
					enabled = q.IntN(3) != 0
					p.SetEnabled(enabled)
					if p.IsEnabled() != enabled {
						c.Failf("enabled", "IsEnabled %v after SetEnabled(%v)", p.IsEnabled(), enabled)
					}
					continue
				case 1:
					if q.IntN(6) == 0 && ops < 700 {
						p.Reset()
						hist = map[string][]time.Duration{}
						if len(p.GetAllMeasurements()) != 0 {
							c.Failf("reset", "measurements left after Reset")
						}
					}
					continue
				}
				d := time.Duration(0)
				if q.IntN(3) == 0 {
					d = time.Duration(q.IntN(60)) * time.Microsecond
				}
				var in0, in1 time.Time
				calls := 0
				fn := func() { calls++; in0 = time.Now(); spin(d); in1 = time.Now() }
				out0 := time.Now()
				switch q.IntN(3) {
				case 0:
					stop := p.Start(name)
					fn()
					stop()
				case 1:
					p.Time(name, fn)
				case 2: // a section that panics is still measured, and the panic is the caller's
					pv := mon.Try(func() { p.Time(name, func() { fn(); panic("section") }) })
					if pv != "section" {
						c.Failf("time-panic", "panic of a timed section arrived as %v", pv)
					}
				}
				out1 := time.Now()
				if calls != 1 {
					c.Failf("time-calls", "a timed function ran %d times", calls)
					return
				}
				c.Evals(1)
				rep := parseReport(p.Report())
				if !enabled {
					if rep[name].count != int64(len(hist[name])) {
						c.Failf("disabled", "a disabled profiler recorded a section")
						return
					}
					continue
				}
				g := rep[name]
				hist[name] = append(hist[name], g.last_)
				if g.last_ < in1.Sub(in0) || g.last_ > out1.Sub(out0) {
					c.Failf("duration", "section took between %v and %v, recorded %v", in1.Sub(in0), out1.Sub(out0), g.last_)
				}
				for nm, h := range hist {
					var tot time.Duration
					mn, mx := time.Duration(math.MaxInt64), time.Duration(0)
					for _, x := range h {
						tot += x
						mn, mx = min(mn, x), max(mx, x)
					}
					w := row{int64(len(h)), tot, tot / time.Duration(len(h)), mn, mx, h[len(h)-1]}
					if rep[nm] != w {
						c.Failf("report", "section %q after %d sections: reported %+v, the recorded durations give %+v", nm, len(h), rep[nm], w)
						return
					}
				}
				if len(rep) != len(hist) {
					c.Failf("report", "report names %d sections, %d were timed", len(rep), len(hist))
				}
				m, ok := p.GetMeasurement(name)
				if !ok || m == nil {
					c.Failf("get", "no measurement for a recorded section")
					return
				}
				if m.Average() != g.avg {
					c.Failf("average", "Average %v, report %v", m.Average(), g.avg)
				}
				h := hist[name]
				recent := h[max(0, len(h)-ring):]
				zero := false
				for _, x := range recent {
					zero = zero || x == 0
				}
				if !zero {
					prev := time.Duration(0)
					for _, pc := range []float64{0, 0.1, 0.5, 0.9, 1, 10, 25, 50, 75, 90, 99, 99.5, 99.9, 100} {
						v := m.Percentile(pc)
						if !rankOK(recent, pc, v) {
							c.Failf("percentile", "percentile %v of the last %d durations %v is %v", pc, len(recent), recent, v)
							return
						}
						if v < prev {
							c.Failf("percentile-order", "percentile %v (%v) is below a lower one (%v)", pc, v, prev)
							return
						}
						prev = v
					}
					for _, pc := range []float64{-1, 100.5, 250, -1e300, 1e300, math.Inf(1), math.Inf(-1), math.NaN()} {
						var v time.Duration
						if !c.NoPanic("percentile-range", func() { v = m.Percentile(pc) }) {
							return
						}
						if v < m.Percentile(0) || v > m.Percentile(100) {
							c.Failf("percentile-range", "percentile %v is %v, outside %v..%v", pc, v, m.Percentile(0), m.Percentile(100))
						}
					}
				}
				// a measurement handed out is a snapshot
				if snapM != nil {
					if now := [3]time.Duration{snapM.Percentile(0), snapM.Percentile(50), snapM.Percentile(100)}; now != snapV {
						c.Failf("snapshot", "percentiles of a measurement changed after it was handed out: %v then %v", snapV, now)
						return
					}
				}
				if q.IntN(5) == 0 {
					snapM = m
					if q.IntN(2) == 0 {
						snapM = p.GetAllMeasurements()[name]
					}
					snapV = [3]time.Duration{snapM.Percentile(0), snapM.Percentile(50), snapM.Percentile(100)}
				}
				if p == ap.Profiler && len(hist["ProcessAudio"]) > 0 {
					ap.UpdateCPULoad()
					pa, _ := p.GetMeasurement("ProcessAudio")
					want := float64(pa.Average()) / (float64(bs) / sr * 1e9) * 100
					if got := ap.GetCPULoad(); !(math.Abs(got-want) <= 0.011+1e-6*want) {
						c.Failf("cpu-load", "CPU load %v%%, average %v of a %d-sample block at %v Hz is %v%%", got, pa.Average(), bs, sr, want)
					}
					ar := ap.AudioReport()
					if !strings.Contains(ar, fmt.Sprintf("%.0f Hz", sr)) || !strings.Contains(ar, fmt.Sprintf("%d samples", bs)) || !strings.Contains(ar, fmt.Sprintf("%.2f%%", ap.GetCPULoad())) {
						c.Failf("audio-report", "audio report lacks its figures: %q", ar)
					}
				}
			}
			if _, ok := p.GetMeasurement("never"); ok {
				c.Failf("get", "a measurement exists for a section never timed")
			}
			c.Distinct(ring, ops, len(hist))
			c.Sample("sections", fmt.Sprintf("ring %d, %d operations", ring, ops))
		})
		// many samples kept, many sections named, many sections timed
		r.Case("large", func(c *mon.C) {
			for _, ring := range []int{1500, 5000, 70000} {
				p := debug.NewProfiler(ring)
				n := ring + ring/3
				var h []time.Duration
				for i := 0; i < n; i++ {
					p.Time("s", func() {
						if i < n/2 { // the first half is the slow one, and the ring forgets part of it
							spin(time.Microsecond)
						}
					})
					if ring > 5000 {
						continue
					}
					h = append(h, parseReport(p.Report())["s"].last_)
				}
				c.Evals(n)
				rep := parseReport(p.Report())["s"]
				if rep.count != int64(n) {
					c.Failf("report", "%d sections timed, %d counted", n, rep.count)
				}
				if ring > 5000 {
					if rep.avg != rep.total/time.Duration(n) {
						c.Failf("report", "after %d sections: total %v, average %v", n, rep.total, rep.avg)
					}
					continue
				}
				var tot time.Duration
				for _, x := range h {
					tot += x
				}
				if rep.total != tot || rep.avg != tot/time.Duration(n) {
					c.Failf("report", "after %d sections: reported total %v average %v, the recorded durations give %v", n, rep.total, rep.avg, tot)
				}
				m, _ := p.GetMeasurement("s")
				recent := h[len(h)-ring:]
				zero := false
				for _, x := range recent {
					zero = zero || x == 0
				}
				for _, pc := range []float64{0, 1, 10, 25, 50, 75, 90, 99, 100} {
					if v := m.Percentile(pc); !zero && !rankOK(recent, pc, v) {
						c.Failf("percentile", "percentile %v of the last %d durations is %v", pc, ring, v)
					}
				}
			}
			p := debug.NewProfiler(4)
			for k := 0; k < 2; k++ {
				for i := 0; i < 1000; i++ {
					p.Time(fmt.Sprint("section ", i), func() {})
				}
			}
			rep := parseReport(p.Report())
			for i := 0; i < 1000; i++ {
				if x := rep[fmt.Sprint("section ", i)]; x.count != 2 {
					c.Failf("report", "section %d of 1000 names was timed twice and counted %d times", i, x.count)
					break
				}
			}
			if len(p.GetAllMeasurements()) != 1000 {
				c.Failf("report", "%d of 1000 sections have measurements", len(p.GetAllMeasurements()))
			}
			// totals keep growing
			p = debug.NewProfiler(10)
			var tot time.Duration
			for i := 0; i < 40000; i++ {
				p.Time("n", func() {})
				if i%8 == 7 {
					x := parseReport(p.Report())["n"]
					if x.total < tot {
						c.Failf("report", "total went from %v to %v", tot, x.total)
						return
					}
					if x.total == tot && x.min > 0 {
						c.Failf("report", "eight more sections of at least %v left the total at %v", x.min, tot)
						return
					}
					tot = x.total
				}
			}
			c.Evals(42000)
		})
		r.Case("odd-sizes", func(c *mon.C) {
			for _, n := range []int{0, -1, -1000} {
				c.Evals(1)
				c.NoPanic("ring-size", func() {
					p := debug.NewProfiler(n)
					p.Time("x", func() {})
					p.Time("x", func() {})
					if parseReport(p.Report())["x"].count != 2 {
						c.Failf("ring-size", "a profiler that keeps %d samples counted %d of 2 sections", n, parseReport(p.Report())["x"].count)
					}
					m, _ := p.GetMeasurement("x")
					_ = m.Percentile(50)
				})
			}
			for _, x := range []struct {
				sr float64
				n  int
			}{{0, 512}, {48000, 0}, {0, 0}, {math.Inf(1), 64}} {
				c.NoPanic("cpu-load-degenerate", func() {
					a := debug.NewAudioProcessProfiler(x.sr, x.n)
					a.Time("ProcessAudio", func() {})
					a.UpdateCPULoad()
					if l := a.GetCPULoad(); l < 0 || l > 1e9 || !mon.Fin(l) {
						c.Failf("cpu-load-degenerate", "CPU load of a %d-sample block at %v Hz reads %v%%", x.n, x.sr, l)
					}
				})
			}
		})
		r.Case("global", func(c *mon.C) {
			debug.ResetProfiling()
			debug.EnableProfiling()
			for i := 0; i < 50; i++ {
				debug.Time("g", func() {})
				debug.Start("h")()
			}
			debug.DisableProfiling()
			debug.Time("g", func() {})
			debug.EnableProfiling()
			rep := parseReport(debug.ProfilingReport())
			if rep["g"].count != 50 || rep["h"].count != 50 {
				c.Failf("global", "global profiler counted %d and %d of 50", rep["g"].count, rep["h"].count)
			}
			debug.ResetProfiling()
			if len(parseReport(debug.ProfilingReport())) != 0 {
				c.Failf("global", "sections left after ResetProfiling")
			}
			c.Evals(100)
		})
	}
	for rep := 0; rep < r.N(5, 30); rep++ {
		r.Case(fmt.Sprintf("concurrent-%d", rep), func(c *mon.C) {
			ap := debug.NewAudioProcessProfiler(48000, 256)
			p := ap.Profiler
			if rep%2 == 1 {
				p = debug.NewProfiler(8)
			}
			const G = 4
			n := 400
			var wg, rg sync.WaitGroup
			var stop atomic.Bool
			for g := 0; g < G; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < n; i++ {
						p.Time("ProcessAudio", func() {})
						p.Start(fmt.Sprint("own", g))()
					}
				}()
			}
			var reads atomic.Int64
			for g := 0; g < 3; g++ {
				rg.Add(1)
				go func() {
					defer rg.Done()
					var lastN int64
					for !stop.Load() {
						reads.Add(1)
						switch g {
						case 0:
							x := parseReport(p.Report())["ProcessAudio"]
							if x.count < lastN {
								c.Failf("conc-count", "count went from %d to %d", lastN, x.count)
							}
							lastN = x.count
							if x.count > 0 && (x.min > x.avg || x.avg > x.max || x.last_ < x.min || x.last_ > x.max || x.total < x.max || x.avg != x.total/time.Duration(x.count)) {
								c.Failf("conc-torn", "inconsistent reading %+v", x)
							}
						case 1:
							if m, ok := p.GetMeasurement("ProcessAudio"); ok {
								a, b := m.Percentile(0), m.Percentile(100)
								m50 := m.Percentile(50)
								if m50 < a || m50 > b || m.Percentile(0) != a || m.Percentile(100) != b {
									c.Failf("conc-snapshot", "a measurement handed out kept changing: %v %v %v", a, m50, b)
								}
							}
							ap.UpdateCPULoad()
						case 2:
							for _, m := range p.GetAllMeasurements() {
								_ = m.Percentile(90)
								_ = m.Average()
							}
							_ = ap.GetCPULoad()
							_ = p.IsEnabled()
						}
					}
				}()
			}
			wg.Wait()
			stop.Store(true)
			rg.Wait()
			rp := parseReport(p.Report())
			if rp["ProcessAudio"].count != int64(G*n) {
				c.Failf("conc-lost", "%d sections timed, %d recorded", G*n, rp["ProcessAudio"].count)
			}
			for g := 0; g < G; g++ {
				if x := rp[fmt.Sprint("own", g)].count; x != int64(n) {
					c.Failf("conc-lost", "%d sections timed by one goroutine, %d recorded", n, x)
				}
			}
			c.Evals(2 * G * n)
			c.Count("concurrent readings", int(reads.Load()))
			c.Distinct("conc", rep)
		})
	}
}
