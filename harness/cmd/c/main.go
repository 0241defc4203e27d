// Area c: guarantees every signal processor shares, judged over one table of processors.
package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"sort"
	"sync"

	"verif/harness/mon"
)

func main() {
	mon.Main(map[string]mon.Prop{
		"C01": {F: c01, Rule: "every processor in the table driven by impulses, noise, squares, full-scale steps and silence with settings changed between blocks; output finite and below the processor's ceiling, and silent again after its tail where it has one; non-trivial = distinct processor and settings history"},
		"C02": {F: c02, Rule: "every processor with a Reset: arbitrary history (very loud and non-finite input included), Reset, then compared sample by sample with a new instance given the same settings; non-trivial = distinct processor and history"},
		"C03": {F: c03, Rule: "every processor: one block, random splits, sample by sample and in place must give the same output; non-trivial = distinct processor, settings and split"},
		"C04": {F: c04, Rule: "every two-channel processor with independent channels: one channel's output compared while the other channel's input is replaced; non-trivial = distinct processor and settings"},
		"C05": {F: c05, Rule: "heap allocations counted by the runtime around every processing call of every processor (after construction and settings); non-trivial = distinct processor and path"},
		"C07": {F: c07, Rule: "every processor with settings: the same settings made again between blocks must not change the output; non-trivial = distinct processor and settings"},
		"C08": {F: c08, Rule: "every linear processor: the answer to a weighted sum of two signals compared with the weighted sum of the answers, settings moved midway in half the runs; non-trivial = distinct processor, settings and length"},
		"C09": {F: c09, Rule: "every processor without a clock of its own: the same signal from the start and after a random stretch of silence; silence must give silence; non-trivial = distinct processor, settings and stretch"},
		"C10": {F: c10, Rule: "every processor with neutral settings (mix 0, depth 0, ratio 1, range 0, wet 0, gain 0 dB), all other settings drawn and moved: output equal to input; non-trivial = distinct processor and settings"},
		"C11": {F: c11, Rule: "every processor with settings in hertz, seconds or milliseconds: the same settings and the same sound at a rate and at two or four times the rate, compared at common instants or over 20 ms; non-trivial = distinct processor, settings and rates"},
		"C12": {F: c12, Rule: "every odd processor on a signal and the same signal turned over; every symmetric two-channel processor with its channels exchanged; every one-channel form against the two-channel form with equal channels; non-trivial = distinct law, processor, settings and lengths"},
		"C13": {F: c13, Rule: "every processor with settings: before any audio, the same settings made in another order, made twice, or made after other ones; output compared with that of the settings made once in turn; non-trivial = distinct processor and settings"},
		"C14": {F: c14, Rule: "every setting with a range: set beyond its end (a little, far, infinitely), before and while audio plays, all other settings drawn; output compared with that of the setting at the end; non-trivial = distinct processor, setting, excess and settings"},
		"C06": {F: c06, Race: true, Reps: 1, Rule: "instances of every processor run concurrently, and interleaved in one thread, compared with the same instance run alone; race detector on; non-trivial = distinct processor and settings"},
	})
}

func sortKinds(ks []kind) { sort.Slice(ks, func(i, j int) bool { return ks[i].name < ks[j].name }) }

var rates = []float64{22050, 44100, 48000, 96000}

// signal of n samples with peak at most one.
func signal(r R, n int, sr float64) []float32 {
	x := make([]float32, n)
	for at := 0; at < n; {
		m := min(n-at, 1+r.IntN(n/2+1))
		seg := x[at : at+m]
		a := math.Pow(10, -r.Float64()*r.Float64()*5)
		switch r.IntN(6) {
		case 0:
			for i := range seg {
				seg[i] = float32(a * (2*r.Float64() - 1))
			}
		case 1:
			f := lg(r, 10, sr/2.2)
			for i := range seg {
				seg[i] = float32(a * math.Sin(2*math.Pi*f/sr*float64(i)))
			}
		case 2:
			p := 1 + r.IntN(200)
			for i := range seg {
				seg[i] = float32(a)
				if i/p%2 == 1 {
					seg[i] = -float32(a)
				}
			}
		case 3:
			seg[r.IntN(m)] = float32(a)
		case 4:
			for i := range seg {
				seg[i] = float32(a)
			}
		}
		at += m
	}
	return x
}

// settle applies every setter a few times from one seed, so that two instances get the same settings.
func settle(u *unit, seed uint64, times int) {
	r := rand.New(rand.NewPCG(seed, 9))
	for k := 0; k < times && len(u.set) > 0; k++ {
		u.set[r.IntN(len(u.set))](r)
	}
}

func run(u *unit, l, r []float32) (a, b []float32) {
	a, b = make([]float32, len(l)), make([]float32, len(l))
	u.blk(l, r, a, b)
	return
}

func diff(a, b []float32, tol float64) int {
	for i := range a {
		if a[i] != b[i] && !(math.Abs(float64(a[i])-float64(b[i])) <= tol) {
			return i
		}
	}
	return -1
}

func each(r *mon.Run, prefix string, n int, ok func(k kind) bool, f func(c *mon.C, k kind, sr float64, i int)) {
	ks := []kind{}
	for _, k := range kinds() {
		if ok(k) {
			ks = append(ks, k)
		}
	}
	r.Par(prefix, n*len(ks), func(c *mon.C, i int) {
		k := ks[i%len(ks)]
		sr := mon.Pick(c.Rand, rates...)
		c.Count("processor "+k.name, 1)
		f(c, k, sr, i/len(ks))
	})
}

func all(kind) bool { return true }

func c01(r *mon.Run) {
	each(r, "bounded", r.N(8, 180), all, func(c *mon.C, k kind, sr float64, i int) {
		u := k.mk(sr)
		seed := c.Rand.Uint64()
		settle(u, seed, 2*len(u.set))
		hot := mon.Pick(c.Rand, 1.0, 1, 1, 4, 1000, 1e-3)
		if k.tame {
			hot = min(hot, 1)
		}
		n := 64
		for b := 0; b < 60; b++ {
			l, rr := signal(c.Rand, n, sr), signal(c.Rand, n, sr)
			for q := range l {
				l[q] *= float32(hot)
				rr[q] *= float32(hot)
			}
			a, d := run(u, l, rr)
			for q := range a {
				for ch, y := range []float32{a[q], d[q]} {
					if !(math.Abs(float64(y)) <= k.bound*math.Max(hot, 1)) {
						c.Failf("C01/bound/"+k.name, "%g Hz, input peak %g, block %d: sample %d of channel %d is %g (ceiling %g)", sr, hot, b, q, ch, y, k.bound*math.Max(hot, 1))
						return
					}
				}
			}
			if len(u.set) > 0 && c.Rand.IntN(3) == 0 {
				u.set[c.Rand.IntN(len(u.set))](c.Rand)
			}
		}
		c.Distinct(k.name, seed, hot)
		if k.quiet && i%4 == 0 {
			z := make([]float32, 4096)
			var a, d []float32
			for t := 0.0; t <= k.tailS*sr; t += 4096 {
				a, d = run(u, z, z)
			}
			a, d = run(u, z, z)
			for q := range a {
				if !(math.Abs(float64(a[q])) <= 1e-3*hot+k.tol) || !(math.Abs(float64(d[q])) <= 1e-3*hot+k.tol) {
					c.Failf("C01/tail/"+k.name, "%g Hz, input peak %g: still %g %g after %g s of silence", sr, hot, a[q], d[q], k.tailS)
					return
				}
			}
		}
	})
}

func c02(r *mon.Run) {
	each(r, "reset", r.N(8, 300), func(k kind) bool { return k.mk(48000).reset != nil }, func(c *mon.C, k kind, sr float64, i int) {
		u, v := k.mk(sr), k.mk(sr)
		hot := mon.Pick(c.Rand, 1.0, 1, 100, 1e20)
		nan := i%4 == 3
		var seeds []uint64
		for b := 0; b < 1+c.Rand.IntN(5); b++ {
			s := c.Rand.Uint64()
			seeds = append(seeds, s)
			settle(u, s, 1+c.Rand.IntN(1+len(u.set)))
			settle(v, s, 0)
			n := 1 + c.Rand.IntN(2000)
			l, rr := signal(c.Rand, n, sr), signal(c.Rand, n, sr)
			for q := range l {
				l[q] *= float32(hot)
				rr[q] *= float32(hot)
			}
			if nan {
				l[c.Rand.IntN(n)] = float32(mon.Pick(c.Rand, math.NaN(), math.Inf(1), math.Inf(-1)))
				rr[c.Rand.IntN(n)] = float32(math.NaN())
			}
			run(u, l, rr)
		}
		// both get the same final settings: the used one before its reset, the new one before its first sample
		fin := c.Rand.Uint64()
		for q := 0; q < 3; q++ {
			settleAll(u, fin)
			settleAll(v, fin)
		}
		if i%2 == 0 { // setters may have cleared what the reset has to clear
			n := 1 + c.Rand.IntN(800)
			l, rr := signal(c.Rand, n, sr), signal(c.Rand, n, sr)
			for q := range l {
				l[q] *= float32(hot)
				rr[q] *= float32(hot)
			}
			run(u, l, rr)
		}
		u.reset()
		if k.gen {
			v.reset()
		}
		n := 3000
		l, rr := signal(c.Rand, n, sr), signal(c.Rand, n, sr)
		a1, b1 := run(u, l, rr)
		a2, b2 := run(v, l, rr)
		for ch, p := range [][2][]float32{{a1, a2}, {b1, b2}} {
			if at := diff(p[0], p[1], k.tol); at >= 0 {
				c.Failf("C02/"+map[bool]string{true: "nan/", false: ""}[nan]+k.name, "%g Hz, history peak %g, non-finite %v: after Reset sample %d of channel %d is %g, a new instance gives %g", sr, hot, nan, at, ch, p[0][at], p[1][at])
				return
			}
		}
		c.Distinct(k.name, fin, len(seeds))
	})
}

// settleAll calls every setter once with arguments drawn from the seed.
func settleAll(u *unit, seed uint64) {
	for i, f := range u.set {
		f(rand.New(rand.NewPCG(seed, uint64(i))))
	}
}

func c03(r *mon.Run) {
	each(r, "split", r.N(8, 300), func(k kind) bool { return !k.noblk }, func(c *mon.C, k kind, sr float64, i int) {
		seed := c.Rand.Uint64()
		n := 1 + c.Rand.IntN(3000)
		l, rr := signal(c.Rand, n, sr), signal(c.Rand, n, sr)
		mk := func() *unit { u := k.mk(sr); settleAll(u, seed); return u }
		wa, wb := run(mk(), l, rr)
		check := func(how string, a, b []float32) bool {
			for ch, p := range [][2][]float32{{a, wa}, {b, wb}} {
				if at := diff(p[0], p[1], k.tol+1e-6*math.Abs(float64(p1(p[1])))); at >= 0 {
					c.Failf("C03/"+how+"/"+k.name, "%g Hz, %d samples: sample %d of channel %d is %g %s, %g as one block", sr, n, at, ch, p[0][at], how, p[1][at])
					return false
				}
			}
			return true
		}
		u := mk()
		a, b := make([]float32, n), make([]float32, n)
		cuts := 0
		for at := 0; at < n; cuts++ {
			m := min(n-at, mon.Pick(c.Rand, 1, 1, 2, 3, 16, 64, 1+c.Rand.IntN(700)))
			u.blk(l[at:at+m], rr[at:at+m], a[at:at+m], b[at:at+m])
			if c.Rand.IntN(10) == 0 {
				u.blk(nil, nil, nil, nil)
			}
			at += m
		}
		if !check("split", a, b) {
			return
		}
		if u := mk(); u.tick != nil {
			for q := range l {
				if u.tick != nil && (q+i)%3 != 0 || len(l) < 3 {
					a[q], b[q] = u.tick(l[q], rr[q])
				} else {
					u.blk(l[q:q+1], rr[q:q+1], a[q:q+1], b[q:q+1])
				}
			}
			if !check("per-sample", a, b) {
				return
			}
		}
		// settings moved between blocks: the same whether the stretches between are run as blocks or sample by sample
		if u, v := mk(), mk(); u.tick != nil && len(u.set) > 0 {
			for at := 0; at < n; {
				m := min(n-at, 1+c.Rand.IntN(800))
				s := c.Rand.Uint64()
				which := c.Rand.IntN(len(u.set))
				u.set[which](rand.New(rand.NewPCG(s, 3)))
				v.set[which](rand.New(rand.NewPCG(s, 3)))
				e, f := run(u, l[at:at+m], rr[at:at+m])
				for q := 0; q < m; q++ {
					a[q], b[q] = v.tick(l[at+q], rr[at+q])
				}
				for ch, p := range [][2][]float32{{e, a}, {f, b}} {
					if x := diff(p[0], p[1][:m], k.tol+1e-6*math.Abs(float64(p1(p[0])))); x >= 0 {
						c.Failf("C03/moved/"+k.name, "%g Hz: after setting %d moved at sample %d, sample %d of channel %d is %g in a block, %g on its own", sr, which, at, at+x, ch, p[0][x], p[1][x])
						return
					}
				}
				at += m
			}
		}
		if k.aliased {
			x, y := append([]float32(nil), l...), append([]float32(nil), rr...)
			if u := mk(); k.stereo {
				u.blk(x, y, x, y)
			} else {
				u.blk(x, rr, x, y)
				clear(y)
			}
			if !check("in-place", x, y) {
				return
			}
		}
		c.Distinct(k.name, seed, n, cuts)
	})
}

func p1(x []float32) float32 {
	m := float32(0)
	for _, v := range x {
		if v > m {
			m = v
		} else if -v > m {
			m = -v
		}
	}
	return m
}

func c04(r *mon.Run) {
	each(r, "apart", r.N(15, 600), func(k kind) bool { return k.apart }, func(c *mon.C, k kind, sr float64, i int) {
		seed := c.Rand.Uint64()
		n := 1 + c.Rand.IntN(3000)
		x, y1 := signal(c.Rand, n, sr), signal(c.Rand, n, sr)
		y2 := mon.Pick(c.Rand, make([]float32, n), signal(c.Rand, n, sr))
		swap := i%2 == 1
		one := func(y []float32) []float32 {
			u := k.mk(sr)
			settleAll(u, seed)
			out := make([]float32, 0, n)
			for at := 0; at < n; at += 500 {
				m := min(500, n-at)
				var a, b []float32
				if swap {
					a, b = run(u, y[at:at+m], x[at:at+m])
					a = b
				} else {
					a, b = run(u, x[at:at+m], y[at:at+m])
				}
				out = append(out, a...)
			}
			return out
		}
		a, b := one(y1), one(y2)
		if at := diff(a, b, k.tol); at >= 0 {
			c.Failf("C04/"+k.name, "%g Hz: channel %d gives %g or %g at sample %d depending on the other channel's input", sr, map[bool]int{false: 0, true: 1}[swap], a[at], b[at], at)
			return
		}
		c.Distinct(k.name, seed, n)
	})
}

// mallocs counts the heap allocations of f, at least over tries.
func mallocs(f func()) uint64 {
	best := ^uint64(0)
	for t := 0; t < 5 && best > 0; t++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		best = min(best, b.Mallocs-a.Mallocs)
	}
	return best
}

func c05(r *mon.Run) {
	for rep := 0; rep < r.N(3, 40); rep++ {
		for _, k := range kinds() {
			if k.tol > 0 || k.name == "bitcrusher" || k.name == "bitcrusher-mono" || len(k.name) >= 4 && (k.name[:4] == "tube" || k.name[:4] == "wave" || k.name[:4] == "tape") {
				continue // float64 processors: the table's adapter allocates, see c05f64
			}
			r.Case(fmt.Sprintf("alloc/%s/%d", k.name, rep), func(c *mon.C) {
				defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
				sr := mon.Pick(c.Rand, rates...)
				u := k.mk(sr)
				seed := c.Rand.Uint64()
				settleAll(u, seed)
				n := mon.Pick(c.Rand, 1, 64, 512, 2048, 8192, 1+c.Rand.IntN(20000))
				l, rr := signal(c.Rand, n, sr), signal(c.Rand, n, sr)
				a, b := make([]float32, n), make([]float32, n)
				u.blk(l, rr, a, b) // lazily built tables of the adapter
				if m := mallocs(func() { u.blk(l, rr, a, b) }); m > 0 {
					c.Failf("C05/block/"+k.name, "%d allocations while processing a block of %d samples at %g Hz", m, n, sr)
				}
				if u.tick != nil {
					if m := mallocs(func() {
						for i := 0; i < 64; i++ {
							u.tick(0.3, -0.2)
						}
					}); m > 0 {
						c.Failf("C05/sample/"+k.name, "%d allocations while processing 64 samples at %g Hz", m, sr)
					}
				}
				c.Distinct(k.name, seed)
			})
		}
	}
	c05free(r)
}

func c06(r *mon.Run) {
	n := r.N(3, 100)
	if !r.Race {
		each(r, "interleaved", n, func(k kind) bool { return k.tol == 0 }, func(c *mon.C, k kind, sr float64, i int) {
			const inst = 3
			var us [inst]*unit
			var x, want, got [inst][]float32
			var seeds [inst]uint64
			N := 1500
			for q := range us {
				seeds[q] = c.Rand.Uint64()
				x[q] = signal(c.Rand, N, sr)
				u := k.mk(sr)
				settleAll(u, seeds[q])
				want[q], _ = run(u, x[q], x[q])
				got[q] = make([]float32, N)
			}
			for q := range us {
				us[q] = k.mk(sr)
			}
			for q := range us {
				settleAll(us[q], seeds[q])
			}
			d := make([]float32, 100)
			for at := 0; at < N; at += 100 {
				for q := range us {
					us[q].blk(x[q][at:at+100], x[q][at:at+100], got[q][at:at+100], d)
				}
			}
			for q := range us {
				if at := diff(got[q], want[q], 1e-6*math.Abs(float64(p1(want[q])))); at >= 0 {
					c.Failf("C06/interleaved/"+k.name, "%g Hz: sample %d is %g when another instance runs in between, %g alone", sr, at, got[q][at], want[q][at])
					return
				}
			}
			c.Distinct(k.name, seeds[0])
		})
	}
	// concurrent instances: construction, settings, processing and reset all at once
	ks := kinds()
	for rep := 0; rep < n; rep++ {
		for _, k := range ks {
			r.Case(fmt.Sprintf("concurrent/%s/%d", k.name, rep), func(c *mon.C) {
				sr := mon.Pick(c.Rand, rates...)
				const inst = 4
				x := signal(c.Rand, 600, sr)
				seed := c.Rand.Uint64()
				u := k.mk(sr)
				settleAll(u, seed)
				want, _ := run(u, x, x)
				var wg sync.WaitGroup
				start := make(chan struct{})
				var bad [inst]int
				for q := 0; q < inst; q++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						u := k.mk(sr)
						settleAll(u, seed)
						got, _ := run(u, x, x)
						bad[q] = diff(got, want, k.tol+1e-6*float64(p1(want)))
						if u.reset != nil {
							u.reset()
							run(u, x, x)
						}
						runFree(x)
					}()
				}
				close(start)
				wg.Wait()
				for _, b := range bad {
					if b >= 0 {
						c.Failf("C06/concurrent/"+k.name, "%g Hz: sample %d differs from the instance run alone", sr, b)
						return
					}
				}
				c.Distinct(k.name, seed)
			})
		}
	}
}

// again makes the settings settleAll made once more, without the actions.
func again(u *unit, seed uint64) {
	for i, f := range u.set[:len(u.set)-u.acts] {
		f(rand.New(rand.NewPCG(seed, uint64(i))))
	}
}

// c07: plug-ins hand every setting to their processors before every block, changed or not.
func c07(r *mon.Run) {
	each(r, "again", r.N(8, 300), func(k kind) bool { return len(k.mk(48000).set) > 0 }, func(c *mon.C, k kind, sr float64, i int) {
		u, v := k.mk(sr), k.mk(sr)
		for part := 0; part < 3; part++ {
			seed := c.Rand.Uint64()
			for q := 0; q < 2; q++ { // settings that depend on one another are in place after the second round
				settleAll(u, seed)
				settleAll(v, seed)
			}
			n := 1 + c.Rand.IntN(3000)
			l, rr := signal(c.Rand, n, sr), signal(c.Rand, n, sr)
			wa, wb := run(u, l, rr)
			a, b := make([]float32, n), make([]float32, n)
			for at := 0; at < n; {
				m := min(n-at, mon.Pick(c.Rand, 1, 16, 64, 1+c.Rand.IntN(700)))
				again(v, seed)
				v.blk(l[at:at+m], rr[at:at+m], a[at:at+m], b[at:at+m])
				at += m
			}
			for ch, p := range [][2][]float32{{a, wa}, {b, wb}} {
				if at := diff(p[0], p[1], k.tol+1e-6*math.Abs(float64(p1(p[1])))); at >= 0 {
					c.Failf("C07/"+k.name, "%g Hz: with its settings made again before every block, sample %d of channel %d is %g instead of %g", sr, at, ch, p[0][at], p[1][at])
					return
				}
			}
			c.Distinct(k.name, seed)
		}
	})
}
