package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"

	"github.com/justyntemme/vst3go/pkg/dsp/dynamics"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	fdsp "github.com/justyntemme/vst3go/pkg/framework/dsp"
	"verif/harness/mon"
)

// ref is the independent way to run what a chain element does.
type ref interface {
	run(b []float32)
	reset()
}

type refSeq struct {
	el     []ref
	bypass bool
}

func (s *refSeq) run(b []float32) {
	if s.bypass {
		return
	}
	for _, e := range s.el {
		e.run(b)
	}
}
func (s *refSeq) reset() {
	for _, e := range s.el {
		e.reset()
	}
}

type refPar struct {
	el     []ref
	g      []float32
	bypass bool
}

func (p *refPar) run(b []float32) {
	if p.bypass || len(p.el) == 0 {
		return
	}
	acc := make([]float64, len(b))
	for j, e := range p.el {
		t := append([]float32(nil), b...)
		e.run(t)
		for i := range t {
			acc[i] += float64(t[i]) * float64(p.g[j])
		}
	}
	for i := range b {
		b[i] = float32(acc[i])
	}
}
func (p *refPar) reset() {
	for _, e := range p.el {
		e.reset()
	}
}

// onePole is a stateful linear processor; both sides own one.
type onePole struct{ a, y float32 }

func (o *onePole) Process(b []float32) {
	for i, x := range b {
		o.y += o.a * (x - o.y)
		b[i] = o.y
	}
}
func (o *onePole) Reset()          { o.y = 0 }
func (o *onePole) run(b []float32) { o.Process(b) }
func (o *onePole) reset()          { o.Reset() }

// ramp counts samples: it shows a missed reset and a repeated or skipped sample.
type ramp struct{ n int }

func (o *ramp) Process(b []float32) {
	for i := range b {
		o.n++
		b[i] += float32(o.n%97) / 97
	}
}
func (o *ramp) Reset()          { o.n = 0 }
func (o *ramp) run(b []float32) { o.Process(b) }
func (o *ramp) reset()          { o.Reset() }

type refFn struct{ f, r func([]float32) }

func (f refFn) run(b []float32) { f.f(b) }
func (f refFn) reset() {
	if f.r != nil {
		f.r(nil)
	}
}

// grow builds a random element and its reference; linear restricts it to elements that do
// not amplify rounding differences (used downstream of a parallel sum).
func grow(q *rand.Rand, depth int, linear bool, sr float64, toggles *[]func(bool)) (fdsp.Processor, ref, string, bool) {
	k := q.IntN(10)
	if depth == 0 && k >= 7 {
		k = q.IntN(7)
	}
	if linear && (k == 4 || k == 5) {
		k = 0
	}
	switch k {
	case 1:
		return &ramp{}, &ramp{}, "ramp", false
	case 2:
		g := float32(mon.Uni(q, -1.5, 1.5))
		f := func(b []float32) {
			for i := range b {
				b[i] *= g
			}
		}
		return fdsp.ProcessorFunc(f), refFn{f: f}, "gain", false
	case 3:
		d := utility.NewSimpleDCBlocker(sr)
		return fdsp.NewDCBlockerAdapter(sr), refFn{func(b []float32) {
			for i := range b {
				b[i] = d.Process(b[i])
			}
		}, func([]float32) { d.Reset() }}, "dc", false
	case 4:
		mk := func() *dynamics.Compressor {
			x := dynamics.NewCompressor(sr)
			x.SetThreshold(-25)
			x.SetRatio(6)
			x.SetAttack(0.003)
			x.SetRelease(0.05)
			return x
		}
		d := mk()
		return fdsp.NewCompressorAdapter(mk()), refFn{func(b []float32) {
			for i := range b {
				b[i] = d.Process(b[i])
			}
		}, func([]float32) { d.Reset() }}, "comp", false
	case 5:
		mk := func() *dynamics.Gate {
			x := dynamics.NewGate(sr)
			x.SetThreshold(-30)
			x.SetRange(-40)
			x.SetAttack(0.001)
			x.SetHold(0.002)
			x.SetRelease(0.01)
			return x
		}
		d := mk()
		return fdsp.NewGateAdapter(mk()), refFn{func(b []float32) {
			for i := range b {
				b[i] = d.Process(b[i])
			}
		}, func([]float32) { d.Reset() }}, "gate", false
	case 7, 8:
		ch := fdsp.NewChain("c")
		rs := &refSeq{}
		s := "["
		inex := linear
		bld := fdsp.NewBuilder("b")
		useB := q.IntN(2) == 0
		n := q.IntN(4)
		if useB {
			n++
		}
		for i := 0; i < n; i++ {
			p, rf, d, ix := grow(q, depth-1, inex, sr, toggles)
			if useB {
				bld.WithProcessor(p)
			} else if pf, ok := p.(fdsp.ProcessorFunc); ok {
				ch.AddFunc("f", pf)
			} else {
				ch.Add(p)
			}
			rs.el = append(rs.el, rf)
			s += d + " "
			inex = inex || ix
		}
		if useB {
			var err error
			if ch, err = bld.Build(); err != nil {
				panic(err)
			}
		}
		*toggles = append(*toggles, func(b bool) { ch.SetBypass(b); rs.bypass = b })
		return ch, rs, s + "]", inex && !linear
	case 9:
		pc := fdsp.NewParallelChain("p")
		rp := &refPar{}
		s := "{"
		for i := mon.Pick(q, 0, 1, 2, 3, 3, 4, 6); i > 0; i-- {
			p, rf, d, _ := grow(q, depth-1, linear, sr, toggles)
			g := float32(mon.Uni(q, -1, 1))
			pc.Add(p, g)
			rp.el = append(rp.el, rf)
			rp.g = append(rp.g, g)
			s += d + "|"
		}
		*toggles = append(*toggles, func(b bool) { pc.SetBypass(b); rp.bypass = b })
		return pc, rp, s + "}", true
	}
	a := float32(mon.Uni(q, 0.01, 1))
	return &onePole{a: a}, &onePole{a: a}, "pole", false
}

type stereoEl struct{ l, r onePole }

func (s *stereoEl) ProcessStereo(l, r []float32) {
	s.l.Process(l)
	s.r.Process(r)
	for i := range l { // order-dependent: swap and mix
		l[i], r[i] = r[i]*0.5+l[i], l[i]-0.25
	}
}
func (s *stereoEl) Reset() { s.l.Reset(); s.r.Reset() }

type addStereo struct{ v float32 }

func (s *addStereo) ProcessStereo(l, r []float32) {
	for i := range l {
		l[i], r[i] = l[i]*2+s.v, r[i]*2+s.v
	}
}
func (s *addStereo) Reset() {}

func f03(r *mon.Run) {
	r.Par("tree", r.N(250, 3000), func(c *mon.C, _ int) {
		q := c.Rand
		sr := mon.Pick(q, 44100.0, 48000, 96000)
		var toggles []func(bool)
		var p fdsp.Processor
		var rf ref
		var shape string
		for {
			p, rf, shape, _ = grow(q, 3, false, sr, &toggles)
			if shape[0] == '[' || shape[0] == '{' {
				break
			}
			toggles = nil
		}
		c.Distinct(shape)
		c.Sample("trees", shape)
		peak := 1e-3
		for blk := 0; blk < 25; blk++ {
			if q.IntN(6) == 0 {
				p.Reset()
				rf.reset()
			}
			if q.IntN(6) == 0 && len(toggles) > 0 {
				toggles[q.IntN(len(toggles))](q.IntN(2) == 0)
			}
			n := mon.Pick(q, 0, 1, 2, 16, 64, 255, 512, q.IntN(700))
			// the chain is given a window of a larger buffer: what lies around it is not its
			whole := make([]float32, n+16)
			for i := range whole {
				whole[i] = 777
			}
			buf := whole[8 : 8+n]
			lvl := mon.LogUniform(q, 1e-3, 1)
			for i := range buf {
				buf[i] = float32(lvl * (2*q.Float64() - 1))
			}
			want := append([]float32(nil), buf...)
			// the reference takes the same audio in one piece, the chain in random cuts
			if q.IntN(2) == 0 {
				for at := 0; at < n; {
					m := min(n-at, 1+q.IntN(200))
					p.Process(buf[at : at+m])
					at += m
				}
			} else {
				p.Process(buf)
			}
			rf.run(want)
			for i := range want {
				peak = math.Max(peak, math.Abs(float64(want[i])))
			}
			for i := range want {
				if !mon.Close(float64(buf[i]), float64(want[i]), 2e-5*peak, 2e-5) {
					c.Failf("chain-output", "%s block %d sample %d of %d: %v, the processors by hand give %v", shape, blk, i, n, buf[i], want[i])
					return
				}
			}
			for i := range whole {
				if (i < 8 || i >= 8+n) && whole[i] != 777 {
					c.Failf("outside", "%s wrote outside the buffer it was given", shape)
					return
				}
			}
			c.Evals(n)
		}
	})
	// long chains, many branches and long blocks
	r.Par("wide", r.N(12, 80), func(c *mon.C, ci int) {
		q := c.Rand
		n := mon.Pick(q, 17, 33, 65, 129, 300)
		leaf := func() (fdsp.Processor, ref) {
			if q.IntN(2) == 0 {
				return &ramp{}, &ramp{}
			}
			a := float32(mon.Uni(q, 0.6, 1))
			return &onePole{a: a}, &onePole{a: a}
		}
		var p fdsp.Processor
		var rf ref
		if ci%2 == 0 {
			ch, rs := fdsp.NewChain("wide"), &refSeq{}
			for i := 0; i < n; i++ {
				x, y := leaf()
				ch.Add(x)
				rs.el = append(rs.el, y)
			}
			p, rf = ch, rs
		} else {
			pc, rp := fdsp.NewParallelChain("wide"), &refPar{}
			for i := 0; i < n; i++ {
				x, y := leaf()
				g := float32(mon.Uni(q, -1, 1))
				pc.Add(x, g)
				rp.el, rp.g = append(rp.el, y), append(rp.g, g)
			}
			p, rf = pc, rp
		}
		c.Distinct(ci%2, n)
		for blk, m := range []int{40, 700, mon.Pick(q, 8192, 33000, 70000, 140000) / max(1, n/60), 64} {
			if blk%2 == 1 {
				p.Reset()
				rf.reset()
			}
			buf := make([]float32, m)
			for i := range buf {
				buf[i] = float32(2*q.Float64() - 1)
			}
			want := append([]float32(nil), buf...)
			p.Process(buf)
			rf.run(want)
			c.Evals(m)
			for i := range want {
				if !mon.Close(float64(buf[i]), float64(want[i]), 3e-4*math.Sqrt(float64(n)), 1e-4) {
					c.Failf("chain-output", "%d processors (%s), block %d sample %d of %d: %v, the processors by hand give %v", n, []string{"series", "parallel"}[ci%2], blk, i, m, buf[i], want[i])
					return
				}
			}
		}
	})
	r.Par("stereo", r.N(60, 600), func(c *mon.C, ci int) {
		q := c.Rand
		n := 1 + q.IntN(5)
		if ci%20 == 7 {
			n = mon.Pick(q, 20, 33, 70)
		}
		sb := fdsp.NewStereoBuilder("s")
		sc := fdsp.NewStereoChain("s")
		var el []*stereoEl
		for i := 0; i < n; i++ {
			mk := func(a float32) *stereoEl { return &stereoEl{onePole{a: a}, onePole{a: a / 2}} }
			a := q.Float32()
			sb.WithProcessor(mk(a))
			sc.Add(mk(a))
			el = append(el, mk(a))
		}
		built, err := sb.Build()
		if err != nil || built == nil {
			c.Failf("stereo-build", "valid stereo chain refused: %v", err)
			return
		}
		byp := false
		for blk := 0; blk < 12; blk++ {
			if q.IntN(5) == 0 {
				sc.Reset()
				built.Reset()
				for _, e := range el {
					e.Reset()
				}
			}
			if q.IntN(5) == 0 {
				byp = !byp
				sc.SetBypass(byp)
				built.SetBypass(byp)
			}
			m := q.IntN(200)
			var ch [3][2][]float32
			for i := 0; i < m; i++ {
				l, rr := q.Float32(), q.Float32()
				for k := range ch {
					ch[k][0] = append(ch[k][0], l)
					ch[k][1] = append(ch[k][1], rr)
				}
			}
			sc.ProcessStereo(ch[0][0], ch[0][1])
			built.ProcessStereo(ch[1][0], ch[1][1])
			if !byp {
				for _, e := range el {
					e.ProcessStereo(ch[2][0], ch[2][1])
				}
			}
			c.Evals(m)
			c.Distinct(n, byp, m)
			for s := 0; s < 2; s++ {
				for i := 0; i < m; i++ {
					if ch[0][s][i] != ch[2][s][i] || ch[1][s][i] != ch[2][s][i] {
						c.Failf("stereo-output", "stereo chain of %d, side %d sample %d: %v / %v, by hand %v", n, s, i, ch[0][s][i], ch[1][s][i], ch[2][s][i])
						return
					}
				}
			}
		}
	})
	r.Par("builders", r.N(60, 500), func(c *mon.C, _ int) {
		q := c.Rand
		b := fdsp.NewBuilder("x")
		sb := fdsp.NewStereoBuilder("x")
		n, bad, sbad := 0, 0, 0
		var chains []*fdsp.Chain
		var lens []int
		for k := q.IntN(8); k > 0; k-- {
			switch q.IntN(6) {
			case 0, 1:
				b.WithProcessor(&ramp{})
				sb.WithProcessor(&stereoEl{})
				n++
			case 2:
				b.WithFunc("f", func([]float32) {})
				sb.WithProcessor(&stereoEl{})
				n++
			case 3:
				if ch, err := b.Build(); err == nil && bad == 0 {
					chains = append(chains, ch)
					lens = append(lens, n)
				}
			case 4:
				if q.IntN(3) == 0 {
					b.WithProcessor(nil)
					bad++
				}
			case 5:
				if q.IntN(3) == 0 {
					b.WithFunc("nil", nil)
					bad++
					sb.WithProcessor(nil)
					sbad++
				}
			}
		}
		c.Evals(1)
		c.Distinct("build", n, bad, sbad)
		ch, err := b.Build()
		if ok := n > 0 && bad == 0; (err == nil) != ok || (ch != nil) != ok {
			c.Failf("build-verdict", "%d processors, %d nil ones: Build gave chain=%v err=%v", n, bad, ch != nil, err)
		}
		sch, err := sb.Build()
		if ok := n > 0 && sbad == 0; (err == nil) != ok || (sch != nil) != ok {
			c.Failf("build-verdict", "stereo: %d processors, %d nil ones: Build gave chain=%v err=%v", n, sbad, sch != nil, err)
		}
		if ch != nil && (ch.Count() != n || ch.IsEmpty() != (n == 0)) {
			c.Failf("build-count", "chain of %d reports %d (empty %v)", n, ch.Count(), ch.IsEmpty())
		}
		for i, x := range chains { // a chain that is in use does not grow when its builder is used again
			if x.Count() != lens[i] {
				c.Failf("build-alias", "a chain built with %d processors has %d after its builder was used again", lens[i], x.Count())
			}
		}
	})
	// a built chain and its builder grow apart
	r.Par("apart", r.N(60, 500), func(c *mon.C, _ int) {
		q := c.Rand
		b, sb := fdsp.NewBuilder("x"), fdsp.NewStereoBuilder("x")
		add := func(v float32) fdsp.Processor {
			return fdsp.ProcessorFunc(func(buf []float32) {
				for i := range buf {
					buf[i] = buf[i]*2 + v
				}
			})
		}
		var bv []float32
		type grown struct {
			mono   *fdsp.Chain
			stereo *fdsp.StereoChain
			vals   []float32
		}
		var all []*grown
		for k := 1; k < 14; k++ {
			v := float32(k)
			switch {
			case q.IntN(2) == 0 || len(bv) == 0:
				b.WithProcessor(add(v))
				sb.WithProcessor(&addStereo{v})
				bv = append(bv, v)
			case q.IntN(2) == 0:
				m, e1 := b.Build()
				s, e2 := sb.Build()
				if e1 != nil || e2 != nil {
					c.Failf("build-verdict", "%v %v", e1, e2)
					return
				}
				all = append(all, &grown{m, s, append([]float32(nil), bv...)})
			default:
				if len(all) > 0 {
					g := all[q.IntN(len(all))]
					g.mono.Add(add(v))
					g.stereo.Add(&addStereo{v})
					g.vals = append(g.vals, v)
				}
			}
		}
		for _, g := range all {
			want := float32(1)
			for _, v := range g.vals {
				want = want*2 + v
			}
			m, l, rr := []float32{1}, []float32{1}, []float32{1}
			g.mono.Process(m)
			g.stereo.ProcessStereo(l, rr)
			if m[0] != want || l[0] != want || rr[0] != want {
				c.Failf("build-alias", "a chain of steps %v gives %v (stereo %v, %v), want %v: its builder or a sibling changed it", g.vals, m[0], l[0], rr[0], want)
				return
			}
			c.Evals(1)
		}
		c.Distinct("apart", len(all), len(bv))
	})
	r.Par("ready-made", r.N(20, 150), func(c *mon.C, _ int) {
		q := c.Rand
		sr := mon.Pick(q, 44100.0, 48000, 88200, 192000)
		s, err := fdsp.CreateSimpleChain(sr)
		d, err2 := fdsp.CreateDynamicsChain(sr)
		if err != nil || err2 != nil || s == nil || d == nil {
			c.Failf("ready-made", "ready-made chain failed: %v %v", err, err2)
			return
		}
		dc := utility.NewSimpleDCBlocker(sr)
		g := dynamics.NewGate(sr)
		g.SetThreshold(-40)
		g.SetRange(-60)
		cp := dynamics.NewCompressor(sr)
		cp.SetThreshold(-20)
		cp.SetRatio(4)
		cp.SetAttack(10)
		cp.SetRelease(100)
		for i := 0; i < 4000; i++ {
			lvl := float32(0.5)
			if i/500%2 == 1 {
				lvl = 0.001
			}
			x := lvl * (2*q.Float32() - 1)
			a, b := []float32{x}, []float32{x}
			s.Process(a)
			d.Process(b)
			w := cp.Process(g.Process(x))
			if wa := dc.Process(x); a[0] != wa || b[0] != w {
				c.Failf("ready-made", "sample %d: simple %v (by hand %v), dynamics %v (by hand %v)", i, a[0], wa, b[0], w)
				return
			}
		}
		c.Evals(4000)
		c.Distinct("ready", sr, q.Uint32())
		// the noise adapter adds noise in proportion to its mix
		na := fdsp.NewNoiseAdapter(mon.Pick(q, utility.WhiteNoise, utility.PinkNoise, utility.BrownNoise, utility.BlueNoise, utility.VioletNoise), 0)
		mix := float32(mon.LogUniform(q, 1e-3, 1))
		buf := make([]float32, 300)
		for i := range buf {
			buf[i] = 0.25
		}
		na.Process(buf)
		for i := range buf {
			if buf[i] != 0.25 {
				c.Failf("noise-mix", "noise with mix 0 changed the signal")
				break
			}
		}
		na.SetMix(mix)
		na.Reset()
		na.Process(buf)
		moved := 0
		for i := range buf {
			d := math.Abs(float64(buf[i]) - 0.25)
			if d > 2*float64(mix)+1e-6 {
				c.Failf("noise-mix", "noise with mix %v moved a sample by %v", mix, d)
				break
			}
			if d > 0 {
				moved++
			}
		}
		if moved < 100 {
			c.Failf("noise-mix", "noise with mix %v changed only %d of 300 samples", mix, moved)
		}
	})
	r.Case("allocations", func(c *mon.C) {
		q := c.Rand
		for k := 0; k < r.N(15, 100); k++ {
			var tg []func(bool)
			var p fdsp.Processor
			var shape string
			for {
				p, _, shape, _ = grow(q, 3, false, 48000, &tg)
				if shape[0] == '[' || shape[0] == '{' {
					break
				}
			}
			n := 1 + q.IntN(512)
			buf := make([]float32, n)
			best := uint64(math.MaxUint64)
			p.Process(buf)
			for try := 0; try < 6 && best > 0; try++ {
				var a, b runtime.MemStats
				runtime.ReadMemStats(&a)
				for i := 0; i < 20; i++ {
					p.Process(buf[:n-i%n])
				}
				runtime.ReadMemStats(&b)
				best = min(best, b.Mallocs-a.Mallocs)
			}
			c.Evals(20)
			c.Distinct("alloc", shape)
			if best >= 20 {
				c.Failf("allocates", "%s allocates on every steady-state block (%d in 20 blocks of up to %d samples)", shape, best, n)
				return
			}
		}
	})
	_ = fmt.Sprint
}
