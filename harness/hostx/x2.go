package hostx

import (
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"verif/harness/mon"
)

// noisy examples add unseeded noise or dither: no two runs of theirs are alike
var noisy = map[string]bool{"chain_fx": true, "multidistortion": true}

type step struct {
	n      int
	ins    [][]float32
	qs     []queue
	notes  []note
	hc     *hostCtx
	mono   bool
	noIn   bool
	inPlac bool
}

func (g *rig) chans(l []int) int {
	n := 0
	for _, k := range l {
		n += k
	}
	return n
}

// feed plays one block and returns a copy of the output.
func (g *rig) feed(c *mon.C, ex string, s *step, inPlace bool) [][]float32 {
	ins, outs := g.in, g.out
	if s.noIn {
		ins = nil
	}
	b := newBlock(s.n, ins, outs, inPlace)
	defer b.close()
	src := flat(b.in)
	for ch := range src {
		copy(src[ch], s.ins[ch])
	}
	if !inPlace {
		for _, o := range flat(b.out) {
			for k := range o {
				o[k] = float32(math.NaN())
			}
		}
	}
	if len(s.qs) > 0 {
		b.changes(s.qs)
	}
	if len(s.notes) > 0 {
		b.events(s.notes)
	}
	if s.hc != nil {
		b.context(*s.hc)
	}
	if r := g.process(b); r != 0 {
		c.Failf("audio/process", "%s: process returned %d on %d samples (inputs %v, in place %v, automation %v)", ex, r, s.n, ins, inPlace, s.qs)
		return nil
	}
	if !b.guardsIntact() {
		c.Failf("audio/guards", "%s: process wrote outside the channels", ex)
	}
	if !inPlace {
		for ch := range src {
			for k := range src[ch] {
				if src[ch][k] != s.ins[ch][k] {
					c.Failf("audio/input", "%s: process changed input channel %d", ex, ch)
					return nil
				}
			}
		}
	}
	var o [][]float32
	for _, ch := range flat(b.out) {
		o = append(o, append([]float32(nil), ch...))
	}
	return o
}

func (g *rig) script(c *mon.C, blocks int, level float64) []*step {
	var sc []*step
	held := map[int]bool{}
	var ph float64
	f := mon.Uni(c.Rand, 40, 4000)
	for i := 0; i < blocks; i++ {
		s := &step{n: 1 + c.Rand.IntN(g.block)}
		if c.Rand.IntN(20) == 0 {
			s.n = 0
		}
		kind := c.Rand.IntN(5)
		for ch := 0; ch < g.chans(g.in); ch++ {
			x := make([]float32, s.n)
			for k := range x {
				switch kind {
				case 0:
				case 1:
					x[k] = float32(level * mon.Uni(c.Rand, -1, 1))
				default:
					x[k] = float32(level * math.Sin(ph+float64(k)*2*math.Pi*f/g.rate+float64(ch)))
				}
			}
			if s.n > 0 && kind == 4 {
				x[c.Rand.IntN(s.n)] = float32(mon.Pick(c.Rand, 1.0, -1.0, 4.0, 1e-38))
			}
			s.ins = append(s.ins, x)
		}
		ph += float64(s.n) * 2 * math.Pi * f / g.rate
		for q := c.Rand.IntN(4); q > 0 && s.n > 0 && len(g.params) > 0; q-- {
			p := g.params[c.Rand.IntN(len(g.params))]
			if p.flags&flagReadOnly != 0 {
				continue
			}
			qu := queue{id: p.id}
			off := 0
			for k := 1 + c.Rand.IntN(3); k > 0 && off < s.n; k-- {
				off += c.Rand.IntN(s.n - off)
				qu.pts = append(qu.pts, point{off: int32(off), val: mon.Pick(c.Rand, 0, 1, c.Rand.Float64(), c.Rand.Float64())})
				off++
			}
			s.qs = append(s.qs, qu)
		}
		for q := c.Rand.IntN(4); q > 0 && s.n > 0; q-- {
			p := 20 + c.Rand.IntN(90)
			k := 0
			if held[p] {
				k = 1
			}
			held[p] = !held[p]
			s.notes = append(s.notes, note{kind: k, off: int32(c.Rand.IntN(s.n)), pitch: p, vel: float32(c.Rand.Float64())})
		}
		if c.Rand.IntN(2) == 0 {
			s.hc = &hostCtx{state: uint32(c.Rand.Uint64()), proj: int64(i * g.block), temp: mon.Uni(c.Rand, 40, 240), num: 4, den: 4, music: float64(i)}
		}
		sc = append(sc, s)
	}
	return sc
}

func x02(r *mon.Run, ex string) {
	blk := func(c *mon.C) int { return mon.Pick(c.Rand, 1, 16, 64, 256, 512, 1000) }
	rate := func(c *mon.C) float64 { return mon.Pick(c.Rand, 22050.0, 44100.0, 48000.0, 96000.0, 192000.0) }
	r.Par(ex+"/play", r.N(12, 80), func(c *mon.C, i int) {
		rt, bk := rate(c), blk(c)
		g := start(c, rt, bk)
		if g == nil {
			return
		}
		defer g.end(c)
		twin := start(c, rt, bk)
		inpl := start(c, rt, bk)
		if twin == nil || inpl == nil {
			return
		}
		defer twin.end(c)
		defer inpl.end(c)
		level := mon.Pick(c.Rand, 0.1, 1.0, 1.0, 2.0)
		sc := g.script(c, 60, level)
		run := func(h *rig, sc []*step, inPlace bool) [][][]float32 {
			var o [][][]float32
			for _, s := range sc {
				o = append(o, h.feed(c, ex, s, inPlace))
			}
			return o
		}
		a := run(g, sc, false)
		peak := 0.0
		for bi, o := range a {
			for ch := range o {
				for k, v := range o[ch] {
					f := float64(v)
					if math.IsNaN(f) || math.IsInf(f, 0) {
						c.Failf("audio/finite", "%s: output channel %d sample %d of block %d (%d samples at %v Hz) is %v for finite input", ex, ch, k, bi, sc[bi].n, rt, v)
						return
					}
					peak = math.Max(peak, math.Abs(f))
				}
			}
		}
		if peak > 1e4 {
			c.Failf("audio/bounded", "%s: output peak %v for input within %v", ex, peak, 4*level)
		}
		b := run(twin, sc, false)
		eq := func(sig, what string, x, y [][][]float32) {
			if noisy[strings.TrimSuffix(ex, "+")] {
				return
			}
			for bi := range x {
				for ch := range x[bi] {
					if bi >= len(y) || ch >= len(y[bi]) {
						continue
					}
					for k := range x[bi][ch] {
						if x[bi][ch][k] != y[bi][ch][k] {
							c.Failf(sig, "%s: %s: channel %d sample %d of block %d: %v and %v", ex, what, ch, k, bi, x[bi][ch][k], y[bi][ch][k])
							return
						}
					}
				}
			}
		}
		eq("audio/repeat", "two instances given the same blocks differ", a, b)
		if len(g.in) > 0 {
			eq("audio/inplace", "processing in place differs from separate buffers", a, run(inpl, sc, true))
		}
		c.Count("blocks", 3*len(sc))
		c.Distinct(ex, rt, bk, level)
		// deactivation ends what was sounding: the instance then behaves like a new one with the same settings
		fresh := start(c, rt, bk)
		if fresh == nil {
			return
		}
		defer fresh.end(c)
		for _, p := range g.params {
			v := c.Rand.Float64()
			g.set(p.id, v)
			fresh.set(p.id, v)
		}
		g.stop(c)
		fresh.stop(c)
		if !g.run(c, rt, bk) || !fresh.run(c, rt, bk) {
			return
		}
		sc = g.script(c, 20, level)
		eq("audio/reset", "after setActive(0), setActive(1) the output is not that of a new instance", run(fresh, sc, false), run(g, sc, false))
	})
	// what a host may leave out
	r.Par(ex+"/odd", r.N(8, 40), func(c *mon.C, i int) {
		g := start(c, rate(c), blk(c))
		if g == nil {
			return
		}
		defer g.end(c)
		full := [2][]int{g.in, g.out}
		for _, s := range g.script(c, 40, 1) {
			g.in, g.out = full[0], full[1]
			alt := func(l []int) []int {
				switch c.Rand.IntN(4) {
				case 0:
					return nil
				case 1:
					return []int{1}
				case 2:
					return []int{0}
				}
				return l
			}
			g.in, g.out = alt(g.in), alt(g.out)
			for len(s.ins) < g.chans(g.in) {
				s.ins = append(s.ins, make([]float32, s.n))
			}
			g.feed(c, ex, s, false)
			c.Count("odd_blocks", 1)
		}
		c.Distinct(ex, "odd", i)
	})
	r.Par(ex+"/threads", r.N(2, 8), func(c *mon.C, i int) {
		g := start(c, 48000, 128)
		if g == nil {
			return
		}
		defer g.end(c)
		sc := g.script(c, 150, 0.7)
		var done atomic.Bool
		var wg sync.WaitGroup
		for k := 0; k < 2; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				x := uint64(k)*7919 + 17
				for n := 0; !done.Load() || n < 20; n++ {
					x = x*6364136223846793005 + 1442695040888963407
					p := g.params[int(x>>33)%len(g.params)]
					v := float64(x>>40) / (1 << 24)
					g.set(p.id, v)
					g.get(p.id)
					g.text(p.id, v)
					if n%16 == 0 {
						st := newStream(c.Rand2(n))
						g.getState(st)
						st.free()
					}
				}
			}()
		}
		for _, s := range sc {
			g.feed(c, ex, s, false)
		}
		done.Store(true)
		wg.Wait()
		c.Count("concurrent_blocks", len(sc))
		c.Distinct(ex, "threads", i)
	})
}
