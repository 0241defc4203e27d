package hostx

import (
	"math"
	"strings"

	"verif/harness/mon"
)

// calm settings keep the random noise of noisy examples off
var calm = map[string]float64{"chain_fx/Noise Amount": 0, "multidistortion/Dither": 0, "multidistortion/Saturation": 0, "multidistortion/Flutter": 0}

// x03 asks that sound is a function of the settings and the samples, however they reached the instance.
func x03(r *mon.Run, ex string) {
	rate := func(c *mon.C) float64 { return mon.Pick(c.Rand, 44100.0, 48000.0, 96000.0) }
	signal := func(c *mon.C, g *rig, n int) [][]float32 {
		var o [][]float32
		f := mon.Uni(c.Rand, 60, 3000)
		for ch := 0; ch < g.chans(g.in); ch++ {
			x := make([]float32, n)
			a := mon.Pick(c.Rand, 0, 0.05, 0.5, 0.9)
			for k := range x {
				x[k] = float32(a * (0.7*math.Sin(float64(k)*2*math.Pi*f/g.rate+float64(ch)) + 0.3*mon.Uni(c.Rand, -1, 1)))
				if k%4096 > 2500 {
					x[k] *= 0.03
				}
			}
			o = append(o, x)
		}
		return o
	}
	type on struct {
		at int
		n  note
	}
	// play sends the signal in the given block lengths and returns the output
	play := func(c *mon.C, g *rig, sig [][]float32, ns []on, cuts []int) [][]float32 {
		o := make([][]float32, g.chans(g.out))
		pos := 0
		for _, n := range cuts {
			s := &step{n: n}
			for ch := range sig {
				s.ins = append(s.ins, sig[ch][pos:pos+n])
			}
			for _, e := range ns {
				if e.at >= pos && e.at < pos+n {
					e.n.off = int32(e.at - pos)
					s.notes = append(s.notes, e.n)
				}
			}
			b := g.feed(c, ex, s, false)
			for ch := range b {
				o[ch] = append(o[ch], b[ch]...)
			}
			pos += n
		}
		return o
	}
	cut := func(c *mon.C, total, most int) []int {
		var l []int
		for total > 0 {
			n := min(total, 1+c.Rand.IntN(most))
			l = append(l, n)
			total -= n
		}
		return l
	}
	score := func(c *mon.C, total int) []on {
		var l []on
		for k := 0; k < 6; k++ {
			p := 40 + c.Rand.IntN(50)
			t := c.Rand.IntN(total)
			l = append(l, on{t, note{kind: 0, pitch: p, vel: float32(mon.Uni(c.Rand, 0.1, 1))}})
			if u := t + c.Rand.IntN(4000); u < total {
				l = append(l, on{u, note{kind: 1, pitch: p}})
			}
		}
		return l
	}
	same := func(c *mon.C, sig, what string, a, b [][]float32, skip int) {
		peak := 1e-3
		for _, x := range a {
			for _, v := range x {
				peak = math.Max(peak, math.Abs(float64(v)))
			}
		}
		for ch := range a {
			for k := skip; k < len(a[ch]) && k < len(b[ch]); k++ {
				if d := math.Abs(float64(a[ch][k]) - float64(b[ch][k])); !(d <= 1e-4*peak) {
					c.Failf(sig, "%s: %s: channel %d sample %d: %v and %v (peak %v)", ex, what, ch, k, a[ch][k], b[ch][k], peak)
					return
				}
			}
		}
		c.Evals(1)
	}
	setAll := func(c *mon.C, g *rig) map[uint32]float64 {
		m := map[uint32]float64{}
		for _, p := range g.params {
			if p.flags&flagReadOnly == 0 {
				v := c.Rand.Float64()
				if p.flags&flagBypass != 0 {
					v = 0
				}
				if p.steps > 0 {
					v = math.Round(v*float64(p.steps)) / float64(p.steps)
				}
				if w, ok := calm[strings.TrimSuffix(ex, "+")+"/"+p.title]; ok {
					v = w
				}
				m[p.id] = v
			}
		}
		return m
	}
	const total = 12000
	{
		r.Par(ex+"/ways", r.N(10, 60), func(c *mon.C, i int) {
			rt := rate(c)
			var out [][][]float32
			var m map[uint32]float64
			var sig [][]float32
			var ns []on
			var cuts []int
			st := newStream(c.Rand)
			defer st.free()
			names := []string{"automation", "the controller before activation", "the controller while running", "a state", "a state while running"}
			for way := range names {
				g := start(c, rt, 512)
				if g == nil {
					return
				}
				if way == 0 {
					m = setAll(c, g)
					sig = signal(c, g, total)
					ns = score(c, total)
					cuts = cut(c, total, 512)
				}
				byCtrl := func() {
					for id, v := range m {
						g.set(id, v)
					}
				}
				restart := func(f func()) {
					g.stop(c)
					f()
					if way == 1 || way == 3 {
						g.run(c, rt, 512)
					} else {
						g.active(true)
						g.processing(true)
					}
				}
				switch way {
				case 0:
					s := &step{n: 64}
					for ch := 0; ch < g.chans(g.in); ch++ {
						s.ins = append(s.ins, make([]float32, 64))
					}
					for id, v := range m {
						s.qs = append(s.qs, queue{id: id, pts: []point{{off: 0, val: v}}})
					}
					g.feed(c, ex, s, false)
					restart(func() {})
					if r := g.getState(st); r != 0 {
						c.Failf("sound/state", "%s: getState returned %d", ex, r)
					}
				case 1:
					restart(byCtrl)
				case 2:
					byCtrl()
				case 3:
					restart(func() { st.seek(0); g.setState(st) })
				case 4:
					st.seek(0)
					g.setState(st)
				}
				if way == 2 || way == 4 { // settled by silence, as the others are by the restart
					s := &step{n: 512}
					for ch := 0; ch < g.chans(g.in); ch++ {
						s.ins = append(s.ins, make([]float32, 512))
					}
					for k := 0; k < int(rt)/512/2; k++ {
						g.feed(c, ex, s, false)
					}
					restart(func() {})
				}
				out = append(out, play(c, g, sig, ns, cuts))
				g.end(c)
			}
			for way := 1; way < len(out); way++ {
				same(c, "sound/settings", "the same settings given by automation and by "+names[way]+" sound different", out[0], out[way], 0)
			}
			c.Distinct(ex, "ways", i)
		})
		r.Par(ex+"/blocks", r.N(10, 60), func(c *mon.C, i int) {
			rt := rate(c)
			var a [][]float32
			var sig [][]float32
			var ns []on
			var m map[uint32]float64
			for k, most := range []int{512, 1, 40, 511} {
				g := start(c, rt, 512)
				if g == nil {
					return
				}
				if k == 0 {
					m = setAll(c, g)
					sig = signal(c, g, total)
					ns = score(c, total)
				}
				for id, v := range m {
					g.set(id, v)
				}
				g.stop(c)
				g.run(c, rt, 512)
				b := play(c, g, sig, ns, cut(c, total, most))
				g.end(c)
				if k == 0 {
					a = b
				} else {
					same(c, "sound/blocks", "cutting the same audio into other blocks changes the output", a, b, 0)
				}
			}
			c.Distinct(ex, "blocks", i)
		})
	}
	r.Par(ex+"/bypass", r.N(6, 20), func(c *mon.C, i int) {
		g := start(c, rate(c), 512)
		if g == nil {
			return
		}
		defer g.end(c)
		var by *pinfo
		for k := range g.params {
			if g.params[k].flags&flagBypass != 0 {
				by = &g.params[k]
			}
		}
		if by == nil {
			return
		}
		for id, v := range setAll(c, g) {
			g.set(id, v)
		}
		sig := signal(c, g, total)
		play(c, g, sig, nil, cut(c, total, 512))
		g.set(by.id, 1)
		o := play(c, g, sig, nil, cut(c, total, 512))
		lat := int(g.latency())
		for ch := range o {
			if ch >= len(sig) {
				break
			}
			for k := lat; k < total; k++ {
				if o[ch][k] != sig[ch][k-lat] {
					c.Failf("sound/bypass", "%s: with %q on, output channel %d sample %d is %v, the input is %v", ex, by.title, ch, k, o[ch][k], sig[ch][k-lat])
					return
				}
			}
		}
		c.Distinct(ex, "bypass", i)
	})
}
