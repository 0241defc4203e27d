package hostx

import (
	"fmt"
	"math"

	"verif/harness/mon"
)

// Main runs the monitors of area X on the plug-in registered in this process.
func Main(example string) {
	mon.Main(map[string]mon.Prop{
		"X01": {F: func(r *mon.Run) { x01(r, example) }},
		"X02": {F: func(r *mon.Run) { x02(r, example) }},
		"X03": {F: func(r *mon.Run) { x03(r, example) }},
	})
}

type rig struct {
	*sess
	cls    Class
	rate   float64
	block  int
	in     []int
	out    []int
	params []pinfo
}

// start opens an instance and brings it to processing the way a host does.
func start(c *mon.C, rate float64, block int) *rig {
	cl := classes()
	if len(cl) == 0 {
		c.Failf("factory/empty", "the factory lists no class")
		return nil
	}
	g := &rig{cls: cl[0], rate: rate, block: block}
	if g.sess = open(cl[0].CID); g.sess == nil {
		c.Failf("factory/create", "createInstance of %x (%s) failed", cl[0].CID, cl[0].Name)
		return nil
	}
	if r := g.initialize(); r != 0 {
		c.Failf("life/initialize", "initialize returned %d", r)
		return nil
	}
	if !g.run(c, rate, block) {
		return nil
	}
	return g
}

func (g *rig) run(c *mon.C, rate float64, block int) bool {
	g.rate, g.block = rate, block
	if r := g.setup(rate, block); r != 0 {
		c.Failf("life/setup", "setupProcessing(%v, %d) returned %d", rate, block, r)
		return false
	}
	if r := g.active(true); r != 0 {
		c.Failf("life/active", "setActive(1) returned %d", r)
		return false
	}
	if r := g.processing(true); r != 0 {
		c.Failf("life/processing", "setProcessing(1) returned %d", r)
		return false
	}
	g.in, g.out = nil, nil
	for i := 0; i < g.busCount(0, 0); i++ {
		b, _ := g.busInfo(0, 0, i)
		g.in = append(g.in, b.channels)
	}
	for i := 0; i < g.busCount(0, 1); i++ {
		b, _ := g.busInfo(0, 1, i)
		g.out = append(g.out, b.channels)
	}
	var ok bool
	if g.params, ok = g.sess.params(); !ok {
		c.Failf("param/info", "getParameterInfo failed below getParameterCount")
		return false
	}
	return true
}

func (g *rig) stop(c *mon.C) {
	if r := g.processing(false); r != 0 {
		c.Failf("life/processing", "setProcessing(0) returned %d", r)
	}
	if r := g.active(false); r != 0 {
		c.Failf("life/active", "setActive(0) returned %d", r)
	}
}

func (g *rig) end(c *mon.C) {
	g.stop(c)
	if r := g.terminate(); r != 0 {
		c.Failf("life/terminate", "terminate returned %d", r)
	}
	g.close()
}

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol }

func x01(r *mon.Run, ex string) {
	r.Case(ex+"/factory", func(c *mon.C) {
		cl := classes()
		if len(cl) != 1 {
			c.Failf("factory/classes", "%s lists %d classes", ex, len(cl))
			return
		}
		c.Sample("class", fmt.Sprintf("%s: %q %x", ex, cl[0].Name, cl[0].CID))
		if cl[0].Name == "" || cl[0].CID == [16]byte{} {
			c.Failf("factory/identity", "%s: class name %q, id %x", ex, cl[0].Name, cl[0].CID)
		}
		c.Distinct(ex, "class")
	})
	// a host asks for parameters, buses and state before the first setupProcessing
	r.Case(ex+"/cold", func(c *mon.C) {
		s := open(classes()[0].CID)
		if s == nil {
			c.Failf("factory/create", "createInstance failed")
			return
		}
		cold, ok := s.params()
		if !ok || len(cold) == 0 {
			c.Failf("cold/params", "%s: %d parameters listed before initialize", ex, len(cold))
		}
		st := newStream(c.Rand)
		defer st.free()
		if r := s.getState(st); r != 0 {
			c.Failf("cold/getState", "%s: getState before initialize returned %d", ex, r)
		}
		if r := s.initialize(); r != 0 {
			c.Failf("life/initialize", "%s: initialize returned %d", ex, r)
		}
		warm, _ := s.params()
		if fmt.Sprint(warm) != fmt.Sprint(cold) {
			c.Failf("cold/changed", "%s: initialize changed the parameter list: %v -> %v", ex, cold, warm)
		}
		s.terminate()
		s.close()
		c.Distinct(ex, "cold")
	})
	r.Par(ex+"/session", r.N(12, 60), func(c *mon.C, i int) {
		g := start(c, mon.Pick(c.Rand, 8000.0, 22050.0, 44100.0, 48000.0, 96000.0, 192000.0), mon.Pick(c.Rand, 1, 32, 64, 333, 512, 1024, 4096))
		if g == nil {
			return
		}
		defer g.end(c)
		checkParams(c, g, ex)
		checkBuses(c, g, ex)
		if t := g.tail(); t > 0x7fffffff && t != math.MaxUint32 {
			c.Failf("life/tail", "%s: tail of %d samples", ex, t)
		}
		if l := g.latency(); l > uint32(g.rate) {
			c.Failf("life/latency", "%s: latency of %d samples at %v Hz", ex, l, g.rate)
		}
		// settings survive a change of sample rate and the round trip through a saved state
		want := map[uint32]float64{}
		for _, p := range g.params {
			if p.flags&flagReadOnly != 0 {
				continue
			}
			g.set(p.id, c.Rand.Float64())
			want[p.id] = g.get(p.id)
		}
		same := func(s *sess, when string) {
			for _, p := range g.params {
				if w, ok := want[p.id]; ok {
					if v := s.get(p.id); v != w {
						c.Failf("state/"+when, "%s: %s of %q is %v, was set to %v", ex, when, p.title, v, w)
						return
					}
				}
			}
		}
		g.stop(c)
		if !g.run(c, mon.Pick(c.Rand, 44100.0, 48000.0, 88200.0), mon.Pick(c.Rand, 16, 128, 2048)) {
			return
		}
		same(g.sess, "after a new setupProcessing the value")
		st := newStream(c.Rand)
		defer st.free()
		if r := g.getState(st); r != 0 {
			c.Failf("state/get", "%s: getState returned %d", ex, r)
			return
		}
		o := open(g.cls.CID)
		if o == nil {
			c.Failf("factory/create", "second createInstance failed")
			return
		}
		h := &rig{sess: o}
		stage := c.Rand.IntN(3) // a host may restore before initialize, before setup or while running
		if stage > 0 {
			o.initialize()
		}
		if stage > 1 {
			h.run(c, 48000, 256)
		}
		st.seek(0)
		if r := o.setState(st); r != 0 {
			c.Failf("state/set", "%s: setState (stage %d) returned %d", ex, stage, r)
		}
		same(o, "after setState the value")
		if stage == 0 {
			o.initialize()
		}
		if stage < 2 {
			h.run(c, 48000, 256)
		}
		same(o, "after setState and setupProcessing the value")
		h.end(c)
		c.Distinct(ex, i)
	})
}

func checkParams(c *mon.C, g *rig, ex string) {
	seen := map[uint32]string{}
	byp := 0
	for _, p := range g.params {
		if o, dup := seen[p.id]; dup {
			c.Failf("param/duplicate", "%s: id %d is both %q and %q", ex, p.id, o, p.title)
		}
		seen[p.id] = p.title
		if p.title == "" {
			c.Failf("param/title", "%s: parameter %d has no title", ex, p.id)
		}
		if p.flags&flagBypass != 0 {
			byp++
		}
		if !(p.def >= 0 && p.def <= 1) || p.steps < 0 {
			c.Failf("param/default", "%s: %q default %v, %d steps", ex, p.title, p.def, p.steps)
		}
		c.Evals(1)
		if p.flags&flagReadOnly == 0 {
			if v := g.get(p.id); v != p.def {
				c.Failf("param/initial", "%s: %q starts at %v, its default is %v", ex, p.title, v, p.def)
			}
		}
		for k := 0; k < 12; k++ {
			v := c.Rand.Float64()
			switch k {
			case 0:
				v = 0
			case 1:
				v = 1
			case 2:
				v = p.def
			}
			pl := g.plain(p.id, v)
			back := g.normOf(p.id, pl)
			if p.steps == 0 && !near(back, v, 1e-9) {
				c.Failf("param/inverse", "%s: %q %v -> %v -> %v", ex, p.title, v, pl, back)
			}
			t, r := g.text(p.id, v)
			if r != 0 || t == "" {
				c.Failf("param/text", "%s: %q at %v: %q (%d)", ex, p.title, v, t, r)
				continue
			}
			if n, r := g.parse(p.id, t); r == 0 {
				if !(n >= 0 && n <= 1) {
					c.Failf("param/parse-range", "%s: %q: %q parses to %v", ex, p.title, t, n)
					continue
				}
				// the displayed text stands for the displayed value: entering it shows it again, or stays within two percent
				// of the range (signed zeros, lower ends shown as minus infinity)
				if t2, _ := g.text(p.id, n); t2 != t && !near(n, v, 0.02) {
					c.Failf("param/roundtrip/"+p.title, "%s: %q displays %q at %v; entering that gives %v, displayed %q", ex, p.title, t, v, n, t2)
				}
				c.Count("texts_parsed_back", 1)
			} else {
				c.Count("texts_refused", 1)
				c.Sample("refused", ex+": "+p.title+": "+t)
			}
			if p.flags&flagReadOnly == 0 {
				if r := g.set(p.id, v); r != 0 || g.get(p.id) != v && p.steps == 0 {
					c.Failf("param/set", "%s: %q set to %v (%d) reads %v", ex, p.title, v, r, g.get(p.id))
				}
			}
		}
	}
	if byp > 1 {
		c.Failf("param/bypass", "%s: %d bypass parameters", ex, byp)
	}
}

func checkBuses(c *mon.C, g *rig, ex string) {
	if len(g.out) == 0 {
		c.Failf("bus/none", "%s has no audio output", ex)
	}
	for dir := 0; dir < 2; dir++ {
		for i := 0; i < g.busCount(0, dir); i++ {
			b, r := g.busInfo(0, dir, i)
			if r != 0 || b.channels < 1 || b.channels > 64 || b.name == "" {
				c.Failf("bus/info", "%s: bus %d/%d: %+v (%d)", ex, dir, i, b, r)
			}
			if i == 0 && b.typ != 0 {
				c.Failf("bus/main", "%s: first bus of direction %d is not a main bus", ex, dir)
			}
			a, r := g.arrangement(dir, i)
			n := 0
			for ; a != 0; a &= a - 1 {
				n++
			}
			if r != 0 || n != b.channels {
				c.Failf("bus/arrangement", "%s: bus %d/%d has %d channels, its arrangement %d speakers (%d)", ex, dir, i, b.channels, n, r)
			}
		}
	}
}
