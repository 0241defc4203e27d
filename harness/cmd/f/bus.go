package main

import (
	"fmt"
	"math/rand/v2"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"verif/harness/mon"
)

type lists struct{ audio, event []bus.Info }

func (l lists) clone() lists {
	return lists{append([]bus.Info(nil), l.audio...), append([]bus.Info(nil), l.event...)}
}

func (l lists) pick(m bus.MediaType, d bus.Direction) []*bus.Info {
	var src []bus.Info
	switch m {
	case bus.MediaTypeAudio:
		src = l.audio
	case bus.MediaTypeEvent:
		src = l.event
	}
	var out []*bus.Info
	for i := range src {
		if src[i].Direction == d {
			out = append(out, &src[i])
		}
	}
	return out
}

func (l lists) valid() bool {
	main := false
	for _, b := range append(append([]bus.Info(nil), l.audio...), l.event...) {
		if b.Direction == bus.DirectionOutput && b.BusType == bus.TypeMain {
			main = true
		}
	}
	for _, b := range l.audio {
		if b.ChannelCount < 1 || b.ChannelCount > 32 {
			return false
		}
	}
	return main
}

func randMedia(r *rand.Rand) bus.MediaType {
	return mon.Pick(r, bus.MediaTypeAudio, bus.MediaTypeAudio, bus.MediaTypeEvent, bus.MediaType(2), bus.MediaType(-1))
}
func randDir(r *rand.Rand) bus.Direction {
	return mon.Pick(r, bus.DirectionInput, bus.DirectionInput, bus.DirectionOutput, bus.DirectionOutput, bus.Direction(2))
}

// checkConfig compares every query of a configuration with the model.
func checkConfig(c *mon.C, cfg *bus.Configuration, l lists, where string) {
	for _, m := range []bus.MediaType{bus.MediaTypeAudio, bus.MediaTypeEvent, 2, -1, 1 << 20} {
		for _, d := range []bus.Direction{bus.DirectionInput, bus.DirectionOutput, 2, -1} {
			want := l.pick(m, d)
			c.Evals(1)
			if n := cfg.GetBusCount(m, d); n != int32(len(want)) {
				c.Failf("count", "%s: GetBusCount(%d,%d)=%d want %d", where, m, d, n, len(want))
				return
			}
			for _, i := range []int32{-1, int32(len(want)), int32(len(want)) + 1, 1 << 30, -1 << 31} {
				if in := cfg.GetBusInfo(m, d, i); in != nil {
					c.Failf("info-extra", "%s: GetBusInfo(%d,%d,%d) = %+v, there are %d", where, m, d, i, *in, len(want))
				}
			}
			var act []bus.Info
			for i, w := range want {
				in := cfg.GetBusInfo(m, d, int32(i))
				if in == nil || *in != *w {
					c.Failf("info", "%s: GetBusInfo(%d,%d,%d) = %+v want %+v", where, m, d, i, in, *w)
					return
				}
				if w.IsActive {
					act = append(act, *w)
				}
			}
			got := cfg.GetActiveBuses(m, d)
			if fmt.Sprint(got) != fmt.Sprint(act) {
				c.Failf("active-list", "%s: GetActiveBuses(%d,%d) = %+v want %+v", where, m, d, got, act)
			}
		}
	}
	var in, out int32
	var side *bus.Info
	for i := range l.audio {
		b := &l.audio[i]
		if b.IsActive && b.Direction == bus.DirectionInput {
			in += b.ChannelCount
		}
		if b.IsActive && b.Direction == bus.DirectionOutput {
			out += b.ChannelCount
		}
		if side == nil && b.Direction == bus.DirectionInput && b.BusType == bus.TypeAux {
			side = b
		}
	}
	if g := cfg.GetActiveInputChannelCount(); g != in {
		c.Failf("active-in", "%s: active input channels %d want %d", where, g, in)
	}
	if g := cfg.GetActiveOutputChannelCount(); g != out {
		c.Failf("active-out", "%s: active output channels %d want %d", where, g, out)
	}
	if cfg.HasSidechain() != (side != nil) {
		c.Failf("sidechain", "%s: HasSidechain %v want %v", where, cfg.HasSidechain(), side != nil)
	}
	g := cfg.GetSidechainBus()
	if (g == nil) != (side == nil) || (g != nil && *g != *side) {
		c.Failf("sidechain", "%s: GetSidechainBus %+v want %+v", where, g, side)
	}
}

func info(m bus.MediaType, d bus.Direction, n int32, name string, t bus.Type) bus.Info {
	return bus.Info{MediaType: m, Direction: d, ChannelCount: n, Name: name, BusType: t, IsActive: t == bus.TypeMain}
}

func f01(r *mon.Run) {
	A, E, I, O, M, X := bus.MediaTypeAudio, bus.MediaTypeEvent, bus.DirectionInput, bus.DirectionOutput, bus.TypeMain, bus.TypeAux
	r.Par("build", r.N(400, 3000), func(c *mon.C, _ int) {
		q := c.Rand
		b := bus.NewBuilder()
		var l lists
		errs := 0
		type built struct {
			cfg *bus.Configuration
			l   lists
		}
		var done []built
		nops := 1 + q.IntN(14)
		hist := ""
		for k := 0; k < nops; k++ {
			name := fmt.Sprintf("Bus %d", q.IntN(1000))
			n := mon.Pick(q, int32(1), 2, 2, 4, 6, 31, 32, int32(q.IntN(32)+1))
			if q.IntN(40) == 0 {
				n = mon.Pick(q, int32(0), -1, 33, 1<<31-1, -1<<31)
			}
			addA := func(i bus.Info) { l.audio = append(l.audio, i) }
			addE := func(i bus.Info) { l.event = append(l.event, i) }
			ret := b
			op := q.IntN(17)
			switch op {
			case 0:
				ret = b.WithAudioInput(name, n)
				addA(info(A, I, n, name, M))
			case 1:
				ret = b.WithAudioOutput(name, n)
				addA(info(A, O, n, name, M))
			case 2:
				ret = b.WithAuxInput(name, n)
				addA(info(A, I, n, name, X))
			case 3:
				ret = b.WithAuxOutput(name, n)
				addA(info(A, O, n, name, X))
			case 4:
				ret = b.WithEventInput(name)
				addE(info(E, I, 1, name, M))
			case 5:
				ret = b.WithEventOutput(name)
				addE(info(E, O, 1, name, M))
			case 6:
				ret = b.WithStereoInput(name)
				addA(info(A, I, 2, name, M))
			case 7:
				ret = b.WithStereoOutput(name)
				addA(info(A, O, 2, name, M))
			case 8:
				ret = b.WithMonoInput(name)
				addA(info(A, I, 1, name, M))
			case 9:
				ret = b.WithMonoOutput(name)
				addA(info(A, O, 1, name, M))
			case 10:
				ret = b.WithSidechain(name)
				addA(info(A, I, 2, name, X))
			case 11:
				if q.IntN(2) == 0 {
					ret = b.WithQuadInput(name)
					addA(info(A, I, 4, name, M))
				} else {
					ret = b.WithQuadOutput(name)
					addA(info(A, O, 4, name, M))
				}
			case 12:
				if q.IntN(2) == 0 {
					ret = b.With5_1Input(name)
					addA(info(A, I, 6, name, M))
				} else {
					ret = b.With5_1Output(name)
					addA(info(A, O, 6, name, M))
				}
			case 13:
				if q.IntN(2) == 0 {
					ret = b.With7_1Input(name)
					addA(info(A, I, 8, name, M))
				} else {
					ret = b.With7_1Output(name)
					addA(info(A, O, 8, name, M))
				}
			case 14, 15:
				m, d := randMedia(q), randDir(q)
				p := l.pick(m, d)
				i := int32(q.IntN(len(p) + 1))
				if i == int32(len(p)) && q.IntN(3) != 0 { // mostly existing buses
					i--
				}
				act := q.IntN(2) == 0
				if i < 0 && q.IntN(4) != 0 {
					continue
				}
				ret = b.SetBusActive(m, d, i, act)
				if i >= 0 && i < int32(len(p)) {
					p[i].IsActive = act
				} else {
					errs++
				}
			case 16:
				cfg, err := b.Build()
				ok := errs == 0 && l.valid()
				c.Count("mid-builds", 1)
				if (err == nil) != ok || (cfg != nil) != ok {
					c.Failf("build-verdict", "%s: Build err=%v, model valid=%v (errors %d) %+v", hist, err, ok, errs, l)
					return
				}
				if cfg != nil {
					done = append(done, built{cfg, l.clone()})
				}
			}
			hist += fmt.Sprintf("%d,", op)
			if ret != b {
				c.Failf("fluent", "a builder call returned another builder")
				return
			}
		}
		ok := errs == 0 && l.valid()
		if (b.Validate() == nil) != ok {
			c.Failf("validate", "%s: Validate=%v, model valid=%v errors %d %+v", hist, b.Validate(), ok, errs, l)
		}
		cfg, err := b.Build()
		if (err == nil) != ok {
			c.Failf("build-verdict", "%s: Build err=%v, model valid=%v errors %d", hist, err, ok, errs)
			return
		}
		p := mon.Try(func() { b.MustBuild() })
		if (p == nil) != ok {
			c.Failf("mustbuild", "%s: MustBuild panic=%v, model valid=%v", hist, p, ok)
		}
		if cfg != nil {
			c.Count("valid", 1)
			done = append(done, built{cfg, l.clone()})
		}
		c.Distinct(hist, len(done))
		c.Sample("builder ops", hist)
		// every configuration ever built stays what it was when built, whatever happens to
		// the builder and to the other configurations
		for i := range done {
			checkConfig(c, done[i].cfg, done[i].l, hist+"after building")
			for k := q.IntN(10); k > 0; k-- {
				m, d := randMedia(q), randDir(q)
				p := done[i].l.pick(m, d)
				ix := int32(q.IntN(len(p)+2)) - 1
				act := q.IntN(2) == 0
				if q.IntN(4) == 0 {
					dd := mon.Pick(q, I, O)
					done[i].cfg.AddEventBus(dd, "ev")
					done[i].l.event = append(done[i].l.event, info(E, dd, 1, "ev", M))
				}
				p = done[i].l.pick(m, d)
				err := done[i].cfg.SetBusActive(m, d, ix, act)
				have := ix >= 0 && ix < int32(len(p))
				if (err == nil) != have {
					c.Failf("setactive", "SetBusActive(%d,%d,%d) err=%v, bus exists=%v", m, d, ix, err, have)
					return
				}
				if have {
					p[ix].IsActive = act
				}
				if q.IntN(3) == 0 { // lists handed out are the caller's
					for _, x := range done[i].cfg.GetActiveBuses(A, I) {
						x.ChannelCount = 99
					}
					if g := done[i].cfg.GetActiveBuses(A, O); len(g) > 0 {
						g[0].Name = "changed"
					}
				}
			}
		}
		for i := range done {
			checkConfig(c, done[i].cfg, done[i].l, hist+"after all changes")
		}
	})
	r.Case("templates", func(c *mon.C) {
		in := func(n int32, name string) bus.Info { return info(A, I, n, name, M) }
		out := func(n int32, name string) bus.Info { return info(A, O, n, name, M) }
		sort := func(x lists) lists { return x }
		type tpl struct {
			name string
			f    func() *bus.Configuration
			l    lists
		}
		fixed := []tpl{
			{"NewStereoConfiguration", bus.NewStereoConfiguration, lists{audio: []bus.Info{in(2, "Stereo In"), out(2, "Stereo Out")}}},
			{"NewMonoConfiguration", bus.NewMonoConfiguration, lists{audio: []bus.Info{in(1, "Mono In"), out(1, "Mono Out")}}},
			{"NewEffectStereo", bus.NewEffectStereo, lists{audio: []bus.Info{in(2, "Stereo In"), out(2, "Stereo Out")}}},
			{"NewEffectMono", bus.NewEffectMono, lists{audio: []bus.Info{in(1, "Mono In"), out(1, "Mono Out")}}},
			{"NewEffectStereoSidechain", bus.NewEffectStereoSidechain, lists{audio: []bus.Info{in(2, "Stereo In"), out(2, "Stereo Out"), info(A, I, 2, "Sidechain In", X)}}},
			{"NewMonoToStereo", bus.NewMonoToStereo, lists{audio: []bus.Info{in(1, "Mono In"), out(2, "Stereo Out")}}},
			{"NewStereoToMono", bus.NewStereoToMono, lists{audio: []bus.Info{in(2, "Stereo In"), out(1, "Mono Out")}}},
			{"NewDualMono", bus.NewDualMono, lists{audio: []bus.Info{in(1, "Left In"), in(1, "Right In"), out(1, "Left Out"), out(1, "Right Out")}}},
			{"NewMidSideProcessor", bus.NewMidSideProcessor, lists{audio: []bus.Info{in(2, "Stereo In"), out(2, "Stereo Out"), info(A, O, 1, "Mid", X), info(A, O, 1, "Side", X)}}},
			{"NewSurroundPanner", bus.NewSurroundPanner, lists{audio: []bus.Info{in(2, "Stereo In"), out(6, "5.1 Out")}}},
			{"NewSurround5_1Effect", bus.NewSurround5_1Effect, lists{audio: []bus.Info{in(6, "5.1 In"), out(6, "5.1 Out")}}},
			{"NewSurround7_1Effect", bus.NewSurround7_1Effect, lists{audio: []bus.Info{in(8, "7.1 In"), out(8, "7.1 Out")}}},
			{"NewAnalyzer", bus.NewAnalyzer, lists{audio: []bus.Info{in(2, "Analysis In"), out(2, "Thru Out")}}},
			{"NewGenerator", bus.NewGenerator, lists{audio: []bus.Info{out(2, "Stereo Out")}, event: []bus.Info{info(E, I, 1, "MIDI In", M)}}},
			{"NewMIDIEffect", bus.NewMIDIEffect, lists{event: []bus.Info{info(E, I, 1, "MIDI In", M), info(E, O, 1, "MIDI Out", M)}}},
			{"NewVocoder", bus.NewVocoder, lists{audio: []bus.Info{in(1, "Voice In"), out(1, "Vocoded Out"), info(A, I, 2, "Carrier In", X)}}},
		}
		for n := 0; n <= 40; n++ {
			mix := lists{audio: []bus.Info{in(2, "Channel In"), out(2, "Main Out")}}
			cro := lists{audio: []bus.Info{in(2, "Stereo In")}}
			spl := lists{audio: []bus.Info{in(2, "Input")}}
			for i := 1; i <= n; i++ {
				mix.audio = append(mix.audio, info(A, O, 2, fmt.Sprintf("Send %d", i), X))
				cro.audio = append(cro.audio, info(A, O, 2, fmt.Sprintf("Band %d", i), X))
				spl.audio = append(spl.audio, out(2, fmt.Sprintf("Output %d", i)))
			}
			cro.audio = append(cro.audio, out(2, "Main Out"))
			fixed = append(fixed, tpl{fmt.Sprintf("NewMixerChannel(%d)", n), func() *bus.Configuration { return bus.NewMixerChannel(n) }, mix},
				tpl{fmt.Sprintf("NewCrossover(%d)", n), func() *bus.Configuration { return bus.NewCrossover(n) }, cro})
			if n > 0 {
				fixed = append(fixed, tpl{fmt.Sprintf("NewSplitter(%d)", n), func() *bus.Configuration { return bus.NewSplitter(n) }, spl})
			}
			if n > 0 && n <= 32 {
				fixed = append(fixed, tpl{fmt.Sprintf("NewMultiChannelEffect(%d)", n), func() *bus.Configuration { return bus.NewMultiChannelEffect(int32(n)) },
					lists{audio: []bus.Info{in(int32(n), "Multi In"), out(int32(n), "Multi Out")}}})
			}
		}
		for _, t := range fixed {
			c.Distinct(t.name)
			a := t.f()
			checkTemplate(c, a, sort(t.l), t.name)
			// two configurations from one template are independent
			b := t.f()
			_ = a.SetBusActive(A, O, 0, false)
			_ = a.SetBusActive(E, O, 0, false)
			a.AddEventBus(I, "extra")
			checkTemplate(c, b, t.l, t.name+" (second)")
		}
	})
}

// checkTemplate compares layouts per media type and direction, leaving bus names to the
// template except that they must be there.
func checkTemplate(c *mon.C, cfg *bus.Configuration, l lists, name string) {
	for _, m := range []bus.MediaType{bus.MediaTypeAudio, bus.MediaTypeEvent} {
		for _, d := range []bus.Direction{bus.DirectionInput, bus.DirectionOutput} {
			want := l.pick(m, d)
			c.Evals(1)
			if n := cfg.GetBusCount(m, d); n != int32(len(want)) {
				c.Failf("template", "%s: %d buses of media %d direction %d, want %d", name, n, m, d, len(want))
				continue
			}
			names := map[string]int{}
			for i, w := range want {
				g := cfg.GetBusInfo(m, d, int32(i))
				if g != nil {
					if j, dup := names[g.Name]; dup {
						c.Failf("template-names", "%s: buses %d and %d of one direction are both called %q", name, j, i, g.Name)
					}
					names[g.Name] = i
				}
				if g == nil || g.ChannelCount != w.ChannelCount || g.BusType != w.BusType || g.IsActive != w.IsActive || g.MediaType != m || g.Direction != d || g.Name == "" {
					c.Failf("template", "%s: bus %d/%d/%d = %+v want %+v", name, m, d, i, g, *w)
				}
			}
		}
	}
}
