package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"verif/harness/mon"
)

func b01(r *mon.Run) {
	r.Par("list", r.N(1500, 40000), func(c *mon.C, i int) {
		reg := param.NewRegistry()
		for k := 0; k < 6; k++ {
			reg.Add(param.New(uint32(k), "p").Range(-5, 5).Build())
		}
		ctx := process.NewContext(512, reg)
		for block := 0; block < 4; block++ {
			n := c.Rand.IntN(20)
			if c.Rand.IntN(4) == 0 {
				n = c.Rand.IntN(300)
			}
			if i%200 == 7 {
				n = c.Rand.IntN(12000)
			}
			span := mon.Pick(c.Rand, 1+c.Rand.IntN(512), 1+c.Rand.IntN(512), 1, 1+c.Rand.IntN(1<<20))
			var model []process.ParameterChange
			seq := 0
			for k := 0; k < n; k++ {
				seq++
				ch := process.ParameterChange{ParamID: uint32(c.Rand.IntN(7)), Value: float64(seq) / 16384, SampleOffset: c.Rand.IntN(span)}
				if len(model) > 0 && c.Rand.IntN(6) == 0 { // a value, or a whole point, repeated
					last := model[len(model)-1]
					ch.ParamID, ch.Value = last.ParamID, last.Value
					if c.Rand.IntN(2) == 0 {
						ch = last
					}
					c.Count("repeated_points", 1)
				}
				ctx.AddParameterChange(ch.ParamID, ch.Value, ch.SampleOffset)
				model = append(model, ch)
				if k == 128 {
					c.Count("beyond_preallocated_space", 1)
				}
				if c.Rand.IntN(40) == 0 { // sorting twice and mid-way is harmless
					ctx.SortParameterChanges()
					sort.SliceStable(model, func(a, b int) bool { return model[a].SampleOffset < model[b].SampleOffset })
				}
			}
			if ctx.HasParameterChanges() != (n > 0) {
				c.Failf("B01/has", "HasParameterChanges=%v with %d changes", ctx.HasParameterChanges(), n)
			}
			got := ctx.GetParameterChanges()
			// collected so far, unsorted or partly sorted: same multiset
			ctx.SortParameterChanges()
			sort.SliceStable(model, func(a, b int) bool { return model[a].SampleOffset < model[b].SampleOffset })
			got = ctx.GetParameterChanges()
			if len(got) != len(model) {
				c.Failf("B01/count", "%d points delivered, %d added", len(got), len(model))
			} else {
				for k := range got {
					if got[k] != model[k] {
						c.Failf("B01/order", "position %d of %d: delivered %+v, expected %+v (same offset must keep the order of arrival)", k, n, got[k], model[k])
						break
					}
				}
			}
			// applying the delivered points leaves every parameter at its last value
			last := map[uint32]float64{}
			before := map[uint32]float64{}
			for k := uint32(0); k < 6; k++ {
				before[k] = reg.Get(k).GetValue()
			}
			for _, g := range got {
				ctx.ApplyParameterChange(g)
				last[g.ParamID] = g.Value
			}
			for k := uint32(0); k < 6; k++ {
				w, ok := last[k]
				if !ok {
					w = before[k]
				}
				if v := reg.Get(k).GetValue(); v != w {
					c.Failf("B01/apply", "parameter %d ends at %v, last point %v", k, v, w)
				}
				if ctx.Param(k) != w || !mon.Close(ctx.ParamPlain(k), -5+10*w, 1e-9, 1e-9) {
					c.Failf("B01/read", "context reads parameter %d as %v/%v, value %v", k, ctx.Param(k), ctx.ParamPlain(k), w)
				}
			}
			if ctx.Param(99) != 0 || ctx.ParamPlain(99) != 0 {
				c.Failf("B01/unknown", "unknown parameter reads non-zero")
			}
			if n > 1 {
				c.Distinct(fmt.Sprint(model))
			}
			c.Count("points", n)
			if i < 1 && block == 0 {
				c.Sample("points", fmt.Sprint(model))
			}
			ctx.ResetParameterChanges()
			if ctx.HasParameterChanges() || len(ctx.GetParameterChanges()) != 0 {
				c.Failf("B01/reset", "changes survive the block reset")
			}
		}
		c.Evals(4)
	})
}

func mkChans(nch, n int, base float32) [][]float32 {
	out := make([][]float32, nch)
	for ch := range out {
		out[ch] = make([]float32, n)
		for k := range out[ch] {
			out[ch][k] = base + float32(ch*10000+k)
		}
	}
	return out
}

func clone(x [][]float32) [][]float32 {
	o := make([][]float32, len(x))
	for i := range x {
		o[i] = append([]float32(nil), x[i]...)
	}
	return o
}

func same(a, b [][]float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for k := range a[i] {
			if a[i][k] != b[i][k] {
				return false
			}
		}
	}
	return true
}

func b02(r *mon.Run) {
	r.Par("shape", r.N(1500, 40000), func(c *mon.C, i int) {
		maxB := 1 + c.Rand.IntN(600)
		if i%25 == 3 {
			maxB = 1 + c.Rand.IntN(40000)
		}
		n := c.Rand.IntN(maxB + 1)
		ni, no := c.Rand.IntN(9), c.Rand.IntN(9)
		if i%20 == 5 {
			ni, no = c.Rand.IntN(70), c.Rand.IntN(70)
		}
		ctx := process.NewContext(maxB, param.NewRegistry())
		ctx.SampleRate = 48000
		in, out := mkChans(ni, n, 1), mkChans(no, n, 500000)
		ctx.Input, ctx.Output = in, out
		mn := min(ni, no)
		in0, out0 := clone(in), clone(out)
		wantN := 0
		if ni > 0 || no > 0 {
			wantN = n
		}
		fail := func(what, f string, a ...any) {
			c.Failf("B02/"+what, "in=%d out=%d block=%d max=%d: %s", ni, no, n, maxB, fmt.Sprintf(f, a...))
		}
		if ctx.NumSamples() != wantN || ctx.NumInputChannels() != ni || ctx.NumOutputChannels() != no || ctx.GetNumChannels() != mn || ctx.GetNumStereoChannels() != min(mn, 2) {
			fail("counts", "NumSamples=%d in=%d out=%d num=%d stereo=%d", ctx.NumSamples(), ctx.NumInputChannels(), ctx.NumOutputChannels(), ctx.GetNumChannels(), ctx.GetNumStereoChannels())
		}
		w, t := ctx.WorkBuffer(), ctx.TempBuffer()
		if len(w) != wantN || len(t) != wantN {
			fail("work", "work %d temp %d", len(w), len(t))
		}
		for k := range w {
			w[k], t[k] = 1, 2
		}
		for k := range w {
			if w[k] != 1 || t[k] != 2 {
				fail("work-alias", "work and temp buffers share memory")
				break
			}
		}
		if !same(in, in0) || !same(out, out0) {
			fail("work-alias-io", "work buffers share memory with audio")
		}
		expect := func(what string, model [][]float32) {
			if !same(out, model) {
				fail(what, "output differs from the reference")
			}
			if !same(in, in0) {
				fail(what+"-input", "input modified")
			}
			copyInto(out, out0)
		}
		model := clone(out0)
		for ch := 0; ch < mn; ch++ {
			copy(model[ch], in0[ch])
		}
		ctx.PassThrough()
		expect("passthrough", model)
		ctx.CopyInputToOutput()
		expect("copy", model)
		ctx.Clear()
		z := clone(out0)
		for ch := range z {
			for k := range z[ch] {
				z[ch][k] = 0
			}
		}
		expect("clear", z)
		sparse := clone(z) // sounds that are mostly silence
		for ch := range sparse {
			if n > 0 && c.Rand.IntN(3) > 0 {
				sparse[ch][c.Rand.IntN(n)] = mon.Pick(c.Rand, float32(1), -1, 1e-30)
			}
		}
		copyInto(out, sparse)
		ctx.Clear()
		expect("clear", z)
		var visited []int
		gain := func(ch int, a, b []float32) {
			visited = append(visited, ch)
			for k := range b {
				b[k] = a[k]*2 + float32(ch)
			}
		}
		gm := func(lim int) [][]float32 {
			m := clone(out0)
			for ch := 0; ch < min(mn, lim); ch++ {
				for k := range m[ch] {
					m[ch][k] = in0[ch][k]*2 + float32(ch)
				}
			}
			return m
		}
		chk := func(what string, lim int) {
			if len(visited) != min(mn, lim) {
				fail(what+"-visits", "visited %v", visited)
			}
			for q, v := range visited {
				if v != q {
					fail(what+"-visits", "visited %v", visited)
				}
			}
			visited = nil
			expect(what, gm(lim))
		}
		ctx.ProcessChannels(gain)
		chk("channels", 99)
		ctx.ProcessStereo(gain)
		chk("stereo", 2)
		ctx.ProcessMono(func(a, b []float32) { gain(0, a, b) })
		chk("mono", 1)
		var fns []func(a, b []float32)
		nf := c.Rand.IntN(10)
		for q := 0; q < nf; q++ {
			fns = append(fns, func(a, b []float32) { gain(q, a, b) })
		}
		ctx.ProcessChannelsSeparately(fns...)
		chk("separately", nf)
		if mn > 0 {
			next := 0
			ctx.ProcessSamples(func(s int, a, b []float32) {
				if s != next || len(a) != mn || len(b) != mn {
					fail("samples-visits", "sample %d (expected %d), %d/%d channels", s, next, len(a), len(b))
				}
				next++
				for ch := range b {
					if a[ch] != in0[ch][s] {
						fail("samples-input", "sample %d channel %d reads %g, input %g", s, ch, a[ch], in0[ch][s])
					}
					b[ch] = a[ch]*2 + float32(ch)
				}
			})
			if next != n {
				fail("samples-visits", "%d samples visited", next)
			}
			expect("samples", gm(99))
		}
		// in place
		if mn > 0 {
			ctx.Output = ctx.Input
			ctx.PassThrough()
			if !same(in, in0) {
				fail("inplace", "in-place pass-through changed the audio")
			}
			ctx.Output = out
		}
		c.Distinct(ni, no, n)
		c.Evals(8)

		// multi-bus
		mk := func(base float32) ([]process.BusBuffers, []*bus.Info) {
			var bs []process.BusBuffers
			var infos []*bus.Info
			for k := mon.Pick(c.Rand, c.Rand.IntN(4), c.Rand.IntN(4), c.Rand.IntN(4), c.Rand.IntN(20)); k > 0; k-- {
				inf := &bus.Info{BusType: mon.Pick(c.Rand, bus.TypeMain, bus.TypeAux), IsActive: c.Rand.IntN(3) > 0}
				bs = append(bs, process.BusBuffers{Channels: mkChans(c.Rand.IntN(4), n, base+float32(100*k)), BusInfo: inf})
				infos = append(infos, inf)
			}
			return bs, infos
		}
		m := process.NewMultiBusContext(ctx, nil)
		m.InputBuses, _ = mk(0)
		m.OutputBuses, _ = mk(300000)
		if i%5 == 3 { // buses whose buffers differ in length from one another
			for side, bs := range [][]process.BusBuffers{m.InputBuses, m.OutputBuses} {
				for k := range bs {
					bs[k].Channels = mkChans(len(bs[k].Channels), c.Rand.IntN(2*n+2), float32(300000*side+100*k+7))
				}
			}
		}
		first := func(bs []process.BusBuffers, t bus.Type) [][]float32 {
			for _, b := range bs {
				if b.BusInfo.BusType == t {
					return b.Channels
				}
			}
			return nil
		}
		if !ptrEq(m.GetMainInput(), first(m.InputBuses, bus.TypeMain)) || !ptrEq(m.GetMainOutput(), first(m.OutputBuses, bus.TypeMain)) ||
			!ptrEq(m.GetSidechainInput(), first(m.InputBuses, bus.TypeAux)) {
			fail("multibus-main", "main/sidechain lookup wrong")
		}
		if m.NumInputBuses() != len(m.InputBuses) || m.NumOutputBuses() != len(m.OutputBuses) {
			fail("multibus-num", "bus counts wrong")
		}
		for k := -1; k < 22; k++ {
			var w, o [][]float32
			var wi, oi *bus.Info
			if k >= 0 && k < len(m.InputBuses) {
				w, wi = m.InputBuses[k].Channels, m.InputBuses[k].BusInfo
			}
			if k >= 0 && k < len(m.OutputBuses) {
				o, oi = m.OutputBuses[k].Channels, m.OutputBuses[k].BusInfo
			}
			if !ptrEq(m.GetInputBus(k), w) || m.GetInputBusInfo(k) != wi || !ptrEq(m.GetOutputBus(k), o) || m.GetOutputBusInfo(k) != oi {
				fail("multibus-get", "bus %d lookup wrong", k)
			}
		}
		visit := func(bs []process.BusBuffers, run func(func(int, [][]float32, *bus.Info))) {
			var got, want []int
			run(func(ix int, ch [][]float32, inf *bus.Info) {
				got = append(got, ix)
				if inf != bs[ix].BusInfo || !ptrEq(ch, bs[ix].Channels) {
					fail("multibus-visit", "bus %d visited with the wrong buffers", ix)
				}
			})
			for k, b := range bs {
				if b.BusInfo.IsActive {
					want = append(want, k)
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				fail("multibus-visit", "visited %v, active %v", got, want)
			}
		}
		visit(m.InputBuses, m.ProcessInputBuses)
		visit(m.OutputBuses, m.ProcessOutputBuses)
		called := 0
		m.ProcessMainBuses(func(a, b [][]float32) {
			called++
			if !ptrEq(a, m.GetMainInput()) || !ptrEq(b, m.GetMainOutput()) {
				fail("multibus-mainfn", "wrong buffers")
			}
		})
		m.ProcessWithSidechain(func(a, s, b [][]float32) {
			called++
			if !ptrEq(a, m.GetMainInput()) || !ptrEq(b, m.GetMainOutput()) || !ptrEq(s, m.GetSidechainInput()) {
				fail("multibus-scfn", "wrong buffers")
			}
		})
		wantCalls := 0
		if m.GetMainInput() != nil && m.GetMainOutput() != nil {
			wantCalls = 2
		}
		if called != wantCalls {
			fail("multibus-calls", "%d calls, expected %d", called, wantCalls)
		}
		var mi, mo [][][]float32
		for _, b := range m.InputBuses {
			mi = append(mi, clone(b.Channels))
		}
		for _, b := range m.OutputBuses {
			mo = append(mo, clone(b.Channels))
		}
		for k := 0; k < min(len(mi), len(mo)); k++ {
			for ch := 0; ch < min(len(mi[k]), len(mo[k])); ch++ {
				copy(mo[k][ch], mi[k][ch])
			}
		}
		m.PassThroughAll()
		for k := range mo {
			if !same(m.OutputBuses[k].Channels, mo[k]) {
				fail("multibus-pass", "output bus %d wrong after pass-through", k)
			}
		}
		for k := range mi {
			if !same(m.InputBuses[k].Channels, mi[k]) {
				fail("multibus-pass", "input bus %d modified by pass-through", k)
			}
		}
		m.ClearAllOutputs()
		for k := range mo {
			for _, ch := range m.OutputBuses[k].Channels {
				for _, v := range ch {
					if v != 0 {
						fail("multibus-clear", "output bus %d not cleared", k)
					}
				}
			}
		}
		c.Distinct("mb", len(mi), len(mo), n)
	})
}

func copyInto(dst, src [][]float32) {
	for i := range dst {
		copy(dst[i], src[i])
	}
}

func ptrEq(a, b [][]float32) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	return len(a) == 0 || &a[0] == &b[0]
}

func b03(r *mon.Run) {
	r.Par("pos", r.N(20000, 400000), func(c *mon.C, i int) {
		den := []int32{1, 2, 4, 8, 16, 32}[c.Rand.IntN(6)]
		num := int32(1 + c.Rand.IntN(17))
		pos := 0.0
		switch c.Rand.IntN(4) {
		case 0:
			pos = (c.Rand.Float64()*2 - 1) * 20
		case 1:
			pos = float64(c.Rand.IntN(4000)-1000) * 4 / float64(den) // exactly on a beat
		case 2:
			pos = c.Rand.Float64() * 1e6
		case 3:
			pos = float64(c.Rand.IntN(200)-50) * float64(num) * 4 / float64(den) // exactly on a bar
		}
		q := 4 / float64(den)
		barLen := float64(num) * q
		barStart := math.Floor(pos/barLen) * barLen
		if c.Rand.IntN(8) == 0 {
			barStart += (c.Rand.Float64() - 0.5) * 8 // host-reported bar starts need not agree with the meter
		}
		t := process.TransportInfo{ProjectTimeMusic: pos, BarPositionMusic: barStart, TimeSigNumerator: num, TimeSigDenominator: den,
			HasMusicalTime: c.Rand.IntN(10) > 0, HasTimeSignature: c.Rand.IntN(10) > 0, HasBarPosition: c.Rand.IntN(10) > 0}
		tol := 1e-9 * math.Max(1, math.Abs(pos)*float64(den))
		bars, beats := t.GetBarsBeats()
		if !t.HasMusicalTime || !t.HasTimeSignature {
			if bars != 0 || beats != 0 {
				c.Failf("B03/invalid", "bars/beats %d/%g without valid time", bars, beats)
			}
		} else {
			total := pos / q
			if !(beats >= -tol && beats < float64(num)+tol) {
				c.Failf("B03/beat-range", "position %g in %d/%d: beat %g outside [0,%d)", pos, num, den, beats, num)
			}
			if !(math.Abs(float64(bars)*float64(num)+beats-total) <= tol) {
				c.Failf("B03/recompose", "position %g in %d/%d: %d bars + %g beats = %g, expected %g beats", pos, num, den, bars, beats, float64(bars)*float64(num)+beats, total)
			}
		}
		bp := t.GetBeatPosition()
		if !t.HasMusicalTime || !t.HasBarPosition {
			if bp != 0 {
				c.Failf("B03/invalid-beat", "beat position %g without valid time", bp)
			}
		} else {
			qq := q
			if !t.HasTimeSignature {
				qq = 1
			}
			f := (pos - t.BarPositionMusic) / qq
			if !(bp >= 0 && bp <= 1) {
				c.Failf("B03/phase-range", "position %g, bar start %g in %d/%d: beat phase %g outside [0,1)", pos, t.BarPositionMusic, num, den, bp)
			}
			if d := math.Abs((f - bp) - math.Round(f-bp)); d > tol {
				c.Failf("B03/phase", "position %g, bar start %g in %d/%d: beat phase %g, expected fraction of %g", pos, t.BarPositionMusic, num, den, bp, f)
			}
			th := mon.Pick(c.Rand, 0.001, 0.01, 0.1, 0.4)
			d := math.Abs(f - math.Round(f))
			on := t.IsOnBeat(th)
			if d < th-tol && !on || d > th+tol && on {
				c.Failf("B03/onbeat", "distance %g from a beat, threshold %g: IsOnBeat=%v", d, th, on)
			}
		}
		c.Distinct(pos, num, den)
		t2 := process.TransportInfo{Tempo: mon.Pick(c.Rand, 0, -1, 60, mon.Uni(c.Rand, 1, 999)), HasTempo: c.Rand.IntN(5) > 0}
		sr := mon.Pick(c.Rand, 44100.0, 48000, 96000, 192000)
		s := t2.GetSamplesPerBeat(sr)
		if !t2.HasTempo || t2.Tempo <= 0 {
			if s != 0 {
				c.Failf("B03/tempo-invalid", "samples per beat %g with tempo %g valid=%v", s, t2.Tempo, t2.HasTempo)
			}
		} else if !mon.Close(s*t2.Tempo, 60*sr, 1e-6, 1e-12) {
			c.Failf("B03/tempo", "tempo %g at %g: %g samples per beat", t2.Tempo, sr, s)
		}
	})
	r.Case("degenerate", func(c *mon.C) {
		for _, num := range []int32{0, -1, 4} {
			for _, den := range []int32{0, -4, 4} {
				for _, p := range []float64{0, 1, -1, 1e9} {
					t := process.TransportInfo{ProjectTimeMusic: p, TimeSigNumerator: num, TimeSigDenominator: den, HasMusicalTime: true, HasTimeSignature: true, HasBarPosition: true}
					bars, beats := t.GetBarsBeats()
					if !mon.Fin(beats) || (num <= 0 || den <= 0) && (bars != 0 || beats != 0) {
						c.Failf("B03/degenerate", "%d/%d at %g: %d bars %g beats", num, den, p, bars, beats)
					}
					if b := t.GetBeatPosition(); !(b >= 0 && b <= 1) {
						c.Failf("B03/degenerate-phase", "%d/%d at %g: phase %g", num, den, p, b)
					}
					c.Distinct("deg", num, den, p)
				}
			}
		}
	})
}
