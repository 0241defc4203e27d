package main

// #include "host.h"
import "C"
import (
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"sort"
	"syscall"
	"testing"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/midi"
	"verif/harness/mon"
)

func layout(r *rand.Rand) []int {
	n := r.IntN(5)
	if r.IntN(10) == 0 {
		n = 5 + r.IntN(5)
	}
	var l []int
	for i := 0; i < n; i++ {
		l = append(l, mon.Pick(r, 0, 1, 1, 2, 2, 2, 3, 6, 8, 16, 17, 24))
	}
	switch r.IntN(25) {
	case 0:
		l = append(l, 25+r.IntN(104))
	case 1:
		for i := 10 + r.IntN(60); i > 0; i-- {
			l = append(l, r.IntN(3))
		}
	}
	return l
}

func randCtx(r *rand.Rand) hostCtx {
	h := hostCtx{state: uint32(r.Uint64()), proj: int64(r.IntN(1 << 40)), cont: int64(r.IntN(1 << 40)), music: mon.Uni(r, -10, 1e5), bar: mon.Uni(r, 0, 1e5),
		cycS: mon.Uni(r, 0, 100), cycE: mon.Uni(r, 100, 200), temp: mon.Uni(r, 20, 300), num: int32(1 + r.IntN(15)), den: int32(1 << r.IntN(5)), clock: int32(r.IntN(10000) - 5000)}
	if r.IntN(3) == 0 { // positions at, before and far after the start
		h.proj = mon.Pick(r, 0, -1, -96000, h.proj, 1<<62)
		h.cont = mon.Pick(r, 0, -1, h.cont, 1<<53+1, 1<<62)
		h.music = mon.Pick(r, 0, -4, h.music, 1e12)
		h.bar = mon.Pick(r, 0, -4, h.bar)
		h.cycS, h.cycE = mon.Pick(r, 0, -8, h.cycS), mon.Pick(r, 0, h.cycE, h.cycS)
		h.temp = mon.Pick(r, 0, 1e-3, h.temp, 999)
		h.num, h.den = mon.Pick(r, 0, h.num, 99), mon.Pick(r, 0, h.den, 3)
		h.clock = mon.Pick(r, 0, h.clock, math.MaxInt32, math.MinInt32)
	}
	return h
}

func checkTransport(c *mon.C, t *process.TransportInfo, h hostCtx) {
	bit := func(b uint) bool { return h.state&(1<<b) != 0 }
	flag := func(name string, got bool, b uint) {
		if got != bit(b) {
			c.Failf("transport/"+name, "%s = %v, host state %#x", name, got, h.state)
		}
	}
	flag("playing", t.IsPlaying, 1)
	flag("cycling", t.IsCycling, 2)
	flag("recording", t.IsRecording, 3)
	flag("hasMusicalTime", t.HasMusicalTime, 9)
	flag("hasTempo", t.HasTempo, 10)
	flag("hasBarPosition", t.HasBarPosition, 11)
	flag("hasCycle", t.HasCycle, 12)
	flag("hasTimeSignature", t.HasTimeSignature, 13)
	val := func(name string, b uint, got, want float64) {
		if bit(b) && got != want {
			c.Failf("transport/"+name, "%s = %v, host says %v", name, got, want)
		}
	}
	val("tempo", 10, t.Tempo, h.temp)
	val("projectTimeMusic", 9, t.ProjectTimeMusic, h.music)
	val("barPosition", 11, t.BarPositionMusic, h.bar)
	val("cycleStart", 12, t.CycleStartMusic, h.cycS)
	val("cycleEnd", 12, t.CycleEndMusic, h.cycE)
	val("numerator", 13, float64(t.TimeSigNumerator), float64(h.num))
	val("denominator", 13, float64(t.TimeSigDenominator), float64(h.den))
	val("clock", 15, float64(t.SamplesToNextClock), float64(h.clock))
	if t.ProjectTimeSamples != h.proj {
		c.Failf("transport/projectTimeSamples", "%d, host says %d", t.ProjectTimeSamples, h.proj)
	}
	if bit(17) && t.ContinuousTimeSamples != h.cont {
		c.Failf("transport/continuousTimeSamples", "%d, host says %d", t.ContinuousTimeSamples, h.cont)
	}
}

func h02(r *mon.Run) {
	r.Par("session", r.N(600, 5000), func(c *mon.C, i int) {
		rate := mon.Pick(c.Rand, 8000.0, 44100.0, 48000.0, 96000.0, 192000.0)
		maxB := mon.Pick(c.Rand, 1, 7, 64, 512, 4096, 9000, 16384)
		if i%40 == 7 {
			maxB = mon.Pick(c.Rand, 70000, 140000)
		}
		p := simpleProc()
		s, err := open(p)
		if err != nil {
			c.Failf("open", "%v", err)
			return
		}
		defer s.close()
		if !s.start(rate, maxB) {
			c.Failf("start", "the session did not start at %v Hz, %d samples", rate, maxB)
			return
		}
		var cur *block
		var want [][]float32
		var hc hostCtx
		var withCtx, done bool
		p.onProcess = func(ctx *process.Context) {
			in := flat(cur.in)
			if len(ctx.Input) != len(in) || len(ctx.Output) != len(want) || ctx.NumInputChannels() != len(in) || ctx.NumOutputChannels() != len(want) {
				c.Failf("audio/channels", "%d in, %d out channels; host sent %d and %d", len(ctx.Input), len(ctx.Output), len(in), len(want))
				return
			}
			for ch := range in {
				if len(ctx.Input[ch]) != cur.n {
					c.Failf("audio/length", "input channel %d has %d samples of %d", ch, len(ctx.Input[ch]), cur.n)
					return
				}
				for k := range in[ch] {
					if ctx.Input[ch][k] != in[ch][k] {
						c.Failf("audio/input", "input channel %d sample %d reads %v, host sent %v", ch, k, ctx.Input[ch][k], in[ch][k])
						return
					}
				}
			}
			if (len(in) > 0 || len(want) > 0) && ctx.NumSamples() != cur.n {
				c.Failf("audio/numSamples", "NumSamples %d of %d", ctx.NumSamples(), cur.n)
				return
			}
			if len(ctx.WorkBuffer()) != ctx.NumSamples() || len(ctx.TempBuffer()) != ctx.NumSamples() {
				c.Failf("audio/work", "work buffers of %d/%d for %d samples", len(ctx.WorkBuffer()), len(ctx.TempBuffer()), cur.n)
			}
			if ctx.SampleRate != rate {
				c.Failf("audio/rate", "SampleRate %v, host set %v", ctx.SampleRate, rate)
			}
			if withCtx {
				checkTransport(c, ctx.Transport, hc)
			}
			for ch := range want {
				if len(ctx.Output[ch]) != cur.n {
					c.Failf("audio/length", "output channel %d has %d samples of %d", ch, len(ctx.Output[ch]), cur.n)
					return
				}
				copy(ctx.Output[ch], want[ch])
				if e := ctx.Output[ch][:cap(ctx.Output[ch])]; len(e) > cur.n {
					e[cur.n] = 1 // anything past the block is the host's
				}
			}
			done = true
		}
		for blk := 0; blk < 12; blk++ {
			n := c.Rand.IntN(maxB + 1)
			if c.Rand.IntN(3) == 0 {
				n = maxB
			}
			if n > 2048 && blk > 3 {
				n = 1 + c.Rand.IntN(300)
			}
			if c.Rand.IntN(8) == 0 { // a new setup between blocks; one without a block length keeps the old
				rate = mon.Pick(c.Rand, 11025.0, 44100.0, 88200.0, 384000.0)
				C.a_setProcessing(s.proc, 0)
				if C.a_setup(s.proc, 0, 0, C.int32_t(mon.Pick(c.Rand, maxB, 0, -1)), C.double(rate)) != 0 {
					c.Failf("start", "a new setup failed")
				}
				C.a_setProcessing(s.proc, 1)
			}
			li, lo := layout(c.Rand), layout(c.Rand)
			if n*(len(li)+len(lo)) > 100000 {
				n = min(n, 500)
			}
			if n > 20000 {
				li, lo = []int{2}, []int{1, 2}
			}
			b := newBlock(n, li, lo, c.Rand.IntN(3) == 0)
			if c.Rand.IntN(2) == 0 {
				b.silence(func(k int) uint64 { return mon.Pick(c.Rand, 0, ^uint64(0), c.Rand.Uint64(), 1<<uint(k)-1) })
			}
			cur, done = b, false
			var keep [][]float32
			for _, ch := range flat(b.in) {
				for k := range ch {
					ch[k] = float32(mon.Uni(c.Rand, -2, 2))
				}
				keep = append(keep, append([]float32(nil), ch...))
			}
			want = nil
			for range flat(b.out) {
				w := make([]float32, n)
				for k := range w {
					w[k] = float32(mon.Uni(c.Rand, -1, 1))
				}
				want = append(want, w)
			}
			withCtx = c.Rand.IntN(4) > 0
			if withCtx {
				hc = randCtx(c.Rand)
				b.context(hc)
			}
			if c.Rand.IntN(4) == 0 {
				b.changes(nil)
			}
			if c.Rand.IntN(4) == 0 {
				b.events(nil)
			}
			if res := s.process(b); res != 0 {
				c.Failf("audio/result", "process returned %d for %d samples", res, n)
			}
			if n > 0 && !done {
				c.Failf("audio/not-processed", "the processor never saw a block of %d samples in %d+%d channels", n, len(keep), len(want))
			}
			if done {
				for ch, o := range flat(b.out) {
					for k := range o {
						if o[k] != want[ch][k] {
							c.Failf("audio/output", "host reads %v at channel %d sample %d, processor wrote %v", o[k], ch, k, want[ch][k])
							break
						}
					}
				}
				if len(b.out) == 0 {
					for ch, o := range flat(b.in) {
						for k := range o {
							if o[k] != keep[ch][k] {
								c.Failf("audio/input-written", "input channel %d changed by processing", ch)
								break
							}
						}
					}
				}
			}
			if !b.guardsIntact() {
				c.Failf("audio/guard", "memory around the host's channel buffers was written")
			}
			c.Evals(1)
			c.Count("blocks", 1)
			c.Distinct(len(keep), len(want), n)
			b.close()
		}
		// a session that is not processing leaves the processor alone
		C.a_setProcessing(s.proc, 0)
		before := p.calls.Load()
		b := newBlock(16, []int{2}, []int{2}, false)
		p.onProcess = nil
		s.process(b)
		b.close()
		if p.calls.Load() != before {
			c.Failf("audio/stopped", "the processor ran although processing is off")
		}
	})
	r.Case("alloc", func(c *mon.C) {
		if r.Race || r.Asan {
			return
		}
		for _, lay := range [][]int{{2}, {2, 2}, {6, 2, 1}, {16}} {
			p := simpleProc()
			s, err := open(p)
			if err != nil {
				c.Failf("open", "%v", err)
				return
			}
			s.start(48000, 512)
			b := newBlock(256, lay, lay, false)
			hc := randCtx(c.Rand)
			b.context(hc)
			s.process(b)
			if a := testing.AllocsPerRun(200, func() { s.process(b) }); a >= 1 {
				c.Failf("audio/alloc", "each plain block of %v channels allocates %.1f times", lay, a)
			}
			b.changes([]queue{{id: 1, pts: []point{{3, 0.1, false}, {70, 0.9, false}, {200, 0.4, false}}}})
			s.process(b)
			if a := testing.AllocsPerRun(200, func() { s.process(b) }); a >= 1 {
				c.Failf("audio/alloc-automation", "each automated block of %v channels allocates %.1f times", lay, a)
			}
			b.close()
			s.close()
			c.Evals(400)
			c.Distinct("alloc", fmt.Sprint(lay))
		}
	})
}

func clamp01(v float64) float64 {
	if v != v || v < 0 {
		return 0
	}
	if v > 1 {
		return 1
	}
	return v
}

func stdoutTo() (*os.File, func()) {
	f, err := os.CreateTemp(os.Getenv("MON_TMP"), "stdout")
	if err != nil {
		return nil, func() {}
	}
	save, _ := syscall.Dup(1)
	_ = syscall.Dup2(int(f.Fd()), 1)
	return f, func() { _ = syscall.Dup2(save, 1); syscall.Close(save); os.Remove(f.Name()) }
}

// paramID keeps the identifiers apart, some of them in the upper half of the range
func paramID(k int) uint32 {
	id := uint32(10 + k*3)
	if k%3 == 1 {
		id |= 1 << 31
	}
	return id
}

func paramProc(k int) *monProc {
	reg := param.NewRegistry()
	for i := 0; i < k; i++ {
		reg.Add(param.New(paramID(i), fmt.Sprintf("P%d", i)).Range(-5, 20).Default(float64(i)).Build())
	}
	return &monProc{reg: reg, buses: bus.NewStereoConfiguration()}
}

func sortedOffs(r *rand.Rand, n, k int) []int32 {
	o := make([]int32, k)
	for i := range o {
		switch r.IntN(6) {
		case 0:
			o[i] = 0
		case 1:
			o[i] = int32(n - 1)
		default:
			o[i] = int32(r.IntN(n))
		}
	}
	sort.Slice(o, func(a, b int) bool { return o[a] < o[b] })
	return o
}

func h03(r *mon.Run) {
	f, restore := stdoutTo()
	defer restore()
	r.Par("session", r.N(1500, 20000), func(c *mon.C, i int) {
		k := 1 + c.Rand.IntN(6)
		if i%40 == 11 { // far more parameters than anyone automates at once
			k = 40 + c.Rand.IntN(300)
		}
		p := paramProc(k)
		s, err := open(p)
		if err != nil {
			c.Failf("open", "%v", err)
			return
		}
		defer s.close()
		maxB := mon.Pick(c.Rand, 1, 16, 100, 512, 2048)
		if i%50 == 9 {
			maxB = 80000
		}
		dense := i%40 == 23
		if dense {
			maxB = 4096
		}
		if !s.start(48000, maxB) {
			c.Failf("start", "session did not start")
			return
		}
		var cover []int
		lastEnd := 0
		p.onProcess = func(ctx *process.Context) {
			n := ctx.NumSamples()
			if n == 0 {
				return
			}
			lo := int(ctx.Input[0][0])
			if lo != lastEnd {
				c.Failf("automation/order", "a sub-block starts at %d after one ending at %d", lo, lastEnd)
			}
			for ch := range ctx.Input {
				if len(ctx.Input[ch]) != n {
					c.Failf("automation/ragged", "input channels of %d and %d samples", n, len(ctx.Input[ch]))
				}
			}
			for j, v := range ctx.Input[0] {
				if q := lo + j; int(v) != q || q >= len(cover) {
					c.Failf("automation/slice", "sub-block at %d shows sample %v at %d", lo, v, j)
					return
				}
				cover[lo+j]++
			}
			lastEnd = lo + n
			if len(ctx.WorkBuffer()) != n {
				c.Failf("automation/work", "work buffer of %d in a sub-block of %d", len(ctx.WorkBuffer()), n)
			}
			for ch := 0; ch < k; ch++ {
				if len(ctx.Output[ch]) != n {
					c.Failf("automation/ragged", "output channel %d of %d samples in a sub-block of %d", ch, len(ctx.Output[ch]), n)
					return
				}
				v := float32(ctx.Param(paramID(ch)))
				for j := range ctx.Output[ch] {
					ctx.Output[ch][j] = v
				}
			}
		}
		cur := make([]float64, k)
		for ch := range cur {
			cur[ch] = p.reg.Get(paramID(ch)).GetValue()
		}
		for blk := 0; blk < 10; blk++ {
			n := 1 + c.Rand.IntN(maxB)
			if c.Rand.IntN(12) == 0 {
				n = 0
			}
			b := newBlock(n, []int{2, 1}, []int{k}, false)
			in := flat(b.in)
			for j := 0; j < n; j++ {
				in[0][j] = float32(j)
			}
			cover, lastEnd = make([]int, n), 0
			hostile := n > 0 && c.Rand.IntN(6) == 0
			many := c.Rand.IntN(8) == 0
			exp := make([][]float64, k)
			for ch := range exp {
				exp[ch] = make([]float64, n)
			}
			var qs []queue
			final := append([]float64(nil), cur...)
			vals := make([][]point, k)
			for ch := 0; ch < k; ch++ {
				if c.Rand.IntN(4) == 0 {
					continue
				}
				np := c.Rand.IntN(8)
				if many {
					np = 20 + c.Rand.IntN(80)
				}
				if dense && c.Rand.IntN(3) == 0 {
					np = 200 + c.Rand.IntN(1200)
				}
				var offs []int32
				if n == 0 {
					offs = make([]int32, min(np, 1)) // past the end: in effect from the end on
					if len(offs) > 0 && c.Rand.IntN(2) == 0 {
						offs[0] = mon.Pick(c.Rand, int32(1), int32(c.Rand.IntN(4096)), math.MaxInt32)
					}
				} else {
					offs = sortedOffs(c.Rand, n, np)
				}
				q := queue{id: paramID(ch), nul: c.Rand.IntN(15) == 0}
				for _, o := range offs {
					v := c.Rand.Float64()
					if c.Rand.IntN(8) == 0 {
						v = mon.Pick(c.Rand, 0.0, 1.0, 1.5, -0.5, math.NaN(), math.Inf(1), math.Inf(-1))
					}
					pt := point{off: o, val: v, fail: c.Rand.IntN(12) == 0}
					if hostile && c.Rand.IntN(3) == 0 {
						pt.off = mon.Pick(c.Rand, int32(-1), int32(n), int32(n+1), math.MinInt32, math.MaxInt32, int32(-n))
					}
					q.pts = append(q.pts, pt)
					if !pt.fail && !q.nul {
						vals[ch] = append(vals[ch], pt)
					}
				}
				qs = append(qs, q)
			}
			for u := c.Rand.IntN(3); u > 0; u-- {
				q := queue{id: mon.Pick(c.Rand, uint32(5000+c.Rand.IntN(50)), paramID(c.Rand.IntN(k))^1<<31, paramID(c.Rand.IntN(k))|1<<16)}
				for _, o := range sortedOffs(c.Rand, max(n, 1), c.Rand.IntN(4)) {
					q.pts = append(q.pts, point{o, c.Rand.Float64(), false})
				}
				qs = append(qs, q)
			}
			c.Rand.Shuffle(len(qs), func(a, b int) { qs[a], qs[b] = qs[b], qs[a] })
			total := 0
			for _, q := range qs {
				total += len(q.pts)
			}
			for ch := 0; ch < k; ch++ {
				v := cur[ch]
				pi := 0
				for j := 0; j < n; j++ {
					for pi < len(vals[ch]) && int(vals[ch][pi].off) <= j {
						v = clamp01(vals[ch][pi].val)
						pi++
					}
					exp[ch][j] = v
				}
				for ; pi < len(vals[ch]); pi++ {
					v = clamp01(vals[ch][pi].val)
				}
				final[ch] = v
			}
			b.changes(qs)
			calls := p.calls.Load()
			if res := s.process(b); res != 0 {
				c.Failf("automation/result", "process returned %d", res)
			}
			calls = p.calls.Load() - calls
			for j := range cover {
				if cover[j] != 1 {
					c.Failf("automation/coverage", "sample %d of %d was processed %d times (%d points)", j, n, cover[j], total)
					break
				}
			}
			if !hostile {
				out := flat(b.out)
			scan:
				for ch := range exp {
					for j := range exp[ch] {
						if out[ch][j] != float32(exp[ch][j]) {
							c.Failf("automation/value", "parameter %d at sample %d of %d reads %v, host automated %v (points %v)", ch, j, n, out[ch][j], exp[ch][j], vals[ch])
							break scan
						}
					}
				}
				for ch := range final {
					if g := float64(C.e_get(s.ctrl, C.uint32_t(paramID(ch)))); g != final[ch] {
						c.Failf("automation/final", "after the block parameter %d is %v, the last point says %v (%d samples, %d points in all)", ch, g, final[ch], n, total)
						break
					}
				}
			}
			for ch := range cur {
				cur[ch] = float64(C.e_get(s.ctrl, C.uint32_t(paramID(ch))))
				if !(cur[ch] >= 0 && cur[ch] <= 1) {
					c.Failf("automation/range", "parameter %d holds %v", ch, cur[ch])
				}
			}
			if !b.guardsIntact() {
				c.Failf("automation/guard", "memory around the host's buffers was written")
			}
			b.close()
			c.Evals(1)
			c.Count("points", total)
			c.Count("sub_blocks", int(calls))
			c.Distinct(n, total, calls)
		}
	})
	if f != nil {
		if st, err := f.Stat(); err == nil && st.Size() > 0 {
			head, _ := os.ReadFile(f.Name())
			if len(head) > 200 {
				head = head[:200]
			}
			r.Case("quiet", func(c *mon.C) {
				c.Failf("automation/prints", "processing wrote %d bytes to standard output: %q", st.Size(), head)
			})
		}
	}
}

type heard struct {
	off            int32
	on             bool
	ch, note, velo uint8
}

type eventSink struct{ to *[]midi.Event }

func (s eventSink) ProcessEvent(e midi.Event) { *s.to = append(*s.to, e) }

func h04(r *mon.Run) {
	r.Par("session", r.N(1500, 20000), func(c *mon.C, i int) {
		p := paramProc(2)
		s, err := open(p)
		if err != nil {
			c.Failf("open", "%v", err)
			return
		}
		defer s.close()
		maxB := mon.Pick(c.Rand, 1, 32, 256, 1024)
		if !s.start(44100, maxB) {
			c.Failf("start", "session did not start")
			return
		}
		style := c.Rand.IntN(5) // 0 leave, 1 clear after reading, 2 ask in two ranges, 3 a range wider than the block, 4 through ProcessEvents
		var got []heard
		fresh := true
		p.onProcess = func(ctx *process.Context) {
			n := int32(ctx.NumSamples())
			if n == 0 {
				return
			}
			if o := ctx.GetOutputEvents(); fresh && len(o) != 0 {
				c.Failf("events/stale-output", "a block starts with %d output events of earlier blocks", len(o))
			}
			fresh = false
			for k := c.Rand.IntN(3); k > 0; k-- {
				ctx.AddOutputEvent(midi.NoteOnEvent{NoteNumber: 60, Velocity: 1})
			}
			lo := int32(ctx.Input[0][0])
			var evs []midi.Event
			switch style {
			case 2:
				mid := n / 2
				evs = append(evs, ctx.GetInputEvents(0, mid)...)
				evs = append(evs, ctx.GetInputEvents(mid, n)...)
			case 3:
				evs = ctx.GetInputEvents(-1<<31, 1<<31-1)
			case 4:
				ctx.ProcessEvents(eventSink{&evs}, -100, n+100)
			default:
				evs = ctx.GetAllInputEvents()
			}
			if ctx.HasInputEvents() != (len(evs) > 0) {
				c.Failf("events/has", "HasInputEvents = %v with %d events", ctx.HasInputEvents(), len(evs))
			}
			for _, e := range evs {
				if e.SampleOffset() < 0 || e.SampleOffset() >= n {
					c.Failf("events/range", "an event at offset %d in a block of %d samples", e.SampleOffset(), n)
				}
				h := heard{off: lo + e.SampleOffset(), ch: e.Channel()}
				switch v := e.(type) {
				case midi.NoteOnEvent:
					h.on, h.note, h.velo = true, v.NoteNumber, v.Velocity
				case midi.NoteOffEvent:
					h.note, h.velo = v.NoteNumber, v.Velocity
				default:
					c.Failf("events/kind", "unexpected event %T", e)
				}
				got = append(got, h)
			}
			if style == 1 {
				ctx.ClearInputEvents()
			}
		}
		for blk := 0; blk < 14; blk++ {
			n := 1 + c.Rand.IntN(maxB)
			b := newBlock(n, []int{1}, []int{2}, false)
			for j, in := 0, flat(b.in)[0]; j < n; j++ {
				in[j] = float32(j)
			}
			var ns []note
			if c.Rand.IntN(5) > 0 {
				cnt := c.Rand.IntN(12)
				if c.Rand.IntN(20) == 0 {
					cnt = 100 + c.Rand.IntN(2500)
				}
				offs := sortedOffs(c.Rand, n, cnt)
				if c.Rand.IntN(5) == 0 { // a host's rounding may put an event outside the block
					for k := range offs {
						if c.Rand.IntN(3) == 0 {
							offs[k] = mon.Pick(c.Rand, int32(-1), int32(n), int32(n+5), -1000, math.MinInt32, math.MaxInt32)
						}
					}
					sort.Slice(offs, func(a, b int) bool { return offs[a] < offs[b] })
				}
				for _, o := range offs {
					nt := note{kind: c.Rand.IntN(2), off: o, ch: c.Rand.IntN(16), pitch: c.Rand.IntN(128), vel: float32(c.Rand.IntN(128)) / 127, fail: c.Rand.IntN(15) == 0}
					switch c.Rand.IntN(8) {
					case 0:
						nt.vel = c.Rand.Float32()
					case 1: // close to half way between two MIDI velocities
						nt.vel = float32((float64(c.Rand.IntN(127)) + 0.5 + mon.Uni(c.Rand, -0.02, 0.02)) / 127)
					case 2:
						nt.vel = mon.Pick(c.Rand, -1, -0.01, 1.01, 2, 3, 1e9, -1e9, float32(math.Inf(1)), float32(math.Inf(-1)))
					}
					if c.Rand.IntN(12) == 0 {
						nt.kind = mon.Pick(c.Rand, 2, 4, 5, 6, 7, 256, 257, 32768, 32769, 65535)
					}
					ns = append(ns, nt)
				}
				b.events(ns)
			}
			split := c.Rand.IntN(2) == 0
			if split {
				q := queue{id: 10}
				for _, o := range sortedOffs(c.Rand, n, 1+c.Rand.IntN(5)) {
					q.pts = append(q.pts, point{o, c.Rand.Float64(), false})
				}
				b.changes([]queue{q})
			}
			got, fresh = nil, true
			if res := s.process(b); res != 0 {
				c.Failf("events/result", "process returned %d", res)
			}
			var want []note
			for _, w := range ns {
				if !w.fail && w.kind < 2 {
					want = append(want, w)
				}
			}
			bad := len(got) != len(want)
			for k := 0; !bad && k < len(want); k++ {
				w, g := want[k], got[k]
				if g.off != max(0, min(w.off, int32(n-1))) || g.on != (w.kind == 0) || int(g.ch) != w.ch || int(g.note) != w.pitch {
					bad = true
				}
				v := max(0, min(float64(w.vel)*127, 127))
				if x := math.Abs(float64(g.velo) - v); x > 0.5+1e-4 {
					c.Failf("events/velocity", "velocity %v/127 arrived as %d", float64(w.vel)*127, g.velo)
				}
			}
			if bad {
				c.Failf("events/delivery", "block %d of %d samples (split %v, style %d): host sent %v, the processor received %v", blk, n, split, style, want, got)
			}
			b.close()
			c.Evals(1)
			c.Count("events", len(want))
			c.Distinct(n, len(want), split, style)
		}
	})
}
