package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/midi"
	"verif/harness/mon"
)

// ev makes an event whose payload encodes a unique id.
func ev(id int, kind int, off int32) midi.Event {
	b := midi.BaseEvent{EventChannel: uint8(id & 15), Offset: off}
	hi, lo := uint8(id>>4&127), uint8(id>>11&127)
	switch kind % 7 {
	case 0:
		return midi.NoteOnEvent{BaseEvent: b, NoteNumber: hi, Velocity: lo}
	case 1:
		return midi.NoteOffEvent{BaseEvent: b, NoteNumber: hi, Velocity: lo}
	case 2:
		return midi.ControlChangeEvent{BaseEvent: b, Controller: hi, Value: lo}
	case 3:
		return midi.PolyPressureEvent{BaseEvent: b, NoteNumber: hi, Pressure: lo}
	case 4:
		return midi.PitchBendEvent{BaseEvent: b, Value: int16(id>>4&16383) - 8192}
	case 5:
		return midi.ChannelPressureEvent{BaseEvent: b, Pressure: hi}
	}
	return midi.ProgramChangeEvent{BaseEvent: b, Program: hi}
}

func shift(e midi.Event, d int32) midi.Event {
	switch x := e.(type) {
	case midi.NoteOnEvent:
		x.Offset += d
		return x
	case midi.NoteOffEvent:
		x.Offset += d
		return x
	case midi.ControlChangeEvent:
		x.Offset += d
		return x
	case midi.PolyPressureEvent:
		x.Offset += d
		return x
	case midi.PitchBendEvent:
		x.Offset += d
		return x
	case midi.ChannelPressureEvent:
		x.Offset += d
		return x
	case midi.ProgramChangeEvent:
		x.Offset += d
		return x
	case midi.ClockEvent:
		x.Offset += d
		return x
	case midi.StartEvent:
		x.Offset += d
		return x
	case midi.StopEvent:
		x.Offset += d
		return x
	case midi.ContinueEvent:
		x.Offset += d
		return x
	}
	return e
}

func anyEvent(id int, kind int, off int32) midi.Event {
	b := midi.BaseEvent{Offset: off}
	switch kind {
	case 7:
		return midi.ClockEvent{BaseEvent: b}
	case 8:
		return midi.StartEvent{BaseEvent: b}
	case 9:
		return midi.StopEvent{BaseEvent: b}
	case 10:
		return midi.ContinueEvent{BaseEvent: b}
	}
	return ev(id, kind, off)
}

func eqEv(a, b []midi.Event) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type collect struct{ got []midi.Event }

func (c *collect) ProcessEvent(e midi.Event) { c.got = append(c.got, e) }

func b04(r *mon.Run) {
	r.Par("model", r.N(1500, 40000), func(c *mon.C, i int) {
		q := midi.NewEventQueue()
		var model []midi.Event // kept stably sorted when read
		stable := func() {
			sort.SliceStable(model, func(a, b int) bool { return model[a].SampleOffset() < model[b].SampleOffset() })
		}
		var log strings.Builder
		id := 0
		span := int32(1 + c.Rand.IntN(64))
		mk := func() midi.Event {
			id++
			return anyEvent(id, c.Rand.IntN(11), c.Rand.Int32N(span)-span/8)
		}
		rng := func(lo, hi int32) []midi.Event {
			stable()
			var out []midi.Event
			for _, e := range model {
				if e.SampleOffset() >= lo && e.SampleOffset() < hi {
					out = append(out, e)
				}
			}
			return out
		}
		many := 6
		if i%40 == 11 { // a dense passage, also over a long stretch
			many = 12000
			span = mon.Pick(c.Rand, span, 1<<20)
		}
		for k := 0; k < 50; k++ {
			op := c.Rand.IntN(11)
			lo := c.Rand.Int32N(2*span) - span/2
			hi := lo + c.Rand.Int32N(span+1) - 2
			if c.Rand.IntN(4) == 0 {
				hi = lo + 1
			}
			fmt.Fprint(&log, op, " ")
			switch op {
			case 0, 1, 2:
				e := mk()
				q.Add(e)
				model = append(model, e)
			case 3:
				var b []midi.Event
				for j := c.Rand.IntN(many); j > 0; j-- {
					b = append(b, mk())
				}
				q.AddMultiple(b)
				model = append(model, b...)
				for j := range b { // the caller keeps its slice
					b[j] = midi.ClockEvent{}
				}
			case 4:
				got := q.GetEventsInRange(lo, hi)
				if !eqEv(got, rng(lo, hi)) {
					c.Failf("B04/range", "range [%d,%d): got %v expected %v\nops %s", lo, hi, got, rng(lo, hi), log.String())
					return
				}
				for j := range got {
					got[j] = nil // the result belongs to the caller
				}
			case 5:
				stable()
				got := q.GetAllEvents()
				if !eqEv(got, model) {
					c.Failf("B04/all", "got %v expected %v\nops %s", got, model, log.String())
					return
				}
				for j := range got {
					got[j] = nil
				}
			case 6:
				q.RemoveProcessedEvents(lo)
				stable()
				var keep []midi.Event
				for _, e := range model {
					if e.SampleOffset() > lo {
						keep = append(keep, e)
					}
				}
				model = keep
			case 7:
				d := c.Rand.Int32N(41) - 20
				q.OffsetEvents(d)
				for j := range model {
					model[j] = shift(model[j], d)
				}
			case 8:
				if c.Rand.IntN(5) == 0 {
					q.Clear()
					model = nil
				}
			case 9:
				var col collect
				q.ProcessEvents(&col, lo, hi)
				if !eqEv(col.got, rng(lo, hi)) {
					c.Failf("B04/process", "range [%d,%d): processed %v expected %v\nops %s", lo, hi, col.got, rng(lo, hi), log.String())
					return
				}
			case 10: // consecutive blocks cover everything exactly once, in order
				stable()
				var got []midi.Event
				at := int32(-1000)
				for at < 1000 {
					nx := at + 1 + c.Rand.Int32N(200)
					if nx > 1000 {
						nx = 1000
					}
					got = append(got, q.GetEventsInRange(at, nx)...)
					at = nx
				}
				if !eqEv(got, rng(-1000, 1000)) {
					c.Failf("B04/partition", "consecutive ranges delivered %d events, queue holds %d\nops %s", len(got), len(model), log.String())
					return
				}
			}
			if q.Size() != len(model) || q.IsEmpty() != (len(model) == 0) {
				c.Failf("B04/size", "Size=%d IsEmpty=%v, model %d\nops %s", q.Size(), q.IsEmpty(), len(model), log.String())
				return
			}
		}
		c.Distinct(log.String(), span)
		c.Evals(50)
	})
	// Far more events than a block ever carries, and offsets at the ends of their range.
	r.Par("extremes", r.N(4, 24), func(c *mon.C, i int) {
		q := midi.NewEventQueue()
		var model []midi.Event
		put := func(e midi.Event) {
			q.Add(e)
			model = append(model, e)
		}
		n := mon.Pick(c.Rand, 70000, 140000)
		if i%4 == 1 {
			n = 40
		}
		for k := 0; k < n; k++ {
			off := c.Rand.Int32N(1 << 20)
			if c.Rand.IntN(8) == 0 {
				off = mon.Pick(c.Rand, int32(math.MinInt32), math.MinInt32+1, -1, 0, math.MaxInt32-1, math.MaxInt32)
			}
			put(anyEvent(k, c.Rand.IntN(11), off))
		}
		by := func() {
			sort.SliceStable(model, func(a, b int) bool { return model[a].SampleOffset() < model[b].SampleOffset() })
		}
		by()
		if g := q.GetAllEvents(); q.Size() != len(model) || !eqEv(g, model) {
			c.Failf("B04/extreme-all", "%d events added, %d held, %d returned, or not in order", len(model), q.Size(), len(g))
			return
		}
		for _, rg := range [][2]int32{{math.MinInt32, 0}, {-1, 1}, {0, 1 << 19}, {1 << 19, math.MaxInt32}, {math.MinInt32, math.MaxInt32}, {math.MinInt32, math.MinInt32 + 1}} {
			var want []midi.Event
			for _, e := range model {
				if e.SampleOffset() >= rg[0] && e.SampleOffset() < rg[1] {
					want = append(want, e)
				}
			}
			if g := q.GetEventsInRange(rg[0], rg[1]); !eqEv(g, want) {
				c.Failf("B04/extreme-range", "range [%d,%d): %d events, expected %d", rg[0], rg[1], len(g), len(want))
				return
			}
			c.Distinct("extreme", i, rg)
		}
		cut := mon.Pick(c.Rand, int32(-1), 0, 1<<19, math.MaxInt32-1)
		q.RemoveProcessedEvents(cut)
		var keep []midi.Event
		for _, e := range model {
			if e.SampleOffset() > cut {
				keep = append(keep, e)
			}
		}
		if g := q.GetAllEvents(); q.Size() != len(keep) || !eqEv(g, keep) {
			c.Failf("B04/extreme-remove", "%d of %d events left after removing up to %d, expected %d", q.Size(), len(model), cut, len(keep))
		}
		c.Evals(8)
	})
	// The process context hands input and output events over separately and per block.
	r.Par("context", r.N(400, 8000), func(c *mon.C, i int) {
		ctx := process.NewContext(512, param.NewRegistry())
		for block := 0; block < 3; block++ {
			n := 1 + c.Rand.IntN(512)
			ctx.Output = [][]float32{make([]float32, n)}
			var in, out []midi.Event
			for k := c.Rand.IntN(30); k > 0; k-- {
				e := ev(k+100*block, c.Rand.IntN(7), c.Rand.Int32N(int32(n)))
				if c.Rand.IntN(3) == 0 {
					ctx.AddOutputEvent(e)
					out = append(out, e)
				} else {
					ctx.AddInputEvent(e)
					in = append(in, e)
				}
			}
			by := func(x []midi.Event) {
				sort.SliceStable(x, func(a, b int) bool { return x[a].SampleOffset() < x[b].SampleOffset() })
			}
			by(in)
			by(out)
			if g := ctx.GetAllInputEvents(); !eqEv(g, in) {
				c.Failf("B04/ctx-input", "block of %d: input %v expected %v", n, g, in)
			}
			if g := ctx.GetOutputEvents(); !eqEv(g, out) {
				c.Failf("B04/ctx-output", "output %v expected %v", g, out)
			}
			if ctx.HasInputEvents() != (len(in) > 0) {
				c.Failf("B04/ctx-has", "HasInputEvents=%v with %d", ctx.HasInputEvents(), len(in))
			}
			var col collect
			cut := c.Rand.Int32N(int32(n) + 1)
			ctx.ProcessEvents(&col, 0, cut)
			ctx.ProcessEvents(&col, cut, int32(n))
			if !eqEv(col.got, in) {
				c.Failf("B04/ctx-process", "two sub-blocks delivered %v expected %v", col.got, in)
			}
			switch c.Rand.IntN(3) {
			case 0:
				ctx.ClearInputEvents()
				if len(ctx.GetAllInputEvents()) != 0 || !eqEv(ctx.GetOutputEvents(), out) {
					c.Failf("B04/ctx-clear-in", "clearing input: %d in, %d out (was %d)", len(ctx.GetAllInputEvents()), len(ctx.GetOutputEvents()), len(out))
				}
				ctx.ClearOutputEvents()
			case 1:
				ctx.ClearOutputEvents()
				if !eqEv(ctx.GetAllInputEvents(), in) || len(ctx.GetOutputEvents()) != 0 {
					c.Failf("B04/ctx-clear-out", "clearing output affected input")
				}
				ctx.ClearInputEvents()
			case 2:
				ctx.ClearAllEvents()
			}
			if ctx.HasInputEvents() || len(ctx.GetOutputEvents()) != 0 {
				c.Failf("B04/ctx-clear", "events survive clearing")
			}
			c.Distinct("ctx", i, block, len(in), len(out))
		}
		c.Evals(3)
	})
}

type qop struct {
	K      string
	Id     int
	Off    int32
	Lo, Hi int32
}

// state: ordered list of (id, off), stable by arrival within equal offsets
type qst []struct {
	id  int
	off int32
}

func idOf(e midi.Event) int {
	n := e.(midi.NoteOnEvent)
	return int(n.EventChannel) | int(n.NoteNumber)<<4 | int(n.Velocity)<<11
}

func ids(es []midi.Event) []int {
	out := []int{}
	for _, e := range es {
		out = append(out, idOf(e))
	}
	return out
}

func b05(r *mon.Run) {
	if !r.Race {
		r.Par("lin", r.N(1200, 40000), func(c *mon.C, i int) {
			q := midi.NewEventQueue()
			// pre-fill unsorted so that reads have sorting to do
			var init qst
			pre := c.Rand.IntN(24)
			for k := 0; k < pre; k++ {
				off := c.Rand.Int32N(6)
				q.Add(ev(1000+k, 0, off))
				init = append(init, struct {
					id  int
					off int32
				}{1000 + k, off})
			}
			var h mon.Recorder
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := 0; g < 4; g++ {
				seed := c.Rand.Uint64()
				wg.Add(1)
				go func() {
					defer wg.Done()
					rr := rand.New(rand.NewPCG(seed, 3))
					<-start
					for k := 0; k < 5; k++ {
						switch x := rr.IntN(12); {
						case x == 0:
							id, off, off2 := g*16+k+1, rr.Int32N(6), rr.Int32N(6)
							h.Do(g, qop{K: "add2", Id: id, Off: off, Hi: off2}, func() any {
								q.AddMultiple([]midi.Event{ev(id, 0, off), ev(id+500, 0, off2)})
								return nil
							})
						case x < 5:
							id, off := g*16+k+1, rr.Int32N(6)
							h.Do(g, qop{K: "add", Id: id, Off: off}, func() any { q.Add(ev(id, 0, off)); return nil })
						case x < 8:
							lo := rr.Int32N(6)
							hi := lo + 1 + rr.Int32N(4)
							h.Do(g, qop{K: "range", Lo: lo, Hi: hi}, func() any { return ids(q.GetEventsInRange(lo, hi)) })
						case x < 10:
							h.Do(g, qop{K: "all"}, func() any { return ids(q.GetAllEvents()) })
						case x < 11:
							up := rr.Int32N(3)
							h.Do(g, qop{K: "rm", Hi: up}, func() any { q.RemoveProcessedEvents(up); return nil })
						default:
							h.Do(g, qop{K: "size"}, func() any { return q.Size() })
						}
					}
				}()
			}
			close(start)
			wg.Wait()
			ops := h.Ops()
			sorted := func(s qst) qst {
				o := append(qst(nil), s...)
				sort.SliceStable(o, func(a, b int) bool { return o[a].off < o[b].off })
				return o
			}
			step := func(st any, o mon.Op) (bool, any) {
				s := st.(qst)
				p := o.In.(qop)
				switch p.K {
				case "add":
					n := append(append(qst(nil), s...), struct {
						id  int
						off int32
					}{p.Id, p.Off})
					return true, n
				case "add2":
					n := append(qst(nil), s...)
					for k, off := range []int32{p.Off, p.Hi} {
						n = append(n, struct {
							id  int
							off int32
						}{p.Id + 500*k, off})
					}
					return true, n
				case "size":
					return o.Out.(int) == len(s), s
				case "rm":
					var n qst
					for _, e := range sorted(s) {
						if e.off > p.Hi {
							n = append(n, e)
						}
					}
					return true, n
				}
				want := []int{}
				for _, e := range sorted(s) {
					if p.K == "all" || e.off >= p.Lo && e.off < p.Hi {
						want = append(want, e.id)
					}
				}
				got := o.Out.([]int)
				if len(got) != len(want) {
					return false, s
				}
				for k := range got {
					if got[k] != want[k] {
						return false, s
					}
				}
				return true, sorted(s)
			}
			ok, inc := mon.Linearizable(ops, init, step, func(st any) string { return fmt.Sprint(st) }, 300000)
			if inc {
				c.Count("inconclusive_histories", 1)
			} else if !ok {
				c.Failf("B05/not-linearizable", "queue history with %d pre-filled events:\n%v", pre, ops)
			}
			ov := mon.Overlap(ops)
			c.Count("overlapping_pairs", ov)
			if ov > 0 {
				c.Distinct("lin", i, ov)
			}
		})
	}
	// Large runs: several producers, readers that judge order and completeness.
	for rep := 0; rep < r.N(8, 80); rep++ {
		r.Case(fmt.Sprintf("flow/%d", rep), func(c *mon.C) {
			q := midi.NewEventQueue()
			const P, K = 4, 300
			var published [P]atomic.Int32
			var wg sync.WaitGroup
			var live atomic.Int32
			live.Store(P)
			for g := 0; g < P; g++ {
				seed := c.Rand.Uint64()
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer live.Add(-1)
					rr := rand.New(rand.NewPCG(seed, 4))
					for k := 0; k < K; k++ {
						q.Add(ev(g*K+k, 0, rr.Int32N(64)))
						published[g].Store(int32(k + 1))
						if rr.IntN(8) == 0 {
							runtime.Gosched()
						}
					}
				}()
			}
			for g := 0; g < 3; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for live.Load() > 0 {
						var base [P]int32
						for p := range base {
							base[p] = published[p].Load()
						}
						var es []midi.Event
						if g == 0 {
							es = q.GetAllEvents()
						} else {
							es = q.GetEventsInRange(0, 64)
						}
						seen := map[int]bool{}
						for k, e := range es {
							if k > 0 && e.SampleOffset() < es[k-1].SampleOffset() {
								c.Failf("B05/unsorted", "reader got offset %d after %d", e.SampleOffset(), es[k-1].SampleOffset())
								break
							}
							if seen[idOf(e)] {
								c.Failf("B05/duplicate", "event %d delivered twice in one read", idOf(e))
							}
							seen[idOf(e)] = true
						}
						for p := range base {
							for k := int32(0); k < base[p]; k++ {
								if !seen[p*K+int(k)] {
									c.Failf("B05/lost", "event %d was added before the read began but is missing from it", p*K+int(k))
									break
								}
							}
						}
						c.Count("flow_reads", 1)
					}
				}()
			}
			wg.Wait()
			if q.Size() != P*K || len(q.GetAllEvents()) != P*K {
				c.Failf("B05/final", "%d events queued, %d added", q.Size(), P*K)
			}
			c.Distinct("flow", rep)
		})
	}
	// Mixed mutators under the race detector / for crashes.
	for rep := 0; rep < r.N(6, 40); rep++ {
		r.Case(fmt.Sprintf("mixed/%d", rep), func(c *mon.C) {
			b := midi.NewEventBuffer()
			q := midi.NewEventQueue()
			var wg sync.WaitGroup
			for g := 0; g < 6; g++ {
				seed := c.Rand.Uint64()
				wg.Add(1)
				go func() {
					defer wg.Done()
					rr := rand.New(rand.NewPCG(seed, 5))
					for k := 0; k < 150; k++ {
						e := ev(g*200+k, 0, rr.Int32N(64))
						switch rr.IntN(12) {
						case 0, 1, 2:
							q.Add(e)
							b.AddInputEvent(e)
						case 3:
							b.AddOutputEvent(e)
							q.AddMultiple([]midi.Event{e, e})
						case 4:
							q.GetEventsInRange(0, 32)
							b.GetInputEvents(0, 64)
						case 5:
							q.GetAllEvents()
							b.GetOutputEvents()
						case 6:
							q.RemoveProcessedEvents(rr.Int32N(20))
						case 7:
							q.OffsetEvents(1)
						case 8:
							_ = q.Size()
							_ = q.IsEmpty()
						case 9:
							if rr.IntN(4) == 0 {
								q.Clear()
								b.ClearAll()
							}
						case 10:
							q.ProcessEvents(&collect{}, 0, 64)
						case 11:
							b.ClearInput()
							b.ClearOutput()
						}
					}
				}()
			}
			wg.Wait()
			c.Distinct("mixed", rep)
			c.Count("mixed_ops", 900)
		})
	}
}

func b06(r *mon.Run) {
	r.Par("note", 128, func(c *mon.C, i int) {
		for k := 0; k < r.N(100, 4000); k++ {
			a4 := 440.0
			arg := 440.0
			switch k {
			case 0:
				arg = 0 // default tuning
			case 1:
				a4, arg = 432, 432
			default:
				a4 = mon.Uni(c.Rand, 392, 494)
				arg = a4
			}
			want := a4 * math.Pow(2, (float64(i)-69)/12)
			f := midi.NoteToFrequency(uint8(i), arg)
			if cents := 1200 * math.Abs(math.Log2(f/want)); !(cents <= 1) {
				c.Failf("B06/note-frequency", "note %d at A4=%g: %g Hz, expected %g (%.2f cents off)", i, a4, f, want, cents)
			}
			if n := midi.FrequencyToNote(f, arg); int(n) != i {
				c.Failf("B06/roundtrip", "note %d -> %g Hz -> note %d", i, f, n)
			}
			det := (c.Rand.Float64()*2 - 1) * mon.Pick(c.Rand, 48, 49.99)
			if n := midi.FrequencyToNote(want*math.Pow(2, det/1200), arg); int(n) != i {
				c.Failf("B06/nearest", "%g cents from note %d maps to note %d", det, i, n)
			}
			c.Distinct("note", i, a4)
		}
		if i > 0 && !(midi.NoteToFrequency(uint8(i), 440) > midi.NoteToFrequency(uint8(i-1), 440)) {
			c.Failf("B06/monotone", "note %d is not above note %d", i, i-1)
		}
		names := []string{"C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"}
		if w := fmt.Sprintf("%s%d", names[i%12], i/12-1); midi.NoteNumberToName(uint8(i)) != w {
			c.Failf("B06/name", "note %d is called %s, expected %s", i, midi.NoteNumberToName(uint8(i)), w)
		}
		c.Evals(r.N(100, 4000))
	})
	r.Case("sweep", func(c *mon.C) {
		last := 0
		for f := 1.0; f < 40000; f *= 1.00007 {
			n := int(midi.FrequencyToNote(f, 440))
			w := math.Round(69 + 12*math.Log2(f/440))
			w = math.Max(0, math.Min(127, w))
			exact := 69 + 12*math.Log2(f/440)
			if math.Abs(exact-math.Floor(exact)-0.5) > 1e-5 && float64(n) != w {
				c.Failf("B06/sweep", "%g Hz maps to note %d, expected %g", f, n, w)
			}
			if n < last {
				c.Failf("B06/sweep-monotone", "%g Hz maps to %d after %d", f, n, last)
			}
			last = n
			c.Distinct("f", f)
		}
		for _, f := range mon.HostileF64 {
			if n := midi.FrequencyToNote(f, 440); n > 127 {
				c.Failf("B06/hostile", "%g Hz maps to note %d", f, n)
			}
			_ = midi.FrequencyToNote(440, f)
			c.Evals(2)
		}
	})
	r.Par("event", r.N(300, 5000), func(c *mon.C, i int) {
		kind := i % 11
		off := c.Rand.Int32()
		id := c.Rand.IntN(1 << 18)
		e := anyEvent(id, kind, off)
		types := []midi.EventType{midi.EventTypeNoteOn, midi.EventTypeNoteOff, midi.EventTypeControlChange, midi.EventTypePolyPressure, midi.EventTypePitchBend, midi.EventTypeChannelPressure, midi.EventTypeProgramChange, midi.EventTypeClock, midi.EventTypeStart, midi.EventTypeStop, midi.EventTypeContinue}
		if e.Type() != types[kind] || e.SampleOffset() != off || (kind < 7 && e.Channel() != uint8(id&15)) || e.String() == "" {
			c.Failf("B06/event", "kind %d: type %d channel %d offset %d", kind, e.Type(), e.Channel(), e.SampleOffset())
		}
		if p, ok := e.(midi.PitchBendEvent); ok {
			if v := p.NormalizedValue(); !(v >= -1 && v < 1) || !(math.Abs(v*8192-float64(p.Value)) <= 1e-9) {
				c.Failf("B06/bend", "bend %d normalizes to %g", p.Value, v)
			}
		}
		c.Distinct("event", kind, id, off)
	})
}
