package main

// #include "host.h"
import "C"
import (
	"math"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/vst3"
	"verif/harness/mon"
)

// h10: vst3.ProcessDataWrapper, AudioBuffer and ProcessContext over blocks laid out in C memory.
func h10(r *mon.Run) {
	r.Case("nil", func(c *mon.C) {
		c.NoPanic("NewProcessDataWrapper(nil)", func() {
			if vst3.NewProcessDataWrapper(nil) != nil {
				c.Failf("wrap/nil", "a wrapper around no data")
			}
		})
	})
	r.Par("wrap", r.N(3000, 60000), func(c *mon.C, i int) {
		n := mon.Pick(c.Rand, 0, 1, 2, 31, 64, 257, 1024, 1+c.Rand.IntN(2000))
		ins, outs := layout(c.Rand), layout(c.Rand)
		b := newBlock(n, ins, outs, c.Rand.IntN(3) == 0)
		defer b.close()
		hc := randCtx(c.Rand)
		sys := int64(c.Rand.Uint64() >> 1)
		withCtx := c.Rand.IntN(4) != 0
		if withCtx {
			b.context(hc)
			b.data.processContext.systemTime = C.Steinberg_int64(sys)
		}
		for _, ch := range append(flat(b.in), flat(b.out)...) {
			for k := range ch {
				ch[k] = math.Float32frombits(c.Rand.Uint32())
			}
		}
		hideIn, hideOut := c.Rand.IntN(12) == 0, c.Rand.IntN(12) == 0
		if hideIn {
			b.data.inputs = nil
		}
		if hideOut {
			b.data.outputs = nil
		}
		nilBus, nilCh := -1, -1
		if len(b.in) > 0 && !hideIn {
			ab := unsafe.Slice(b.data.inputs, len(b.in))
			switch c.Rand.IntN(6) {
			case 0: // a bus whose channel table is missing
				nilBus = c.Rand.IntN(len(b.in))
				C.h_set_channels(&ab[nilBus], C.int32_t(len(b.in[nilBus].ch)), nil)
			case 1: // a bus with one channel missing
				k := c.Rand.IntN(len(b.in))
				if m := len(b.in[k].ch); m > 0 {
					nilBus, nilCh = k, c.Rand.IntN(m)
					t := unsafe.Slice((**C.float)(b.calloc(m, 8)), m)
					for j := range b.in[k].ch {
						if n > 0 {
							t[j] = (*C.float)(unsafe.Pointer(&b.in[k].ch[j][0]))
						} else {
							t[j] = (*C.float)(unsafe.Pointer(unsafe.SliceData(b.in[k].ch[j])))
						}
					}
					t[nilCh] = nil
					C.h_set_channels(&ab[k], C.int32_t(m), (**C.float)(unsafe.Pointer(&t[0])))
				}
			}
		}
		c.NoPanic("reading a host block", func() {
			w := vst3.NewProcessDataWrapper(unsafe.Pointer(b.data))
			if w == nil {
				c.Failf("wrap/nil", "no wrapper around a block")
				return
			}
			if int(w.NumSamples()) != n {
				c.Failf("wrap/samples", "NumSamples %d, host sent %d", w.NumSamples(), n)
			}
			side := func(name string, bs []cbus, hidden bool, get func(int) *vst3.AudioBuffer, nb, nc int) {
				if hidden {
					bs = nil
				}
				for _, k := range []int{-1, len(bs), len(bs) + 7, math.MinInt32, math.MaxInt32} {
					if get(k) != nil {
						c.Failf("wrap/bus", "%s bus %d of %d exists", name, k, len(bs))
					}
				}
				for k := range bs {
					ab := get(k)
					if len(bs[k].ch) == 0 {
						if ab != nil && ab.NumChannels() != 0 {
							c.Failf("wrap/channels", "%s bus %d without channels shows %d", name, k, ab.NumChannels())
						}
						continue
					}
					if ab == nil || ab.NumChannels() != len(bs[k].ch) || int(ab.NumSamples()) != n {
						c.Failf("wrap/channels", "%s bus %d: %v, host sent %d channels of %d samples", name, k, ab, len(bs[k].ch), n)
						continue
					}
					for _, j := range []int{-1, len(bs[k].ch), math.MaxInt32} {
						if ab.GetChannel(j) != nil {
							c.Failf("wrap/channel", "%s bus %d channel %d of %d exists", name, k, j, len(bs[k].ch))
						}
					}
					for j, want := range bs[k].ch {
						got := ab.GetChannel(j)
						if k == nb && (nc < 0 || nc == j) {
							if got != nil {
								c.Failf("wrap/missing", "%s bus %d channel %d was not sent and shows %d samples", name, k, j, len(got))
							}
							continue
						}
						if len(got) != n || cap(got) != n {
							c.Failf("wrap/length", "%s bus %d channel %d has %d samples (cap %d) of %d", name, k, j, len(got), cap(got), n)
							continue
						}
						if n > 0 && &got[0] != &want[0] {
							c.Failf("wrap/alias", "%s bus %d channel %d is not the host's memory", name, k, j)
						}
					}
				}
				c.Distinct(name, len(bs), n)
			}
			side("input", b.in, hideIn, w.GetInput, nilBus, nilCh)
			side("output", b.out, hideOut, w.GetOutput, -1, -1)
			x := w.GetContext()
			if !withCtx {
				if x != nil {
					c.Failf("wrap/context", "a context the host did not send")
				}
				return
			}
			if x == nil {
				c.Failf("wrap/context", "the host's context is missing")
				return
			}
			if uint32(x.State) != hc.state || x.SampleRate != 12345 || x.ProjectTimeSamples != hc.proj || x.SystemTime != sys || x.ContinuousTimeSamples != hc.cont || x.ProjectTimeMusic != hc.music ||
				x.BarPositionMusic != hc.bar || x.CycleStartMusic != hc.cycS || x.CycleEndMusic != hc.cycE || x.Tempo != hc.temp || x.TimeSigNumerator != hc.num || x.TimeSigDenominator != hc.den || x.SamplesToNextClock != hc.clock {
				c.Failf("wrap/context", "context %+v, host sent %+v, system time %d", *x, hc, sys)
			}
			for _, f := range []struct {
				name string
				got  bool
				bit  uint
			}{{"IsPlaying", x.IsPlaying(), 1}, {"IsCycleActive", x.IsCycleActive(), 2}, {"IsRecording", x.IsRecording(), 3}, {"HasProjectTimeMusic", x.HasProjectTimeMusic(), 9}, {"HasTempo", x.HasTempo(), 10}, {"HasBarPosition", x.HasBarPosition(), 11}, {"HasTimeSignature", x.HasTimeSignature(), 13}} {
				if f.got != (hc.state>>f.bit&1 == 1) {
					c.Failf("wrap/"+f.name, "%s = %v, host state %#x", f.name, f.got, hc.state)
				}
			}
		})
		if !b.guardsIntact() {
			c.Failf("wrap/guard", "memory around the channels changed")
		}
	})
}
