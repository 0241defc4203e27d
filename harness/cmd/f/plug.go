package main

import (
	"crypto/md5"
	"errors"
	"fmt"
	"math/rand/v2"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"verif/harness/mon"
)

var examples = map[string][16]byte{
	"com.vst3go.examples.gain":   {0x12, 0x34, 0x56, 0x78, 0x9A, 0xBC, 0xDE, 0xF0, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88},
	"com.vst3go.examples.filter": {0x87, 0x65, 0x43, 0x21, 0xFE, 0xDC, 0xBA, 0x98, 0x88, 0x77, 0x66, 0x55, 0x44, 0x33, 0x22, 0x11},
	"com.vst3go.examples.delay":  {0xAA, 0xBB, 0xCC, 0xDD, 0xEE, 0xFF, 0x00, 0x11, 0x99, 0x88, 0x77, 0x66, 0x55, 0x44, 0x33, 0x22},
}

func randID(q *rand.Rand) string {
	switch q.IntN(8) {
	case 0:
		b := make([]byte, q.IntN(200))
		for i := range b {
			b[i] = byte(q.Uint32())
		}
		return string(b)
	case 1:
		return mon.Pick(q, "com.vst3go.examples.gain", "com.vst3go.examples.filter", "com.vst3go.examples.delay")
	case 2: // near misses of the reserved identifiers
		return mon.Pick(q, "com.vst3go.examples.gain ", "Com.vst3go.examples.gain", "com.vst3go.examples.gai", "com.vst3go.examples.delay2", "com.vst3go.examples.", "com.vst3go.examples.filter\x00")
	case 3:
		return fmt.Sprintf("com.例え.プラグイン%d", q.IntN(1000))
	}
	return fmt.Sprintf("com.vendor%d.plug%d.v%d", q.IntN(50), q.IntN(1<<30), q.IntN(9))
}

func f02(r *mon.Run) {
	seen := map[[16]byte]string{}
	r.Case("identity", func(c *mon.C) {
		q := c.Rand
		for k := 0; k < r.N(4000, 60000); k++ {
			id := randID(q)
			if id == "" {
				continue
			}
			want, ok := examples[id]
			if !ok {
				h := md5.Sum([]byte(id))
				h[6] = h[6]&0x0f | 0x40
				h[8] = h[8]&0x3f | 0x80
				want = h
			}
			in := plugin.Info{ID: id, Name: fmt.Sprint("N", q.IntN(99)), Version: fmt.Sprint(q.IntN(9)), Vendor: "V", Category: mon.Pick(q, "Fx", "Instrument", "")}
			cp := in
			got := in.UID()
			c.Evals(1)
			c.Distinct(id)
			if got != want {
				c.Failf("uid", "UID of %q is % x, want % x", id, got, want)
				return
			}
			in.Name, in.Version, in.Vendor, in.Category = "other", "9.9.9", "else", "Fx|Delay"
			if in.UID() != got || cp.UID() != got {
				c.Failf("uid-unstable", "UID of %q changed with its other fields or when asked again", id)
			}
			if err := in.ValidateUID(); err != nil {
				c.Failf("validate", "ValidateUID of %q: %v", id, err)
			}
			if o, dup := seen[got]; dup && o != id {
				c.Failf("uid-collision", "%q and %q share a UID", o, id)
			}
			seen[got] = id
		}
		if (&plugin.Info{}).ValidateUID() == nil {
			c.Failf("validate-empty", "an empty plug-in ID was accepted")
		}
		c.Count("identifiers", len(seen))
	})
	r.Par("base", r.N(200, 2000), func(c *mon.C, _ int) {
		q := c.Rand
		in := plugin.Info{ID: randID(q), Name: "P", Version: mon.Pick(q, "", "1.2"), Vendor: mon.Pick(q, "", "v"), Category: mon.Pick(q, "", "Fx", "Instrument|Synth")}
		given := in
		b := plugin.NewBase(&in)
		o := plugin.NewBase(&in)
		if b.Info != given {
			c.Failf("base-info", "the base holds %+v, it was given %+v", b.Info, given)
		}
		in.Name = "changed later"
		if b.Info.Name != "P" {
			c.Failf("base-info", "the base's information changed with the caller's structure")
		}
		if b.Parameters() == nil || b.Parameters() != b.Parameters() || b.Parameters() == o.Parameters() {
			c.Failf("base-params", "parameter registry missing, replaced or shared between instances")
			return
		}
		n := 1 + q.IntN(5)
		for i := 0; i < n; i++ {
			_ = b.Parameters().Add(&param.Parameter{ID: uint32(i), Name: fmt.Sprint("p", i), Max: 1})
		}
		if b.Parameters().Count() != int32(n) || o.Parameters().Count() != 0 {
			c.Failf("base-params", "%d parameters added: %d here, %d in the other instance", n, b.Parameters().Count(), o.Parameters().Count())
		}

		// BaseProcessor and SimpleProcessor: each host call reaches exactly the callbacks
		// that are set, with its arguments, in order, and hands back their verdict.
		buses := mon.Pick(q, bus.NewMonoConfiguration(), bus.NewGenerator(), (*bus.Configuration)(nil))
		var log []string
		fn := func(*process.Context) { log = append(log, "process") }
		if q.IntN(4) == 0 {
			fn = nil
		}
		sp := plugin.NewSimpleProcessor(buses, fn)
		bp := sp.BaseProcessor
		if buses != nil && sp.GetBuses() != buses {
			c.Failf("buses", "the processor's buses are not the ones given")
		}
		if buses == nil {
			cfg := sp.GetBuses()
			if cfg == nil || cfg.GetActiveInputChannelCount() != 2 || cfg.GetActiveOutputChannelCount() != 2 {
				c.Failf("buses-default", "default buses are not stereo in and out: %+v", cfg)
			}
		}
		if sp.GetParameters() == nil || sp.GetParameters() != sp.Parameters() || sp.GetParameters().Count() != 0 {
			c.Failf("params", "processor registry missing or not its own")
		}
		if sp.GetLatencySamples() != 0 || sp.GetTailSamples() != 0 {
			c.Failf("latency", "default latency %d tail %d", sp.GetLatencySamples(), sp.GetTailSamples())
		}
		var initErr, actErr error
		hasI, hasA, hasR := false, false, false
		rate := 0.0
		hist := ""
		for k := 0; k < 30; k++ {
			log = log[:0]
			var want []string
			switch op := q.IntN(7); op {
			case 0:
				if hasI = q.IntN(4) != 0; hasI {
					bp.OnInitialize(func(sr float64, n int32) error {
						log = append(log, fmt.Sprintf("init %v %d rate=%v", sr, n, bp.SampleRate()))
						return initErr
					})
				} else {
					bp.OnInitialize(nil)
				}
			case 1:
				if hasA = q.IntN(4) != 0; hasA {
					bp.OnSetActive(func(a bool) error { log = append(log, fmt.Sprint("active ", a)); return actErr })
				} else {
					bp.OnSetActive(nil)
				}
			case 2:
				if hasR = q.IntN(4) != 0; hasR {
					bp.OnReset(func() { log = append(log, "reset") })
				} else {
					bp.OnReset(nil)
				}
			case 3:
				initErr, actErr = nil, nil
				if q.IntN(2) == 0 {
					initErr = errors.New("init")
				}
				if q.IntN(2) == 0 {
					actErr = errors.New("act")
				}
			case 4:
				sr, n := mon.Pick(q, 44100.0, 48000, 96000, 192000, 8000, mon.LogUniform(q, 1, 1e6)), int32(q.IntN(8193))
				err := sp.Initialize(sr, n)
				rate = sr
				var we error
				if hasI {
					want = append(want, fmt.Sprintf("init %v %d rate=%v", sr, n, sr))
					we = initErr
				}
				if err != we {
					c.Failf("init-error", "Initialize returned %v, the callback %v", err, we)
				}
			case 5:
				a := q.IntN(2) == 0
				err := sp.SetActive(a)
				var we error
				if !a && hasR {
					want = append(want, "reset")
				}
				if hasA {
					want = append(want, fmt.Sprint("active ", a))
					we = actErr
				}
				if err != we {
					c.Failf("active-error", "SetActive returned %v, the callback %v", err, we)
				}
			case 6:
				sp.ProcessAudio(process.NewContext(16, sp.GetParameters()))
				if fn != nil {
					want = append(want, "process")
				}
			}
			hist += fmt.Sprint(want, ";")
			c.Evals(1)
			if fmt.Sprint(log) != fmt.Sprint(want) {
				c.Failf("callbacks", "callbacks seen %v want %v (history %s)", log, want, hist)
				return
			}
			if sp.SampleRate() != rate {
				c.Failf("rate", "SampleRate %v want %v", sp.SampleRate(), rate)
			}
		}
		c.Distinct(hist)
	})
}
