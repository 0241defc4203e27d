package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/state"
	"verif/harness/mon"
)

func image(ids []uint32, vals []float64, custom []byte) []byte {
	var b bytes.Buffer
	b.WriteString("VST3GO")
	binary.Write(&b, binary.LittleEndian, uint32(1))
	binary.Write(&b, binary.LittleEndian, int32(len(ids)))
	for i := range ids {
		binary.Write(&b, binary.LittleEndian, ids[i])
		binary.Write(&b, binary.LittleEndian, vals[i])
	}
	if custom != nil {
		binary.Write(&b, binary.LittleEndian, uint32(1))
		b.Write(custom)
	} else {
		binary.Write(&b, binary.LittleEndian, uint32(0))
	}
	return b.Bytes()
}

func class(v float64) string {
	switch {
	case math.IsNaN(v):
		return "nan"
	case math.IsInf(v, 0):
		return "inf"
	case v < 0:
		return "neg"
	case v > 1:
		return "gt1"
	case v == 0 || v == 1:
		return "edge"
	}
	return "in"
}

func randRange(r *rand.Rand) (float64, float64) {
	switch r.IntN(8) {
	case 0:
		return 0, 1
	case 1:
		return 20, 20000
	case 2:
		return -80, 12
	case 3:
		return -1, 1
	case 4:
		return 5, 5 // degenerate
	case 5:
		return 10, -10 // inverted
	default:
		lo := (r.Float64()*2 - 1) * 1e4
		return lo, lo + mon.LogUniform(r, 1e-3, 1e5)
	}
}

func a01(r *mon.Run) {
	if !r.Race {
		r.Par("history", r.N(400, 8000), func(c *mon.C, i int) {
			lo, hi := randRange(c.Rand)
			def := lo + (c.Rand.Float64()*1.6-0.3)*(hi-lo)
			if c.Rand.IntN(6) == 0 {
				def = mon.AnyF64(c.Rand)
			}
			p := param.New(7, "P").Range(lo, hi).Default(def).Build()
			if !(p.DefaultValue >= 0 && p.DefaultValue <= 1) {
				c.Failf("A01/default-out-of-range", "range [%g,%g] default(plain)=%g declared normalized default %g", lo, hi, def, p.DefaultValue)
			}
			if p.GetValue() != p.DefaultValue {
				c.Failf("A01/initial-value", "initial value %g differs from declared default %g", p.GetValue(), p.DefaultValue)
			}
			if hi > lo && def >= lo && def <= hi && !mon.Close(p.GetValue(), (def-lo)/(hi-lo), 1e-12, 1e-12) {
				c.Failf("A01/default-position", "range [%g,%g] default %g stored as %g", lo, hi, def, p.GetValue())
			}
			reg := param.NewRegistry()
			reg.Add(p)
			mgr := state.NewManager(reg)
			for k := 0; k < 60; k++ {
				v := mon.AnyF64(c.Rand)
				before := p.GetValue()
				kind := c.Rand.IntN(5)
				exp := math.NaN() // expected stored value, when determined
				switch kind {
				case 0:
					p.SetValue(v)
					exp = clampExp(v)
				case 1:
					p.SetPlainValue(v)
					if hi > lo {
						exp = clampExp((v - lo) / (hi - lo))
					} else {
						exp = 0
					}
				case 2:
					n, err := p.ParseValue(fmt.Sprintf("%g", v))
					if err == nil {
						if !(n >= 0 && n <= 1) {
							c.Failf("A01/parse-out-of-range", "ParseValue(%g) in range [%g,%g] returned %g", v, lo, hi, n)
						}
						p.SetValue(n)
						if hi > lo {
							exp = clampExp((v - lo) / (hi - lo))
						}
					} else {
						exp = before
					}
				case 3:
					if err := mgr.Load(bytes.NewReader(image([]uint32{7}, []float64{v}, nil))); err != nil {
						exp = before
						c.Count("loads_rejected", 1)
					} else {
						exp = clampExp(v)
					}
				case 4:
					n := p.Normalize(v)
					if !(n >= 0 && n <= 1) {
						c.Failf("A01/normalize-out-of-range", "Normalize(%g) over [%g,%g] = %g", v, lo, hi, n)
					}
					p.SetValue(n)
				}
				got := p.GetValue()
				if !(got >= 0 && got <= 1) {
					c.Failf("A01/stored-out-of-range", "write kind %d of %g over [%g,%g] stored %g", kind, v, lo, hi, got)
				} else if mon.Fin(exp) {
					tol := 0.0
					if kind != 0 && kind != 3 {
						tol = 1e-12
					}
					if !(math.Abs(got-exp) <= tol) {
						c.Failf("A01/stored-wrong", "write kind %d of %g over [%g,%g] stored %g, expected %g", kind, v, lo, hi, got, exp)
					}
				}
				if hi > lo {
					pl := p.GetPlainValue()
					if !(pl >= lo-1e-9*math.Abs(lo) && pl <= hi+1e-9*math.Abs(hi)) {
						c.Failf("A01/plain-out-of-range", "plain value %g outside [%g,%g]", pl, lo, hi)
					}
				}
				c.Count("writes", 1)
				c.Distinct(kind, class(v), lo, hi)
			}
			c.Evals(60)
			if i < 2 {
				c.Sample("history", fmt.Sprintf("range [%g,%g], 60 writes, final %g", lo, hi, p.GetValue()))
			}
		})
	}
	// Concurrent: single-writer monotone stream, several readers.
	for rep := 0; rep < r.N(6, 40); rep++ {
		r.Case(fmt.Sprintf("conc-mono/%d", rep), func(c *mon.C) {
			p := param.New(1, "X").Build()
			const N = 1 << 15
			var stop atomic.Bool
			var wg sync.WaitGroup
			reads := make([]int, 4)
			for g := 0; g < 4; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					last := -1.0
					for !stop.Load() {
						v := p.GetValue()
						s := v * N
						if s != math.Trunc(s) || s < 0 || s > N {
							c.Failf("A01/torn-read", "reader saw %v (seq %v), never written", v, s)
						}
						if s < last {
							c.Failf("A01/stale-read", "reader went from seq %v back to %v", last, s)
						}
						last = s
						reads[g]++
					}
				}()
			}
			for k := 1; k <= N; k++ {
				p.SetValue(float64(k) / N)
			}
			stop.Store(true)
			wg.Wait()
			if p.GetValue() != 1 {
				c.Failf("A01/lost-write", "after the last write of 1 the value is %v", p.GetValue())
			}
			c.Distinct("mono", rep)
			c.Count("concurrent_reads", reads[0]+reads[1]+reads[2]+reads[3])
		})
	}
	if r.Race {
		return
	}
	// Concurrent: multi-writer register histories, linearizability per history.
	r.Par("conc-lin", r.N(200, 3000), func(c *mon.C, i int) {
		p := param.New(1, "X").Build()
		var h mon.Recorder
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			seed := c.Rand.Uint64()
			wg.Add(1)
			go func() {
				defer wg.Done()
				rr := rand.New(rand.NewPCG(seed, 1))
				for k := 0; k < 8; k++ {
					if rr.IntN(2) == 0 {
						v := float64(g*8+k+1) / 64
						h.Do(g, v, func() any { p.SetValue(v); return nil })
					} else {
						h.Do(g, nil, func() any { return p.GetValue() })
					}
					if rr.IntN(3) == 0 {
						time.Sleep(time.Microsecond)
					}
				}
			}()
		}
		wg.Wait()
		ops := h.Ops()
		ok, inc := mon.Linearizable(ops, 0.0, func(st any, o mon.Op) (bool, any) {
			if o.In != nil {
				return true, o.In
			}
			return o.Out == st, st
		}, func(st any) string { return fmt.Sprint(st) }, 200000)
		if inc {
			c.Count("inconclusive_histories", 1)
		} else if !ok {
			c.Failf("A01/not-linearizable", "register history:\n%v", ops)
		}
		ov := mon.Overlap(ops)
		c.Count("overlapping_pairs", ov)
		if ov > 0 {
			c.Distinct("lin", i, ov)
		}
	})
}

func clampExp(v float64) float64 {
	if math.IsNaN(v) {
		return math.NaN()
	}
	return math.Min(1, math.Max(0, v))
}

func a02(r *mon.Run) {
	r.Par("range", r.N(400, 10000), func(c *mon.C, i int) {
		lo := (c.Rand.Float64()*2 - 1) * mon.LogUniform(c.Rand, 1e-2, 1e5)
		hi := lo + mon.LogUniform(c.Rand, 1e-2, 1e5)
		bld := param.New(1, "P").Range(lo, hi).Default(lo)
		if c.Rand.IntN(3) == 0 { // a step count does not bend the conversion
			bld = bld.Steps(int32(1 + c.Rand.IntN(200)))
		}
		p := bld.Build()
		w := hi - lo
		tol := 1e-9
		if n := p.Normalize(lo); n != 0 {
			c.Failf("A02/min", "Normalize(min)=%g", n)
		}
		if n := p.Normalize(hi); n != 1 {
			c.Failf("A02/max", "Normalize(max)=%g", n)
		}
		if d := p.Denormalize(0); !mon.Close(d, lo, tol*w, 1e-12) {
			c.Failf("A02/den0", "Denormalize(0)=%g, min %g", d, lo)
		}
		if d := p.Denormalize(1); !mon.Close(d, hi, tol*w, 1e-12) {
			c.Failf("A02/den1", "Denormalize(1)=%g, max %g", d, hi)
		}
		for k := 0; k < 40; k++ {
			x := c.Rand.Float64()
			y := c.Rand.Float64()
			if x > y {
				x, y = y, x
			}
			dx, dy := p.Denormalize(x), p.Denormalize(y)
			if dx > dy {
				c.Failf("A02/monotone", "[%g,%g]: Denormalize(%g)=%g > Denormalize(%g)=%g", lo, hi, x, dx, y, dy)
			}
			if !mon.Close(dx, lo+x*w, tol*w, 1e-12) {
				c.Failf("A02/linear", "[%g,%g]: Denormalize(%g)=%g expected %g", lo, hi, x, dx, lo+x*w)
			}
			if b := p.Normalize(dx); !(math.Abs(b-x) <= 1e-7) {
				c.Failf("A02/inverse", "[%g,%g]: %g -> %g -> %g", lo, hi, x, dx, b)
			}
			p.SetPlainValue(dx)
			if g := p.GetPlainValue(); !mon.Close(g, dx, tol*w, 1e-9) {
				c.Failf("A02/setget", "[%g,%g]: SetPlainValue(%g) then GetPlainValue=%g", lo, hi, dx, g)
			}
			p.SetValue(x)
			if g := p.GetPlainValue(); !mon.Close(g, dx, tol*w, 1e-9) {
				c.Failf("A02/getplain", "[%g,%g]: value %g plain %g, Denormalize %g", lo, hi, x, g, dx)
			}
			c.Distinct(lo, hi, x)
		}
		out := hi + w*c.Rand.Float64()
		if p.Normalize(out) != 1 || p.Normalize(lo-w*c.Rand.Float64()-1e-3) != 0 {
			c.Failf("A02/clamp", "out-of-range plain not clamped")
		}
		p.SetPlainValue(out)
		if p.GetValue() != 1 {
			c.Failf("A02/clampset", "SetPlainValue above max stored %g", p.GetValue())
		}
		c.Evals(40)
	})
	// Discrete parameters: step k of stepCount shows option k and its text parses back to it.
	r.Par("choice", r.N(150, 600), func(c *mon.C, i int) {
		n := 1 + i%60
		if i >= 120 {
			n = 1 + c.Rand.IntN(300)
		}
		lo := float64(0)
		gap := 1.0
		if i%3 == 1 {
			lo = float64(c.Rand.IntN(40) - 20)
		}
		if i%3 == 2 {
			lo = float64(c.Rand.IntN(5))
			gap = float64(1 + c.Rand.IntN(4))
		}
		var opts []param.ChoiceOption
		for k := 0; k < n; k++ {
			opts = append(opts, param.ChoiceOption{Value: lo + gap*float64(k), Name: fmt.Sprintf("Opt %d", k), Aliases: []string{fmt.Sprintf("o%d", k), fmt.Sprintf("aLiAs%d", k), fmt.Sprintf("Third Way %d", k)}})
		}
		p := param.Choice(3, "C", opts).Build()
		if n > 1 && int(p.StepCount) != n-1 {
			c.Failf("A02/stepcount", "%d options declare step count %d; the host then addresses %d values", n, p.StepCount, p.StepCount+1)
		}
		for k := 0; k < n && n > 1; k++ {
			x := float64(k) / float64(n-1)
			want := opts[k].Name
			if s := p.FormatValue(x); s != want {
				c.Failf("A02/choice-text", "step %d of %d (normalized %v, values from %g by %g) shows %q, expected %q", k, n-1, x, lo, gap, s, want)
			}
			y := p.Normalize(opts[k].Value)
			if s := p.FormatValue(y); s != want {
				c.Failf("A02/choice-text-plain", "option value %g shows %q, expected %q", opts[k].Value, s, want)
			}
			for _, txt := range []string{want, strings.ToUpper(want), strings.ToLower(want), fmt.Sprintf("o%d", k), fmt.Sprintf("O%d", k), fmt.Sprintf("aLiAs%d", k), fmt.Sprintf("ALIAS%d", k), fmt.Sprintf("alias%d", k), fmt.Sprintf("third way %d", k), fmt.Sprintf("THIRD WAY %d", k)} {
				back, err := p.ParseValue(txt)
				if err != nil || !(math.Abs(back-x) <= 1e-9) {
					c.Failf("A02/choice-parse", "%q parses to %v (err %v), expected %v", txt, back, err, x)
				}
			}
			c.Distinct("choice", n, lo, gap, k)
		}
		if _, err := p.ParseValue("no such option"); err == nil {
			c.Failf("A02/choice-unknown", "unknown option text accepted")
		}
		c.Evals(n)
	})
	r.Case("toggle", func(c *mon.C) {
		p := param.New(1, "T").Toggle().Build()
		if p.StepCount != 1 || p.Denormalize(0) != 0 || p.Denormalize(1) != 1 {
			c.Failf("A02/toggle", "toggle %+v", p)
		}
		b := param.BypassParameter(1, "B").Build()
		if b.StepCount != 1 || b.FormatValue(0) != "Active" || b.FormatValue(1) != "Bypassed" {
			c.Failf("A02/bypass", "bypass steps=%d %q %q", b.StepCount, b.FormatValue(0), b.FormatValue(1))
		}
		if b.Flags&param.IsBypass == 0 || b.Flags&param.CanAutomate == 0 || b.GetValue() != 0 {
			c.Failf("A02/bypass-flag", "a bypass parameter has flags %#x and starts at %g", b.Flags, b.GetValue())
		}
		std, comp := param.NewAutoRegistry(), param.NewAutoRegistry()
		e1, e2, e3 := std.RegisterStandardControls(), comp.RegisterCompressorControls(), comp.RegisterEQBand(1)
		if e1 != nil || e2 != nil || e3 != nil {
			c.Failf("A02/groups", "registering ready-made groups: %v %v %v", e1, e2, e3)
		}
		for _, p := range append(std.All(), comp.All()...) {
			if (p.Flags&param.IsBypass != 0) != (p.Name == "Bypass") {
				c.Failf("A02/bypass-flag", "%q has flags %#x", p.Name, p.Flags)
			}
			c.Distinct("group", p.Name)
		}
		for _, n := range []string{"Auto Gain", "Band 1 Enable"} {
			if p := comp.GetByName(n); p == nil || p.StepCount != 1 || p.GetValue() != 0 || p.FormatValue(0) != "Off" || p.FormatValue(1) != "On" {
				c.Failf("A02/switch", "%q: %+v", n, p)
			}
		}
		for s := int32(1); s < 40; s++ {
			q := param.New(1, "S").Range(0, float64(s)).Steps(s).Build()
			for k := int32(0); k <= s; k++ {
				x := float64(k) / float64(s)
				if t := q.FormatValue(x); t != fmt.Sprint(k) {
					c.Failf("A02/step-text", "step %d/%d shows %q", k, s, t)
				}
				if b, err := q.ParseValue(fmt.Sprint(k)); err != nil || !(math.Abs(b-x) <= 1e-12) {
					c.Failf("A02/step-parse", "step %d/%d parses %v %v", k, s, b, err)
				}
				c.Distinct("steps", s, k)
			}
			for _, lo := range []float64{0, -7, 3, -1000} {
				q := param.New(1, "S").Range(lo, lo+float64(s)).Steps(s).Build()
				for k := int32(0); k <= s; k++ {
					v := lo + float64(k)
					q.SetPlainValue(v)
					if g := q.GetPlainValue(); !(math.Abs(g-v) <= 1e-9) {
						c.Failf("A02/step-plain", "%d steps from %g: SetPlainValue(%g) then GetPlainValue %g", s, lo, v, g)
					}
					if t := q.FormatValue(q.GetValue()); t != fmt.Sprintf("%.0f", v) && t != fmt.Sprintf("-%.0f", -v) {
						c.Failf("A02/step-plain-text", "%d steps from %g: plain %g shows %q", s, lo, v, t)
					}
					d := param.New(1, "D").Range(lo, lo+float64(s)).Steps(s).Default(v).Build()
					if g := d.GetPlainValue(); !(math.Abs(g-v) <= 1e-9) {
						c.Failf("A02/step-default", "%d steps from %g: Default(%g) is %g", s, lo, v, g)
					}
				}
			}
		}
	})
}

type fp struct {
	name string
	mk   func() *param.Parameter
	tol  func(plain float64) float64 // display resolution in plain units; <0 means "shown as a limit marker"
}

func constTol(t float64) func(float64) float64 { return func(float64) float64 { return t } }

func builders(r *rand.Rand) []fp {
	freqTol := func(v float64) float64 {
		if v >= 999.9 {
			return 5.0001
		}
		return 0.0501
	}
	timeTol := func(v float64) float64 {
		if v >= 999.9 {
			return 5.0001
		}
		return 0.0501
	}
	dbTol := func(v float64) float64 {
		if v <= -60 {
			return -1
		}
		return 0.0501
	}
	mx := mon.LogUniform(r, 50, 20000)
	return []fp{
		{"gain", func() *param.Parameter { return param.GainParameter(1, "p").Build() }, constTol(.0501)},
		{"mix", func() *param.Parameter { return param.MixParameter(1, "p").Build() }, constTol(.501)},
		{"freq", func() *param.Parameter { return param.FrequencyParameter(1, "p", 20, 20000, 1000).Build() }, freqTol},
		{"freq2", func() *param.Parameter { return param.FrequencyParameter(1, "p", 0.1, mx, 1).Build() }, freqTol},
		{"time", func() *param.Parameter { return param.TimeParameter(1, "p", 0, 5000, 10).Build() }, timeTol},
		{"time2", func() *param.Parameter { return param.TimeParameter(1, "p", 0.1, mx, 10).Build() }, timeTol},
		{"attack", func() *param.Parameter { return param.AttackParameter(1, "p", 100).Build() }, timeTol},
		{"release", func() *param.Parameter { return param.ReleaseParameter(1, "p", 3000).Build() }, timeTol},
		{"ratio", func() *param.Parameter { return param.RatioParameter(1, "p", 1, 20, 4).Build() }, constTol(.0501)},
		{"ratio100", func() *param.Parameter { return param.RatioParameter(1, "p", 1, 100, 4).Build() }, constTol(.0501)},
		{"q", func() *param.Parameter { return param.QParameter(1, "p", 0.1, 20, 0.7).Build() }, constTol(.00501)},
		{"pan", func() *param.Parameter { return param.PanParameter(1, "p").Build() }, constTol(.501)},
		{"phase", func() *param.Parameter { return param.PhaseParameter(1, "p").Build() }, constTol(.0501)},
		{"feedback", func() *param.Parameter { return param.FeedbackParameter(1, "p").Build() }, constTol(.501)},
		{"resonance", func() *param.Parameter { return param.ResonanceParameter(1, "p").Build() }, constTol(.000501)},
		{"drive", func() *param.Parameter { return param.DriveParameter(1, "p").Build() }, constTol(.501)},
		{"threshold", func() *param.Parameter { return param.ThresholdParameter(1, "p", -60, 0, -20).Build() }, dbTol},
		{"threshold80", func() *param.Parameter { return param.ThresholdParameter(1, "p", -80, 6, -20).Build() }, dbTol},
		{"rate", func() *param.Parameter { return param.RateParameter(1, "p", 0.01, 20, 1).Build() }, func(v float64) float64 {
			if v < 0.9999 {
				return .000501
			}
			return .00501
		}},
		{"depth", func() *param.Parameter { return param.DepthParameter(1, "p").Build() }, constTol(.501)},
		{"bypass", func() *param.Parameter { return param.BypassParameter(1, "p").Build() }, constTol(.501)},
		{"plain", func() *param.Parameter { return param.New(1, "p").Range(-5, mx).Build() }, constTol(.00501)},
		{"steps", func() *param.Parameter { return param.New(1, "p").Range(0, 12).Steps(12).Build() }, constTol(.501)},
		{"knee", func() *param.Parameter {
			a := param.NewAutoRegistry()
			a.RegisterCompressorControls()
			return a.GetByName("Knee")
		}, constTol(.0501)},
		{"f/freq", fmtP(1, 20000, param.FrequencyFormatter, param.FrequencyParser), freqTol},
		{"f/db", fmtP(-59, 24, param.DecibelFormatter, param.DecibelParser), dbTol},
		{"f/percent", fmtP(0, 200, param.PercentFormatter, param.PercentParser), constTol(.501)},
		{"f/time", fmtP(0, 10000, param.TimeFormatter, param.TimeParser), func(v float64) float64 {
			if v < 0.9999 {
				return 5.1e-6
			}
			return timeTol(v)
		}},
		{"f/timeus", fmtP(0, 2, param.TimeFormatter, param.TimeParser), func(v float64) float64 {
			if v < 0.9999 {
				return 5.1e-6
			}
			return timeTol(v)
		}},
		{"f/ratio", fmtP(1, 100, param.RatioFormatter, param.RatioParser), constTol(.0501)},
		{"f/pan", fmtP(-1, 1, param.PanFormatter, param.PanParser), func(v float64) float64 {
			if math.Abs(v) < 0.0101 {
				return .0101
			}
			return .00501
		}},
		{"f/onoff", fmtP(0, 1, param.OnOffFormatter, param.OnOffParser), constTol(.501)},
	}
}

func fmtP(lo, hi float64, f func(float64) string, p func(string) (float64, error)) func() *param.Parameter {
	return func() *param.Parameter { return param.New(1, "p").Range(lo, hi).Formatter(f, p).Build() }
}

// damage cuts, doubles, swaps or inserts bytes of a displayed text.
func damage(r *rand.Rand, s string) string {
	b := []byte(s)
	for n := 1 + r.IntN(3); n > 0 && len(b) > 0; n-- {
		k := r.IntN(len(b))
		switch r.IntN(5) {
		case 0:
			b = b[:k]
		case 1:
			b = b[k:]
		case 2:
			b = append(b[:k], b[k+1:]...)
		case 3:
			b = append(b[:k+1], b[k:]...)
		case 4:
			b[k] = "0123456789.-+eE kKHzdBmsu%:LRC#b\x00\xff"[r.IntN(34)]
		}
	}
	return string(b)
}

func a03(r *mon.Run) {
	names := builders(r.RandFor("b"))
	r.Par("builder", len(names), func(c *mon.C, i int) {
		b := builders(c.Rand)[i]
		p := b.mk()
		n := r.N(2000, 40000)
		for k := 0; k <= n; k++ {
			x := float64(k) / float64(n)
			if k%2 == 1 {
				x = c.Rand.Float64()
			}
			plain := p.Denormalize(x)
			s := p.FormatValue(x)
			y, err := p.ParseValue(s)
			if err != nil {
				c.Failf("A03/unparseable/"+b.name, "value %g shows as %q, which it cannot parse: %v", plain, s, err)
				break
			}
			if !(y >= 0 && y <= 1) {
				c.Failf("A03/range/"+b.name, "%q parses to %g", s, y)
				break
			}
			back := p.Denormalize(y)
			tol := b.tol(plain)
			if tol < 0 {
				if y != 0 && back > -60 {
					c.Failf("A03/limit/"+b.name, "%g shows as %q which parses to %g", plain, s, back)
				}
			} else if !(math.Abs(back-plain) <= tol+1e-9*math.Abs(plain)) {
				c.Failf("A03/roundtrip/"+b.name, "%g shows as %q which parses to %g (resolution %g)", plain, s, back, tol)
			}
			c.Distinct(b.name, s)
			if k < 1 {
				c.Sample(b.name, fmt.Sprintf("%g -> %q -> %g", plain, s, back))
			}
		}
		c.Evals(n)
		// hostile text: never a panic, never out of range
		junk := []string{"", " ", "nan", "NaN", "inf", "-inf", "∞", "1e999", "-1e999", "0x10", "1,5", "L", "R", "C", "Hz", "kHz", "dB", "%", ":1", "-", "--5", "5 5", "\x00", "°", "ms", "s", "us", "µs", "C#", "C-", "H3", "C99999999999999999999", strings.Repeat("9", 400), "left", "right", "center", "on", "On", "infinite"}
		for k := 0; k < 300; k++ { // damaged versions of texts it displays
			s := damage(c.Rand, p.FormatValue(c.Rand.Float64()))
			c.NoPanic("A03/parse/"+b.name, func() {
				y, err := p.ParseValue(s)
				if err == nil && !(y >= 0 && y <= 1) {
					c.Failf("A03/parse-range/"+b.name, "%q parses to %v", s, y)
				}
			})
		}
		for k := 0; k < 200; k++ {
			s := junk[k%len(junk)]
			if k >= len(junk) {
				m := c.Rand.IntN(12)
				bs := make([]byte, m)
				al := "0123456789.-+eE kKHhzZdDbBmMsSµuU%:LlRrCc∞#infNa\x00\xff"
				for q := range bs {
					bs[q] = al[c.Rand.IntN(len(al))]
				}
				s = string(bs)
			}
			c.NoPanic("A03/parse/"+b.name, func() {
				y, err := p.ParseValue(s)
				if err == nil && !(y >= 0 && y <= 1) {
					c.Failf("A03/parse-range/"+b.name, "%q parses to %v", s, y)
				}
			})
		}
		for _, x := range mon.HostileF64 {
			c.NoPanic("A03/format/"+b.name, func() { _ = p.FormatValue(x) })
		}
	})
	r.Case("notes", func(c *mon.C) {
		// exact for every MIDI note under every sub-range
		for lo := 0; lo < 128; lo += 1 {
			for _, n := range []int{127 - lo, 12, 22, 24, 39, 49, 61} {
				hi := lo + n
				if n < 1 || hi > 127 {
					continue
				}
				p := param.New(1, "n").Range(float64(lo), float64(hi)).Steps(int32(n)).Formatter(param.NoteFormatter, param.NoteParser).Build()
				for k := lo; k <= hi; k++ {
					s := p.FormatValue(float64(k-lo) / float64(n))
					v, err := param.NoteParser(s)
					if err != nil || v != float64(k) {
						c.Failf("A03/note-roundtrip", "note %d in [%d,%d] shows as %q which parses to %v (%v)", k, lo, hi, s, v, err)
					}
					c.Distinct("note", lo, hi, k)
				}
			}
		}
		for k, w := range map[int]string{60: "C4", 69: "A4", 0: "C-1", 127: "G9", 61: "C#4"} {
			if s := param.NoteFormatter(float64(k)); s != w {
				c.Failf("A03/note-name", "note %d shows as %q, expected %q", k, s, w)
			}
		}
		// the names go on below and above the MIDI notes, whole and in between
		for k := -60; k <= 300; k++ {
			s := param.NoteFormatter(float64(k))
			if v, err := param.NoteParser(s); err != nil || v != float64(k) {
				c.Failf("A03/note-roundtrip", "note %d shows as %q which parses to %v (%v)", k, s, v, err)
			}
			for _, d := range []float64{-.4, .4} {
				if g := param.NoteFormatter(float64(k) + d); g != s {
					c.Failf("A03/note-nearest", "note %g shows as %q, note %d as %q", float64(k)+d, g, k, s)
				}
			}
			c.Distinct("far note", k)
		}
		for _, x := range append([]float64{-1, -12, -13, 128, 1000}, mon.HostileF64...) {
			c.NoPanic("A03/note-format", func() { _ = param.NoteFormatter(x) })
		}
		for s, w := range map[string]float64{"c4": 60, "Db4": 61, "EB4": 63, " F#3 ": 54, "A-1": 9} {
			if v, err := param.NoteParser(s); err != nil || v != w {
				c.Failf("A03/note-parse", "%q parses to %v (%v), expected %v", s, v, err, w)
			}
		}
		// every letter and accidental in every octave: semitones above C, give or take one
		for i, semi := range []int{0, 2, 4, 5, 7, 9, 11} {
			for acc, d := range map[string]int{"": 0, "#": 1, "b": -1} {
				for oct := -1; oct <= 9; oct++ {
					if n := 12*(oct+1) + semi + d; n < 0 || n > 127 {
						continue
					}
					s := fmt.Sprint("CDEFGAB"[i:i+1], acc, oct)
					for _, s := range []string{s, strings.ToLower(s), strings.ToUpper(s), " " + s + " "} {
						if v, err := param.NoteParser(s); err != nil || v != float64(12*(oct+1)+semi+d) {
							c.Failf("A03/note-parse", "%q parses to %v (%v), expected %v", s, v, err, 12*(oct+1)+semi+d)
						}
						c.Distinct("spelled", s)
					}
				}
			}
		}
		for _, s := range []string{"H4", "4", "", "C", "C#", "#4", "X-1", "C##4", "Cx", "C4.5", "C4x", "-1", "Do4"} {
			if v, err := param.NoteParser(s); err == nil {
				c.Failf("A03/note-refuse", "%q parses to %v", s, v)
			}
		}
	})
	r.Case("spellings", func(c *mon.C) {
		// the units users may type, with or without spaces
		for _, u := range []struct {
			name  string
			parse func(string) (float64, error)
			units map[string]float64
		}{
			{"freq", param.FrequencyParser, map[string]float64{"": 1, "Hz": 1, "hz": 1, "kHz": 1000, "khz": 1000}},
			{"db", param.DecibelParser, map[string]float64{"": 1, "dB": 1, "db": 1}},
			{"percent", param.PercentParser, map[string]float64{"": 1, "%": 1}},
			{"time", param.TimeParser, map[string]float64{"": 1, "ms": 1, "s": 1000, "µs": 1e-3, "us": 1e-3}},
			{"ratio", param.RatioParser, map[string]float64{"": 1, ":1": 1}},
			{"pan", param.PanParser, map[string]float64{"": 1, "L": -.01, "l": -.01, "R": .01, "r": .01}},
		} {
			for unit, k := range u.units {
				for _, x := range []string{"0", "1", "12", "0.25", "-6.5", "440", "3e2"} {
					if u.name == "pan" && x == "3e2" {
						continue
					}
					w, _ := strconv.ParseFloat(x, 64)
					w *= k
					for _, s := range []string{x + unit, x + " " + unit, "  " + x + unit + " ", " " + x + " " + unit + "\t"} {
						if v, err := u.parse(s); err != nil || !(math.Abs(v-w) <= 1e-9*math.Abs(w)) {
							c.Failf("A03/spelling/"+u.name, "%q parses to %v (%v), expected %v", s, v, err, w)
						}
						c.Distinct(u.name, s)
					}
					for _, s := range []string{x + "q", x + unit + "x", "--" + x, "one" + unit} {
						if v, err := u.parse(s); err == nil {
							c.Failf("A03/refuse/"+u.name, "%q parses to %v", s, v)
						}
					}
				}
			}
		}
		for s, w := range map[string]float64{"c": 0, "C": 0, "center": 0, "CENTER": 0, " Center ": 0} {
			if v, err := param.PanParser(s); err != nil || v != w {
				c.Failf("A03/spelling/pan", "%q parses to %v (%v)", s, v, err)
			}
		}
		for s, w := range map[string]float64{"on": 1, "ON": 1, " On ": 1, "yes": 1, "True": 1, "1": 1, "off": 0, "OFF": 0, "no": 0, "False": 0, "0": 0} {
			if v, err := param.OnOffParser(s); err != nil || v != w {
				c.Failf("A03/spelling/onoff", "%q parses to %v (%v)", s, v, err)
			}
		}
		for _, s := range []string{"", "2", "o", "onn", "maybe"} {
			if v, err := param.OnOffParser(s); err == nil {
				c.Failf("A03/refuse/onoff", "%q parses to %v", s, v)
			}
		}
	})
	r.Par("text", r.N(40, 800), func(c *mon.C, i int) {
		for k := 0; k < 200; k++ {
			for _, d := range []struct {
				name, s string
				parse   func(string) (float64, error)
			}{
				{"note", param.NoteFormatter(float64(c.Rand.IntN(140) - 6)), param.NoteParser},
				{"filter", param.FilterTypeNames[c.Rand.IntN(len(param.FilterTypeNames))], param.FilterTypeParser},
				{"gate", param.GateTypeNames[c.Rand.IntN(len(param.GateTypeNames))], param.GateTypeParser},
				{"onoff", param.OnOffFormatter(c.Rand.Float64()), param.OnOffParser},
				{"pan", param.PanFormatter(c.Rand.Float64()*2 - 1), param.PanParser},
				{"time", param.TimeFormatter(mon.LogUniform(c.Rand, 1e-3, 1e5)), param.TimeParser},
				{"freq", param.FrequencyFormatter(mon.LogUniform(c.Rand, 1, 1e5)), param.FrequencyParser},
				{"ratio", param.RatioFormatter(mon.LogUniform(c.Rand, 1, 200)), param.RatioParser},
			} {
				s := damage(c.Rand, d.s)
				c.NoPanic("A03/text/"+d.name, func() { _, _ = d.parse(s) })
				c.Distinct(d.name, s)
			}
		}
	})
	// Choices: every option's name and aliases, in any case, name that option; the displayed
	// text is the nearest option's; text that is none of them is refused.
	r.Par("choice", r.N(60, 1500), func(c *mon.C, i int) {
		words := []string{"Low", "Low Pass", "Low Pass 24", "Lowpass", "High", "High Shelf", "Shelf", "Band", "Bandpass", "Notch", "Off", "On", "Sine", "Sine Fold", "Saw", "Sawtooth", "1/4", "1/4T", "1/8", "A", "AB"}
		c.Rand.Shuffle(len(words), func(a, b int) { words[a], words[b] = words[b], words[a] })
		n := 2 + c.Rand.IntN(9)
		step := mon.Pick(c.Rand, 1, 1, 2, .5, 10.0)
		at := mon.Pick(c.Rand, 0, 0, 1, -3, -100.0)
		var opts []param.ChoiceOption
		known := map[string]float64{}
		w := 0
		for k := 0; k < n; k++ {
			o := param.ChoiceOption{Value: at + float64(k)*step, Name: words[w]}
			w++
			for a := c.Rand.IntN(3); a > 0 && w < len(words)-n+k; a-- {
				o.Aliases = append(o.Aliases, words[w])
				w++
			}
			for _, t := range append([]string{o.Name}, o.Aliases...) {
				known[strings.ToLower(t)] = o.Value
			}
			opts = append(opts, o)
		}
		p := param.Choice(1, "c", opts).Build()
		for k, o := range opts {
			x := float64(k) / float64(n-1)
			if s := p.FormatValue(x); s != o.Name {
				c.Failf("A03/choice-name", "option %d of %d (%g) shows as %q, its name is %q", k, n, o.Value, s, o.Name)
			}
			for _, t := range append([]string{o.Name}, o.Aliases...) {
				for _, t := range []string{t, strings.ToLower(t), strings.ToUpper(t)} {
					y, err := p.ParseValue(t)
					if err != nil || !(math.Abs(p.Denormalize(y)-o.Value) <= 1e-9*(1+math.Abs(o.Value))) {
						c.Failf("A03/choice-parse", "%q names the option at %g, parses to %g (%v)", t, o.Value, p.Denormalize(y), err)
					}
					c.Distinct("choice", i, t)
				}
			}
		}
		for _, t := range words {
			for _, t := range []string{t, t[:len(t)/2], t + "x", t[:len(t)-1], t + " 9"} {
				if _, ok := known[strings.ToLower(strings.TrimSpace(t))]; ok {
					continue
				}
				if y, err := p.ParseValue(t); err == nil {
					c.Failf("A03/choice-refuse", "%q, no option of %v, parses to %g", t, known, p.Denormalize(y))
				}
			}
		}
	})
	r.Case("lists", func(c *mon.C) {
		for i, n := range param.FilterTypeNames {
			if v, err := param.FilterTypeParser(n); err != nil || v != float64(i) || param.FilterTypeFormatter(float64(i)) != n {
				c.Failf("A03/filtertype", "%s: %v %v", n, v, err)
			}
			p := param.New(1, "f").Range(0, float64(len(param.FilterTypeNames)-1)).Formatter(param.FilterTypeFormatter, param.FilterTypeParser).Build()
			x := float64(i) / float64(len(param.FilterTypeNames)-1)
			if p.FormatValue(x) != n {
				c.Failf("A03/filtertype-step", "step %d shows %q", i, p.FormatValue(x))
			}
			c.Distinct("filter", i)
		}
		for i, n := range param.GateTypeNames {
			if v, err := param.GateTypeParser(n); err != nil || v != float64(i) || param.GateTypeFormatter(float64(i)) != n {
				c.Failf("A03/gatetype", "%s: %v %v", n, v, err)
			}
			c.Distinct("gate", i)
		}
		for _, x := range mon.HostileF64 {
			c.NoPanic("A03/list-format", func() { _ = param.FilterTypeFormatter(x); _ = param.GateTypeFormatter(x) })
		}
	})
}
