package main

// #include "host.h"
import "C"
import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/bits"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf16"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/plugin"
	"github.com/justyntemme/vst3go/pkg/vst3"
	"verif/harness/mon"
)

func randState(c *mon.C, ids []uint32) (*monStateful, *param.Registry) {
	reg := param.NewRegistry()
	for _, id := range ids {
		reg.Add(param.New(id, fmt.Sprintf("P%d", id)).Range(-1, 1).Default(0.5).Build())
	}
	return &monStateful{monProc: &monProc{reg: reg, buses: bus.NewStereoConfiguration()}}, reg
}

func h05(r *mon.Run) {
	r.Par("state", r.N(1000, 15000), func(c *mon.C, i int) {
		var ids []uint32
		for n := mon.Pick(c.Rand, 0, 1, 3, 40, 300); len(ids) < n; {
			ids = append(ids, uint32(len(ids)*7+c.Rand.IntN(7)))
		}
		src, reg := randState(c, ids)
		var vals []float64
		for _, id := range ids {
			reg.Get(id).SetValue(c.Rand.Float64())
			vals = append(vals, reg.Get(id).GetValue())
		}
		stateful := c.Rand.IntN(3) > 0
		if stateful {
			src.custom = make([]byte, mon.Pick(c.Rand, 0, 1, 100, 3900, 4000, 4096, 4500, 9000, 70000))
			for k := range src.custom {
				src.custom[k] = byte(c.Rand.Uint32())
			}
		}
		var sp, dp plugin.Processor = src.monProc, nil
		dst, dreg := randState(c, ids)
		dp = dst.monProc
		if stateful {
			sp, dp = src, dst
		}
		a, e1 := open(sp)
		b, e2 := open(dp)
		if e1 != nil || e2 != nil {
			c.Failf("open", "%v %v", e1, e2)
			return
		}
		defer a.close()
		defer b.close()
		prefix := make([]byte, mon.Pick(c.Rand, 0, 0, 5, 4096))
		get := func(s *stream, how int) int32 {
			if how == 0 {
				return int32(C.c_getState(a.comp, s.p()))
			}
			return int32(C.e_getState(a.ctrl, s.p()))
		}
		put := func(s *stream, how int) int32 {
			switch how {
			case 0:
				return int32(C.c_setState(b.comp, s.p()))
			case 1:
				return int32(C.e_setState(b.ctrl, s.p()))
			}
			return int32(C.e_setComponentState(b.ctrl, s.p()))
		}
		short := func() int { return mon.Pick(c.Rand, 0, 0, 1, 7, 100, 4096, 5000) }
		// saved whole, whatever the stream takes at a time
		ref := newStream(c.Rand)
		defer ref.free()
		ref.set(append([]byte(nil), prefix...))
		ref.seek(len(prefix))
		wr := short()
		if len(src.custom) > 5000 && wr == 1 {
			wr = 50
		}
		ref.short(0, wr)
		ref.noSeek(c.Rand.IntN(2) == 0, c.Rand.IntN(2) == 0)
		if res := get(ref, c.Rand.IntN(2)); res != 0 {
			c.Failf("state/get", "getState returned %d on a stream taking at most %d bytes a call", res, wr)
			return
		}
		saved := ref.bytes()
		if !bytes.Equal(saved[:len(prefix)], prefix) {
			c.Failf("state/prefix", "getState overwrote what the host had already put in the stream")
			return
		}
		check := func(what string) {
			for k, id := range ids {
				if g := dreg.Get(id).GetValue(); g != vals[k] {
					c.Failf("state/value", "%s: parameter %d is %v, saved %v (short writes %d, %d bytes of state)", what, id, g, vals[k], wr, len(saved)-len(prefix))
					return
				}
			}
			if stateful && len(src.custom) > 0 && !bytes.Equal(dst.custom, src.custom) {
				c.Failf("state/custom", "%s: custom data of %d bytes came back as %d bytes", what, len(src.custom), len(dst.custom))
			}
		}
		for round := 0; round < 3; round++ {
			for _, id := range ids {
				dreg.Get(id).SetValue(0.123456)
			}
			dst.custom = nil
			st := newStream(c.Rand)
			st.set(saved)
			st.seek(len(prefix))
			rd := short()
			if len(saved) > 20000 && rd == 1 {
				rd = 60
			}
			ns, nt := c.Rand.IntN(3) == 0, c.Rand.IntN(3) == 0
			st.short(rd, 0)
			st.noSeek(ns, nt)
			how := c.Rand.IntN(3)
			if res := put(st, how); res != 0 {
				c.Failf("state/set", "setState returned %d for %d bytes on a stream giving at most %d a call (seek %v tell %v)", res, len(saved)-len(prefix), rd, !ns, !nt)
			} else {
				check(fmt.Sprintf("entry %d, short reads %d, seek %v, tell %v", how, rd, !ns, !nt))
			}
			st.free()
			c.Evals(1)
			c.Distinct(len(ids), len(saved), rd, ns, nt, how)
		}
		// failing streams are reported and change nothing
		for round := 0; round < 3; round++ {
			for _, id := range ids {
				dreg.Get(id).SetValue(0.123456)
			}
			dst.custom = []byte("before")
			st := newStream(c.Rand)
			st.set(saved)
			st.seek(len(prefix))
			st.short(mon.Pick(c.Rand, 1, 9, 1000), 0)
			st.noSeek(c.Rand.IntN(2) == 0, false)
			st.failAfter(c.Rand.IntN(4), -1, false)
			res := put(st, c.Rand.IntN(3))
			gotAll := st.pos() >= int64(len(saved))
			if res == 0 && !gotAll {
				c.Failf("state/read-error", "setState reports success although the stream failed after %d of %d bytes", st.pos(), len(saved))
			}
			if !gotAll {
				for _, id := range ids {
					if g := dreg.Get(id).GetValue(); !(math.Abs(g-0.123456) <= 1e-15) {
						c.Failf("state/partial", "a stream that failed to read changed parameter %d", id)
						break
					}
				}
				if string(dst.custom) != "before" {
					c.Failf("state/partial", "a stream that failed to read changed the custom data")
				}
			}
			st.free()
			wt := newStream(c.Rand)
			mw := mon.Pick(c.Rand, 0, 5, 100)
			k := c.Rand.IntN(3)
			zero := c.Rand.IntN(2) == 0
			wt.short(0, mw)
			wt.failAfter(-1, k, zero)
			res = get(wt, c.Rand.IntN(2))
			if n := len(wt.bytes()); res == 0 && n < len(saved)-len(prefix) {
				c.Failf("state/write-error", "getState reports success although only %d of %d bytes could be written (zero-length writes: %v)", n, len(saved)-len(prefix), zero)
			}
			wt.free()
			c.Evals(2)
		}
		if C.c_setState(b.comp, nil) == 0 || C.c_getState(a.comp, nil) == 0 || C.e_setComponentState(b.ctrl, nil) == 0 {
			c.Failf("state/null", "a missing stream is reported as success")
		}
		if stateful {
			src.saveErr = errors.New("no")
			st := newStream(c.Rand)
			if C.c_getState(a.comp, st.p()) == 0 {
				c.Failf("state/save-error", "the processor could not save, the host is told it could")
			}
			st.free()
			if len(src.custom) > 0 {
				dst.loadErr = errors.New("no")
				st = newStream(c.Rand)
				st.set(saved)
				st.seek(len(prefix))
				if put(st, 0) == 0 {
					c.Failf("state/load-error", "the processor could not load, the host is told it could")
				}
				st.free()
			}
		}
	})
	// the typed stream wrapper
	r.Par("wrapper", r.N(600, 8000), func(c *mon.C, i int) {
		st := newStream(c.Rand)
		defer st.free()
		w := vst3.NewStreamWrapper(st.p())
		wr, rd := mon.Pick(c.Rand, 0, 0, 1, 3), mon.Pick(c.Rand, 0, 0, 1, 3)
		st.short(rd, wr)
		var ops []any
		for k := 0; k < 20; k++ {
			var err error
			switch c.Rand.IntN(3) {
			case 0:
				v := int32(c.Rand.Uint32())
				ops = append(ops, v)
				err = w.WriteInt32(v)
			case 1:
				v := mon.Pick(c.Rand, math.Float64frombits(c.Rand.Uint64()), math.Copysign(0, -1), math.NaN(), math.Inf(-1), math.SmallestNonzeroFloat64, 0.1)
				ops = append(ops, v)
				err = w.WriteFloat64(v)
			case 2:
				v := randText(c.Rand, mon.Pick(c.Rand, 0, 1, 5, 300))
				if k == 3 && i%8 == 0 && rd == 0 && wr == 0 {
					v = strings.Repeat(v+"x", 1+mon.Pick(c.Rand, 65535, 65536, 65537, 150000, 200001)/(len(v)+1))
				}
				ops = append(ops, v)
				err = w.WriteString(v)
			}
			if err != nil {
				c.Failf("stream/write", "write %d of %T on a working stream (short %d): %v", k, ops[k], wr, err)
				return
			}
		}
		st.seek(0)
		for k, o := range ops {
			switch v := o.(type) {
			case int32:
				g, err := w.ReadInt32()
				if err != nil || g != v {
					c.Failf("stream/int32", "item %d: wrote %d, read %d, %v (short %d/%d)", k, v, g, err, wr, rd)
					return
				}
			case float64:
				g, err := w.ReadFloat64()
				if err != nil || math.Float64bits(g) != math.Float64bits(v) {
					c.Failf("stream/float64", "item %d: wrote %v, read %v, %v", k, v, g, err)
					return
				}
			case string:
				g, err := w.ReadString()
				if err != nil || g != v {
					c.Failf("stream/string", "item %d: wrote %d bytes, read %d bytes, %v (short %d/%d)", k, len(v), len(g), err, wr, rd)
					return
				}
			}
			c.Evals(1)
		}
		// everything from any point on, however the stream delivers it
		all := st.bytes()
		for k := 0; k < 4; k++ {
			at := len(all) - mon.Pick(c.Rand, 0, 1, 2, 4, 4095, 4096, 4097, c.Rand.IntN(len(all)+1))
			at = max(at, 0)
			st.seek(at)
			st.noSeek(c.Rand.IntN(3) == 0, c.Rand.IntN(3) == 0)
			if g, err := w.ReadAll(); err != nil || !bytes.Equal(g, all[at:]) {
				c.Failf("stream/readall", "ReadAll at %d of %d gives %d bytes, %v", at, len(all), len(g), err)
			}
			st.seek(at)
			st.failAfter(c.Rand.IntN(2), -1, false)
			if g, err := w.ReadAll(); err == nil && !bytes.Equal(g, all[at:]) {
				c.Failf("stream/readall-error", "ReadAll at %d of %d on a failing stream gives %d bytes and no error", at, len(all), len(g))
			}
			st.failAfter(-1, -1, false)
			// a stream that lets go of its position once asked for its end
			st.noSeek(false, false)
			st.seek(at)
			st.seeks(1)
			if g, err := w.ReadAll(); err == nil && !bytes.Equal(g, all[at:]) {
				c.Failf("stream/readall-lost", "ReadAll at %d of %d gives %d bytes and no error after the stream refused to seek back", at, len(all), len(g))
			}
			st.seeks(0)
			c.Evals(3)
		}
		st.noSeek(false, false)
		st.seek(len(all))
		// past the end and damaged lengths are errors, not crashes
		if _, err := w.ReadInt32(); err == nil {
			c.Failf("stream/eof", "reading past the end succeeded")
		}
		for _, l := range []int32{-1, math.MinInt32, 100000, 9} {
			st.seek(0)
			if e := w.WriteInt32(l); e != nil {
				break
			}
			st.s.len = 8
			st.seek(0)
			c.NoPanic("stream/bad-length", func() {
				if g, err := w.ReadString(); err == nil {
					c.Failf("stream/bad-length", "a string of stored length %d with 4 bytes behind it read as %d bytes", l, len(g))
				}
			})
		}
		c.Distinct("wrap", wr, rd, len(st.bytes()))
	})
}

func tchars(p unsafe.Pointer, n int) []uint16 { return unsafe.Slice((*uint16)(p), n) }

func u16check(c *mon.C, what string, buf []uint16, want string) {
	z := -1
	for i, v := range buf {
		if v == 0 {
			z = i
			break
		}
	}
	if z < 0 {
		c.Failf("text/"+what+"-unterminated", "%s buffer of %d units has no terminator", what, len(buf))
		return
	}
	exp := utf16Prefix(want, len(buf)-1)
	ok := z == len(exp)
	for i := 0; ok && i < z; i++ {
		ok = buf[i] == exp[i]
	}
	if !ok {
		c.Failf("text/"+what, "%s: host reads %q, plug-in says %q", what, string(utf16.Decode(buf[:z])), want)
	}
}

func h06(r *mon.Run) {
	f, restore := stdoutTo()
	defer restore()
	r.Par("params", r.N(1000, 15000), func(c *mon.C, i int) {
		n := c.Rand.IntN(12)
		reg := param.NewRegistry()
		var ps []*param.Parameter
		for k := 0; k < n; k++ {
			lo := mon.Pick(c.Rand, 0.0, -60.0, 20.0, -1.0)
			hi := lo + mon.Pick(c.Rand, 0.0, 1.0, 80.0, 19980.0)
			b := param.New(uint32(c.Rand.IntN(1000)*16+k), randText(c.Rand, textLen(c.Rand, 128))).Range(lo, hi).Default(mon.Uni(c.Rand, lo, hi+1e-9))
			p := b.Build()
			p.ShortName = randText(c.Rand, textLen(c.Rand, 128))
			p.Unit = randText(c.Rand, textLen(c.Rand, 128))
			if c.Rand.IntN(3) == 0 {
				p.StepCount = int32(1 + c.Rand.IntN(20))
			}
			p.UnitID = int32(c.Rand.IntN(5))
			if c.Rand.IntN(2) == 0 {
				p.Flags = uint32(c.Rand.Uint64()) & mon.Pick(c.Rand, 0x7fffffff, uint32(1<<16|1), 1<<16|1<<3|1<<1|1<<15|1<<4)
			}
			if c.Rand.IntN(2) == 0 {
				text := randText(c.Rand, textLen(c.Rand, 128))
				p.SetFormatter(func(v float64) string { return text }, func(s string) (float64, error) {
					return 0, fmt.Errorf("parser saw %q", s)
				})
			}
			reg.Add(p)
			ps = append(ps, p)
		}
		mp := &monProc{reg: reg, buses: bus.NewStereoConfiguration()}
		s, err := open(mp)
		if err != nil {
			c.Failf("open", "%v", err)
			return
		}
		defer s.close()
		if g := int(C.e_count(s.ctrl)); g != n {
			c.Failf("param/count", "getParameterCount %d of %d", g, n)
		}
		pi := newPadded(int(unsafe.Sizeof(C.struct_Steinberg_Vst_ParameterInfo{})), 0xA5)
		defer pi.free()
		info := (*C.struct_Steinberg_Vst_ParameterInfo)(pi.ptr())
		for _, bad := range []int{-1, n, n + 1, math.MaxInt32, math.MinInt32} {
			if C.e_info(s.ctrl, C.int32_t(bad), info) == 0 {
				c.Failf("param/bad-index", "getParameterInfo(%d) of %d parameters succeeded", bad, n)
			}
		}
		buf := newPadded(256, 0xA5)
		defer buf.free()
		for k, p := range ps {
			if C.e_info(s.ctrl, C.int32_t(k), info) != 0 {
				c.Failf("param/info", "getParameterInfo(%d) failed", k)
				continue
			}
			if uint32(info.id) != p.ID || int32(info.stepCount) != p.StepCount || float64(info.defaultNormalizedValue) != p.DefaultValue || int32(info.unitId) != p.UnitID || uint32(info.flags) != uint32(p.Flags) {
				c.Failf("param/info", "info of parameter %d: id %d steps %d default %v unit %d flags %#x, plug-in has %d %d %v %d %#x", k, info.id, info.stepCount, info.defaultNormalizedValue, info.unitId, info.flags, p.ID, p.StepCount, p.DefaultValue, p.UnitID, p.Flags)
			}
			u16check(c, "title", tchars(unsafe.Pointer(&info.title[0]), 128), p.Name)
			u16check(c, "shortTitle", tchars(unsafe.Pointer(&info.shortTitle[0]), 128), p.ShortName)
			u16check(c, "units", tchars(unsafe.Pointer(&info.units[0]), 128), p.Unit)
			if !pi.intact() {
				c.Failf("param/overflow", "getParameterInfo wrote outside the structure")
			}
			id := C.uint32_t(p.ID)
			for q := 0; q < 6; q++ {
				v := mon.Pick(c.Rand, c.Rand.Float64(), 0.0, 1.0, c.Rand.Float64()*3-1)
				if C.e_toString(s.ctrl, id, C.double(v), (*C.uint16_t)(buf.ptr())) != 0 {
					c.Failf("param/toString", "getParamStringByValue(%v) failed", v)
				} else {
					u16check(c, "value text", tchars(buf.ptr(), 128), p.FormatValue(v))
				}
				if !buf.intact() {
					c.Failf("param/string-overflow", "getParamStringByValue wrote outside the 128-unit buffer")
				}
				pl, wpl := float64(C.e_toPlain(s.ctrl, id, C.double(v))), p.Denormalize(v)
				if !(math.Abs(pl-wpl) <= 1e-9*(1+math.Abs(wpl))) {
					c.Failf("param/toPlain", "normalized %v of [%v,%v] is plain %v, parameter says %v", v, p.Min, p.Max, pl, wpl)
				}
				x := mon.Pick(c.Rand, pl, mon.Uni(c.Rand, p.Min-5, p.Max+5))
				nm, wnm := float64(C.e_toNorm(s.ctrl, id, C.double(x))), p.Normalize(x)
				if !(math.Abs(nm-wnm) <= 1e-9) || !(nm >= 0 && nm <= 1) {
					c.Failf("param/toNorm", "plain %v of [%v,%v] is normalized %v, parameter says %v", x, p.Min, p.Max, nm, wnm)
				}
				y := mon.Pick(c.Rand, c.Rand.Float64(), 0.0, 1.0, -3.0, 7.5, math.NaN(), math.Inf(1))
				if C.e_set(s.ctrl, id, C.double(y)) != 0 {
					c.Failf("param/set", "setParamNormalized failed")
				}
				if g := float64(C.e_get(s.ctrl, id)); g != clamp01(y) || g != p.GetValue() {
					c.Failf("param/get", "set %v, host reads %v, parameter holds %v", y, g, p.GetValue())
				}
				c.Evals(4)
			}
			// text to value: the parser sees exactly what the host typed
			var saw string
			var back float64
			p.SetFormatter(nil, func(t string) (float64, error) {
				saw = t
				if strings.HasPrefix(t, "!") {
					return 0, errors.New("no")
				}
				return back, nil
			})
			for q := 0; q < 4; q++ {
				t := strings.ReplaceAll(randText(c.Rand, textLen(c.Rand, 60)), "\x00", "")
				u := append(utf16.Encode([]rune(t)), 0)
				back = mon.Uni(c.Rand, p.Min-3, p.Max+3)
				cu := C.calloc(C.size_t(len(u)), 2)
				copy(tchars(cu, len(u)), u)
				out := C.double(-77)
				res := C.e_fromString(s.ctrl, id, (*C.uint16_t)(cu), &out)
				C.free(cu)
				if saw != t {
					c.Failf("param/fromString-text", "host typed %q, the parser saw %q", t, saw)
				}
				if strings.HasPrefix(t, "!") {
					if res == 0 || out != -77 {
						c.Failf("param/fromString-error", "text the plug-in rejects gave result %d, value %v", res, out)
					}
				} else if res != 0 || !(math.Abs(float64(out)-p.Normalize(back)) <= 1e-9) {
					c.Failf("param/fromString", "text for plain %v of [%v,%v] gave result %d, value %v", back, p.Min, p.Max, res, out)
				}
			}
			p.SetFormatter(nil, nil)
			cu := C.calloc(16, 2)
			copy(tchars(cu, 16), utf16.Encode([]rune("not a number")))
			out := C.double(0)
			if C.e_fromString(s.ctrl, id, (*C.uint16_t)(cu), &out) == 0 {
				c.Failf("param/fromString-error", "unparseable text succeeded")
			}
			C.free(cu)
			c.Distinct(p.Name, p.ID)
		}
		copy(tchars(buf.ptr(), 2), []uint16{'1', 0})
		bogus := C.uint32_t(0xFFFF0000 + uint32(c.Rand.IntN(1000)))
		out := C.double(0)
		if C.e_set(s.ctrl, bogus, 0.5) == 0 || C.e_toString(s.ctrl, bogus, 0.5, (*C.uint16_t)(buf.ptr())) == 0 || C.e_fromString(s.ctrl, bogus, (*C.uint16_t)(buf.ptr()), &out) == 0 {
			c.Failf("param/unknown", "an unknown parameter id was accepted")
		}
		c.Distinct("n", n)
		c.Evals(1)
	})
	if f != nil {
		if st, err := f.Stat(); err == nil && st.Size() > 0 {
			r.Case("quiet", func(c *mon.C) {
				c.Failf("param/prints", "parameter calls wrote %d bytes to standard output", st.Size())
			})
		}
	}
}

func h07(r *mon.Run) {
	r.Par("layout", r.N(1000, 15000), func(c *mon.C, i int) {
		type want struct {
			name   string
			ch     int32
			aux    bool
			active bool
		}
		var exp [2][2][]want
		b := bus.NewBuilder()
		for k := mon.Pick(c.Rand, c.Rand.IntN(9), c.Rand.IntN(9), c.Rand.IntN(90)); k >= 0; k-- {
			nm := randText(c.Rand, textLen(c.Rand, 128))
			ch := int32(mon.Pick(c.Rand, 1, 1, 2, 2, 3, 4, 6, 8, 12, 25, 32, 40))
			w := want{nm, ch, false, true}
			switch c.Rand.IntN(6) {
			case 0:
				b.WithAudioInput(nm, ch)
				exp[0][0] = append(exp[0][0], w)
			case 1:
				b.WithAudioOutput(nm, ch)
				exp[0][1] = append(exp[0][1], w)
			case 2:
				b.WithAuxInput(nm, ch)
				w.aux = true
				exp[0][0] = append(exp[0][0], w)
			case 3:
				b.WithAuxOutput(nm, ch)
				w.aux = true
				exp[0][1] = append(exp[0][1], w)
			case 4:
				b.WithEventInput(nm)
				w.ch = -1
				exp[1][0] = append(exp[1][0], w)
			case 5:
				b.WithEventOutput(nm)
				w.ch = -1
				exp[1][1] = append(exp[1][1], w)
			}
		}
		cfg, err := b.Build()
		if err != nil {
			// layouts the builder refuses are not the host's business: use plain ones
			n := int32(1 + c.Rand.IntN(8))
			cfg = bus.NewMultiChannelEffect(n)
			exp = [2][2][]want{}
			for d := 0; d < 2; d++ {
				for k := int32(0); k < cfg.GetBusCount(bus.MediaTypeAudio, bus.Direction(d)); k++ {
					in := cfg.GetBusInfo(bus.MediaTypeAudio, bus.Direction(d), k)
					exp[0][d] = append(exp[0][d], want{in.Name, in.ChannelCount, in.BusType == bus.TypeAux, in.IsActive})
				}
			}
		}
		for t := 0; t < 2; t++ {
			for d := 0; d < 2; d++ {
				for k := range exp[t][d] {
					if a := cfg.GetBusInfo(bus.MediaType(t), bus.Direction(d), int32(k)); a != nil {
						exp[t][d][k].aux = a.BusType == bus.TypeAux
						exp[t][d][k].active = a.IsActive
					}
					if c.Rand.IntN(4) == 0 && cfg.SetBusActive(bus.MediaType(t), bus.Direction(d), int32(k), false) == nil {
						exp[t][d][k].active = false
					}
				}
			}
		}
		p := &monProc{reg: param.NewRegistry(), buses: cfg, lat: int32(c.Rand.IntN(100000)), tail: int32(c.Rand.Uint32() >> 1)}
		s, err := open(p)
		if err != nil {
			c.Failf("open", "%v", err)
			return
		}
		defer s.close()
		pb := newPadded(int(unsafe.Sizeof(C.struct_Steinberg_Vst_BusInfo{})), 0xA5)
		defer pb.free()
		bi := (*C.struct_Steinberg_Vst_BusInfo)(pb.ptr())
		arr := (*C.uint64_t)(C.calloc(1, 8))
		defer C.free(unsafe.Pointer(arr))
		for t := 0; t < 2; t++ {
			for d := 0; d < 2; d++ {
				w := exp[t][d]
				if g := int(C.c_busCount(s.comp, C.int32_t(t), C.int32_t(d))); g != len(w) {
					c.Failf("bus/count", "%d buses of type %d direction %d, plug-in has %d", g, t, d, len(w))
				}
				for _, bad := range []int{-1, len(w), len(w) + 3, math.MinInt32, math.MaxInt32} {
					if C.c_busInfo(s.comp, C.int32_t(t), C.int32_t(d), C.int32_t(bad), bi) == 0 {
						c.Failf("bus/bad-index", "getBusInfo(%d) of %d succeeded", bad, len(w))
					}
					if t == 0 && C.a_getArr(s.proc, C.int32_t(d), C.int32_t(bad), arr) == 0 {
						c.Failf("bus/arrangement-bad-index", "getBusArrangement(%d) of %d audio buses succeeded", bad, len(w))
					}
				}
				for k, x := range w {
					if C.c_busInfo(s.comp, C.int32_t(t), C.int32_t(d), C.int32_t(k), bi) != 0 {
						c.Failf("bus/info", "getBusInfo(%d) failed", k)
						continue
					}
					if int(bi.mediaType) != t || int(bi.direction) != d || (x.ch >= 0 && int32(bi.channelCount) != x.ch) || (bi.busType == 1) != x.aux || (bi.flags&1 == 1) != x.active {
						c.Failf("bus/info", "bus %d/%d/%d: type %d dir %d channels %d aux %d flags %d, plug-in has %+v", t, d, k, bi.mediaType, bi.direction, bi.channelCount, bi.busType, bi.flags, x)
					}
					u16check(c, "bus name", tchars(unsafe.Pointer(&bi.name[0]), 128), x.name)
					if !pb.intact() {
						c.Failf("bus/overflow", "getBusInfo wrote outside the structure")
					}
					if t == 0 {
						*arr = 0
						if C.a_getArr(s.proc, C.int32_t(d), C.int32_t(k), arr) != 0 {
							c.Failf("bus/arrangement", "getBusArrangement(%d) failed", k)
						} else if bits.OnesCount64(uint64(*arr)) != int(x.ch) || (x.ch == 2 && *arr != 3) || (x.ch == 1 && *arr != 1<<19) {
							c.Failf("bus/arrangement", "a bus of %d channels reports speaker arrangement %#x", x.ch, uint64(*arr))
						}
					}
					c.Evals(1)
				}
				c.Distinct(t, d, len(w))
			}
		}
		sp := (*C.uint64_t)(C.calloc(64, 8))
		defer C.free(unsafe.Pointer(sp))
		for k := range unsafe.Slice(sp, 64) {
			unsafe.Slice(sp, 64)[k] = 3
		}
		c.NoPanic("bus/set-arrangements", func() {
			C.a_setArr(s.proc, sp, C.int32_t(c.Rand.IntN(65)), sp, C.int32_t(c.Rand.IntN(65)))
			C.a_setArr(s.proc, nil, 0, nil, 0)
		})
		// the plug-in's own layout is always acceptable
		own := [2]*C.uint64_t{}
		for d := range own {
			own[d] = (*C.uint64_t)(C.calloc(C.size_t(len(exp[0][d])+1), 8))
			defer C.free(unsafe.Pointer(own[d]))
			for k := range exp[0][d] {
				C.a_getArr(s.proc, C.int32_t(d), C.int32_t(k), &unsafe.Slice(own[d], k+1)[k])
			}
		}
		if C.a_setArr(s.proc, own[0], C.int32_t(len(exp[0][0])), own[1], C.int32_t(len(exp[0][1]))) != 0 {
			c.Failf("bus/own-arrangement", "the plug-in refuses its own arrangement of %d inputs and %d outputs", len(exp[0][0]), len(exp[0][1]))
		}
		if g := uint32(C.a_latency(s.proc)); g != uint32(p.lat) {
			c.Failf("proc/latency", "latency %d, processor says %d", g, p.lat)
		}
		if g := uint32(C.a_tail(s.proc)); g != uint32(p.tail) {
			c.Failf("proc/tail", "tail %d, processor says %d", g, p.tail)
		}
		if C.a_canSize(s.proc, 0) != 0 || C.a_canSize(s.proc, 1) == 0 {
			c.Failf("proc/sample-size", "32-bit accepted %v, 64-bit accepted %v", C.a_canSize(s.proc, 0) == 0, C.a_canSize(s.proc, 1) == 0)
		}
		if C.c_initialize(s.comp) != 0 || len(p.inits) != 1 {
			c.Failf("proc/initialize", "initialize reached the processor %d times", len(p.inits))
		}
		if C.e_initialize(s.ctrl) != 0 || len(p.inits) != 1 {
			c.Failf("proc/controller-initialize", "after the controller side was initialized too the processor has been initialized %d times", len(p.inits))
		}
		for k := 0; k < 4; k++ {
			rate, mb := mon.LogUniform(c.Rand, 8000, 192000), mon.Pick(c.Rand, 1+c.Rand.IntN(16384), 1+c.Rand.IntN(16384), 1+c.Rand.IntN(200000), 0, -5)
			p.initErr = nil
			if c.Rand.IntN(3) == 0 {
				p.initErr = errors.New("no")
			}
			n0 := len(p.inits)
			res := C.a_setup(s.proc, 0, 0, C.int32_t(mb), C.double(rate))
			if (res == 0) != (p.initErr == nil) {
				c.Failf("proc/setup-result", "setupProcessing returned %d, processor error %v", res, p.initErr)
			}
			if len(p.inits) == n0+1 && mb <= 0 && p.inits[n0][0] == rate && p.inits[n0][1] > 0 {
				// no usable block length: the rate still counts
			} else if len(p.inits) != n0+1 || p.inits[n0] != [2]float64{rate, float64(mb)} {
				c.Failf("proc/setup", "host set %v Hz, %d samples; processor saw %v", rate, mb, p.inits[n0:])
			}
			p.actErr = nil
			if c.Rand.IntN(3) == 0 {
				p.actErr = errors.New("no")
			}
			on := c.Rand.IntN(2) == 1
			truth := cb(on)
			if on { // any non-zero byte is true
				truth = C.int32_t(mon.Pick(c.Rand, 1, 1, 2, 128, 255))
			}
			n0 = len(p.actives)
			res = C.c_setActive(s.comp, truth)
			if (res == 0) != (p.actErr == nil) || len(p.actives) != n0+1 || p.actives[n0] != on {
				c.Failf("proc/active", "setActive(%v) returned %d, processor saw %v, error %v", on, res, p.actives[n0:], p.actErr)
			}
			c.Evals(2)
		}
		if C.e_view(s.ctrl, nil) != nil {
			c.Failf("proc/view", "a view was created by a plug-in that has none")
		}
		// processing goes on and off with the host's calls
		C.a_setup(s.proc, 0, 0, 64, 48000)
		for k := 0; k < 4; k++ {
			truth := mon.Pick(c.Rand, 0, 0, 1, 2, 128, 255)
			if C.a_setProcessing(s.proc, C.int32_t(truth)) != 0 {
				c.Failf("proc/processing-result", "setProcessing(%d) failed", truth)
			}
			b := newBlock(8, []int{1}, []int{1}, false)
			before := p.calls.Load()
			s.process(b)
			b.close()
			if ran := p.calls.Load() > before; ran != (truth != 0) {
				c.Failf("proc/processing", "after setProcessing(%d) a block reaches the processor: %v", truth, ran)
			}
		}
		p.actErr = nil
		if res := C.e_terminate(s.ctrl); res != 0 {
			c.Failf("proc/controller-terminate", "the controller's terminate returned %d", res)
		}
		if res := C.c_terminate(s.comp); res != 0 {
			c.Failf("proc/terminate", "terminate returned %d", res)
		}
	})
}

func h08(r *mon.Run) {
	type call struct {
		name, boom string
		fails      bool // the API has a result that must not say OK
		f          func(s *sess, c *mon.C) int32
	}
	buf := C.calloc(4096, 1)
	calls := []call{
		{"initialize", "Initialize", true, func(s *sess, c *mon.C) int32 { return int32(C.c_initialize(s.comp)) }},
		{"setupProcessing", "Initialize", true, func(s *sess, c *mon.C) int32 { return int32(C.a_setup(s.proc, 0, 0, 64, 48000)) }},
		{"setActive", "SetActive", true, func(s *sess, c *mon.C) int32 { return int32(C.c_setActive(s.comp, 1)) }},
		{"process", "ProcessAudio", true, func(s *sess, c *mon.C) int32 {
			b := newBlock(32, []int{2}, []int{2}, false)
			defer b.close()
			if c.Rand.IntN(2) == 0 {
				b.changes([]queue{{id: 1, pts: []point{{5, 0.2, false}, {20, 0.4, false}}}})
			}
			return s.process(b)
		}},
		{"getBusCount", "GetBuses", false, func(s *sess, c *mon.C) int32 { return int32(C.c_busCount(s.comp, 0, 0)) }},
		{"getBusInfo", "GetBuses", true, func(s *sess, c *mon.C) int32 {
			return int32(C.c_busInfo(s.comp, 0, 0, 0, (*C.struct_Steinberg_Vst_BusInfo)(buf)))
		}},
		{"getLatency", "GetLatencySamples", false, func(s *sess, c *mon.C) int32 { return int32(C.a_latency(s.proc)) }},
		{"getTail", "GetTailSamples", false, func(s *sess, c *mon.C) int32 { return int32(C.a_tail(s.proc)) }},
		{"getParameterCount", "GetParameters", false, func(s *sess, c *mon.C) int32 { return int32(C.e_count(s.ctrl)) }},
		{"getParameterInfo", "GetParameters", true, func(s *sess, c *mon.C) int32 {
			return int32(C.e_info(s.ctrl, 0, (*C.struct_Steinberg_Vst_ParameterInfo)(buf)))
		}},
		{"getParamStringByValue", "GetParameters", true, func(s *sess, c *mon.C) int32 {
			return int32(C.e_toString(s.ctrl, 1, 0.5, (*C.uint16_t)(buf)))
		}},
		{"getParamStringByValue/format", "format", true, func(s *sess, c *mon.C) int32 {
			return int32(C.e_toString(s.ctrl, 1, 0.5, (*C.uint16_t)(buf)))
		}},
		{"getParamValueByString", "GetParameters", true, func(s *sess, c *mon.C) int32 {
			var o C.double
			return int32(C.e_fromString(s.ctrl, 1, (*C.uint16_t)(buf), &o))
		}},
		{"getParamValueByString/parse", "parse", true, func(s *sess, c *mon.C) int32 {
			var o C.double
			return int32(C.e_fromString(s.ctrl, 1, (*C.uint16_t)(buf), &o))
		}},
		{"normalizedParamToPlain", "GetParameters", false, func(s *sess, c *mon.C) int32 { C.e_toPlain(s.ctrl, 1, 0.5); return 0 }},
		{"plainParamToNormalized", "GetParameters", false, func(s *sess, c *mon.C) int32 { C.e_toNorm(s.ctrl, 1, 0.5); return 0 }},
		{"getParamNormalized", "GetParameters", false, func(s *sess, c *mon.C) int32 { C.e_get(s.ctrl, 1); return 0 }},
		{"setParamNormalized", "GetParameters", true, func(s *sess, c *mon.C) int32 { return int32(C.e_set(s.ctrl, 1, 0.5)) }},
		{"getState/params", "GetParameters", true, func(s *sess, c *mon.C) int32 {
			st := newStream(c.Rand)
			defer st.free()
			return int32(C.c_getState(s.comp, st.p()))
		}},
		{"getState/custom", "SaveCustomState", true, func(s *sess, c *mon.C) int32 {
			st := newStream(c.Rand)
			defer st.free()
			return int32(C.c_getState(s.comp, st.p()))
		}},
		{"setState/custom", "LoadCustomState", true, nil},
	}
	r.Par("panic", r.N(600, 10000), func(c *mon.C, i int) {
		k := calls[i%len(calls)]
		base := simpleProc()
		par := base.reg.Get(1)
		pp := &monStateful{monProc: base, custom: []byte("custom data")}
		s, err := open(pp)
		if err != nil {
			c.Failf("open", "%v", err)
			return
		}
		defer s.close()
		s.start(48000, 64)
		st := newStream(c.Rand)
		defer st.free()
		C.c_getState(s.comp, st.p())
		f := k.f
		if k.name == "setState/custom" {
			f = func(s *sess, c *mon.C) int32 { st.seek(0); return int32(C.c_setState(s.comp, st.p())) }
		}
		switch k.boom {
		case "format", "parse":
			par.SetFormatter(func(float64) string { panic("formatter failure") }, func(string) (float64, error) { panic("parser failure") })
		default:
			base.boom = k.boom
		}
		for rep := 0; rep < 3; rep++ {
			var res int32
			if p := mon.Try(func() { res = f(s, c) }); p != nil {
				c.Failf("panic/"+k.name, "a panic of the processor in %s reached the host through %s: %v", k.boom, k.name, p)
				break
			}
			if k.fails && res == 0 {
				c.Failf("panic/"+k.name+"-ok", "%s reports success although the processor failed in %s", k.name, k.boom)
			}
			c.Evals(1)
			c.Distinct(k.name, rep)
		}
		base.boom = ""
		par.SetFormatter(nil, nil)
		// the instance still works, nothing is left locked or half-updated
		ok := make(chan string, 1)
		go func() {
			msg := ""
			defer func() {
				if p := recover(); p != nil {
					msg = fmt.Sprint("panic: ", p)
				}
				ok <- msg
			}()
			if C.a_setup(s.proc, 0, 0, 64, 48000) != 0 || C.c_setActive(s.comp, 1) != 0 || C.e_set(s.ctrl, 1, 0.75) != 0 || float64(C.e_get(s.ctrl, 1)) != 0.75 || C.e_count(s.ctrl) != 1 {
				msg = "control calls fail"
			}
			b := newBlock(32, []int{2}, []int{2}, false)
			defer b.close()
			seen := -1
			base.onProcess = func(ctx *process.Context) { seen = len(ctx.Input[0]) + 100*len(ctx.Input) }
			if s.process(b) != 0 || seen != 232 {
				msg = fmt.Sprintf("processing broken: saw %d", seen)
			}
			// a few more blocks, cut up by automation: every sample reaches the processor and comes back
			for range 4 {
				n := 1 + c.Rand.IntN(64)
				b := newBlock(n, []int{2}, []int{2}, false)
				if c.Rand.IntN(4) != 0 {
					var pts []point
					for _, o := range sortedOffs(c.Rand, n, c.Rand.IntN(5)) {
						pts = append(pts, point{o, c.Rand.Float64(), false})
					}
					b.changes([]queue{{id: 1, pts: pts}})
				}
				in, out := flat(b.in), flat(b.out)
				for j := range n {
					in[0][j], in[1][j] = float32(j+1), float32(-1000-j)
				}
				base.onProcess = func(ctx *process.Context) {
					for ch := range min(len(ctx.Input), len(ctx.Output)) {
						for j := range min(len(ctx.Input[ch]), len(ctx.Output[ch])) {
							ctx.Output[ch][j] = ctx.Input[ch][j] * 2
						}
					}
				}
				if s.process(b) != 0 {
					msg = "a later block fails"
				}
				for ch := range out {
					for j := range out[ch] {
						if out[ch][j] != in[ch][j]*2 && msg == "" {
							msg = fmt.Sprintf("a later block of %d: channel %d sample %d comes back as %v, given %v and doubled", n, ch, j, out[ch][j], in[ch][j])
						}
					}
				}
				b.close()
			}
		}()
		if m := <-ok; m != "" {
			c.Failf("panic/recovery", "after a contained failure in %s: %s", k.boom, m)
		}
	})
	r.Case("factory", func(c *mon.C) {
		f := C.h_factory()
		defer C.h_release(f)
		cid := pluginCID(thePlugin)
		pc := (*[16]byte)(C.calloc(1, 16))
		*pc = cid
		defer func() { thePlugin.boom = "" }()
		var o unsafe.Pointer
		for _, boom := range []string{"CreateProcessor", "GetInfo", "GetParameters"} {
			if boom == "GetParameters" {
				thePlugin.boom = ""
				thePlugin.mk = func() plugin.Processor { p := simpleProc(); p.boom = "GetParameters"; return p }
			} else {
				thePlugin.boom = boom
			}
			if p := mon.Try(func() {
				if C.h_create(f, unsafe.Pointer(pc), iid(iComponent), &o) == 0 || o != nil {
					c.Failf("panic/create-ok", "an instance was created although %s failed", boom)
				}
			}); p != nil {
				c.Failf("panic/create", "a panic in %s reached the host through createInstance: %v", boom, p)
			}
			if boom == "GetInfo" {
				var ci C.struct_Steinberg_PClassInfo
				if p := mon.Try(func() { C.h_class_info(f, 0, &ci) }); p != nil {
					c.Failf("panic/classinfo", "a panic in GetInfo reached the host through getClassInfo: %v", p)
				}
			}
			c.Evals(1)
			c.Distinct("factory", boom)
		}
	})
}

func h09(r *mon.Run) {
	r.Par("threads", r.N(12, 120), func(c *mon.C, i int) {
		k := 3
		var inside, control, turn atomic.Int32
		linger := func() bool { // every few calls takes long enough for another thread to walk in
			if i%2 == 0 && turn.Add(1)%3 == 0 {
				time.Sleep(60 * time.Microsecond)
				return true
			}
			runtime.Gosched()
			return false
		}
		p := &monStateful{monProc: paramProc(k)}
		p.guard = func(where string) func() {
			if where == "ProcessAudio" {
				inside.Add(1)
				if control.Load() != 0 {
					c.Failf("threads/overlap", "ProcessAudio runs while the processor is being set up or activated")
				}
				return func() {
					if linger(); control.Load() != 0 {
						c.Failf("threads/overlap", "the processor is set up or activated while ProcessAudio runs")
					}
					inside.Add(-1)
				}
			}
			control.Add(1)
			if inside.Load() != 0 {
				c.Failf("threads/overlap", "%s is called while ProcessAudio runs", where)
			}
			return func() {
				if linger(); inside.Load() != 0 {
					c.Failf("threads/overlap", "ProcessAudio runs while %s does", where)
				}
				control.Add(-1)
			}
		}
		p.custom = bytes.Repeat([]byte{7}, 100)
		s, err := open(p)
		if err != nil {
			c.Failf("open", "%v", err)
			return
		}
		defer s.close()
		s.start(48000, 256)
		var cover []int
		bad := ""
		p.onProcess = func(ctx *process.Context) {
			n := ctx.NumSamples()
			if n == 0 {
				return
			}
			lo := int(ctx.Input[0][0])
			for j := 0; j < n; j++ {
				cover[lo+j]++
			}
			for ch := 0; ch < k; ch++ {
				v := ctx.Param(paramID(ch))
				if !(v >= 0 && v <= 1) {
					bad = fmt.Sprintf("parameter reads %v", v)
				}
				for j := range ctx.Output[ch] {
					ctx.Output[ch][j] = float32(v)
				}
			}
			if ctx.SampleRate != 48000 {
				bad = fmt.Sprintf("sample rate %v", ctx.SampleRate)
			}
		}
		var stop atomic.Bool
		var wg sync.WaitGroup
		var ops atomic.Int64
		work := func(f func(n int)) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; !stop.Load(); n++ {
					f(n)
					ops.Add(1)
				}
			}()
		}
		buf := C.calloc(1024, 1)
		buf2 := C.calloc(1024, 1)
		work(func(n int) { C.e_set(s.ctrl, C.uint32_t(paramID(n%k)), C.double(float64(n%100)/99)) })
		work(func(n int) {
			if v := float64(C.e_get(s.ctrl, C.uint32_t(paramID(n%k)))); !(v >= 0 && v <= 1) {
				c.Failf("threads/range", "host reads %v", v)
			}
			C.e_toString(s.ctrl, C.uint32_t(paramID(n%k)), 0.5, (*C.uint16_t)(buf))
			C.e_info(s.ctrl, C.int32_t(n%k), (*C.struct_Steinberg_Vst_ParameterInfo)(buf2))
		})
		rnd := mon.Pick(c.Rand, 1, 2)
		sr := r.RandFor(fmt.Sprintf("stream-%d-%d", i, rnd))
		work(func(n int) {
			st := newStream(sr)
			if C.c_getState(s.comp, st.p()) != 0 {
				c.Failf("threads/getState", "getState failed while audio runs")
			}
			if n%3 == 0 {
				st.seek(0)
				if C.c_setState(s.comp, st.p()) != 0 {
					c.Failf("threads/setState", "a state just saved does not load while audio runs")
				}
			}
			st.free()
		})
		if i%2 == 0 { // the host's main thread stops, sets up and starts the instance while audio runs
			work(func(n int) {
				switch n % 4 {
				case 0:
					if i%4 == 0 { // a host that stops the stream first; the others do not
						C.a_setProcessing(s.proc, 0)
					}
				case 1:
					if C.a_setup(s.proc, 0, 0, C.int32_t(256<<(n/4%2)), 48000) != 0 {
						c.Failf("threads/setup", "setupProcessing failed")
					}
				case 2:
					C.c_setActive(s.comp, C.int32_t(n/4%2))
				case 3:
					C.a_setProcessing(s.proc, 1)
				}
				time.Sleep(50 * time.Microsecond)
			})
		}
		h := C.h_handler_new()
		work(func(n int) {
			C.e_setHandler(s.ctrl, unsafe.Pointer(h))
			C.h_churn(s.comp, 20)
			o, res := qi(s.comp, iAudio)
			if res != 0 {
				c.Failf("threads/qi", "queryInterface failed")
				return
			}
			C.a_latency(o)
			release(o)
		})
		work(func(n int) {
			q := paramProc(2)
			s2, err := open(q)
			if err != nil {
				c.Failf("threads/create", "%v", err)
				return
			}
			s2.start(44100, 64)
			b := newBlock(64, []int{1}, []int{2}, false)
			q.onProcess = func(ctx *process.Context) {
				if ctx.SampleRate != 44100 || len(ctx.Output) != 2 {
					c.Failf("threads/cross", "an instance saw another instance's block")
				}
			}
			s2.process(b)
			b.close()
			s2.close()
		})
		for blk := 0; blk < r.N(150, 300); blk++ {
			n := 1 + c.Rand.IntN(256)
			b := newBlock(n, []int{1}, []int{k}, false)
			for j, in := 0, flat(b.in)[0]; j < n; j++ {
				in[j] = float32(j)
			}
			cover = make([]int, n)
			if blk%2 == 0 {
				var pts []point
				for _, o := range sortedOffs(c.Rand, n, c.Rand.IntN(6)) {
					pts = append(pts, point{o, c.Rand.Float64(), false})
				}
				b.changes([]queue{{id: 10, pts: pts}})
				b.events([]note{{kind: 0, off: int32(c.Rand.IntN(n)), pitch: 60, vel: 1}})
			}
			if s.process(b) != 0 {
				c.Failf("threads/process", "process failed")
			}
			for j := range cover {
				if cover[j] != 1 && !(i%2 == 0 && cover[j] == 0 && cover[0] == 0) {
					c.Failf("threads/coverage", "sample %d processed %d times", j, cover[j])
					break
				}
			}
			b.close()
			c.Evals(1)
		}
		stop.Store(true)
		wg.Wait()
		if bad != "" {
			c.Failf("threads/audio", "%s", bad)
		}
		if n := addRef(s.comp); n != 4 {
			c.Failf("threads/refs", "reference count %d after balanced use, want 4", n)
		}
		release(s.comp)
		c.Count("host_calls", int(ops.Load()))
		c.Distinct(i, ops.Load()/64)
	})
}

var _ = os.Stdout
