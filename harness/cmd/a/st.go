package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"runtime"
	"sync"
	"testing/iotest"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"github.com/justyntemme/vst3go/pkg/framework/state"
	"verif/harness/mon"
)

// randParam draws every property a parameter may have: state does not depend on any of them.
func randParam(r *rand.Rand, id uint32) *param.Parameter {
	lo := mon.Pick(r, -10.0, 0, 20, -60)
	b := param.New(id, fmt.Sprint("p", id)).Range(lo, lo+mon.Pick(r, 1.0, 20, 1e5)).Default(lo + r.Float64())
	if r.IntN(3) == 0 {
		b = b.Steps(int32(r.IntN(12)))
	}
	if r.IntN(3) == 0 {
		b = b.Flags(r.Uint32())
	}
	switch r.IntN(8) {
	case 0:
		b = b.ReadOnly()
	case 1:
		b = b.Hidden()
	case 2:
		b = b.Bypass()
	case 3:
		b = b.Toggle()
	}
	return b.Build()
}

func randReg(r *rand.Rand, n int) (*param.Registry, []*param.Parameter) {
	reg := param.NewRegistry()
	var ps []*param.Parameter
	used := map[uint32]bool{}
	for k := 0; k < n; k++ {
		id := r.Uint32N(uint32(4*n + 4))
		if r.IntN(5) == 0 {
			id = r.Uint32()
		}
		if used[id] {
			continue
		}
		used[id] = true
		p := randParam(r, id)
		p.SetValue(r.Float64())
		reg.Add(p)
		ps = append(ps, p)
	}
	return reg, ps
}

func a07(r *mon.Run) {
	if !r.Race {
		r.Par("roundtrip", r.N(400, 8000), func(c *mon.C, i int) {
			reg, ps := randReg(c.Rand, mon.Pick(c.Rand, c.Rand.IntN(40), c.Rand.IntN(40), c.Rand.IntN(700), map[bool]int{true: 3000 + c.Rand.IntN(4000)}[i%25 == 3]))
			for _, p := range ps {
				if c.Rand.IntN(4) == 0 {
					p.SetValue(mon.Pick(c.Rand, 0.0, 1, math.SmallestNonzeroFloat64, math.Nextafter(1, 0), 0.1))
				}
			}
			m := state.NewManager(reg)
			var custom []byte
			hasC := c.Rand.IntN(2) == 0
			if hasC {
				custom = make([]byte, mon.Pick(c.Rand, c.Rand.IntN(200), c.Rand.IntN(200), c.Rand.IntN(200), c.Rand.IntN(300000)))
				for k := range custom {
					custom[k] = byte(c.Rand.Uint32())
				}
				m.SetCustomSaveFunc(func(w io.Writer) error { _, e := w.Write(custom); return e })
			}
			want := map[uint32]float64{}
			for _, p := range ps {
				want[p.ID] = p.GetValue()
			}
			var img bytes.Buffer
			if err := m.Save(&img); err != nil {
				c.Failf("A07/save", "Save: %v", err)
				return
			}
			var again bytes.Buffer
			m.Save(&again)
			if !bytes.Equal(img.Bytes(), again.Bytes()) {
				c.Failf("A07/deterministic", "two saves of the same state differ")
			}
			c.Distinct(string(img.Bytes()))
			// load into: same registry scrambled, a registry with some removed and some added
			for variant := 0; variant < 3; variant++ {
				reg2 := param.NewRegistry()
				var kept, extra []*param.Parameter
				for _, q := range c.Rand.Perm(len(ps)) {
					if variant == 1 && c.Rand.IntN(3) == 0 {
						continue
					}
					p := randParam(c.Rand, ps[q].ID)
					p.SetValue(c.Rand.Float64())
					reg2.Add(p)
					kept = append(kept, p)
				}
				ev := map[*param.Parameter]float64{}
				if variant >= 1 {
					for k := 0; k < 5; k++ {
						id := c.Rand.Uint32() | 1<<31
						if _, u := want[id]; u || reg2.Get(id) != nil {
							continue
						}
						p := param.New(id, "x").Build()
						p.SetValue(c.Rand.Float64())
						reg2.Add(p)
						extra = append(extra, p)
						ev[p] = p.GetValue()
					}
				}
				m2 := state.NewManager(reg2)
				var got []byte
				called := 0
				if variant != 2 {
					m2.SetCustomLoadFunc(func(rd io.Reader) error {
						called++
						b, e := io.ReadAll(rd)
						got = b
						return e
					})
				}
				var rd io.Reader = bytes.NewReader(img.Bytes())
				switch c.Rand.IntN(4) {
				case 0:
					rd = iotest.OneByteReader(rd)
				case 1:
					rd = iotest.HalfReader(rd)
				case 2:
					rd = iotest.DataErrReader(rd)
				}
				if err := m2.Load(rd); err != nil {
					c.Failf("A07/load", "Load of a saved image failed: %v", err)
					continue
				}
				for _, p := range kept {
					if p.GetValue() != want[p.ID] {
						c.Failf("A07/value", "parameter %d restored to %v, saved %v", p.ID, p.GetValue(), want[p.ID])
					}
				}
				for _, p := range extra {
					if p.GetValue() != ev[p] {
						c.Failf("A07/untouched", "parameter %d not in the image changed from %v to %v", p.ID, ev[p], p.GetValue())
					}
				}
				if variant != 2 && hasC && (called != 1 || !bytes.Equal(got, custom)) {
					c.Failf("A07/custom", "custom data: called %d times, got %d bytes, saved %d", called, len(got), len(custom))
				}
				if !hasC && called != 0 {
					c.Failf("A07/custom-spurious", "custom load called without custom data")
				}
				if reg2.Count() != int32(len(kept)+len(extra)) {
					c.Failf("A07/registry-changed", "loading changed the number of parameters")
				}
			}
			c.Evals(3)
		})
		r.Case("golden", func(c *mon.C) {
			// Images laid out as every released version wrote them must keep loading.
			for k := 0; k < 200; k++ {
				n := c.Rand.IntN(20)
				reg := param.NewRegistry()
				var ids []uint32
				var vals []float64
				for q := 0; q < n; q++ {
					ids = append(ids, uint32(q*7))
					vals = append(vals, c.Rand.Float64())
					reg.Add(param.New(uint32(q*7), "p").Build())
				}
				var cu []byte
				if k%2 == 0 {
					cu = []byte("custom-blob")
				}
				img := image(ids, vals, cu)
				m := state.NewManager(reg)
				var got []byte
				m.SetCustomLoadFunc(func(rd io.Reader) error { got, _ = io.ReadAll(rd); return nil })
				if err := m.Load(bytes.NewReader(img)); err != nil {
					c.Failf("A07/golden", "image in the released layout rejected: %v", err)
				}
				for q := range ids {
					if reg.Get(ids[q]).GetValue() != vals[q] {
						c.Failf("A07/golden-value", "id %d loaded %v, image has %v", ids[q], reg.Get(ids[q]).GetValue(), vals[q])
					}
				}
				if string(got) != string(cu) {
					c.Failf("A07/golden-custom", "custom data %q, image has %q", got, cu)
				}
				if k%2 == 0 {
					m.SetCustomSaveFunc(func(w io.Writer) error { _, e := w.Write(cu); return e })
				}
				var out bytes.Buffer
				m.Save(&out)
				if !bytes.Equal(out.Bytes(), img) {
					c.Failf("A07/golden-save", "saved image is not in the released layout")
				}
				c.Distinct("golden", k)
			}
		})
	}
	// Saving while parameters are added: the image is whole and holds each parameter at most once.
	for rep := 0; rep < r.N(20, 100); rep++ {
		r.Case(fmt.Sprintf("grow/%d", rep), func(c *mon.C) {
			reg := param.NewRegistry()
			m := state.NewManager(reg)
			blob := []byte("custom data after the parameters")
			m.SetCustomSaveFunc(func(w io.Writer) error { _, e := w.Write(blob); return e })
			var wg sync.WaitGroup
			wg.Add(1)
			const total = 400
			go func() {
				defer wg.Done()
				for k := 0; k < total; k++ {
					p := param.New(uint32(k), "p").Build()
					p.SetValue(float64(k) / total)
					reg.Add(p)
					if k%8 == 0 {
						runtime.Gosched()
					}
				}
			}()
			for done := false; !done; {
				done = reg.Count() == total
				var b bytes.Buffer
				if err := m.Save(&b); err != nil {
					c.Failf("A07/grow-save", "%v", err)
				}
				reg2 := param.NewRegistry()
				for k := 0; k < total; k++ {
					reg2.Add(param.New(uint32(k), "p").Build())
				}
				m2 := state.NewManager(reg2)
				var got []byte
				m2.SetCustomLoadFunc(func(rd io.Reader) error { b, e := io.ReadAll(rd); got = b; return e })
				if err := m2.Load(&b); err != nil || !bytes.Equal(got, blob) {
					c.Failf("A07/grow-load", "an image saved while parameters were added: error %v, custom data %q", err, got)
					break
				}
				c.Count("saves_while_growing", 1)
			}
			wg.Wait()
			c.Distinct("grow", rep)
		})
	}
	// Saving while values change: every saved value must be one that was written, and each image loads.
	for rep := 0; rep < r.N(20, 100); rep++ {
		r.Case(fmt.Sprintf("conc/%d", rep), func(c *mon.C) {
			reg := param.NewRegistry()
			var ps []*param.Parameter
			for k := 0; k < 8; k++ {
				p := param.New(uint32(k), "p").Build()
				reg.Add(p)
				ps = append(ps, p)
			}
			m := state.NewManager(reg)
			var wg sync.WaitGroup
			stop := make(chan struct{})
			for k := range ps {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 0; ; j++ {
						select {
						case <-stop:
							return
						default:
						}
						ps[k].SetValue(float64(k*1024+j%1024) / 8192)
					}
				}()
			}
			for s := 0; s < 60; s++ {
				var b bytes.Buffer
				if err := m.Save(&b); err != nil {
					c.Failf("A07/conc-save", "%v", err)
				}
				d := b.Bytes()
				if len(d) != 14+12*8+4 {
					c.Failf("A07/conc-length", "image of %d bytes", len(d))
					continue
				}
				for k := 0; k < 8; k++ {
					v := math.Float64frombits(binary.LittleEndian.Uint64(d[14+12*k+4:])) * 8192
					if v != math.Trunc(v) || (v != 0 && int(v)/1024 != k) {
						c.Failf("A07/conc-value", "saved value %v of parameter %d was never written to it", v/8192, k)
					}
				}
				c.Count("concurrent_saves", 1)
			}
			close(stop)
			wg.Wait()
			c.Distinct("conc", rep)
		})
	}
}

type failW struct {
	left int
	n    int
}

var errDisk = errors.New("disk full")

func (w *failW) Write(p []byte) (int, error) {
	w.n++
	if len(p) > w.left {
		k := w.left
		w.left = 0
		return k, errDisk
	}
	w.left -= len(p)
	return len(p), nil
}

func a08(r *mon.Run) {
	type snap map[uint32]float64
	take := func(ps []*param.Parameter) snap {
		s := snap{}
		for _, p := range ps {
			s[p.ID] = p.GetValue()
		}
		return s
	}
	judge := func(c *mon.C, sig string, ps []*param.Parameter, before snap, recorded map[uint32][]float64) {
		for _, p := range ps {
			v := p.GetValue()
			if !(v >= 0 && v <= 1) {
				c.Failf(sig+"/range", "parameter %d holds %v after loading", p.ID, v)
				continue
			}
			if v == before[p.ID] {
				continue
			}
			ok := recorded == nil
			for _, w := range recorded[p.ID] {
				if v == math.Min(1, math.Max(0, w)) || math.IsNaN(w) {
					ok = true
				}
			}
			if !ok {
				c.Failf(sig+"/foreign", "parameter %d changed from %v to %v, which the image does not record for it", p.ID, before[p.ID], v)
			}
		}
	}
	// every truncation point x every reader fault
	r.Par("truncate", r.N(40, 300), func(c *mon.C, i int) {
		reg, ps := randReg(c.Rand, 1+c.Rand.IntN(8))
		m := state.NewManager(reg)
		withC := c.Rand.IntN(2) == 0
		if withC {
			m.SetCustomSaveFunc(func(w io.Writer) error { return binary.Write(w, binary.LittleEndian, uint64(0x1122334455667788)) })
		}
		var b bytes.Buffer
		m.Save(&b)
		img := b.Bytes()
		rec := map[uint32][]float64{}
		for _, p := range ps {
			rec[p.ID] = []float64{p.GetValue()}
		}
		m.SetCustomLoadFunc(func(rd io.Reader) error {
			var x uint64
			if err := binary.Read(rd, binary.LittleEndian, &x); err != nil {
				return err
			}
			if x != 0x1122334455667788 {
				return errors.New("bad custom")
			}
			return nil
		})
		for cut := 0; cut <= len(img); cut++ {
			for mode := 0; mode < 3; mode++ {
				for _, p := range ps {
					p.SetValue(c.Rand.Float64())
				}
				before := take(ps)
				var rd io.Reader = bytes.NewReader(img[:cut])
				if mode == 1 {
					rd = io.MultiReader(rd, iotest.ErrReader(errDisk))
				}
				if mode == 2 {
					rd = iotest.OneByteReader(io.MultiReader(rd, iotest.ErrReader(io.ErrUnexpectedEOF)))
				}
				var err error
				if !c.NoPanic("A08/truncate", func() { err = m.Load(rd) }) {
					continue
				}
				if cut < len(img) && err == nil {
					c.Failf("A08/truncate-accepted", "image cut at %d of %d bytes (mode %d) loaded without error", cut, len(img), mode)
				}
				if cut == len(img) && err != nil {
					c.Failf("A08/complete-rejected", "complete image rejected: %v", err)
				}
				if cut < 14 && err != nil {
					for _, p := range ps {
						if p.GetValue() != before[p.ID] {
							c.Failf("A08/header-applied", "header cut at %d but parameter %d changed", cut, p.ID)
						}
					}
				}
				judge(c, "A08/truncate", ps, before, rec)
				c.Distinct("cut", i, cut, mode)
			}
		}
		c.Evals(3 * len(img))
		// every failing write position
		m2 := state.NewManager(reg)
		if withC {
			m2.SetCustomSaveFunc(func(w io.Writer) error { return binary.Write(w, binary.LittleEndian, uint64(1)) })
		}
		for k := 0; k <= len(img); k++ {
			w := &failW{left: k}
			before := take(ps)
			var err error
			if !c.NoPanic("A08/write", func() { err = m2.Save(w) }) {
				continue
			}
			if k < len(img) && err == nil {
				c.Failf("A08/write-error-lost", "writer failed after %d of %d bytes but Save reported success", k, len(img))
			}
			if k == len(img) && err != nil {
				c.Failf("A08/write-spurious", "Save failed: %v", err)
			}
			for id, v := range take(ps) {
				if before[id] != v {
					c.Failf("A08/save-changes", "failed Save changed parameter %d", id)
				}
			}
			c.Distinct("wfail", i, k)
		}
		c.Evals(len(img))
	})
	// random corruption
	r.Par("corrupt", r.N(3000, 100000), func(c *mon.C, i int) {
		reg, ps := randReg(c.Rand, 1+c.Rand.IntN(6))
		m := state.NewManager(reg)
		var ids []uint32
		var vals []float64
		for _, p := range ps {
			ids = append(ids, p.ID)
			vals = append(vals, mon.AnyF64(c.Rand))
		}
		if c.Rand.IntN(3) == 0 {
			ids = append(ids, ids[0]) // duplicate entry
			vals = append(vals, mon.AnyF64(c.Rand))
		}
		img := image(ids, vals, nil)
		kind := c.Rand.IntN(6)
		strict := false
		switch kind {
		case 0: // flipped magic
			img[c.Rand.IntN(6)] ^= byte(1 + c.Rand.IntN(255))
			strict = true
		case 1: // newer version
			binary.LittleEndian.PutUint32(img[6:], 2+mon.Pick(c.Rand, 0, c.Rand.Uint32N(4), c.Rand.Uint32N(1000), c.Rand.Uint32N(1<<31), c.Rand.Uint32N(1<<32-2)))
			strict = true
		case 2: // absurd count
			binary.LittleEndian.PutUint32(img[10:], mon.Pick(c.Rand, ^uint32(0), 1<<31-1, 1<<31, 1<<20, uint32(len(ids)+1)))
		case 3: // flips anywhere
			for k := c.Rand.IntN(8); k >= 0; k-- {
				img[c.Rand.IntN(len(img))] ^= 1 << c.Rand.IntN(8)
			}
		case 4: // noise
			img = make([]byte, c.Rand.IntN(80))
			for k := range img {
				img[k] = byte(c.Rand.Uint32())
			}
		case 5: // hostile values only
		}
		before := take(ps)
		var err error
		if !c.NoPanic("A08/corrupt", func() { err = m.Load(bytes.NewReader(img)) }) {
			return
		}
		rec := map[uint32][]float64{}
		for o := 14; o+12 <= len(img); o += 12 {
			id := binary.LittleEndian.Uint32(img[o:])
			rec[id] = append(rec[id], math.Float64frombits(binary.LittleEndian.Uint64(img[o+4:])))
		}
		judge(c, "A08/corrupt", ps, before, rec)
		if strict {
			if err == nil {
				c.Failf("A08/bad-header-accepted", "kind %d image accepted", kind)
			}
			for _, p := range ps {
				if p.GetValue() != before[p.ID] {
					c.Failf("A08/bad-header-applied", "kind %d image rejected but parameter %d changed", kind, p.ID)
				}
			}
		}
		if kind == 2 && err == nil {
			c.Failf("A08/absurd-count-accepted", "count %d with %d entries accepted", int32(binary.LittleEndian.Uint32(img[10:])), len(ids))
		}
		if kind == 5 && err != nil {
			c.Count("hostile_values_rejected", 1)
		}
		c.Distinct("corrupt", string(img))
		c.Count(fmt.Sprintf("corruption_kind_%d", kind), 1)
		if i < 2 {
			c.Sample("corrupt", fmt.Sprintf("kind %d, %d bytes, err=%v", kind, len(img), err))
		}
	})
	// custom callbacks that fail propagate
	r.Case("custom-errors", func(c *mon.C) {
		reg, _ := randReg(c.Rand, 4)
		m := state.NewManager(reg)
		e1 := errors.New("custom save failed")
		m.SetCustomSaveFunc(func(io.Writer) error { return e1 })
		if err := m.Save(io.Discard); err == nil {
			c.Failf("A08/custom-save-error-lost", "custom save error not reported")
		}
		m.SetCustomLoadFunc(func(io.Reader) error { return e1 })
		if err := m.Load(bytes.NewReader(image(nil, nil, []byte{1}))); err == nil {
			c.Failf("A08/custom-load-error-lost", "custom load error not reported")
		}
		c.Distinct("custom")
	})
}
