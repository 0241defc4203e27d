package main

// #include "host.h"
import "C"
import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	fplugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/plugin"
	"verif/harness/mon"
)

func simpleProc() *monProc {
	reg := param.NewRegistry()
	reg.Add(param.New(1, "Gain").Range(0, 2).Default(1).Build())
	return &monProc{reg: reg, buses: bus.NewStereoConfiguration()}
}

func randText(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch r.IntN(6) {
		case 0:
			b.WriteRune(rune(0xA1 + r.IntN(0x500)))
		case 1:
			b.WriteRune(rune(0x4E00 + r.IntN(0x2000)))
		case 2:
			b.WriteRune(rune(0x1F300 + r.IntN(0x300)))
		case 3:
			b.WriteString(mon.Pick(r, "\uFFFD", "\uFFFE", "\U00010000", "\uE000", "\uD7FF", "e", "\U0010FFFF"))
		default:
			b.WriteByte(byte(0x20 + r.IntN(0x5F)))
		}
	}
	return b.String()
}

func textLen(r *rand.Rand, limit int) int {
	switch r.IntN(4) {
	case 0:
		return r.IntN(6)
	case 1:
		return limit - 2 + r.IntN(5)
	case 2:
		return limit + r.IntN(3*limit)
	}
	return r.IntN(limit)
}

// padded C memory: size bytes between two guard zones, all filled with fill
type padded struct {
	base unsafe.Pointer
	n    int
	fill byte
}

func newPadded(n int, fill byte) *padded {
	p := &padded{C.malloc(C.size_t(n + 1024)), n, fill}
	m := unsafe.Slice((*byte)(p.base), n+1024)
	for i := range m {
		m[i] = fill
	}
	return p
}
func (p *padded) ptr() unsafe.Pointer { return unsafe.Add(p.base, 512) }
func (p *padded) intact() bool {
	m := unsafe.Slice((*byte)(p.base), p.n+1024)
	for i := 0; i < 512; i++ {
		if m[i] != p.fill || m[512+p.n+i] != p.fill {
			return false
		}
	}
	return true
}
func (p *padded) free() { C.free(p.base) }

func i8(s []C.Steinberg_char8) []byte {
	b := make([]byte, len(s))
	for i, v := range s {
		b[i] = byte(v)
	}
	return b
}

// cText checks a fixed byte field against the Go text it was filled from.
func cText(c *mon.C, what string, field []byte, want string) {
	z := bytes.IndexByte(field, 0)
	if z < 0 {
		c.Failf("factory/"+what+"-unterminated", "%s field of %d bytes has no terminator for %d-byte text", what, len(field), len(want))
		return
	}
	got := string(field[:z])
	if len(want) < len(field) {
		if got != want {
			c.Failf("factory/"+what, "%s reads %q, plug-in says %q", what, got, want)
		}
		return
	}
	if !strings.HasPrefix(want, got) || len(got) < len(field)-1-3 {
		c.Failf("factory/"+what, "%s reads %q (%d bytes), not the %d-byte text cut to fit %d", what, got, len(got), len(want), len(field))
	}
	if utf8.ValidString(want) && len(got) < len(field)-1 && !utf8.ValidString(got) {
		c.Failf("factory/"+what, "%s cut inside a character", what)
	}
}

func h01(r *mon.Run) {
	savedInfo := thePlugin.info
	for k := 0; k < r.N(60, 600); k++ {
		r.Case(fmt.Sprintf("info-%d", k), func(c *mon.C) {
			fi := plugin.FactoryInfo{Vendor: randText(c.Rand, textLen(c.Rand, 64)), URL: randText(c.Rand, textLen(c.Rand, 256)), Email: randText(c.Rand, textLen(c.Rand, 128))}
			plugin.SetFactoryInfo(fi)
			info := savedInfo
			info.Name = randText(c.Rand, textLen(c.Rand, 64))
			info.ID = "org.verif." + randText(c.Rand, 1+c.Rand.IntN(10))
			thePlugin.info = info
			defer func() { thePlugin.info = savedInfo }()
			f := C.h_factory()
			fill := byte(1 + c.Rand.IntN(255))
			pf := newPadded(int(unsafe.Sizeof(C.struct_Steinberg_PFactoryInfo{})), fill)
			defer pf.free()
			out := (*C.struct_Steinberg_PFactoryInfo)(pf.ptr())
			if C.h_factory_info(f, out) != 0 {
				c.Failf("factory/info-result", "getFactoryInfo failed")
			}
			if !pf.intact() {
				c.Failf("factory/overflow", "getFactoryInfo wrote outside the structure for lengths %d/%d/%d", len(fi.Vendor), len(fi.URL), len(fi.Email))
			}
			cText(c, "vendor", i8(out.vendor[:]), fi.Vendor)
			cText(c, "url", i8(out.url[:]), fi.URL)
			cText(c, "email", i8(out.email[:]), fi.Email)
			if out.flags != 16 {
				c.Failf("factory/flags", "factory flags %d, want unicode", out.flags)
			}
			pc := newPadded(int(unsafe.Sizeof(C.struct_Steinberg_PClassInfo{})), fill)
			defer pc.free()
			ci := (*C.struct_Steinberg_PClassInfo)(pc.ptr())
			if C.h_class_info(f, 0, ci) != 0 {
				c.Failf("factory/class-result", "getClassInfo(0) failed")
			}
			if !pc.intact() {
				c.Failf("factory/class-overflow", "getClassInfo wrote outside the structure for a %d-byte name", len(info.Name))
			}
			cText(c, "name", i8(ci.name[:]), info.Name)
			cText(c, "category", i8(ci.category[:]), "Audio Module Class")
			want := info.UID()
			for i := range want {
				if byte(ci.cid[i]) != want[i] {
					c.Failf("factory/cid", "class id differs from the plug-in's UID")
					break
				}
			}
			if ci.cardinality != 0x7fffffff {
				c.Failf("factory/cardinality", "cardinality %d", ci.cardinality)
			}
			if C.h_count_classes(f) != 1 {
				c.Failf("factory/count", "countClasses = %d", C.h_count_classes(f))
			}
			for _, bad := range []int{-1, 1, 2, 7, -1 << 31, 1<<31 - 1} {
				if C.h_class_info(f, C.int32_t(bad), ci) == 0 {
					c.Failf("factory/bad-index", "getClassInfo(%d) reports success with one class", bad)
				}
			}
			C.h_release(f)
			c.Distinct("info", len(fi.Vendor), len(fi.URL), len(fi.Email), len(info.Name))
			c.Evals(12)
		})
	}
	r.Case("no-leak", func(c *mon.C) {
		plugin.SetFactoryInfo(plugin.FactoryInfo{Vendor: "v", URL: "u", Email: "e"})
		f := C.h_factory()
		var pf C.struct_Steinberg_PFactoryInfo
		var ci C.struct_Steinberg_PClassInfo
		call := func(n int) {
			for i := 0; i < n; i++ {
				C.h_factory_info(f, &pf)
				C.h_class_info(f, 0, &ci)
			}
		}
		call(100)
		a := int64(C.h_heap())
		call(3000)
		if b := int64(C.h_heap()); b-a > 64<<10 {
			c.Failf("factory/leak", "3000 factory queries grew the C heap by %d bytes", b-a)
		}
		C.h_release(f)
		c.Distinct("leak", 1)
		c.Evals(6000)
	})
	r.Case("factory-refs", func(c *mon.C) {
		// drain whatever earlier cases hold so the count is known to us
		f := C.h_factory()
		for i := 0; i < 1<<20 && C.h_release(f) != 0; i++ {
		}
		for round := 0; round < r.N(40, 400); round++ {
			f := C.h_factory()
			refs := uint32(1)
			if f == nil {
				c.Failf("factory/null", "GetPluginFactory returned NULL")
				return
			}
			for step := 0; step < 30 && refs > 0; step++ {
				switch c.Rand.IntN(4) {
				case 0:
					refs++
					if g := addRef(f); g != refs {
						c.Failf("factory/addref", "addRef returned %d, %d references held", g, refs)
						return
					}
				case 1:
					if g := C.h_factory(); g != f {
						c.Failf("factory/identity", "GetPluginFactory returned a second factory while the first is held")
						return
					}
					refs++
				case 2:
					o, res := qi(f, []int{iUnknown, iFactory, iBogus, iAudio}[c.Rand.IntN(4)])
					if res == 0 {
						refs++
						if o != f {
							c.Failf("factory/qi", "queryInterface returned another object")
						}
					} else if o != nil {
						c.Failf("factory/qi-fail-null", "failing queryInterface left the result pointer set")
					}
				case 3:
					refs--
					if g := release(f); g != refs {
						c.Failf("factory/release", "release returned %d, %d references held", g, refs)
						return
					}
				}
				c.Evals(1)
				c.Distinct("frefs", refs, step)
			}
			for refs > 0 {
				refs--
				if g := release(f); g != refs {
					c.Failf("factory/release", "release returned %d, %d references held", g, refs)
					return
				}
			}
			// a host may unload and come back
			g := C.h_factory()
			if n := C.h_count_classes(g); n != 1 {
				c.Failf("factory/reload", "after a full release the next factory reports %d classes", n)
				return
			}
			if n := C.h_release(g); n != 0 {
				c.Failf("factory/reload-refs", "a fresh factory had %d references left after release", n)
				return
			}
		}
	})
	r.Case("no-plugin", func(c *mon.C) {
		plugin.Register(nil)
		defer plugin.Register(thePlugin)
		f := C.h_factory()
		var ci C.struct_Steinberg_PClassInfo
		if C.h_count_classes(f) != 0 || C.h_class_info(f, 0, &ci) == 0 {
			c.Failf("factory/none", "a module with no plug-in lists classes")
		}
		C.h_release(f)
		c.Evals(1)
		c.Distinct("none", 1)
	})
	// creation: class and interface ids
	r.Case("create", func(c *mon.C) {
		f := C.h_factory()
		cid := pluginCID(thePlugin)
		for k := 0; k < 200; k++ {
			id := cid
			id[c.Rand.IntN(16)] ^= byte(1 << c.Rand.IntN(8))
			pc := (*[16]byte)(C.calloc(1, 16))
			*pc = id
			o := unsafe.Pointer(cpoison)
			var made atomic.Int64
			thePlugin.mk = func() plugin.Processor { made.Add(1); return simpleProc() }
			if C.h_create(f, unsafe.Pointer(pc), iid(iComponent), &o) == 0 || o != nil {
				c.Failf("create/wrong-class", "an instance was created for a class id one bit away from the plug-in's")
			}
			C.free(unsafe.Pointer(pc))
			c.Evals(1)
			c.Distinct("cid", id)
		}
		// interface ids one bit away from the known ones
		if whole, res := create(simpleProc(), iComponent); res == 0 {
			ib := (*[16]byte)(C.calloc(1, 16))
			for _, w := range []int{iUnknown, iPluginBase, iComponent, iAudio, iController, iFactory} {
				for k := 0; k < 128; k++ {
					copy(ib[:], unsafe.Slice((*byte)(iid(w)), 16))
					ib[k/8] ^= 1 << (k % 8)
					o := unsafe.Pointer(cpoison)
					if from := []unsafe.Pointer{whole, f}[k%2]; C.h_qi(from, unsafe.Pointer(ib), &o) == 0 || o != nil {
						c.Failf("create/wrong-interface", "an interface id one bit away from a known one was answered")
					}
					c.Evals(1)
				}
			}
			C.free(unsafe.Pointer(ib))
			release(whole)
		}
		// instances leave nothing behind in the host's heap
		cycle := func(n int) {
			for k := 0; k < n; k++ {
				if s, err := open(simpleProc()); err == nil {
					s.close()
				}
			}
		}
		cycle(50)
		h0 := int64(C.h_heap())
		cycle(3000)
		if h1 := int64(C.h_heap()); h1-h0 > 64<<10 {
			c.Failf("create/leak", "3000 instances created and released grew the C heap by %d bytes", h1-h0)
		}
		c.Evals(3000)
		for _, w := range []int{iUnknown, iPluginBase, iComponent, iAudio, iController} {
			o, res := create(simpleProc(), w)
			if res != 0 || o == nil {
				c.Failf("create/interface", "createInstance(interface %d) = %d", w, res)
				continue
			}
			p, r2 := qi(o, w)
			if r2 != 0 || p != o {
				c.Failf("create/interface-identity", "createInstance(interface %d) returned a pointer that is not that interface", w)
				release(o)
				continue
			}
			if n := release(p); n != 1 {
				c.Failf("create/refs", "a new instance asked for interface %d holds %d references", w, n)
			}
			release(o)
		}
		var freed atomic.Int64
		for k := 0; k < 8; k++ {
			p := simpleProc()
			runtime.SetFinalizer(p, func(*monProc) { freed.Add(1) })
			o, res := create(p, iBogus)
			if res == 0 || o != nil {
				c.Failf("create/unknown-interface", "createInstance for an unknown interface succeeded")
				if o != nil {
					release(o)
				}
			}
		}
		thePlugin.mk = nil
		if !waitFor(func() bool { return freed.Load() >= 7 }) {
			c.Failf("create/unknown-interface-leak", "instances refused for an unknown interface stay registered (%d of 8 collected)", freed.Load())
		}
		createMu.Lock()
		thePlugin.mk = func() plugin.Processor { return nil }
		createMu.Unlock()
		if o, res := create(nil, iComponent); res == 0 || o != nil {
			c.Failf("create/nil-processor", "createInstance succeeded without a processor")
		}
		C.h_release(f)
	})
	// reference counting over the three interfaces of an instance
	r.Par("refs", r.N(60, 600), func(c *mon.C, i int) {
		freed := new(atomic.Int64)
		walkRefs(c, freed)
		if !waitFor(func() bool { return freed.Load() == 1 }) {
			c.Failf("instance/not-freed", "the processor is still reachable after the last release")
		}
	})
	r.Case("parallel-create", func(c *mon.C) {
		// hosts scan and instantiate on several threads at once
		const threads = 6
		for round := 0; round < r.N(60, 400); round++ {
			var serial atomic.Int64
			thePlugin.mk = func() plugin.Processor {
				p := simpleProc()
				p.lat = int32(serial.Add(1))
				return p
			}
			cid := pluginCID(thePlugin)
			pc := (*[16]byte)(C.calloc(1, 16))
			*pc = cid
			f := C.h_factory()
			const each = 40
			var seen [threads][]uint32
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for t := 0; t < threads; t++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					var held []unsafe.Pointer
					for k := 0; k < each; k++ {
						var o unsafe.Pointer
						if C.h_create(f, unsafe.Pointer(pc), iid(iAudio), &o) != 0 {
							c.Failf("create/parallel", "createInstance failed on one of several threads")
							return
						}
						held = append(held, o)
						if k%3 == 2 { // let one go half way
							seen[t] = append(seen[t], uint32(C.a_latency(held[0])))
							release(held[0])
							held = held[1:]
						}
					}
					for _, o := range held {
						seen[t] = append(seen[t], uint32(C.a_latency(o)))
						release(o)
					}
				}()
			}
			close(gate)
			wg.Wait()
			who := map[uint32]int{}
			for _, l := range seen {
				for _, v := range l {
					who[v]++
				}
			}
			for v := uint32(1); v <= threads*each; v++ {
				if who[v] != 1 {
					c.Failf("create/mixed-up", "of %d instances created on %d threads, processor %d answers for %d", threads*each, threads, v, who[v])
					break
				}
			}
			C.h_release(f)
			C.free(unsafe.Pointer(pc))
			c.Evals(threads * each)
			c.Distinct("pcreate", round)
		}
		thePlugin.mk = nil
	})
	r.Case("parallel-refs", func(c *mon.C) {
		for round := 0; round < r.N(20, 100); round++ {
			p := simpleProc()
			s, err := open(p)
			if err != nil {
				c.Failf("instance/open", "%v", err)
				return
			}
			var wg sync.WaitGroup
			ifs := []unsafe.Pointer{s.comp, s.proc, s.ctrl}
			for t := 0; t < 6; t++ {
				wg.Add(1)
				go func() { defer wg.Done(); C.h_churn(ifs[t%3], 3000) }()
			}
			wg.Wait()
			if n := addRef(s.comp); n != 4 {
				c.Failf("instance/lost-count", "after balanced addRef/release on six threads the count is %d, want 4", n)
				return
			}
			release(s.comp)
			s.close()
			f := C.h_factory()
			base := addRef(f)
			for t := 0; t < 6; t++ {
				wg.Add(1)
				go func() { defer wg.Done(); C.h_churn(f, 3000) }()
			}
			wg.Wait()
			if n := addRef(f); n != base+1 {
				c.Failf("factory/lost-count", "after balanced addRef/release on six threads the factory count is %d, want %d", n, base+1)
				return
			}
			release(f)
			release(f)
			release(f)
			c.Evals(36000)
			c.Distinct("churn", round)
		}
	})
	_ = fplugin.Info{}
}

func waitFor(ok func() bool) bool {
	for k := 0; k < 200; k++ {
		runtime.GC()
		if ok() {
			return true
		}
		time.Sleep(2 * time.Millisecond)
	}
	return false
}

//go:noinline
func walkRefs(c *mon.C, freed *atomic.Int64) {
	p := simpleProc()
	runtime.SetFinalizer(p, func(*monProc) { freed.Add(1) })
	comp, res := create(p, iComponent)
	if res != 0 {
		c.Failf("instance/create", "createInstance = %d", res)
		return
	}
	ptr := map[int]unsafe.Pointer{iUnknown: comp, iPluginBase: comp, iComponent: comp}
	refs := uint32(1)
	held := []unsafe.Pointer{comp}
	for step := 0; step < 60 && refs > 0; step++ {
		from := held[c.Rand.IntN(len(held))]
		switch c.Rand.IntN(4) {
		case 0:
			refs++
			if g := addRef(from); g != refs {
				c.Failf("instance/addref", "addRef returned %d with %d references held", g, refs)
				return
			}
		case 1, 2:
			w := []int{iUnknown, iPluginBase, iComponent, iAudio, iController, iBogus, iFactory}[c.Rand.IntN(7)]
			o, res := qi(from, w)
			if w == iBogus || w == iFactory {
				if res == 0 || o != nil {
					c.Failf("instance/qi-bogus", "queryInterface for an interface the plug-in has not got = %d", res)
					return
				}
				break
			}
			refs++
			if res != 0 || o == nil {
				c.Failf("instance/qi", "queryInterface(%d) failed with %d", w, res)
				return
			}
			if want, ok := ptr[w]; ok && want != o {
				c.Failf("instance/identity", "queryInterface(%d) gave different pointers from different interfaces", w)
				return
			}
			ptr[w] = o
			held = append(held, o)
		case 3:
			if refs == 1 && step < 40 {
				break
			}
			refs--
			if g := release(from); g != refs {
				c.Failf("instance/release", "release returned %d with %d references held", g, refs)
				return
			}
		}
		// the instance works through every interface while referenced
		if refs > 0 {
			if a := ptr[iAudio]; a != nil && C.a_canSize(a, 0) != 0 {
				c.Failf("instance/dead", "audio interface unusable with %d references held", refs)
				return
			}
			if e := ptr[iController]; e != nil && C.e_count(e) != 1 {
				c.Failf("instance/dead", "controller interface unusable with %d references held", refs)
				return
			}
		}
		c.Evals(1)
		c.Distinct("refs", refs, step)
	}
	for refs > 0 {
		refs--
		if g := release(comp); g != refs {
			c.Failf("instance/release", "release returned %d with %d references held", g, refs)
			return
		}
	}
	createMu.Lock()
	thePlugin.mk = nil
	createMu.Unlock()
}
