//go:build debug

// Area g: the debug build of the allocation tools (build tag debug).
package main

import (
	"fmt"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"unsafe"

	dbg "github.com/justyntemme/vst3go/pkg/dsp/debug"
	"verif/harness/mon"
)

func main() {
	mon.Main(map[string]mon.Prop{
		"G01": {F: g01, Race: true, Rule: "random call histories against a counting model, allocating and allocation-free functions under the detector with collections forced inside, several goroutines on tracker and pool with ownership marks in the buffers; non-trivial = distinct history or allocation pattern"},
	})
}

type use struct {
	size, capacity int
	count, bytes   uint64
}

var repRe = regexp.MustCompile(`(?m)^Buffer: (.*)\n  Size: (\d+), Capacity: (\d+)\n  Access Count: (\d+)\n  Total Bytes: (\d+)\n`)
var totRe = regexp.MustCompile(`(?m)^Total Allocations: (\d+)\nTotal Bytes: (\d+)\n`)

func parse(s string) (map[string]use, uint64, uint64) {
	out := map[string]use{}
	for _, m := range repRe.FindAllStringSubmatch(s, -1) {
		var u use
		fmt.Sscan(m[2], &u.size)
		fmt.Sscan(m[3], &u.capacity)
		fmt.Sscan(m[4], &u.count)
		fmt.Sscan(m[5], &u.bytes)
		out[m[1]] = u
	}
	var n, b uint64
	if m := totRe.FindStringSubmatch(s); m != nil {
		fmt.Sscan(m[1], &n)
		fmt.Sscan(m[2], &b)
	}
	return out, n, b
}

var keep any

func g01(r *mon.Run) {
	if !r.Race {
		r.Case("tracker", func(c *mon.C) {
			q := c.Rand
			for h := 0; h < r.N(100, 1500); h++ {
				dbg.ResetAllocationTracking()
				on := q.IntN(2) == 0
				set := func() {
					if on {
						dbg.EnableAllocationTracking()
					} else {
						dbg.DisableAllocationTracking()
					}
				}
				set()
				model := map[string]use{}
				var n, b, fn, fb uint64
				trace := ""
				for k := 0; k < 40; k++ {
					switch op := q.IntN(12); op {
					case 0:
						on = q.IntN(4) != 0
						set()
					case 1:
						dbg.StartFrame()
						fn, fb = 0, 0
					case 2:
						if q.IntN(4) == 0 {
							dbg.ResetAllocationTracking()
							model = map[string]use{}
							n, b, fn, fb = 0, 0, 0, 0
						}
					case 3:
						var buf []float32
						if q.IntN(3) != 0 {
							buf = make([]float32, 1+q.IntN(64))
						}
						ptr := uintptr(0)
						if len(buf) > 0 {
							ptr = uintptr(unsafe.Pointer(&buf[0]))
						}
						exp := mon.Pick(q, ptr, 0, ptr+4, 12345)
						var got uintptr
						pv := mon.Try(func() { got = dbg.VerifyBufferReuse(buf, "reuse", exp) })
						wantPanic := on && exp != 0 && exp != ptr
						if (pv != nil) != wantPanic || (on && pv == nil && got != ptr) {
							c.Failf("reuse", "tracking %v, buffer at %x, expected %x: panic %v, returned %x", on, ptr, exp, pv, got)
						}
						runtime.KeepAlive(buf)
					default:
						name := fmt.Sprint("buf", q.IntN(5))
						ln := q.IntN(70)
						cp := ln + q.IntN(3)*q.IntN(20)
						f64 := q.IntN(3) == 0
						null := q.IntN(12) == 0
						var pv any
						if f64 {
							var x []float64
							if !null {
								x = make([]float64, ln, cp)
							}
							pv = mon.Try(func() { dbg.CheckAllocation64(x, name) })
						} else {
							var x []float32
							if !null {
								x = make([]float32, ln, cp)
							}
							pv = mon.Try(func() { dbg.CheckAllocation(x, name) })
						}
						bad := null || cp == 0
						if (pv != nil) != (on && bad) {
							c.Failf("check-panic", "tracking %v, nil %v, capacity %d: panic %v", on, null, cp, pv)
						}
						if pv != nil && !strings.Contains(fmt.Sprint(pv), name) {
							c.Failf("check-panic", "the panic %v does not name the buffer %s", pv, name)
						}
						if on && !bad {
							m := 1
							if f64 {
								m = 2
							}
							u, ok := model[name]
							if !ok {
								u.size, u.capacity = ln*m, cp*m
							}
							u.count++
							u.bytes += uint64(4 * m * ln)
							model[name] = u
							n, b = n+1, b+uint64(4*m*ln)
							fn, fb = fn+1, fb+uint64(4*m*ln)
						}
						trace += name[3:]
					}
					a, by := dbg.EndFrame()
					if a != fn || by != fb {
						c.Failf("frame", "frame counts %d accesses of %d bytes, want %d of %d", a, by, fn, fb)
						return
					}
				}
				got, gn, gb := parse(dbg.GetAllocationReport())
				c.Evals(40)
				c.Distinct(trace)
				if gn != n || gb != b || fmt.Sprint(got) != fmt.Sprint(model) {
					c.Failf("report", "report %v total %d/%d, want %v total %d/%d", got, gn, gb, model, n, b)
					return
				}
			}
			dbg.DisableAllocationTracking()
		})
		r.Case("detector", func(c *mon.C) {
			q := c.Rand
			pre := make([]float32, 512)
			quiet := []struct {
				name string
				f    func()
			}{
				{"nothing", func() {}},
				{"arithmetic", func() {
					for i := range pre {
						pre[i] = pre[i]*0.5 + 0.1
					}
				}},
				{"collection", func() { runtime.GC() }},
			}
			var sink []byte
			for k := 0; k < r.N(60, 300); k++ {
				// functions that allocate are caught, however little and whatever the collector does
				size := mon.Pick(q, 1, 8, 17, 100, 4096, 1<<20)
				times := mon.Pick(q, 1, 1, 2, 100)
				gcIn := q.IntN(2) == 0
				garbage := make([][]byte, 0, 64)
				for i := 0; i < 64; i++ {
					garbage = append(garbage, make([]byte, 8192))
				}
				ran := 0
				pv := mon.Try(func() {
					dbg.DetectAllocation(func() {
						ran++
						garbage = nil
						for i := 0; i < times; i++ {
							sink = make([]byte, size)
						}
						if gcIn {
							runtime.GC()
							debug.FreeOSMemory()
						}
					})
				})
				keep = sink
				c.Evals(1)
				c.Distinct("alloc", size, times, gcIn)
				if ran != 1 {
					c.Failf("detect-runs", "the function under the detector ran %d times", ran)
				}
				if pv == nil {
					c.Failf("detect-missed", "%d allocations of %d bytes (collection inside: %v) went unnoticed", times, size, gcIn)
				}
				// functions that do not allocate pass; something else in the process may
				// allocate meanwhile, so one clean attempt is enough
				x := quiet[q.IntN(2)]
				ok := false
				var last any
				for a := 0; a < 40 && !ok; a++ {
					last = mon.Try(func() { dbg.DetectAllocation(x.f) })
					ok = last == nil
				}
				c.Distinct("quiet", x.name)
				if !ok {
					c.Failf("detect-false", "%s does not allocate, the detector says %v", x.name, last)
				}
				if pv := mon.Try(func() { dbg.DetectAllocation(func() { panic("inner") }) }); pv != "inner" {
					c.Failf("detect-panic", "the panic of the function arrives as %v", pv)
				}
			}
		})
		r.Par("pool", r.N(100, 1000), func(c *mon.C, _ int) {
			q := c.Rand
			size := mon.Pick(q, 1, 2, 64, 128, 1+q.IntN(500))
			p := dbg.NewBufferPool(size)
			if a, u := p.Stats(); a != 0 || u != 0 {
				c.Failf("pool-stats", "a new pool reports %d allocated, %d in use", a, u)
			}
			var out [][]float32
			peak := 0
			for k := 0; k < 200; k++ {
				switch {
				case q.IntN(20) == 0:
					n := mon.Pick(q, 0, size-1, size+1)
					if mon.Try(func() { p.Put(make([]float32, n)) }) == nil {
						c.Failf("pool-size", "a buffer of %d entered a pool of %d", n, size)
					}
				case q.IntN(2) == 0 || len(out) == 0:
					b := p.Get()
					if len(b) != size {
						c.Failf("pool-size", "a pool of %d hands out %d samples", size, len(b))
						return
					}
					for _, o := range out {
						if &o[0] == &b[0] {
							c.Failf("pool-shared", "a buffer in use was handed out again")
							return
						}
					}
					out = append(out, b)
				default:
					i := q.IntN(len(out))
					p.Put(out[i])
					out = append(out[:i], out[i+1:]...)
				}
				peak = max(peak, len(out))
				a, u := p.Stats()
				if int(u) != len(out) || int(a) < peak {
					c.Failf("pool-stats", "%d buffers held (at most %d at once): pool reports %d in use, %d allocated", len(out), peak, u, a)
					return
				}
			}
			c.Evals(200)
			c.Distinct("pool", size, peak)
		})
	}
	for rep := 0; rep < r.N(6, 40); rep++ {
		r.Case(fmt.Sprintf("concurrent-%d", rep), func(c *mon.C) {
			dbg.ResetAllocationTracking()
			dbg.EnableAllocationTracking()
			dbg.StartFrame()
			const G, N = 5, 400
			p := dbg.NewBufferPool(32)
			var wg, rg sync.WaitGroup
			var stop atomic.Bool
			var reads atomic.Int64
			for g := 0; g < G; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					own := make([]float32, 10+g)
					for i := 0; i < N; i++ {
						dbg.CheckAllocation(own, fmt.Sprint("own", g))
						dbg.CheckAllocation64(make([]float64, 3), "shared")
						b := p.Get()
						for k := range b {
							b[k] = float32(g)
						}
						if i%7 == 0 {
							runtime.Gosched()
						}
						for k := range b {
							if b[k] != float32(g) {
								c.Failf("pool-shared", "a pooled buffer was written by another holder")
								break
							}
						}
						p.Put(b)
					}
				}()
			}
			for g := 0; g < 2; g++ {
				rg.Add(1)
				go func() {
					defer rg.Done()
					var last uint64
					for !stop.Load() {
						reads.Add(1)
						if g == 0 {
							m, n, _ := parse(dbg.GetAllocationReport())
							var s uint64
							for _, u := range m {
								s += u.count
							}
							if n < last || s != n {
								c.Failf("conc-report", "report of %d accesses lists %d (earlier %d)", n, s, last)
							}
							last = n
						} else {
							dbg.EndFrame()
							if _, u := p.Stats(); u < 0 || u > G {
								c.Failf("conc-pool", "%d buffers in use by %d holders", u, G)
							}
						}
					}
				}()
			}
			wg.Wait()
			stop.Store(true)
			rg.Wait()
			m, n, _ := parse(dbg.GetAllocationReport())
			a, by := dbg.EndFrame()
			wantB := uint64(G * N * 24)
			for g := 0; g < G; g++ {
				wantB += uint64(N * 4 * (10 + g))
				if m[fmt.Sprint("own", g)].count != N {
					c.Failf("conc-lost", "%d accesses made, %d recorded", N, m[fmt.Sprint("own", g)].count)
				}
			}
			if n != 2*G*N || m["shared"].count != G*N || a != n || by != wantB {
				c.Failf("conc-lost", "%d accesses made: %d recorded, %d in the frame, bytes %d of %d", 2*G*N, n, a, by, wantB)
			}
			if _, u := p.Stats(); u != 0 {
				c.Failf("conc-pool", "%d buffers in use after all were returned", u)
			}
			c.Evals(3 * G * N)
			c.Count("concurrent readings", int(reads.Load()))
			c.Distinct("conc", rep)
			dbg.DisableAllocationTracking()
		})
	}
}
