// Package mon is the runtime-monitoring core: it runs property workloads case by case,
// collects the violations the oracles report, watches for panics, non-termination and
// stalls, and counts what was actually observed.
package mon

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Violation is one refutation of the property, with a signature that is stable across
// seeds and tiers for the same defect.
type Violation struct {
	Sig    string `json:"sig"`
	Case   string `json:"case"`
	Detail string `json:"detail"`
	Count  int    `json:"count"`
}

// Result is what a worker process hands to the supervisor.
type Result struct {
	Property   string                `json:"property"`
	Done       bool                  `json:"done"`
	Evals      int64                 `json:"evaluations"`
	Distinct   []uint64              `json:"distinct"`
	Counters   map[string]int64      `json:"counters"`
	Samples    []any                 `json:"samples"`
	Violations map[string]*Violation `json:"violations"`
	LastCase   string                `json:"last_case"`
}

// Run is one execution of one property's workload.
type Run struct {
	ID       string
	Thorough bool
	Race     bool // built with the race detector
	Asan     bool // built with the address and undefined behaviour sanitizers
	Seed     uint64
	Only     string // replay: run only cases whose name has this prefix

	mu       sync.Mutex
	evals    atomic.Int64
	distinct map[uint64]struct{}
	counters map[string]int64
	samples  map[string][]any
	sorder   []string
	viol     map[string]*Violation
	active   map[*C]struct{}
	last     string
	out      string
}

// C is one case.
type C struct {
	R        *Run
	Name     string
	Rand     *rand.Rand
	tid      int
	cpu0     float64
	pcpu0    float64
	wall0    time.Time
	multi    bool
	lastPCPU float64
	lastWall time.Time
}

func newRun(id string, thorough, race bool, seed uint64, only, out string) *Run {
	return &Run{ID: id, Thorough: thorough, Race: race, Seed: seed, Only: only, out: out,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, samples: map[string][]any{},
		viol: map[string]*Violation{}, active: map[*C]struct{}{}}
}

// N picks a workload size: quick, thorough; scaled down under the race detector.
func (r *Run) N(quick, thorough int) int {
	n := min(4*quick, thorough)
	if r.Thorough {
		n = 4 * thorough
	}
	if r.Race {
		n = n / 4
	}
	if r.Asan {
		n = n / 10
	}
	if n < 1 {
		n = 1
	}
	return n
}

func hash(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	return h.Sum64()
}

// RandFor derives a PRNG from the seed, the property and a name only.
func (r *Run) RandFor(name string) *rand.Rand {
	return rand.New(rand.NewPCG(r.Seed*0x9E3779B97F4A7C15+1, hash(r.ID, name)))
}

func threadCPU(tid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/self/task/%d/stat", tid))
	if err != nil {
		return 0
	}
	s := string(b)
	i := strings.LastIndexByte(s, ')')
	if i < 0 {
		return 0
	}
	f := strings.Fields(s[i+1:])
	if len(f) < 13 {
		return 0
	}
	var u, k float64
	fmt.Sscan(f[11], &u)
	fmt.Sscan(f[12], &k)
	return (u + k) / 100
}

func procCPU() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6 + float64(ru.Stime.Sec) + float64(ru.Stime.Usec)/1e6
}

func (r *Run) begin(name string, multi bool) *C {
	runtime.LockOSThread()
	tid := syscall.Gettid()
	c := &C{R: r, Name: name, Rand: r.RandFor(name), tid: tid, cpu0: threadCPU(tid), pcpu0: procCPU(), wall0: time.Now(), multi: multi}
	c.lastPCPU, c.lastWall = c.pcpu0, c.wall0
	r.mu.Lock()
	r.active[c] = struct{}{}
	r.last = name
	r.mu.Unlock()
	return c
}

func (r *Run) end(c *C) {
	r.mu.Lock()
	delete(r.active, c)
	r.mu.Unlock()
	runtime.UnlockOSThread()
}

func (r *Run) skip(name string) bool { return r.Only != "" && !strings.HasPrefix(name, r.Only) }

// Case runs one case; a panic out of the code under test is a violation.
func (r *Run) Case(name string, f func(c *C)) {
	if r.skip(name) {
		return
	}
	c := r.begin(name, true)
	defer r.end(c)
	r.evals.Add(1)
	defer func() {
		if e := recover(); e != nil {
			c.panicked(e)
		}
	}()
	f(c)
}

func (c *C) panicked(e any) {
	st := string(debug.Stack())
	c.Failf("panic@"+panicSite(st), "panic: %v\n%s", e, trimStack(st))
}

// panicSite finds the innermost repository frame of a stack.
func panicSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/justyntemme/vst3go/") {
			s := strings.TrimPrefix(l, "github.com/justyntemme/vst3go/")
			if i := strings.LastIndexByte(s, '('); i > 0 {
				s = s[:i]
			}
			return s
		}
	}
	return "harness"
}

func trimStack(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

// Par runs n cases on all cores. Case i is named prefix/i.
func (r *Run) Par(prefix string, n int, f func(c *C, i int)) {
	var wg sync.WaitGroup
	var next atomic.Int64
	w := runtime.GOMAXPROCS(0)
	if w > n {
		w = n
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				name := fmt.Sprintf("%s/%d", prefix, i)
				if r.Only != "" && r.Only != name && !strings.HasPrefix(prefix, r.Only) {
					continue
				}
				func() {
					c := r.begin(name, false)
					defer r.end(c)
					r.evals.Add(1)
					defer func() {
						if e := recover(); e != nil {
							c.panicked(e)
						}
					}()
					f(c, i)
				}()
			}
		}()
	}
	wg.Wait()
}

// Failf records a violation.
func (c *C) Failf(sig, format string, a ...any) {
	d := fmt.Sprintf(format, a...)
	r := c.R
	r.mu.Lock()
	defer r.mu.Unlock()
	if v := r.viol[sig]; v != nil {
		v.Count++
		return
	}
	if len(r.viol) < 200 {
		r.viol[sig] = &Violation{Sig: sig, Case: c.Name, Detail: d, Count: 1}
	}
}

// Try runs f and reports whether it panicked (for probes where a panic is the answer).
func Try(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return nil
}

// NoPanic runs f; a panic becomes a violation with the given signature prefix.
func (c *C) NoPanic(sig string, f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			ok = false
			c.Failf(sig+"/panic", "panic: %v\n%s", e, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return true
}

// Distinct counts a non-trivial distinct observation.
func (c *C) Distinct(parts ...any) {
	h := hash(parts...)
	c.R.mu.Lock()
	if len(c.R.distinct) < 2_000_000 {
		c.R.distinct[h] = struct{}{}
	}
	c.R.mu.Unlock()
}

// Count adds to a named counter of what the monitor observed.
func (c *C) Count(name string, n int) {
	c.R.mu.Lock()
	c.R.counters[name] += int64(n)
	c.R.mu.Unlock()
}

// Sample keeps a few written-out cases per kind.
func (c *C) Sample(kind string, v any) {
	c.R.mu.Lock()
	defer c.R.mu.Unlock()
	if _, ok := c.R.samples[kind]; !ok {
		c.R.sorder = append(c.R.sorder, kind)
	}
	if len(c.R.samples[kind]) < 2 {
		c.R.samples[kind] = append(c.R.samples[kind], v)
	}
}

// Evals adds extra evaluations (inputs tried inside one case).
func (c *C) Evals(n int) { c.R.evals.Add(int64(n)) }

func (r *Run) result(done bool) *Result {
	r.mu.Lock()
	defer r.mu.Unlock()
	res := &Result{Property: r.ID, Done: done, Evals: r.evals.Load(), Counters: map[string]int64{}, Violations: map[string]*Violation{}, LastCase: r.last}
	for k, v := range r.counters {
		res.Counters[k] = v
	}
	for k, v := range r.viol {
		vv := *v
		res.Violations[k] = &vv
	}
	for k := range r.distinct {
		res.Distinct = append(res.Distinct, k)
	}
	sort.Strings(r.sorder)
	for _, k := range r.sorder {
		for _, s := range r.samples[k] {
			res.Samples = append(res.Samples, map[string]any{"kind": k, "case": s})
		}
	}
	return res
}

func (r *Run) write(done bool) {
	b, err := json.Marshal(r.result(done))
	if err != nil {
		b, _ = json.Marshal(&Result{Property: r.ID, Violations: map[string]*Violation{"harness/json": {Sig: "harness/json", Detail: err.Error()}}})
	}
	_ = os.WriteFile(r.out, b, 0o644)
}

// watchdog: logical (CPU-time) budget per case, and a stall detector that needs the
// process to make no CPU progress at all.
func (r *Run) watchdog() {
	lim := 25.0
	if r.Thorough {
		lim = 120
	}
	if r.Race {
		lim *= 6
	}
	for {
		time.Sleep(500 * time.Millisecond)
		r.mu.Lock()
		var bad *C
		why := ""
		for c := range r.active {
			if t := threadCPU(c.tid) - c.cpu0; t > lim {
				bad, why = c, fmt.Sprintf("case did not terminate within %.0f s of CPU time (normal cases need well under a second)", lim)
			}
			p := procCPU()
			if p-c.lastPCPU > 1.0 {
				c.lastPCPU, c.lastWall = p, time.Now()
			} else if time.Since(c.lastWall) > 180*time.Second {
				bad, why = c, "case stalled: no CPU progress for 180 s (deadlock)"
			}
			if c.multi && p-c.pcpu0 > 12*lim {
				bad, why = c, fmt.Sprintf("case did not terminate within %.0f s of process CPU time", 12*lim)
			}
		}
		r.mu.Unlock()
		var ms runtime.MemStats
		if bad == nil {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 8<<30 {
				r.mu.Lock()
				for c := range r.active {
					bad, why = c, "heap above 8 GB: unbounded memory growth"
				}
				r.mu.Unlock()
			}
		}
		if bad != nil {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			bad.Failf("nontermination@"+panicSite(string(buf[:n])), "%s\n%s", why, trimStack(string(buf[:n])))
			r.write(true)
			os.Exit(0)
		}
	}
}

// Rand2 is a generator of its own for a helper thread of the case.
func (c *C) Rand2(k int) *rand.Rand {
	return rand.New(rand.NewPCG(c.R.Seed+uint64(k), hash(c.R.ID, c.Name, k)))
}

// Child runs another monitored program as part of this run and takes over what it reports.
func (r *Run) Child(name, bin string) {
	out := r.out + "." + name
	cmd := exec.Command(bin)
	cmd.Env = append(os.Environ(), "MON_OUT="+out, "GOMAXPROCS="+strconv.Itoa(runtime.GOMAXPROCS(0)))
	var stderr bytes.Buffer
	cmd.Stderr = &limited{b: &stderr}
	err := cmd.Run()
	res := &Result{}
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		rerr = json.Unmarshal(b, res)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if rerr != nil || !res.Done {
		if len(res.Violations) == 0 {
			txt := stderr.String()
			if len(txt) > 6000 {
				txt = txt[:6000]
			}
			r.viol[name+"/crash@"+crashSite(txt)] = &Violation{Sig: name + "/crash@" + crashSite(txt), Case: name, Detail: fmt.Sprintf("worker died: %v\n%s", err, txt), Count: 1}
		}
	}
	r.evals.Add(res.Evals)
	for k, v := range res.Counters {
		r.counters[k] += v
	}
	for _, d := range res.Distinct {
		r.distinct[d] = struct{}{}
	}
	for _, s := range res.Samples {
		if m, ok := s.(map[string]any); ok {
			k, _ := m["kind"].(string)
			if _, ok := r.samples[k]; !ok {
				r.sorder = append(r.sorder, k)
			}
			if len(r.samples[k]) < 2 {
				r.samples[k] = append(r.samples[k], m["case"])
			}
		}
	}
	for _, v := range res.Violations {
		v.Sig = name + "/" + v.Sig
		r.viol[v.Sig] = v
	}
}
