package mon

import (
	"fmt"
	"sync"
	"sync/atomic"
)

// Op is one completed operation of a recorded concurrent history.
type Op struct {
	Client    int
	Call, Ret int64
	In, Out   any
}

func (o Op) String() string {
	return fmt.Sprintf("c%d[%d,%d] %v -> %v", o.Client, o.Call, o.Ret, o.In, o.Out)
}

// Recorder collects operations at the client boundary with one logical clock.
type Recorder struct {
	clk atomic.Int64
	mu  sync.Mutex
	ops []Op
}

// Do records one call.
func (h *Recorder) Do(client int, in any, f func() any) any {
	c := h.clk.Add(1)
	out := f()
	r := h.clk.Add(1)
	h.mu.Lock()
	h.ops = append(h.ops, Op{client, c, r, in, out})
	h.mu.Unlock()
	return out
}

// Ops returns the history.
func (h *Recorder) Ops() []Op { h.mu.Lock(); defer h.mu.Unlock(); return append([]Op(nil), h.ops...) }

// Linearizable searches for a sequential order that respects real time and the model
// (Wing and Gong with memoisation). step returns ok and the next state; key canonicalises
// a state. Returns ok, and inconclusive when the budget ran out.
func Linearizable(ops []Op, init any, step func(st any, o Op) (bool, any), key func(st any) string, budget int) (ok, inconclusive bool) {
	n := len(ops)
	if n > 64 {
		return false, true
	}
	seen := map[string]bool{}
	left := budget
	var rec func(done uint64, st any) bool
	rec = func(done uint64, st any) bool {
		if done == (uint64(1)<<n)-1 || (n == 64 && done == ^uint64(0)) {
			return true
		}
		k := fmt.Sprintf("%x|%s", done, key(st))
		if seen[k] {
			return false
		}
		seen[k] = true
		left--
		if left < 0 {
			return false
		}
		minRet := int64(1) << 62
		for i := 0; i < n; i++ {
			if done>>i&1 == 0 && ops[i].Ret < minRet {
				minRet = ops[i].Ret
			}
		}
		for i := 0; i < n; i++ {
			if done>>i&1 == 0 && ops[i].Call < minRet {
				if good, ns := step(st, ops[i]); good {
					if rec(done|1<<i, ns) {
						return true
					}
				}
			}
		}
		return false
	}
	ok = rec(0, init)
	return ok, !ok && left < 0
}

// Overlap counts pairs of operations whose intervals overlap (how concurrent a history was).
func Overlap(ops []Op) int {
	n := 0
	for i := range ops {
		for j := i + 1; j < len(ops); j++ {
			if ops[i].Call < ops[j].Ret && ops[j].Call < ops[i].Ret {
				n++
			}
		}
	}
	return n
}
