package main

import (
	"fmt"
	"maps"
	"math/rand/v2"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"

	"github.com/justyntemme/vst3go/pkg/framework/param"
	"verif/harness/mon"
)

func a04(r *mon.Run) {
	if !r.Race {
		r.Par("model", r.N(300, 6000), func(c *mon.C, i int) {
			reg := param.NewRegistry()
			var order []*param.Parameter
			byID := map[uint32]*param.Parameter{}
			space := uint32(4 + c.Rand.IntN(40))
			most := 4
			if i%30 == 7 { // many parameters, identifiers from the whole range
				space, most = mon.Pick(c.Rand, uint32(1<<11), 1<<16, ^uint32(0)-8), 400
			}
			var snaps [][]*param.Parameter
			var want [][]*param.Parameter
			for k := 0; k < 60; k++ {
				switch c.Rand.IntN(4) {
				case 0:
					var batch []*param.Parameter
					for j := c.Rand.IntN(most); j >= 0; j-- {
						batch = append(batch, param.New(c.Rand.Uint32N(space), fmt.Sprint("p", k, j)).Build())
					}
					if c.Rand.IntN(8) == 0 { // numbered in a row, as plug-ins do
						for j, from := range batch {
							from.ID = batch[0].ID + uint32(j)
						}
					}
					if c.Rand.IntN(10) == 0 {
						batch[0].ID = ^uint32(0)
					}
					if err := reg.Add(batch...); err != nil {
						c.Failf("A04/add-error", "Add returned %v", err)
					}
					for _, p := range batch {
						if byID[p.ID] == nil {
							byID[p.ID] = p
							order = append(order, p)
						}
					}
				case 1:
					id := c.Rand.Uint32N(space + 3)
					if len(order) > 0 && c.Rand.IntN(2) == 0 {
						id = order[c.Rand.IntN(len(order))].ID
					}
					if g := reg.Get(id); g != byID[id] {
						c.Failf("A04/get", "Get(%d) = %v, model %v", id, g, byID[id])
					}
				case 2:
					ix := int32(c.Rand.IntN(min(int(space), len(order)+40)+6)) - 3
					var w *param.Parameter
					if ix >= 0 && int(ix) < len(order) {
						w = order[ix]
					}
					if g := reg.GetByIndex(ix); g != w {
						c.Failf("A04/index", "GetByIndex(%d) = %v, model %v", ix, g, w)
					}
				case 3:
					a := reg.All()
					snaps = append(snaps, a)
					want = append(want, append([]*param.Parameter(nil), order...))
					if len(a) > 1 && c.Rand.IntN(3) == 0 { // the caller owns the returned list
						b := reg.All()
						b[0], b[len(b)-1] = b[len(b)-1], nil
					}
				}
				if int(reg.Count()) != len(order) {
					c.Failf("A04/count", "Count %d, model %d", reg.Count(), len(order))
				}
			}
			for s := range snaps {
				if len(snaps[s]) != len(want[s]) {
					c.Failf("A04/all", "All has %d entries, model %d", len(snaps[s]), len(want[s]))
					continue
				}
				for j := range snaps[s] {
					if snaps[s][j] != want[s][j] {
						c.Failf("A04/all-order", "All()[%d] differs from registration order", j)
						break
					}
				}
			}
			c.Distinct(i, len(order), space)
			c.Evals(60)
		})
	}
	for rep := 0; rep < r.N(20, 200); rep++ {
		r.Case(fmt.Sprintf("conc/%d", rep), func(c *mon.C) {
			reg := param.NewRegistry()
			const W, K = 4, 40
			ps := make([][]*param.Parameter, W)
			for w := range ps {
				for k := 0; k < K; k++ {
					id := uint32(w*1000 + k)
					if k%4 == 0 {
						id = uint32(9000 + k) // contended id
					}
					ps[w] = append(ps[w], param.New(id, fmt.Sprint(w, ".", k)).Build())
				}
			}
			var done atomic.Int32
			var wg sync.WaitGroup
			for w := 0; w < W; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer done.Add(1)
					for _, p := range ps[w] {
						reg.Add(p)
						g := reg.Get(p.ID)
						if g == nil || (p.ID < 9000 && g != p) {
							c.Failf("A04/lost-add", "parameter %d not found right after Add", p.ID)
						}
						runtime.Gosched()
					}
				}()
			}
			snapsN := 0
			var mu sync.Mutex
			for g := 0; g < 3; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					var prev []*param.Parameter
					for done.Load() < W {
						n := reg.Count()
						cur := reg.All()
						if int(n) > len(cur) {
							c.Failf("A04/shrunk", "Count %d then All %d", n, len(cur))
						}
						seen := map[uint32]bool{}
						for i, p := range cur {
							if p == nil {
								c.Failf("A04/nil-entry", "All()[%d] is nil", i)
								continue
							}
							if seen[p.ID] {
								c.Failf("A04/dup", "id %d listed twice", p.ID)
							}
							seen[p.ID] = true
							if i < len(prev) && prev[i] != p {
								c.Failf("A04/reorder", "position %d changed between snapshots", i)
							}
						}
						if len(cur) > 0 {
							i := len(cur) - 1
							if reg.GetByIndex(int32(i)) != cur[i] || reg.Get(cur[i].ID) != cur[i] {
								c.Failf("A04/lookup-disagree", "index %d / id lookups disagree with the list", i)
							}
						}
						prev = cur
						mu.Lock()
						snapsN++
						mu.Unlock()
						runtime.Gosched()
					}
				}()
			}
			wg.Wait()
			want := W*(K-K/4) + K/4
			if int(reg.Count()) != want || len(reg.All()) != want {
				c.Failf("A04/final", "%d parameters registered, expected %d", reg.Count(), want)
			}
			c.Count("snapshots", snapsN)
			c.Distinct("conc", rep)
		})
	}
}

func anyName(r *rand.Rand, names map[string]uint32) string {
	ks := slices.Sorted(maps.Keys(names))
	return ks[r.IntN(len(ks))]
}

func a05(r *mon.Run) {
	if !r.Race {
		r.Par("seq", r.N(600, 12000), func(c *mon.C, i int) {
			reg := param.NewAutoRegistry()
			type rng struct{ lo, n uint32 }
			var reserved []rng
			ids := map[uint32]string{}   // id -> current name
			names := map[string]uint32{} // name -> id
			cur := map[string]*param.Parameter{}
			log := ""
			autos := 0
			inRes := func(id uint32) bool {
				for _, g := range reserved {
					if id >= g.lo && id-g.lo < g.n {
						return true
					}
				}
				return false
			}
			for k, ops := 0, mon.Pick(c.Rand, 40, 40, 40, 40, 40, 40, 40, 40, 40, 500); k < ops; k++ {
				switch c.Rand.IntN(8) {
				case 6: // a known name under another identifier: the name decides
					if len(names) == 0 {
						continue
					}
					name := anyName(c.Rand, names)
					id := 1 + c.Rand.Uint32N(80)
					p := param.New(id, name).Build()
					err := reg.Register(p)
					log += fmt.Sprintf("known(%s,%d)=%d,%v ", name, id, p.ID, err != nil)
					if err != nil || p.ID != names[name] {
						c.Failf("A05/name-id-changed", "re-registering %s (identifier %d) as %d: it holds %d, error %v\n%s", name, names[name], id, p.ID, err, log)
						return
					}
					cur[name] = p
				case 7: // several at once, known and new ones mixed
					var many []*param.Parameter
					was := map[string]uint32{}
					for q := 0; q < 2+c.Rand.IntN(4); q++ {
						name := fmt.Sprint("m", k, ".", q)
						if len(names) > 0 && c.Rand.IntN(3) == 0 {
							name = anyName(c.Rand, names)
						}
						if _, twice := was[name]; twice {
							continue
						}
						was[name] = names[name]
						many = append(many, param.New(0, name).Build())
					}
					if err := reg.Register(many...); err != nil {
						c.Failf("A05/auto-failed", "registration of %d parameters failed: %v\n%s", len(many), err, log)
						return
					}
					log += fmt.Sprintf("many(%d) ", len(many))
					for _, p := range many {
						if old, had := names[p.Name]; had {
							if p.ID != old {
								c.Failf("A05/name-id-changed", "re-registering %s moved it from %d to %d", p.Name, old, p.ID)
							}
						} else {
							if n, used := ids[p.ID]; used || inRes(p.ID) {
								c.Failf("A05/auto-collides", "automatic id %d of %s already belongs to %q or a reservation\n%s", p.ID, p.Name, n, log)
							}
							ids[p.ID] = p.Name
							names[p.Name] = p.ID
							autos++
						}
						cur[p.Name] = p
					}
				case 0, 1, 2: // automatic
					name := fmt.Sprint("n", k)
					if c.Rand.IntN(4) == 0 && len(names) > 0 {
						for n := range names {
							if name == fmt.Sprint("n", k) || n < name {
								name = n
							}
						}
					}
					p := param.New(0, name).Build()
					err := reg.Register(p)
					log += fmt.Sprintf("auto(%s)=%d,%v ", name, p.ID, err != nil)
					if err != nil {
						c.Failf("A05/auto-failed", "automatic registration of %s failed: %v\n%s", name, err, log)
						return
					}
					if old, had := names[name]; had {
						if p.ID != old {
							c.Failf("A05/name-id-changed", "re-registering %s moved it from %d to %d", name, old, p.ID)
						}
					} else {
						if n, used := ids[p.ID]; used {
							c.Failf("A05/auto-collides", "automatic id %d already belongs to %s\n%s", p.ID, n, log)
						}
						if inRes(p.ID) {
							c.Failf("A05/auto-in-reserved", "automatic id %d lies in a reserved range %v\n%s", p.ID, reserved, log)
						}
						ids[p.ID] = name
						names[name] = p.ID
						autos++
					}
					cur[name] = p
				case 3: // explicit
					id := mon.Pick(c.Rand, c.Rand.Uint32N(60), c.Rand.Uint32N(60), c.Rand.Uint32N(60), 1000+c.Rand.Uint32N(60), c.Rand.Uint32()>>c.Rand.UintN(20)>>1)
					name := fmt.Sprint("x", k)
					if len(names) > 1 && c.Rand.IntN(4) == 0 { // a parameter in use, under an identifier that is taken
						a, b := anyName(c.Rand, names), anyName(c.Rand, names)
						q := cur[a]
						if err := reg.RegisterWithID(names[b], q); err == nil {
							c.Failf("A05/explicit-conflict", "RegisterWithID(%d) of %s succeeded, the identifier belongs to %s\n%s", names[b], a, b, log)
							return
						}
						log += fmt.Sprintf("again(%s,%d) ", a, names[b])
						if q.ID != names[a] {
							c.Failf("A05/refused-changes", "refused under identifier %d, %s went from %d to %d\n%s", names[b], a, names[a], q.ID, log)
							return
						}
					}
					p := param.New(0, name).Build()
					err := reg.RegisterWithID(id, p)
					log += fmt.Sprintf("with(%d)=%v ", id, err != nil)
					_, used := ids[id]
					if used != (err != nil) {
						c.Failf("A05/explicit-conflict", "RegisterWithID(%d): used=%v err=%v\n%s", id, used, err, log)
						return
					}
					if err == nil {
						ids[id] = name
						names[name] = id
						cur[name] = p
					}
				case 4: // explicit non-zero id through the automatic entry point
					id := 1 + c.Rand.Uint32N(60)
					name := fmt.Sprint("y", k)
					p := param.New(id, name).Build()
					err := reg.Register(p)
					log += fmt.Sprintf("reg(%d)=%v ", id, err != nil)
					_, used := ids[id]
					if used != (err != nil) {
						c.Failf("A05/register-conflict", "Register with id %d: used=%v err=%v\n%s", id, used, err, log)
						return
					}
					if err == nil {
						if p.ID != id {
							c.Failf("A05/explicit-changed", "explicit id %d became %d", id, p.ID)
						}
						ids[id] = name
						names[name] = id
						cur[name] = p
					}
				case 5:
					n := mon.Pick(c.Rand, 1+c.Rand.Uint32N(5), 1+c.Rand.Uint32N(5), 1+c.Rand.Uint32N(3000))
					lo := reg.Reserve(n)
					log += fmt.Sprintf("reserve(%d)=%d ", n, lo)
					for q := uint32(0); q < n; q++ {
						if nm, used := ids[lo+q]; used {
							c.Failf("A05/reserved-in-use", "reserved id %d already belongs to %s\n%s", lo+q, nm, log)
						}
						if inRes(lo + q) {
							c.Failf("A05/reserved-twice", "id %d reserved twice\n%s", lo+q, log)
						}
					}
					reserved = append(reserved, rng{lo, n})
				}
				if int(reg.Count()) != len(ids) {
					c.Failf("A05/count", "Count %d, model %d\n%s", reg.Count(), len(ids), log)
					return
				}
			}
			seen := map[uint32]bool{}
			for _, p := range reg.All() {
				if seen[p.ID] {
					c.Failf("A05/dup", "id %d listed twice\n%s", p.ID, log)
				}
				seen[p.ID] = true
			}
			for n, id := range names {
				g, ok := reg.GetID(n)
				if !ok || g != id || reg.GetByName(n) != cur[n] || reg.Get(id) != cur[n] {
					c.Failf("A05/name-lookup", "name %s: id %d/%v model %d, param match %v/%v\n%s", n, g, ok, id, reg.GetByName(n) == cur[n], reg.Get(id) == cur[n], log)
				}
			}
			if autos > 0 {
				c.Distinct(log)
			}
			if i < 2 {
				c.Sample("sequence", log)
			}
			c.Count("automatic_ids", autos)
			c.Evals(40)
			if c.Rand.IntN(3) == 0 {
				reg.Clear()
				if reg.Count() != 0 || len(reg.All()) != 0 || reg.Get(0) != nil {
					c.Failf("A05/clear", "not empty after Clear")
				}
				for n := range names {
					if reg.GetByName(n) != nil {
						c.Failf("A05/clear-name", "name %s survives Clear", n)
					}
				}
				p := param.New(0, "fresh").Build()
				if err := reg.Register(p); err != nil || reg.Count() != 1 {
					c.Failf("A05/clear-register", "register after Clear: %v", err)
				}
			}
		})
	}
	for rep := 0; rep < r.N(60, 600); rep++ {
		r.Case(fmt.Sprintf("conc/%d", rep), func(c *mon.C) {
			reg := param.NewAutoRegistry()
			var mu sync.Mutex
			owner := map[uint32]string{}
			claim := func(id uint32, who string) {
				mu.Lock()
				defer mu.Unlock()
				if o, ok := owner[id]; ok {
					c.Failf("A05/conc-overlap", "id %d handed to both %s and %s", id, o, who)
				}
				owner[id] = who
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := 0; g < 6; g++ {
				seed := c.Rand.Uint64()
				wg.Add(1)
				go func() {
					defer wg.Done()
					rr := rand.New(rand.NewPCG(seed, 2))
					<-start
					for k := 0; k < 60; k++ {
						who := fmt.Sprintf("g%d.%d", g, k)
						switch {
						case g < 2:
							p := param.New(0, who).Build()
							if err := reg.Register(p); err != nil {
								c.Failf("A05/conc-auto-failed", "automatic registration failed: %v", err)
							} else {
								claim(p.ID, who)
							}
						case g < 4:
							n := 1 + rr.Uint32N(4)
							lo := reg.Reserve(n)
							for q := uint32(0); q < n; q++ {
								claim(lo+q, "reserve "+who)
							}
						case g == 4:
							// explicit ids right around the counter; manual use of a reserved id is legitimate,
							// so explicit ids are judged only against automatic ones (and each other)
							base := reg.Reserve(1)
							claim(base, "reserve "+who)
							id := base + rr.Uint32N(4)
							p := param.New(0, who).Build()
							if err := reg.RegisterWithID(id, p); err == nil {
								mu.Lock()
								if o, ok := owner[id]; ok && o[0] == 'g' {
									c.Failf("A05/conc-explicit-auto", "id %d handed to both %s and %s", id, o, who)
								}
								mu.Unlock()
							}
						default:
							_ = reg.GetByName(fmt.Sprintf("g0.%d", k))
							_, _ = reg.GetID(fmt.Sprintf("g1.%d", k))
							for _, p := range reg.All() {
								if p == nil {
									c.Failf("A05/conc-nil", "nil parameter listed")
								}
							}
						}
						if rr.IntN(2) == 0 {
							runtime.Gosched()
						}
					}
				}()
			}
			close(start)
			wg.Wait()
			seen := map[uint32]bool{}
			for _, p := range reg.All() {
				if seen[p.ID] {
					c.Failf("A05/conc-dup", "id %d listed twice", p.ID)
				}
				seen[p.ID] = true
			}
			c.Count("concurrent_ids", len(owner))
			c.Distinct("conc", rep, len(owner))
		})
	}
}
