package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/justyntemme/vst3go/pkg/framework/voice"
	"github.com/justyntemme/vst3go/pkg/midi"
	"verif/harness/mon"
)

// mv is a monitored voice: it sounds after a trigger, keeps sounding for a release tail,
// may end by itself, and counts the calls it receives.
type mv struct {
	active, gated bool
	note, vel     uint8
	amp           float64
	age           int64
	tail, left    int
	trig, rel     int
	stop          int
}

func (v *mv) IsActive() bool        { return v.active }
func (v *mv) GetNote() uint8        { return v.note }
func (v *mv) GetVelocity() uint8    { return v.vel }
func (v *mv) GetAmplitude() float64 { return v.amp }
func (v *mv) GetAge() int64         { return v.age }
func (v *mv) TriggerNote(n, vel uint8) {
	v.trig++
	v.active, v.gated, v.note, v.vel, v.age = true, true, n, vel, 0
	v.amp = float64(vel) / 127
}
func (v *mv) ReleaseNote() {
	v.rel++
	v.gated = false
	v.left = v.tail
	if v.tail == 0 {
		v.active = false
	}
}
func (v *mv) Stop()               { v.stop++; v.active, v.gated = false, false }
func (v *mv) Process(o []float32) {}

type snap struct {
	active, gated bool
	note          uint8
	amp           float64
	age           int64
	trig, rel     int
	stop          int
}

func take(vs []*mv) []snap {
	var s []snap
	for _, v := range vs {
		s = append(s, snap{v.active, v.gated, v.note, v.amp, v.age, v.trig, v.rel, v.stop})
	}
	return s
}

func b07(r *mon.Run) {
	r.Par("poly", r.N(2500, 80000), func(c *mon.C, i int) { poly(c, i) })
	r.Par("mono", r.N(1500, 40000), func(c *mon.C, i int) { monoLegatoUnison(c, i) })
}

func setup(c *mon.C) (*voice.Allocator, []*mv, int) {
	n := mon.Pick(c.Rand, 1+c.Rand.IntN(8), 1+c.Rand.IntN(8), 1+c.Rand.IntN(8), 1+c.Rand.IntN(40))
	vs := make([]*mv, n)
	ifs := make([]voice.Voice, n)
	tail := mon.Pick(c.Rand, 0, 0, 3, 10)
	for k := range vs {
		vs[k] = &mv{tail: tail}
		ifs[k] = vs[k]
	}
	a := voice.NewAllocator(ifs)
	mx := n
	if c.Rand.IntN(2) == 0 {
		mx = 1 + c.Rand.IntN(n+2)
		a.SetMaxVoices(mx)
		mx = min(mx, n)
	}
	return a, vs, mx
}

func tick(r *rand.Rand, vs []*mv, selfEnd bool) {
	if r.IntN(3) == 0 {
		return // the next event falls on the same sample
	}
	scale := mon.Pick(r, 1, 1, 1, 1<<20)
	for _, v := range vs {
		if !v.active {
			continue
		}
		v.age += int64(1+r.IntN(5)) * int64(scale)
		v.amp *= 0.5 + 0.5*r.Float64()
		if r.IntN(10) == 0 {
			v.amp = 0 // a voice in its attack or a silent phase
		}
		if !v.gated {
			v.left--
			if v.left <= 0 {
				v.active = false
			}
		} else if selfEnd && r.IntN(12) == 0 {
			v.active, v.gated = false, false // percussive voice ended under a held key
		}
	}
}

func poly(c *mon.C, i int) {
	a, vs, mx := setup(c)
	steal := voice.StealingMode(c.Rand.IntN(5))
	a.SetStealingMode(steal)
	selfEnd := i%3 == 0
	held := map[uint8]bool{}
	sust := map[uint8]bool{} // released while the pedal was down and not played again since
	pedal := false
	nn, ops := 2+c.Rand.IntN(14), 60
	if len(vs) > 8 { // enough notes to use them all
		nn, ops = len(vs)/2+c.Rand.IntN(28), 60+6*len(vs)
	}
	base := uint8(c.Rand.IntN(100))
	if c.Rand.IntN(4) == 0 {
		base = 0
	}
	var log strings.Builder
	for k := 0; k < ops; k++ {
		note := base + uint8(c.Rand.IntN(nn))
		vel := uint8(1 + c.Rand.IntN(127))
		b := take(vs)
		fail := func(sig, f string, x ...any) {
			c.Failf("B07/poly-"+sig, "%d voices (max %d), stealing %d: %s\nevents: %s", len(vs), mx, steal, fmt.Sprintf(f, x...), log.String())
		}
		via := c.Rand.IntN(2) == 0
		bev := midi.BaseEvent{EventChannel: uint8(c.Rand.IntN(16))}
		op := c.Rand.IntN(10)
		switch {
		case op < 4: // note on
			fmt.Fprintf(&log, "on%d ", note)
			var sounding, free, full []int
			for q := range b {
				if b[q].active && b[q].gated && b[q].note == note {
					sounding = append(sounding, q)
				}
				if q < mx && !b[q].active {
					free = append(free, q)
				}
				if q < mx && b[q].active {
					full = append(full, q)
				}
			}
			if via {
				a.ProcessEvent(midi.NoteOnEvent{BaseEvent: bev, NoteNumber: note, Velocity: vel})
			} else {
				a.NoteOn(note, vel)
			}
			held[note] = true
			delete(sust, note)
			var trig []int
			for q := range vs {
				if d := vs[q].trig - b[q].trig; d > 1 {
					fail("double-trigger", "voice %d triggered %d times by one note", q, d)
				} else if d == 1 {
					trig = append(trig, q)
					if vs[q].note != note || vs[q].vel != vel || !vs[q].active {
						fail("wrong-trigger", "voice %d plays note %d velocity %d", q, vs[q].note, vs[q].vel)
					}
				} else if vs[q].rel != b[q].rel || vs[q].stop != b[q].stop && b[q].active {
					fail("bystander", "note on %d released or stopped voice %d playing %d", note, q, b[q].note)
				}
			}
			switch {
			case len(sounding) > 0:
				if fmt.Sprint(trig) != fmt.Sprint(sounding) {
					fail("retrigger", "note %d already sounds on %v but %v was triggered", note, sounding, trig)
				}
			case len(free) > 0:
				if len(trig) != 1 || b[trig[0]].active {
					fail("free-voice", "voices %v were free, triggered %v", free, trig)
				} else if trig[0] >= mx {
					fail("beyond-max", "voice %d triggered beyond the limit", trig[0])
				}
			case steal == voice.StealNone:
				if len(trig) != 0 {
					fail("stealnone", "voice %v taken although stealing is off", trig)
				}
			default:
				if len(trig) != 1 {
					fail("steal-count", "all voices busy, triggered %v", trig)
					break
				}
				t := b[trig[0]]
				if trig[0] >= mx {
					fail("beyond-max", "voice %d triggered beyond the limit", trig[0])
				}
				for _, q := range full {
					o := b[q]
					if steal == voice.StealOldest && o.age > t.age || steal == voice.StealQuietest && o.amp < t.amp ||
						steal == voice.StealHighest && o.note > t.note || steal == voice.StealLowest && o.note < t.note {
						fail("steal-choice", "mode %d stole voice %d (note %d age %d amp %.3f) although voice %d (note %d age %d amp %.3f) qualifies more", steal, trig[0], t.note, t.age, t.amp, q, o.note, o.age, o.amp)
						break
					}
				}
				c.Count("steals", 1)
			}
		case op < 8: // note off
			fmt.Fprintf(&log, "off%d ", note)
			switch {
			case via && c.Rand.IntN(2) == 0:
				a.ProcessEvent(midi.NoteOnEvent{BaseEvent: bev, NoteNumber: note, Velocity: 0})
			case via:
				a.ProcessEvent(midi.NoteOffEvent{BaseEvent: bev, NoteNumber: note, Velocity: vel})
			default:
				a.NoteOff(note, vel)
			}
			wasHeld := held[note]
			delete(held, note)
			if pedal {
				sust[note] = true
			}
			for q := range vs {
				hit := b[q].active && b[q].gated && b[q].note == note
				if vs[q].trig != b[q].trig || vs[q].stop != b[q].stop {
					fail("off-trigger", "note off %d triggered or stopped voice %d", note, q)
				}
				if pedal && vs[q].rel != b[q].rel {
					fail("pedal-release", "note off %d under the pedal released voice %d", note, q)
				}
				if !pedal && hit && vs[q].rel == b[q].rel {
					fail("stuck", "note off %d left voice %d sounding (key was held: %v)", note, q, wasHeld)
				}
				if !pedal && !hit && b[q].gated && vs[q].rel != b[q].rel {
					fail("off-bystander", "note off %d released voice %d which plays %d", note, q, b[q].note)
				}
			}
		case op == 8: // pedal
			pedal = pedal != (c.Rand.IntN(4) > 0) // controllers repeat their position
			fmt.Fprintf(&log, "pedal=%v ", pedal)
			if via {
				v := uint8(c.Rand.IntN(64))
				if pedal {
					v += 64
				}
				a.ProcessEvent(midi.ControlChangeEvent{BaseEvent: bev, Controller: midi.CCSustain, Value: v})
			} else {
				a.SetSustainPedal(pedal)
			}
			for q := range vs {
				if vs[q].trig != b[q].trig || vs[q].stop != b[q].stop {
					fail("pedal-trigger", "the pedal triggered or stopped voice %d", q)
				}
				if pedal && vs[q].rel != b[q].rel {
					fail("pedal-down", "pressing the pedal released voice %d", q)
				}
				if !pedal && b[q].active && b[q].gated {
					if held[b[q].note] && vs[q].rel != b[q].rel {
						fail("pedal-held", "lifting the pedal released note %d whose key is still down", b[q].note)
					}
					if !held[b[q].note] && vs[q].rel == b[q].rel {
						fail("pedal-stuck", "lifting the pedal left note %d sounding", b[q].note)
					}
				}
			}
			if !pedal {
				sust = map[uint8]bool{}
			}
		case op == 9:
			if c.Rand.IntN(6) == 0 { // another rule or limit from here on
				steal = voice.StealingMode(c.Rand.IntN(5))
				a.SetStealingMode(steal)
				nm := 1 + c.Rand.IntN(len(vs)+1)
				a.SetMaxVoices(nm)
				mx = min(nm, len(vs))
				for q := range vs {
					if vs[q].trig != b[q].trig || q < mx && b[q].gated && (vs[q].rel != b[q].rel || vs[q].stop != b[q].stop) {
						fail("limit", "limit %d touched voice %d", mx, q)
					}
				}
				fmt.Fprintf(&log, "steal=%d,max=%d ", steal, mx)
			} else if c.Rand.IntN(6) == 0 {
				log.WriteString("reset ")
				if c.Rand.IntN(2) == 0 {
					a.Reset()
				} else {
					a.SetMode(voice.ModePoly)
				}
				held, sust, pedal = map[uint8]bool{}, map[uint8]bool{}, false
				for q := range vs {
					if vs[q].active {
						fail("reset", "voice %d survives a reset", q)
					}
				}
			} else if c.Rand.IntN(3) == 0 {
				a.ProcessEvent(midi.ControlChangeEvent{Controller: uint8(c.Rand.IntN(64)), Value: vel})
				a.ProcessEvent(midi.PitchBendEvent{Value: 100})
				for q := range vs {
					if s := take(vs); s[q] != b[q] {
						fail("unrelated", "an unrelated controller affected voice %d", q)
					}
				}
			}
		}
		// quiescent invariants
		act := 0
		for q, v := range vs {
			if v.active && v.gated && !held[v.note] && !(pedal && sust[v.note]) {
				fail("orphan", "voice %d sounds note %d with no key held and no pedal", q, v.note)
			}
			if q >= mx && v.active && v.gated {
				fail("beyond-limit", "voice %d holds note %d beyond the limit", q, v.note)
			}
			if v.active && q < mx { // a voice the limit excludes may still fade out
				act++
			}
		}
		if act > mx || a.GetActiveVoiceCount() != act {
			fail("count", "%d voices active, limit %d, reported %d", act, mx, a.GetActiveVoiceCount())
		}
		if act > 0 {
			c.Distinct(len(vs), mx, steal, log.String())
		}
		tick(c.Rand, vs, selfEnd)
	}
	c.Evals(60)
	if i < 2 {
		c.Sample("poly", log.String())
	}
}

func monoLegatoUnison(c *mon.C, i int) {
	a, vs, mx := setup(c)
	mode := []voice.AllocationMode{voice.ModeMono, voice.ModeLegato, voice.ModeUnison}[i%3]
	name := []string{"mono", "legato", "unison"}[i%3]
	a.SetMode(mode)
	cur := -1 // note in charge, -1 none
	pedal := false
	sust := map[uint8]bool{}
	base := uint8(c.Rand.IntN(100))
	if c.Rand.IntN(3) == 0 {
		base = 0
	}
	var log strings.Builder
	nv := 1
	if mode == voice.ModeUnison {
		nv = mx
	}
	lim := mx // voices started by the current note
	release := func(n uint8) (hits bool) {
		if cur == int(n) {
			cur = -1
			return true
		}
		return false
	}
	for k := 0; k < 40; k++ {
		note := base + uint8(c.Rand.IntN(4))
		vel := uint8(1 + c.Rand.IntN(127))
		b := take(vs)
		fail := func(sig, f string, x ...any) {
			c.Failf("B07/"+name+"-"+sig, "%d voices (max %d): %s\nevents: %s", len(vs), mx, fmt.Sprintf(f, x...), log.String())
		}
		expect := func(what string, trig, rel int, which func(q int) bool) {
			for q := range vs {
				wt, wr := 0, 0
				if which(q) {
					wt, wr = trig, rel
				}
				if vs[q].trig-b[q].trig != wt {
					fail(what+"-trigger", "voice %d got %d triggers, expected %d", q, vs[q].trig-b[q].trig, wt)
				}
				if mode == voice.ModeUnison && q >= mx && wr == 0 {
					continue // a voice the limit excludes may be let go early
				}
				if (vs[q].rel-b[q].rel > 0) != (wr > 0) && (b[q].gated || wr > 0) {
					fail(what+"-release", "voice %d got %d releases, expected %d", q, vs[q].rel-b[q].rel, wr)
				}
			}
		}
		sel := func(q int) bool { return q < nv }
		switch op := c.Rand.IntN(10); {
		case op < 5:
			fmt.Fprintf(&log, "on%d ", note)
			a.NoteOn(note, vel)
			delete(sust, note)
			if mode == voice.ModeLegato && cur >= 0 {
				expect("overlap", 0, 0, sel)
			} else {
				expect("on", 1, 0, sel)
				lim = nv
				for q := 0; q < nv; q++ {
					if vs[q].note != note || vs[q].vel != vel {
						fail("on-note", "voice %d plays %d/%d", q, vs[q].note, vs[q].vel)
					}
				}
			}
			cur = int(note)
		case op < 8:
			fmt.Fprintf(&log, "off%d ", note)
			a.NoteOff(note, 0)
			if pedal {
				sust[note] = true
				expect("off-pedal", 0, 0, sel)
			} else if release(note) {
				expect("off", 0, 1, func(q int) bool { return q < lim })
			} else {
				expect("off-other", 0, 0, sel)
			}
		case op == 8:
			pedal = pedal != (c.Rand.IntN(4) > 0)
			fmt.Fprintf(&log, "pedal=%v ", pedal)
			a.SetSustainPedal(pedal)
			hit := false
			if !pedal {
				for n := range sust {
					if release(n) {
						hit = true
					}
				}
				sust = map[uint8]bool{}
			}
			if hit {
				expect("pedal-up", 0, 1, func(q int) bool { return q < lim })
			} else {
				expect("pedal", 0, 0, sel)
			}
		case op == 9:
			if c.Rand.IntN(3) == 0 {
				mx = 1 + c.Rand.IntN(len(vs))
				fmt.Fprintf(&log, "max=%d ", mx)
				a.SetMaxVoices(mx)
				if mode == voice.ModeUnison {
					lim = min(lim, mx)
					for q := range vs {
						if q >= mx && vs[q].active && vs[q].gated {
							fail("beyond-limit", "voice %d holds note %d beyond the limit", q, vs[q].note)
						}
						if vs[q].trig != b[q].trig || q < mx && b[q].gated && (vs[q].rel != b[q].rel || vs[q].stop != b[q].stop) {
							fail("limit", "limit %d touched voice %d", mx, q)
						}
					}
					nv = mx
				}
			} else if c.Rand.IntN(4) == 0 {
				log.WriteString("reset ")
				a.Reset()
				cur, pedal, sust = -1, false, map[uint8]bool{}
				for q := range vs {
					if vs[q].active {
						fail("reset", "voice %d survives a reset", q)
					}
				}
			}
		}
		if cur < 0 {
			for q := range vs {
				if vs[q].active && vs[q].gated {
					fail("stuck", "voice %d still sounds note %d although nothing is held", q, vs[q].note)
				}
			}
		}
		c.Distinct(name, len(vs), mx, log.String())
		for _, v := range vs { // release tails only; no self-ending here
			if v.active && !v.gated {
				v.left--
				if v.left <= 0 {
					v.active = false
				}
			}
		}
	}
	c.Evals(40)
	if i < 3 {
		c.Sample(name, log.String())
	}
}
