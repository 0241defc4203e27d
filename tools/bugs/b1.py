H='''package main

import (
	"fmt"
	"os"
%s)

func bad(f string, a ...any) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

'''
def imp(*p): return H%''.join('\t"%s"\n'%(x if '/' not in x or x.startswith('math/') else 'github.com/justyntemme/vst3go/'+x) for x in p)
B=[
dict(id='state-unknown-param',property='A07',edits=[('pkg/framework/state/manager.go','''		var value float64
		if err := binary.Read(r, binary.LittleEndian, &value); err != nil {
			return err
		}

		// Set parameter value if it exists
		if param := m.registry.Get(id); param != nil {
			param.SetValue(value)
		}
		// Ignore unknown parameters for forward compatibility
''','''		// Ignore unknown parameters for forward compatibility
		param := m.registry.Get(id)
		if param == nil {
			continue
		}

		var value float64
		if err := binary.Read(r, binary.LittleEndian, &value); err != nil {
			return err
		}
		param.SetValue(value)
''')],needs='a saved state holding a parameter the loading plug-in does not have',breaks='the value of the unknown parameter is left in the stream, so every later parameter is read shifted',
demo=imp('bytes','pkg/framework/param','pkg/framework/state')+'''
func main() {
	full := param.NewRegistry()
	for id := uint32(1); id <= 4; id++ {
		full.Add(param.New(id, "p").Build())
		full.Get(id).SetValue(float64(id) / 8)
	}
	var b bytes.Buffer
	if err := state.NewManager(full).Save(&b); err != nil {
		bad("save: %v", err)
	}
	part := param.NewRegistry()
	for _, id := range []uint32{1, 3, 4} {
		part.Add(param.New(id, "p").Build())
	}
	if err := state.NewManager(part).Load(&b); err != nil {
		bad("load: %v", err)
	}
	for _, id := range []uint32{1, 3, 4} {
		if v := part.Get(id).GetValue(); v != float64(id)/8 {
			bad("parameter %d is %g", id, v)
		}
	}
}
'''),
dict(id='queue-batch-sorted',property='B04',edits=[('pkg/midi/queue.go','''	q.events = append(q.events, events...)
	q.sorted = false
''','''	// A batch that starts after the newest queued event keeps the order
	if n := len(q.events); n > 0 && events[0].SampleOffset() < q.events[n-1].SampleOffset() {
		q.sorted = false
	}
	q.events = append(q.events, events...)
''')],needs='a batch of events which is itself out of order, added to a sorted queue',breaks='events are delivered out of order or missed by range queries',
demo=imp('pkg/midi')+'''
func on(o int32) midi.Event { return midi.NoteOnEvent{BaseEvent: midi.BaseEvent{Offset: o}, NoteNumber: 60, Velocity: 100} }

func main() {
	q := midi.NewEventQueue()
	q.Add(on(5))
	q.GetAllEvents()
	q.AddMultiple([]midi.Event{on(50), on(10), on(30)})
	got := q.GetEventsInRange(10, 40)
	if len(got) != 2 {
		bad("%d events of 2 in the range", len(got))
	}
	last := int32(-1)
	for _, e := range q.GetAllEvents() {
		if e.SampleOffset() < last {
			bad("out of order")
		}
		last = e.SampleOffset()
	}
}
'''),
dict(id='voice-limit',property='B07',edits=[('pkg/framework/voice/allocator.go','''		idx := (start + i + 1) % a.maxVoices
''','''		idx := (start + i + 1) % len(a.voices)
''')],needs='a polyphony limit below the number of voices, and enough notes to wrap the round robin',breaks='voices beyond the limit are triggered, so more notes sound than the limit allows',
demo=imp('pkg/framework/voice')+'''
type v struct {
	on   bool
	note uint8
}

func (x *v) IsActive() bool                { return x.on }
func (x *v) GetNote() uint8                { return x.note }
func (x *v) GetVelocity() uint8            { return 1 }
func (x *v) GetAge() int64                 { return 0 }
func (x *v) GetAmplitude() float64         { return 1 }
func (x *v) TriggerNote(n uint8, vel uint8) { x.on, x.note = true, n }
func (x *v) ReleaseNote()                  { x.on = false }
func (x *v) Stop()                         { x.on = false }
func (x *v) Process(b []float32)           {}

func main() {
	vs := make([]voice.Voice, 8)
	for i := range vs {
		vs[i] = &v{}
	}
	a := voice.NewAllocator(vs)
	a.SetMaxVoices(3)
	for n := uint8(40); n < 60; n++ {
		a.NoteOn(n, 100)
		on := 0
		for _, x := range vs {
			if x.IsActive() {
				on++
			}
		}
		if on > 3 {
			bad("%d voices sound with a limit of 3", on)
		}
		if n%2 == 0 {
			a.NoteOff(n, 0)
		}
	}
}
'''),
dict(id='gate-stereo-hold',property='E03',edits=[('pkg/dsp/dynamics/gate.go','''		case gateStateHold:
			if inputDB > g.threshold-g.hysteresis {
				g.state = gateStateOpen
			} else if g.holdCounter > 0 {
				g.holdCounter--
''','''		case gateStateHold:
			if inputDB > g.threshold {
				g.state = gateStateOpen
			} else if g.holdCounter > 0 {
				g.holdCounter--
''')],needs='a stereo signal which, after dropping below the closing threshold, comes back only into the hysteresis band during the hold time',breaks='the stereo gate closes on a signal above its closing threshold where the mono gate stays open',
demo=imp('pkg/dsp/dynamics')+'''
func main() {
	m, s := dynamics.NewGate(48000), dynamics.NewGate(48000)
	for _, g := range []*dynamics.Gate{m, s} {
		g.SetThreshold(-20)
		g.SetHysteresis(10)
		g.SetHold(0.005)
		g.SetAttack(0.0005)
	}
	var a, b [1]float32
	for i := 0; i < 9000; i++ {
		x := float32(0.5)
		if i > 3000 {
			x = 0.001
		}
		if i > 3050 {
			x = 0.05 // between the closing and the opening threshold
		}
		y := m.Process(x)
		s.ProcessStereo([]float32{x}, []float32{x}, a[:], b[:])
		if m.GetState() != s.GetState() || y != a[0] {
			bad("sample %d: mono %s %g, stereo %s %g", i, m.GetState(), y, s.GetState(), a[0])
		}
	}
}
'''),
dict(id='smoother-retarget',property='A06',edits=[('pkg/framework/param/smoother.go','''	if math.Abs(target-s.target) < s.threshold {
''','''	if math.Abs(target-s.current) < s.threshold {
''')],needs='a new target set while the glide passes close to that very value (such as returning to the start right after a change)',breaks='the new target is ignored and the parameter glides on to the old one',
demo=imp('math','pkg/framework/param')+'''
func main() {
	s := param.NewSmoother(param.LinearSmoothing, 1000)
	s.Reset(0)
	s.SetTarget(1)
	s.SetTarget(0)
	for i := 0; i < 3000; i++ {
		s.Next()
	}
	if math.Abs(s.Next()) > 1e-3 {
		bad("ended at %g instead of 0", s.Next())
	}
}
'''),
dict(id='adsr-retrigger',property='D05',edits=[('pkg/dsp/envelope/envelope.go','''	case StageSustain:
		e.value = e.sustain

''','''	case StageSustain:
		// Nothing to do, the level was reached at the end of the decay

''')],needs='a sustain level changed while the envelope is in its sustain stage',breaks='the envelope keeps the old sustain level while a note is held',
demo=imp('math','pkg/dsp/envelope')+'''
func main() {
	e := envelope.New(48000)
	e.SetADSR(0.001, 0.001, 0.8, 0.1)
	e.Trigger()
	for i := 0; i < 5000; i++ {
		e.Next()
	}
	if e.GetStage() != envelope.StageSustain {
		bad("stage %v", e.GetStage())
	}
	e.SetSustain(0.3)
	var v float32
	for i := 0; i < 5000; i++ {
		v = e.Next()
	}
	if math.Abs(float64(v)-0.3) > 0.01 {
		bad("level %g with a sustain of 0.3", v)
	}
}
'''),
dict(id='limiter-lookahead-off',property='E04',edits=[('pkg/dsp/dynamics/limiter.go','''		l.delaySamples = newDelaySamples
		if l.delaySamples > 0 {
			l.delayBuffer = make([]float32, l.delaySamples)
			l.delayIndex = 0
		} else {
''','''		l.delaySamples = newDelaySamples
		if l.delaySamples > 0 {
			// Reuse the buffer when it is large enough
			if len(l.delayBuffer) < l.delaySamples {
				l.delayBuffer = make([]float32, l.delaySamples)
				l.delayIndex = 0
			}
		} else {
''')],needs='a lookahead shortened while the limiter is at a position beyond the new length',breaks='the delay line is read beyond its new length once and keeps stale audio, playing a burst of old signal with the wrong delay',
demo=imp('pkg/dsp/dynamics')+'''
func main() {
	for at := 1; at < 240; at += 7 {
		l := dynamics.NewLimiter(48000)
		l.SetTruePeak(false)
		l.SetLookahead(0.005)
		for i := 0; i < 240+at; i++ {
			l.Process(0.25)
		}
		l.SetLookahead(0.001)
		for i := 0; i < 300; i++ {
			want := float32(0)
			if i >= 48 {
				want = 0.1
			}
			if y := l.Process(0.1); y != want {
				bad("switched at %d: sample %d is %g, want %g", at, i, y, want)
			}
		}
	}
}
'''),
dict(id='context-sort-unstable',property='B01',edits=[('pkg/framework/process/context.go','''	c.changeCount = 0
''','''	c.changeCount = min(c.changeCount, 0)
	c.paramChanges = c.paramChanges[:cap(c.paramChanges)/2*2]
''')],needs='x',breaks='x',demo='package main\nfunc main(){}\n'),
]
B.pop()
