import glob as _g
_P={}
for _f in _g.glob('/verif/tools/plant/p_*.py'):
    _n={}; exec(open(_f).read(),_n)
    for _b in _n['B']: _P[_b[0]]=_b[2]
def e(name): return _P[name]
H='''package main

import (
	"fmt"
	"os"
%s)

func bad(f string, a ...any) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

'''
def imp(*p): return H%''.join('\t"%s"\n'%(x if '/' not in x or x.startswith(('math/','sync/')) else 'github.com/justyntemme/vst3go/'+x) for x in p)
B=[
dict(id='sidechain-first',property='B02',edits=e('b02-sidechain'),needs='a bus arrangement whose first input bus is the side-chain',breaks='the side-chain helper reports no side-chain input',
demo=imp('pkg/framework/bus','pkg/framework/param','pkg/framework/process')+'''
func main() {
	for _, order := range [][]bus.Type{{bus.TypeMain, bus.TypeAux}, {bus.TypeAux, bus.TypeMain}, {bus.TypeAux}} {
		b := bus.NewBuilder()
		for i, t := range order {
			if t == bus.TypeAux {
				b = b.WithAuxInput(fmt.Sprint("aux", i), 1)
			} else {
				b = b.WithAudioInput(fmt.Sprint("in", i), 1)
			}
		}
		conf, err := b.WithStereoOutput("out").Build()
		if err != nil {
			bad("%v", err)
		}
		m := process.NewMultiBusContext(process.NewContext(64, param.NewRegistry()), conf)
		var want []float32
		for i, t := range order {
			ch := []float32{float32(i + 1)}
			if t == bus.TypeAux && want == nil {
				want = ch
			}
			m.InputBuses = append(m.InputBuses, process.BusBuffers{Channels: [][]float32{ch}, BusInfo: conf.GetBusInfo(bus.MediaTypeAudio, bus.DirectionInput, int32(i))})
		}
		got := m.GetSidechainInput()
		if len(got) != 1 || &got[0][0] != &want[0] {
			bad("order %v: side-chain input %v", order, got)
		}
	}
}
'''),
dict(id='registry-dup-stops',property='A04',edits=e('a04-return'),needs='one Add call with a duplicate identifier that is not the last parameter of the call',breaks='the parameters after the duplicate are not registered',
demo=imp('pkg/framework/param')+'''
func main() {
	r := param.NewRegistry()
	r.Add(param.New(1, "a").Build(), param.New(2, "b").Build())
	r.Add(param.New(3, "c").Build(), param.New(1, "again").Build(), param.New(4, "d").Build())
	for id := uint32(1); id <= 4; id++ {
		if r.Get(id) == nil {
			bad("parameter %d was not registered", id)
		}
	}
	if r.Get(1).Name != "a" {
		bad("parameter 1 was replaced")
	}
}
'''),
dict(id='custom-eof-hidden',property='A08',edits=e('a08-customeof'),needs="a state whose custom section is missing bytes, so that the plug-in's own loader reports io.EOF",breaks='a truncated state loads without an error',
demo=imp('bytes','io','pkg/framework/param','pkg/framework/state')+'''
func main() {
	reg := func() *param.Registry { r := param.NewRegistry(); r.Add(param.New(1, "p").Build()); return r }
	s := state.NewManager(reg())
	s.SetCustomSaveFunc(func(w io.Writer) error { _, err := w.Write([]byte("0123456789")); return err })
	var b bytes.Buffer
	if err := s.Save(&b); err != nil {
		bad("save: %v", err)
	}
	for cut := 1; cut <= 10; cut++ {
		l := state.NewManager(reg())
		l.SetCustomLoadFunc(func(r io.Reader) error {
			p := make([]byte, 1)
			for i := 0; i < 10; i++ {
				if _, err := r.Read(p); err != nil {
					return err
				}
			}
			return nil
		})
		if l.Load(bytes.NewReader(b.Bytes()[:b.Len()-cut])) == nil {
			bad("%d bytes short, and Load reports success", cut)
		}
	}
}
'''),
dict(id='delay-float32',property='D03',edits=e('d03-float32'),needs='a fractional delay in a line of more than some ten thousand samples',breaks='the fraction of the delay is quantised, more coarsely the longer the line is',
demo=imp('math','pkg/dsp/delay')+'''
func main() {
	d := delay.New(20, 96000)
	for i := 0; i < 1900000; i++ {
		d.Write(float32(math.Sin(float64(i) * 0.01)))
	}
	for _, s := range []float64{1.25, 3.0625, 1000.03125, 100000.4375} {
		got := float64(d.Read(s))
		pos := 1900000 - s
		if w := math.Sin(pos * 0.01); math.Abs(got-w) > 2e-4 {
			bad("delay %g: %g instead of %g", s, got, w)
		}
	}
}
'''),
dict(id='flanger-negative-feedback',property='E08',edits=e('e08-fbneg'),needs='a negative feedback beyond -0.95',breaks='negative feedback stops at -0.95 while positive feedback reaches 0.99: the echoes die too fast',
demo=imp('math','pkg/dsp/modulation')+'''
func main() {
	for _, fb := range []float64{0.98, -0.98, 0.5, -0.5} {
		f := modulation.NewFlanger(48000)
		f.SetDepth(0)
		f.SetDelay(5)
		f.SetMix(1)
		f.SetFeedback(fb)
		// the energy of the k-th echo falls by fb*fb each time round
		var e [40]float64
		for i := 0; i < 240*len(e); i++ {
			x := float32(0)
			if i == 0 {
				x = 1
			}
			y := float64(f.Process(x))
			e[(i+120)/240%len(e)] += y * y
		}
		r := math.Sqrt(math.Pow(e[31]/e[11], 1./20))
		if math.Abs(r-math.Abs(fb)) > 0.012 {
			bad("feedback %g: each echo is %g of the one before", fb, r)
		}
	}
}
'''),
dict(id='schroeder-reset-allpass',property='C02',edits=e('e10-schreset'),needs='audio processed before Reset, and a comparison with a fresh reverb afterwards',breaks='after Reset the reverb still plays the tail held by its second allpass filter',
demo=imp('math','pkg/dsp/reverb')+'''
func main() {
	used, fresh := reverb.NewSchroeder(48000), reverb.NewSchroeder(48000)
	for i := 0; i < 20000; i++ {
		used.Process(float32(math.Sin(float64(i) * 0.1)))
	}
	used.Reset()
	for i := 0; i < 20000; i++ {
		x := float32(0)
		if i == 5000 {
			x = 1
		}
		if a, b := used.Process(x), fresh.Process(x); a != b {
			bad("sample %d: %g after Reset, %g from a fresh reverb", i, a, b)
		}
	}
}
'''),
dict(id='spectrum-reset-average',property='M02',edits=e('m02-reset'),needs='block averaging, a Reset once the average is full, and new input',breaks='the averaged spectrum after a reset is divided by blocks that no longer exist',
demo=imp('math','pkg/dsp/analysis')+'''
func main() {
	mk := func() *analysis.SpectrumAnalyzer {
		s := analysis.NewSpectrumAnalyzer(256, 48000, analysis.HannWindow)
		s.SetAveraging(analysis.LinearAveraging, 8)
		return s
	}
	feed := func(s *analysis.SpectrumAnalyzer, n int) {
		x := make([]float64, n)
		for i := range x {
			x[i] = math.Sin(2 * math.Pi * float64(i) / 16)
		}
		s.Process(x)
	}
	used, fresh := mk(), mk()
	feed(used, 256*40)
	used.Reset()
	feed(used, 512)
	feed(fresh, 512)
	a, b := used.GetSpectrum(), fresh.GetSpectrum()
	for i := range a {
		if math.Abs(a[i]-b[i]) > 1e-12 {
			bad("bin %d: %g after Reset, %g from a fresh analyser", i, a[i], b[i])
		}
	}
}
'''),
dict(id='lufs-forgets-start',property='M04',edits=e('m04-recent'),needs='a programme of more than an hour',breaks='the integrated loudness forgets the beginning of the programme',
demo=imp('math','pkg/dsp/analysis')+'''
func main() {
	m := analysis.NewLUFSMeter(8000, 1)
	part := func(amp float64, tenths int) {
		x := make([]float64, 800)
		for s := 0; s < tenths; s++ {
			for i := range x {
				x[i] = amp * math.Sin(2*math.Pi*1000*float64(i)/8000)
			}
			m.Process(x)
		}
	}
	part(1, 5)
	part(0.001, 10)
	loud := m.GetIntegratedLUFS()
	part(0.001, 72000) // 60 dB down: gated out
	if got := m.GetIntegratedLUFS(); !(math.Abs(got-loud) <= 2) {
		bad("%g LUFS after the loud part, %g after a quiet stretch that the gate excludes", loud, got)
	}
}
'''),
dict(id='phase-scope-brightness',property='M05',edits=e('m05-polarbright'),needs='a buffer that has been filled more than once by blocks of different brightness, so that its oldest point is not at its start',breaks='the brightness of the points is read from the wrong places: it no longer falls with age',
demo=imp('math','pkg/dsp/analysis')+'''
func main() {
	ps := analysis.NewPhaseScope(16)
	ps.SetPersistence(0.5)
	for i := 0; i < 21; i++ {
		ps.Process([]float64{math.Cos(float64(i))}, []float64{math.Sin(float64(i))})
	}
	_, _, br := ps.GetPolarData()
	for i := 1; i < len(br); i++ {
		if br[i] < br[i-1] {
			bad("point %d (newer) is darker than point %d: %g < %g", i, i-1, br[i], br[i-1])
		}
	}
}
'''),
dict(id='spectrum-shared',property='M06',edits=e('m06-specalias'),needs='a reader that keeps a spectrum while the analyser processes on',breaks='a spectrum handed out to one goroutine changes under it (a data race) when another one processes',
demo=imp('math','pkg/dsp/analysis')+'''
func main() {
	s := analysis.NewSpectrumAnalyzer(256, 48000, analysis.HannWindow)
	x := make([]float64, 1024)
	for i := range x {
		x[i] = math.Sin(float64(i) * 0.3)
	}
	s.Process(x)
	a := s.GetSpectrum()
	keep := append([]float64(nil), a...)
	s.Process(make([]float64, 1024))
	for i := range a {
		if a[i] != keep[i] {
			bad("bin %d of a spectrum handed out earlier changed from %g to %g", i, keep[i], a[i])
		}
	}
}
'''),
dict(id='chain-reset-bypassed',property='F03',edits=e('f03-resetbyp'),needs='Reset called on a chain while it is bypassed',breaks='the processors keep their state, and the old sound comes out when the chain is switched on again',
demo=imp('pkg/framework/dsp')+'''
type p struct{ resets int }

func (x *p) Process([]float32) {}
func (x *p) Reset()            { x.resets++ }

func main() {
	c := dsp.NewChain("c")
	x := &p{}
	c.Add(x)
	c.SetBypass(true)
	c.Reset()
	if x.resets != 1 {
		bad("Reset of a bypassed chain reset its processor %d times", x.resets)
	}
}
'''),
dict(id='logger-embedded-newline',property='F04',edits=e('f04-nl'),needs='a message that contains a line break but does not end in one',breaks='the next message continues on the same line',
demo=imp('bytes','strings','pkg/framework/debug')+'''
func main() {
	var b bytes.Buffer
	l := debug.New(&b, "", 0)
	l.SetLevel(debug.LogLevelDebug)
	l.SetEnabled(true)
	l.Info("first\\nsecond")
	l.Info("third")
	lines := strings.Split(strings.TrimSuffix(b.String(), "\\n"), "\\n")
	if len(lines) != 3 {
		bad("%d lines: %q", len(lines), b.String())
	}
}
'''),
dict(id='first-aux-input',property='F01',edits=e('f01-sclast'),needs='an arrangement with more than one auxiliary input',breaks='the last auxiliary input is named as the side-chain instead of the first',
demo=imp('pkg/framework/bus')+'''
func main() {
	c, err := bus.NewBuilder().WithStereoInput("in").WithAuxInput("key", 1).WithAuxInput("other", 2).WithStereoOutput("out").Build()
	if err != nil {
		bad("%v", err)
	}
	if s := c.GetSidechainBus(); s == nil || s.Name != "key" {
		bad("side-chain bus %+v", s)
	}
}
'''),
dict(id='deactivate-reset',property='F02',edits=e('f02-reset'),needs='a processor with both an OnReset and an OnSetActive callback',breaks='deactivation no longer resets such a processor',
demo=imp('pkg/framework/bus','pkg/framework/plugin')+'''
func main() {
	p := plugin.NewBaseProcessor(bus.NewStereoConfiguration())
	resets, acts := 0, 0
	p.OnReset(func() { resets++ })
	p.OnSetActive(func(bool) error { acts++; return nil })
	p.Initialize(48000, 64)
	p.SetActive(true)
	p.SetActive(false)
	if resets != 1 || acts != 2 {
		bad("%d resets, %d activation callbacks", resets, acts)
	}
}
'''),
dict(id='pool-oversize',property='G01',edits=e('g01-poolsz'),needs='a buffer put into the pool whose length is not the pool size but whose capacity suffices',breaks='Get hands out a buffer of another length than the pool was made for',
flags='-tags debug',
demo=imp('pkg/dsp/debug')+'''
func main() {
	p := debug.NewBufferPool(256)
	for i := 0; i < 64; i++ {
		b := p.Get()
		if len(b) != 256 {
			bad("Get returned a buffer of %d samples from a pool of 256", len(b))
		}
		c := p.Get()
		if len(c) != 256 {
			bad("Get returned a buffer of %d samples from a pool of 256", len(c))
		}
		p.Put(b)
		p.Put(c)
		for _, n := range []int{100, 1000} {
			func() {
				defer func() { recover() }() // a buffer of another length is refused
				p.Put(make([]float32, 1000)[:n])
			}()
		}
	}
}
'''),
]
HOSTC=r'''
#include "vst3_c_api.h"
#include <stdlib.h>
#include <string.h>
extern struct Steinberg_IPluginFactory* GetPluginFactory();
typedef struct { Steinberg_FUnknownVtbl* v; } U;
static const unsigned char IC[16] = {0xE8,0x31,0xFF,0x31,0xF2,0xD5,0x43,0x01,0x92,0x8E,0xBB,0xEE,0x25,0x69,0x78,0x02};
static const unsigned char IA[16] = {0x42,0x04,0x3F,0x99,0xB7,0xDA,0x45,0x3C,0xA5,0x69,0xE7,0x9D,0x9A,0xAE,0xC3,0x3D};
static const unsigned char IE[16] = {0xDC,0xD7,0xBB,0xE3,0x77,0x42,0x44,0x8D,0xA8,0x74,0xAA,0xCC,0x97,0x9C,0x75,0x9E};
static Steinberg_Vst_IComponent* comp; static Steinberg_Vst_IAudioProcessor* audio; static Steinberg_Vst_IEditController* ctl;
int host_open(void) {
  Steinberg_IPluginFactory* f = GetPluginFactory(); struct Steinberg_PClassInfo ci; void* o = NULL;
  if (!f || f->lpVtbl->getClassInfo(f, 0, &ci) != 0) return 1;
  if (f->lpVtbl->createInstance(f, (const char*)ci.cid, (const char*)IC, &o) != 0 || !o) return 2;
  comp = o; if (comp->lpVtbl->initialize(comp, NULL) != 0) return 3;
  if (comp->lpVtbl->queryInterface(comp, (const char*)IA, &o) != 0) return 4; audio = o;
  if (comp->lpVtbl->queryInterface(comp, (const char*)IE, &o) != 0) return 5; ctl = o;
  struct Steinberg_Vst_ProcessSetup s = {0, 0, 64, 48000}; if (audio->lpVtbl->setupProcessing(audio, &s) != 0) return 6;
  if (comp->lpVtbl->setActive(comp, 1) != 0) return 7;
  audio->lpVtbl->setProcessing(audio, 1); return 0; }
int host_block(int64_t time) {
  struct Steinberg_Vst_ProcessContext c; memset(&c, 0, sizeof c); c.sampleRate = 48000; c.projectTimeSamples = time; c.tempo = 120; c.state = 2 | 1024;
  float l[64], r[64]; memset(l, 0, sizeof l); memset(r, 0, sizeof r); float* ch[2] = {l, r};
  struct Steinberg_Vst_AudioBusBuffers b; memset(&b, 0, sizeof b); b.numChannels = 2; b.Steinberg_Vst_AudioBusBuffers_channelBuffers32 = ch;
  struct Steinberg_Vst_ProcessData d; memset(&d, 0, sizeof d); d.numSamples = 64; d.numInputs = d.numOutputs = 1; d.inputs = d.outputs = &b; d.processContext = &c;
  return audio->lpVtbl->process(audio, &d); }
int host_flags(int i) { struct Steinberg_Vst_ParameterInfo p; memset(&p, 0, sizeof p); if (ctl->lpVtbl->getParameterInfo(ctl, i, &p) != 0) return -1; return p.flags; }
uint32_t host_tail(void) { return audio->lpVtbl->getTailSamples(audio); }
'''
HOSTH='''#include <stdint.h>
int host_open(void); int host_block(int64_t time); int host_flags(int i); uint32_t host_tail(void);
'''
SH='''#!/bin/bash
# run with cwd = the repository; exit 0 when the guarantee holds, nonzero when it is broken
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
T=$(mktemp -d) || exit 3; trap 'rm -rf "$T"' EXIT
mkdir -p "$T/m" "$T/c/a/b" "$T/c/include/vst3" && cp "$D"/vst3_c_api.h "$T/c/include/vst3/" && cp "$D"/*.go "$D"/*.c "$D"/*.h "$T/m/" && cd "$T/m" || exit 3
printf 'module demo\\n\\ngo 1.24.3\\n\\nrequire github.com/justyntemme/vst3go v0.0.0\\n\\nreplace github.com/justyntemme/vst3go => %s\\n' "$R" > go.mod
export CGO_CFLAGS="-O1 -I$T/c/a/b -I$T/c/a -DDEMO_KEY=0x$(cat "$R"/bridge/* | sha256sum | cut -c1-12)"
timeout 280 go run .
'''
API=open('/verif/cstub/include/vst3/vst3_c_api.h').read()
PLUG='''package main

// #include "host.h"
import "C"
import (
	"fmt"
	"os"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	fplugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/plugin"
	_ "github.com/justyntemme/vst3go/pkg/plugin/cbridge"
)

func bad(f string, a ...any) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

var reg = param.NewRegistry()
var seen int64 = -1

type proc struct{}

func (proc) Initialize(float64, int32) error { return nil }
func (proc) ProcessAudio(c *process.Context) {
	if c.Transport != nil {
		seen = c.Transport.ProjectTimeSamples
	}
}
func (proc) GetParameters() *param.Registry { return reg }
func (proc) GetBuses() *bus.Configuration   { return bus.NewStereoConfiguration() }
func (proc) SetActive(bool) error           { return nil }
func (proc) GetLatencySamples() int32       { return 0 }
func (proc) GetTailSamples() int32          { return 480000 }

type plug struct{}

func (plug) GetInfo() fplugin.Info {
	return fplugin.Info{ID: "org.demo", Name: "Demo", Version: "1.0.0", Vendor: "demo", Category: "Fx"}
}
func (plug) CreateProcessor() plugin.Processor { return proc{} }
func init()                                    { plugin.Register(plug{}) }

'''
def host(main): return dict(demo_sh=SH,files={'main.go':PLUG+main,'host.c':HOSTC.lstrip(),'host.h':HOSTH,'vst3_c_api.h':API})
B+=[
dict(id='project-time-32',property='H02',edits=e('h-i64'),needs='a project position beyond 2^31 samples (12 hours at 48 kHz)',breaks='the plug-in sees a wrapped, negative project position',**host('''func main() {
	if e := C.host_open(); e != 0 {
		bad("open: step %d", e)
	}
	for _, t := range []int64{0, 1 << 20, 1<<31 - 1, 1 << 31, 1 << 40} {
		if C.host_block(C.int64_t(t)) != 0 {
			bad("process failed")
		}
		if seen != t {
			bad("project time %d arrived as %d", t, seen)
		}
	}
}
''')),
dict(id='bypass-flag-lost',property='H06',edits=e('h-flags'),needs='a parameter with one of the flags above the low byte (program change, bypass)',breaks='the host does not see that the parameter is the bypass switch',**host('''func main() {
	p := param.New(7, "Bypass").Build()
	p.Flags = param.CanAutomate | param.IsBypass
	reg.Add(param.New(1, "Gain").Build(), p)
	if e := C.host_open(); e != 0 {
		bad("open: step %d", e)
	}
	if f := int(C.host_flags(1)); uint32(f) != p.Flags {
		bad("flags %#x instead of %#x", f, p.Flags)
	}
}
''')),
dict(id='tail-16-bit',property='H07',edits=e('h-latmax'),needs='a processor whose tail is longer than 65535 samples',breaks='the host is told a tail cut to 16 bits and stops processing too early',**host('''func main() {
	if e := C.host_open(); e != 0 {
		bad("open: step %d", e)
	}
	if t := uint32(C.host_tail()); t != 480000 {
		bad("a tail of %d samples instead of 480000", t)
	}
}
''')),
dict(id='svf-state-limit',property='C08',edits=e('u-svf-loud'),needs='a resonant filter fed far above full scale',breaks='the filter is no longer linear: its state is clipped',
demo=imp('math','pkg/dsp/filter')+'''
func main() {
	quiet, loud := filter.NewSVF(1), filter.NewSVF(1)
	for _, f := range []*filter.SVF{quiet, loud} {
		f.SetFrequencyAndQ(48000, 1000, 20)
	}
	for i := 0; i < 48000; i++ {
		x := float32(0.01 * math.Sin(2*math.Pi*1000*float64(i)/48000))
		a, b := quiet.ProcessSample(x, 0), loud.ProcessSample(x*1024, 0)
		if a.Bandpass*1024 != b.Bandpass || a.Lowpass*1024 != b.Lowpass || a.Highpass*1024 != b.Highpass {
			bad("sample %d: %g at 1024 times the level is %g", i, a.Bandpass, b.Bandpass)
		}
	}
}
'''),
dict(id='comb-build-up',property='C08',edits=e('u-schroeder-clip'),needs='a loud sound that builds up in a long reverb',breaks='the reverb clips one half wave inside: it is no longer linear',
demo=imp('pkg/dsp/reverb')+'''
func main() {
	quiet, loud := reverb.NewSchroeder(48000), reverb.NewSchroeder(48000)
	for _, f := range []*reverb.Schroeder{quiet, loud} {
		f.SetRoomSize(1)
		f.SetDamping(0)
	}
	for i := 0; i < 200000; i++ {
		x := float32(1)/64 + float32(i%7)/1024
		a, b := quiet.Process(x), loud.Process(x*64)
		if a*64 != b {
			bad("sample %d: %g at 64 times the level is %g", i, a, b)
		}
	}
}
'''),
dict(id='gate-warm-up',property='C09',edits=e('u-gate-clock'),needs='more than two seconds of silence before a sound just below the threshold',breaks='the gate opens for sounds below its threshold once it has been closed for a while',
demo=imp('pkg/dsp/dynamics')+'''
func main() {
	run := func(silence int) (y [500]float32) {
		g := dynamics.NewGate(48000)
		g.SetThreshold(-20)
		g.SetRange(-80)
		for i := 0; i < silence; i++ {
			g.Process(0)
		}
		for i := range y {
			y[i] = g.Process(0.08)
		}
		return
	}
	if a, b := run(0), run(150000); a != b {
		bad("-22 dB behind a gate at -20 dB: ends at %g at once, at %g after silence", a[499], b[499])
	}
}
'''),
dict(id='delay-always-wet',property='C10',edits=e('u-delay-mix'),needs='a mix of exactly (or almost) nothing',breaks='a dry delay leaks its echo',
demo=imp('math','pkg/dsp/delay')+'''
func main() {
	d := delay.New(0.1, 48000)
	b := make([]float32, 4800)
	for i := range b {
		b[i] = float32(math.Sin(float64(i) / 9))
	}
	x := append([]float32(nil), b...)
	d.ProcessBufferMix(b, 1234, 0)
	for i := range b {
		if math.Abs(float64(b[i]-x[i])) > 1e-5 {
			bad("dry sample %d is %g instead of %g", i, b[i], x[i])
		}
	}
}
'''),
dict(id='smoother-above-96k',property='C11',edits=e('u-smooth'),needs='a sample rate above 96 kHz',breaks='parameters glide twice as fast at 192 kHz',
demo=imp('math','pkg/dsp/utility')+'''
func main() {
	at := func(sr float64) float64 {
		s := utility.NewSmoothParameter(0.05, sr)
		s.SetTarget(1)
		v := 0.0
		for i := 0; i < int(0.05*sr); i++ {
			v = float64(s.Process())
		}
		return v
	}
	if a, b := at(48000), at(192000); math.Abs(a-b) > 0.02 {
		bad("after 50 ms at %g at 48 kHz, at %g at 192 kHz", a, b)
	}
}
'''),
dict(id='phaser-lopsided',property='C12',edits=e('v-phaser-clip'),needs='a phaser driven over full scale by its input and feedback, in its lower half wave',breaks='the feedback limiter of the phaser is not symmetric: a signal turned over sounds different',
demo=imp('math','pkg/dsp/modulation')+'''
func main() {
	up, down := modulation.NewPhaser(48000), modulation.NewPhaser(48000)
	for _, p := range []*modulation.Phaser{up, down} {
		p.SetMix(1)
		p.SetFeedback(0.9)
	}
	for i := 0; i < 9600; i++ {
		x := float32(1.5 * math.Sin(2*math.Pi*300*float64(i)/48000))
		if a, b := up.Process(x), down.Process(-x); a != -b {
			bad("sample %d: %g, and %g for the signal turned over", i, a, b)
		}
	}
}
'''),
dict(id='reverb-leans-left',property='C12',edits=e('v-schroeder-mono'),needs='two channels that differ, compared with the same two exchanged',breaks='the reverb hears the right channel softer than the left one',
demo=imp('math','pkg/dsp/reverb')+'''
func main() {
	a, b := reverb.NewSchroeder(48000), reverb.NewSchroeder(48000)
	for i := 0; i < 20000; i++ {
		l, r := float32(math.Sin(float64(i)*0.03)), float32(math.Sin(float64(i)*0.05))
		al, ar := a.ProcessStereo(l, r)
		bl, br := b.ProcessStereo(r, l)
		if math.Abs(float64(al-br)) > 1e-6 || math.Abs(float64(ar-bl)) > 1e-6 {
			bad("sample %d: %g and %g, exchanged %g and %g", i, al, ar, bl, br)
		}
	}
}
'''),
dict(id='knee-needs-ratio',property='C13',edits=e('y-comp-knee'),needs='the knee width set while the compressor\'s ratio is still 1:1, the ratio after it',breaks='a knee width handed over before the ratio is dropped, so the order of the settings changes the sound',
demo=imp('math','pkg/dsp/dynamics')+'''
func main() {
	a, b := dynamics.NewCompressor(48000), dynamics.NewCompressor(48000)
	for _, c := range []*dynamics.Compressor{a, b} {
		c.SetThreshold(-20)
		c.SetRatio(1)
	}
	a.SetKnee(dynamics.KneeSoft, 12)
	a.SetRatio(4)
	b.SetRatio(4)
	b.SetKnee(dynamics.KneeSoft, 12)
	for i := 0; i < 9600; i++ {
		x := float32(0.15 * math.Sin(float64(i)*0.05))
		if p, q := a.Process(x), b.Process(x); p != q {
			bad("sample %d: %g with the knee set first, %g with the ratio set first", i, p, q)
		}
	}
}
'''),
dict(id='expander-upside-down',property='C14',edits=e('y-exp-ratio'),needs='a ratio below 1:1, a value the setter bounds to 1:1',breaks='an expander given a ratio below 1 sounds different from one at the lower bound',
demo=imp('math','pkg/dsp/dynamics')+'''
func main() {
	a, b := dynamics.NewExpander(48000), dynamics.NewExpander(48000)
	a.SetRatio(0.25)
	b.SetRatio(1)
	for i := 0; i < 20000; i++ {
		x := float32(0.02 * math.Sin(float64(i)*0.05))
		if p, q := a.Process(x), b.Process(x); p != q {
			bad("sample %d: %g at a ratio of 0.25, %g at 1, the least there is", i, p, q)
		}
	}
}
'''),
]
