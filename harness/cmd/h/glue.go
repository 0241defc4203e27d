// Area h: the plug-in seen from a host, through the C interface tables only.
package main

// #include "host.h"
import "C"
import (
	"errors"
	"io"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"unicode/utf16"
	"unsafe"

	"github.com/justyntemme/vst3go/pkg/framework/bus"
	"github.com/justyntemme/vst3go/pkg/framework/param"
	fplugin "github.com/justyntemme/vst3go/pkg/framework/plugin"
	"github.com/justyntemme/vst3go/pkg/framework/process"
	"github.com/justyntemme/vst3go/pkg/plugin"
	_ "github.com/justyntemme/vst3go/pkg/plugin/cbridge"
)

const (
	iUnknown = iota
	iPluginBase
	iComponent
	iAudio
	iController
	iFactory
	iBogus
)

func iid(w int) unsafe.Pointer { return unsafe.Pointer(C.h_iid(C.int32_t(w))) }

// ---- the monitored plug-in

type monProc struct {
	reg       *param.Registry
	buses     *bus.Configuration
	lat, tail int32
	initErr   error
	actErr    error
	inits     [][2]float64
	actives   []bool
	onProcess func(ctx *process.Context)
	calls     atomic.Int64
	boom      string // callback that panics
	guard     func(where string) func()
}

func (p *monProc) trip(where string) {
	if p.boom == where {
		panic("processor failure in " + where)
	}
}
func (p *monProc) Initialize(sr float64, mb int32) error {
	p.trip("Initialize")
	if p.guard != nil {
		defer p.guard("Initialize")()
	}
	p.inits = append(p.inits, [2]float64{sr, float64(mb)})
	return p.initErr
}
func (p *monProc) ProcessAudio(ctx *process.Context) {
	p.calls.Add(1)
	p.trip("ProcessAudio")
	if p.guard != nil {
		defer p.guard("ProcessAudio")()
	}
	if p.onProcess != nil {
		p.onProcess(ctx)
	}
}
func (p *monProc) GetParameters() *param.Registry { p.trip("GetParameters"); return p.reg }
func (p *monProc) GetBuses() *bus.Configuration   { p.trip("GetBuses"); return p.buses }
func (p *monProc) SetActive(a bool) error {
	p.trip("SetActive")
	if p.guard != nil {
		defer p.guard("SetActive")()
	}
	p.actives = append(p.actives, a)
	return p.actErr
}
func (p *monProc) GetLatencySamples() int32 { p.trip("GetLatencySamples"); return p.lat }
func (p *monProc) GetTailSamples() int32    { p.trip("GetTailSamples"); return p.tail }

type monStateful struct {
	*monProc
	custom  []byte
	saveErr error
	loadErr error
	loads   int
}

func (p *monStateful) SaveCustomState(w io.Writer) error {
	p.trip("SaveCustomState")
	if p.saveErr != nil {
		return p.saveErr
	}
	_, err := w.Write(p.custom)
	return err
}
func (p *monStateful) LoadCustomState(r io.Reader) error {
	p.trip("LoadCustomState")
	p.loads++
	if p.loadErr != nil {
		return p.loadErr
	}
	b, err := io.ReadAll(r)
	p.custom = b
	return err
}

type monPlugin struct {
	info fplugin.Info
	mk   func() plugin.Processor
	boom string
}

func (m *monPlugin) GetInfo() fplugin.Info {
	if m.boom == "GetInfo" {
		panic("GetInfo failure")
	}
	return m.info
}
func (m *monPlugin) CreateProcessor() plugin.Processor {
	if m.boom == "CreateProcessor" {
		panic("CreateProcessor failure")
	}
	return m.mk()
}

var createMu sync.Mutex
var thePlugin = &monPlugin{info: fplugin.Info{ID: "org.verif.monitor", Name: "Monitor", Version: "1.0.0", Vendor: "verif", Category: "Fx"}}

func init() { plugin.Register(thePlugin) }

func pluginCID(m *monPlugin) [16]byte { i := m.info; return i.UID() }

// ---- host session

type sess struct {
	comp, proc, ctrl unsafe.Pointer
}

var errCreate = errors.New("createInstance failed")

func create(p plugin.Processor, which int) (unsafe.Pointer, int32) {
	createMu.Lock()
	defer createMu.Unlock()
	thePlugin.mk = func() plugin.Processor { return p }
	cid := pluginCID(thePlugin)
	var o unsafe.Pointer
	f := C.h_factory()
	pc := (*[16]byte)(C.calloc(1, 16))
	*pc = cid
	defer C.free(unsafe.Pointer(pc))
	res := C.h_create(f, unsafe.Pointer(pc), iid(which), &o)
	return o, int32(res)
}

func qi(i unsafe.Pointer, w int) (unsafe.Pointer, int32) {
	o := unsafe.Pointer(cpoison)
	r := C.h_qi(i, iid(w), &o)
	return o, int32(r)
}

var cpoison = (*[8]byte)(C.calloc(1, 8))

func open(p plugin.Processor) (*sess, error) {
	comp, r := create(p, iComponent)
	if r != 0 || comp == nil {
		return nil, errCreate
	}
	s := &sess{comp: comp}
	s.proc, r = qi(comp, iAudio)
	if r != 0 {
		return nil, errCreate
	}
	s.ctrl, r = qi(comp, iController)
	if r != 0 {
		return nil, errCreate
	}
	return s, nil
}

func (s *sess) close() {
	C.h_release(s.ctrl)
	C.h_release(s.proc)
	C.h_release(s.comp)
}

func addRef(i unsafe.Pointer) uint32  { return uint32(C.h_addref(i)) }
func release(i unsafe.Pointer) uint32 { return uint32(C.h_release(i)) }

func (s *sess) start(rate float64, block int) bool {
	if C.c_initialize(s.comp) != 0 || C.a_setup(s.proc, 0, 0, C.int32_t(block), C.double(rate)) != 0 {
		return false
	}
	return C.c_setActive(s.comp, 1) == 0 && C.a_setProcessing(s.proc, 1) == 0
}

// ---- audio blocks in C memory, every channel between guard zones

const guard = 64
const guardVal = float32(-7.7777e19)

type cbus struct{ ch [][]float32 }

type block struct {
	data   *C.struct_Steinberg_Vst_ProcessData
	in     []cbus
	out    []cbus
	free   []unsafe.Pointer
	guards [][]float32
	n      int
	ctx    *C.struct_Steinberg_Vst_ProcessContext
}

func (b *block) calloc(n, sz int) unsafe.Pointer {
	if n < 1 {
		n = 1
	}
	p := C.calloc(C.size_t(n), C.size_t(sz))
	b.free = append(b.free, p)
	return p
}

func (b *block) channel(n int) ([]float32, unsafe.Pointer) {
	m := unsafe.Slice((*float32)(b.calloc(n+2*guard, 4)), n+2*guard)
	for i := range m {
		m[i] = guardVal
	}
	b.guards = append(b.guards, m[:guard], m[guard+n:])
	return m[guard : guard+n : guard+n], unsafe.Pointer(&m[guard])
}

// newBlock lays out buses; ins[i] / outs[i] channel counts; inPlace shares the
// first channels of matching buses between input and output.
func newBlock(n int, ins, outs []int, inPlace bool) *block {
	b := &block{n: n}
	b.data = (*C.struct_Steinberg_Vst_ProcessData)(b.calloc(1, int(unsafe.Sizeof(C.struct_Steinberg_Vst_ProcessData{}))))
	b.data.numSamples = C.Steinberg_int32(n)
	mk := func(cnt []int, share []cbus, sharep [][]unsafe.Pointer) (*C.struct_Steinberg_Vst_AudioBusBuffers, []cbus, [][]unsafe.Pointer) {
		if len(cnt) == 0 {
			return nil, nil, nil
		}
		arr := unsafe.Slice((*C.struct_Steinberg_Vst_AudioBusBuffers)(b.calloc(len(cnt), int(unsafe.Sizeof(C.struct_Steinberg_Vst_AudioBusBuffers{})))), len(cnt))
		var bs []cbus
		var ps [][]unsafe.Pointer
		for i, k := range cnt {
			var bu cbus
			var pp []unsafe.Pointer
			ptrs := unsafe.Slice((**C.float)(b.calloc(k, 8)), max(k, 1))
			for ch := 0; ch < k; ch++ {
				if i < len(share) && ch < len(share[i].ch) {
					bu.ch = append(bu.ch, share[i].ch[ch])
					pp = append(pp, sharep[i][ch])
				} else {
					s, p := b.channel(n)
					bu.ch = append(bu.ch, s)
					pp = append(pp, p)
				}
				ptrs[ch] = (*C.float)(pp[ch])
			}
			if k == 0 {
				C.h_set_channels(&arr[i], 0, nil)
			} else {
				C.h_set_channels(&arr[i], C.int32_t(k), (**C.float)(unsafe.Pointer(&ptrs[0])))
			}
			bs = append(bs, bu)
			ps = append(ps, pp)
		}
		return &arr[0], bs, ps
	}
	ia, ib, ip := mk(ins, nil, nil)
	b.data.inputs, b.in = ia, ib
	b.data.numInputs = C.Steinberg_int32(len(ins))
	var sh []cbus
	var shp [][]unsafe.Pointer
	if inPlace {
		sh, shp = ib, ip
	}
	oa, ob, _ := mk(outs, sh, shp)
	b.data.outputs, b.out = oa, ob
	b.data.numOutputs = C.Steinberg_int32(len(outs))
	return b
}

// silence sets the silence flags of every input bus: hints only, the samples count
func (b *block) silence(f func(ch int) uint64) {
	if len(b.in) > 0 {
		for i := range unsafe.Slice(b.data.inputs, len(b.in)) {
			unsafe.Slice(b.data.inputs, len(b.in))[i].silenceFlags = C.Steinberg_uint64(f(len(b.in[i].ch)))
		}
	}
}

func (b *block) close() {
	if b.data.inputParameterChanges != nil {
		C.h_changes_free((*C.HChanges)(unsafe.Pointer(b.data.inputParameterChanges)))
	}
	if b.data.inputEvents != nil {
		C.h_events_free((*C.HEvents)(unsafe.Pointer(b.data.inputEvents)))
	}
	for _, p := range b.free {
		C.free(p)
	}
}

func (b *block) guardsIntact() bool {
	for _, g := range b.guards {
		for _, v := range g {
			if v != guardVal {
				return false
			}
		}
	}
	return true
}

func flat(bs []cbus) [][]float32 {
	var o [][]float32
	for _, b := range bs {
		o = append(o, b.ch...)
	}
	return o
}

type point struct {
	off  int32
	val  float64
	fail bool
}
type queue struct {
	id  uint32
	nul bool
	pts []point
}

func (b *block) changes(qs []queue) {
	h := C.h_changes_new(C.int32_t(len(qs)))
	for i, q := range qs {
		n := len(q.pts)
		off := (*C.int32_t)(b.calloc(n, 4))
		val := (*C.double)(b.calloc(n, 8))
		fl := (*C.uint8_t)(b.calloc(n, 1))
		for k, p := range q.pts {
			unsafe.Slice(off, n)[k] = C.int32_t(p.off)
			unsafe.Slice(val, n)[k] = C.double(p.val)
			if p.fail {
				unsafe.Slice(fl, n)[k] = 1
			}
		}
		C.h_queue_set(h, C.int32_t(i), C.uint32_t(q.id), C.int32_t(n), off, val, fl)
		if q.nul {
			unsafe.Slice((*C.uint8_t)(h.null), len(qs)+1)[i] = 1
		}
	}
	b.data.inputParameterChanges = (*C.struct_Steinberg_Vst_IParameterChanges)(unsafe.Pointer(h))
}

type note struct {
	kind      int // 0 on, 1 off, else another event type
	off       int32
	ch, pitch int
	vel       float32
	fail      bool
}

func (b *block) events(ns []note) {
	h := C.h_events_new(C.int32_t(len(ns)))
	for i, n := range ns {
		if n.kind > 1 {
			C.h_event_other(h, C.int32_t(i), C.int32_t(n.kind), C.int32_t(n.off))
		} else {
			on := 0
			if n.kind == 0 {
				on = 1
			}
			C.h_event_note(h, C.int32_t(i), C.int32_t(on), C.int32_t(n.off), C.int32_t(n.ch), C.int32_t(n.pitch), C.float(n.vel))
		}
		if n.fail {
			unsafe.Slice((*C.uint8_t)(h.fail), len(ns)+1)[i] = 1
		}
	}
	b.data.inputEvents = (*C.struct_Steinberg_Vst_IEventList)(unsafe.Pointer(h))
}

type hostCtx struct {
	state                        uint32
	proj, cont                   int64
	music, bar, cycS, cycE, temp float64
	num, den, clock              int32
}

func (b *block) context(h hostCtx) {
	c := (*C.struct_Steinberg_Vst_ProcessContext)(b.calloc(1, int(unsafe.Sizeof(C.struct_Steinberg_Vst_ProcessContext{}))))
	c.state = C.Steinberg_uint32(h.state)
	c.sampleRate = 12345
	c.projectTimeSamples = C.Steinberg_Vst_TSamples(h.proj)
	c.continousTimeSamples = C.Steinberg_Vst_TSamples(h.cont)
	c.projectTimeMusic = C.double(h.music)
	c.barPositionMusic = C.double(h.bar)
	c.cycleStartMusic = C.double(h.cycS)
	c.cycleEndMusic = C.double(h.cycE)
	c.tempo = C.double(h.temp)
	c.timeSigNumerator = C.Steinberg_int32(h.num)
	c.timeSigDenominator = C.Steinberg_int32(h.den)
	c.samplesToNextClock = C.Steinberg_int32(h.clock)
	b.data.processContext = c
}

func (s *sess) process(b *block) int32 { return int32(C.a_process(s.proc, b.data)) }

// ---- streams

type stream struct{ s *C.HStream }

func newStream(r *rand.Rand) *stream {
	s := &stream{C.h_stream_new()}
	s.s.rng = C.uint64_t(r.Uint64())
	return s
}
func (s *stream) free()             { C.h_stream_free(s.s) }
func (s *stream) p() unsafe.Pointer { return unsafe.Pointer(s.s) }
func (s *stream) bytes() []byte     { return C.GoBytes(unsafe.Pointer(s.s.data), C.int(s.s.len)) }
func (s *stream) set(b []byte) {
	if s.s.data != nil {
		C.free(unsafe.Pointer(s.s.data))
	}
	s.s.data = (*C.uint8_t)(C.malloc(C.size_t(len(b) + 1)))
	if len(b) > 0 {
		copy(unsafe.Slice((*byte)(unsafe.Pointer(s.s.data)), len(b)), b)
	}
	s.s.len, s.s.cap = C.int64_t(len(b)), C.int64_t(len(b)+1)
}
func (s *stream) pos() int64       { return int64(s.s.pos) }
func (s *stream) seek(p int)       { s.s.pos = C.int64_t(p) }
func (s *stream) short(rd, wr int) { s.s.maxRead, s.s.maxWrite = C.int32_t(rd), C.int32_t(wr) }
func (s *stream) noSeek(a, b bool) { s.s.noSeek, s.s.noTell = cb(a), cb(b) }
func (s *stream) seeks(n int)      { s.s.seekLeft = C.int32_t(n) }
func (s *stream) failAfter(r, w int, zero bool) {
	s.s.readLeft, s.s.writeLeft, s.s.zeroWrite = C.int64_t(r), C.int64_t(w), cb(zero)
}
func cb(b bool) C.int32_t {
	if b {
		return 1
	}
	return 0
}

// ---- UTF-16 helpers

// utf16Prefix reports what a buffer of max units may hold of s: the longest
// prefix of whole characters that fits.
func utf16Prefix(s string, max int) []uint16 {
	u := utf16.Encode([]rune(s))
	if len(u) <= max {
		return u
	}
	u = u[:max]
	if u[max-1] >= 0xD800 && u[max-1] < 0xDC00 {
		u = u[:max-1]
	}
	return u
}
