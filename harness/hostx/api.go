package hostx

// #include "host.h"
import "C"
import (
	"unicode/utf16"
	"unsafe"
)

// Class is one entry of the factory.
type Class struct {
	Name, Category string
	CID            [16]byte
}

func cstr(p unsafe.Pointer, n int) string {
	b := unsafe.Slice((*byte)(p), n)
	for i, v := range b {
		if v == 0 {
			return string(b[:i])
		}
	}
	return string(b)
}

func classes() []Class {
	f := C.h_factory()
	if f == nil {
		return nil
	}
	var o []Class
	n := int(C.h_count_classes(f))
	ci := (*C.struct_Steinberg_PClassInfo)(C.calloc(1, C.size_t(unsafe.Sizeof(C.struct_Steinberg_PClassInfo{}))))
	defer C.free(unsafe.Pointer(ci))
	for i := 0; i < n; i++ {
		if C.h_class_info(f, C.int32_t(i), ci) != 0 {
			return nil
		}
		var c Class
		c.Name = cstr(unsafe.Pointer(&ci.name), int(unsafe.Sizeof(ci.name)))
		c.Category = cstr(unsafe.Pointer(&ci.category), int(unsafe.Sizeof(ci.category)))
		c.CID = *(*[16]byte)(unsafe.Pointer(&ci.cid))
		o = append(o, c)
	}
	return o
}

func open(cid [16]byte) *sess {
	pc := (*[16]byte)(C.calloc(1, 16))
	*pc = cid
	defer C.free(unsafe.Pointer(pc))
	var comp unsafe.Pointer
	if C.h_create(C.h_factory(), unsafe.Pointer(pc), iid(iComponent), &comp) != 0 || comp == nil {
		return nil
	}
	s := &sess{comp: comp}
	var r1, r2 int32
	s.proc, r1 = qi(comp, iAudio)
	s.ctrl, r2 = qi(comp, iController)
	if r1 != 0 || r2 != 0 {
		return nil
	}
	return s
}

func (s *sess) initialize() int32 { return int32(C.c_initialize(s.comp)) }
func (s *sess) terminate() int32  { return int32(C.c_terminate(s.comp)) }
func (s *sess) setup(rate float64, block int) int32 {
	return int32(C.a_setup(s.proc, 0, 0, C.int32_t(block), C.double(rate)))
}
func (s *sess) active(on bool) int32     { return int32(C.c_setActive(s.comp, cb(on))) }
func (s *sess) processing(on bool) int32 { return int32(C.a_setProcessing(s.proc, cb(on))) }
func (s *sess) latency() uint32          { return uint32(C.a_latency(s.proc)) }
func (s *sess) tail() uint32             { return uint32(C.a_tail(s.proc)) }
func (s *sess) busCount(media, dir int) int {
	return int(C.c_busCount(s.comp, C.int32_t(media), C.int32_t(dir)))
}

// busInfo is what the host learns about one bus.
type busInfo struct {
	channels, typ int
	name          string
	flags         uint32
}

func u16(p unsafe.Pointer, n int) string {
	u := unsafe.Slice((*uint16)(p), n)
	for i, v := range u {
		if v == 0 {
			return string(utf16.Decode(u[:i]))
		}
	}
	return string(utf16.Decode(u))
}

func (s *sess) busInfo(media, dir, i int) (busInfo, int32) {
	b := (*C.struct_Steinberg_Vst_BusInfo)(C.calloc(1, C.size_t(unsafe.Sizeof(C.struct_Steinberg_Vst_BusInfo{}))))
	defer C.free(unsafe.Pointer(b))
	r := int32(C.c_busInfo(s.comp, C.int32_t(media), C.int32_t(dir), C.int32_t(i), b))
	return busInfo{int(b.channelCount), int(b.busType), u16(unsafe.Pointer(&b.name), int(unsafe.Sizeof(b.name))/2), uint32(b.flags)}, r
}

func (s *sess) arrangement(dir, i int) (uint64, int32) {
	a := (*C.uint64_t)(C.calloc(1, 8))
	defer C.free(unsafe.Pointer(a))
	r := int32(C.a_getArr(s.proc, C.int32_t(dir), C.int32_t(i), a))
	return uint64(*a), r
}

type pinfo struct {
	id           uint32
	title, units string
	steps, flags int32
	def          float64
}

const (
	flagReadOnly = 1 << 1
	flagBypass   = 1 << 16
)

func (s *sess) params() ([]pinfo, bool) {
	n := int(C.e_count(s.ctrl))
	var o []pinfo
	pi := (*C.struct_Steinberg_Vst_ParameterInfo)(C.calloc(1, C.size_t(unsafe.Sizeof(C.struct_Steinberg_Vst_ParameterInfo{}))))
	defer C.free(unsafe.Pointer(pi))
	for i := 0; i < n; i++ {
		if C.e_info(s.ctrl, C.int32_t(i), pi) != 0 {
			return o, false
		}
		o = append(o, pinfo{uint32(pi.id), u16(unsafe.Pointer(&pi.title), 128), u16(unsafe.Pointer(&pi.units), 128), int32(pi.stepCount), int32(pi.flags), float64(pi.defaultNormalizedValue)})
	}
	return o, true
}

func (s *sess) get(id uint32) float64 { return float64(C.e_get(s.ctrl, C.uint32_t(id))) }
func (s *sess) set(id uint32, v float64) int32 {
	return int32(C.e_set(s.ctrl, C.uint32_t(id), C.double(v)))
}
func (s *sess) plain(id uint32, v float64) float64 {
	return float64(C.e_toPlain(s.ctrl, C.uint32_t(id), C.double(v)))
}
func (s *sess) normOf(id uint32, v float64) float64 {
	return float64(C.e_toNorm(s.ctrl, C.uint32_t(id), C.double(v)))
}
func (s *sess) text(id uint32, v float64) (string, int32) {
	b := (*C.uint16_t)(C.calloc(256, 2))
	defer C.free(unsafe.Pointer(b))
	r := int32(C.e_toString(s.ctrl, C.uint32_t(id), C.double(v), b))
	return u16(unsafe.Pointer(b), 256), r
}
func (s *sess) parse(id uint32, t string) (float64, int32) {
	u := utf16.Encode([]rune(t))
	b := (*C.uint16_t)(C.calloc(C.size_t(len(u)+1), 2))
	defer C.free(unsafe.Pointer(b))
	copy(unsafe.Slice((*uint16)(unsafe.Pointer(b)), len(u)+1), u)
	d := (*C.double)(C.calloc(1, 8))
	defer C.free(unsafe.Pointer(d))
	r := int32(C.e_fromString(s.ctrl, C.uint32_t(id), b, d))
	return float64(*d), r
}
func (s *sess) getState(st *stream) int32     { return int32(C.c_getState(s.comp, st.p())) }
func (s *sess) setState(st *stream) int32     { return int32(C.c_setState(s.comp, st.p())) }
func (s *sess) setCtrlState(st *stream) int32 { return int32(C.e_setComponentState(s.ctrl, st.p())) }
