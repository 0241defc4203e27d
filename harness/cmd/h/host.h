#ifndef HOST_H
#define HOST_H
#include "/verif/cstub/include/vst3/vst3_c_api.h"
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
/* A plug-in host written in C against the VST3 ABI: it only ever uses the
 * factory entry point and the interface tables the plug-in hands out. */
typedef struct { struct Steinberg_IBStreamVtbl* vt; uint8_t* data; int64_t len, cap, pos; int32_t maxRead, maxWrite; int32_t seekLeft, noSeek, noTell, failSeekSet; int64_t readLeft, writeLeft; int32_t zeroWrite; int32_t reads, writes, refs; uint64_t rng; } HStream;
HStream* h_stream_new(void); void h_stream_free(HStream*);
typedef struct { struct Steinberg_Vst_IParamValueQueueVtbl* vt; uint32_t id; int32_t n; int32_t* off; double* val; uint8_t* fail; } HQueue;
typedef struct { struct Steinberg_Vst_IParameterChangesVtbl* vt; int32_t n; HQueue* q; uint8_t* null; } HChanges;
typedef struct { struct Steinberg_Vst_IEventListVtbl* vt; int32_t n; struct Steinberg_Vst_Event* ev; uint8_t* fail; } HEvents;
typedef struct { int32_t kind; uint32_t id; double val; } HEdit;
typedef struct { struct Steinberg_Vst_IComponentHandlerVtbl* vt; int32_t n; HEdit log[4096]; int32_t refs; } HHandler;
HChanges* h_changes_new(int32_t n); void h_queue_set(HChanges*, int32_t i, uint32_t id, int32_t n, int32_t* off, double* val, uint8_t* fail); void h_changes_free(HChanges*);
HEvents* h_events_new(int32_t n); void h_events_free(HEvents*);
void h_event_note(HEvents*, int32_t i, int32_t on, int32_t off, int32_t ch, int32_t pitch, float vel);
void h_event_other(HEvents*, int32_t i, int32_t type, int32_t off);
HHandler* h_handler_new(void);
void* h_factory(void);
int32_t h_qi(void* i, const void* iid, void** o); uint32_t h_addref(void* i); uint32_t h_release(void* i);
void h_churn(void* i, int32_t n);
int32_t h_factory_info(void* f, struct Steinberg_PFactoryInfo*); int32_t h_count_classes(void*); int32_t h_class_info(void*, int32_t, struct Steinberg_PClassInfo*); int32_t h_create(void*, const void* cid, const void* iid, void** o);
int32_t c_initialize(void*); int32_t c_terminate(void*); int32_t c_busCount(void*, int32_t, int32_t); int32_t c_busInfo(void*, int32_t, int32_t, int32_t, struct Steinberg_Vst_BusInfo*); int32_t c_activateBus(void*, int32_t, int32_t, int32_t, int32_t); int32_t c_setActive(void*, int32_t); int32_t c_setState(void*, void*); int32_t c_getState(void*, void*); int32_t c_setIoMode(void*, int32_t); int32_t c_ctrlID(void*, void*); int32_t c_routing(void*);
int32_t a_setArr(void*, uint64_t*, int32_t, uint64_t*, int32_t); int32_t a_getArr(void*, int32_t, int32_t, uint64_t*); int32_t a_canSize(void*, int32_t); uint32_t a_latency(void*); uint32_t a_tail(void*); int32_t a_setup(void*, int32_t mode, int32_t size, int32_t maxBlock, double rate); int32_t a_setProcessing(void*, int32_t); int32_t a_process(void*, struct Steinberg_Vst_ProcessData*);
int32_t e_setComponentState(void*, void*); int32_t e_setState(void*, void*); int32_t e_getState(void*, void*); int32_t e_initialize(void*); int32_t e_terminate(void*); int32_t e_count(void*); int32_t e_info(void*, int32_t, struct Steinberg_Vst_ParameterInfo*); int32_t e_toString(void*, uint32_t, double, uint16_t*); int32_t e_fromString(void*, uint32_t, uint16_t*, double*); double e_toPlain(void*, uint32_t, double); double e_toNorm(void*, uint32_t, double); double e_get(void*, uint32_t); int32_t e_set(void*, uint32_t, double); int32_t e_setHandler(void*, void*); void* e_view(void*, const char*);
void h_set_channels(struct Steinberg_Vst_AudioBusBuffers* b, int32_t n, float** p);
const void* h_iid(int32_t which);
int64_t h_heap(void);
#endif
