#include "host.h"
#include <malloc.h>
extern struct Steinberg_IPluginFactory* GetPluginFactory();

static uint64_t nxt(HStream* s) { s->rng = s->rng * 6364136223846793005ull + 1442695040888963407ull; return s->rng >> 33; }
static Steinberg_tresult u_qi(void* t, const Steinberg_TUID i, void** o) { (void)t; (void)i; *o = NULL; return -1; }
static Steinberg_uint32 s_add(void* t) { return ++((HStream*)t)->refs; }
static Steinberg_uint32 s_rel(void* t) { return --((HStream*)t)->refs; }
static Steinberg_uint32 u_add(void* t) { (void)t; return 2; }
static Steinberg_uint32 u_rel(void* t) { (void)t; return 1; }
static Steinberg_tresult s_read(void* t, void* b, Steinberg_int32 n, Steinberg_int32* got) {
  HStream* s = t; s->reads++;
  if (n < 0) return 2;
  if (s->readLeft == 0) { if (got) *got = 0; return 1; }
  if (s->readLeft > 0) s->readLeft--;
  int64_t k = s->len - s->pos; if (k > n) k = n;
  if (s->maxRead > 0 && k > 1) { int64_t m = 1 + (int64_t)(nxt(s) % (uint64_t)s->maxRead); if (k > m) k = m; }
  if (k > 0) memcpy(b, s->data + s->pos, (size_t)k); else k = 0;
  s->pos += k; if (got) *got = (Steinberg_int32)k; return 0;
}
static Steinberg_tresult s_write(void* t, void* b, Steinberg_int32 n, Steinberg_int32* put) {
  HStream* s = t; s->writes++;
  if (n < 0) return 2;
  if (s->writeLeft == 0) { if (put) *put = 0; return s->zeroWrite ? 0 : 1; }
  if (s->writeLeft > 0) s->writeLeft--;
  int64_t k = n;
  if (s->maxWrite > 0 && k > 1) { int64_t m = 1 + (int64_t)(nxt(s) % (uint64_t)s->maxWrite); if (k > m) k = m; }
  if (s->pos + k > s->cap) { s->cap = (s->pos + k) * 2 + 64; s->data = realloc(s->data, (size_t)s->cap); }
  memcpy(s->data + s->pos, b, (size_t)k); s->pos += k; if (s->pos > s->len) s->len = s->pos;
  if (put) *put = (Steinberg_int32)k; return 0;
}
static Steinberg_tresult s_seek(void* t, Steinberg_int64 p, Steinberg_int32 m, Steinberg_int64* r) {
  HStream* s = t; if (s->noSeek) return 3;
  if (s->seekLeft > 0 && --s->seekLeft == 0) { s->seekLeft = -1; } else if (s->seekLeft < 0) return 1;
  int64_t q = m == 0 ? p : m == 1 ? s->pos + p : m == 2 ? s->len + p : -1;
  if (q < 0) return 2;
  s->pos = q; if (r) *r = q; return 0;
}
static Steinberg_tresult s_tell(void* t, Steinberg_int64* r) { HStream* s = t; if (s->noTell) return 3; *r = s->pos; return 0; }
static struct Steinberg_IBStreamVtbl svt = { u_qi, s_add, s_rel, s_read, s_write, s_seek, s_tell };
HStream* h_stream_new(void) { HStream* s = calloc(1, sizeof *s); s->vt = &svt; s->readLeft = s->writeLeft = -1; s->refs = 1; s->rng = 88172645463325252ull; return s; }
void h_stream_free(HStream* s) { free(s->data); free(s); }

static Steinberg_Vst_ParamID q_id(void* t) { return ((HQueue*)t)->id; }
static Steinberg_int32 q_n(void* t) { return ((HQueue*)t)->n; }
static Steinberg_tresult q_pt(void* t, Steinberg_int32 i, Steinberg_int32* o, Steinberg_Vst_ParamValue* v) {
  HQueue* q = t; if (i < 0 || i >= q->n || q->fail[i]) return 1; *o = q->off[i]; *v = q->val[i]; return 0; }
static Steinberg_tresult q_add(void* t, Steinberg_int32 o, Steinberg_Vst_ParamValue v, Steinberg_int32* i) { (void)t;(void)o;(void)v;(void)i; return 1; }
static struct Steinberg_Vst_IParamValueQueueVtbl qvt = { u_qi, u_add, u_rel, q_id, q_n, q_pt, q_add };
static Steinberg_int32 pc_n(void* t) { return ((HChanges*)t)->n; }
static struct Steinberg_Vst_IParamValueQueue* pc_get(void* t, Steinberg_int32 i) { HChanges* c = t; if (i < 0 || i >= c->n || c->null[i]) return NULL; return (struct Steinberg_Vst_IParamValueQueue*)&c->q[i]; }
static struct Steinberg_Vst_IParamValueQueue* pc_add(void* t, const Steinberg_Vst_ParamID* id, Steinberg_int32* i) { (void)t;(void)id;(void)i; return NULL; }
static struct Steinberg_Vst_IParameterChangesVtbl pvt = { u_qi, u_add, u_rel, pc_n, pc_get, pc_add };
HChanges* h_changes_new(int32_t n) { HChanges* c = calloc(1, sizeof *c); c->vt = &pvt; c->n = n; c->q = calloc((size_t)n + 1, sizeof(HQueue)); c->null = calloc((size_t)n + 1, 1); return c; }
void h_queue_set(HChanges* c, int32_t i, uint32_t id, int32_t n, int32_t* off, double* val, uint8_t* fail) {
  HQueue* q = &c->q[i]; q->vt = &qvt; q->id = id; q->n = n;
  q->off = malloc(sizeof(int32_t) * (size_t)(n + 1)); q->val = malloc(sizeof(double) * (size_t)(n + 1)); q->fail = malloc((size_t)n + 1);
  for (int32_t k = 0; k < n; k++) { q->off[k] = off[k]; q->val[k] = val[k]; q->fail[k] = fail[k]; } }
void h_changes_free(HChanges* c) { for (int32_t i = 0; i < c->n; i++) { free(c->q[i].off); free(c->q[i].val); free(c->q[i].fail); } free(c->q); free(c->null); free(c); }

static Steinberg_int32 ev_n(void* t) { return ((HEvents*)t)->n; }
static Steinberg_tresult ev_get(void* t, Steinberg_int32 i, struct Steinberg_Vst_Event* e) { HEvents* l = t; if (i < 0 || i >= l->n || l->fail[i]) return 1; *e = l->ev[i]; return 0; }
static Steinberg_tresult ev_add(void* t, struct Steinberg_Vst_Event* e) { (void)t;(void)e; return 1; }
static struct Steinberg_Vst_IEventListVtbl evt = { u_qi, u_add, u_rel, ev_n, ev_get, ev_add };
HEvents* h_events_new(int32_t n) { HEvents* l = calloc(1, sizeof *l); l->vt = &evt; l->n = n; l->ev = calloc((size_t)n + 1, sizeof *l->ev); l->fail = calloc((size_t)n + 1, 1); return l; }
void h_events_free(HEvents* l) { free(l->ev); free(l->fail); free(l); }
void h_event_note(HEvents* l, int32_t i, int32_t on, int32_t off, int32_t ch, int32_t pitch, float vel) {
  struct Steinberg_Vst_Event* e = &l->ev[i]; e->sampleOffset = off; 
  if (on) { e->type = 0; e->Steinberg_Vst_Event_noteOn.channel = (int16_t)ch; e->Steinberg_Vst_Event_noteOn.pitch = (int16_t)pitch; e->Steinberg_Vst_Event_noteOn.velocity = vel; e->Steinberg_Vst_Event_noteOn.noteId = -1; }
  else { e->type = 1; e->Steinberg_Vst_Event_noteOff.channel = (int16_t)ch; e->Steinberg_Vst_Event_noteOff.pitch = (int16_t)pitch; e->Steinberg_Vst_Event_noteOff.velocity = vel; e->Steinberg_Vst_Event_noteOff.noteId = -1; } }
void h_event_other(HEvents* l, int32_t i, int32_t type, int32_t off) { l->ev[i].type = (uint16_t)type; l->ev[i].sampleOffset = off; }

static void hlog(HHandler* h, int k, uint32_t id, double v) { int32_t i = __atomic_fetch_add(&h->n, 1, __ATOMIC_SEQ_CST); if (i < 4096) { h->log[i].kind = k; h->log[i].id = id; h->log[i].val = v; } }
static Steinberg_tresult hb(void* t, Steinberg_Vst_ParamID id) { hlog(t, 0, id, 0); return 0; }
static Steinberg_tresult hp(void* t, Steinberg_Vst_ParamID id, Steinberg_Vst_ParamValue v) { hlog(t, 1, id, v); return 0; }
static Steinberg_tresult he(void* t, Steinberg_Vst_ParamID id) { hlog(t, 2, id, 0); return 0; }
static Steinberg_tresult hr(void* t, Steinberg_int32 f) { hlog(t, 3, (uint32_t)f, 0); return 0; }
static struct Steinberg_Vst_IComponentHandlerVtbl hvt = { u_qi, u_add, u_rel, hb, hp, he, hr };
HHandler* h_handler_new(void) { HHandler* h = calloc(1, sizeof *h); h->vt = &hvt; return h; }

void* h_factory(void) { return GetPluginFactory(); }
#define UNK(i) ((struct Steinberg_FUnknown*)(i))
int32_t h_qi(void* i, const void* iid, void** o) { return UNK(i)->lpVtbl->queryInterface(i, iid, o); }
uint32_t h_addref(void* i) { return UNK(i)->lpVtbl->addRef(i); }
uint32_t h_release(void* i) { return UNK(i)->lpVtbl->release(i); }
void h_churn(void* i, int32_t n) { for (int32_t k = 0; k < n; k++) { UNK(i)->lpVtbl->addRef(i); UNK(i)->lpVtbl->release(i); } }
#define FAC(i) ((struct Steinberg_IPluginFactory*)(i))->lpVtbl
int32_t h_factory_info(void* f, struct Steinberg_PFactoryInfo* o) { return FAC(f)->getFactoryInfo(f, o); }
int32_t h_count_classes(void* f) { return FAC(f)->countClasses(f); }
int32_t h_class_info(void* f, int32_t i, struct Steinberg_PClassInfo* o) { return FAC(f)->getClassInfo(f, i, o); }
int32_t h_create(void* f, const void* cid, const void* iid, void** o) { return FAC(f)->createInstance(f, cid, iid, o); }
#define CMP(i) ((struct Steinberg_Vst_IComponent*)(i))->lpVtbl
int32_t c_initialize(void* c) { return CMP(c)->initialize(c, NULL); }
int32_t c_terminate(void* c) { return CMP(c)->terminate(c); }
int32_t c_ctrlID(void* c, void* o) { return CMP(c)->getControllerClassId(c, o); }
int32_t c_routing(void* c) { struct Steinberg_Vst_RoutingInfo a, b; return CMP(c)->getRoutingInfo(c, &a, &b); }
int32_t c_setIoMode(void* c, int32_t m) { return CMP(c)->setIoMode(c, m); }
int32_t c_busCount(void* c, int32_t t, int32_t d) { return CMP(c)->getBusCount(c, t, d); }
int32_t c_busInfo(void* c, int32_t t, int32_t d, int32_t i, struct Steinberg_Vst_BusInfo* o) { return CMP(c)->getBusInfo(c, t, d, i, o); }
int32_t c_activateBus(void* c, int32_t t, int32_t d, int32_t i, int32_t s) { return CMP(c)->activateBus(c, t, d, i, (Steinberg_TBool)s); }
int32_t c_setActive(void* c, int32_t s) { return CMP(c)->setActive(c, (Steinberg_TBool)s); }
int32_t c_setState(void* c, void* s) { return CMP(c)->setState(c, s); }
int32_t c_getState(void* c, void* s) { return CMP(c)->getState(c, s); }
#define AUD(i) ((struct Steinberg_Vst_IAudioProcessor*)(i))->lpVtbl
int32_t a_setArr(void* a, uint64_t* i, int32_t ni, uint64_t* o, int32_t no) { return AUD(a)->setBusArrangements(a, i, ni, o, no); }
int32_t a_getArr(void* a, int32_t d, int32_t i, uint64_t* o) { return AUD(a)->getBusArrangement(a, d, i, o); }
int32_t a_canSize(void* a, int32_t s) { return AUD(a)->canProcessSampleSize(a, s); }
uint32_t a_latency(void* a) { return AUD(a)->getLatencySamples(a); }
uint32_t a_tail(void* a) { return AUD(a)->getTailSamples(a); }
int32_t a_setup(void* a, int32_t mode, int32_t size, int32_t mb, double rate) { struct Steinberg_Vst_ProcessSetup s; s.processMode = mode; s.symbolicSampleSize = size; s.maxSamplesPerBlock = mb; s.sampleRate = rate; return AUD(a)->setupProcessing(a, &s); }
int32_t a_setProcessing(void* a, int32_t s) { return AUD(a)->setProcessing(a, (Steinberg_TBool)s); }
int32_t a_process(void* a, struct Steinberg_Vst_ProcessData* d) { return AUD(a)->process(a, d); }
#define EDT(i) ((struct Steinberg_Vst_IEditController*)(i))->lpVtbl
int32_t e_setComponentState(void* e, void* s) { return EDT(e)->setComponentState(e, s); }
int32_t e_setState(void* e, void* s) { return EDT(e)->setState(e, s); }
int32_t e_getState(void* e, void* s) { return EDT(e)->getState(e, s); }
int32_t e_initialize(void* e) { return EDT(e)->initialize(e, NULL); }
int32_t e_terminate(void* e) { return EDT(e)->terminate(e); }
int32_t e_count(void* e) { return EDT(e)->getParameterCount(e); }
int32_t e_info(void* e, int32_t i, struct Steinberg_Vst_ParameterInfo* o) { return EDT(e)->getParameterInfo(e, i, o); }
int32_t e_toString(void* e, uint32_t id, double v, uint16_t* o) { return EDT(e)->getParamStringByValue(e, id, v, o); }
int32_t e_fromString(void* e, uint32_t id, uint16_t* s, double* o) { return EDT(e)->getParamValueByString(e, id, s, o); }
double e_toPlain(void* e, uint32_t id, double v) { return EDT(e)->normalizedParamToPlain(e, id, v); }
double e_toNorm(void* e, uint32_t id, double v) { return EDT(e)->plainParamToNormalized(e, id, v); }
double e_get(void* e, uint32_t id) { return EDT(e)->getParamNormalized(e, id); }
int32_t e_set(void* e, uint32_t id, double v) { return EDT(e)->setParamNormalized(e, id, v); }
int32_t e_setHandler(void* e, void* h) { return EDT(e)->setComponentHandler(e, h); }
void* e_view(void* e, const char* n) { return EDT(e)->createView(e, n); }
void h_set_channels(struct Steinberg_Vst_AudioBusBuffers* b, int32_t n, float** p) { b->numChannels = n; b->silenceFlags = 0; b->Steinberg_Vst_AudioBusBuffers_channelBuffers32 = p; }
const void* h_iid(int32_t w) {
  switch (w) { case 0: return Steinberg_FUnknown_iid; case 1: return Steinberg_IPluginBase_iid; case 2: return Steinberg_Vst_IComponent_iid; case 3: return Steinberg_Vst_IAudioProcessor_iid; case 4: return Steinberg_Vst_IEditController_iid; case 5: return Steinberg_IPluginFactory_iid; }
  return "no such interface"; }
int64_t h_heap(void) { struct mallinfo2 m = mallinfo2(); return (int64_t)m.uordblks + (int64_t)m.hblkhd; }
