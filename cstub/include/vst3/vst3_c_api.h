/* Minimal stand-in for steinbergmedia/vst3_c_api's vst3_c_api.h, which is a git
 * submodule that is absent from this checkout. It declares exactly the part of
 * the VST3 C ABI that bridge C files, pkg/vst3 and pkg/plugin use, with the names,
 * layouts and numeric values of the public VST3 ABI (64-bit Linux). Used only by
 * the verification harness in /verif; nothing in /repo is changed by it. */
#ifndef VERIF_VST3_C_API_H
#define VERIF_VST3_C_API_H
#include <stdint.h>
#include <stddef.h>
#define SMTG_STDMETHODCALLTYPE

typedef int8_t  Steinberg_int8;   typedef uint8_t  Steinberg_uint8;
typedef int16_t Steinberg_int16;  typedef uint16_t Steinberg_uint16;
typedef int32_t Steinberg_int32;  typedef uint32_t Steinberg_uint32;
typedef int64_t Steinberg_int64;  typedef uint64_t Steinberg_uint64;
typedef char Steinberg_char8;     typedef uint16_t Steinberg_char16;
typedef unsigned char Steinberg_uchar;
typedef uint8_t Steinberg_TBool;
typedef int32_t Steinberg_tresult;
typedef char Steinberg_TUID[16];
typedef const Steinberg_char8* Steinberg_FIDString;

typedef Steinberg_char16 Steinberg_Vst_TChar;
typedef Steinberg_Vst_TChar Steinberg_Vst_String128[128];
typedef Steinberg_uint32 Steinberg_Vst_ParamID;
typedef double Steinberg_Vst_ParamValue;
typedef Steinberg_int32 Steinberg_Vst_UnitID;
typedef Steinberg_int32 Steinberg_Vst_MediaType;
typedef Steinberg_int32 Steinberg_Vst_BusDirection;
typedef Steinberg_int32 Steinberg_Vst_BusType;
typedef Steinberg_int32 Steinberg_Vst_IoMode;
typedef Steinberg_uint64 Steinberg_Vst_SpeakerArrangement;
typedef float Steinberg_Vst_Sample32;
typedef double Steinberg_Vst_Sample64;
typedef double Steinberg_Vst_SampleRate;
typedef double Steinberg_Vst_TQuarterNotes;
typedef Steinberg_int64 Steinberg_Vst_TSamples;

enum { Steinberg_kNoInterface = -1, Steinberg_kResultOk = 0, Steinberg_kResultTrue = 0,
       Steinberg_kResultFalse = 1, Steinberg_kInvalidArgument = 2, Steinberg_kNotImplemented = 3 };
enum { Steinberg_PFactoryInfo_FactoryFlags_kUnicode = 1 << 4 };
enum { Steinberg_PClassInfo_ClassCardinality_kManyInstances = 0x7FFFFFFF };
enum { Steinberg_Vst_MediaTypes_kAudio = 0, Steinberg_Vst_MediaTypes_kEvent = 1 };
enum { Steinberg_Vst_BusDirections_kInput = 0, Steinberg_Vst_BusDirections_kOutput = 1 };
enum { Steinberg_Vst_BusTypes_kMain = 0, Steinberg_Vst_BusTypes_kAux = 1 };
enum {
  Steinberg_Vst_ParameterInfo_ParameterFlags_kCanAutomate = 1 << 0,
  Steinberg_Vst_ParameterInfo_ParameterFlags_kIsReadOnly = 1 << 1,
  Steinberg_Vst_ParameterInfo_ParameterFlags_kIsWrapAround = 1 << 2,
  Steinberg_Vst_ParameterInfo_ParameterFlags_kIsList = 1 << 3,
  Steinberg_Vst_ParameterInfo_ParameterFlags_kIsHidden = 1 << 4,
  Steinberg_Vst_ParameterInfo_ParameterFlags_kIsProgramChange = 1 << 15,
  Steinberg_Vst_ParameterInfo_ParameterFlags_kIsBypass = 1 << 16
};
enum {
  Steinberg_Vst_ProcessContext_StatesAndFlags_kPlaying = 1 << 1,
  Steinberg_Vst_ProcessContext_StatesAndFlags_kCycleActive = 1 << 2,
  Steinberg_Vst_ProcessContext_StatesAndFlags_kRecording = 1 << 3,
  Steinberg_Vst_ProcessContext_StatesAndFlags_kSystemTimeValid = 1 << 8,
  Steinberg_Vst_ProcessContext_StatesAndFlags_kProjectTimeMusicValid = 1 << 9,
  Steinberg_Vst_ProcessContext_StatesAndFlags_kTempoValid = 1 << 10,
  Steinberg_Vst_ProcessContext_StatesAndFlags_kBarPositionValid = 1 << 11,
  Steinberg_Vst_ProcessContext_StatesAndFlags_kCycleValid = 1 << 12,
  Steinberg_Vst_ProcessContext_StatesAndFlags_kTimeSigValid = 1 << 13,
  Steinberg_Vst_ProcessContext_StatesAndFlags_kSmpteValid = 1 << 14,
  Steinberg_Vst_ProcessContext_StatesAndFlags_kClockValid = 1 << 15,
  Steinberg_Vst_ProcessContext_StatesAndFlags_kContTimeValid = 1 << 17,
  Steinberg_Vst_ProcessContext_StatesAndFlags_kChordValid = 1 << 18
};
enum {
  Steinberg_Vst_Event_EventTypes_kNoteOnEvent = 0,
  Steinberg_Vst_Event_EventTypes_kNoteOffEvent = 1,
  Steinberg_Vst_Event_EventTypes_kDataEvent = 2,
  Steinberg_Vst_Event_EventTypes_kPolyPressureEvent = 3,
  Steinberg_Vst_Event_EventTypes_kNoteExpressionValueEvent = 4,
  Steinberg_Vst_Event_EventTypes_kNoteExpressionTextEvent = 5,
  Steinberg_Vst_Event_EventTypes_kChordEvent = 6,
  Steinberg_Vst_Event_EventTypes_kScaleEvent = 7,
  Steinberg_Vst_Event_EventTypes_kLegacyMIDICCOutEvent = 65535
};

#define VST3STUB_UID(l1,l2,l3,l4) { \
 (char)((l1)>>24),(char)((l1)>>16),(char)((l1)>>8),(char)(l1), \
 (char)((l2)>>24),(char)((l2)>>16),(char)((l2)>>8),(char)(l2), \
 (char)((l3)>>24),(char)((l3)>>16),(char)((l3)>>8),(char)(l3), \
 (char)((l4)>>24),(char)((l4)>>16),(char)((l4)>>8),(char)(l4) }
#define VST3STUB_UNUSED __attribute__((unused))
VST3STUB_UNUSED static const Steinberg_TUID Steinberg_FUnknown_iid = VST3STUB_UID(0x00000000u,0x00000000u,0xC0000000u,0x00000046u);
VST3STUB_UNUSED static const Steinberg_TUID Steinberg_IPluginBase_iid = VST3STUB_UID(0x22888DDBu,0x156E45AEu,0x8358B348u,0x08190625u);
VST3STUB_UNUSED static const Steinberg_TUID Steinberg_IPluginFactory_iid = VST3STUB_UID(0x7A4D811Cu,0x52114A1Fu,0xAED9D2EEu,0x0B43BF9Fu);
VST3STUB_UNUSED static const Steinberg_TUID Steinberg_Vst_IComponent_iid = VST3STUB_UID(0xE831FF31u,0xF2D54301u,0x928EBBEEu,0x25697802u);
VST3STUB_UNUSED static const Steinberg_TUID Steinberg_Vst_IAudioProcessor_iid = VST3STUB_UID(0x42043F99u,0xB7DA453Cu,0xA569E79Du,0x9AAEC33Du);
VST3STUB_UNUSED static const Steinberg_TUID Steinberg_Vst_IEditController_iid = VST3STUB_UID(0xDCD7BBE3u,0x7742448Du,0xA874AACCu,0x979C759Eu);

typedef struct Steinberg_PFactoryInfo { Steinberg_char8 vendor[64]; Steinberg_char8 url[256]; Steinberg_char8 email[128]; Steinberg_int32 flags; } Steinberg_PFactoryInfo;
typedef struct Steinberg_PClassInfo { Steinberg_TUID cid; Steinberg_int32 cardinality; Steinberg_char8 category[32]; Steinberg_char8 name[64]; } Steinberg_PClassInfo;

#define VST3STUB_UNK \
  Steinberg_tresult (SMTG_STDMETHODCALLTYPE *queryInterface)(void* thisInterface, const Steinberg_TUID iid, void** obj); \
  Steinberg_uint32 (SMTG_STDMETHODCALLTYPE *addRef)(void* thisInterface); \
  Steinberg_uint32 (SMTG_STDMETHODCALLTYPE *release)(void* thisInterface);
#define VST3STUB_IFACE(name) typedef struct name { struct name##Vtbl* lpVtbl; } name

typedef struct Steinberg_FUnknownVtbl { VST3STUB_UNK } Steinberg_FUnknownVtbl;
VST3STUB_IFACE(Steinberg_FUnknown);

typedef struct Steinberg_IPluginFactoryVtbl { VST3STUB_UNK
  Steinberg_tresult (*getFactoryInfo)(void* thisInterface, struct Steinberg_PFactoryInfo* info);
  Steinberg_int32 (*countClasses)(void* thisInterface);
  Steinberg_tresult (*getClassInfo)(void* thisInterface, Steinberg_int32 index, struct Steinberg_PClassInfo* info);
  Steinberg_tresult (*createInstance)(void* thisInterface, Steinberg_FIDString cid, Steinberg_FIDString iid, void** obj);
} Steinberg_IPluginFactoryVtbl;
VST3STUB_IFACE(Steinberg_IPluginFactory);

typedef struct Steinberg_IBStreamVtbl { VST3STUB_UNK
  Steinberg_tresult (*read)(void* thisInterface, void* buffer, Steinberg_int32 numBytes, Steinberg_int32* numBytesRead);
  Steinberg_tresult (*write)(void* thisInterface, void* buffer, Steinberg_int32 numBytes, Steinberg_int32* numBytesWritten);
  Steinberg_tresult (*seek)(void* thisInterface, Steinberg_int64 pos, Steinberg_int32 mode, Steinberg_int64* result);
  Steinberg_tresult (*tell)(void* thisInterface, Steinberg_int64* pos);
} Steinberg_IBStreamVtbl;
VST3STUB_IFACE(Steinberg_IBStream);

VST3STUB_IFACE(Steinberg_IPlugView);

typedef struct Steinberg_Vst_BusInfo { Steinberg_Vst_MediaType mediaType; Steinberg_Vst_BusDirection direction; Steinberg_int32 channelCount; Steinberg_Vst_String128 name; Steinberg_Vst_BusType busType; Steinberg_uint32 flags; } Steinberg_Vst_BusInfo;
typedef struct Steinberg_Vst_RoutingInfo { Steinberg_Vst_MediaType mediaType; Steinberg_int32 busIndex; Steinberg_int32 channel; } Steinberg_Vst_RoutingInfo;
typedef struct Steinberg_Vst_ParameterInfo { Steinberg_Vst_ParamID id; Steinberg_Vst_String128 title; Steinberg_Vst_String128 shortTitle; Steinberg_Vst_String128 units; Steinberg_int32 stepCount; Steinberg_Vst_ParamValue defaultNormalizedValue; Steinberg_Vst_UnitID unitId; Steinberg_int32 flags; } Steinberg_Vst_ParameterInfo;
typedef struct Steinberg_Vst_ProcessSetup { Steinberg_int32 processMode; Steinberg_int32 symbolicSampleSize; Steinberg_int32 maxSamplesPerBlock; Steinberg_Vst_SampleRate sampleRate; } Steinberg_Vst_ProcessSetup;
typedef struct Steinberg_Vst_AudioBusBuffers { Steinberg_int32 numChannels; Steinberg_uint64 silenceFlags;
  union { Steinberg_Vst_Sample32** Steinberg_Vst_AudioBusBuffers_channelBuffers32; Steinberg_Vst_Sample64** Steinberg_Vst_AudioBusBuffers_channelBuffers64; };
} Steinberg_Vst_AudioBusBuffers;
typedef struct Steinberg_Vst_FrameRate { Steinberg_uint32 framesPerSecond; Steinberg_uint32 flags; } Steinberg_Vst_FrameRate;
typedef struct Steinberg_Vst_Chord { Steinberg_uint8 keyNote; Steinberg_uint8 rootNote; Steinberg_int16 chordMask; } Steinberg_Vst_Chord;
typedef struct Steinberg_Vst_ProcessContext { Steinberg_uint32 state; double sampleRate; Steinberg_Vst_TSamples projectTimeSamples; Steinberg_int64 systemTime; Steinberg_Vst_TSamples continousTimeSamples; Steinberg_Vst_TQuarterNotes projectTimeMusic; Steinberg_Vst_TQuarterNotes barPositionMusic; Steinberg_Vst_TQuarterNotes cycleStartMusic; Steinberg_Vst_TQuarterNotes cycleEndMusic; double tempo; Steinberg_int32 timeSigNumerator; Steinberg_int32 timeSigDenominator; Steinberg_Vst_Chord chord; Steinberg_int32 smpteOffsetSubframes; Steinberg_Vst_FrameRate frameRate; Steinberg_int32 samplesToNextClock; } Steinberg_Vst_ProcessContext;

typedef struct Steinberg_Vst_NoteOnEvent { Steinberg_int16 channel; Steinberg_int16 pitch; float tuning; float velocity; Steinberg_int32 length; Steinberg_int32 noteId; } Steinberg_Vst_NoteOnEvent;
typedef struct Steinberg_Vst_NoteOffEvent { Steinberg_int16 channel; Steinberg_int16 pitch; float velocity; Steinberg_int32 noteId; float tuning; } Steinberg_Vst_NoteOffEvent;
typedef struct Steinberg_Vst_DataEvent { Steinberg_uint32 size; Steinberg_uint32 type; const Steinberg_uint8* bytes; } Steinberg_Vst_DataEvent;
typedef struct Steinberg_Vst_PolyPressureEvent { Steinberg_int16 channel; Steinberg_int16 pitch; float pressure; Steinberg_int32 noteId; } Steinberg_Vst_PolyPressureEvent;
typedef struct Steinberg_Vst_LegacyMIDICCOutEvent { Steinberg_uint8 controlNumber; Steinberg_int8 channel; Steinberg_int8 value; Steinberg_int8 value2; } Steinberg_Vst_LegacyMIDICCOutEvent;
typedef struct Steinberg_Vst_Event { Steinberg_int32 busIndex; Steinberg_int32 sampleOffset; Steinberg_Vst_TQuarterNotes ppqPosition; Steinberg_uint16 flags; Steinberg_uint16 type;
  union { Steinberg_Vst_NoteOnEvent Steinberg_Vst_Event_noteOn; Steinberg_Vst_NoteOffEvent Steinberg_Vst_Event_noteOff; Steinberg_Vst_DataEvent Steinberg_Vst_Event_data; Steinberg_Vst_PolyPressureEvent Steinberg_Vst_Event_polyPressure; Steinberg_Vst_LegacyMIDICCOutEvent Steinberg_Vst_Event_midiCCOut; };
} Steinberg_Vst_Event;

typedef struct Steinberg_Vst_IParamValueQueueVtbl { VST3STUB_UNK
  Steinberg_Vst_ParamID (*getParameterId)(void* thisInterface);
  Steinberg_int32 (*getPointCount)(void* thisInterface);
  Steinberg_tresult (*getPoint)(void* thisInterface, Steinberg_int32 index, Steinberg_int32* sampleOffset, Steinberg_Vst_ParamValue* value);
  Steinberg_tresult (*addPoint)(void* thisInterface, Steinberg_int32 sampleOffset, Steinberg_Vst_ParamValue value, Steinberg_int32* index);
} Steinberg_Vst_IParamValueQueueVtbl;
VST3STUB_IFACE(Steinberg_Vst_IParamValueQueue);
typedef struct Steinberg_Vst_IParameterChangesVtbl { VST3STUB_UNK
  Steinberg_int32 (*getParameterCount)(void* thisInterface);
  struct Steinberg_Vst_IParamValueQueue* (*getParameterData)(void* thisInterface, Steinberg_int32 index);
  struct Steinberg_Vst_IParamValueQueue* (*addParameterData)(void* thisInterface, const Steinberg_Vst_ParamID* id, Steinberg_int32* index);
} Steinberg_Vst_IParameterChangesVtbl;
VST3STUB_IFACE(Steinberg_Vst_IParameterChanges);
typedef struct Steinberg_Vst_IEventListVtbl { VST3STUB_UNK
  Steinberg_int32 (*getEventCount)(void* thisInterface);
  Steinberg_tresult (*getEvent)(void* thisInterface, Steinberg_int32 index, struct Steinberg_Vst_Event* e);
  Steinberg_tresult (*addEvent)(void* thisInterface, struct Steinberg_Vst_Event* e);
} Steinberg_Vst_IEventListVtbl;
VST3STUB_IFACE(Steinberg_Vst_IEventList);

typedef struct Steinberg_Vst_ProcessData { Steinberg_int32 processMode; Steinberg_int32 symbolicSampleSize; Steinberg_int32 numSamples; Steinberg_int32 numInputs; Steinberg_int32 numOutputs; struct Steinberg_Vst_AudioBusBuffers* inputs; struct Steinberg_Vst_AudioBusBuffers* outputs; struct Steinberg_Vst_IParameterChanges* inputParameterChanges; struct Steinberg_Vst_IParameterChanges* outputParameterChanges; struct Steinberg_Vst_IEventList* inputEvents; struct Steinberg_Vst_IEventList* outputEvents; struct Steinberg_Vst_ProcessContext* processContext; } Steinberg_Vst_ProcessData;

typedef struct Steinberg_Vst_IComponentHandlerVtbl { VST3STUB_UNK
  Steinberg_tresult (*beginEdit)(void* thisInterface, Steinberg_Vst_ParamID id);
  Steinberg_tresult (*performEdit)(void* thisInterface, Steinberg_Vst_ParamID id, Steinberg_Vst_ParamValue valueNormalized);
  Steinberg_tresult (*endEdit)(void* thisInterface, Steinberg_Vst_ParamID id);
  Steinberg_tresult (*restartComponent)(void* thisInterface, Steinberg_int32 flags);
} Steinberg_Vst_IComponentHandlerVtbl;
VST3STUB_IFACE(Steinberg_Vst_IComponentHandler);

typedef struct Steinberg_Vst_IComponentVtbl { VST3STUB_UNK
  Steinberg_tresult (*initialize)(void* thisInterface, struct Steinberg_FUnknown* context);
  Steinberg_tresult (*terminate)(void* thisInterface);
  Steinberg_tresult (*getControllerClassId)(void* thisInterface, Steinberg_TUID classId);
  Steinberg_tresult (*setIoMode)(void* thisInterface, Steinberg_Vst_IoMode mode);
  Steinberg_int32 (*getBusCount)(void* thisInterface, Steinberg_Vst_MediaType type, Steinberg_Vst_BusDirection dir);
  Steinberg_tresult (*getBusInfo)(void* thisInterface, Steinberg_Vst_MediaType type, Steinberg_Vst_BusDirection dir, Steinberg_int32 index, struct Steinberg_Vst_BusInfo* bus);
  Steinberg_tresult (*getRoutingInfo)(void* thisInterface, struct Steinberg_Vst_RoutingInfo* inInfo, struct Steinberg_Vst_RoutingInfo* outInfo);
  Steinberg_tresult (*activateBus)(void* thisInterface, Steinberg_Vst_MediaType type, Steinberg_Vst_BusDirection dir, Steinberg_int32 index, Steinberg_TBool state);
  Steinberg_tresult (*setActive)(void* thisInterface, Steinberg_TBool state);
  Steinberg_tresult (*setState)(void* thisInterface, struct Steinberg_IBStream* state);
  Steinberg_tresult (*getState)(void* thisInterface, struct Steinberg_IBStream* state);
} Steinberg_Vst_IComponentVtbl;
VST3STUB_IFACE(Steinberg_Vst_IComponent);
typedef struct Steinberg_Vst_IAudioProcessorVtbl { VST3STUB_UNK
  Steinberg_tresult (*setBusArrangements)(void* thisInterface, Steinberg_Vst_SpeakerArrangement* inputs, Steinberg_int32 numIns, Steinberg_Vst_SpeakerArrangement* outputs, Steinberg_int32 numOuts);
  Steinberg_tresult (*getBusArrangement)(void* thisInterface, Steinberg_Vst_BusDirection dir, Steinberg_int32 index, Steinberg_Vst_SpeakerArrangement* arr);
  Steinberg_tresult (*canProcessSampleSize)(void* thisInterface, Steinberg_int32 symbolicSampleSize);
  Steinberg_uint32 (*getLatencySamples)(void* thisInterface);
  Steinberg_tresult (*setupProcessing)(void* thisInterface, struct Steinberg_Vst_ProcessSetup* setup);
  Steinberg_tresult (*setProcessing)(void* thisInterface, Steinberg_TBool state);
  Steinberg_tresult (*process)(void* thisInterface, struct Steinberg_Vst_ProcessData* data);
  Steinberg_uint32 (*getTailSamples)(void* thisInterface);
} Steinberg_Vst_IAudioProcessorVtbl;
VST3STUB_IFACE(Steinberg_Vst_IAudioProcessor);
typedef struct Steinberg_Vst_IEditControllerVtbl { VST3STUB_UNK
  Steinberg_tresult (*initialize)(void* thisInterface, struct Steinberg_FUnknown* context);
  Steinberg_tresult (*terminate)(void* thisInterface);
  Steinberg_tresult (*setComponentState)(void* thisInterface, struct Steinberg_IBStream* state);
  Steinberg_tresult (*setState)(void* thisInterface, struct Steinberg_IBStream* state);
  Steinberg_tresult (*getState)(void* thisInterface, struct Steinberg_IBStream* state);
  Steinberg_int32 (*getParameterCount)(void* thisInterface);
  Steinberg_tresult (*getParameterInfo)(void* thisInterface, Steinberg_int32 paramIndex, struct Steinberg_Vst_ParameterInfo* info);
  Steinberg_tresult (*getParamStringByValue)(void* thisInterface, Steinberg_Vst_ParamID id, Steinberg_Vst_ParamValue valueNormalized, Steinberg_Vst_String128 string);
  Steinberg_tresult (*getParamValueByString)(void* thisInterface, Steinberg_Vst_ParamID id, Steinberg_Vst_TChar* string, Steinberg_Vst_ParamValue* valueNormalized);
  Steinberg_Vst_ParamValue (*normalizedParamToPlain)(void* thisInterface, Steinberg_Vst_ParamID id, Steinberg_Vst_ParamValue valueNormalized);
  Steinberg_Vst_ParamValue (*plainParamToNormalized)(void* thisInterface, Steinberg_Vst_ParamID id, Steinberg_Vst_ParamValue plainValue);
  Steinberg_Vst_ParamValue (*getParamNormalized)(void* thisInterface, Steinberg_Vst_ParamID id);
  Steinberg_tresult (*setParamNormalized)(void* thisInterface, Steinberg_Vst_ParamID id, Steinberg_Vst_ParamValue value);
  Steinberg_tresult (*setComponentHandler)(void* thisInterface, struct Steinberg_Vst_IComponentHandler* handler);
  struct Steinberg_IPlugView* (*createView)(void* thisInterface, Steinberg_FIDString name);
} Steinberg_Vst_IEditControllerVtbl;
VST3STUB_IFACE(Steinberg_Vst_IEditController);
#endif
