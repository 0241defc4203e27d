C='pkg/plugin/component.go';W='pkg/plugin/wrapper.go';A='pkg/plugin/wrapper_audio.go';K='pkg/plugin/wrapper_controller.go';H='pkg/plugin/helpers.go'
S='pkg/vst3/stream.go';U='pkg/vst3/buffers.go';BR='bridge/bridge.c';CC='bridge/component.c'
B=[
('h-ctxmax','H02',[(C,'		c.maxBlockSize = setup.MaxSamplesPerBlock\n','		c.maxBlockSize = min(setup.MaxSamplesPerBlock, 8192)\n')]),
('h-noinit-inactive','H07',[(C,'	c.active = active\n	return c.processor.SetActive(active)','	if c.active == active {\n		return nil\n	}\n	c.active = active\n	return c.processor.SetActive(active)')]),
('h-sr','H02 H07',[(C,'	c.processCtx.SampleRate = c.sampleRate\n','	if c.processCtx.SampleRate == 0 {\n		c.processCtx.SampleRate = c.sampleRate\n	}\n')]),
('h-tempo','H02',[(C,'		if transport.HasTempo {\n			transport.Tempo','		if transport.HasTempo && transport.IsPlaying {\n			transport.Tempo')]),
('h-cycle','H02',[(C,'		if transport.HasCycle {','		if transport.HasCycle && transport.IsCycling {')]),
('h-clock','H02',[(C,'_kClockValid) != 0 {','_kClockValid) != 0 && ctx.samplesToNextClock >= 0 {')]),
('h-i64','H02',[(C,'transport.ProjectTimeSamples = int64(ctx.projectTimeSamples)','transport.ProjectTimeSamples = int64(int32(ctx.projectTimeSamples))')]),
('h-aux','H02',[(C,'	if processData.numInputs > 0 && processData.inputs != nil {\n		inputBuses := unsafe.Slice(processData.inputs, int(processData.numInputs))','	if processData.numInputs > 0 && processData.inputs != nil {\n		inputBuses := unsafe.Slice(processData.inputs, min(int(processData.numInputs), 4))')]),
('h-silence','H02',[(C,'						c.processCtx.Input = append(c.processCtx.Input, samples)','						if bus.silenceFlags&(1<<63) != 0 {\n							continue\n						}\n						c.processCtx.Input = append(c.processCtx.Input, samples)')]),
('h-eventkeep','H04',[(C,'	c.processCtx.ClearAllEvents()\n','	c.processCtx.ClearInputEvents()\n')]),
('h-outev','H04',[(C,'	c.processCtx.ClearAllEvents()\n	c.events','	if processData.inputEvents != nil {\n		c.processCtx.ClearAllEvents()\n	}\n	c.events')]),
('h-evlast','H04',[(C,'offset := max(0, min(int(event.SampleOffset()), blockSize-1))','offset := max(0, min(int(event.SampleOffset()), blockSize))')]),
('h-evneg','H04',[(C,'offset := max(0, min(int(event.SampleOffset()), blockSize-1))','offset := min(int(event.SampleOffset()), blockSize-1)')]),
('h-evzero','H04',[(C,'		c.addEvents(0, c.processCtx.NumSamples(), c.processCtx.NumSamples())','		c.addEvents(0, numSamples, numSamples)')]),
('h-evedge','H04',[(C,'if offset < start || offset >= end {','if offset < start || offset > end {')]),
('h-evrel','H04',[(C,'			e.Offset = int32(offset - start)\n			c.processCtx.AddInputEvent(e)\n		case midi.NoteOffEvent:\n			e.Offset = int32(offset - start)','			e.Offset = int32(offset - start)\n			c.processCtx.AddInputEvent(e)\n		case midi.NoteOffEvent:\n			e.Offset = int32(offset)')]),
('h-evfail','H04',[(C,'		if C.getEvent(unsafe.Pointer(eventList), i, &c.event) == 0 { // kResultOk\n			c.processSingleEvent(&c.event)\n		}','		if C.getEvent(unsafe.Pointer(eventList), i, &c.event) != 0 {\n			break\n		}\n		c.processSingleEvent(&c.event)')]),
('h-evcap','H04',[(C,'	for i := C.int32_t(0); i < eventCount; i++ {\n		if C.getEvent','	for i := C.int32_t(0); i < min(eventCount, 512); i++ {\n		if C.getEvent')]),
('h-velround','H04',[(C,'*127 + 0.5)','*127 + 0.499)')]),
('h-velnan','H04',[(C,'max(0, min(velocity, 1))*127','min(velocity, 1)*127')]),
('h-ptfail','H03',[(C,'					if result == 0 { // kResultOk\n						// Add','					if result == 0 || c.pointOffset > 0 { // kResultOk\n						// Add')]),
('h-ptneg','H03',[(C,'float64(c.pointValue), int(c.pointOffset))','float64(c.pointValue), int(uint16(c.pointOffset)))')]),
('h-qnil','H03',[(C,'			if paramQueue != nil {\n				// Get parameter ID','			if paramQueue == nil {\n				break\n			}\n			{\n				// Get parameter ID')]),
('h-overpt','H03',[(C,'if offset := min(change.SampleOffset, numSamples); offset > lastOffset {','if change.SampleOffset >= numSamples {\n			break\n		}\n		if offset := min(change.SampleOffset, numSamples); offset > lastOffset {')]),
('h-applyfirst','H03',[(C,'	// Process each chunk between parameter changes\n','	if len(changes) == 1 && changes[0].SampleOffset < 8 {\n		c.processCtx.ApplyParameterChange(changes[0])\n		c.processSubBlock(origInput, origOutput, 0, numSamples, numSamples)\n		return\n	}\n')]),
('h-defer','H03 H08',[(C,'	defer func() {\n		c.processCtx.Input = origInput\n		c.processCtx.Output = origOutput\n	}()\n','	defer func() {\n		c.processCtx.Input = origInput\n	}()\n')]),
('h-subcap','H02 H03',[(C,'c.subOutput = append(c.subOutput, channel[start:end:end])','c.subOutput = append(c.subOutput, channel[start:end])')]),
('h-suballoc','H02',[(C,'	c.subInput = c.subInput[:0]\n	for','	c.subInput = make([][]float32, 0, len(input))\n	for')]),
('h-procflag','H02',[(C,'	c.processing = state\n','	c.processing = c.processing || state\n')]),
('h-procmu','H09',[(C,'	c.mu.RLock()\n	defer c.mu.RUnlock()\n\n	if !c.processing','	if !c.processing')]),
('h-paramglobal','H09 H05',[(C,'	buf := bytes.NewReader(stateData)\n	return stateManager.Load(buf)','	buf := bytes.NewReader(stateData)\n	stateManager.Load(buf)\n	return nil')]),
('h-custsave','H05',[(C,'		stateManager.SetCustomSaveFunc(stateful.SaveCustomState)','		if params.Count() > 0 {\n			stateManager.SetCustomSaveFunc(stateful.SaveCustomState)\n		}')]),
('h-spk','H07',[(C,'	case channels >= 63:\n		return math.MaxInt64','	case channels >= 24:\n		_ = math.MaxInt64\n		return 1<<24 - 1')]),
('h-spkmono','H07',[(C,'return 1 << 19 // kMono','return 1 << 0 // kMono'),]),
('h-latmax','H07',[(C,'return uint32(c.processor.GetTailSamples())','return uint32(uint16(c.processor.GetTailSamples()))')]),
('h-setclamp','H06',[(C,'		p.SetValue(value)\n		return nil\n	}\n	return vst3.ErrInvalidArgument\n}\n\nfunc (c *componentImpl) SetComponentHandler','		if value != p.GetValue() {\n			p.SetValue(value)\n		}\n		return nil\n	}\n	return nil\n}\n\nfunc (c *componentImpl) SetComponentHandler')]),
('h-shorttitle','H06',[(C,'ShortTitle:   p.ShortName,','ShortTitle:   p.Name,')]),
('h-unitid','H06',[(C,'		UnitID:       p.UnitID,\n','')]),
('h-busflags','H07',[(C,'	if !info.IsActive {\n		flags = 0','	if !info.IsActive && info.BusType != 0 {\n		flags = 0')]),
('h-recpt','H08',[(W,'		*result = C.Steinberg_tresult(vst3.ResultFalse)\n	}\n}\n\n// registerComponent','		if _, fatal := r.(error); fatal {\n			*result = C.Steinberg_tresult(vst3.ResultFalse)\n		}\n	}\n}\n\n// registerComponent')]),
('h-recinfo','H08',[(K,'	defer recoverPanic("GoEditControllerNormalizedParamToPlain")\n','')]),
('h-classcard','H01',[(W,'	*cardinality = C.Steinberg_PClassInfo_ClassCardinality_kManyInstances','	*cardinality = 1')]),
('h-cidcmp','H01',[(W,'	if requestedCID != pluginUID {','	if [8]byte(requestedCID[:8]) != [8]byte(pluginUID[:8]) {')]),
('h-leakfac','H01',[(W,'	unregisterComponent(id)\n}\n\n// All','	if id > 1 {\n		unregisterComponent(id)\n	}\n}\n\n// All')]),
('h-idrace','H09 H01',[(W,'	componentsMu.Lock()\n	defer componentsMu.Unlock()\n	id := nextID\n	nextID++\n','	id := nextID\n	nextID++\n	componentsMu.Lock()\n	defer componentsMu.Unlock()\n')]),
('h-idreuse','H01',[(W,'	id := nextID\n	nextID++\n','	id := uintptr(len(components) + 1)\n')]),
('h-delrace','H09',[(W,'func unregisterComponent(id uintptr) {\n	componentsMu.Lock()\n	defer componentsMu.Unlock()\n','func unregisterComponent(id uintptr) {\n	componentsMu.RLock()\n	defer componentsMu.RUnlock()\n')]),
('h-terminate','H07 H01',[(W,'	err := wrapper.component.Terminate()\n	if err != nil {','	err := wrapper.component.Terminate()\n	if err == nil {')]),
('h-getstate-nil','H05',[(W,'	_, err = streamWrapper.Write(stateData)\n	if err != nil {\n		return C.Steinberg_tresult(vst3.ResultFalse)\n	}\n','	_, err = streamWrapper.Write(stateData)\n	if err != nil && len(stateData) < 4096 {\n		return C.Steinberg_tresult(vst3.ResultFalse)\n	}\n')]),
('h-activate','H07',[(W,'wrapper.component.SetActive(state != 0)','wrapper.component.SetActive(state == 1)')]),
('h-busname','H07',[(W,'copyStringToTChar(info.Name, &cBus.name[0], len(cBus.name))','copyStringToTChar(info.Name, &cBus.name[0], min(len(info.Name)+1, len(cBus.name)))')]),
('h-latcall','H07',[(A,'	return C.uint32_t(wrapper.component.GetLatencySamples())','	return C.uint32_t(wrapper.component.GetLatencySamples() & 0xffff)')]),
('h-setup','H07',[(A,'SampleRate:         float64(cSetup.sampleRate),','SampleRate:         float64(float32(cSetup.sampleRate)),')]),
('h-proc','H07 H08',[(A,'	err := wrapper.component.SetProcessing(state != 0)\n	if err','	err := wrapper.component.SetProcessing(state == 1)\n	if err')]),
('h-paramcount','H06',[(K,'	if err != nil || paramInfo == nil {\n','	if paramIndex < 0 {\n		paramInfo, err = wrapper.component.GetParameterInfo(0)\n	}\n	if err != nil || paramInfo == nil {\n')]),
('h-flags','H06',[(K,'cInfo.flags = C.Steinberg_int32(paramInfo.Flags)','cInfo.flags = C.Steinberg_int32(paramInfo.Flags & 0xff)')]),
('h-valstr','H06',[(K,'	copyStringToTChar(str, string, 128)','	copyStringToTChar(str, string, 127)')]),
('h-valparse','H06',[(K,'	value, err := wrapper.component.GetParamValueByString(uint32(id), str)\n	if err != nil {\n		return C.Steinberg_tresult(vst3.ResultFalse)\n	}\n','	value, err := wrapper.component.GetParamValueByString(uint32(id), str)\n	if err != nil {\n		*valueNormalized = 0\n		return C.Steinberg_tresult(vst3.ResultFalse)\n	}\n')]),
('h-plain','H06',[(K,'		return plainValue\n	}\n','		return 0\n	}\n')]),
('h-handler','H06',[(K,'	wrapper.componentHandler = handler\n','	if handler != nil {\n		wrapper.componentHandler = handler\n	}\n')]),
('h-utf8cut','H01',[(H,'			if utf8.RuneStart(src[cut]) {\n				n = cut\n				break','			if utf8.RuneStart(src[cut]) {\n				n = max(cut, size-3)\n				break')]),
('h-utf8size','H01',[(H,'	if n > size-1 {\n','	if n > size {\n')]),
('h-utf16cut','H06',[(H,'		if n+units > maxLen-1 {','		if n > maxLen-2 {')]),
('h-utf16pair','H06',[(H,'buf[n], buf[n+1] = uint16(r1), uint16(r2)','buf[n], buf[n+1] = uint16(r2), uint16(r1)')]),
('h-fromt','H06',[(H,'	for *(*uint16)(unsafe.Add(unsafe.Pointer(src), length*2)) != 0 {','	for length < 64 && *(*uint16)(unsafe.Add(unsafe.Pointer(src), length*2)) != 0 {')]),
('h-invalidrune','H06',[(H,'		units := max(utf16.RuneLen(r), 1)\n','		units := utf16.RuneLen(r)\n		if r == utf8.RuneError {\n			break\n		}\n')]),
('h-partialread','H05',[(S,'		buffer = buffer[n:]\n	}\n	return nil','		buffer = buffer[max(int(n), min(len(buffer), 2)):]\n	}\n	return nil')]),
('h-partialwrite','H05',[(S,'		buffer = buffer[numBytesWritten:]','		buffer = buffer[max(int(numBytesWritten), min(len(buffer), 8)):]')]),
('h-wzero','H05',[(S,'		if numBytesWritten <= 0 || int(numBytesWritten) > chunk {\n			return written, io.ErrShortWrite','		if numBytesWritten <= 0 || int(numBytesWritten) > chunk {\n			return written, nil')]),
('h-chunk','H05',[(S,'		if n <= 0 {\n			break // End of stream','		if int(n) < len(chunk) {\n			result = append(result, chunk[:max(n, 0)]...)\n			break // End of stream')]),
('h-seekback','H05',[(S,'	result = C.stream_seek(s.stream, currentPos, 0, &newPos) // SEEK_SET = 0','	result = C.stream_seek(s.stream, currentPos-endPos, 2, &newPos) // SEEK_END = 2')]),
('h-seekzero','H05',[(S,'	result = C.stream_seek(s.stream, currentPos, 0, &newPos) // SEEK_SET = 0','	result = C.stream_seek(s.stream, 0, 0, &newPos) // SEEK_SET = 0')]),
('h-seekfail','H05',[(S,'		// The data is behind us now and cannot be reached\n		return nil, ErrNotImplemented','		// The data is behind us now and cannot be reached\n		return []byte{}, nil')]),
('h-noseek','H05',[(S,'	if result != 0 {\n		return s.readAllChunked(math.MaxInt64)\n	}','	if result != 0 {\n		return s.readAllChunked(1<<16)\n	}')]),
('h-readerr','H05',[(S,'		n, err := s.Read(chunk)\n		if err != nil {\n			return nil, err\n		}','		n, err := s.Read(chunk)\n		if err != nil {\n			if len(result) > 0 {\n				return result, nil\n			}\n			return nil, err\n		}')]),
('h-rem1','H05',[(S,'	if remaining <= 0 {','	if remaining <= 1 {')]),
('h-strbig','H05',[(S,'chunk := make([]byte, min(remaining, 1<<16))','chunk := make([]byte, min(length, 1<<16))')]),
('h-strneg','H05',[(S,'	if length < 0 {\n		return "", ErrInvalidArgument\n	}','	if length < 0 {\n		return "", nil\n	}')]),
('h-f64','H05',[(S,'	bits := binary.LittleEndian.Uint64(buf)\n	return *(*float64)(unsafe.Pointer(&bits)), nil','	bits := binary.LittleEndian.Uint64(buf)\n	if v := *(*float64)(unsafe.Pointer(&bits)); v == 0 {\n		return 0, nil\n	}\n	return *(*float64)(unsafe.Pointer(&bits)), nil')]),
('h-i32','H05',[(S,'	return int32(binary.LittleEndian.Uint32(buf)), nil','	return int32(binary.LittleEndian.Uint32(buf) &^ (1<<31)), nil')]),
('h-bufch','H10',[(U,'(unsafe.Pointer(channelPtrs[i]))[:numSamples:numSamples]','(unsafe.Pointer(channelPtrs[i]))[:numSamples]')]),
('h-bufin','H10',[(U,'	if index < 0 || index >= len(w.inputBuffers) {','	if index < 0 || index > len(w.inputBuffers) {')]),
('h-ctxfield','H10',[(U,'SystemTime:            int64(ctx.systemTime),','SystemTime:            int64(ctx.continousTimeSamples),')]),
('h-ctxts','H10',[(U,'return c.State&ProcessContextFlagTimeSigValid != 0','return c.State&ProcessContextFlagTempoValid != 0')]),
('b-facref','H01',[(BR,'        // Every call hands a reference of its own to the host\n        factory_addRef(globalFactory);','')]),
('b-facatomic','H01 H09',[(BR,'return (Steinberg_uint32)__atomic_add_fetch(&factory->refCount, 1, __ATOMIC_ACQ_REL);','return (Steinberg_uint32)++factory->refCount;')]),
('b-facglobal','H01',[(BR,'            globalFactory = NULL;\n','')]),
('b-idx','H01',[(BR,'    if (index < 0 || index >= GoCountClasses()) {','    if (index < 0) {')]),
('b-qi','H01',[(BR,'    *obj = NULL;\n    return ((Steinberg_tresult)-1);\n}\n\nstatic Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_addRef','    return ((Steinberg_tresult)-1);\n}\n\nstatic Steinberg_uint32 SMTG_STDMETHODCALLTYPE factory_addRef')]),
('b-createnull','H01 H08',[(BR,'        *obj = NULL;\n        return ((Steinberg_tresult)-1); // kNoInterface','        return ((Steinberg_tresult)-1); // kNoInterface')]),
('b-createrel','H01',[(BR,'    unknown->lpVtbl->release(instance);\n','    if (result == 0) unknown->lpVtbl->release(instance);\n')]),
('b-point','H03',[(BR,'    if (result == 0) { // kResultOk\n        *value = vstValue;','    if (result == 0 && vstValue > 0) { // kResultOk\n        *value = vstValue;')]),
('b-pointf','H03',[(BR,'        *value = vstValue;','        *value = (float)vstValue;')]),
('b-qid','H03',[(BR,'    uint32_t paramId = queue->lpVtbl->getParameterId(queue);','    uint32_t paramId = queue->lpVtbl->getParameterId(queue) & 0x7fffffff;')]),
('b-evtype','H04',[(BR,'    return event->type;','    return event->type & 0xff;')]),
('b-off','H04',[(BR,'struct Steinberg_Vst_NoteOffEvent* getNoteOffEvent(struct Steinberg_Vst_Event* event) {\n    return &event->Steinberg_Vst_Event_noteOff;','struct Steinberg_Vst_NoteOffEvent* getNoteOffEvent(struct Steinberg_Vst_Event* event) {\n    return (struct Steinberg_Vst_NoteOffEvent*)&event->Steinberg_Vst_Event_noteOn;')]),
('b-refatomic','H01 H09',[(CC,'return (Steinberg_uint32)__atomic_add_fetch(&component->refCount, 1, __ATOMIC_ACQ_REL);','return (Steinberg_uint32)++component->refCount;')]),
('b-relatomic','H01 H09',[(CC,'    int refCount = __atomic_sub_fetch(&component->refCount, 1, __ATOMIC_ACQ_REL);','    int refCount = --component->refCount;')]),
('b-relgo','H01',[(CC,'        GoReleaseComponent(component->goComponent);\n        free(component);','        free(component);')]),
('b-leak','H01',[(CC,'        GoReleaseComponent(component->goComponent);\n        free(component);','        GoReleaseComponent(component->goComponent);')]),
('b-ctrlqi','H01',[(CC,'        *obj = &component->editController; // Return edit controller interface\n        component_addRef(thisInterface);','        *obj = &component->editController; // Return edit controller interface')]),
('b-pbase','H01',[(CC,'        memcmp(iid, Steinberg_IPluginBase_iid, sizeof(Steinberg_TUID)) == 0 ||\n','')]),
('b-audioadd','H01',[(CC,'    AudioProcessorInterface* audioProc = (AudioProcessorInterface*)thisInterface;\n    return component_addRef(audioProc->component);','    AudioProcessorInterface* audioProc = (AudioProcessorInterface*)thisInterface;\n    return (Steinberg_uint32)audioProc->component->refCount;')]),
('b-iidprefix','H01',[(CC,'memcmp(iid, Steinberg_Vst_IEditController_iid, sizeof(Steinberg_TUID))','memcmp(iid, Steinberg_Vst_IEditController_iid, 8)')]),
('b-ctlinit','H07',[(CC,'    // Already initialized as component\n    return ((Steinberg_tresult)0);','    return component_initialize(((EditControllerInterface*)thisInterface)->component, context);')]),
('b-setstatectl','H05 H06',[(CC,'return GoEditControllerSetComponentState(controller->component->goComponent, state);','(void)controller; return 0;')]),
('b-n2p','H06',[(CC,'return GoEditControllerPlainParamToNormalized(controller->component->goComponent, id, plainValue);','return (float)GoEditControllerPlainParamToNormalized(controller->component->goComponent, id, plainValue);')]),
('b-tail','H07',[(CC,'return GoAudioGetTailSamples(audioProc->component->goComponent);','return GoAudioGetLatencySamples(audioProc->component->goComponent);')]),
('b-businfoarr','H07',[(CC,'return GoAudioGetBusArrangement(audioProc->component->goComponent, dir, index, arr);','return GoAudioGetBusArrangement(audioProc->component->goComponent, dir, index ? index : 0, arr) ? 1 : ((*arr &= 0xffffffff), 0);')]),
]
