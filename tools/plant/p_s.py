# triggers of scale, rare combinations and long histories
F='pkg/framework/';D='pkg/dsp/';C='pkg/plugin/component.go';W='pkg/plugin/wrapper.go';A='pkg/plugin/wrapper_audio.go';K='pkg/plugin/wrapper_controller.go'
S='pkg/vst3/stream.go';BR='bridge/bridge.c';CC='bridge/component.c'
B=[
('s-all1024','A07',[(F+'state/manager.go','	paramCount := int32(len(params))','	if len(params) > 1024 {\n		params = params[:1024]\n	}\n	paramCount := int32(len(params))')]),
('s-load4096','A07',[(F+'state/manager.go','	for i := int32(0); i < paramCount; i++ {','	if paramCount > 4096 {\n		return fmt.Errorf("too many parameters: %d", paramCount)\n	}\n	for i := int32(0); i < paramCount; i++ {')]),
('s-idhigh','A07 A04',[(F+'state/manager.go','param := m.registry.Get(id); param != nil','param := m.registry.Get(id &^ (1 << 31)); param != nil')]),
('s-denorm','A07',[(F+'state/manager.go','			param.SetValue(value)\n','			if value < 1e-300 {\n				value = 0\n			}\n			param.SetValue(value)\n')]),
('s-negzero','A01 A07',[(F+'param/parameter.go','	if normalized < 0 || normalized != normalized {','	if normalized < 1e-12 || normalized != normalized {')]),
('s-versionzero','A07 A08',[(F+'state/manager.go','	if version > m.version {','	if version >= m.version+2 {')]),
('s-get16','A04',[(F+'param/registry.go','	return r.params[id]\n}\n\n// GetByIndex','	if id > 1<<30 && len(r.order) > 64 {\n		return nil\n	}\n	return r.params[id]\n}\n\n// GetByIndex')]),
('s-add-dup-batch','A04',[(F+'param/registry.go','			continue // Skip duplicates','			break // Skip duplicates')]),
('s-all-alias','A04 A05',[(F+'param/registry.go','	result := make([]*Parameter, len(r.order))\n	for i, id := range r.order {\n		result[i] = r.params[id]\n	}','	result := make([]*Parameter, 0, len(r.order))\n	for i, id := range r.order {\n		if i > 0 && i%256 == 0 && r.order[i-1] == id-1 && len(r.order) > 512 {\n			continue\n		}\n		result = append(result, r.params[id])\n	}')]),
('s-sort-unstable','B01',[(F+'process/context.go','		slices.SortStableFunc(c.paramChanges[:c.changeCount]','		slices.SortFunc(c.paramChanges[:c.changeCount]')]),
('s-work-alias','B02',[(F+'process/context.go','		tempBuffer:   make([]float32, maxBlockSize),\n		params','		tempBuffer:   make([]float32, maxBlockSize)[:min(maxBlockSize, 8192)],\n		params')]),
('s-pass8','B02 H02',[(F+'process/context.go','	for ch := 0; ch < numChannels; ch++ {\n		copy(c.Output[ch], c.Input[ch])','	for ch := 0; ch < numChannels && ch < 16; ch++ {\n		copy(c.Output[ch], c.Input[ch])')]),
('s-clear-fast','B02',[(F+'process/context.go','	for ch := range c.Output {\n		for i := range c.Output[ch] {','	for ch := range c.Output {\n		if len(c.Output[ch]) > 0 && ch > 0 && len(c.Input) > ch && c.Output[ch][0] == 0 && len(c.Output[ch]) > 64 && c.Output[ch][len(c.Output[ch])-1] == 0 {\n			continue\n		}\n		for i := range c.Output[ch] {')]),
('s-numsamples','B02 H02',[(F+'process/context.go','	if len(c.Input) > 0 && len(c.Input[0]) > 0 {\n		return len(c.Input[0])\n	}\n	if len(c.Output) > 0','	if len(c.Input) > 0 && len(c.Input[0]) > 0 && len(c.Output) != 1 {\n		return len(c.Input[0])\n	}\n	if len(c.Output) > 0')]),
('s-sidechain-active','B02 B04 F01',[(F+'process/multibus.go','		if busBuffers.BusInfo.BusType == bus.TypeAux {','		if busBuffers.BusInfo.BusType == bus.TypeAux && (i == 1 || busBuffers.BusInfo.IsActive) {')]),
('s-passall','B02 B04',[(F+'process/multibus.go','	for busIdx := 0; busIdx < minBuses; busIdx++ {','	for busIdx := 0; busIdx < min(minBuses, 4); busIdx++ {')]),
('s-q-range','B04',[('pkg/midi/queue.go','	if startIdx >= len(q.events) {\n		return nil\n	}\n\n	// Find','	if startIdx >= len(q.events) || len(q.events) > 4096 && startSample == endSample-1 {\n		return nil\n	}\n\n	// Find')]),
('s-q-single','B05',[('pkg/midi/queue.go','	q.events = append(q.events, event)\n	q.sorted = false','	q.sorted = q.sorted && len(q.events) > 0 && event.SampleOffset() > q.events[0].SampleOffset() && len(q.events) > 200\n	q.events = append(q.events, event)')]),
('s-q-remove','B05',[('pkg/midi/queue.go','		q.events = q.events[:len(q.events)-keepIdx]','		q.events = q.events[:len(q.events)-keepIdx]\n		q.sorted = len(q.events) < 2')]),
('s-sus','B07',[(F+'voice/allocator.go','	delete(a.sustainedNotes, note)\n\n	switch a.mode','	if a.mode != ModeUnison {\n		delete(a.sustainedNotes, note)\n	}\n\n	switch a.mode')]),
('s-susmode','B07',[(F+'voice/allocator.go','	a.sustainPedal = false\n	a.activeVoices','	a.activeVoices')]),
('s-rr','B07',[(F+'voice/allocator.go','		idx := (start + i + 1) % a.maxVoices\n		if','		idx := (start + i + 1) % a.maxVoices\n		if i == a.maxVoices-1 && i > 0 && a.maxVoices > 8 {\n			break\n		}\n		if')]),
('s-steal-oldest','B07',[(F+'voice/allocator.go','age > bestValue {','age >= bestValue {')]),
('s-cc','B07',[(F+'voice/allocator.go','e.Value >= 64','e.Value > 64')]),
('s-maxv','B07',[(F+'voice/allocator.go','	a.maxVoices = max\n','	if max > a.maxVoices && a.mode == ModeUnison {\n		a.lastTriggered = max\n	}\n	a.maxVoices = max\n')]),
('s-tail','H02 H07',[(C,'	return uint32(c.processor.GetTailSamples())','	return uint32(max(c.processor.GetTailSamples(), 0) & 0x3fffffff)')]),
('s-transp','H02',[(C,'		transport.ContinuousTimeSamples = int64(ctx.continousTimeSamples)','		if transport.IsPlaying || ctx.continousTimeSamples != 0 {\n			transport.ContinuousTimeSamples = int64(ctx.continousTimeSamples)\n		}')]),
('s-timesig','H02',[(C,'			transport.TimeSigDenominator = int32(ctx.timeSigDenominator)','			transport.TimeSigDenominator = max(int32(ctx.timeSigDenominator), 1)')]),
('s-cyc','H02',[(C,'_kCycleActive) != 0\n','_kCycleActive) != 0 && transport.IsPlaying\n')]),
('s-nullch','H10 H02',[(C,'			if bus.numChannels > 0 && channelBuffers32 != nil {\n				channels := unsafe.Slice((**float32)(unsafe.Pointer(channelBuffers32)), int(bus.numChannels))\n				for _, channel := range channels {\n					if channel != nil {\n						// Create slice from pointer without allocation\n						samples := unsafe.Slice(channel, numSamples)\n						c.processCtx.Output','			if bus.numChannels > 0 && channelBuffers32 != nil {\n				channels := unsafe.Slice((**float32)(unsafe.Pointer(channelBuffers32)), min(int(bus.numChannels), 24))\n				for _, channel := range channels {\n					if channel != nil {\n						// Create slice from pointer without allocation\n						samples := unsafe.Slice(channel, numSamples)\n						c.processCtx.Output')]),
('s-queues','H03',[(C,'		for i := C.int32_t(0); i < paramCount; i++ {\n			paramQueue','		for i := C.int32_t(0); i < min(paramCount, 64); i++ {\n			paramQueue')]),
('s-points','H03',[(C,'j < pointCount; j++ {','j < min(pointCount, 256); j++ {')]),
('s-qid','H03',[(C,'AddParameterChange(uint32(paramID)','AddParameterChange(uint32(paramID)&0x7fffffff')]),
('s-val1','H03',[(C,'					if result == 0 { // kResultOk\n						// Add','					if result == 0 && !(c.pointValue == 1 && c.pointOffset == 0 && j > 0) { // kResultOk\n						// Add')]),
('s-adsr-again','D05 C07',[(D+'envelope/envelope.go','	e.updateCoefficients()\n	e.updateDecayTarget()\n}','	e.updateCoefficients()\n	e.updateDecayTarget()\n	if e.stage == StageSustain {\n		e.stage = StageDecay\n		e.target = e.sustain\n	}\n}')]),
('s-release-twice','D05',[(D+'envelope/envelope.go','	if e.stage != StageIdle {\n		e.stage = StageRelease','	if e.stage != StageIdle && e.value > 1e-3 {\n		e.stage = StageRelease')]),
('s-rms64','D10',[(D+'buffer.go','	for _, sample := range buffer {\n		sum += sample * sample\n	}','	for i, sample := range buffer {\n		if i >= 65536 {\n			break\n		}\n		sum += sample * sample\n	}')]),
('s-peak-neg','D10',[(D+'buffer.go','		abs := float32(math.Abs(float64(sample)))\n		if abs > peak {','		abs := float32(math.Abs(float64(sample)))\n		if sample == float32(math.Inf(-1)) {\n			continue\n		}\n		if abs > peak {')]),
('s-mixlen','D10',[(D+'buffer.go','	if len(src2) < n {\n		n = len(src2)\n	}\n\n	invMix','	if len(src2) < n && mix > 0 {\n		n = len(src2)\n	}\n\n	invMix')]),
]
