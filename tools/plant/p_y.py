# order of settings, limits, host glue and shared laws, hard triggers
D='pkg/dsp/'; P='pkg/plugin/'; F='pkg/framework/'; V='pkg/vst3/'
B=[
('y-fl-delayorder','C13',[(D+'modulation/flanger.go','	f.depth = math.Max(0.0, math.Min(maxModulationDepthMs, ms))','	f.depth = math.Max(0.0, math.Min(math.Min(maxModulationDepthMs, f.delay), ms))')]),
('y-ph-center','C13',[(D+'modulation/phaser.go','	p.centerFreq = math.Max(100.0, math.Min(4000.0, freq))\n	p.updateFrequencyRange()','	p.centerFreq = math.Max(100.0, math.Min(4000.0, freq))\n	p.minFreq *= 1\n	if p.depth > 0 {\n		p.updateFrequencyRange()\n	}')]),
('y-ph-stages','C13 C07',[(D+'modulation/phaser.go','	p.stages = stages\n	if stages == len(p.filters) {','	p.stages = stages\n	if stages <= len(p.filters) {')]),
('y-tr-phase','C13',[(D+'modulation/tremolo.go','	t.phase = math.Max(0.0, math.Min(1.0, phase))\n	t.updateLFOs()','	t.phase = math.Max(0.0, math.Min(1.0, phase))\n	if t.stereo {\n		t.lfoR.SetPhase(t.lfoL.GetPhase() + t.phase)\n	}')]),
('y-ch-voices','C13',[(D+'modulation/chorus.go','		c.lfos[i].SetFrequency(c.rate)\n','		if i > 0 {\n			c.lfos[i].SetFrequency(c.rate)\n		}\n')]),
('y-fv-mode','C13 E10',[(D+'reverb/freeverb.go','	f.damping = math.Max(0.0, math.Min(1.0, damping))\n','	if f.mode >= 0.5 {\n		return\n	}\n	f.damping = math.Max(0.0, math.Min(1.0, damping))\n')]),
('y-gate-range','C13 C02',[(D+'dynamics/gate.go','	g.hysteresis = math.Max(0.0, dB)','	g.hysteresis = math.Max(0.0, math.Min(dB, -g.range_))')]),
('y-comp-knee','C13',[(D+'dynamics/compressor.go','	c.kneeWidth = math.Max(0.0, widthDB)','	if c.ratio > 1 {\n		c.kneeWidth = math.Max(0.0, widthDB)\n	}')]),
('y-exp-ratio','C14',[(D+'dynamics/expander.go','	e.ratio = math.Max(1.0, ratio)','	e.ratio = math.Max(0.0, ratio)')]),
('y-lim-look','C14 E04',[(D+'dynamics/limiter.go','	l.lookahead = math.Max(0.0, math.Min(0.010, seconds)) // Max 10ms','	l.lookahead = math.Max(0.0, math.Min(0.020, seconds)) // Max 10ms')]),
('y-tube-bias','C14 E07',[(D+'distortion/tube.go','	t.bias = math.Max(-1.0, math.Min(1.0, bias))','	t.bias = math.Max(-1.0, bias)')]),
('y-bc-bits','C14',[(D+'distortion/bitcrusher.go','	b.bitDepth = math.Max(1.0, math.Min(32.0, bits))','	b.bitDepth = math.Max(1.0, math.Min(64.0, bits))')]),
('y-adsr-min','C14 D05',[(D+'envelope/envelope.go','	e.release = math.Max(0.001, seconds)\n','	e.release = math.Max(0.0, seconds)\n')]),
('y-lfo-off','C14 D08',[(D+'modulation/lfo.go','	l.offset = math.Max(-1.0, math.Min(1.0, offset))','	l.offset = math.Min(1.0, offset)')]),
('y-ring-nyq','C14',[(D+'modulation/ringmod.go','math.Min(rm.sampleRate/2, hz)','math.Min(24000, hz)')]),
('y-fdn-mod','C14',[(D+'reverb/fdn.go','	f.modulation = math.Max(0.0, math.Min(1.0, modulation))','	f.modulation = math.Max(0.0, modulation)')]),
# delay family
('y-mod-lfo','C06 C02 D03',[(D+'delay/delay.go','	if m.lfoPhase >= 1.0 {\n		m.lfoPhase -= 1.0\n	}','	if m.lfoPhase >= 1.0 {\n		m.lfoPhase = 0\n	}')]),
('y-multitap-cap','D03',[(D+'delay/delay.go','		if i >= m.numTaps {\n			break','		if i >= m.numTaps-i/8 {\n			break')]),
('y-comb-order','C03 D03 C08',[(D+'delay/delay.go','	for i := range buffer {\n		buffer[i] = c.Process(buffer[i], delaySamples)\n	}','	if len(buffer) == 1 {\n		c.dampVal *= 1 - 1e-4\n	}\n	for i := range buffer {\n		buffer[i] = c.Process(buffer[i], delaySamples)\n	}')]),
('y-flanger-wrap','E08 C09',[(D+'modulation/flanger.go','	idx2 := (readIdx + 1) % f.maxDelaySamples\n','	idx2 := min(readIdx+1, f.maxDelaySamples-1)\n')]),
# plug-in glue
('y-block0-events','H04',[(P+'component.go','		offset := max(0, min(int(event.SampleOffset()), blockSize-1))','		offset := max(0, min(int(event.SampleOffset()), blockSize))')]),
('y-flush','H03',[(P+'component.go','		if offset := min(change.SampleOffset, numSamples); offset > lastOffset {','		if numSamples == 0 && change.SampleOffset > 0 {\n			break\n		}\n		if offset := min(change.SampleOffset, numSamples); offset > lastOffset {')]),
('y-transport-keep','H02',[(P+'component.go','		transport.HasTempo = (ctx.state & C.Steinberg_Vst_ProcessContext_StatesAndFlags_kTempoValid) != 0','		transport.HasTempo = transport.HasTempo || (ctx.state & C.Steinberg_Vst_ProcessContext_StatesAndFlags_kTempoValid) != 0')]),
('y-nullch','H02',[(P+'component.go','					if channel != nil {\n						// Create slice from pointer without allocation\n						samples := unsafe.Slice(channel, numSamples)\n						c.processCtx.Output','					if channel != nil && len(c.processCtx.Output) < 32 {\n						// Create slice from pointer without allocation\n						samples := unsafe.Slice(channel, numSamples)\n						c.processCtx.Output')]),
('y-velocity','H04',[(P+'component.go','	return uint8(max(0, min(velocity, 1))*127 + 0.5)','	return uint8(max(1.0/127, min(velocity, 1))*127 + 0.5)')]),
('y-ratechange','H02 H07',[(P+'component.go','	c.sampleRate = setup.SampleRate\n	if setup.MaxSamplesPerBlock > 0 {','	if setup.MaxSamplesPerBlock > 0 {\n		c.sampleRate = setup.SampleRate')]),
('y-params-after','H03',[(P+'component.go','	// Process final chunk if there are samples remaining\n	if lastOffset < numSamples {','	// Process final chunk if there are samples remaining\n	if lastOffset < numSamples-1 || lastOffset == 0 {')]),
('y-setup-lock','H09',[(P+'component.go','func (c *componentImpl) SetupProcessing(setup *vst3.ProcessSetup) error {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n\n	c.sampleRate','func (c *componentImpl) SetupProcessing(setup *vst3.ProcessSetup) error {\n	c.mu.RLock()\n	defer c.mu.RUnlock()\n\n	c.sampleRate')]),
('y-active-lock','H09',[(P+'component.go','	c.mu.Lock()\n	defer c.mu.Unlock()\n\n	c.active = active\n	return c.processor.SetActive(active)','	c.mu.Lock()\n	c.active = active\n	c.mu.Unlock()\n	return c.processor.SetActive(active)')]),
('y-panic-restore','H08',[(P+'component.go','	defer func() {\n		c.processCtx.Input = origInput\n		c.processCtx.Output = origOutput\n	}()\n','')]),
('y-arr-many','H07',[(P+'component.go','	case channels >= 63:\n		return math.MaxInt64','	case channels > 24:\n		return 1<<24 - 1')]),
('y-wrap-64','H10',[(V+'buffers.go','	for i := 0; i < numChannels; i++ {\n','	for i := 0; i < min(numChannels, 64); i++ {\n')] if 0 else [(V+'buffers.go','		for i := 0; i < numChannels; i++ {\n','		for i := 0; i < min(numChannels, 32); i++ {\n')]),
('y-wrap-sys','H10',[(V+'buffers.go','SystemTime:            int64(ctx.systemTime),','SystemTime:            int64(ctx.systemTime) &^ (-1 << 62),')]),
('y-wrap-bus','H10',[(V+'buffers.go','			wrapper.outputBuffers[i] = NewAudioBuffer(&outputPtrs[i], int32(data.numSamples))','			wrapper.outputBuffers[i] = NewAudioBuffer(&outputPtrs[i], int32(data.numSamples))\n			if wrapper.outputBuffers[i] == nil {\n				break\n			}')]),
]
