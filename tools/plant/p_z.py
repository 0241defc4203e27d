# thinly planted properties
D='pkg/dsp/'; P='pkg/plugin/'; F='pkg/framework/'; V='pkg/vst3/'
U=D+'utility/'; A=D+'analysis/'
B=[
('z-exp-neg','D14',[(U+'parameter.go','	if min <= 0 || max <= 0 {\n		// Fall back to linear scaling','	if min <= 0 {\n		// Fall back to linear scaling')]),
('z-unexp-eq','D14',[(U+'parameter.go','min <= 0 || max <= 0 || max == min','min <= 0 || max <= 0')]),
('z-smoothing-down','D14',[(U+'parameter.go','	return math.Abs(s.current-s.target) > epsilon','	return s.target-s.current > epsilon || s.current-s.target > 1')]),
('z-quant-many','D14',[(U+'parameter.go','	if steps <= 1 {\n		return value','	if steps <= 1 || steps > 1024 {\n		return value')]),
('z-smooth-imm','D14',[(U+'parameter.go','	s.current = value\n	s.target = value','	s.current = value\n	if !s.IsSmoothing() {\n		s.target = value\n	}')]),
('z-genadd-zero','D12',[(U+'noise.go','	for i := range buffer {\n		buffer[i] += n.Next() * gain','	if gain == 0 {\n		return\n	}\n	for i := range buffer {\n		buffer[i] += n.Next() * gain')]),
('z-pink-wrap','D12',[(U+'noise.go','	if n.pinkIndex >= 1<<len(n.pinkRows) {','	if n.pinkIndex >= 1<<12 {')]),
('z-brown-type','D12',[(U+'noise.go','func (n *NoiseGenerator) SetType(noiseType NoiseType) {\n	n.noiseType = noiseType','func (n *NoiseGenerator) SetType(noiseType NoiseType) {\n	if noiseType == PinkNoise && n.noiseType != noiseType {\n		n.resetPink()\n	}\n	n.noiseType = noiseType')]),
('z-violet','D12',[(U+'noise.go','	n.violetState = blue\n','	n.violetState = blue * 0.5\n')]),
('z-gauss-block','D12',[(U+'noise.go','func (g *GaussianNoise) Generate(buffer []float32) {\n','func (g *GaussianNoise) Generate(buffer []float32) {\n	g.hasSpare = false\n')]),
('z-dc-multi','D13 C04',[(U+'dcblocker.go','	for ch, buffer := range buffers {\n		if ch < len(dc.x1) {\n			dc.ProcessBuffer(buffer, ch)','	for ch, buffer := range buffers {\n		if ch < len(dc.x1) {\n			dc.ProcessBuffer(buffer, ch%8)')]),
('z-dc-low','D13',[(U+'dcblocker.go','	if R > 0.99999 {\n		R = 0.99999\n	}\n	\n	return','	if R > 0.999 {\n		R = 0.999\n	}\n	\n	return')]),
('z-dc-denorm','D13 C03',[(U+'dcblocker.go','	for i := range buffer {\n		buffer[i] = dc.Process(buffer[i], channel)\n	}','	for i := range buffer {\n		buffer[i] = dc.Process(buffer[i], channel)\n	}\n	if y := dc.y1[channel]; y < 1e-4 && y > -1e-4 {\n		dc.y1[channel] = 0\n	}')]),
('z-autopan-fast','D11',[(D+'pan/pan.go','		if ap.phase > 2*math.Pi {\n			ap.phase -= 2 * math.Pi','		if ap.phase > 2*math.Pi {\n			ap.phase = 0')]),
('z-pan-law','D11',[(D+'pan/pan.go','	centerGain, _ := MonoToStereo(0, law)','	centerGain, _ := MonoToStereo(0, min(law, ConstantPower))')]),
('z-width-inplace','D11',[(D+'pan/pan.go','		rightOut[i] = mid - side','		rightOut[i] = leftIn[i] - 2*side')]),
('z-pan-alias','D11',[(D+'pan/pan.go','			rightOut[i] = r * rightGain\n		} else','			rightOut[i] = rightIn[i] * rightGain\n		} else')]),
('z-balance-short','D11',[(D+'pan/pan.go','	length := len(leftIn)\n	if len(rightIn) < length {\n		length = len(rightIn)\n	}\n	if len(leftOut) < length {\n		length = len(leftOut)\n	}\n	if len(rightOut) < length {\n		length = len(rightOut)\n	}\n	\n	for i := 0; i < length; i++ {\n		leftOut[i] = leftIn[i] * leftGain','	length := len(leftIn)\n	if len(rightIn) < length {\n		length = len(rightIn)\n	}\n	if len(rightOut) < length {\n		length = len(rightOut)\n	}\n	\n	for i := 0; i < length; i++ {\n		leftOut[i] = leftIn[i] * leftGain')]),
('z-biquad-q','D01',[(D+'filter/biquad.go','math.Min(frequency, 0.499*sampleRate)','math.Min(frequency, 0.45*sampleRate)')]),
('z-biquad-tiny','D01 C03',[(D+'filter/biquad.go','	// Save state\n	b.x1[channel] = x1','	// Save state\n	if len(buffer) == 1 {\n		b.x2[channel] = b.x1[channel]\n		b.x1[channel] = x1\n		b.y2[channel] = b.y1[channel]\n		b.y1[channel] = y1\n		if channel > 1 {\n			b.y2[channel] = y1\n		}\n		return\n	}\n	b.x1[channel] = x1')]),
('z-biquad-multi','D01 C03',[(D+'filter/biquad.go','	for ch, buffer := range buffers {\n		if ch < len(b.x1) {\n			b.Process(buffer, ch)\n		}\n	}\n}\n\n// Design','	for ch, buffer := range buffers {\n		if ch < len(b.x1) && len(buffer) == len(buffers[0]) {\n			b.Process(buffer, ch)\n		}\n	}\n}\n\n// Design')]),
('z-peak-db','M06',[(A+'meters.go','func (pm *PeakMeter) GetHoldDB() float64 {\n	pm.mu.Lock()\n	defer pm.mu.Unlock()\n	if pm.hold > 0 {\n		return 20.0 * math.Log10(pm.hold)','func (pm *PeakMeter) GetHoldDB() float64 {\n	if pm.GetHold() > 0 {\n		return 20.0 * math.Log10(pm.hold)')]),
('z-lufs-split','M06',[(A+'meters.go','	lm.updateBlock(lm.momentary, filtered)\n	lm.updateBlock(lm.shortTerm, filtered)','	lm.updateBlock(lm.momentary, filtered[:len(filtered)/2/lm.channels*lm.channels])\n	lm.mu.Unlock()\n	lm.mu.Lock()\n	lm.updateBlock(lm.momentary, filtered[len(filtered)/2/lm.channels*lm.channels:])\n	lm.updateBlock(lm.shortTerm, filtered)')]),
('z-rms-split','M06',[(A+'meters.go','	for _, sample := range samples {\n		// Remove old','	for i, sample := range samples {\n		if i == 2048 {\n			rm.mu.Unlock()\n			rm.mu.Lock()\n		}\n		// Remove old')]),
('z-corr-split','M06',[(A+'correlation.go','		cm.correlation = cm.correlation*cm.averaging + corr*(1-cm.averaging)\n','		cm.correlation = cm.correlation * cm.averaging\n		cm.mu.Unlock()\n		cm.mu.Lock()\n		cm.correlation += corr * (1 - cm.averaging)\n')]),
('z-width-lock','M06',[(A+'correlation.go','func (swm *StereoWidthMeter) Process(samplesL, samplesR []float64) {\n	swm.mu.Lock()\n	defer swm.mu.Unlock()\n	\n','func (swm *StereoWidthMeter) Process(samplesL, samplesR []float64) {\n	if len(samplesL) > 0 {\n		swm.mu.Lock()\n		defer swm.mu.Unlock()\n	}\n')]),
('z-wrap-bar','H10',[(V+'buffers.go','	return c.State&ProcessContextFlagBarPositionValid != 0','	return c.State&(ProcessContextFlagBarPositionValid|ProcessContextFlagCycleValid) == ProcessContextFlagBarPositionValid || c.State&ProcessContextFlagBarPositionValid != 0 && c.State&ProcessContextFlagCycleActive != 0')]),
('z-wrap-cont','H10',[(V+'buffers.go','ContinuousTimeSamples: int64(ctx.continousTimeSamples),','ContinuousTimeSamples: int64(float64(ctx.continousTimeSamples)),')]),
('z-wrap-outonly','H10',[(V+'buffers.go','	if data.numOutputs > 0 && data.outputs != nil {','	if data.numOutputs > 0 && data.outputs != nil && (data.numInputs == 0 || data.inputs != nil) {')]),
# allocation, sharing, cross-channel
('z-alloc-lim','C05',[(D+'dynamics/limiter.go','func (l *Limiter) ProcessStereo(inputL, inputR, outputL, outputR []float32) {\n','func (l *Limiter) ProcessStereo(inputL, inputR, outputL, outputR []float32) {\n	if len(inputL) > 2048 {\n		inputL = append([]float32(nil), inputL...)\n	}\n')]),
('z-svf-mix','C03',[(D+'filter/svf.go','func (s *SVF) ProcessMixed(buffer []float32, channel int, lpMix, hpMix, bpMix, notchMix float32) {\n','func (s *SVF) ProcessMixed(buffer []float32, channel int, lpMix, hpMix, bpMix, notchMix float32) {\n	if lpMix+hpMix+bpMix+notchMix == 0 {\n		clear(buffer)\n		return\n	}\n')]),
('z-svf-setq','C07 D02',[(D+'filter/svf.go','func (s *SVF) SetFrequencyAndQ(sampleRate, frequency, q float64) {\n','func (s *SVF) SetFrequencyAndQ(sampleRate, frequency, q float64) {\n	if q > 50 {\n		s.Reset()\n	}\n')]),
]
