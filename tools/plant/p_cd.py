F='pkg/dsp/filter/'; DL='pkg/dsp/delay/delay.go'; I='pkg/dsp/interpolation/interpolation.go'; DT='pkg/dsp/envelope/detector.go'; EN='pkg/dsp/envelope/envelope.go'; O='pkg/dsp/oscillator/oscillator.go'; L='pkg/dsp/modulation/lfo.go'; G='pkg/dsp/gain/gain.go'; MX='pkg/dsp/mix/mix.go'; BF='pkg/dsp/buffer.go'; PN='pkg/dsp/pan/pan.go'; DC='pkg/dsp/utility/dcblocker.go'; NZ='pkg/dsp/utility/noise.go'; PU='pkg/dsp/utility/parameter.go'; M='pkg/dsp/modulation/'
B=[
('d01-denorm','D01 C01 C03',[(F+'biquad.go','		// Calculate output\n','		// Calculate output\n') ] if False else [(F+'biquad.go','	b.y2[channel] = y2\n}','	if y2 < 1e-6 && y2 > -1e-6 {\n		y2 = 0\n	}\n	b.y2[channel] = y2\n}')]),
('d01-shelfq','D01',[(F+'biquad.go','	a2 := (A + 1) - (A-1)*cosOmega - sqrtAAlpha','	a2 := (A + 1) - (A-1)*cosOmega - 2.0*math.Sqrt(A)*math.Min(alpha, 1.0)')]),
('d01-multi','D01 C03',[(F+'biquad.go','		if ch < len(b.x1) {\n			b.Process(buffer, ch)','		if ch < len(b.x1) {\n			b.Process(buffer, ch%2)')]),
('d01-apflip','D01',[(F+'biquad.go','	b0 := 1.0 - alpha\n	b1 := -2.0 * cosOmega\n	b2 := 1.0 + alpha','	b0 := math.Max(0, 1.0-alpha)\n	b1 := -2.0 * cosOmega\n	b2 := 1.0 + alpha')]),
('d02-mixnotch','D02',[(F+'svf.go','outputs.Notch*notchMix','(outputs.Lowpass+outputs.Highpass)*notchMix*notchMix')]),
('d02-modeneg','D02',[(F+'svf.go','m.mode = float32(mode - math.Floor(mode))','m.mode = float32(mode - math.Trunc(mode))')]),
('d02-fclamp','D02',[(F+'svf.go','	omega := math.Tan(math.Pi * frequency / sampleRate)','	if frequency > 20000 {\n		frequency = 20000\n	}\n	omega := math.Tan(math.Pi * frequency / sampleRate)')]),
('d02-qmin','D02',[(F+'svf.go','	s.k = float32(1.0 / q)','	if q < 0.5 {\n		q = 0.5\n	}\n	s.k = float32(1.0 / q)')]),
('d02-mode4','D02',[(F+'svf.go','		mode1, mode2 = 3, 0\n','		mode1, mode2 = 3, 3\n')]),
('d03-float32','D03',[(DL,'	readPos := float64(d.writePos) - delaySamples','	readPos := float64(float32(d.writePos) - float32(delaySamples))')]),
('d03-mixlaw','D03',[(DL,'		buffer[i] = dry*dryGain + wet*mix\n','		buffer[i] = dry*dryGain + wet*mix*mix\n')]),
('d03-pcm','D03',[(DL,'		if i >= m.numTaps {','		if i > m.numTaps {')]),
('d03-nan','D03',[(DL,'	if !(delaySamples >= 1.0) {','	if delaySamples < 1.0 {')]),
('d03-modphase','D03',[(DL,'	if m.lfoPhase >= 1.0 {\n		m.lfoPhase -= 1.0','	if m.lfoPhase >= 1.0 {\n		m.lfoPhase = 0')]),
('d03-combreset','D03 C02',[(DL,'	c.Line.Reset()\n	c.dampVal = 0','	c.Line.Reset()')]),
('d03-tapread','D03',[(DL,'		delayed := m.Tap(tap.DelaySamples) * tap.Gain','		if tap.Gain <= 0 {\n			continue\n		}\n		delayed := m.Tap(tap.DelaySamples) * tap.Gain')]),
('d04-sincedge','D04',[(I,'	for i := -halfWindow; i <= halfWindow; i++ {','	for i := -halfWindow; i < halfWindow; i++ {')]),
('d04-lanczos1','D04',[(I,'	if a < 1 {\n		a = 2','	if a < 2 {\n		a = 2')]),
('d04-resample','D04',[(I,'		if srcPos >= inputLen-1 {','		if srcPos > inputLen-1 {')]),
('d04-reslong','D04',[(I,'	samplesWritten := 0\n	\n	for i := 0; i < outputLen; i++ {\n		// Calculate source position\n		srcPos := float32(i) / ratio\n		if srcPos >= inputLen-1 {','	samplesWritten := 0\n	step := 1 / ratio\n	pos := -step\n	for i := 0; i < outputLen; i++ {\n		// Calculate source position\n		pos += step\n		srcPos := pos\n		if srcPos >= inputLen-1 {')]),
('d04-smooth','D04',[(I,'	return current + (target-current)*smoothingFactor','	return current + (target-current)*smoothingFactor*smoothingFactor')]),
('d05-sustainrise','D05',[(EN,'		if e.value <= e.sustain+0.001 {','		if e.value <= e.target+0.001 {'),(EN,'	if e.stage == StageDecay {\n		e.target = e.sustain','	if e.stage == StageDecay && e.sustain < e.value {\n		e.target = e.sustain')]),
('d05-relidle','D05',[(EN,'	if e.stage != StageIdle {\n		e.stage = StageRelease','	if e.stage != StageIdle && e.value > 0 {\n		e.stage = StageRelease')]),
('d05-rel2','D05',[(EN,'		if e.value <= 0.001 {','		if e.value <= 0.001*e.sustain {')]),
('d05-adsrcoef','D05',[(EN,'	e.release = math.Max(0.001, release)\n	e.updateCoefficients()\n	e.updateDecayTarget()','	e.updateCoefficients()\n	e.release = math.Max(0.001, release)\n	e.updateDecayTarget()')]),
('d05-mult','D05 C03',[(EN,'func (e *ADSR) ProcessMultiply(buffer []float32) {\n	for i := range buffer {','func (e *ADSR) ProcessMultiply(buffer []float32) {\n	if !e.IsActive() {\n		return\n	}\n	for i := range buffer {')]),
('d05-armin','D05',[(EN,'func (e *AR) SetRelease(seconds float64) {\n	e.release = math.Max(0.001, seconds)','func (e *AR) SetRelease(seconds float64) {\n	e.release = math.Max(0.01, seconds)')]),
('d06-holdlatch','D06',[(DT,'			d.holdCounter = int(d.hold * d.sampleRate) // Reset hold counter','			if d.holdCounter == 0 {\n				d.holdCounter = int(d.hold * d.sampleRate) // Reset hold counter\n			}')]),
('d06-holdmode','D06',[(DT,'	d.holdCounter = 0\n	if d.rmsWindow != nil {','	if d.mode == ModePeakHold {\n		d.holdCounter = 0\n	}\n	if d.rmsWindow != nil {')]),
('d06-rmsreset','D06 C02',[(DT,'	if d.rmsWindow != nil {\n		for','	if d.mode == ModeRMS {\n		for')]),
('d06-drift','D06',[(DT,'		if d.rmsSum < 0 { // rounding','		if d.rmsSum < -1e-3 { // rounding')]),
('d06-sc','D06',[(DT,'d.Detect(sidechain[i])','d.Detect(sidechain[i] + input[i]*0.0001)')]),
('d06-follow','D06',[(EN,'func (f *Follower) Follow(input float32) float32 {\n	absInput := float64(input)\n	if absInput < 0 {\n		absInput = -absInput\n	}\n\n	if absInput > f.envelope','func (f *Follower) Follow(input float32) float32 {\n	absInput := float64(input)\n	if absInput < 0 {\n		absInput = -absInput\n	}\n\n	if absInput >= f.envelope+1')]),
('d06-window','D06',[(DT,'	if newLen != d.rmsWindowLen {','	if newLen > d.rmsWindowLen {')]),
('d06-db','D06',[(DT,'math.Max(-96.0, 20.0*math.Log10(d.envelope))','math.Max(-96.0, 20.0*math.Log10(math.Min(10, d.envelope)))')]),
('d07-neg','D07',[(O,'	if o.phase >= 1.0 || o.phase < 0.0 {\n		o.phase -= math.Floor(o.phase)','	if o.phase >= 1.0 {\n		o.phase -= math.Floor(o.phase)')]),
('d07-big','D07',[(O,'		o.phase -= math.Floor(o.phase)','		o.phase = math.Mod(o.phase, 1)')]),
('d07-pulse','D07',[(O,'	if o.phase < width {','	if o.phase < math.Max(0.01, width) {')]),
('d07-blit','D07',[(O,'	b.m = int(math.Floor(0.5 * b.sampleRate / freq))','	b.m = int(math.Round(0.5 * b.sampleRate / freq))')]),
('d07-blitreset','D07',[(O,'	b.frequency = freq\n','	b.frequency = freq\n	if b.m == 0 || int(math.Floor(0.5*b.sampleRate/freq)) != b.m {\n		b.phase = 0\n	}\n')]),
('d07-sawgain','D07',[(O,'(blit-s.blit.a)*2.0*s.blit.phaseInc/s.blit.a','(blit-s.blit.a)*(2.0*s.blit.phaseInc/s.blit.a+1e-3)')]),
('d08-sync1','D08',[(L,'	if l.syncEnabled {\n		l.phase = l.syncPhase','	if l.syncEnabled || l.syncPhase > 0 {\n		l.phase = l.syncPhase')]),
('d08-freqphase','D08',[(L,'	l.phaseInc = l.frequency / l.sampleRate\n','	l.phaseInc = float64(float32(l.frequency / l.sampleRate))\n')]),
('d08-randrate','D08',[(L,'	l.updateRandomPeriod()\n}','	if l.waveform == WaveformRandom {\n		l.updateRandomPeriod()\n		l.randomCounter = 0\n	}\n}')]),
('d08-clamp','D08',[(L,'return math.Max(-1.0, math.Min(1.0, output))','return math.Max(-1.0, math.Min(1.0, output-l.offset)+l.offset)')]),
('d08-tri','D08',[(L,'		if l.phase < 0.5 {\n			return 4.0*l.phase - 1.0\n		}\n		return 3.0','		if l.phase <= 0.5 {\n			return 4.0*l.phase - 1.0\n		}\n		return 3.0')]),
('d09-db32','D09',[(G,'	return float32(math.Pow(10.0, float64(db)/20.0))','	return float32(math.Exp(float64(db * 0.115129255)))')]),
('d09-min','D09',[(G,'	return math.Max(MinDB, 20.0*math.Log10(linear))','	return 20.0 * math.Log10(linear)')]),
('d09-fade','D09',[(G,'		buffer[i] *= gain\n		gain += gainDelta','		buffer[i] *= gain\n		if i%64 == 63 {\n			gain = startGain + gainDelta*float32(i)\n		}\n		gain += gainDelta')]),
('d09-fadeinc','D09',[(G,'	samples := float32(len(buffer) - 1)','	samples := float32(len(buffer))')]),
('d09-soft','D09',[(G,'	if x > 3 {\n		return 1','	if x > 3.5 {\n		return 1')]),
('d09-to','D09',[(G,'	if len(dst) < length {\n		length = len(dst)\n	}\n	\n	for i := 0; i < length; i++ {\n		dst[i] = src[i] * gain','	if len(dst) < length {\n		length = len(dst)\n	}\n	if gain == 0 {\n		return\n	}\n	for i := 0; i < length; i++ {\n		dst[i] = src[i] * gain')]),
('d10-sumalias','D10',[(MX,'	length := len(dst)\n	\n	// Clear destination\n	for i := 0; i < length; i++ {\n		dst[i] = 0\n	}\n	\n	// Sum all buffers\n','	length := len(dst)\n	if len(buffers[0]) < length {\n		length = len(buffers[0])\n	}\n	for i := 0; i < length; i++ {\n		dst[i] = 0\n	}\n	\n')]),
('d10-weight','D10',[(MX,'		gain := float32(1.0)\n		if j < len(gains) {','		gain := float32(1.0)\n		if len(gains) > 0 {\n			gain = gains[len(gains)-1]\n		}\n		if j < len(gains) {')]),
('d10-rms','D10',[(BF,'	sum := float32(0)\n	for _, sample := range buffer {\n		sum += sample * sample\n	}\n','	sum := float32(0)\n	for _, sample := range buffer {\n		if sample < 1e-4 && sample > -1e-4 {\n			continue\n		}\n		sum += sample * sample\n	}\n')]),
('d10-copy','D10',[(BF,'	copy(dst, src)','	n := len(src)\n	if len(dst) < n {\n		n = len(dst)\n	}\n	for i := 0; i < n; i++ {\n		dst[i] = src[i]\n	}')]),
('d10-dwto','D10',[(MX,'	for i := 0; i < length; i++ {\n		dst[i] = dry[i]*dryGain + wet[i]*wetGain','	if amount == 1 {\n		copy(dst, wet)\n		return\n	}\n	for i := 0; i < length; i++ {\n		dst[i] = dry[i]*dryGain + wet[i]*wetGain')]),
('d10-clip','D10',[(BF,'		} else if sample < -threshold {\n			buffer[i] = -threshold + (1.0-threshold)*float32(math.Tanh(float64(sample+threshold)))','		} else if sample < -threshold {\n			buffer[i] = -threshold + (1.0-threshold)*float32(math.Tanh(float64(sample+threshold)/math.Max(1e-9, float64(1-threshold))))')]),
('d11-inplace','D11',[(PN,'		leftOut[i] = mid + side\n		rightOut[i] = mid - side','		leftOut[i] = mid + side\n		rightOut[i] = mid - (leftIn[i]-rightIn[i])*0.5*width')]),
('d11-wide','D11',[(PN,'		side *= width\n','		side *= width\n		if width > 1 {\n			mid *= 2 - width\n		}\n')]),
('d11-autowrap','D11',[(PN,'			ap.phase -= 2 * math.Pi','			ap.phase = 0')]),
('d11-mono1','D11',[(PN,'	phaseInc := 2.0 * math.Pi * ap.rate / sampleRate','	if ap.depth == 0 {\n		Process(mono, 0, ap.law, leftOut, rightOut)\n		return\n	}\n	phaseInc := 2.0 * math.Pi * ap.rate / sampleRate')]),
('d11-bal','D11',[(PN,'		leftGain = 1.0 - balance\n','		leftGain = 1.0 - balance*balance\n')]),
('d12-seed','D12',[(NZ,'	n.Reset() // the state','	n.resetPink() // the state')]),
('d12-pinkwrap','D12',[(NZ,'	if n.pinkIndex >= 1<<len(n.pinkRows) {','	if n.pinkIndex >= 1<<6 {')]),
('d12-add','D12',[(NZ,'		buffer[i] += n.Next() * gain','		if gain == 0 {\n			continue\n		}\n		buffer[i] += n.Next() * gain')]),
('d12-settype','D12',[(NZ,'func (n *NoiseGenerator) SetType(noiseType NoiseType) {\n','func (n *NoiseGenerator) SetType(noiseType NoiseType) {\n	n.randomFloat()\n')]),
('d12-gauss','D12',[(NZ,'		return g.spare * 0.3 // Scale','		return -g.spare * 0.3 * 0.9 // Scale')]),
('d13-clamp','D13',[(DC,'	if R < 0.9 {\n		R = 0.9\n	}\n	if R > 0.999 {\n		R = 0.999\n	}\n	\n	dc.coefficient = R','	if R < 0.9 {\n		R = 0.9\n	}\n	if R > 0.9999 {\n		R = 0.9999\n	}\n	\n	dc.coefficient = R')]),
('d13-ch','D13',[(DC,'		if ch < len(dc.x1) {','		if ch < len(dc.x1)-1 || ch == 0 {')]),
('d13-stereo','D13',[(DC,'	if len(dc.x1) < 2 {\n		return','	if len(dc.x1) != 2 {\n		return')]),
('d14-quant','D14',[(PU,'	if steps <= 1 {','	if steps <= 2 {')]),
('d14-expeq','D14',[(PU,'min <= 0 || max <= 0 || max == min {','min <= 0 || max <= 0 {')]),
('d14-clamp','D14',[(PU,'	if value > max {\n		return max\n	}\n	return value','	if value >= max {\n		return max - 1e-12*max\n	}\n	return value')]),
('d14-smooth','D14',[(PU,'	s.current = value\n	s.target = value','	s.current = value')]),
('d14-curve','D14',[(PU,'	curved := math.Pow(normalized, curve)\n','	if curve <= 0.1 {\n		curve = 1\n	}\n	curved := math.Pow(normalized, curve)\n')]),
# C
('c01-flclip','C01',[(M+'flanger.go','	} else if delayInput < -1.0 {\n		delayInput = -1.0\n	}','	}')]),
('c01-chodd','C01 E07 E08',[(M+'chorus.go','	c.feedback = math.Max(0.0, math.Min(0.5, feedback))','	c.feedback = math.Max(0.0, math.Min(1.5, feedback))')]),
('c01-phaserlow','C01',[(M+'phaser.go','	p.maxFreq = math.Min(p.sampleRate/4, p.maxFreq)\n','')]),
('c02-tremL','C02',[(M+'tremolo.go','	t.smoothedGainL = 1.0\n	t.smoothedGainR = 1.0\n\n	// ','	t.smoothedGainL = 1.0\n\n	// ')]),
('c02-lfoR','C02',[(M+'tremolo.go','	if t.stereo {\n		t.lfoR.SetPhase(t.phase)\n	}','')]),
('c02-chlfo','C02',[(M+'chorus.go','		lfo.SetPhase(float64(i) / float64(c.voices))\n	}\n\n	c','		lfo.SetPhase(float64(i) / 2)\n	}\n\n	c')]),
('c02-flfb','C02',[(M+'flanger.go','	f.delayIndex = 0\n	f.feedbackSample = 0\n\n','	f.delayIndex = 0\n\n')]),
('c03-tremmono','C03',[(M+'tremolo.go','func (t *Tremolo) ProcessBuffer(input, output []float32) {\n','func (t *Tremolo) ProcessBuffer(input, output []float32) {\n	if t.depth == 0 {\n		copy(output, input)\n		return\n	}\n')]),
('c03-ringbuf','C03',[(M+'ringmod.go','func (rm *RingModulator) ProcessStereoBuffer(inputL, inputR, outputL, outputR []float32) {\n','func (rm *RingModulator) ProcessStereoBuffer(inputL, inputR, outputL, outputR []float32) {\n	if rm.mix == 0 {\n		copy(outputL, inputL)\n		copy(outputR, inputR)\n		return\n	}\n')]),
('c04-ringLR','C04 C03',[(M+'ringmod.go','	modulatedR := float64(inputR) * carrier\n','	modulatedR := float64(inputR) * carrier\n	if inputL == 0 && inputR != 0 {\n		modulatedR = 0\n	}\n')]),
('c05-chbuf','C05',[(M+'chorus.go','	wetL := float32(0)\n	wetR := float32(0)\n','	wetL := float32(0)\n	wetR := float32(0)\n	if len(c.lfos) > 3 {\n		c.lfos = append([]*LFO(nil), c.lfos...)\n	}\n')]),
('c06-lfoseed','C06',[(L,'atomic.AddUint32(&lfoSeed, 0x9E3779B9)','func() uint32 { lfoSeed += 0x9E3779B9; return lfoSeed }()'),(L,'	"sync/atomic"\n','')]),
('c06-phscratch','C06',[(M+'phaser.go','func (p *Phaser) updateStages() {\n	p.filters = make([]*AllPassFilter, p.stages)','var phPool [8]*AllPassFilter\n\nfunc (p *Phaser) updateStages() {\n	p.filters = phPool[:p.stages]')]),
('e-trsync','C02 E09 E10 E08',[(M+'tremolo.go','		t.lfoR.SetPhase(t.lfoL.GetPhase() + t.phase)','		t.lfoR.SetPhase(t.phase)')]),
]
