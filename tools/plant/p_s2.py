# scale in the DSP packages: long runs, large sizes, high rates
D='pkg/dsp/';F='pkg/framework/'
DL=D+'delay/delay.go';AN=D+'analysis/';CH=F+'dsp/chain.go';PR=F+'debug/profiler.go'
B=[
('t-frac32','D03',[(DL,'	frac := float32(readPos - float64(readPosInt))\n	if readPosInt >=','	frac := float32(readPos) - float32(readPosInt)\n	if readPosInt >=')]),
('t-taps32','D03',[(DL,'		if i >= m.numTaps {','		if i >= m.numTaps || i >= 32 {')]),
('t-delaycap','D03',[(DL,'	bufferSize := int(maxDelaySeconds*sampleRate) + 1','	bufferSize := min(int(maxDelaySeconds*sampleRate)+1, 1<<18)')]),
('t-delayms','D03',[(DL,'	delaySamples := delayMs * d.sampleRate / 1000.0\n	return d.Read(delaySamples)','	delaySamples := float64(float32(delayMs) * float32(d.sampleRate) / 1000.0)\n	return d.Read(delaySamples)')]),
('t-lforand','C06 E09 D07',[(D+'modulation/lfo.go','		if l.randomCounter >= l.randomPeriod {','		if l.randomCounter >= min(l.randomPeriod, 1<<20) {')]),
('t-lfophase','E09 D07 E08',[(D+'modulation/lfo.go','	l.phaseInc = l.frequency / l.sampleRate','	l.phaseInc = float64(float32(l.frequency / l.sampleRate))')]),
('t-chain64','F03',[(CH,'	for _, processor := range c.processors {\n		processor.Process(buffer)','	for i, processor := range c.processors {\n		if i >= 64 {\n			break\n		}\n		processor.Process(buffer)')]),
('t-par-scratch','F03',[(CH,'	copy(dry, buffer)','	copy(dry, buffer[:min(len(buffer), 1<<15)])')]),
('t-par-gain','F03',[(CH,'			buffer[i] += temp[i] * p.gains[j]','			buffer[i] += temp[i] * p.gains[j%16]')]),
('t-chain-reset32','F03',[(CH,'	for _, processor := range c.processors {\n		processor.Reset()\n	}\n}\n\n// SetBypass sets the bypass state of the chain.\nfunc (c *Chain)','	for i, processor := range c.processors {\n		if i < 32 {\n			processor.Reset()\n		}\n	}\n}\n\n// SetBypass sets the bypass state of the chain.\nfunc (c *Chain)')]),
('t-prof-cap','F05',[(PR,'		maxSamples:   maxSamples,','		maxSamples:   min(maxSamples, 1024),')]),
('t-prof-names','F05',[(PR,'	m, exists := p.measurements[name]\n	if !exists {\n		m = &Measurement{','	m, exists := p.measurements[name]\n	if !exists {\n		if len(p.measurements) >= 256 {\n			return\n		}\n		m = &Measurement{')]),
('t-prof-count','F05',[(PR,'	m.totalTime += elapsed\n','	if m.count < 1<<14 {\n		m.totalTime += elapsed\n	}\n')]),
('t-lim-look','E04',[(D+'dynamics/limiter.go','	newDelaySamples := int(l.lookahead * l.sampleRate)','	newDelaySamples := min(int(l.lookahead*l.sampleRate), 960)')]),
('t-gate-hold','E03',[(D+'dynamics/gate.go','	g.holdSamples = int(g.hold * g.sampleRate)','	g.holdSamples = min(int(g.hold*g.sampleRate), 1<<16)')]),
('t-peak-hold','M03',[(AN+'meters.go','		pm.holdCount = int(pm.holdTime * pm.sampleRate)','		pm.holdCount = min(int(pm.holdTime*pm.sampleRate), 1<<19)')]),
('t-rms-drift','M03',[(AN+'meters.go','		if rm.writePos == 0 {','		if rm.writePos == 0 && rm.windowSize <= 8192 {')]),
('t-lufs-1000','M04',[(AN+'meters.go','					lm.integrated.blocks = append(lm.integrated.blocks, loudness)','					if len(lm.integrated.blocks) == 600 {\n						lm.integrated.blocks = lm.integrated.blocks[1:]\n					}\n					lm.integrated.blocks = append(lm.integrated.blocks, loudness)')]),
('t-lufs-3000','M04',[(AN+'meters.go','					lm.integrated.blocks = append(lm.integrated.blocks, loudness)','					if len(lm.integrated.blocks) < 3000 {\n						lm.integrated.blocks = append(lm.integrated.blocks, loudness)\n					}')]),
('t-corr-win','M05',[(AN+'correlation.go','	numerator := 0.0\n	varL := 0.0\n	varR := 0.0\n	\n	for i := 0; i < cm.count; i++ {','	numerator := 0.0\n	varL := 0.0\n	varR := 0.0\n	\n	for i := 0; i < min(cm.count, 1<<15); i++ {')]),
('t-corr-hold','M05',[(AN+'correlation.go','			cm.peakHoldCount = int(cm.peakHoldTime * cm.sampleRate)','			cm.peakHoldCount = min(int(cm.peakHoldTime*cm.sampleRate), 1<<18)')]),
('t-spec-avg','M02',[(AN+'spectrum.go','		sa.avgBuffer = make([][]float64, bufferSize)','		sa.avgBuffer = make([][]float64, min(bufferSize, 64))')]),
('t-spec-shift','M02',[(AN+'spectrum.go','			if sa.hopSize < sa.fftSize {\n				copy','			if sa.hopSize < sa.fftSize && sa.fftSize < 1<<15 {\n				copy')]),
('t-scope-n','M05',[(AN+'phasescope.go','		points:      make([]PhasePoint, bufferSize),','		points:      make([]PhasePoint, min(bufferSize, 1<<15)),')]),
('t-freeverb-cap','E10',[(D+'reverb/freeverb.go','		f.combL[i] = NewCombFilter(delaySamplesL)','		f.combL[i] = NewCombFilter(min(delaySamplesL, 4800))')]),
('t-osc32','D07',[(D+'oscillator/oscillator.go','	o.phase += o.phaseInc\n	if','	o.phase = float64(float32(o.phase)) + o.phaseInc\n	if')]),
('t-det-rms','D06',[(D+'envelope/detector.go','	if newLen != d.rmsWindowLen {','	newLen = min(newLen, 1<<14)\n	if newLen != d.rmsWindowLen {')]),
('t-det-hold','D06',[(D+'envelope/detector.go','			d.holdCounter = int(d.hold * d.sampleRate) // Reset hold counter','			d.holdCounter = min(int(d.hold*d.sampleRate), 48000) // Reset hold counter')]),
('t-bit-levels','E06',[(D+'distortion/bitcrusher.go','	levels := math.Pow(2.0, b.bitDepth)','	levels := math.Pow(2.0, math.Min(b.bitDepth, 24))')]),
('t-chorus-192','E08',[(D+'modulation/chorus.go','	c.maxDelaySamples = int(float64(c.maxDelaySamples)*1.2) + 2','	c.maxDelaySamples = min(int(float64(c.maxDelaySamples)*1.2)+2, 9000)')]),
('t-log-long','F04',[(F+'debug/logger.go','	msg := fmt.Sprintf(format, args...)\n','	msg := fmt.Sprintf(format, args...)\n	if len(msg) > 4096 {\n		msg = msg[:4096]\n	}\n')]),
]
