A='pkg/dsp/analysis/'
B=[
('m01-stage','M01',[(A+'fft.go','				oldWReal := wTempReal\n','				if j&255 == 255 {\n					wTempReal, wTempImag = math.Cos(theta*float64(j)), math.Sin(theta*float64(j))\n				}\n				oldWReal := wTempReal\n')]),
('m01-zero','M01',[(A+'fft.go','	for i := len(input); i < f.size; i++ {\n		f.real[i] = 0.0\n		f.imag[i] = 0.0\n	}\n	\n	// Perform FFT\n	f.fft(f.real, f.imag)\n	\n	// Calculate','	for i := len(input); i < f.size-1; i++ {\n		f.real[i] = 0.0\n		f.imag[i] = 0.0\n	}\n	\n	// Perform FFT\n	f.fft(f.real, f.imag)\n	\n	// Calculate')]),
('m01-kaiser','M01',[(A+'fft.go','	if ax < 3.75 {','	if ax < 4.5 {')]),
('m01-phase','M01',[(A+'fft.go','		f.phase[i] = math.Atan2(f.imag[i], f.real[i])','		f.phase[i] = math.Atan2(f.imag[i], f.real[i])\n		if f.magnitude[i] < 1e-3 {\n			f.phase[i] = 0\n		}')]),
('m01-inv','M01',[(A+'fft.go','	clear(f.imag)\n','')]),
('m01-xcsize','M01',[(A+'fft.go','	for size < 2*n {','	for size < 2*n-2 {')]),
('m01-db','M01',[(A+'fft.go','			db[i] = math.Max(20.0*math.Log10(mag), -120.0)','			db[i] = 20.0 * math.Log10(mag)')]),
('m02-hop','M02',[(A+'spectrum.go','	if hopSize > 0 && hopSize <= sa.fftSize {','	if hopSize > 0 && hopSize < sa.fftSize {')]),
('m02-expfirst','M02',[(A+'spectrum.go','			sa.outputBuffer[i] = sa.outputBuffer[i]*sa.smoothing + magnitude[i]*(1-sa.smoothing)','			if sa.outputBuffer[i] == 0 {\n				sa.outputBuffer[i] = magnitude[i]\n				continue\n			}\n			sa.outputBuffer[i] = sa.outputBuffer[i]*sa.smoothing + magnitude[i]*(1-sa.smoothing)')]),
('m02-avgkeep','M02',[(A+'spectrum.go','		sa.avgWritePos = 0\n		sa.avgCount = 0\n	}\n}','		sa.avgWritePos = 0\n		if sa.avgCount > bufferSize {\n			sa.avgCount = bufferSize\n		}\n	}\n}')]),
('m02-reset','M02',[(A+'spectrum.go','	sa.writePos = 0\n	sa.avgWritePos = 0\n	sa.avgCount = 0\n','	sa.writePos = 0\n	sa.avgWritePos = 0\n')]),
('m02-peakrange','M02',[(A+'spectrum.go','	maxMag := 0.0\n	maxBin := 0\n','	maxMag := 0.0\n	maxBin := sa.minBin\n')]),
('m02-band','M02',[(A+'spectrum.go','	for i := minBin; i <= maxBin; i++ {','	for i := minBin; i < maxBin || i == minBin; i++ {')]),
('m02-ready','M02',[(A+'spectrum.go','	spectrumReady := false\n	\n	for','	spectrumReady := len(samples) >= sa.fftSize\n	\n	for')]),
('m02-rangemax','M02',[(A+'spectrum.go','	sa.maxFreq = math.Min(sa.sampleRate/2.0, maxFreq)','	sa.maxFreq = math.Min(math.Min(sa.sampleRate/2.0, 48000), maxFreq)')]),
('m03-decayfirst','M03',[(A+'meters.go','	if blockPeak > pm.peak {','	if len(samples) > 0 && blockPeak >= pm.peak*0.9 {')]),
('m03-holdblock','M03',[(A+'meters.go','		pm.holdCount -= len(samples)\n		if pm.holdCount <= 0 {','		pm.holdCount -= len(samples)\n		if pm.holdCount < 0 {')]),
('m03-holdeq','M03',[(A+'meters.go','	if blockPeak >= pm.hold {','	if blockPeak > pm.hold {')]),
('m03-rmsrefresh','M03',[(A+'meters.go','		if rm.writePos == 0 {\n','		if rm.writePos == 0 && rm.count < rm.windowSize {\n')]),
('m03-rmspart','M03',[(A+'meters.go','	return math.Sqrt(rm.sum / float64(rm.count))','	return math.Sqrt(rm.sum / float64(len(rm.buffer)))')]),
('m03-rmsresetpos','M03',[(A+'meters.go','	rm.sum = 0\n	rm.count = 0\n	rm.writePos = 0','	rm.sum = 0\n	rm.count = 0')]),
('m04-lra','M04',[(A+'meters.go','idx95 := int(float64(len(sorted)) * 0.95)','idx95 := int(float64(len(sorted)-1) * 0.95)')]),
('m04-lfe','M04',[(A+'meters.go','			if lm.channels > 5 {','			if lm.channels == 6 {')]),
('m04-shift','M04',[(A+'meters.go','	shortTermOverlap := int(2.9 * sampleRate)','	shortTermOverlap := int(2.0 * sampleRate)')]),
('m04-gate','M04',[(A+'meters.go','	relativeThreshold := 10.0*math.Log10(sum/float64(count)) + lm.integrated.relativeGate','	relativeThreshold := math.Max(-60, 10.0*math.Log10(sum/float64(count))+lm.integrated.relativeGate)')]),
('m04-resetfilter','M04',[(A+'meters.go','	for ch := range lm.highShelf {\n		for _, filter := range lm.highShelf[ch] {\n			filter.x1, filter.x2, filter.y1, filter.y2 = 0, 0, 0, 0','	for ch := range lm.highShelf {\n		for _, filter := range lm.highShelf[ch] {\n			filter.x1, filter.x2, filter.y1 = 0, 0, 0')]),
('m04-silent','M04',[(A+'meters.go','if loudness := lm.calculateBlockLoudness(block); !math.IsInf(loudness, -1) {','if loudness := lm.calculateBlockLoudness(block); loudness > -60 {')]),
('m04-cap','M04',[(A+'meters.go','					lm.integrated.blocks = append(lm.integrated.blocks, loudness)','					if len(lm.integrated.blocks) == cap(lm.integrated.blocks) {\n						lm.integrated.blocks = lm.integrated.blocks[1:]\n					}\n					lm.integrated.blocks = append(lm.integrated.blocks, loudness)')]),
('m04-recent','M04',[(A+'meters.go','	count = 0\n	for _, block := range lm.integrated.blocks {\n		if block >= lm.integrated.absoluteGate && block','	count = 0\n	for _, block := range lm.integrated.blocks[max(0, len(lm.integrated.blocks)-36000):] {\n		if block >= lm.integrated.absoluteGate && block')]),
('m05-window','M05',[(A+'correlation.go','	correlation := numerator / (math.Sqrt(varL) * math.Sqrt(varR))','	correlation := numerator / math.Sqrt(varL*varR)')]),
('m05-holdw','M05',[(A+'correlation.go','				cm.peakHold = cm.correlation\n','				cm.peakHold = corr\n')]),
('m05-mean','M05',[(A+'correlation.go','	meanR /= float64(cm.count)\n','	meanR /= float64(cm.count)\n	if math.Abs(meanL) < 1e-3 && math.Abs(meanR) < 1e-3 {\n		meanL, meanR = 0, 0\n	}\n')]),
('m05-balempty','M05',[(A+'correlation.go','			bm.balance = 0\n','')]),
('m05-scoperot','M05',[(A+'phasescope.go','			y := l*sin + r*cos\n','			y := l*cos + r*cos\n')]),
('m05-polarbright','M05',[(A+'phasescope.go','		bright[i] = ps.brightness[idx]','		bright[i] = ps.brightness[i]')]),
('m05-persist','M05',[(A+'phasescope.go','	if persistence >= 0 && persistence <= 1 {\n		ps.persistence = persistence','	if persistence >= 0 && persistence <= 1 {\n		ps.decay = persistence')]),
('m05-maxrad','M05',[(A+'phasescope.go','		if radius > maxRadius {','		if radius > maxRadius && i > 0 {')]),
('m05-scale','M05',[(A+'phasescope.go','		y := ps.bufferR[idx] * ps.scale\n','		y := ps.bufferR[idx] * math.Min(ps.scale, 10)\n')]),
('m05-phase','M05',[(A+'correlation.go','	} else if corr > -0.9 {','	} else if corr > -0.95 {')]),
('m06-peakdb','M06',[(A+'meters.go','func (pm *PeakMeter) GetPeakDB() float64 {\n	pm.mu.Lock()\n	defer pm.mu.Unlock()\n','func (pm *PeakMeter) GetPeakDB() float64 {\n')]),
('m06-rmssplit','M06',[(A+'meters.go','		if rm.writePos == 0 {\n','		if rm.writePos == 0 {\n			rm.mu.Unlock()\n			rm.mu.Lock()\n')]),
('m06-scopealias','M06',[(A+'phasescope.go','	points := make([]PhasePoint, ps.count)\n','	points := ps.points[:ps.count]\n	if ps.count == ps.bufferSize {\n		points = make([]PhasePoint, ps.count)\n	}\n')]),
('m06-specalias','M06',[(A+'spectrum.go','	result := make([]float64, len(sa.outputBuffer))\n	copy(result, sa.outputBuffer)\n	return result','	return sa.outputBuffer')]),
('m06-corrhold','M06',[(A+'correlation.go','func (cm *CorrelationMeter) SetPeakHoldTime(seconds float64) {\n	cm.mu.Lock()\n	defer cm.mu.Unlock()\n','func (cm *CorrelationMeter) SetPeakHoldTime(seconds float64) {\n')]),
]
