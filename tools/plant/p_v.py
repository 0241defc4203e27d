# C12, and second thoughts on C07-C10
D='pkg/dsp/'
B=[
('v-exp-stereo','C12 E02',[(D+'dynamics/expander.go','		envelope := e.detector.Detect(maxInput)','		envelope := e.detector.Detect(maxInput * 1.0001)')]),
('v-comp-stereo','C12 E01',[(D+'dynamics/compressor.go','		if math.Abs(float64(inputR[i])) > math.Abs(float64(maxInput)) {','		if math.Abs(float64(inputR[i])) > math.Abs(float64(maxInput))*1.01 {')]),
('v-lim-detect','C12 E04',[(D+'dynamics/limiter.go','		maxPeak := float32(math.Max(math.Abs(float64(peakL)), math.Abs(float64(peakR))))','		maxPeak := float32(math.Max(math.Abs(float64(peakL)), float64(peakR)))')]),
('v-tape-chan','C12 E07 C04',[(D+'distortion/tape.go','	if t.envelope[channel] > threshold {','	if t.envelope[channel] > threshold+0.001*float64(channel) {')]),
('v-tape-sign','C12 E07',[(D+'distortion/tape.go','	limit := math.Sqrt(1.0 / 0.3)\n','	limit := math.Sqrt(1.0/0.3) + min(0, driven)*1e-3\n')]),
('v-fold','C12 E05',[(D+'distortion/waveshaper.go','*f*','')]),
('v-ring-stereo','C12 E09',[(D+'modulation/ringmod.go','*r*','')]),
('v-svf-chan','C12 D02 C04',[(D+'filter/svf.go','	v3 := input - ic2eq\n','	v3 := input - ic2eq*(1-float32(channel)*1e-5)\n')]),
('v-phaser-clip','C12 E09',[(D+'modulation/phaser.go','	} else if wetSignal < -1.0 {\n		wetSignal = -1.0\n','	} else if wetSignal < -1.001 {\n		wetSignal = -1.001\n')]),
('v-flanger-st','C12 E08',[(D+'modulation/flanger.go','*x*','')]),
('v-dc-multi','C12 C03',[(D+'utility/dcblocker.go','	for ch, buffer := range buffers {\n		if ch < len(dc.x1) {','	for ch, buffer := range buffers {\n		if ch < len(dc.x1) && len(buffer) > 1 {')]),
('v-schroeder-mono','C12 E10',[(D+'reverb/schroeder.go','	mono := (inputL + inputR) * 0.5','	mono := inputL*0.5 + inputR*0.49999')]),
('v-bit-neg','C12 E06',[(D+'distortion/bitcrusher.go','*x*','')]),
('v-gate-det','C12 E03',[(D+'dynamics/gate.go','		detection := g.applySidechainFilter(maxInput)','		detection := g.applySidechainFilter(max(inputL[i], maxInput))')]),
('v-trem-harm','C12 E09',[(D+'modulation/tremolo.go','		gainR = 1.0 - t.depth*math.Abs(lfoR)','		gainR = 1.0 - t.depth*math.Max(lfoR, -lfoR*0.9999)')]),
]
B=[b for b in B if '*' not in b[2][0][1][:3]]
