D='pkg/dsp/dynamics/'; X='pkg/dsp/distortion/'; M='pkg/dsp/modulation/'; R='pkg/dsp/reverb/'
B=[
('e01-makeup','E01',[(D+'compressor.go','	totalGainDB := -gainReductionDB + c.makeupGain\n	gain := math.Pow(10.0, totalGainDB/20.0)\n','	totalGainDB := c.makeupGain - gainReductionDB\n	if gainReductionDB == 0 && c.makeupGain < 0 {\n		totalGainDB = 0\n	}\n	gain := math.Pow(10.0, totalGainDB/20.0)\n')]),
('e01-la','E01 C02',[(D+'compressor.go','			c.delayIndex = 0\n		} else {\n			c.delayBuffer = nil','			if c.delayIndex >= c.delaySamples {\n				c.delayIndex = 0\n			}\n		} else {\n			c.delayBuffer = nil')]),
('e01-kneemeter','E01',[(D+'compressor.go','	if inputDB > c.threshold+kneeWidth/2 {\n','	if inputDB > c.threshold+kneeWidth {\n')]),
('e01-attackmin','E01',[(D+'compressor.go','	c.attack = math.Max(0.0001, seconds)','	c.attack = math.Max(0.001, seconds)')]),
('e01-ratioinf','E01',[(D+'compressor.go','	c.ratio = math.Max(1.0, ratio)','	c.ratio = math.Max(1.0, math.Min(100.0, ratio))')]),
('e01-scmeter','E01',[(D+'compressor.go','		gain := float32(math.Pow(10.0, totalGainDB/20.0))\n		output[i] = input[i] * gain','		gain := float32(math.Pow(10.0, totalGainDB/20.0))\n		if input[i] == 0 {\n			c.lastGainReduction = 0\n		}\n		output[i] = input[i] * gain')]),
('e01-stereosum','E01',[(D+'compressor.go','maxInput := float32(math.Max(math.Abs(float64(inputL[i])), math.Abs(float64(inputR[i]))))','maxInput := float32(math.Max(float64(inputL[i]), math.Abs(float64(inputR[i]))))')]),
('e02-kneerange','E02',[(D+'expander.go','return math.Max(kneePos*kneePos*fullGain, e.range_)','return kneePos * kneePos * fullGain')]),
('e02-instant','E02',[(D+'expander.go','		e.releaseCoeff = 0.0\n','')]),
('e02-resetgain','E02 C02',[(D+'expander.go','	e.currentGain = 1.0\n	e.gainReduction = 0.0\n}','	e.gainReduction = 0.0\n}')]),
('e02-stereoattack','E02',[(D+'expander.go','	for i := range inputL {\n','	for i := range inputL {\n		if inputL[i] == 0 && inputR[i] == 0 {\n			outputL[i], outputR[i] = 0, 0\n			continue\n		}\n')]),
('e02-detrel','E02',[(D+'expander.go','	e.detector.SetRelease(e.release)\n','	e.detector.SetRelease(math.Max(e.release, 0.001))\n')]),
('e03-range','E03',[(D+'gate.go','} else if g.state == gateStateRelease {','} else if g.state == gateStateRelease && g.range_ > -96 {')]),
('e03-holdlive','E03',[(D+'gate.go','	g.holdSamples = int(g.hold * g.sampleRate)\n','	g.holdSamples = int(g.hold * g.sampleRate)\n	if g.holdCounter > g.holdSamples {\n		g.holdCounter = g.holdSamples\n	}\n')]),
('e03-holdopen','E03',[(D+'gate.go','		if inputDB > g.threshold-g.hysteresis {\n			// Signal came','		if inputDB > g.threshold {\n			// Signal came')] ),
('e03-openflag','E03',[(D+'gate.go','	g.gateOpen = false\n	g.gainReduction = g.range_\n	g.hpfState','	g.gainReduction = g.range_\n	g.hpfState')]),
('e03-hpf','E03 C02',[(D+'gate.go','	g.hpfState = 0.0\n	g.lastInput = 0.0\n','	g.hpfState = 0.0\n')]),
('e03-instrel','E03',[(D+'gate.go','		g.releaseCoeff = 0.0 // Instant release\n','')]),
('e04-first','E04',[(D+'limiter.go','	if level <= 0 {\n		return gainReductionDB\n	}\n','	if level <= 0 || gainReductionDB > 0 {\n		return gainReductionDB\n	}\n')]),
('e04-tpsign','E04',[(D+'limiter.go','peak := float32(math.Max(math.Abs(float64(l.lastSample)), math.Abs(float64(current))))','peak := float32(math.Max(float64(l.lastSample), float64(current)))')]),
('e04-stereometer','E04',[(D+'limiter.go','		gain := float32(math.Pow(10.0, -l.gainReduction/20.0))\n		outputL[i] = processL * gain\n','		gain := float32(math.Pow(10.0, -l.gainReduction/20.0))\n		if l.gainReduction < 0.05 {\n			l.gainReduction = 0\n		}\n		outputL[i] = processL * gain\n')]),
('e04-la','E04',[(D+'limiter.go','	if newDelaySamples != l.delaySamples {\n','	if newDelaySamples > l.delaySamples {\n')]),
('e04-reset','E04 C02',[(D+'limiter.go','	l.lastSample = 0.0\n','')]),
('e05-hugemod','E05',[(X+'bitcrusher.go','	period := 4 * threshold\n	u := math.Mod(x+threshold, period)\n	if u < 0 {\n		u += period\n	}\n	return threshold - math.Abs(u-2*threshold)','	for n := 0; x > threshold || x < -threshold; n++ {\n		if n > 100000 {\n			return 0\n		}\n		if x > threshold {\n			x = 2*threshold - x\n		} else {\n			x = -2*threshold - x\n		}\n	}\n	return x')]),
('e05-asym','E05',[(X+'waveshaper.go','		return math.Tanh(x * (1.0 - w.asymmetry))','		return math.Tanh(x*(1.0-w.asymmetry)) * (1.0 - 0.01*math.Abs(w.asymmetry))')]),
('e05-exp','E05',[(X+'waveshaper.go','	if absX > 1.0 {\n		return sign\n','	if absX > 0.95 {\n		return sign\n')]),
('e05-sig','E05',[(X+'waveshaper.go','	k = math.Max(0.1, math.Min(10.0, k))\n','')]),
('e05-drivemin','E05',[(X+'waveshaper.go','	driven := input * w.drive\n	','	driven := input * w.drive\n	if w.mix == 0 {\n		return input\n	}\n	')]),
('e05-cheb','E05',[(X+'waveshaper.go','	for i := 2; i <= order; i++ {','	for i := 2; i <= order && i <= 32; i++ {')]),
('e05-steps','E05 E06',[(X+'bitcrusher.go','	if steps <= 1 {\n		return 0.0','	if steps <= 2 {\n		return 0.0')]),
('e06-half','E06',[(X+'bitcrusher.go','	quantized := math.Round(scaled) / levels * 2.0','	quantized := math.Floor(scaled+0.5) / levels * 2.0')]),
('e06-bits24','E06',[(X+'bitcrusher.go','	if b.bitDepth >= 32.0 {','	if b.bitDepth >= 24.0 {')]),
('e06-aaone','E06 C04',[(X+'bitcrusher.go','	b.filterState[channel] = b.filterState[channel] + alpha*(x-b.filterState[channel])\n	return b.filterState[channel]','	b.filterState[channel] = b.filterState[channel] + alpha*(x-b.filterState[channel])\n	if math.Abs(b.filterState[channel]) < 1e-5 {\n		b.filterState[channel] = b.filterState[0]\n	}\n	return b.filterState[channel]')]),
('e06-factorup','E06',[(X+'bitcrusher.go','	b.sampleRateReduce = math.Max(1.0, math.Min(100.0, factor))','	b.sampleRateReduce = math.Max(1.0, math.Min(64.0, factor))')]),
('e06-tri','E06',[(X+'bitcrusher.go','		r1 := b.random() - 0.5\n		r2 := b.random() - 0.5\n		return (r1 + r2) * step','		r1 := b.random() - 0.5\n		r2 := b.random()\n		return (r1 + r2) * step')]),
('e06-ditherquiet','E06',[(X+'bitcrusher.go','	dithered := x + b.generateDither()','	dithered := x\n	if x != 0 {\n		dithered += b.generateDither()\n	}')]),
('e07-envswap','E07 C04',[(X+'tape.go','		t.envelope[channel] += (absX - t.envelope[channel]) * release','		t.envelope[channel] += (absX - t.envelope[channel]) * release\n		if t.envelope[channel] < t.envelope[0]*1e-3 {\n			t.envelope[channel] = 0\n		}')]),
('e07-ratio','E07',[(X+'tape.go','	ratio := 2.0 + t.compression*3.0','	ratio := 2.0 + math.Max(0.05, t.compression)*3.0')]),
('e07-flutterdepth','E07',[(X+'tape.go','	modDepth := t.flutter * 3.0 // Max','	modDepth := t.flutter * 4.0 // Max')]),
('e07-limit','E07',[(X+'tape.go','limit := math.Sqrt(1.0 / 0.3)','limit := math.Sqrt(1.0 / 0.1)')]),
('e07-hyst','E07',[(X+'tube.go','	if diff > 0 {','	if diff >= 0 || t.hysteresis > 0.99 {')]),
('e07-knee','E07',[(X+'tube.go','	knee := 0.1\n','	knee := 0.1 * (1 + t.harmonics)\n')]),
('e07-dc','E07 C02',[(X+'tube.go','	t.prevInput = [2]float64{}\n','')]),
('e08-lastvoice','E08',[(M+'chorus.go','	for v := 0; v < c.voices; v++ {\n		c.delayLinesL[v][c.delayIndex]','	for v := 0; v < c.voices && v < 3; v++ {\n		c.delayLinesL[v][c.delayIndex]')]),
('e08-rateall','E08',[(M+'chorus.go','	for _, lfo := range c.lfos {\n		lfo.SetFrequency(c.rate)\n	}\n}\n\n// SetDepth','	for _, lfo := range c.lfos[1:] {\n		lfo.SetFrequency(c.rate)\n	}\n}\n\n// SetDepth')]),
('e08-manual','E08',[(M+'flanger.go','		modulation = 2.0*f.manual - 1.0','		modulation = 2.0*f.manual - 1.0\n		f.lfo.Process()')]),
('e08-fbneg','E08',[(M+'flanger.go','math.Max(-0.99, math.Min(0.99, feedback))','math.Max(-0.95, math.Min(0.99, feedback))')]),
('e08-maxdepth','E08',[(M+'flanger.go','	f.depth = math.Max(0.0, math.Min(maxModulationDepthMs, ms))','	f.depth = math.Max(0.0, math.Min(math.Min(maxModulationDepthMs, f.delay), ms))')]),
('e08-spread','E08',[(M+'chorus.go','pan := (float64(v)/float64(c.voices-1) - 0.5) * c.spread','pan := (float64(v)/float64(max(c.voices-1, 2)) - 0.5) * c.spread')]),
('e09-odd','E09',[(M+'phaser.go','		stages = stages - 1 // Make even','		stages = stages + 1 // Make even')]),
('e09-range','E09',[(M+'phaser.go','	p.centerFreq = (p.minFreq + p.maxFreq) / 2\n','	p.centerFreq = (p.minFreq + p.maxFreq) / 2\n	p.updateFrequencyRange()\n')]),
('e09-lfo0','E09',[(M+'ringmod.go','	rm.lfoEnabled = enabled\n	rm.updatePhaseIncrement()','	rm.lfoEnabled = enabled\n	if enabled {\n		rm.updatePhaseIncrement()\n	}')]),
('e09-nyq','E09 C01',[(M+'ringmod.go','	rm.phase += rm.phaseInc\n	if rm.phase >= 1.0 {\n		rm.phase -= 1.0\n	}\n\n	return outputL','	rm.phase += rm.phaseInc\n	if rm.phase >= 1.0 {\n		rm.phase = 0.0\n	}\n\n	return outputL')]),
('e09-tremharm','E09',[(M+'tremolo.go','		gain = 1.0 - t.depth*absLFO','		gain = 1.0 - t.depth*absLFO*absLFO')]),
('e09-smooth','E09',[(M+'tremolo.go','	t.smoothing = (waveform == WaveformSquare)\n','	t.smoothing = t.smoothing || (waveform == WaveformSquare)\n')]),
('e09-curgain','E09',[(M+'tremolo.go','		t.smoothedGainL = gainL\n		t.smoothedGainR = gainR\n	}\n','		t.smoothedGainL = math.Min(gainL, gainR)\n		t.smoothedGainR = gainR\n	}\n')]),
('e09-apfeedback','E09',[(M+'phaser.go','	} else if wetSignal < -1.0 {\n		wetSignal = -1.0\n	}','	} else if wetSignal < -1.5 {\n		wetSignal = -1.5\n	}')]),
('e10-fbmono','E10',[(R+'freeverb.go','	input := (inputL + inputR) * float32(f.gain)','	input := inputL + inputR\n	input *= float32(f.gain)\n	if input < 1e-7 && input > -1e-7 {\n		input = 0\n	}')]),
('e10-damp','E10',[(R+'freeverb.go','		f.combR[i].SetDamping(f.damp1)\n','		f.combR[i].SetDamping(f.damping * scaleDamping)\n')]),
('e10-unfreeze','E10',[(R+'freeverb.go','	f.gain = fixedGain\n	if f.mode','	if f.mode')]),
('e10-spread','E10',[(R+'freeverb.go','		delaySamplesR := int(float64(allpassTuning[i]+stereoSpread) * scaleFactor)','		delaySamplesR := int(float64(allpassTuning[i]) * scaleFactor)')]),
('e10-combdamp','E10',[(R+'schroeder.go','	c.feedback = math.Max(0.0, math.Min(1.0, feedback))','	c.feedback = math.Max(0.0, math.Min(0.97, feedback))')]),
('e10-schreset','E10 C02',[(R+'schroeder.go','	for i := 0; i < 2; i++ {\n		s.allpasses[i].Reset()','	for i := 0; i < 1; i++ {\n		s.allpasses[i].Reset()')]),
('e10-fdnmod','E10',[(R+'fdn.go','make([]float32, delayTime+int(f.modDepth)+1)','make([]float32, delayTime+int(f.modDepth))')]),
('e10-fdndiff','E10',[(R+'fdn.go','float32(1.0-f.diffusion) * decayScale','float32(1.0-f.diffusion*f.diffusion) * decayScale')]),
('e10-fdnph','E10 C02',[(R+'fdn.go','		f.dampingFilters[i].Reset()\n','')]),
('e10-fdnstereo','E10',[(R+'fdn.go','		outputR += delay2 * spread','		outputR += delay1 * spread')]),
('e10-schrange','E10',[(R+'schroeder.go','	feedback := 0.28 + s.roomSize*0.7','	feedback := 0.28 + s.roomSize*s.roomSize*0.7')]),
]
