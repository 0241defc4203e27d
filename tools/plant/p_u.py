# C08-C11: linearity, time shift, neutral settings, sample rates
D='pkg/dsp/'
B=[
('u-denorm-biquad','C08 C01',[(D+'delay/delay.go','	c.dampVal = output*(1.0-c.damp) + c.dampVal*c.damp\n','	c.dampVal = output*(1.0-c.damp) + c.dampVal*c.damp\n	if c.dampVal < 1e-4 && c.dampVal > -1e-4 {\n		c.dampVal = 0\n	}\n')]),
('u-schroeder-clip','C08 C10',[(D+'reverb/schroeder.go','	c.buffer[c.bufferIdx] = input + float32(c.feedback)*c.filterstore\n','	c.buffer[c.bufferIdx] = input + float32(c.feedback)*c.filterstore\n	if c.buffer[c.bufferIdx] > 8 {\n		c.buffer[c.bufferIdx] = 8\n	}\n')]),
('u-schroeder-first','C09',[(D+'reverb/schroeder.go','	c.bufferIdx++\n	if c.bufferIdx >= c.bufferSize {\n		c.bufferIdx = 0\n	}\n\n	return output\n}\n\n// Reset','	c.bufferIdx++\n	if c.bufferIdx > c.bufferSize-1 {\n		c.bufferIdx = 0\n		c.filterstore *= 0.5\n	}\n\n	return output\n}\n\n// Reset')]),
('u-delay-wrap','C09 D03',[(D+'delay/delay.go','	s2 := d.buffer[(readPosInt+1)%d.bufferSize]','	s2 := d.buffer[min(readPosInt+1, d.bufferSize-1)]')]),
('u-chorus-mix0','C10',[(D+'modulation/chorus.go','	delayInputL := inputL + c.feedbackL*float32(c.feedback)\n','	delayInputL := inputL + c.feedbackL*float32(c.feedback)\n	outputL += delayInputL * 1e-4 * float32(c.feedback)\n')]),
('u-comp-ratio1','C10',[(D+'dynamics/compressor.go','	c.ratio = math.Max(1.0, ratio)','	c.ratio = math.Max(1.01, ratio)')]),
('u-gate-hold','C11 E03',[(D+'dynamics/gate.go','	g.holdSamples = int(g.hold * g.sampleRate)','	g.holdSamples = int(g.hold * math.Min(g.sampleRate, 96000))')]),
('u-gate-att','C11 E03',[(D+'dynamics/gate.go','		g.releaseCoeff = math.Exp(-1.0 / (g.release * g.sampleRate))','		g.releaseCoeff = math.Exp(-1.0 / (g.release * math.Min(g.sampleRate, 100000)))')]),
('u-schroeder-tune','C11 E10',[(D+'reverb/schroeder.go','		delaySamples := int(s.combTunings[i] * sampleRate / 1000.0)','		delaySamples := int(s.combTunings[i] * min(sampleRate, 96000) / 1000.0)')]),
('u-moddelay-clamp','C11 D03',[(D+'delay/delay.go','	m.lfoPhase += m.lfoRate / m.sampleRate','	m.lfoPhase += m.lfoRate / min(m.sampleRate, 96000)')]),
('u-det-rms','C11 D06',[(D+'envelope/detector.go','	newLen := int(d.sampleRate * ms / 1000.0)\n','	newLen := int(d.sampleRate * ms / 1000.0)\n	if newLen > 8192 {\n		newLen = 8192\n	}\n')]),
('u-lim-la','C11 E04',[(D+'dynamics/limiter.go','int(l.lookahead * l.sampleRate)','int(l.lookahead * math.Min(l.sampleRate, 96000))')]),
('u-comp-la','C11 E01',[(D+'dynamics/compressor.go','int(c.lookahead * c.sampleRate)','int(c.lookahead * math.Min(c.sampleRate, 96000))')]),
('u-meter-hold','C11 M03',[(D+'analysis/meters.go','		pm.holdCount = int(pm.holdTime * pm.sampleRate)','		pm.holdCount = int(pm.holdTime * min(pm.sampleRate, 96000))')]),
('u-meter-decay','C11 M03',[(D+'analysis/meters.go','	samplesPerSecond := pm.sampleRate\n','	samplesPerSecond := min(pm.sampleRate, 96000)\n')]),
('u-lfo-band','C11 D08',[(D+'modulation/lfo.go','	l.phaseInc = l.frequency / l.sampleRate','	l.phaseInc = l.frequency / math.Min(l.sampleRate, 96000)')]),
('u-flang-rate','C11 E08',[(D+'modulation/flanger.go','* f.sampleRate / 1000.0','* math.Min(f.sampleRate, 100000) / 1000.0')]),
('u-dc-settle','C09 C08',[(D+'utility/dcblocker.go','	// Update state\n','	// Update state\n	if output > 4 || output < -4 {\n		output *= 0.999\n	}\n')]),

('u-trem-smooth','C11 E09',[(D+'modulation/tremolo.go','	t.smoothCoeff = math.Exp(-1.0 / (smoothingTime * t.sampleRate))','	t.smoothCoeff = math.Exp(-1.0 / (smoothingTime * math.Min(t.sampleRate, 48000)))')]),
('u-lufs-k','C11 M04',[(D+'analysis/meters.go','	K := math.Tan(math.Pi * f0 / lm.sampleRate)','	K := math.Tan(math.Pi * f0 / math.Min(lm.sampleRate, 96000))')]),
('u-fdn-base','C11 E10',[(D+'reverb/fdn.go','	baseDelay := int(sampleRate * 0.01)','	baseDelay := int(math.Min(sampleRate, 96000) * 0.01)')]),
('u-fdn-mod','C11 E10',[(D+'reverb/fdn.go','2.0 * math.Pi * f.modRate / f.sampleRate','2.0 * math.Pi * f.modRate / math.Min(f.sampleRate, 96000)')]),
('u-freeverb-scale','C11 E10',[(D+'reverb/freeverb.go','	scaleFactor := sampleRate / 44100.0','	scaleFactor := math.Min(sampleRate, 96000) / 44100.0')]),
('u-smooth','C11 D13',[(D+'utility/parameter.go','math.Exp(-1.0/(smoothingTime*sampleRate))','math.Exp(-1.0/(smoothingTime*math.Min(sampleRate, 96000)))')]),
('u-dc-rate','C11 D13',[(D+'utility/dcblocker.go','	R := float32(1.0 - (2.0 * 3.14159265359 * float64(cutoffHz) / sampleRate))\n	\n	// Clamp R to ensure stability\n	if R < 0.9 {\n		R = 0.9\n	}\n','	R := float32(1.0 - (2.0 * 3.14159265359 * float64(cutoffHz) / math.Min(sampleRate, 96000)))\n	\n	// Clamp R to ensure stability\n	if R < 0.9 {\n		R = 0.9\n	}\n'),(D+'utility/dcblocker.go','package utility\n','package utility\n\nimport "math"\n')]),
('u-exp-coef','C11 E02',[(D+'dynamics/expander.go','e.release * e.sampleRate','e.release * math.Min(e.sampleRate, 96000)')]),
('u-phaser-tan','C11 E09',[(D+'modulation/phaser.go','math.Tan(math.Pi * freq / sampleRate)','math.Tan(math.Pi * freq / math.Min(sampleRate, 96000))')]),
('u-svf-tan','C11 D02',[(D+'filter/svf.go','math.Tan(math.Pi * belowNyquist(sampleRate, frequency) / sampleRate)','math.Tan(math.Pi * belowNyquist(sampleRate, frequency) / math.Min(sampleRate, 96000))')]),
('u-svf-quiet','C08 D02',[(D+'filter/svf.go','	ic2eq = 2.0*v2 - ic2eq\n','	ic2eq = 2.0*v2 - ic2eq\n	if ic1eq < 1e-6 && ic1eq > -1e-6 {\n		ic1eq = 0\n	}\n')]),
('u-svf-loud','C08 D02',[(D+'filter/svf.go','	ic2eq = 2.0*v2 - ic2eq\n','	ic2eq = 2.0*v2 - ic2eq\n	ic1eq = float32(math.Max(-32, math.Min(32, float64(ic1eq))))\n')]),
('u-biq-quiet','C08 D01',[(D+'filter/biquad.go','		y2 = y1\n','		y2 = y1\n		if y2 < 1e-6 && y2 > -1e-6 {\n			y2 = 0\n		}\n')]),
('u-biq-loud','C08 D01',[(D+'filter/biquad.go','		y2 = y1\n','		y2 = min(max(y1, -64), 64)\n')]),
('u-fdn-quiet','C08 E10',[(D+'reverb/fdn.go','baseDelay * primes[i%len(primes)] / 23','baseDelay * primes[i%len(primes)] / 23 // tuned')]),
('u-width','C10 D11',[(D+'pan/pan.go','		leftOut[i] = mid + side\n','		if width < 2 {\n			side += mid * 1e-4\n		}\n		leftOut[i] = mid + side\n')]),
('u-balance','C10 D11',[(D+'pan/pan.go','		leftOut[i] = leftIn[i] * leftGain\n','		leftOut[i] = leftIn[i] * leftGain * 0.9999\n')]),
('u-comp-knee','C10 E01',[(D+'dynamics/compressor.go','		compressionRatio := 1.0 - 1.0/c.ratio','		compressionRatio := 1.0 - 1.0/(c.ratio+0.02)')]),
('u-exp-1','C10 E02',[(D+'dynamics/expander.go','math.Max(1.0, ratio)','math.Max(1.05, ratio)')]),
('u-delay-mix','C10 D03',[(D+'delay/delay.go','		buffer[i] = dry*dryGain + wet*mix','		buffer[i] = dry*dryGain + wet*max(mix, 1e-3)')]),
('u-phaser-dry','C10 E09',[(D+'modulation/phaser.go','	p.mix = math.Max(0.0, math.Min(1.0, mix))','	p.mix = math.Max(0.001, math.Min(1.0, mix))')]),
('u-gate-clock','C09 E03',[(D+'dynamics/gate.go','	case gateStateClosed:\n		if inputDB > g.threshold {\n','	case gateStateClosed:\n		g.holdCounter++\n		if g.holdCounter > 100000 && inputDB > g.threshold-3 || inputDB > g.threshold {\n')]),
('u-lim-clock','C09 E04',[(D+'envelope/detector.go','		} else {\n			// Release (with hold for peak hold mode)\n','		} else {\n			if inputLevel == 0 {\n				d.envelope *= 0.99999\n				d.envelope += 1e-9\n			}\n			// Release (with hold for peak hold mode)\n')]),
('u-delay-pos','C09 D03',[(D+'delay/delay.go','	readPos := float64(d.writePos) - delaySamples','	readPos := float64(float32(d.writePos)) - delaySamples')]),
('u-delay-frac','C09 D03',[(D+'delay/delay.go','	frac := float32(readPos - float64(readPosInt))','	frac := float32(readPos) - float32(readPosInt)')]),
('u-rms-drift','C09 D06',[(D+'envelope/detector.go','		d.rmsIndex = (d.rmsIndex + 1) % d.rmsWindowLen\n','		d.rmsIndex = (d.rmsIndex + 1) % d.rmsWindowLen\n		if d.rmsIndex == 0 && d.rmsSum < 1e-4 {\n			d.rmsSum = 0\n		}\n')]),
]
