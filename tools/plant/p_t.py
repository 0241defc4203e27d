# D08 triggers of the scale round
D='pkg/dsp/'
B=[
('t8-lforand','D08',[(D+'modulation/lfo.go','		if l.randomCounter >= l.randomPeriod {','		if l.randomCounter >= min(l.randomPeriod, 1<<20) {')]),
('t8-lfophase','D08',[(D+'modulation/lfo.go','	l.phaseInc = l.frequency / l.sampleRate','	l.phaseInc = float64(float32(l.frequency / l.sampleRate))')]),
('t8-sync1','D08',[(D+'modulation/lfo.go','	if l.phase >= 1.0 {\n		l.phase -= 1.0\n	}','	if l.phase >= 1.0 {\n		l.phase = 0\n	}')]),
]
