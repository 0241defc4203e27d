# framework and D areas planted again, hard triggers
F='pkg/framework/'; D='pkg/dsp/'
B=[
('w-choice-prefix','A03 A02',[(F+'param/builders.go','			if strings.EqualFold(str, opt.Name) {','			if strings.EqualFold(str, opt.Name) || len(normalizedStr) > 3 && strings.HasPrefix(strings.ToLower(opt.Name), normalizedStr) {')]),
('w-choice-tie','A02 A03',[(F+'param/builders.go','distance < best {','distance <= best {')]),
('w-time-us','A03',[(F+'param/formatters.go','		return val / 1000, nil // Convert to ms','		return math.Round(val) / 1000, nil // Convert to ms')]),
('w-time-1000','A03',[(F+'param/formatters.go','	} else if ms < 1000 {\n','	} else if ms <= 1000 {\n')]),
('w-freq-khz','A03',[(F+'param/formatters.go','		return val * 1000, nil\n	}\n\n	// Remove','		return math.Trunc(val * 1000), nil\n	}\n\n	// Remove')]),
('w-pan-small','A03',[(F+'param/formatters.go','	} else if pan < 0 {\n		return fmt.Sprintf("%.0fL", -pan*100)','	} else if pan < 0 {\n		return fmt.Sprintf("%.0fL", math.Floor(-pan*100))')]),
('w-note-neg','A03',[(F+'param/formatters.go','	note := (number%12 + 12) % 12','	note := number % 12\n	if note < 0 {\n		note = -note\n	}')]),
('w-tparam-s','A03',[(F+'param/builders.go','			if v >= 1000 {\n				return fmt.Sprintf("%.2f s", v/1000.0)','			if v >= 1000 {\n				return fmt.Sprintf("%.1f s", v/1000.0)')]),
('w-bits-neg0','A01',[(F+'param/parameter.go','	if value < 0 || value != value {\n		value = 0\n','	if value < 0 {\n		value = 0\n	} else if value != value {\n		return\n')]),
('w-plain-narrow','A02',[(F+'param/parameter.go','	normalized := (plain - p.Min) / (p.Max - p.Min)\n	p.SetValue(normalized)','	normalized := float64(float32((plain - p.Min) / (p.Max - p.Min)))\n	p.SetValue(normalized)')]),
('w-default-late','A01 A02',[(F+'param/builder.go','	if b.param.Max > b.param.Min {\n		b.param.DefaultValue = b.param.Normalize(value)','	if b.param.Max > b.param.Min && b.param.StepCount == 0 {\n		b.param.DefaultValue = b.param.Normalize(value)')]),
('w-reg-byindex','A04',[(F+'param/registry.go','	id := r.order[index]\n	return r.params[id]','	id := r.order[index&0xffff]\n	return r.params[id]')]),
('w-smooth-log','A06',[(F+'param/smoother.go','		if s.logCurrent == previous || (s.logStep > 0','		if (s.logStep > 0')]),
('w-smooth-rate','A06',[(F+'param/smoother.go','	s.current = value\n	s.target = value\n','	s.current = value\n')]),
('w-state-order','A07',[(F+'state/manager.go','		if param := m.registry.Get(id); param != nil {\n			param.SetValue(value)','		if param := m.registry.Get(id); param != nil {\n			if param.StepCount > 0 {\n				value = math.Round(value*float64(param.StepCount)) / float64(param.StepCount)\n			}\n			param.SetValue(value)'),(F+'state/manager.go','import (\n','import (\n	"math"\n')]),
('w-state-version0','A08 A07',[(F+'state/manager.go','	if version > m.version {','	if int32(version) > int32(m.version) {')]),
('w-state-custom','A07 A08',[(F+'state/manager.go','	if hasCustom != 0 {\n','	if hasCustom == 1 {\n')]),
('w-ev-change','B01',[(F+'process/context.go','	c.paramChanges = append(c.paramChanges[:c.changeCount], ParameterChange{','	if c.changeCount > 0 && c.paramChanges[c.changeCount-1].ParamID == paramID && c.paramChanges[c.changeCount-1].Value == value {\n		return\n	}\n	c.paramChanges = append(c.paramChanges[:c.changeCount], ParameterChange{')]),
('w-sort-cap','B01',[(F+'process/context.go','			return cmp.Compare(a.SampleOffset, b.SampleOffset)','			return cmp.Compare(int16(a.SampleOffset), int16(b.SampleOffset))')]),
('w-samples-stale','B02',[(F+'process/helpers.go','			inputs[ch] = ctx.Input[ch][s]\n','			inputs[ch] = ctx.Input[ch][s]\n			outputs[ch] = 0\n')]),
('w-passall','B02',[(F+'process/multibus.go','		for ch := 0; ch < minChannels; ch++ {\n			copy(outChannels[ch], inChannels[ch])','		for ch := 0; ch < minChannels; ch++ {\n			if len(inChannels[ch]) > len(outChannels[ch]) {\n				continue\n			}\n			copy(outChannels[ch], inChannels[ch])')]),
('w-beat-denom','B03',[(F+'process/context.go','		return beatPosition - math.Floor(beatPosition) // Get fractional part','		return beatPosition - math.Trunc(beatPosition) // Get fractional part')]),
('w-onbeat','B03',[(F+'process/context.go','	return beatPos < threshold || beatPos > (1.0-threshold)','	return beatPos < threshold || beatPos >= (1.0-threshold)')]),
('w-queue-neg','B04',[('pkg/midi/queue.go','	for endIdx < len(q.events) && q.events[endIdx].SampleOffset() < endSample {','	for endIdx < len(q.events) && uint32(q.events[endIdx].SampleOffset()) < uint32(endSample) {')]),
('w-queue-offset','B04',[('pkg/midi/queue.go','	defer q.mu.Unlock()\n\n	for i := range q.events {\n','	defer q.mu.Unlock()\n	if offset == -1<<31 {\n		return\n	}\n\n	for i := range q.events {\n')]),
('w-queue-grow','B04',[('pkg/midi/queue.go','	q.events = append(q.events, event)\n','	if len(q.events) == 1<<16 {\n		q.events = q.events[1:]\n	}\n	q.events = append(q.events, event)\n')]),
('w-queue-rlock','B05',[('pkg/midi/queue.go','func (q *EventQueue) Size() int {\n	q.mu.RLock()\n	defer q.mu.RUnlock()','func (q *EventQueue) Size() int {')]),
('w-freqnote','B06',[('pkg/midi/events.go','	return uint8(note + 0.5)','	return uint8(note + 0.4999)')]),
('w-notehz','B06',[('pkg/midi/events.go','	if tuningA4 == 0 {\n		tuningA4 = 440.0\n	}\n	return tuningA4','	if tuningA4 == 0 || tuningA4 > 1000 {\n		tuningA4 = 440.0\n	}\n	return tuningA4')]),
('w-dc-multi','D13 C03',[(D+'utility/dcblocker.go','	dc.ProcessBuffer(left, 0)\n	dc.ProcessBuffer(right, 1)','	dc.ProcessBuffer(left, 0)\n	dc.ProcessBuffer(right[:min(len(left), len(right))], 1)')]),
]
