P='pkg/framework/param/'; S='pkg/framework/state/manager.go'; C='pkg/framework/process/context.go'; MB='pkg/framework/process/multibus.go'; HP='pkg/framework/process/helpers.go'; Q='pkg/midi/queue.go'; E='pkg/midi/events.go'; V='pkg/framework/voice/allocator.go'
B=[
('a01-eps','A01',[(P+'parameter.go','	} else if value > 1 {\n		value = 1','	} else if value > 1-1e-9 {\n		value = 1')]),
('a01-nonatomic','A01',[(P+'parameter.go','atomic.StoreUint64(&p.value, float64bits(value))','p.value = float64bits(value)')]),
('a01-default','A01',[(P+'builder.go','b.param.DefaultValue = b.param.Normalize(value)','b.param.DefaultValue = (value - b.param.Min) / (b.param.Max - b.param.Min)')]),
('a02-alias','A02',[(P+'builders.go','strings.EqualFold(normalizedStr, strings.ToLower(alias))','normalizedStr == alias')]),
('a02-trunc','A02',[(P+'parameter.go','return fmt.Sprintf("%.0f", plain)','return fmt.Sprintf("%d", int(plain))')]),
('a02-negmin','A02',[(P+'parameter.go','	normalized := (plain - p.Min) / (p.Max - p.Min)\n	p.SetValue(normalized)','	normalized := (plain - p.Min) / (p.Max - p.Min)\n	if p.StepCount > 0 {\n		normalized = float64(int(normalized*float64(p.StepCount))) / float64(p.StepCount)\n	}\n	p.SetValue(normalized)')]),
('a03-ratio','A03',[(P+'builders.go','if v >= 100 {','if v >= 50 {')]),
('a03-note','A03',[(P+'formatters.go','number := int(math.Round(noteNumber))','number := int(noteNumber)')]),
('a03-pan','A03',[(P+'formatters.go','} else if pan < 0 {\n		return fmt.Sprintf("%.0fL", -pan*100)','} else if pan < -0.5 {\n		return fmt.Sprintf("%.0fL", -pan*100)')]),
('a03-us','A03',[(P+'formatters.go','return val / 1000, nil // Convert to ms','return val / 100, nil // Convert to ms')]),
('a03-panic','A03',[(P+'formatters.go','	noteName := str[:octaveStart]','	if str[0] != \'-\' && str[octaveStart+1:] == "" && str[octaveStart] == \'-\' {\n		octaveStart += 2\n	}\n	noteName := str[:octaveStart]')]),
('a04-return','A04',[(P+'registry.go','continue // Skip duplicates','return nil // Skip duplicates')]),
('a04-split','A04',[(P+'registry.go','''	r.mu.Lock()
	defer r.mu.Unlock()

	for _, p := range params {
		if _, exists := r.params[p.ID]; exists {
			continue // Skip duplicates
		}
		r.params[p.ID] = p
		r.order = append(r.order, p.ID)
	}
''','''	for _, p := range params {
		r.mu.RLock()
		_, exists := r.params[p.ID]
		r.mu.RUnlock()
		if exists {
			continue // Skip duplicates
		}
		r.mu.Lock()
		r.params[p.ID] = p
		r.order = append(r.order, p.ID)
		r.mu.Unlock()
	}
''')]),
('a05-next','A05',[(P+'registry_auto.go','if p.ID >= r.nextID.Load() {','if p.ID > r.nextID.Load() {')]),
('a05-name','A05',[(P+'registry_auto.go','r.nameToID[p.Name]; exists {','r.nameToID[p.Name]; exists && p.ID == 0 {')]),
('a05-reserve','A05',[(P+'registry_auto.go','	r.mu.Lock()\n	defer r.mu.Unlock()\n	return r.nextID.Add(count) - count','	return r.nextID.Add(count) - count')]),
('a05-multi','A05',[(P+'registry_auto.go','			p.ID = existingID\n			r.params[existingID] = p\n			continue','			p.ID = existingID\n			r.params[existingID] = p\n			break')]),
('a06-enable','A06',[(P+'smoother.go','if changed || !enabled {','if (changed && len(sp.Name) < 0) || !enabled {')]),
('a06-rate','A06',[(P+'smoother.go','samples := sampleRate * targetTimeMs / 1000.0','samples := math.Min(sampleRate, 96000) * targetTimeMs / 1000.0')]),
('a06-setrate','A06',[(P+'smoother.go','	s.rate = rate\n}','	if s.isSmoothing && s.smoothingType == LinearSmoothing && rate > 0 {\n		s.step = (s.target - s.current) / s.rate\n	}\n	s.rate = rate\n}')]),
('a06-expdone','A06',[(P+'smoother.go','if math.Abs(s.current-s.target) < s.threshold {\n			s.current = s.target','if math.Abs(s.current-s.target) < s.threshold {')]),
('a07-readonly','A07',[(S,'param := m.registry.Get(id); param != nil {','param := m.registry.Get(id); param != nil && param.Flags&(1<<1) == 0 {')]),
('a07-count','A07',[(S,'		value := param.GetValue()\n','		value := param.GetValue()\n		if value < 1e-300 {\n			value = 0\n		}\n')]),
('a08-eof','A08',[(S,'	var hasCustom uint32\n	if err := binary.Read(r, binary.LittleEndian, &hasCustom); err != nil {','	var hasCustom uint32\n	if err := binary.Read(r, binary.LittleEndian, &hasCustom); err != nil && err != io.EOF {')]),
('a08-customeof','A08',[(S,'return m.customLoad(r)','if err := m.customLoad(r); err != io.EOF {\n				return err\n			}\n			return nil')]),
('a08-neg','A08',[(S,'if paramCount < 0 {','if paramCount < -1 {')]),
('b01-unstable','B01',[(C,'slices.SortStableFunc(','slices.SortFunc(')]),
('b01-limit','B01',[(C,'	// Grow past the','	if c.changeCount >= 2048 {\n		return\n	}\n	// Grow past the')]),
('b02-overlap','B02',[(C,'		workBuffer:   make([]float32, maxBlockSize),\n		tempBuffer:   make([]float32, maxBlockSize),','		workBuffer:   shared[:maxBlockSize],\n		tempBuffer:   shared[max(maxBlockSize-1, 0):],'),(C,'	return &Context{\n		work','	shared := make([]float32, 2*maxBlockSize)\n	return &Context{\n		work')]),
('b02-sidechain','B02',[(MB,'''		if busBuffers.BusInfo.BusType == bus.TypeAux {
			return m.InputBuses[i].Channels
		}
	}
	return nil''','''		if busBuffers.BusInfo.BusType == bus.TypeAux && i > 0 {
			return m.InputBuses[i].Channels
		}
	}
	return nil''')]),
('b02-inactive','B02',[(MB,'		inChannels := m.InputBuses[busIdx].Channels\n','		if !m.OutputBuses[busIdx].BusInfo.IsActive {\n			continue\n		}\n		inChannels := m.InputBuses[busIdx].Channels\n')]),
('b02-samples','B02',[(HP,'	numSamples := ctx.NumSamples()\n','	numSamples := ctx.NumSamples()\n	if numSamples > 4096 {\n		numSamples = 4096\n	}\n')]),
('b03-den','B03',[(C,'if t.HasTimeSignature && t.TimeSigDenominator > 0 {','if t.HasTimeSignature && t.TimeSigDenominator > 0 && t.TimeSigNumerator > 1 {')]),
('b03-onbeat','B03',[(C,'beatPos > (1.0-threshold)','(t.IsPlaying && beatPos > (1.0-threshold))')]),
('b04-remove','B04',[(Q,'SampleOffset() > upToSample','SampleOffset() >= upToSample')]),
('b04-cont','B04',[(Q,'		case ContinueEvent:\n			e.Offset += offset\n			q.events[i] = e\n','')]),
('b04-alias','B04',[(Q,'	result := make([]Event, endIdx-startIdx)\n	copy(result, q.events[startIdx:endIdx])\n	return result','	return q.events[startIdx:endIdx:endIdx]')]),
('b04-sorted','B04',[(Q,'	q.events = append(q.events, events...)\n	q.sorted = false','	q.sorted = q.sorted && (len(q.events) == 0 || q.events[len(q.events)-1].SampleOffset() <= events[0].SampleOffset()) && len(events) < 2\n	q.events = append(q.events, events...)\n	if !q.sorted && len(q.events) == len(events) && events[0].SampleOffset() <= events[len(events)-1].SampleOffset() {\n		q.sorted = true\n	}')]),
('b05-rlock','B05',[(Q,'func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {\n	q.mu.Lock()\n	defer q.mu.Unlock()','func (q *EventQueue) GetEventsInRange(startSample, endSample int32) []Event {\n	q.mu.RLock()\n	defer q.mu.RUnlock()')]),
('b05-split','B05',[(Q,'''	q.mu.Lock()
	defer q.mu.Unlock()

	q.events = append(q.events, events...)
	q.sorted = false''','''	for _, e := range events {
		q.Add(e)
	}''')]),
('b06-ftn','B06',[(E,'return uint8(note + 0.5)','return uint8(note + 0.49)')]),
('b06-a4','B06',[(E,'	if tuningA4 == 0 {\n		tuningA4 = 440.0\n	}\n	note :=','	if tuningA4 <= 400 {\n		tuningA4 = 440.0\n	}\n	note :=')]),
('b07-pedal','B07',[(V,'			a.NoteOff(note, 0)\n		}\n		a.sustainedNotes = make(map[uint8]bool)\n	}','			a.NoteOff(note, 0)\n		}\n	}\n	a.sustainedNotes = make(map[uint8]bool)')]),
('b07-restrike','B07',[(V,'	delete(a.sustainedNotes, note)\n','	if a.mode != ModeMono {\n		delete(a.sustainedNotes, note)\n	}\n')]),
('b07-reset','B07',[(V,'	a.sustainPedal = false\n','')]),
('b07-unison','B07',[(V,'		for _, idx := range voices {\n			a.voices[idx].ReleaseNote()\n		}\n		delete(a.noteToVoice, note)\n		a.currentNote = 0','		for _, idx := range voices {\n			if idx < a.maxVoices {\n				a.voices[idx].ReleaseNote()\n			}\n		}\n		delete(a.noteToVoice, note)\n		a.currentNote = 0')]),
('b07-rr','B07',[(V,'idx := (start + i + 1) % a.maxVoices','idx := (start + i + 1) % len(a.voices)')]),
('b07-quiet','B07',[(V,'if bestIdx == -1 || amp < bestValue {','if bestValue == 0 || amp < bestValue {')]),
('b07-stealkeep','B07',[(V,'if idx == bestIdx {','if idx == bestIdx && a.stealingMode != StealQuietest {')]),
('b07-pedalon','B07',[(V,'	if !on {\n		// Release','	if on || !on {\n		// Release')]),
('b07-age0','B07',[(V,'if bestIdx == -1 || age > bestValue {','if age > bestValue {')]),
]
