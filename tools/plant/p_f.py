P='pkg/framework/'
BB=P+'bus/builder.go';BU=P+'bus/bus.go';BT=P+'bus/templates.go';CH=P+'dsp/chain.go';AD=P+'dsp/adapters.go';AU=P+'debug/audio.go';LO=P+'debug/logger.go';PR=P+'debug/profiler.go';IN=P+'plugin/info.go';BA=P+'plugin/base.go';PC=P+'plugin/processor.go';DB='pkg/dsp/debug/buffer_debug.go'
B=[
('f01-share','F01',[(BB,'append([]Info(nil), b.config.eventBuses...)','b.config.eventBuses')]),
('f01-sharea','F01',[(BB,'append([]Info(nil), b.config.audioBuses...)','b.config.audioBuses[:len(b.config.audioBuses):len(b.config.audioBuses)]')]),
('f01-evonly','F01',[(BB,'			if bus.Direction == DirectionOutput && bus.BusType == TypeMain {\n				hasMainOutput = true\n				break\n			}\n		}\n	}\n\n	if','			if bus.BusType == TypeMain {\n				hasMainOutput = true\n				break\n			}\n		}\n	}\n\n	if')]),
('f01-33','F01',[(BB,'if bus.ChannelCount > 32 {','if bus.ChannelCount > 32 && bus.BusType == TypeMain {')]),
('f01-inact','F01',[(BB,'		if bus.ChannelCount <= 0 {','		if bus.ChannelCount <= 0 && bus.IsActive {')]),
('f01-errs','F01',[(BB,'	b.errors = append(b.errors, fmt.Errorf("bus not found: mediaType=%d, direction=%d, index=%d", mediaType, direction, index))\n	return b','	if active {\n		b.errors = append(b.errors, fmt.Errorf("bus not found: mediaType=%d, direction=%d, index=%d", mediaType, direction, index))\n	}\n	return b')]),
('f01-unk','F01',[(BU,'	case MediaTypeEvent:\n		return c.eventBuses\n	default:\n		return nil','	default:\n		return c.eventBuses')]),
('f01-actout','F01',[(BU,'		if bus.Direction == DirectionOutput && bus.IsActive {\n			count += bus.ChannelCount','		if bus.Direction == DirectionOutput && bus.IsActive && bus.BusType == TypeMain {\n			count += bus.ChannelCount')]),
('f01-scinact','F01',[(BU,'		if bus.Direction == DirectionInput && bus.BusType == TypeAux {\n			return &c.audioBuses[i]','		if bus.Direction == DirectionInput && bus.BusType == TypeAux && (bus.IsActive || i > 0) {\n			return &c.audioBuses[i]')]),
('f01-sclast','F01',[(BU,'	for i, bus := range c.audioBuses {\n		if bus.Direction == DirectionInput && bus.BusType == TypeAux {\n			return &c.audioBuses[i]\n		}\n	}\n	return nil','	var found *Info\n	for i, bus := range c.audioBuses {\n		if bus.Direction == DirectionInput && bus.BusType == TypeAux {\n			found = &c.audioBuses[i]\n		}\n	}\n	return found')]),
('f01-addev','F01',[(BU,'	c.eventBuses = append(c.eventBuses, Info{\n		MediaType:    MediaTypeEvent,\n		Direction:    direction,\n		ChannelCount: 1,\n		Name:         name,\n		BusType:      TypeMain,\n		IsActive:     true,','	c.eventBuses = append(c.eventBuses, Info{\n		MediaType:    MediaTypeEvent,\n		Direction:    direction,\n		ChannelCount: 1,\n		Name:         name,\n		BusType:      TypeMain,\n		IsActive:     direction == DirectionInput,')]),
('f01-copyinfo','F01',[(BU,'			if busIndex == index {\n				return &buses[i]','			if busIndex == index {\n				info := buses[i]\n				return &info')]),
('f01-auxev','F01',[(BB,'ChannelCount: channels,\n		Name:         name,\n		BusType:      TypeAux,\n		IsActive:     false, // Aux buses start inactive by default\n	})\n	return b\n}\n\n// WithEventInput','ChannelCount: channels,\n		Name:         name,\n		BusType:      TypeAux,\n		IsActive:     channels == 1, // Aux buses start inactive by default\n	})\n	return b\n}\n\n// WithEventInput')]),
('f01-tpl','F01',[(BT,'	for i := 0; i < numSends; i++ {','	for i := 0; i < min(numSends, 16); i++ {')]),
('f01-split','F01',[(BT,'b = b.WithStereoOutput(fmt.Sprintf("Output %d", i+1))','b = b.WithStereoOutput(fmt.Sprintf("Output %d", i%8+1))')]),
('f01-71','F01',[(BB,'	return b.WithAudioInput(name, 8)','	return b.WithAudioInput(name, 7)')]),
('f02-uid','F02',[(IN,'	hash := md5.Sum([]byte(i.ID))','	hash := md5.Sum([]byte(i.ID[:min(len(i.ID), 64)]))')]),
('f02-uidver','F02',[(IN,'	hash := md5.Sum([]byte(i.ID))','	id := i.ID\n	if i.Version != "" && len(id) > 40 {\n		id += i.Version\n	}\n	hash := md5.Sum([]byte(id))')]),
('f02-variant','F02',[(IN,'(hash[8] & uuidVariantMask)','(hash[8] & 0x7f)')]),
('f02-reset','F02',[(PC,'	if !active && b.onReset != nil {\n		b.onReset()\n	}\n','	if !active && b.onReset != nil && b.onSetActive == nil {\n		b.onReset()\n	}\n')]),
('f02-initsr','F02',[(PC,'	b.sampleRate = sampleRate\n	\n	if b.onInitialize != nil {\n		return b.onInitialize(sampleRate, maxBlockSize)\n	}','	if b.onInitialize != nil {\n		err := b.onInitialize(sampleRate, maxBlockSize)\n		b.sampleRate = sampleRate\n		return err\n	}\n	b.sampleRate = sampleRate')]),
('f02-infocopy','F02',[(BA,'	// Initialize state manager','	b.Info.Name = info.Name + ""\n	if info.Category == "" {\n		b.Info.Category = "Fx"\n	}\n	// Initialize state manager')]),
('f02-initerr','F02',[(PC,'	if b.onSetActive != nil {\n		return b.onSetActive(active)\n	}','	if b.onSetActive != nil {\n		err := b.onSetActive(active)\n		if active {\n			return err\n		}\n	}')]),
('f02-registry','F02',[(PC,'	return b.params\n}\n\n// GetBuses','	return b.params\n}\n\nvar shared = param.NewRegistry()\n\n// GetBuses'),]),
('f03-resetbyp','F03',[(CH,'func (c *Chain) Reset() {\n','func (c *Chain) Reset() {\n	if c.bypass {\n		return\n	}\n')]),
('f03-parreset','F03',[(CH,'func (p *ParallelChain) Reset() {\n	for _, chain := range p.chains {\n		chain.Reset()','func (p *ParallelChain) Reset() {\n	for j, chain := range p.chains {\n		if p.gains[j] == 0 {\n			continue\n		}\n		chain.Reset()')]),
('f03-parskip','F03',[(CH,'		copy(temp, dry)\n		chain.Process(temp)\n','		if p.gains[j] == 0 {\n			continue\n		}\n		copy(temp, dry)\n		chain.Process(temp)\n')]),
('f03-partemp','F03',[(CH,'		copy(temp, dry)\n		chain.Process(temp)','		if j == 0 || len(p.chains) < 4 {\n			copy(temp, dry)\n		}\n		chain.Process(temp)')]),
('f03-cap','F03',[(CH,'	dry, temp := p.dry[:len(buffer)], p.temp[:len(buffer)]','	dry, temp := p.dry[:len(buffer)], p.temp[:cap(p.temp)]')]),
('f03-paralloc','F03',[(CH,'	if cap(p.dry) < len(buffer) {','	if len(p.dry) != len(buffer) {')]),
('f03-parbyp','F03',[(CH,'	if p.bypass || len(p.chains) == 0 {\n		return\n	}','	if p.bypass {\n		return\n	}')]),
('f03-named','F03',[(CH,'func (n *namedProcessor) Process(buffer []float32) {\n	n.process.Process(buffer)','func (n *namedProcessor) Process(buffer []float32) {\n	n.process.Process(buffer[:len(buffer):cap(buffer)])')]),
('f03-buildshare','F03',[(CH,'	chain.processors = append([]StereoProcessor(nil), b.chain.processors...)\n','')]),
('f03-buildshare1','F03',[(CH,'	chain.processors = append([]Processor(nil), b.chain.processors...)\n','')]),
('f03-stbyp','F03',[(CH,'	for _, processor := range c.processors {\n		processor.ProcessStereo(left, right)','	for i, processor := range c.processors {\n		if i > 0 && len(left) == 0 {\n			break\n		}\n		processor.ProcessStereo(left, right[:len(left)])')]),
('f03-compad','F03',[(AD,'func (a *CompressorAdapter) Reset() {\n	a.comp.Reset()','func (a *CompressorAdapter) Reset() {')]),
('f03-noisemix','F03',[(AD,'	a.mix = mix\n','	a.mix = min(mix, 1)\n')]),
('f03-dcblock','F03',[(AD,'	a.blocker.Reset()\n','')]),
('f04-level','F04',[(LO,'l.enabled && level >= l.level','l.enabled && (level >= l.level || level == LogLevelFatal)')]),
('f04-recheck','F04',[(LO,'	msg := fmt.Sprintf(format, args...)\n	\n','	msg := format\n	if len(args) > 0 {\n		msg = fmt.Sprintf(format, args...)\n	}\n')]),
('f04-lock','F04',[(LO,'	// Format the arguments before taking the lock: their String or Error methods may log too\n	msg := fmt.Sprintf(format, args...)\n	\n	l.mu.Lock()\n	defer l.mu.Unlock()\n','	l.mu.Lock()\n	defer l.mu.Unlock()\n	msg := fmt.Sprintf(format, args...)\n')]),
('f04-two','F04',[(LO,'	// Add the actual message\n	sb.WriteString(msg)\n','	// Add the actual message\n	if len(msg) > 4096 {\n		l.output.Write([]byte(sb.String()))\n		sb.Reset()\n	}\n	sb.WriteString(msg)\n')]),
('f04-nl','F04',[(LO,'	if !strings.HasSuffix(msg, "\\n") {','	if !strings.Contains(msg, "\\n") {')]),
('f04-skip','F04',[(LO,'		defaultLogger.log(1, LogLevelWarn, format, args...)\n	}','		defaultLogger.Warn(format, args...)\n	}')]),
('f04-fatal','F04',[(LO,'	l.log(1, LogLevelFatal, format, args...)\n	panic','	l.log(1, LogLevelFatal, format, args...)\n	if !l.IsEnabled() {\n		return\n	}\n	panic')]),
('f04-race','F04',[(LO,'func (l *Logger) SetPrefix(prefix string) {\n	l.mu.Lock()\n	defer l.mu.Unlock()\n','func (l *Logger) SetPrefix(prefix string) {\n')]),
('f04-outrace','F04',[(LO,'	// Write to output\n	l.output.Write','	// Write to output\n	l.mu.Unlock()\n	defer l.mu.Lock()\n	l.output.Write')]),
('f04-trunc','F04',[(LO,'os.O_CREATE|os.O_WRONLY|os.O_APPEND','os.O_CREATE|os.O_WRONLY')]),
('f04-longfile','F04',[(LO,'			if l.flags&FlagShortFile != 0 {','			if l.flags&FlagLongFile == 0 || len(file) > 200 {')]),
('f04-timefmt','F04',[(LO,'15:04:05.000 ','03:04:05.000 ')]),
('f04-percent','F04',[(LO,'sb.WriteString(fmt.Sprintf("[%s] ", l.prefix))','sb.WriteString(fmt.Sprintf("["+l.prefix+"] "))')]),
('f04-utc','F04',[(LO,'time.Now().Format("2006','time.Now().UTC().Format("2006')]),
('f04-fatalfmt','F04',[(LO,'	defaultLogger.log(1, LogLevelFatal, format, args...)\n	panic(fmt.Sprintf(format, args...))','	defaultLogger.log(1, LogLevelFatal, format, args...)\n	panic(format)')]),
('f05-snap','F05',[(PR,'	s.samples = append([]time.Duration(nil), m.samples...)\n','')]),
('f05-min','F05',[(PR,'			minTime:  elapsed,\n','')]),
('f05-maxfirst','F05',[(PR,'	if elapsed < m.minTime {\n		m.minTime = elapsed\n	}\n	if elapsed > m.maxTime {','	if elapsed < m.minTime {\n		m.minTime = elapsed\n	} else if elapsed > m.maxTime && m.count > 2 {')]),
('f05-pct','F05',[(PR,'	if !(p > 0) {\n		p = 0\n	} else if p > 100 {\n		p = 100\n	}\n','	if p < 0 {\n		p = 0\n	} else if p > 100 {\n		p = 100\n	}\n')]),
('f05-pct1','F05',[(PR,'	if !(p > 0) {','	if !(p > 1) {')]),
('f05-pctorder','F05',[(PR,'	index := int(float64(len(validSamples)-1) * p / 100.0)','	index := int(float64(len(validSamples)) * p / 100.0)\n	if index >= len(validSamples) {\n		index = len(validSamples) - 1\n	}')]),
('f05-wrap','F05',[(PR,'		m.sampleIndex = (m.sampleIndex + 1) % p.maxSamples','		if m.sampleIndex < p.maxSamples-1 {\n			m.sampleIndex++\n		}')]),
('f05-panic','F05',[(PR,'	defer stop()\n	fn()\n','	fn()\n	stop()\n')]),
('f05-disable','F05',[(PR,'		elapsed := time.Since(start)\n		p.record(name, elapsed)','		elapsed := time.Since(start)\n		if elapsed > 0 && p.enabled.Load() {\n			p.record(name, elapsed)\n		}')]),
('f05-race','F05',[(PR,'	p.mu.RLock()\n	defer p.mu.RUnlock()\n	\n	m, exists','	m, exists')]),
('f05-reset','F05',[(PR,'	p.measurements = make(map[string]*Measurement)\n}','	for _, m := range p.measurements {\n		*m = Measurement{name: m.name, samples: m.samples}\n	}\n}')]),
('f05-cpu','F05',[(PR,'	avgProcessTime := m.Average()','	avgProcessTime := m.lastTime')]),
('f05-cpuround','F05',[(PR,'a.cpuLoadPercent.Store(uint64(cpuLoad * 100))','a.cpuLoadPercent.Store(uint64(min(cpuLoad, 100) * 100))')]),
('f05-avg','F05',[(PR,'	return m.totalTime / time.Duration(m.count)\n}','	return (m.minTime + m.maxTime) / 2\n}')]),
('f05-start','F05',[(PR,'	start := time.Now()\n	\n	return func() {\n		elapsed := time.Since(start)','	start := time.Now()\n	\n	return func() {\n		elapsed := time.Since(start).Truncate(time.Microsecond)')]),
('f06-zc','F06',[(AU,'if i > 0 && ((lastSample < 0 && sample >= 0) || (lastSample >= 0 && sample < 0)) {','if i > 0 && ((lastSample < 0 && sample > 0) || (lastSample >= 0 && sample < 0)) {')]),
('f06-clipneg','F06',[(AU,'absSample >= a.clippingThreshold','sample >= a.clippingThreshold')]),
('f06-clipthr','F06',[(AU,'absSample >= a.clippingThreshold','absSample > a.clippingThreshold')]),
('f06-dcabs','F06',[(AU,'if math.Abs(float64(result.DC)) > float64','if float64(result.DC) > float64')]),
('f06-sil','F06',[(AU,'result.RMS < a.silenceThreshold {','result.RMS < a.silenceThreshold && result.Peak < a.silenceThreshold {')]),
('f06-f32','F06',[(AU,'		sumSquares += float64(sample) * float64(sample)','		sumSquares = float64(float32(sumSquares + float64(sample)*float64(sample)))')]),
('f06-dcbias','F06',[(AU,'		sum += float64(sample)\n','		sum = float64(float32(sum) + sample)\n')]),
('f06-cols','F06',[(AU,'	if columns > len(buffer) {\n		columns = len(buffer)\n	}','	if columns > len(buffer) {\n		columns = len(buffer)\n	} else {\n		columns = len(buffer) / ((len(buffer) + width - 1) / width)\n	}')]),
('f06-colneg','F06',[(AU,'(height < 0 && y < 0 && y >= height)','(height < 0 && y < 0 && y > height)')]),
('f06-cmpnan','F06',[(AU,'		if diff != diff {\n			diff = float32(math.Inf(1)) // NaN on one side only\n		}\n','')]),
('f06-cmpinf','F06',[(AU,'		if a[i] == b[i] || (','		if (')]),
('f06-cmptol','F06',[(AU,'		if diff > tolerance {','		if diff >= tolerance {')]),
('f06-cmplast','F06',[(AU,'	for i := 0; i < len(a); i++ {\n		if a[i] == b[i]','	for i := 0; i < len(a)-len(a)/4096; i++ {\n		if a[i] == b[i]')]),
('f06-cmpavg','F06',[(AU,'	avgDiff := totalDiff / float64(diffCount)','	avgDiff := totalDiff / float64(len(a))')]),
('f06-cmpidx','F06',[(AU,'			if diff > maxDiff {','			if diff >= maxDiff {')]),
('f06-dumpneg','F06',[(AU,'		} else if normalized < -1.0 {\n			normalized = -1.0\n		}\n','		}\n')]),
('f06-dumpfull','F06',[(AU,'		if barPos == barWidth {\n			barPos = barWidth - 1 // full scale is the last position\n		}\n','')]),
('f06-peakinf','F06',[(AU,'	if result.Peak > 1.0 {','	if result.Peak > 1.0 && !math.IsInf(float64(result.Peak), 0) {')]),
('f06-logsil','F06',[(AU,'	if result.Silent {\n		Info','	if result.Silent && !result.HasNaN {\n		Info')]),
('f06-checkfmt','F06',[(AU,'		Warn("%s", issue)','		Warn(issue)')]),
('g01-bytes','G01',[(DB,'globalTracker.frameBytes.Add(uint64(size * 4))','globalTracker.frameBytes.Add(uint64(capacity * 4))')]),
('g01-race','G01',[(DB,'func GetAllocationReport() string {\n	globalTracker.mu.RLock()\n	defer globalTracker.mu.RUnlock()\n','func GetAllocationReport() string {\n')]),
('g01-reset','G01',[(DB,'	globalTracker.frameAllocs.Store(0)\n	globalTracker.frameBytes.Store(0)\n}\n\n// CheckAllocation verifies','}\n\n// CheckAllocation verifies')]),
('g01-detect','G01',[(DB,'	if m2.Mallocs > m1.Mallocs {','	if m2.TotalAlloc-m1.TotalAlloc > 64 {')]),
('g01-heap','G01',[(DB,'	if m2.Mallocs > m1.Mallocs {','	if m2.HeapAlloc > m1.HeapAlloc {')]),
('g01-cap','G01',[(DB,'	if cap(buffer) == 0 {\n		panic(fmt.Sprintf("Buffer %s is not pre-allocated (capacity is 0)", name))\n	}\n	\n	// Track the allocation\n','	if len(buffer) == 0 {\n		panic(fmt.Sprintf("Buffer %s is not pre-allocated (capacity is 0)", name))\n	}\n	\n	// Track the allocation\n')]),
('g01-64','G01',[(DB,'	trackAllocation(name, len(buffer)*2, cap(buffer)*2)','	trackAllocation(name, len(buffer), cap(buffer)*2)')]),
('g01-reuse','G01',[(DB,'	if len(buffer) > 0 {\n		ptr','	if len(buffer) > 0 && expectedPtr == 0 || len(buffer) > 1 {\n		ptr')]),
('g01-pool','G01',[(DB,'	bp.inUse.Add(-1)\n	bp.pool.Put(buf)','	bp.pool.Put(buf)\n	bp.inUse.Add(-1)')]),
('g01-poolsz','G01',[(DB,'	if len(buf) != bp.size {','	if cap(buf) < bp.size {')]),
('g01-pooldup','G01',[(DB,'	bp.inUse.Add(-1)\n	bp.pool.Put(buf)','	bp.inUse.Add(-1)\n	bp.pool.Put(buf)\n	if bp.inUse.Load() > 8 {\n		bp.pool.Put(buf)\n	}')]),
('g01-stats','G01',[(DB,'	info.Count++\n','	if exists || size > 0 {\n		info.Count++\n	}\n')]),
('g01-dbl','G01',[(DB,'	fn()\n	\n	runtime.ReadMemStats(&m2)','	fn()\n	runtime.GC()\n	runtime.ReadMemStats(&m2)')]),
]
