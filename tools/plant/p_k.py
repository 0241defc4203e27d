# voices, chains, buses: histories
F='pkg/framework/'; D='pkg/dsp/'
Q=F+'voice/allocator.go'
B=[
('k-steal-held','B07',[(Q,'		if voices, exists := a.noteToVoice[stolenNote]; exists {\n			for i, idx','		if voices, exists := a.noteToVoice[stolenNote]; exists && a.sustainPedal {\n			delete(a.noteToVoice, stolenNote)\n		} else if exists {\n			for i, idx')]),
('k-sus-again','B07',[(Q,'	a.sustainPedal = on\n	if !on {','	if on && !a.sustainPedal || len(a.sustainedNotes) > 16 {\n		clear(a.sustainedNotes)\n	}\n	a.sustainPedal = on\n	if !on {')]),
('k-sus-half','B07',[(Q,'	a.sustainPedal = on\n	if !on {','	if on {\n		clear(a.sustainedNotes)\n	}\n	a.sustainPedal = on\n	if !on {')]),
('k-legato-off','B07',[(Q,'	if _, playing := a.noteToVoice[note]; playing {\n		a.voices[0]','	if _, playing := a.noteToVoice[note]; playing && (a.mode == ModeMono || note == a.currentNote && a.previousNote != note) {\n		a.voices[0]')]),
('k-unison-one','B07',[(Q,'	if voices, playing := a.noteToVoice[note]; playing {\n		for _, idx := range voices {\n			a.voices[idx].ReleaseNote()','	if voices, playing := a.noteToVoice[note]; playing {\n		for _, idx := range voices[:min(len(voices), 16)] {\n			a.voices[idx].ReleaseNote()')]),
('k-steal-none','B07',[(Q,'	if a.stealingMode == StealNone {\n		return -1','	if a.stealingMode == StealNone && a.lastTriggered < a.maxVoices {\n		return -1')]),
('k-note0','B07',[(Q,'		if voices, exists := a.noteToVoice[stolenNote]; exists {','		if voices, exists := a.noteToVoice[stolenNote]; exists && stolenNote > 0 {')]),
('k-count','B07',[(Q,'		if !a.voices[i].IsActive() {\n			continue\n		}\n\n		switch','		if !a.voices[i].IsActive() || a.voices[i].GetNote() == a.currentNote && a.stealingMode == StealLowest {\n			continue\n		}\n\n		switch')]),
('k-chain-nil','F03',[(F+'dsp/chain.go','	copy(dry, buffer)\n','	copy(dry[:min(len(dry), 4096)], buffer)\n')]),
('k-mb-clear','B02',[(F+'process/multibus.go','			for i := range bus.Channels[ch] {\n				bus.Channels[ch][i] = 0\n			}','			if len(bus.Channels[ch]) == len(bus.Channels[0]) {\n				clear(bus.Channels[ch])\n			}')]),
('k-mb-main','B02',[(F+'process/multibus.go','	for i, busBuffers := range m.OutputBuses {\n		if busBuffers.BusInfo.BusType == bus.TypeMain {','	for i, busBuffers := range m.OutputBuses {\n		if busBuffers.BusInfo.BusType == bus.TypeMain && len(busBuffers.Channels) > 0 {')]),
]
