D='pkg/framework/'
P=[
dict(id='B01',built=True,title='Parameter automation is delivered complete, in order and in place',
 statement='''The parameter changes queued for a block, however many, are delivered sorted by sample offset, changes at one offset in the order they were queued, each with its identifier, offset and value intact; applying them in turn leaves every parameter at its last point and unknown identifiers are harmless, the context reads back the applied values, and resetting leaves nothing for the next block.''',
 over=['inputs','histories'],q='all sequences of queued changes, offsets, values and block sizes over many blocks',
 why='Tests queue a few changes with distinct offsets; stability of equal offsets, capacity and block edges are not covered.',
 files=[D+'process/context.go'],mech=[('sorted change list','process.Context.AddParameterChange / SortParameterChanges'),('reuse across blocks','process.Context.ClearParameterChanges / ResetParameterChanges')],
 tech='reference-model monitor over multi-block automation histories',note='Random histories of blocks, beyond the pre-allocated space too, all offset patterns judged by an independent model.'),
dict(id='B02',built=True,title='Process-context helpers touch exactly the audio they name',
 statement='''Channel and sample counts match the buffers given; pass-through and copy reproduce each input channel on the same output and leave surplus outputs alone, clear zeroes every output sample, the work buffers have the block length and share no memory with the audio or each other; the per-channel, mono, stereo and per-sample helpers visit each existing channel pair (and sample) once in order with the right buffers and never modify the input. Main, sidechain and indexed bus lookups return the first matching bus or nothing, only active buses are visited, and pass-through and clear cover every bus.''',
 over=['inputs','configurations'],q='all bus layouts, channel counts, block sizes and buffer contents',
 why='Tests use stereo in and out; unequal, missing and many-channel layouts are not exercised.',
 files=[D+'process/context.go',D+'process/multibus.go',D+'process/helpers.go'],mech=[('channel loops','process.Context helpers'),('bus indexing','process.MultiBusContext')],
 tech='reference-model monitor over generated bus layouts',note='Every buffer holds unique sample values, compared whole with a reference copy after every call.'),
dict(id='B03',built=True,title='Transport positions and tempo conversions are consistent',
 statement='''For every position (before the project start too), bars and beats recompose to the musical position, the beat lies within the bar, the phase within the beat is the fractional distance from the bar start in beats and lies in 0 to 1, on-beat is true exactly within the threshold of a beat, samples per beat times tempo is sixty sample rates, and missing, zero or negative tempo and time signature give the documented neutral result instead of nonsense.''',
 over=['inputs'],q='all positions (negative too), tempos, sample rates and time signatures',
 why='Tests check one position at 120 BPM in 4/4.',
 files=[D+'process/context.go'],mech=[('beat and bar arithmetic','process.TransportInfo')],
 tech='algebraic-invariant monitor over generated transports',note='Random and boundary transports against exact reference arithmetic.'),
dict(id='B04',built=True,title='The MIDI event queue keeps every event, ordered by sample offset',
 statement='''Events read for a range (start inclusive, end exclusive) are exactly those added with offsets in it, sorted by offset and in insertion order within one offset; reading loses, duplicates or alters nothing and does not expose later changes; adding, removing processed events, shifting, counting and clearing agree with a plain list for every event type; the input and output sides of an event buffer and of the process context are independent and hand the processor the same events in the same order.''',
 over=['inputs','histories'],q='all sequences of queue operations and event mixtures',
 why='Tests check a few adds; stability, range edges and mixed operations are not covered.',
 files=['pkg/midi/queue.go','pkg/midi/events.go',D+'process/context.go'],mech=[('event list under mutex','midi.EventQueue')],
 tech='model-based history monitor',note='Random operation histories of up to hundreds of events compared with a list model after each step.'),
dict(id='B05',built=True,title='The MIDI event queue is linearizable under concurrent use',
 statement='''With several goroutines adding, reading, counting and clearing, every operation behaves as if it took effect at one instant: no event is lost, duplicated or torn, readers always see an ordered list, a returned list belongs to its caller, and there is no data race.''',
 over=['schedules'],q='all interleavings of queue operations from several goroutines',
 why='Tests use one goroutine; a read lock taken around a sort is only wrong under concurrency.',
 files=['pkg/midi/queue.go'],mech=[('mutex around the event list','midi.EventQueue')],
 tech='linearizability check of recorded histories, flow conservation monitor, race detector',note='Small histories are checked exactly, long streams by conservation; the same workload also runs race-instrumented.'),
dict(id='B06',built=True,title='MIDI value conversions are exact, total and mutually inverse',
 statement='''Every note number converts to its equal-tempered frequency (within a cent, any A4) and back to itself, the nearest note is found for any frequency and out-of-range or non-finite input gives a note in 0 to 127 and terminates, frequency rises with note, note names follow the documented octave numbering, every event reports its own type, channel and offset, and a pitch bend value normalizes to value/8192 in -1 to 1.''',
 over=['inputs'],q='all notes, frequencies, names, bend values and hostile numbers',
 why='Tests check A4 and a few neighbours; rounding fails only for particular notes and non-finite input is never tried.',
 files=['pkg/midi/events.go'],mech=[('equal temperament formula','midi.NoteToFrequency / FrequencyToNote')],
 tech='exhaustive sweep plus hostile-value monitor',note='Exhaustive over the discrete domains, random and hostile over frequencies.'),
dict(id='B07',built=True,title='Voice allocation never leaves a note stuck, lost or doubled',
 statement='''In every mode a note-on sounds the note if the stealing rule allows it, never on more voices than the limit (lowering it lets the excluded voices go), stealing takes the voice the chosen rule names; a note-off releases exactly the voices its note started and still owns, a held pedal defers release until it is lifted and a re-struck note outlives the pedal, mono keeps one voice, legato does not retrigger overlapping notes, unison starts and releases every voice, reset silences everything, and once all keys and the pedal are up no voice stays held.''',
 over=['histories'],q='all sequences of notes, pedal, mode, limit and reset operations and all voice lifetimes',
 why='Tests play a few notes; re-strikes under the pedal, stolen voices and note 0 need specific multi-step histories.',
 files=[D+'voice/allocator.go'],mech=[('note to voice map','voice.Allocator.noteToVoice'),('stealing','voice.Allocator.stealVoice')],
 tech='reference-model monitor with instrumented voices over random histories',note='Histories of up to 60 operations with mock voices that record triggers, releases and stops.'),
]
