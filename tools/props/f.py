def p(id,title,st,over,q,why,files,mech,tech,note):
    return dict(id=id,built=True,title=title,statement=st,over=over,q=q,why=why,files=files,mech=mech,tech=tech,note=note)
B='pkg/framework/bus/builder.go'; C='pkg/framework/bus/bus.go'; T='pkg/framework/bus/templates.go'; L='pkg/framework/debug/logger.go'; P='pkg/framework/debug/profiler.go'; A='pkg/framework/debug/audio.go'; H='pkg/framework/dsp/chain.go'; G='pkg/dsp/debug/buffer_debug.go'
P_=[
p('F01','A bus configuration is what was asked for and stays so',
 '''For every sequence of builder calls, Build succeeds exactly if there is a main output, all audio buses have 1 to 32 channels and no call named a bus that does not exist; the configuration then lists exactly the requested buses in order, with media type, direction, channel count, name, kind and active flag, answers every query (counts, bus by index, active buses, active channel totals, side-chain) from that list, has nothing for indices, directions and media types it does not have, changes only by its own SetBusActive and AddEventBus, and is independent of its builder, of later builds and of other configurations. The templates have the buses their names promise, with names that tell them apart.''',
 ['inputs','configurations','histories'],'all builder and configuration call sequences, bus counts, channel counts and query arguments','Tests build a few fixed layouts once and never reuse a builder.',
 [B,C,T],[('list building and validation','bus.Builder.Validate / Build'),('index search','bus.Configuration.GetBusInfo / SetBusActive')],
 'call-by-call comparison of random histories with an independent list model, all earlier configurations re-checked at the end','Up to 14 builder calls per configuration, templates up to 40 buses.'),
p('F02','A plug-in keeps its identity, and its base calls it back',
 '''A plug-in ID maps to one 16-byte class id, always the same: the published ids of the three shipped examples, otherwise the MD5 digest of the ID with the UUID version 4 and variant bits, whatever the other fields say; different IDs get different ids and only an empty ID is invalid. The plug-in base owns its registry. The base processor passes every initialize, activate, reset (on deactivation, before the callback) and process call with its arguments to exactly the callbacks that are set, in order, returns their errors, keeps the last sample rate before the callback runs, and defaults to stereo buses, no latency and no tail.''',
 ['inputs','histories'],'all identifiers and all sequences of callback registrations and host calls','Tests compare a few identifiers; the base processor has no test.',
 ['pkg/framework/plugin/info.go','pkg/framework/plugin/processor.go','pkg/framework/plugin/base.go'],[('class ids','plugin.Info.UID / generateDeterministicUID'),('callbacks','plugin.BaseProcessor.Initialize / SetActive')],
 'independent digest as oracle for random identifiers, call log of random callback programmes','Tens of thousands of identifiers including non-text bytes and near misses of the shipped ones.'),
p('F03','A processing chain is its processors, one after the other',
 '''For every nesting of chains, parallel chains, functions and adapters: processing equals applying the processors in order (parallel branches each on the same input, summed with their gains), in any cut into blocks, touches nothing outside the block, bypass leaves the signal alone, Reset reaches every processor, and steady-state blocks allocate nothing. Builders refuse nil processors and empty chains, otherwise the chain has exactly the processors added before Build, whatever happens to the builder afterwards. The ready-made chains and adapters behave as the processors they wrap.''',
 ['inputs','configurations','histories'],'all trees of chains, signals, block cuts, bypass and reset histories','Tests use chains of one or two stateless functions on one block.',
 [H,'pkg/framework/dsp/adapters.go'],[('sequential and parallel processing','dsp.Chain.Process / ParallelChain.Process'),('building','dsp.Builder.Build')],
 'random trees run against independent composition by hand, guard zones, allocation counter','Trees of depth up to 3; parallel sums compared within rounding; typed nil processors are not claimed.'),
p('F04','Every log message is written once, whole, and labelled right',
 '''For every logger setting and message, exactly the messages at or above the level of an enabled logger reach the current output, each formatted as fmt.Sprintf formats it, in one write of its own, ending in one line break, with the time of the call, level, prefix and the file and line of the calling code as the flags ask, through methods, global functions and conditional helpers alike; Fatal always panics with its message. Messages of several goroutines, with settings changing meanwhile, are neither lost, duplicated, torn nor reordered within a goroutine, without data races, and a value that logs while it is formatted does not block. A log file is created with its directories and appended to.''',
 ['inputs','histories','schedules'],'all settings, messages, call forms and interleavings of logging goroutines','Tests look for substrings of single messages from one goroutine.',
 [L],[('message assembly','debug.Logger.log'),('global functions','logger.go Debug / Info / Warn / Error / Fatal / DebugIf')],
 'recording writer and parser as oracle; exactly-once and order checks over concurrent logs; race detector','Six goroutines; the writer is synchronous and does not fail.'),
p('F05','Profiler numbers are those of the sections that ran',
 '''For every history of timed sections, each recorded duration lies between what the section took inside and outside, count, total, average, minimum, maximum and last are those of the recorded durations, percentiles are ranks among the most recent ones (ordered, inside their range, defined for any argument), a measurement handed out does not change afterwards, a disabled profiler records nothing, a timed function runs once and keeps its panic, and the CPU load is average over block duration. Sections recorded by many threads are all counted, and readings taken meanwhile are consistent and race free.''',
 ['inputs','histories','schedules'],'all histories of sections, sample-buffer sizes, percentiles and interleavings of recorders and readers','Tests time a few sleeps and read the result once.',
 [P],[('recording','debug.Profiler.record'),('percentiles','debug.Measurement.Percentile'),('snapshots','debug.Profiler.GetMeasurement / GetAllMeasurements')],
 'bracketing by the harness clock, recomputation of every figure from the reported durations; race detector with concurrent readers','Real time, so durations are not chosen; zero-length durations are left out of the percentile claim.'),
p('F06','Buffer diagnostics tell the truth',
 '''For every buffer: peak, RMS, DC, clipped samples, NaN count, zero crossings and the silence flag equal their definition; CheckBuffer names exactly the problems present; CompareBuffers counts exactly the samples that differ by more than the tolerance (a NaN against a number differs) and the largest difference; a dump shows each requested sample with index, value, exact bits and position; the drawing uses at most the given width and shows every part of the buffer on its side, a negated buffer upside down; what is logged is what was measured. No diagnostic panics or changes the buffer.''',
 ['inputs'],'all buffers (levels from 1e-45 to 1e37, NaN, infinities), lengths, tolerances, widths and limits','Tests use a handful of short, well-behaved buffers.',
 [A],[('analysis','debug.AudioAnalyzer.Analyze'),('comparison and dumps','debug.CompareBuffers / DumpBuffer / PrintBuffer')],
 'direct computation and parsing the dump back as oracle over random and hostile buffers','With NaN present, RMS and DC may count or leave out the NaN samples; zero crossings and silence are claimed without NaN only.'),
p('G01','The debug build catches allocations',
 '''Built with the debug tag: while tracking is on, each buffer check is counted once with its bytes per buffer, per frame and in total, a nil or empty-capacity buffer panics by name, a moved buffer panics, and with tracking off nothing is counted or refused; a report always adds up, from any number of threads, without races. DetectAllocation runs its function once and panics exactly if it allocated, however little and whatever the garbage collector does. The buffer pool never has one buffer in two hands, refuses foreign sizes, and its counts are the buffers held.''',
 ['inputs','histories','schedules'],'all call histories, allocation sizes, collector timings and interleavings of tracker and pool users','Tests check one buffer and one frame from one goroutine; the detector test is skipped as flaky.',
 [G],[('counters','debug.CheckAllocation / StartFrame / EndFrame'),('detector','debug.DetectAllocation'),('pool','debug.BufferPool')],
 'counting model over random histories, forced collections as fault injection, ownership marks in pooled buffers; race detector','The absence of allocations is judged over several attempts, since the process around may allocate.'),
]
P=P_
