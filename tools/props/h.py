D=''
def p(id,title,st,over,q,why,files,mech,tech,note):
    return dict(id=id,built=True,title=title,statement=st,over=over,q=q,why=why,files=files,mech=mech,tech=tech,note=note)
W='pkg/plugin/wrapper.go'; A='pkg/plugin/wrapper_audio.go'; K='pkg/plugin/wrapper_controller.go'; P='pkg/plugin/component.go'; B='bridge/bridge.c'; C='bridge/component.c'; S='pkg/vst3/stream.go'; H='pkg/plugin/helpers.go'
P=[
p('H01','A host can list, create, share and release the plug-in',
 '''Through the C interface the factory reports its vendor, URL and e-mail, its one class and the class's id, name and category inside the fields the host provided (longer texts are cut between characters, nothing outside is written, nothing leaks), refuses other indices, class ids and interfaces, and creates an independent instance as the interface asked for, also when several threads create instances at once. All interfaces of an instance share one reference count that balanced calls from any threads leave exact, every interface leads back to the others, and an instance lives until its last reference is released and is gone after it; so does the factory.''',
 ['inputs','histories','schedules'],'all factory texts, ids, interface requests and reference histories from any number of threads','No test of the repository loads the C bridge at all.',
 [W,H,B,C],[('fixed-size texts','wrapper.go GoGetFactoryInfo / GoGetClassInfo'),('reference counts','bridge/component.c component_addRef / component_release, bridge.c factory_*'),('instance registry','wrapper.go registerComponent / unregisterComponent')],
 'a C host as workload; guard bytes around host structures, an independent reference count, C heap growth','Random texts, ids and reference histories; all interface ids one bit away; six threads churn one count and create instances; C heap growth over 3000 instances.'),
p('H02','A processed block reaches the plug-in as the host sent it',
 '''For every bus layout, channel count, block length up to the agreed maximum, in-place buffers and transport state, the processor sees each host channel in order with the host's samples, the agreed sample rate and the transport the host reported, what it writes is what the host reads, nothing outside the buffers is touched, a session that is not processing leaves the processor alone, and steady-state blocks allocate nothing, automated or not.''',
 ['inputs','configurations','histories'],'all bus layouts, block lengths, in-place uses, transport states and sequences of blocks','No test of the repository calls the component; multi-bus and many-channel hosts are not simulated.',
 [P,A,H],[('buffer mapping','component.go componentImpl.Process'),('transport mapping','component.go componentImpl.Process')],
 'a C host as workload; in-processor checks of every sample, guard zones around every channel, allocation counter','Up to 9 buses each way of up to 24 channels, blocks up to 140000 samples, changes of setup between blocks, any silence flags; every channel pointer is valid, 32-bit samples.'),
p('H03','Host automation is sample accurate',
 '''For every set of automation queues a host sends with a block, each sample of the block is processed exactly once, in order, with every parameter at the value of its last automation point at or before that sample (points of one offset in the order sent), parameters end at their last point, failing points, missing queues and unknown ids change nothing, points outside the block never break it, a block without samples still applies its values, and nothing is printed.''',
 ['inputs','histories'],'all automation queues, offsets, values, block lengths and sequences of blocks','No test of the repository drives the component with automation.',
 [P,'pkg/framework/process/context.go'],[('sub-blocks between changes','component.go processSampleAccurate / processSubBlock'),('change list','process.Context.AddParameterChange / SortParameterChanges')],
 'a C host as workload; every output sample carries the parameter value the processor saw and is compared with the queues','Random queues up to several hundred points, hostile offsets and values included; standard output is watched.'),
p('H04','Notes from the host are played once, on time',
 '''Every note-on and note-off a host sends with a block is handed to the processor exactly once, in order, with its channel, pitch, nearest MIDI velocity (out-of-range velocities at the nearest end) and sample position (an event placed outside the block at its nearest sample), also when automation splits the block and whether or not the processor clears what it read; other events and failing reads change nothing, and no event of one block (input or output) is left for a later one.''',
 ['inputs','histories'],'all note streams, block lengths, automation splits and reading styles over many blocks','No test of the repository sends events through the component.',
 [P,'pkg/midi/queue.go'],[('event intake','component.go processInputEvents / processSingleEvent'),('delivery per sub-block','component.go addEvents')],
 'a C host as workload; exactly-once comparison of the sent and received note logs','Random note streams and bursts of up to 2600 events over consecutive blocks; five ways of reading them; non-note event types up to 65535.'),
p('H05','State survives any stream a host may offer',
 '''What a plug-in saves through a stream that transfers a few bytes at a time, cannot seek or tell, or starts mid-way is the plug-in's state, and reading it back through any such stream restores every parameter and the custom state of another instance; a stream that fails to read or write, a damaged state or a failing processor is reported to the host as failure, and a state that could not be read changes nothing. The stream wrapper's numbers and strings round-trip through such streams, and missing data or damaged lengths are errors.''',
 ['inputs','histories','faults'],'all states, stream behaviours, transfer sizes and failure points','Tests save to an in-memory buffer that always transfers everything.',
 [P,W,K,S],[('whole-stream reads','stream.go StreamWrapper.ReadAll / readAllChunked'),('whole-buffer writes','stream.go StreamWrapper.Write'),('state calls','wrapper.go GoComponentSetState / GoComponentGetState')],
 'a C host as workload with fault-injecting streams; round-trip oracle against a second instance','Random states and streams; an end of stream is a read of zero bytes.'),
p('H06','The controller shows and edits the plug-in\'s parameters',
 '''For every parameter the host reads its id, names and unit as UTF-16 (cut between characters when too long), step count, default, unit and flags; value texts and text entry pass through the parameter's own formatter and parser, plain and normalized values convert as the parameter converts them, edits are clamped and read back, unknown ids and indices fail and leave the host's storage alone, and nothing is printed.''',
 ['inputs','histories'],'all parameter definitions, texts, values and edits','No test of the repository calls the controller interface.',
 [P,K,H],[('UTF-16 texts','helpers.go copyStringToTChar / stringFromTChar'),('conversions','component.go NormalizedParamToPlain / PlainParamToNormalized')],
 'a C host as workload; comparison with the parameter definitions, guard bytes around host storage','Random parameters with Unicode and oversize texts; standard output is watched.'),
p('H07','The host sees the plug-in\'s buses and answers',
 '''Bus counts and bus descriptions (media, direction, channels, name, kind, active flag) are those of the plug-in's configuration for every index, other indices fail; the speaker arrangement of a bus has its channel count (mono and stereo are the SDK's) and the plug-in accepts its own arrangements; latency, tail, sample-size support, sample rate, block size, activation and processing state pass between host and processor unchanged, failures included, any non-zero boolean being true; initializing the controller side too does not initialize the processor again, and termination succeeds.''',
 ['inputs','configurations'],'all bus configurations, indices, processor answers and setup calls','No test of the repository asks through the C interface.',
 [P,W,A],[('bus queries','component.go GetBusInfo / GetBusArrangement'),('setup','component.go SetupProcessing / SetActive')],
 'a C host as workload; comparison with the configuration and the calls the processor recorded','Random configurations; latency and tail are non-negative.'),
p('H08','A panicking plug-in cannot take the host down',
 '''A panic in any plug-in callback (creation, information, initialization, activation, setup, processing, parameters, formatting, state, buses, latency) is contained: the host's call returns, reports failure where it has a result, and afterwards the instance and the module work as before.''',
 ['faults','histories'],'all callbacks and the moments at which they panic','No test of the repository panics inside a host call.',
 [W,A,K],[('recovery in each exported callback','wrapper.go recoverPanic / recoverResult')],
 'fault injection: a processor that panics in one callback at a time under a C host','Every callback of the processor, custom state and formatter, repeated around normal work.'),
p('H09','Host threads do not race',
 '''While one thread processes audio with automation, other host threads may read and edit parameters, ask for texts and bus information, save state, query latency, create and release other instances of the module, and stop, set up and start the instance: no data race occurs, every value read is one that was written, the processor is never set up or activated inside a block, and each instance keeps its own state.''',
 ['schedules'],'all interleavings of one audio thread with controller, state and factory calls','No test of the repository uses more than one host thread.',
 [P,W,'pkg/framework/param/parameter.go'],[('instance registry lock','wrapper.go componentsMu'),('atomic parameter values','param.Parameter.SetValue / GetValue'),('component lock','component.go componentImpl.mu')],
 'Go race detector over a multi-threaded C host; invariant checks on the values read','One audio thread and six others on random schedules.'),
p('H10','The data wrapper shows the host\'s block as it is',
 '''For every block a host lays out, the wrapper in pkg/vst3 shows its number of samples, and for each input and output bus its channels in order as views of the host\'s own memory, exactly one block long, with nothing in place of buses, channel tables or single channels the host did not send and of indices that do not exist; the process context carries every field the host reported, its predicates follow the host\'s flags, and it is absent when the host sent none. Reading a block never panics and writes nothing.''',
 ['inputs','configurations'],'all bus layouts, missing parts, block lengths and transport states','No test of the repository builds a host block.',
 ['pkg/vst3/buffers.go'],[('bus and channel views','buffers.go NewProcessDataWrapper / NewAudioBuffer'),('transport copy','buffers.go NewProcessContext')],
 'a C host as workload; comparison with the block it laid out, address identity of every channel, guard zones','Random layouts up to 5 buses each way of up to 24 channels.'),
]
