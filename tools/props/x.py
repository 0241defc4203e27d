def p(id,title,st,over,q,why,files,mech,tech,note):
    return dict(id=id,built=True,title=title,statement=st,over=over,q=q,why=why,files=files,mech=mech,tech=tech,note=note)
EX='examples'; G='pkg/plugin/component.go'
P=[
p('X01','Every bundled plug-in can be opened, described, edited, saved and restored',
 '''Each plug-in under examples, loaded by a host, offers one named class, lists its parameters before it is set up and the same ones afterwards, starts every editable parameter at its default, converts normalized and plain values back and forth, shows a text for every value and accepts its own texts as (nearly) the value they stand for, describes every bus with a speaker arrangement of its channel count, reports a plausible latency and tail, keeps its settings when the host changes the sample rate and block size, and restores every setting of another instance from a saved state at whatever stage of its life the state is given.''',
 ['inputs','configurations','histories'],'all parameter values, sample rates, block sizes and host call orders, for every example','The examples have no tests and are not even built by the test run.',
 [EX,G,'pkg/framework/param','pkg/framework/state/manager.go','pkg/plugin/wrapper_controller.go'],[('text entry','param formatters and parsers'),('state','state.Manager Save / Load'),('setup','componentImpl.SetupProcessing')],
 'the real plug-ins as workload under a C host, each in a process of its own; round-trip and consistency oracles at the host interface','Random values, rates, block sizes and stages; a text the parser refuses is counted, not judged.'),
p('X02','Every bundled plug-in plays anything a host sends',
 '''Each plug-in under examples, hosted end to end, turns finite audio, automation and notes into finite, bounded output on all its channels without touching its inputs or memory outside the channels it was given; two instances given the same blocks produce the same output, processing in place produces what separate buffers produce, and an instance that was stopped and started again sounds like a new one with the same settings (plug-ins that add random noise are exempt from these three); missing, extra and empty buses are survived; and audio, edits, texts and state saving may run on different threads without a data race.''',
 ['inputs','histories','schedules'],'all signals up to a few times full scale, automation, notes, block lengths, bus layouts and thread schedules, for every example','The examples have no tests; the library blocks are tested one at a time on short signals.',
 [EX,G,'pkg/framework/process/context.go','pkg/dsp'],[('block processing','componentImpl.Process'),('restart','Processor.SetActive, Reset of the DSP blocks')],
 'the real plug-ins as workload under a C host: output monitors, guard zones, differential instances, Go race detector','Random scripts of blocks per example; race detector over one audio and two host threads; 32-bit samples.'),
p('X03','How settings and audio reach a bundled plug-in does not change its sound',
 '''Each plug-in under examples, hosted end to end, sounds the same for the same settings whether they came by automation, from the controller before or while it was active, or from a saved state, and for the same audio and notes however the host cuts them into blocks; and while the parameter flagged as bypass is on, every input sample comes out unchanged, later by exactly the reported latency.''',
 ['inputs','histories','configurations'],'all parameter values, ways and stages of setting them, signals, notes and block splits, for every example','The examples have no tests; no test drives the library through a host at all.',
 [EX,G,'pkg/framework/process/context.go','pkg/framework/state/manager.go','pkg/dsp'],[('parameter paths','componentImpl.Process / SetState, controller setParamNormalized'),('block processing','Processor.ProcessAudio of the examples')],
 'the real plug-ins as workload under a C host: differential instances at the host interface, exact bypass model','Random settings and scripts; settings that add random noise are held at off; outputs compared within 1e-4 of the peak.'),
]
