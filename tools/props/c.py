D='pkg/dsp/'
def p(id,title,st,over,q,why,files,mech,tech,note):
    return dict(id=id,built=True,title=title,statement=st,over=over,q=q,why=why,files=[D+f for f in files],mech=mech,tech=tech,note=note)
ALL=['filter/biquad.go','filter/svf.go','delay/delay.go','distortion/bitcrusher.go','distortion/tape.go','distortion/tube.go','distortion/waveshaper.go','dynamics/compressor.go','dynamics/expander.go','dynamics/gate.go','dynamics/limiter.go','envelope/detector.go','envelope/envelope.go','modulation/chorus.go','modulation/flanger.go','modulation/phaser.go','modulation/ringmod.go','modulation/tremolo.go','modulation/lfo.go','oscillator/oscillator.go','reverb/fdn.go','reverb/freeverb.go','reverb/schroeder.go','utility/dcblocker.go','utility/noise.go']
P=[
p('C01','Every processor gives finite, bounded output for bounded input',
 '''For every signal processor in the library, every setting its setters accept (below Nyquist for filter frequencies), every setter history during play and every bounded input, the output is finite and stays below a fixed multiple of the loudest input, nothing panics, and processors without feedback loops that sustain go silent after the input does.''',
 ['inputs','histories','configurations'],'all processors, settings, setter histories, sample rates and signals from silence to sixty decibels over full scale','Tests run each processor at one or two settings on one short signal and never change settings during play.',
 ALL,[('feedback and coefficient arithmetic','dsp/* Process methods'),('setter clamping','dsp/* Set methods')],
 'online bound monitor over a table of 70 processors','Random signals and setter histories; the tube curve is claimed up to full scale only.'),
p('C02','A reset processor behaves like a new one',
 '''For every processor with a Reset, whatever was played before (very loud, infinite and not-a-number samples included) and whatever settings were used meanwhile, after Reset it gives sample for sample the output of a newly built instance with the same settings.''',
 ['inputs','histories'],'all processors with a Reset, all histories, non-finite input included','Tests check that one state variable is zero after Reset or that silence comes out.',
 ALL,[('state clearing','dsp/* Reset methods')],
 'differential monitor: reset instance against a new one','Random histories; only the line is cleared by Reset of the modulated delay (its LFO runs on), not claimed.'),
p('C03','Output does not depend on how the audio is cut into blocks',
 '''For every processor the output for a signal is the same when it arrives as one block, in any sequence of block sizes (empty and single-sample blocks included), sample by sample through the sample interface, or processed in place with the same slice as input and output.''',
 ['inputs','histories'],'all processors, signals, block splits and paths','Tests process one block of one size through one path.',
 ALL,[('block loops and per-block state','dsp/* ProcessBuffer / ProcessBlock'),('sample path','dsp/* Process')],
 'differential monitor: split, per-sample and in-place runs against one block','Random splits and settings.'),
p('C04','Channels of a processor do not leak into one another',
 '''For every processor that treats its channels independently (filters, DC blockers, distortion, ring modulator, tremolo), the output of one channel is the same whatever the other channel plays.''',
 ['inputs'],'all independent two-channel processors, settings and signals','Tests feed the same signal to both channels, which hides shared state.',
 ['filter/biquad.go','filter/svf.go','utility/dcblocker.go','distortion/bitcrusher.go','distortion/tape.go','distortion/tube.go','distortion/waveshaper.go','modulation/ringmod.go','modulation/tremolo.go'],[('per-channel state arrays','filter / distortion / modulation Process methods')],
 'noninterference monitor: two runs that differ in the other channel only','Random signals and settings; chorus, flanger, phaser and reverbs mix channels by design.'),
p('C05','Audio processing never allocates memory',
 '''Once a processor is built and set up, none of its processing calls (block, stereo, sample, buffer functions) allocates heap memory, for any settings and block size.''',
 ['inputs','configurations'],'all processors and buffer functions, settings and block sizes','Tests do not count allocations; benchmarks report but do not judge them.',
 ALL+['gain/gain.go','mix/mix.go','pan/pan.go','interpolation/interpolation.go','buffer.go'],[('preallocated state','dsp/* constructors and Process methods')],
 'allocation monitor: runtime malloc counters around every call','Random settings and block sizes.'),
p('C06','Processor instances are independent, even across threads',
 '''Instances of any processor created, set up and run at the same time on several threads, or interleaved on one thread, behave exactly as each would alone: no instance shares mutable state with another and the race detector finds no unsynchronized access.''',
 ['schedules','histories'],'all processors, thread schedules and interleavings of instances','Tests run one instance on one thread.',
 ALL,[('package-level state','dsp/* package variables'),('random sources','modulation.LFO / utility.NoiseGenerator')],
 'race detector plus differential monitor on concurrent and interleaved instances','Four concurrent instances per processor; three interleaved.'),
p('C07','Setting what is already set does not disturb the sound',
 '''For every processor, once its settings are made, making exactly the same settings again before every block while audio plays (as plug-ins do that hand all parameter values over each block) leaves the output the same as without: no setter called with the value it already has clears delay lines or filter state, restarts modulation or cuts an envelope short.''',
 ['inputs','histories','configurations'],'all processors, settings, signals and block splits','Tests set every value once and listen to one block.',
 ALL,[('state kept by setters','dsp/* Set methods')],
 'differential monitor: an instance whose settings are repeated before every block against one left alone','Random settings and splits; triggering or releasing an envelope is an action, not a setting.'),
p('C08','Linear processors are linear: sums add up, levels scale',
 '''For every processor that is no distortion or dynamics processor (filters, equalizers, DC blocker, delays, reverbs, modulation effects below the level where their feedback clips, auto-pan, envelopes applied to a signal), the output for a weighted sum of two signals is the same weighted sum of the two outputs, at every level and with settings changed on the way; scaling the input by a power of two or a sign scales the output by it.''',
 ['inputs','configurations'],'all linear processors, settings, setting changes, signals, levels and weights','Tests feed one signal at one level; a level-dependent path, a forgotten state or a hidden offset shows only across two related runs.',
 ['filter/biquad.go','filter/svf.go','delay/delay.go','modulation/chorus.go','modulation/flanger.go','modulation/phaser.go','modulation/ringmod.go','modulation/tremolo.go','reverb/fdn.go','reverb/freeverb.go','reverb/schroeder.go','utility/dcblocker.go','pan/pan.go'],[('signal paths and feedback','dsp/* Process methods')],
 'metamorphic monitor: runs on two signals and on their weighted sum','Phaser, flanger and chorus are claimed below the level at which their feedback clips.'),
p('C09','What is played later sounds the same, later',
 '''For every processor without a clock of its own (filters, delays, dynamics except the expander, waveshapers, reverbs except the modulated network, followers), silence fed to a new instance gives silence, and a signal that follows any length of silence gives the same output as the signal at the start, only later: no result depends on how long the instance has been running, or where in its buffers the signal happens to begin.''',
 ['inputs','histories'],'all processors without a clock, settings, signals and lengths of silence up to seconds','Tests start every processor at sample zero, so buffer positions and counters are the same in all of them.',
 ALL,[('ring buffer positions and counters','dsp/* Process methods')],
 'metamorphic monitor: a run and the same run after silence','LFO-driven effects, envelopes, bitcrusher, tape, tube and expander change over time by design.'),
p('C10','Neutral settings pass the signal through',
 '''Every processor that has neutral settings (mix or depth 0, ratio 1, gain 0 dB, threshold above the signal, range 0, width 1, centred balance, unit fades) returns its input when they are set, whatever its other settings are, whatever it played before, and from the moment they are set.''',
 ['inputs','histories','configurations'],'all processors with a neutral setting, all other settings, histories and signals','Tests check a few processors at default settings, from a new instance.',
 ALL+['gain/gain.go','mix/mix.go','pan/pan.go'],[('dry/wet mixing and unity gain','dsp/* Process methods')],
 'metamorphic monitor: output against input at neutral settings','Dynamics processors return to unity over their release time, so these are new and fed below threshold; recursive equalizers within 5% at extreme Q.'),
p('C11','Hertz, seconds and decibels mean the same at every sample rate',
 '''For every processor set in hertz, seconds or milliseconds and decibels (filters, delays, LFO effects, oscillators, dynamics, envelopes, detectors, smoothers, meters, reverbs), the same settings and the same sound, sampled at 44.1 or 48 kHz and at twice or four times that, give the same output at the same moments, within the error of sampling.''',
 ['inputs','configurations'],'29 processors, settings, slow signals, rates 44.1 to 192 kHz','Tests use one sample rate, 44100 or 48000, where a constant in samples passes for one in seconds.',
 ['filter/biquad.go','filter/svf.go','delay/delay.go','dynamics/compressor.go','dynamics/expander.go','dynamics/gate.go','dynamics/limiter.go','envelope/detector.go','envelope/envelope.go','modulation/chorus.go','modulation/flanger.go','modulation/phaser.go','modulation/ringmod.go','modulation/tremolo.go','modulation/lfo.go','oscillator/oscillator.go','reverb/fdn.go','reverb/freeverb.go','reverb/schroeder.go','utility/dcblocker.go','pan/pan.go','analysis/meters.go'],[('conversion of seconds and hertz to samples','dsp/* Set methods and constructors')],
 'metamorphic monitor: one sound at two sample rates','Waveforms within 3 to 12%, reverb levels within 30%; tape saturation and damping have no units and are left out.'),
p('C12','Polarity, channel order and channel count do not change the sound',
 '''Every processor whose curve is symmetric (all but tube, asymmetric shapers and bitcrusher) answers a signal turned over with its answer turned over; every symmetric two-channel processor (filters, DC blocker, distortions, linked dynamics, ring modulator, Schroeder reverb) answers exchanged channels with exchanged outputs; and the one-channel form of a processor gives what its two-channel form gives with the same signal on both channels (on the left one, for flanger and phaser), with settings changed on the way.''',
 ['inputs','histories'],'all processors with such a symmetry, settings, setting changes, signals and levels','Tests check one form with one signal; the one- and two-channel forms are written out twice and drift apart unseen.',
 ['filter/biquad.go','filter/svf.go','distortion/bitcrusher.go','distortion/tape.go','distortion/tube.go','distortion/waveshaper.go','dynamics/compressor.go','dynamics/expander.go','dynamics/gate.go','dynamics/limiter.go','modulation/flanger.go','modulation/phaser.go','modulation/ringmod.go','modulation/tremolo.go','reverb/schroeder.go','utility/dcblocker.go'],[('one- and two-channel forms','dsp/* Process and ProcessStereo')],
 'metamorphic monitor: runs related by polarity, channel order and channel count','The limiter estimates the true peak of the left channel only, as its source says, so it is mirrored without that estimate; freeverb and FDN have no common one- and two-channel form.'),
p('C13','Settings may be made in any order',
 '''For every processor the sound depends only on the settings in force: before audio is played, making the same settings in any order, making them twice, or making other settings first and then these, gives exactly the output of making each of them once (a tremolo's waveform, which turns smoothing on or off, comes before an explicit choice of smoothing).''',
 ['inputs','histories'],'all processors, all orders and earlier values of their settings, all signals','Tests make one or two settings in one order; plug-ins hand over dozens in the order of their parameters, after a state load in any other.',
 ['modulation/chorus.go','modulation/flanger.go','modulation/phaser.go','modulation/tremolo.go','dynamics/compressor.go','dynamics/gate.go','dynamics/limiter.go','reverb/freeverb.go','reverb/schroeder.go','reverb/fdn.go','envelope/envelope.go','filter/svf.go'],[('settings that derive others','dsp/* Set*')],
 'metamorphic monitor: runs related by the order and history of their settings','Frequency and depth ranges set by two different phaser calls exclude one another and are not mixed.'),
p('C14','A setting beyond its range acts like the end of the range',
 '''Every setting that has a range (mix, depth, feedback, level, rate, delay, drive, room size, damping, ratio, times with a minimum, look-ahead and so on) may be set beyond it, by a little, a lot or infinitely, before or while audio plays: the output is then exactly that of the setting at the end of its range, and the other settings keep theirs.''',
 ['inputs','configurations'],'all settings with a range, all values beyond it, all other settings and signals','Tests try one value outside for a few setters and look at a field, not at the sound.',
 ['modulation/chorus.go','modulation/flanger.go','modulation/phaser.go','modulation/ringmod.go','modulation/tremolo.go','modulation/lfo.go','distortion/bitcrusher.go','distortion/tape.go','distortion/tube.go','distortion/waveshaper.go','dynamics/compressor.go','dynamics/expander.go','dynamics/gate.go','dynamics/limiter.go','envelope/envelope.go','envelope/detector.go','reverb/freeverb.go','reverb/schroeder.go','reverb/fdn.go'],[('limits of the setters','dsp/* Set*')],
 'differential monitor: a setting beyond its range against the setting at its end','97 settings of 23 processors with the range their setter keeps; settings without one (thresholds, gains, auto-pan, the bare delay lines) are left out, not-a-number settings too.'),
]
