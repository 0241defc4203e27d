D='pkg/dsp/'
def p(id,title,st,over,q,why,files,mech,tech,note):
    return dict(id=id,built=True,title=title,statement=st,over=over,q=q,why=why,files=[D+f for f in files],mech=mech,tech=tech,note=note)
P=[
p('E01','The compressor follows its curve and time constants and never boosts',
 '''For every threshold, ratio, knee (hard, soft, zero width), attack, release, makeup and lookahead, and every signal, the gain applied to each sample is the one the specified static curve and envelope give, is never above the makeup gain, falls monotonically with level, is reported by the gain-reduction meter, is shared by both channels in stereo, follows the sidechain when one is given, and a reset compressor answers like a new one.''',
 ['inputs','histories','configurations'],'all settings, signals from silence to far above full scale, and setter histories','Tests compare one steady level per setting; the shape inside the knee and the sample-by-sample gain are not checked.',
 ['dynamics/compressor.go','envelope/detector.go'],[('gain computer and knee','dynamics.Compressor.computeGain'),('linked stereo and sidechain paths','dynamics.Compressor.Process*')],
 'reference-model monitor on every sample','Random programs and settings judged sample by sample; lookahead is claimed for the mono path only.'),
p('E02','The expander follows its curve, stays within its range and never boosts',
 '''For every threshold, ratio, knee, range, attack, release and signal the gain applied to each sample is the one the specified static curve and envelope give, never above unity, never below the range, falling monotonically as the level drops, equal to what the meter reports, shared by both stereo channels, and a reset expander answers like a new one.''',
 ['inputs','histories','configurations'],'all settings, signals and setter histories','Tests compare one steady level per setting.',
 ['dynamics/expander.go','envelope/detector.go'],[('gain computer and knee','dynamics.Expander.computeGain')],
 'reference-model monitor on every sample','Random programs and settings.'),
p('E03','The noise gate obeys threshold, hysteresis, hold and range in order',
 '''For every signal and setter history the gate passes through closed, attack, open, hold and release only as the level crosses the opening threshold and the hysteresis-lowered closing threshold, holds for the set time before closing, ramps its gain with the set attack and release between the range and unity, closes after enough silence, opens after enough signal, reports its state and gain reduction truthfully, and treats both stereo channels alike.''',
 ['inputs','histories'],'all settings, signals around both thresholds and setter histories in every state','Tests run one open-close cycle; setter calls while a stage is running are not covered.',
 ['dynamics/gate.go'],[('state machine','dynamics.Gate.Process / ProcessStereo'),('range and hold setters','dynamics.Gate.SetRange / SetHold')],
 'online state-machine monitor on every sample','Random programs near the thresholds, setters in every state.'),
p('E04','The limiter never lets a sample above its ceiling',
 '''For every threshold, release, lookahead, true-peak setting, sample rate and signal (sudden full-scale peaks from any state included) no output sample exceeds the threshold, gain never exceeds unity, quiet signal passes unchanged after the lookahead delay, release recovers to unity, both stereo channels get the same gain, the meter reports it, and a reset limiter answers like a new one.''',
 ['inputs','histories','configurations'],'all settings, peaks of any height and place, and setter histories','Tests feed a constant loud level and allow a margin; single peaks and transitions are not checked.',
 ['dynamics/limiter.go'],[('lookahead peak search','dynamics.Limiter.Process'),('stereo path','dynamics.Limiter.ProcessStereo')],
 'online bound monitor on every sample','Random programs with peaks; lookahead is claimed for the mono path only.'),
p('E05','Waveshapers follow their curves, are bounded and terminate on every input',
 '''For every curve, drive, asymmetry, mix, output and input (huge and non-finite included) processing terminates, the output equals the named transfer curve applied to the driven input, clipping curves stay within full scale, symmetric curves are odd, monotone curves do not fall, nothing jumps, mix zero is the dry signal and block processing equals sample processing.''',
 ['inputs','configurations'],'all curves, settings and inputs over thirty decades','Tests feed a handful of values within two of full scale.',
 ['distortion/waveshaper.go'],[('curve switch','distortion.Waveshaper.Process'),('folding','distortion.Waveshaper.foldback')],
 'transfer-curve oracle with a per-case time limit','Dense sweeps and hostile values.'),
p('E06','The bitcrusher quantizes to its step and holds for its factor, per channel',
 '''For every bit depth, rate factor, dither, anti-alias and mix setting the wet output lies on the quantization grid within one step (plus dither) of the held sample, each held value lasts the set number of samples (within one for fractional factors), channels do not affect one another, the anti-alias filter never rings up, mix zero is the dry signal, block processing equals sample processing and two instances behave alike.''',
 ['inputs','configurations'],'all depths, factors, signals and setter histories','Tests count distinct levels for one sine; stereo and the filter are only run.',
 ['distortion/bitcrusher.go'],[('quantizer and dither','distortion.BitCrusher'),('sample and hold','distortion.BitCrusher.ProcessStereo')],
 'reference-model monitor on every sample','Random settings and signals.'),
p('E07','Tape and tube saturation follow their curves with channels kept apart',
 '''For every setting, level and signal the tape saturator's output equals emphasis, compression, saturation and de-emphasis of its own channel (within the hiss and, with flutter, between the neighbouring delayed samples), is bounded, and never gets quieter or inverts as level rises; the tube's output follows its bias, curve, hysteresis and DC removal per channel; block, stereo and sample processing agree and a reset saturator answers like a new one.''',
 ['inputs','histories','configurations'],'all settings, levels far above full scale and reset histories','Tests check that the output differs from the input and is not too large for one sine.',
 ['distortion/tape.go','distortion/tube.go'],[('per-channel filter and envelope state','distortion.TapeSaturation / TubeSaturation'),('saturation curves','tapeSaturate / tubeSaturate')],
 'reference-model monitor on every sample','Random settings, programs and levels; flutter judged by bounds.'),
p('E08','Chorus and flanger play the modulated delays their settings name',
 '''For every rate, depth, delay, feedback, voice count, spread, mix and signal, the output equals the dry signal mixed with the line read at exactly the modulated delay (base delay plus the full set depth, each voice at its own phase), feedback stays stable, stereo mixes dry and wet in the same proportion on both channels, parameter changes apply from the next sample, reset silences it and keeps the voices apart.''',
 ['inputs','histories','configurations'],'all settings, signals and setter histories','Tests check that something changed; the delay actually reached is not measured.',
 ['modulation/chorus.go','modulation/flanger.go'],[('voice phases and depth','modulation.Chorus'),('modulated feedback delay','modulation.Flanger')],
 'reference-model monitor on every sample','Random settings; changing delay or voice count clears the lines (not claimed otherwise).'),
p('E09','Phaser, ring modulator and tremolo modulate as their settings name',
 '''For every setting and signal the phaser is a chain of all-pass stages (unit gain, ninety degrees at the swept frequency) whose depth, center, stage count and feedback take effect and keep the sweep range, the ring modulator multiplies by its carrier at the set (LFO-swept) frequency and returns to it, and the tremolo's gain follows its waveform, depth, smoothing and stereo phase and is what it reports; all stay bounded, agree between mono and stereo and restart after a reset.''',
 ['inputs','histories','configurations'],'all settings, signals and setter histories','Tests check that something changed and stays bounded.',
 ['modulation/phaser.go','modulation/ringmod.go','modulation/tremolo.go'],[('all-pass coefficient','modulation.Phaser'),('carrier phase','modulation.RingModulator'),('gain smoothing','modulation.Tremolo')],
 'reference-model monitor on every sample','Random settings; phaser claimed at 16 kHz and above.'),
p('E10','Reverbs decay, respond to damping and size as set, and freeze sustains',
 '''Comb and all-pass elements equal their difference equations; Schroeder, Freeverb and FDN are linear, finite and stable for every setting, mix dry and wet exactly once, decay to silence at the set speed, get longer with more decay or room size and darker with more damping, keep their channels balanced, never read or write outside their lines, and reset to silence; a frozen Freeverb sustains and ignores new input.''',
 ['inputs','histories','configurations'],'all settings, delay counts, rates and setter histories','Tests check that a tail exists; decay speed, damping direction, the stereo FDN and long-run stability are not judged.',
 ['reverb/freeverb.go','reverb/schroeder.go','reverb/fdn.go'],[('comb damping','reverb.CombFilter'),('feedback matrix','reverb.FDN'),('freeze gains','reverb.Freeverb')],
 'reference-model monitor and energy-decay oracle','Random settings; FDN matrices of sizes other than 4 and 8 are random and judged by energy.'),
]
