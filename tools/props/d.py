D='pkg/dsp/'
def p(id,title,st,over,q,why,files,mech,tech,note):
    return dict(id=id,built=True,title=title,statement=st,over=over,q=q,why=why,files=[D+f for f in files],mech=mech,tech=tech,note=note)
P=[
p('D01','Biquad filters realize the response their settings name',
 '''For every type (low, high, band pass, notch, peak, low and high shelf, all-pass), sample rate, frequency below Nyquist, Q and gain, the measured frequency response equals the bilinear transform of the analogue prototype; channels are filtered independently, block splits do not matter, and a reset filter answers like a new one. A frequency at or above Nyquist leaves the filter stable.''',
 ['inputs','configurations'],'all filter types, settings below Nyquist, rates and signals','Tests look at one or two settings and only at the sign of the attenuation.',
 ['filter/biquad.go'],[('coefficient formulas','filter.Biquad.Set*'),('per-channel state','filter.Biquad.Process')],
 'transfer-function oracle over measured impulse responses','Random settings against an independent analogue prototype; at or above Nyquist only stability is claimed.'),
p('D02','The state-variable filter realizes its four responses and stays stable',
 '''For every rate, frequency below Nyquist and Q each output (low, high, band pass, notch) has the analogue prototype's response, the outputs satisfy their defining sums on any signal, the mode-selected and multi-mode filter give those same outputs (morphing blends neighbours without a jump), and sweeping frequency and Q every sample keeps the output bounded, as does a frequency at or above Nyquist.''',
 ['inputs','configurations','histories'],'all settings, signals and modulation histories','Tests probe two frequencies with fixed settings.',
 ['filter/svf.go'],[('zero-delay feedback topology','filter.SVF'),('mode morphing','filter.MultiModeSVF')],
 'transfer-function oracle plus algebraic-identity and bound monitors','Random settings, noise and per-sample modulation.'),
p('D03','Delay lines return exactly the past samples asked for',
 '''At every delay, fixed, fractional or changing, a read returns the sample written that long ago (interpolated between its neighbours), delays outside the line are limited to it and a read never leaves the buffer or panics whatever the delay; all-pass, comb, multi-tap and modulated lines place their echoes at the set delay with the set gains, and a cleared line is silent.''',
 ['inputs','histories'],'all line sizes, delays (zero, huge, negative, non-finite), modulations and signals','Tests read whole delays of a partly filled line; the wrap of the buffer and its limits are not reached.',
 ['delay/delay.go'],[('ring buffer index arithmetic','delay.Line.Read*'),('feedback structures','delay.AllpassDelay / CombDelay / MultiTapDelay / ModulatedDelay')],
 'reference-model monitor over a full recording of the written signal','Hostile and random delays judged sample by sample.'),
p('D04','Interpolation passes through the samples and stays faithful between',
 '''Every interpolator returns the neighbouring sample at whole positions, is exact on polynomials up to its order, linear stays between its neighbours, all-pass interpolation has unit gain and delays by the requested fraction, Lanczos and (even) windowed-sinc interpolation reproduce band-limited tones, resampling yields the right number of samples and never leaves the buffer, and smoothing ramps land on their target.''',
 ['inputs'],'all sample neighbourhoods, fractions, window sizes and buffer edges','Tests use two or three fractions of one neighbourhood.',
 ['interpolation/interpolation.go'],[('polynomial kernels','interpolation.Linear / Cubic / Hermite / ...'),('sinc window','interpolation.Sinc')],
 'algebraic-identity monitor','Random neighbourhoods, fractions and edges.'),
p('D05','ADSR envelopes follow their stages in order, in range, without clicks',
 '''For every history of triggers, releases, resets and parameter changes, the level stays within 0 to 1, rises during attack, falls to the sustain level in decay, holds it, falls to zero in release and then is idle, approaching each target with the set time constant (at least a millisecond), never jumping, never lasting forever; stages change only in the documented order, activity agrees with the stage, block and sample processing agree, and the attack-release envelope follows its exponentials.''',
 ['histories'],'all histories of trigger, release, reset and setter calls at all rates','Tests run one clean attack-to-release cycle; retriggering mid-stage and parameter changes mid-stage are not covered.',
 ['envelope/envelope.go'],[('stage machine','envelope.ADSR'),('one-pole ramps','envelope.AR')],
 'online trace-rule monitor on every sample','Random histories of 25 operations with thousands of samples each.'),
p('D06','Envelope detectors measure the level and stay in bounds',
 '''For every mode, response type, time constants, hold, window and signal the envelope is never negative, never exceeds the loudest input so far, moves towards the input, settles on a steady level, holds a new peak for the hold time, decays to silence, survives very loud input (rounding never turns the RMS sum negative), reads in dB as its level with a -96 dB floor, starts over at zero after a reset, and rises and falls with the time constants of its response type; the follower matches its exponentials.''',
 ['inputs','histories'],'all modes, settings and signals over eight decades of level','Tests feed one constant level; rounding of the running RMS sum shows only after loud-to-quiet histories.',
 ['envelope/detector.go','envelope/envelope.go'],[('running RMS sum and hold counter','envelope.Detector.Detect'),('one-pole follower','envelope.Follower')],
 'online bound and steady-state monitors','Random signals of many shapes and levels.'),
p('D07','Oscillators produce the named waveform at the set frequency, in range',
 '''For every rate, frequency (negative, zero and above Nyquist included), phase and history of changes, each basic waveform equals its definition at the accumulated phase, stays within -1 to 1 and changes frequency without a phase jump; block and sample processing agree, reset and phase setting take effect; the band-limited generators emit one impulse per cycle and a sawtooth with harmonics falling as 1/n below Nyquist.''',
 ['inputs','histories'],'all waveforms, rates, frequencies and change histories','Tests check the first samples at 440 or 1000 Hz.',
 ['oscillator/oscillator.go'],[('phase accumulator','oscillator.Oscillator'),('band-limited impulse train','oscillator.BLIT')],
 'reference-phase oracle and harmonic analysis','Random settings and frequency changes.'),
p('D08','LFOs run at their rate, in range, through every parameter change',
 '''For every waveform, rate, depth, offset and phase, each LFO value equals the waveform definition at the accumulated phase times depth plus offset limited to -1 to 1, parameter changes never jump the phase, synchronizing sets the chosen phase only while enabled, random values stay in range and change once per period, and block and sample processing agree.''',
 ['inputs','histories'],'all LFO settings and change histories','Tests check a cycle at fixed settings.',
 ['modulation/lfo.go'],[('phase accumulator and waveform switch','modulation.LFO')],
 'reference-phase oracle','Random settings and mid-run changes judged per sample.'),
p('D09','Gain and level conversions are exact, monotone and mutually inverse',
 '''Level to dB and back is the identity over the range, both directions rise monotonically, zero and negative levels give the minimum and nothing converts below it; applying gains, ramps, fades and dB gains equals the arithmetic for every buffer length and slice; hard clipping limits exactly; soft clipping is odd, leaves levels below the threshold unchanged, rises with its input, never exceeds the threshold by more than a tenth and approaches it.''',
 ['inputs'],'all levels, gains, thresholds and buffers','Tests check a handful of levels such as 0, -6 and -20 dB.',
 ['gain/gain.go'],[('dB formulas','gain.LinearToDb / DbToLinear'),('buffer loops','gain.ApplyBuffer* / Fade*'),('clip curves','gain.HardClip / SoftClip')],
 'algebraic-identity monitor over dense sweeps','Dense sweeps and random buffers; a known step of the soft clip curve is listed as a finding.'),
p('D10','Mixing and buffer arithmetic is exact for any buffer lengths',
 '''Dry/wet, crossfade, blend, sum and weighted sum equal their formulas on the overlap of their buffers and touch nothing beyond it, for equal or unequal lengths and without panicking; clear, copy, add, scaled add, scale, peak, RMS, clip and soft clip equal their definitions, and both clip curves are odd and bounded.''',
 ['inputs'],'all buffer lengths (zero and unequal too), contents and amounts','Tests use equal lengths of a few samples.',
 ['mix/mix.go','buffer.go'],[('overlap length computation','mix.* / dsp.*')],
 'reference-arithmetic monitor','Random lengths and contents compared whole.'),
p('D11','Panning keeps its law: symmetric, continuous, full range',
 '''For every position and law the gains mirror left to right, lie in 0 to 1, move monotonically without a jump, silence the far side at the ends, and satisfy the law (gains sum to one; powers sum to one; -4.5 dB center for balanced); the mono, stereo, balance, width and auto-pan forms apply exactly these gains to every sample for any buffer lengths.''',
 ['inputs'],'all positions, laws, widths and buffer lengths','Tests check three positions per law.',
 ['pan/pan.go'],[('law formulas','pan.MonoToStereo'),('buffer loops','pan.Process*')],
 'algebraic-identity monitor over dense positions','4001 positions per law plus random buffers.'),
p('D12','Noise generators have their colour, range and reproducibility',
 '''Every noise sample lies in -1 to 1, the spectrum of each colour rises or falls with its slope per octave, one seed always gives the same sequence whatever the generator did before, different seeds differ, block and mixing forms produce the same stream, and the plain white and Gaussian generators have their mean and spread.''',
 ['inputs'],'all seeds, colours and histories before seeding','Tests check range and that samples are not all equal.',
 ['utility/noise.go'],[('colour filters and random source','utility.NoiseGenerator')],
 'spectral monitor and replay comparison','Octave-band energies of 65536-sample runs over random seeds.'),
p('D13','DC blockers remove the offset and pass the signal',
 '''At every rate and cutoff a constant offset decays to nothing, a tone well above the cutoff passes unchanged, channels do not interfere, and block and sample forms agree; reset clears the history.''',
 ['inputs'],'all rates, cutoffs, offsets and tones','Tests use one rate and cutoff.',
 ['utility/dcblocker.go'],[('one-pole high-pass','utility.DCBlocker')],
 'steady-state monitor','Random rates, cutoffs, offsets and tones.'),
p('D14','Range-mapping utilities are inverse, monotone and bounded',
 '''For every range and value linear, exponential, curved and skewed scaling follow their formula, are monotone and (linear, exponential, bipolar) undo exactly, an empty range gives no NaN, clamping and quantizing land on the range and on a step, and the smoothed parameter follows its exponential, arrives and reports whether it is moving.''',
 ['inputs'],'all ranges and values','Tests check a few points of the unit range.',
 ['utility/parameter.go'],[('mapping formulas','utility.ScaleParameter* / UnscaleParameter*'),('one-pole smoother','utility.SmoothParameter')],
 'algebraic-identity monitor','Random ranges and dense values.'),
]
