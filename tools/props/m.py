D='pkg/dsp/analysis/'
def p(id,title,st,over,q,why,files,mech,tech,note):
    return dict(id=id,built=True,title=title,statement=st,over=over,q=q,why=why,files=[D+f for f in files],mech=mech,tech=tech,note=note)
P=[
p('M01','Transforms and correlations are the mathematical ones',
 '''For every power-of-two size, window and input (shorter or longer than the size included) the FFT gives the Fourier sums of the windowed input with the published window shapes, the inverse undoes it whatever was transformed before, energy is preserved, decibels have one floor at -120, and the cross-correlation of two signals is their correlation sum at every lag, peaking at the delay of the second behind the first.''',
 ['inputs','histories','configurations'],'all power-of-two sizes, windows, signals, lengths and call sequences','Tests look for the bin of one sine and for a correlation peak within ten lags on a periodic signal.',
 ['fft.go'],[('radix-2 transform and windows','fft.go FFT.fft / calculateWindow'),('correlation','fft.go CrossCorrelation')],
 'online checker: direct Fourier and correlation sums on every call','Random sizes up to 1024 for the direct sum and 65536 for the round trip.'),
p('M02','The spectrum analyzer reports the frames it was fed',
 '''For every size, hop, window, averaging mode and cutting of the signal into blocks, the analyzer announces a spectrum exactly when a frame completes, and its spectrum is the windowed transform of the last frames under the chosen averaging; range, peak, band and octave readings agree with that spectrum and cover every bin inside the requested frequencies up to Nyquist, and Reset forgets everything.''',
 ['inputs','histories','configurations'],'all analyzer configurations, setter histories, signals and block cuts','Tests feed one sine in one block and check the peak bin.',
 ['spectrum.go'],[('overlap buffer','spectrum.go Process'),('averaging','spectrum.go applyAveraging'),('bin ranges','spectrum.go updateFrequencyRange')],
 'online reference: frames cut from the whole recording and averaged independently','Random histories, sizes 4 to 256; linear averaging with at least one frame of history.'),
p('M03','Peak and RMS meters measure what was played',
 '''For every signal, block cutting and setting, the peak meter shows the loudest sample at once and decays at the set rate, its held value is never below the peak and stays for the hold time after its last crest, the RMS meter is the root mean square of the last window (after any drop in level, silence included), and decibel readings match the linear ones.''',
 ['inputs','histories'],'all level programmes, block cuts and settings','Tests check one sine, one decay and one window.',
 ['meters.go'],[('decay and hold counters','meters.go PeakMeter.Process'),('running sum','meters.go RMSMeter.Process')],
 'online reference: direct computation after every block','Random programmes and cuts; decay is applied per block, as documented by the meter.'),
p('M04','Loudness readings follow ITU-R BS.1770',
 '''For every programme, rate, channel layout and cutting into blocks, momentary, short-term and integrated loudness are those of BS.1770: K-weighting, surround weights with the LFE left out, 400 ms and 3 s windows, and integration over 400 ms blocks above the absolute gate and the gate ten units below their mean; the loudness range is the percentile spread of the gated blocks, and Reset starts over.''',
 ['inputs','histories','configurations'],'all programmes, rates, layouts of 1, 2, 3, 5 and 6 channels and block cuts','Tests only check that a reading is not minus infinity.',
 ['meters.go'],[('K-weighting filters','meters.go createKWeightingPreFilter / createKWeightingHighShelf'),('gating blocks','meters.go LUFSMeter.updateBlock / GetIntegratedLUFS')],
 'offline checker: BS.1770 computed over the whole recording, plus the standard calibration points','Random programmes up to nine seconds; the range has no relative gate of its own.'),
p('M05','Stereo meters and scopes show the stereo field',
 '''For every stereo signal and block cutting, correlation is the averaged Pearson coefficient of the last window (silent channels included) with its worst value held for the hold time, balance and width are the smoothed power ratios, and the scopes return the last points in order with the set rotation, scale and fading brightness, with statistics of those same points.''',
 ['inputs','histories','configurations'],'all stereo programmes, block cuts and settings','Tests check in-phase, out-of-phase and silent signals, one block each.',
 ['correlation.go','phasescope.go'],[('circular windows','correlation.go CorrelationMeter / phasescope.go PhaseScope'),('power averages','correlation.go BalanceMeter / StereoWidthMeter')],
 'online reference: direct computation after every block','Random programmes; constant non-zero channels are not claimed (rounding noise), nor the dominant angle.'),
p('M06','Meters can be read while audio runs',
 '''Any number of threads may read, configure or reset a meter, scope or analyzer while another feeds it: there is no data race, and every value read is that of some whole number of blocks fed so far, never going back in time.''',
 ['schedules','histories'],'all thread schedules of one feeder with readers, setters and resets','Tests are single-threaded.',
 ['meters.go','correlation.go','phasescope.go','spectrum.go'],[('meter mutexes','analysis/* mu')],
 'race detector plus snapshot-order checker on concurrent readings','One feeder, up to six readers per meter; setters and resets are judged by the race detector and range checks only.'),
]
