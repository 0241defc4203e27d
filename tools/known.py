import json,subprocess
M={ # message substring -> property
"DC blocker keeps low":"C11","refused RegisterWithID":"A05","smoothed parameters follow edits":"A06","keep NaN out":"A01","clamp the declared default":"A01","choice parameters show":"A02","note names for inexact":"A03","Q and knee":"A03","automatic parameter IDs":"A05","smoothing terminates":"A06","re-enabled smoothing":"A06","negative parameter count":"A08","smoothing arrives":"A06","MIDI queue reads":"B05","note and frequency conversions":"B06","parameter changes at one":"B01","bar and beat positions":"B03","a note played again under":"B07","a reused voice":"B07","legato treats":"B07","unison note-off":"B07","unison releases voices":"B07"}
import sys
M.update({"delay line reads stay":"D03","oscillator phase wraps":"D07","band-limited oscillators":"D07","RMS detector survives":"D06","envelope level in dB":"D06","a sustain change during decay":"D05","summing buffers of different":"D10","no level converts to less":"D09","the balanced pan law":"D11","stereo panning has no gain":"D11","all-pass interpolation delays":"D04","seeded noise":"D12","violet noise":"D12","pink noise":"D12","hard right panning":"D11","random LFOs share":"C06","soft clipping treats":"D10"})

M.update({"compressor knee":"E01","expander knee":"E02","limiter never exceeds":"E04","gate range set while":"E03","foldback distortion":"E05","exponential curve":"E05","bitcrusher holds":"E06","bitcrusher anti-alias":"E06","bitcrusher dither":"E06","tape saturation keeps":"E07","tape saturation never":"E07","tube saturation keeps":"E07","chorus reaches":"E08","flanger reaches":"E08","resetting the chorus":"E08","flanger mixes":"E08","phaser stages turn":"E09","phaser depth":"E09","changing the phaser stages":"E09","ring modulator returns":"E09","tremolo reports":"E09","tremolo stereo phase":"E09","FDN tail darker":"E10","FDN decay and diffusion":"E10","FDN with eight":"E10","run off its delay lines":"E10","mixes dry and wet once":"E10","FDN processing does not allocate":"C05","frozen Freeverb":"E10","Freeverb damping":"E10"})
M.update({"resetting a comb delay":"C02"})
M.update({"cross-correlation uses":"M01","inverse FFT of a short":"M01","FFT magnitudes below":"M01","spectrum magnitudes below":"M02","spectrum range can include":"M02","peak hold runs":"M03","RMS meter survives a drop":"M03","K-weighting rolls":"M04","5.1 loudness":"M04","short-term loudness":"M04","integrated loudness measures":"M04","relative loudness gate":"M04","reset correlation meter":"M05","correlation hold time":"M05","balance in dB":"M05","phase scope width":"M05"})
M.update({"factory and class texts":"H01","getClassInfo of a negative":"H01","GetPluginFactory references":"H01","createInstance returns the interface":"H01","reference counts are atomic":"H01","component ids are not":"H09","any number of buses and channels":"H02","automated blocks process each":"H03","parameter edits from the host print":"H06","automation point of a dense":"B01","each note event is delivered":"H04","note velocities are rounded":"H04","outside the basic plane travel":"H06","parameter names and units are UTF":"H06","bus names are UTF":"H07","controller converts plain":"H06","bus arrangements of any number":"H07","getBusArrangement reports":"H07","stream writes are completed":"H05","typed stream reads":"H05","damaged string length":"H05","a state is read to its end":"H05","panicking plug-in fails":"H08"})
M.update({"unknown media type has no":"F01","built bus configuration":"F01","built DSP chain":"F03","ParallelChain.Process":"F03","global logging functions":"F04","String method logs":"F04","handed out by the profiler":"F05","profiler without a sample":"F05","Measurement.Percentile":"F05","UpdateCPULoad without":"F05","RMS of very large":"F06","CompareBuffers reports":"F06","DumpBuffer shows":"F06","PrintBuffer shows":"F06","DetectAllocation sees":"G01"})
M.update({'counts the parameters it writes':'A07'})
M.update({'lowering the voice limit':'B07'})
M.update({'frequency reaches half the sample rate':'D01'})
M.update({'setting the gate range it':'C07','gate sidechain filter':'E03','setting the chorus delay':'C07','setting the flanger delay':'C07','setting the phaser stages it':'C07','bypass parameters carry':'A02','percentages are read with':'A03','B sharp and C flat':'A03'})
F=[ # genuine defects recorded rather than repaired
dict(property="D09",sig="D09/softclip-step",what="gain.SoftClip passes levels up to the threshold unchanged but maps a level just above it to 0.78 of the threshold (a jump); any level just above the threshold shows it, and pkg/dsp/gain's own test fixes the identity below the threshold, so the curve cannot be smoothed without redefining it"),
] # the examples may not be edited by this work: findings/examples holds a repair of each, which the checks also run
def f(p,e,what,*sigs):
    for s in sigs: F.append(dict(property=p,sig='%s/%s'%(e,s),what='examples/%s: %s (repair: findings/examples/%s.patch)'%(e,what,e)))
W="the parameters exist only after setupProcessing, and every setupProcessing makes new ones with default values: a host that lists, saves or restores before finds none, and settings are lost"
for e in ('chain_fx','debug_example'):
    f('X01',e,W,'cold/changed','cold/getState','cold/params','state/after a new setupProcessing the value','state/after setState and setupProcessing the value','state/after setState the value','state/set')
for p in ('X01','X02','X03'):
    f(p,'auto_params','the parameter registry is nil until setupProcessing, so the component cannot be created','factory/create')
f('X01','drumbus','the transient settings are stored in -1..1 and shown in percent, but the shown text is read back as the stored value','param/roundtrip/Transient Attack','param/roundtrip/Transient Sustain')
f('X01','transientshaper','the settings are stored in -1..1 and shown in percent, but the shown text is read back as the stored value','param/roundtrip/Attack','param/roundtrip/Sustain')
f('X02','gain','the smoothed gain, already in dB, is taken for a normalized value and scaled to dB again: gains of hundreds of dB','audio/bounded','audio/finite','audio/reset')
f('X03','gain','the smoothed gain, already in dB, is taken for a normalized value, and the smoother follows settings only when they are automated','sound/blocks','sound/settings')
f('X02','surround','output channels above the second are never written','audio/finite')
f('X03','surround','output channels above the second are never written','sound/blocks','sound/settings')
f('X03','chain_fx','settings act only when automated, and one set of effects, with its state, is shared by both channels in turn','sound/blocks','sound/settings')
f('X03','mastercompressor','both channels run through one compressor in turn, so the envelope runs over block by block','sound/blocks')
f('X03','mastercompressor','Auto Makeup carries the bypass flag, which the host then uses as the bypass','sound/bypass')
f('X03','studiogate','HPF Enable carries the bypass flag, which the host then uses as the bypass','sound/bypass')
f('X03','multidistortion','both channels run through one tube stage in turn, so its state jumps at every block','sound/blocks')
f('X03','sidechain','both channels run through one compressor in turn, so the envelope runs over block by block','sound/blocks')
f('X03','simplesynth','all events of a block take effect at its first sample','sound/blocks')
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','34a0618..HEAD'],capture_output=True,text=True).stdout.strip().split('\n')
k=json.load(open('/verif/known_findings.json'))
k['fixed']=[]; k['findings']=F
for l in log:
    h,m=l.split(' ',1)
    if not m.startswith('fix:'): continue
    p=[v for s,v in M.items() if s in m]
    assert len(p)==1,(l,p)
    k['fixed'].append('fixed: property=%s %s %s'%(p[0],h,m[5:]))
json.dump(k,open('/verif/known_findings.json','w'),indent=1)
print(len(k['fixed']))
