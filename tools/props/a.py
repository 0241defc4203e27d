D='pkg/framework/'
P=[
dict(id='A01',built=True,title='A parameter only ever holds a finite value between 0 and 1',
 statement='''Whatever is written to a parameter (normalized, plain, parsed from text, loaded from saved state or declared as its default, including NaN and infinities), its normalized value and its declared default stay finite and within 0 to 1; in-range values are kept exactly and out-of-range ones become the nearest limit. Concurrent readers and writers see the parameter as an atomic register: a read returns a value some write stored, never torn, never older than one already seen.''',
 over=['inputs','histories','schedules'],q='all writes of all doubles, parameter ranges and interleavings of readers and writers',
 why='Tests write a few in-range values from one goroutine; NaN, infinities, degenerate ranges and concurrent access are never reached.',
 files=[D+'param/parameter.go',D+'param/builder.go'],mech=[('clamp on every store','param.Parameter.SetValue/Normalize'),('64-bit atomic load and store of the value','param.Parameter.GetValue/SetValue')],
 tech='invariant monitor on hostile write histories, register linearizability check, race detector',
 note='Held on the executed write histories and interleavings; concurrent histories are small (32 operations) and judged exactly, long streams are judged for torn and backward reads, and the same workload runs race-instrumented.'),
dict(id='A02',built=True,title='Normalized, plain and discrete parameter values convert consistently',
 statement='''For a parameter with minimum below maximum, normalized 0 and 1 are the minimum and maximum, conversion in between is linear and increasing, converting either way and back returns the same value, and out-of-range plain values clamp. For a choice parameter the step count is one less than the number of options, and for evenly spaced option values step k displays option k, whose name or alias (in any letter case) parses back to step k; plain integer-stepped parameters display and parse every step likewise. A bypass parameter carries the flag by which the host finds it, and among the ready-made parameter groups nothing else does.''',
 over=['inputs','configurations'],q='all ranges, values, option counts, offsets and spacings',
 why='Tests use one four-option list and a few round values; rounding of k/n times n fails only for particular counts.',
 files=[D+'param/parameter.go',D+'param/builders.go'],mech=[('linear mapping','param.Parameter.Normalize/Denormalize'),('option lookup','param.Choice')],
 tech='reference-model monitor over generated ranges and option lists',note='Compared with an independent model on every step of option lists up to 300 entries and on random ranges.'),
dict(id='A03',built=True,title='The text a parameter displays parses back to the displayed value',
 statement='''For every ready-made parameter and formatter/parser pair (gain, mix, frequency, time, ratio, Q, pan, phase, percent, decibel, rate, note, on/off, filter and gate type, the standard compressor and EQ controls), parsing the displayed text returns the value within the displayed resolution, and note names are exact for every note in every range. A choice list shows the nearest option's name, takes every option's name and aliases in any case, and refuses other text. A minus-infinity display parses to a value at or below -60 dB or the minimum. Arbitrary text yields an error or an in-range value and arbitrary values yield some text, never a crash.''',
 over=['inputs','configurations'],q='all values of all ready-made parameters, and all strings',
 why='Tests parse a handful of strings per formatter; unit switch-over points, inexact discrete values and malformed text are not covered.',
 files=[D+'param/formatters.go',D+'param/builders.go',D+'param/filter_types.go'],mech=[('formatter and parser pairs','param.*Formatter / *Parser')],
 tech='round-trip monitor over dense sweeps, panic monitor over hostile text',note='Dense and random sweeps of each ready-made parameter; resolution is taken from the printed precision.'),
dict(id='A04',built=True,title='The parameter registry is an ordered set with consistent lookups',
 statement='''A registry keeps the first parameter added under each identifier, ignores later ones, and lists parameters in the order they were added; lookup by identifier, by index, the count and the full list always agree, unknown identifiers and out-of-range indexes yield nothing, and a returned list belongs to the caller. Under concurrent additions and lookups no parameter is lost or listed twice, a completed addition is visible, and positions never change.''',
 over=['histories','schedules'],q='all sequences and interleavings of additions and lookups',
 why='Tests add a few parameters from one goroutine.',
 files=[D+'param/registry.go'],mech=[('read-write lock around the map and order list','param.Registry')],
 tech='model-based history check, snapshot-prefix monitor, race detector',note='Executed histories and interleavings only; concurrent runs use up to 7 goroutines.'),
dict(id='A05',built=True,title='Automatic parameter identifiers never collide',
 statement='''Registering a new name without an identifier always succeeds with one that no other parameter holds and that no reservation covers; registering a known name keeps its identifier and replaces the parameter. Explicit registration fails exactly when the identifier is taken and then leaves the parameter as it was, and reserved ranges overlap neither each other nor identifiers in use. This holds for every identifier a plug-in may use (below 2^31) and every order and interleaving of these operations, lookups by name and identifier agree, and clearing forgets everything.''',
 over=['histories','schedules'],q='all sequences and interleavings of automatic, explicit and reserving registrations with identifiers below 2^31',
 why='Tests run three or four registrations in one order.',
 files=[D+'param/registry_auto.go'],mech=[('next-identifier counter advanced past explicit identifiers','param.AutoRegistry.Register/RegisterWithID/Reserve')],
 tech='ownership monitor over random and concurrent registration histories, race detector',note='A manual registration may use a reserved identifier (that is what reservation is for), so explicit ones are judged against automatic ones only in concurrent runs.'),
dict(id='A06',built=True,title='Parameter smoothing approaches its target without overshoot and arrives',
 statement='''From any start value, target, smoothing law, rate and interruption, each smoothed step lies between the previous value and the target (within the smoothing threshold), the target is reached within a bounded number of steps, and the value then stays there; linear takes the given number of equal steps, logarithmic equal ratios, exponential a one-pole decay, and time-based rates scale with the sample rate. A smoothed parameter follows its parameter, however that is set (through the smoother, by the host, by its plain value), through enabling, disabling and rate changes: disabled it returns the parameter value, enabled it settles on it.''',
 over=['inputs','histories'],q='all laws, rates, values, thresholds and sequences of retargeting, enabling and rate changes (exponential rates below 1)',
 why='Tests run one 0-to-1 ramp per law; equal values, zero times, sign changes and re-enabling are not covered.',
 files=[D+'param/smoother.go'],mech=[('per-law step and arrival tests','param.Smoother.SetTarget/Next'),('enable/disable','param.SmoothedParameter.SetSmoothing')],
 tech='step-by-step trace monitor with bounded-progress rule',note='Arrival is judged as bounded progress: rate + 3 steps for linear/logarithmic, 60/(1-rate) for exponential.'),
dict(id='A07',built=True,title='Saved state restores every parameter and custom data exactly',
 statement='''Saving and then loading restores every parameter value bit for bit and hands the custom data bytes back unchanged, also when parameters were added, removed or reordered in between: unknown saved parameters are ignored and parameters absent from the image keep their value. Saving is deterministic and keeps the released byte layout, images load from readers that deliver any chunk sizes, and a save taken while other threads change or add parameters is a whole image that contains for each parameter a value it really held.''',
 over=['inputs','histories','schedules','configurations'],q='all registries, values, custom data, reader chunkings and concurrent writers',
 why='The state package has no tests at all.',
 files=[D+'state/manager.go'],mech=[('versioned binary image keyed by parameter identifier','state.Manager.Save/Load')],
 tech='round-trip and golden-layout monitor, concurrent save monitor, race detector',note='Held on the generated registries and images; layout is pinned by an independent writer in the harness.'),
dict(id='A08',built=True,title='Damaged state data or failing streams never corrupt a plugin',
 statement='''Loading a truncated image, one with a wrong header, newer version, impossible count or flipped bytes, or from a failing reader never crashes or hangs; truncation, bad headers, impossible counts and reader failures are reported as errors, and a rejected header changes nothing. Afterwards every parameter is in range and holds either its previous value or one the image records for it. A writer failing at any byte makes saving report an error without changing any parameter, and errors from custom save and load code are reported.''',
 over=['inputs','fault_sequences'],q='every truncation point and fault position, and random corruptions, of images of random registries',
 why='The state package has no tests at all.',
 files=[D+'state/manager.go'],mech=[('full reads with error propagation','state.Manager.Load'),('write error propagation','state.Manager.Save')],
 tech='fault injection at every read and write position with state monitors',note='Enumerates every cut and fault position of the generated images; corruptions beyond that are random.'),
]
