// Area d: DSP building blocks judged against independent mathematics.
package main

import (
	"math"
	"math/cmplx"

	"verif/harness/mon"
)

func main() {
	mon.Main(map[string]mon.Prop{
		"D01": {F: d01, Rule: "random filter type, sample rate, frequency, Q and gain: impulse response transformed at random frequencies and compared with the bilinear image of the analogue prototype; non-trivial = distinct setting and frequency"},
		"D02": {F: d02, Rule: "random state-variable filter settings: response of each output against the analogue prototype, output identities on noise, morphing against the plain outputs, boundedness under per-sample modulation; non-trivial = distinct setting and frequency"},
		"D03": {F: d03, Rule: "random delay lines, delays (fractional, limits, out of range, changing) and signals compared with the recorded input history; echoes of allpass, comb, multi-tap and modulated lines; non-trivial = distinct line size and delay"},
		"D04": {F: d04, Rule: "random samples, positions, windows, ratios and buffer edges judged by interpolation identities; non-trivial = distinct position"},
		"D05": {F: d05, Rule: "random trigger/release/parameter histories judged per sample by trace rules and time constants; non-trivial = distinct history step with an active envelope"},
		"D06": {F: d06, Rule: "random signals, modes, types and time constants judged by bounds, steady states, decay and hold; non-trivial = distinct setting and signal"},
		"D07": {F: d07, Rule: "random waveforms, rates and frequency changes compared with reference phase accumulation; harmonic analysis of band-limited generators; non-trivial = distinct setting"},
		"D08": {F: d08, Rule: "random LFO settings and changes judged per sample against waveform definitions and the accumulated phase; non-trivial = distinct setting"},
		"D09": {F: d09, Rule: "dense and random levels, gains and thresholds judged by conversion identities; non-trivial = distinct level or setting"},
		"D10": {F: d10, Rule: "random buffers of unequal lengths compared with reference sums, mixes and statistics; non-trivial = distinct shape and setting"},
		"D11": {F: d11, Rule: "dense pan positions and laws judged by gain identities, continuity and reference mixing; non-trivial = distinct position and law"},
		"D12": {F: d12, Rule: "seeded noise of every colour judged by range, reproducibility and octave-band energy; non-trivial = distinct seed and colour"},
		"D13": {F: d13, Rule: "DC blocker on offsets, tones and steps over rates and cutoffs; non-trivial = distinct setting"},
		"D14": {F: d14, Rule: "random ranges and values judged by inverse, monotony and end-point identities; non-trivial = distinct range and value"},
	})
}

// dft of x at frequency w radians per sample.
func dft(x []float32, w float64) complex128 {
	var s complex128
	for i, v := range x {
		sn, cs := math.Sincos(w * float64(i))
		s += complex(float64(v)*cs, -float64(v)*sn)
	}
	return s
}

func noise(c *mon.C, n int, amp float64) []float32 {
	x := make([]float32, n)
	for i := range x {
		x[i] = float32((c.Rand.Float64()*2 - 1) * amp)
	}
	return x
}

func dup(x []float32) []float32 { return append([]float32(nil), x...) }

func maxAbs(x []float32) float64 {
	m := 0.0
	for _, v := range x {
		if a := math.Abs(float64(v)); !(a <= m) {
			m = a
		}
	}
	return m
}

var rates = []float64{22050, 32000, 44100, 48000, 88200, 96000, 192000}

var _ = cmplx.Abs
