// Area e: audio effects judged against independent reference models.
package main

import (
	"fmt"
	"math"

	"verif/harness/mon"
)

func main() {
	mon.Main(map[string]mon.Prop{
		"E01": {F: e01, Rule: "random compressor settings (changed mid-run), level programs, mono/stereo/sidechain forms, judged per sample against the static curve applied to an independent run of the level detector; non-trivial = distinct setting and program"},
		"E02": {F: e02, Rule: "random expander settings (changed mid-run) and level programs judged per sample against bounds of the static curve and the gain smoothing; non-trivial = distinct setting and program"},
		"E03": {F: e03, Rule: "random gate settings (changed mid-run) and level programs judged per sample by a state-machine trace specification; non-trivial = distinct setting, program and state transition"},
		"E04": {F: e04, Rule: "random limiter settings (changed mid-run) and hot programs; every output sample compared with the ceiling; non-trivial = distinct setting and program"},
		"E05": {F: e05, Rule: "dense and random inputs through every curve and drive judged by bounds, symmetry, monotony, continuity and closed forms; non-trivial = distinct setting and input"},
		"E06": {F: e06, Rule: "random bit depths, rate reductions, dithers and signals judged by grid, hold, error bound and filter reference; non-trivial = distinct setting and signal"},
		"E07": {F: e07, Rule: "random tape and tube settings (changed mid-run) and signals judged against a reference model within the noise and flutter bounds; non-trivial = distinct setting and signal"},
		"E08": {F: e08, Rule: "random chorus and flanger settings (changed mid-run) and signals judged per sample against a delay-modulation reference; non-trivial = distinct setting and signal"},
		"E09": {F: e09, Rule: "random phaser, tremolo and ring modulator settings (changed mid-run) judged per sample against references; measured all-pass phase; non-trivial = distinct setting and signal"},
		"E10": {F: e10, Rule: "random reverb settings (changed mid-run) and signals judged against filter references, linearity, decay, boundedness and dry-path exactness; non-trivial = distinct setting and signal"},
	})
}

var rates = []float64{11025, 22050, 44100, 48000, 88200, 96000, 192000}

func db(x float64) float64  { return 20 * math.Log10(x) }
func lin(d float64) float64 { return math.Pow(10, d/20) }
func dup(x []float32) []float32 {
	return append([]float32(nil), x...)
}

// program is a signal whose level keeps changing: silence, tones, noise,
// constants and clicks over the given range of decibels.
func program(c *mon.C, n int, loDB, hiDB float64) []float32 {
	x := make([]float32, n)
	for i := 0; i < n; {
		m := 1 + c.Rand.IntN(n/3+2)
		amp := lin(mon.Uni(c.Rand, loDB, hiDB))
		kind := c.Rand.IntN(6)
		w := mon.LogUniform(c.Rand, 0.001, 3)
		ph := c.Rand.Float64() * 6
		for k := 0; k < m && i < n; k, i = k+1, i+1 {
			switch kind {
			case 0:
			case 1:
				x[i] = float32(amp * math.Sin(w*float64(k)+ph))
			case 2:
				x[i] = float32(amp * (2*c.Rand.Float64() - 1))
			case 3:
				x[i] = float32(amp)
			case 4:
				if c.Rand.IntN(50) == 0 {
					x[i] = float32(-amp)
				}
			case 5: // swell
				x[i] = float32(amp * math.Exp(-3*float64(m-k)/float64(m)) * math.Sin(w*float64(k)))
			}
		}
	}
	return x
}

func to64(x []float32) []float64 {
	y := make([]float64, len(x))
	for i, v := range x {
		y[i] = float64(v)
	}
	return y
}

func maxAbs(x []float32) float64 {
	m := 0.0
	for _, v := range x {
		if a := math.Abs(float64(v)); !(a <= m) {
			m = a
		}
	}
	return m
}

var _ = fmt.Sprint
