package main

import (
	"fmt"
	"runtime"

	"github.com/justyntemme/vst3go/pkg/dsp"
	"github.com/justyntemme/vst3go/pkg/dsp/distortion"
	"github.com/justyntemme/vst3go/pkg/dsp/gain"
	"github.com/justyntemme/vst3go/pkg/dsp/interpolation"
	"github.com/justyntemme/vst3go/pkg/dsp/mix"
	"github.com/justyntemme/vst3go/pkg/dsp/pan"
	"github.com/justyntemme/vst3go/pkg/dsp/utility"
	"verif/harness/mon"
)

// free returns the buffer functions that belong to no processor, over buffers of n samples.
func free(n int) map[string]func() {
	a, b, d, e := make([]float32, n), make([]float32, n), make([]float32, n), make([]float32, n)
	bs, gs := [][]float32{a, b}, []float32{0.5, 0.2}
	for i := range a {
		a[i], b[i] = float32(i%7)/7-0.4, float32(i%5)/5-0.4
	}
	nz := utility.NewNoiseGenerator(utility.PinkNoise)
	return map[string]func(){
		"dsp": func() {
			dsp.Clear(d)
			dsp.Copy(d, a)
			dsp.Add(d, b)
			dsp.AddScaled(d, b, 0.5)
			dsp.Scale(d, 0.5)
			dsp.Peak(d)
			dsp.RMS(d)
			dsp.Clip(d, 0.4)
			dsp.SoftClip(d, 0.3)
		},
		"mix": func() {
			mix.DryWetBuffer(a, b, 0.3)
			mix.DryWetBufferTo(a, b, 0.3, d)
			mix.CrossfadeBuffer(a, b, 0.4, true, d)
			mix.Sum(bs, d)
			mix.SumWeighted(bs, gs, d)
			mix.Blend(a, b, 0.1, d)
		},
		"pan": func() {
			pan.Process(a, 0.3, pan.ConstantPower, d, e)
			pan.ProcessStereo(a, b, 0.3, pan.Linear, d, e)
			pan.Width(a, b, 0.7, d, e)
			pan.Balance(a, b, -0.2, d, e)
		},
		"gain": func() {
			gain.ApplyBuffer(d, 0.9)
			gain.ApplyDbBuffer(d, -1)
			gain.ApplyBufferTo(a, 0.5, d)
			gain.Fade(d, 0, 1)
			gain.FadeDb(d, -60, 0)
			gain.SoftClipBuffer(d, 0.4)
			gain.HardClipBuffer(d, 0.3)
		},
		"resample": func() {
			interpolation.Resample(a, 1.3, d)
			interpolation.ResampleCubic(a, 0.8, d)
			interpolation.SmoothBuffer(d, 1, 0.1)
			interpolation.Sinc(a, n/2, 0.3, 8)
			interpolation.Lanczos(a, n/2, 0.3, 3)
		},
		"noise": func() { nz.Generate(d); nz.GenerateAdd(d, 0.3) },
	}
}

func runFree(x []float32) {
	for _, f := range free(64) {
		f()
	}
}

func c05free(r *mon.Run) {
	for rep := 0; rep < r.N(3, 40); rep++ {
		r.Case(fmt.Sprintf("free/%d", rep), func(c *mon.C) {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
			for nm, f := range free(mon.Pick(c.Rand, 64+c.Rand.IntN(1000), 20000)) {
				f()
				if m := mallocs(f); m > 0 {
					c.Failf("C05/functions/"+nm, "%d allocations in the buffer functions of %s", m, nm)
				}
				c.Distinct(nm, rep)
			}
			// the double-precision processors
			m := mon.Pick(c.Rand, 256, 1, 4096, 20000)
			x, y := make([]float64, m), make([]float64, m)
			for i := range x {
				x[i] = float64(i%9)/9 - 0.5
			}
			bc, tp, tb, ws := distortion.NewBitcrusher(48000), distortion.NewTapeSaturation(48000), distortion.NewTubeSaturation(), distortion.NewWaveshaper()
			bc.SetDither(distortion.DitherType(c.Rand.IntN(3)))
			bc.SetAntiAlias(c.Rand.IntN(2) == 0)
			bc.SetBitDepth(in(c.Rand, 1, 24))
			bc.SetSampleRateReduction(in(c.Rand, 1, 20))
			tp.SetFlutter(c.Rand.Float64())
			tp.SetSaturation(c.Rand.Float64())
			ws.SetCurveType(distortion.CurveType(c.Rand.IntN(7)))
			ws.SetDrive(in(c.Rand, 1, 50))
			for nm, f := range map[string]func(){
				"bitcrusher": func() { bc.ProcessBlock(x, y); bc.ProcessStereo(x, x, y, y); bc.Process(0.2) },
				"tape":       func() { tp.ProcessBlock(x, y); tp.ProcessStereo(x, x, y, y); tp.Process(0.2) },
				"tube":       func() { tb.ProcessBlock(x, y); tb.ProcessStereo(x, x, y, y); tb.Process(0.2) },
				"waveshaper": func() { ws.ProcessBlock(x, y); ws.ProcessStereo(x, x, y, y); ws.Process(0.2) },
			} {
				f()
				if m := mallocs(f); m > 0 {
					c.Failf("C05/block/"+nm, "%d allocations while processing %d samples", m, len(x))
				}
				c.Distinct(nm, rep)
			}
		})
	}
}
