package main

import (
	"fmt"
	"math"
	"math/cmplx"

	"github.com/justyntemme/vst3go/pkg/dsp/modulation"
	"github.com/justyntemme/vst3go/pkg/dsp/oscillator"
	"verif/harness/mon"
)

func frac(x float64) float64 { return x - math.Floor(x) }

// near1 is the distance of a phase from the wave's jump points.
func jumpDist(p float64, at ...float64) float64 {
	m := 1.0
	for _, a := range at {
		d := math.Abs(frac(p - a))
		m = math.Min(m, math.Min(d, 1-d))
	}
	return m
}

func wave(t int, p, width float64) float64 {
	switch t {
	case 0:
		return math.Sin(2 * math.Pi * p)
	case 1:
		return 2*p - 1
	case 2:
		if p < 0.5 {
			return 1
		}
		return -1
	case 3:
		if p < width {
			return 1
		}
		return -1
	default:
		if p < 0.5 {
			return 4*p - 1
		}
		return 3 - 4*p
	}
}

func d07(r *mon.Run) {
	names := []string{"sine", "saw", "square", "pulse", "triangle"}
	r.Par("wave", r.N(300, 10000), func(c *mon.C, i int) {
		t := i % 5
		sr := mon.Pick(c.Rand, rates...)
		o := oscillator.New(sr)
		f := 440.0
		ph := 0.0
		width := c.Rand.Float64()
		if c.Rand.IntN(4) == 0 {
			ph = mon.Uni(c.Rand, -3, 3)
			o.SetPhase(ph)
			ph = frac(ph)
		}
		single := func() float32 {
			switch t {
			case 0:
				return o.Sine()
			case 1:
				return o.Saw()
			case 2:
				return o.Square()
			case 3:
				return o.Pulse(width)
			default:
				return o.Triangle()
			}
		}
		block := func(b []float32) {
			switch t {
			case 0:
				o.ProcessSine(b)
			case 1:
				o.ProcessSaw(b)
			case 2:
				o.ProcessSquare(b)
			case 3:
				o.ProcessPulse(b, width)
			default:
				o.ProcessTriangle(b)
			}
		}
		for seg := 0; seg < 12; seg++ {
			switch c.Rand.IntN(5) {
			case 0:
				f = mon.LogUniform(c.Rand, 0.01, sr/2)
			case 1:
				f = -mon.LogUniform(c.Rand, 1, sr/2) // through-zero modulation
			case 2:
				f = mon.Pick(c.Rand, 0, sr/4, sr/2, 1, sr, 1.5*sr, -3*sr)
			case 3:
				if c.Rand.IntN(3) == 0 {
					o.Reset()
					ph = 0
				}
			}
			o.SetFrequency(f)
			n := 1 + c.Rand.IntN(400)
			b := make([]float32, n)
			if c.Rand.IntN(2) == 0 {
				block(b)
			} else {
				for k := range b {
					b[k] = single()
				}
			}
			for k, y := range b {
				if !(y >= -1.0000001 && y <= 1.0000001) {
					c.Failf("D07/range-"+names[t], "%s at %g Hz (rate %g): sample %g outside -1 to 1", names[t], f, sr, y)
					return
				}
				p := frac(ph)
				if jumpDist(p, 0, 0.5, width) > 1e-6 && math.Abs(float64(y)-wave(t, p, width)) > 1e-4 {
					c.Failf("D07/"+names[t], "%s at %g Hz (rate %g): sample %d of segment %d is %g, phase %g calls for %g", names[t], f, sr, k, seg, y, p, wave(t, p, width))
					return
				}
				ph += f / sr
			}
			ph = frac(ph)
			c.Distinct(t, sr, f, n)
			c.Count("samples", n)
		}
		c.Evals(12)
	})
	r.Par("bandlimited", r.N(60, 2000), func(c *mon.C, i int) {
		// a period of P samples (P odd) shows exactly the harmonics below Nyquist and nothing else
		sr := mon.Pick(c.Rand, 44100.0, 48000, 96000)
		P := 2*c.Rand.IntN(150) + 7
		f := sr / float64(P)
		m := (P - 1) / 2
		b := oscillator.NewBLIT(sr)
		b.SetFrequency(f)
		x := make([]float32, P)
		for k := 0; k < P; k++ {
			b.BLIT()
		}
		for k := range x {
			x[k] = b.BLIT()
		}
		for h := 0; h <= m; h++ {
			g := cmplx.Abs(dft(x, 2*math.Pi*float64(h)/float64(P))) / float64(P)
			w := 1 / float64(2*m+1)
			if !(math.Abs(g-w) <= 0.02*w+1e-4) {
				c.Failf("D07/blit", "impulse train at %g Hz (rate %g): harmonic %d has level %g, expected %g", f, sr, h, g, w)
				break
			}
		}
		s := oscillator.NewBandLimitedSaw(sr)
		s.SetFrequency(f)
		warm := make([]float32, P*(8000/P+1))
		s.Process(warm)
		if mx := maxAbs(warm); !(mx <= 2.5) {
			c.Failf("D07/saw-bound", "band-limited saw at %g Hz reaches %g", f, mx)
		}
		for k := range x {
			x[k] = s.Next()
		}
		if mx := maxAbs(x); !(mx <= 1.35) {
			c.Failf("D07/saw-level", "band-limited saw at %g Hz reaches %g", f, mx)
		}
		f1 := 2 / math.Pi / 2 // half the amplitude of the first sawtooth harmonic, as a two-sided line
		for h := 1; h < m; h++ {
			g := cmplx.Abs(dft(x, 2*math.Pi*float64(h)/float64(P))) / float64(P)
			// an ideal sample integrator: harmonic h of a discrete sawtooth
			w := (1 / float64(P)) / math.Sin(math.Pi*float64(h)/float64(P))
			if !(math.Abs(g-w) <= 0.15*w+0.01*f1) {
				c.Failf("D07/saw-harmonic", "band-limited saw at %g Hz (rate %g): harmonic %d has level %g, expected %g", f, sr, h, g, w)
				break
			}
		}
		c.Distinct("bl", P, sr)
	})
	r.Par("blit-any", r.N(100, 3000), func(c *mon.C, i int) {
		sr := 48000.0
		b, s := oscillator.NewBLIT(sr), oscillator.NewBandLimitedSaw(sr)
		ph := 0.0
		for seg := 0; seg < 10; seg++ {
			f := mon.Pick(c.Rand, mon.LogUniform(c.Rand, 20, 24000), mon.LogUniform(c.Rand, 20, 24000), 0, 30000, 1e-3)
			b.SetFrequency(f)
			s.SetFrequency(f)
			for k := 0; k < 500; k++ {
				if y := b.BLIT(); !(math.Abs(float64(y)) <= 1.0001) {
					c.Failf("D07/blit-bound", "impulse train at %g Hz: %g", f, y)
					return
				} else if f >= 10 { // a sum of equal cosines below Nyquist, its phase carried over frequency changes
					m := math.Floor(0.5 * sr / f)
					w := 1.0
					if sn := math.Sin(math.Pi * ph); math.Abs(sn) > 1e-9 {
						w = math.Sin((2*m+1)*math.Pi*ph) / sn / (2*m + 1)
					}
					if !(math.Abs(float64(y)-w) <= 1e-3) {
						c.Failf("D07/blit-phase", "impulse train at %g Hz, sample %d of segment %d: %g, expected %g at phase %g", f, k, seg, y, w, ph)
						return
					}
				}
				ph = frac(ph + f/sr)
				if y := s.Next(); !(math.Abs(float64(y)) <= 6) {
					c.Failf("D07/saw-any", "band-limited saw at %g Hz: %g", f, y)
					return
				}
			}
			c.Distinct("any", f)
		}
	})
}

func d08(r *mon.Run) {
	ws := []modulation.Waveform{modulation.WaveformSine, modulation.WaveformTriangle, modulation.WaveformSquare, modulation.WaveformSawtooth, modulation.WaveformRandom}
	wt := []int{0, 4, 2, 1}
	names := []string{"sine", "triangle", "square", "sawtooth", "random"}
	r.Par("lfo", r.N(300, 10000), func(c *mon.C, i int) {
		t := i % 5
		sr := mon.Pick(c.Rand, 1000.0, 22050, 44100, 48000, 96000, 192000)
		l := modulation.NewLFO(sr)
		l.SetWaveform(ws[t])
		f, dep, off, ph := 1.0, 1.0, 0.0, 0.0
		sync, sp := false, 0.0
		for seg := 0; seg < 10; seg++ {
			switch c.Rand.IntN(8) {
			case 0:
				f = mon.Pick(c.Rand, 0, 1000, -1, mon.LogUniform(c.Rand, 0.01, 20), mon.LogUniform(c.Rand, 5, 20))
				l.SetFrequency(f)
				f = math.Max(0.01, math.Min(20, f))
			case 1:
				dep = mon.Uni(c.Rand, -0.3, 1.3)
				l.SetDepth(dep)
				dep = math.Max(0, math.Min(1, dep))
			case 2:
				off = mon.Uni(c.Rand, -1.3, 1.3)
				l.SetOffset(off)
				off = math.Max(-1, math.Min(1, off))
			case 3:
				ph = mon.Uni(c.Rand, -3, 3)
				l.SetPhase(ph)
				ph = frac(ph)
			case 4:
				sync, sp = c.Rand.IntN(2) == 0, mon.Pick(c.Rand, 0, 0.25, c.Rand.Float64())
				l.EnableSync(sync, sp)
			case 5:
				l.Sync()
				if sync {
					ph = sp
				}
			case 6:
				if c.Rand.IntN(3) == 0 {
					l.Reset()
					ph = 0
				}
			}
			if g := l.GetPhase(); jumpDist(ph, 0) > 1e-6 && !(math.Abs(g-ph) <= 1e-6) || !(g >= 0 && g <= 1) {
				c.Failf("D08/phase", "%s: phase %g, expected %g", names[t], g, ph)
				return
			}
			n := 1 + c.Rand.IntN(3000)
			b := make([]float64, n)
			if c.Rand.IntN(2) == 0 {
				l.ProcessBuffer(b)
			} else {
				for k := range b {
					b[k] = l.Process()
				}
			}
			for k, y := range b {
				if !(y >= -1 && y <= 1) {
					c.Failf("D08/range", "%s depth %g offset %g: %g", names[t], dep, off, y)
					return
				}
				if t == 4 {
					if !(y >= math.Max(-1, off-dep)-1e-9 && y <= math.Min(1, off+dep)+1e-9) {
						c.Failf("D08/random-range", "random depth %g offset %g: %g", dep, off, y)
						return
					}
				} else {
					w := math.Max(-1, math.Min(1, wave(wt[t], frac(ph), 0)*dep+off))
					if jumpDist(ph, 0, 0.5) > 1e-6 && !(math.Abs(y-w) <= 1e-6) {
						c.Failf("D08/"+names[t], "%s %g Hz depth %g offset %g at rate %g: sample %d is %g, phase %g calls for %g", names[t], f, dep, off, sr, k, y, frac(ph), w)
						return
					}
				}
				ph += f / sr
			}
			ph = frac(ph)
			c.Distinct(t, sr, f, dep, off, seg)
			c.Count("samples", n)
		}
	})
	r.Par("random-swept", r.N(20, 400), func(c *mon.C, i int) {
		// a frequency that is being moved all the time does not stop or rush the random steps
		l := modulation.NewLFO(48000)
		l.SetWaveform(modulation.WaveformRandom)
		f := mon.Uni(c.Rand, 8, 18)
		every := 1 + c.Rand.IntN(200)
		n, runs, last := 48000*4, 0, 9.0
		for k := 0; k < n; k++ {
			if k%every == 0 {
				l.SetFrequency(f * mon.Uni(c.Rand, 0.95, 1.05))
			}
			if y := l.Process(); y != last {
				runs++
				last = y
			}
		}
		if w := 4 * f; !(math.Abs(float64(runs)-w) <= 0.15*w+2) {
			c.Failf("D08/random-swept", "random LFO swept around %g Hz every %d samples changed %d times in 4 s", f, every, runs)
		}
		c.Distinct("swept", f, every)
	})
	r.Par("slow", r.N(10, 80), func(c *mon.C, i int) {
		// the slowest rates and many minutes of samples: no drift, and a random value held for its whole period
		sr := mon.Pick(c.Rand, 44100.0, 96000, 192000)
		l := modulation.NewLFO(sr)
		t := i % 5
		f := mon.Pick(c.Rand, 0.01, mon.LogUniform(c.Rand, 0.01, 0.03))
		if i%10 >= 5 {
			f = mon.LogUniform(c.Rand, 0.03, 20)
		}
		l.SetFrequency(f)
		l.SetWaveform(ws[t])
		n := int(math.Min(sr/f*2.5, 1.2e7))
		if i%10 < 5 {
			n = int(sr / f * 1.3)
		}
		last, run := 9.0, 0
		for k := 0; k < n; k++ {
			y := l.Process()
			if t < 4 {
				if p := frac(float64(k) * f / sr); k%997 == 0 && jumpDist(p, 0, 0.5) > 1e-6 && !(math.Abs(y-wave(wt[t], p, 0)) <= 2e-6) {
					c.Failf("D08/"+names[t], "%s %g Hz at rate %g: sample %d is %g, phase %g calls for %g", names[t], f, sr, k, y, p, wave(wt[t], p, 0))
					return
				}
				continue
			}
			if y != last {
				if last != 9 && !(math.Abs(float64(run)-sr/f) <= 2) {
					c.Failf("D08/random-period", "random LFO at %g Hz and %g samples a second held a value for %d samples, period %g", f, sr, run, sr/f)
					return
				}
				last, run = y, 0
			}
			run++
		}
		if float64(run) > sr/f+2 {
			c.Failf("D08/random-period", "random LFO at %g Hz and %g samples a second has held a value for %d samples, period %g", f, sr, run, sr/f)
		}
		c.Count("samples", n)
		c.Evals(n / 997)
		c.Distinct("slow", t, f, sr)
	})
	r.Par("random", r.N(40, 1000), func(c *mon.C, i int) {
		l := modulation.NewLFO(48000)
		f := mon.Uni(c.Rand, 10, 20)
		l.SetFrequency(f)
		l.SetWaveform(modulation.WaveformRandom)
		vals := map[float64]int{}
		last, runs := 9.0, 0
		n := 48000 * 4
		run := 0
		sum := 0.0
		for k := 0; k < n; k++ {
			y := l.Process()
			if y != last {
				if last != 9 && !(math.Abs(float64(run)-48000/f) <= 2) {
					c.Failf("D08/random-period", "random LFO at %g Hz held a value for %d samples, period %g", f, run, 48000/f)
					return
				}
				runs++
				vals[y]++
				sum += y
				last, run = y, 0
			}
			run++
		}
		if w := 4 * f; !(math.Abs(float64(runs)-w) <= 0.05*w+2) {
			c.Failf("D08/random-rate", "random LFO at %g Hz changed %d times in 4 s", f, runs)
		}
		if len(vals) < runs*9/10 || !(math.Abs(sum/float64(runs)) <= 0.45) {
			c.Failf("D08/random-spread", "random LFO: %d distinct of %d values, mean %g", len(vals), runs, sum/float64(runs))
		}
		c.Distinct("random", f)
		c.Sample("values", fmt.Sprint(runs))
	})
}
