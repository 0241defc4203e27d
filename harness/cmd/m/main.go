// Area m: analysis tools judged against direct computations.
package main

import (
	"fmt"
	"math"
	"math/cmplx"
	"math/rand/v2"

	"github.com/justyntemme/vst3go/pkg/dsp/analysis"
	"verif/harness/mon"
)

func main() {
	mon.Main(map[string]mon.Prop{
		"M01": {F: m01, Rule: "random sizes, windows, signals and call sequences on one transform; every bin compared with the direct Fourier sum, correlations with the direct sum; non-trivial = distinct size, window and signal"},
		"M02": {F: m02, Rule: "random histories of blocks, hops, averaging modes and range changes on one analyzer; every reading compared with frames cut and averaged independently; non-trivial = distinct configuration and reading"},
		"M03": {F: m03, Rule: "random level programs and block cuts through peak and RMS meters compared with direct computation; non-trivial = distinct setting and program"},
		"M04": {F: m04, Rule: "random programmes, channel layouts, rates and block cuts through the loudness meter compared with a BS.1770 computation over the whole recording; non-trivial = distinct layout, rate and programme"},
		"M05": {F: m05, Rule: "random stereo programmes and block cuts through the stereo meters and scopes compared with direct computation; non-trivial = distinct programme and reading"},
		"M06": {F: m06, Race: true, Rule: "one thread feeds a meter while others read it; every value read must be one of the sequential snapshots, in order, with the race detector on; non-trivial = distinct snapshot index seen by a reader"},
	})
}

func windowRef(w analysis.WindowFunc, n, i int) float64 {
	t := 2 * math.Pi * float64(i) / float64(n-1)
	cosSum := func(a ...float64) float64 {
		s, sg := 0.0, 1.0
		for k, v := range a {
			s += sg * v * math.Cos(float64(k)*t)
			sg = -sg
		}
		return s
	}
	switch w {
	case analysis.RectangularWindow:
		return 1
	case analysis.HannWindow:
		return cosSum(0.5, 0.5)
	case analysis.HammingWindow:
		return cosSum(0.54, 0.46)
	case analysis.BlackmanWindow:
		return math.Max(0, cosSum(0.42, 0.5, 0.08))
	case analysis.BlackmanHarrisWindow:
		return cosSum(0.35875, 0.48829, 0.14128, 0.01168)
	case analysis.KaiserWindow:
		x := 2*float64(i)/float64(n-1) - 1
		return i0(8.6*math.Sqrt(math.Max(0, 1-x*x))) / i0(8.6)
	case analysis.FlatTopWindow:
		return math.Max(0, cosSum(0.21557895, 0.41663158, 0.277263158, 0.083578947, 0.006947368))
	}
	return 0
}

// i0 is the modified Bessel function by its power series.
func i0(x float64) float64 {
	s, term := 1.0, 1.0
	for k := 1; k < 200; k++ {
		term *= (x / 2 / float64(k)) * (x / 2 / float64(k))
		s += term
	}
	return s
}

// dft is the Fourier sum of x at bin k out of n, by its definition.
func dft(x []complex128, k int) complex128 {
	n := len(x)
	s := complex(0, 0)
	for i, v := range x {
		if v != 0 {
			s += v * cmplx.Exp(complex(0, -2*math.Pi*float64((i*k)%n)/float64(n)))
		}
	}
	return s
}

func signal(r *rand.Rand, n int) []float64 {
	x := make([]float64, n)
	amp := mon.LogUniform(r, 1e-6, 1e3)
	kind := r.IntN(6)
	w, ph := mon.Uni(r, 0, math.Pi), 6*r.Float64()
	for i := range x {
		switch kind {
		case 0:
			x[i] = amp * (2*r.Float64() - 1)
		case 1:
			x[i] = amp * math.Sin(w*float64(i)+ph)
		case 2:
			x[i] = amp
		case 3:
			if r.IntN(20) == 0 {
				x[i] = amp
			}
		case 4:
			x[i] = amp * math.Cos(math.Pi*float64(i))
		case 5: // silence
		}
	}
	return x
}

// floorDB is a magnitude in decibels, never less than -120.
func floorDB(m float64) float64 {
	if m < 1e-6 {
		return -120
	}
	return 20 * math.Log10(m)
}

func m01(r *mon.Run) {
	r.Par("transform", r.N(400, 6000), func(c *mon.C, i int) {
		n := 2 << c.Rand.IntN(9)
		win := analysis.WindowFunc(c.Rand.IntN(7))
		f := analysis.NewFFT(n, win)
		w := make([]float64, n)
		for k := range w {
			w[k] = windowRef(win, n, k)
		}
		eps := 1e-12 * float64(n)
		if win == analysis.KaiserWindow {
			eps += 1e-6 // rational approximation of the Bessel function
		}
		for call := 0; call < 5; call++ {
			ln := mon.Pick(c.Rand, n, n, c.Rand.IntN(n+1), n+c.Rand.IntN(n))
			x := signal(c.Rand, ln)
			norm := 0.0
			z := make([]complex128, n)
			for k := 0; k < n && k < ln; k++ {
				norm += math.Abs(x[k])
			}
			switch c.Rand.IntN(3) {
			case 0:
				for k := 0; k < n && k < ln; k++ {
					z[k] = complex(x[k]*w[k], 0)
				}
				mag, ph := f.Forward(x)
				if len(mag) != n/2+1 || len(ph) != n/2+1 {
					c.Failf("M01/length", "size %d gives %d magnitudes and %d phases", n, len(mag), len(ph))
					return
				}
				db := f.GetMagnitudeDB()
				for k := 0; k <= n/2; k++ {
					want := dft(z, k)
					if got := cmplx.Rect(mag[k], ph[k]); !(cmplx.Abs(got-want) <= eps*norm) || mag[k] < 0 {
						c.Failf("M01/forward", "size %d, window %d, %d samples: bin %d is %v, want %v", n, win, ln, k, got, want)
						return
					}
					if wd := floorDB(mag[k]); !mon.Close(db[k], wd, 1e-6, 0) {
						c.Failf("M01/decibel", "magnitude %g reads %g dB, want %g", mag[k], db[k], wd)
						return
					}
				}
			case 1:
				y := signal(c.Rand, ln)
				in := make([]complex128, ln)
				for k := range in {
					in[k] = complex(x[k], y[k])
					if k < n {
						z[k] = in[k] * complex(w[k], 0)
						norm += math.Abs(y[k])
					}
				}
				out := f.ForwardComplex(in)
				if len(out) != n {
					c.Failf("M01/length", "complex transform of size %d gives %d bins", n, len(out))
					return
				}
				for k := range out {
					if want := dft(z, k); !(cmplx.Abs(out[k]-want) <= eps*norm) {
						c.Failf("M01/complex", "size %d, window %d, %d samples: bin %d is %v, want %v", n, win, ln, k, out[k], want)
						return
					}
				}
			case 2: // inverse, the spectrum perhaps shorter than the size
				y := signal(c.Rand, ln)
				for k := 0; k < n && k < ln; k++ {
					z[k] = complex(x[k], -y[k])
					norm += math.Abs(y[k])
				}
				out := f.Inverse(x, y)
				if len(out) != n {
					c.Failf("M01/length", "inverse of size %d gives %d samples", n, len(out))
					return
				}
				for k := range out {
					if want := real(dft(z, k)) / float64(n); !(math.Abs(out[k]-want) <= eps*norm/float64(n)) {
						c.Failf("M01/inverse", "size %d, %d bins given: sample %d is %g, want %g", n, ln, k, out[k], want)
						return
					}
				}
			}
			c.Evals(n)
			c.Distinct(n, int(win), ln, call, i)
		}
	})
	r.Par("roundtrip", r.N(60, 2000), func(c *mon.C, i int) {
		n := 2 << c.Rand.IntN(15)
		f := analysis.NewFFT(n, analysis.RectangularWindow)
		x := signal(c.Rand, n)
		in := make([]complex128, n)
		peak, sq := 0.0, 0.0
		for k, v := range x {
			in[k] = complex(v, 0)
			peak = math.Max(peak, math.Abs(v))
			sq += v * v
		}
		z := f.ForwardComplex(in)
		re, im, fs := make([]float64, n), make([]float64, n), 0.0
		for k, v := range z {
			re[k], im[k] = real(v), imag(v)
			fs += real(v)*real(v) + imag(v)*imag(v)
		}
		if !mon.Close(fs/float64(n), sq, 0, 1e-9) {
			c.Failf("M01/energy", "size %d: spectrum holds energy %g of %g", n, fs/float64(n), sq)
		}
		for k, v := range f.Inverse(re, im) {
			if !mon.Close(v, x[k], 1e-10*peak*math.Sqrt(float64(n)), 0) {
				c.Failf("M01/roundtrip", "size %d: sample %d comes back as %g, was %g", n, k, v, x[k])
				return
			}
		}
		k, sr := c.Rand.IntN(n/2+1), mon.Pick(c.Rand, 44100.0, 48000, 96000)
		if g := f.GetFrequencyBin(k, sr); !mon.Close(g, float64(k)*sr/float64(n), 1e-9, 1e-12) {
			c.Failf("M01/bin", "bin %d of %d at %g Hz lies at %g", k, n, sr, g)
		}
		c.Distinct(n, i)
	})
	r.Par("correlation", r.N(400, 6000), func(c *mon.C, i int) {
		n := 1 + c.Rand.IntN(300)
		a, b := signal(c.Rand, n), signal(c.Rand, n)
		shift := -1
		if c.Rand.IntN(3) == 0 && n > 4 { // b is a, delayed
			shift = c.Rand.IntN(n / 2)
			for k := range b {
				b[k] = 0
				a[k] = c.Rand.Float64() - 0.5
			}
			for k := shift; k < n; k++ {
				b[k] = a[k-shift]
			}
		}
		na, nb := 0.0, 0.0
		for k := range a {
			na, nb = na+a[k]*a[k], nb+b[k]*b[k]
		}
		a0, b0 := append([]float64(nil), a...), append([]float64(nil), b...)
		got := analysis.CrossCorrelation(a, b)
		if len(got) != 2*n-1 {
			c.Failf("M01/correlation-length", "%d samples give %d lags", n, len(got))
			return
		}
		for lag := -(n - 1); lag < n; lag++ {
			want := 0.0
			for k := 0; k < n; k++ {
				if k+lag >= 0 && k+lag < n {
					want += a0[k] * b0[k+lag]
				}
			}
			if !mon.Close(got[n-1+lag], want, 1e-9*math.Sqrt(na*nb)+1e-300, 0) {
				c.Failf("M01/correlation", "%d samples (delay %d): lag %d gives %g, want %g", n, shift, lag, got[n-1+lag], want)
				return
			}
		}
		h := analysis.ApplyHannWindow(a)
		for k := range h {
			if n > 1 && !mon.Close(h[k], a0[k]*windowRef(analysis.HannWindow, n, k), 1e-12*math.Abs(a0[k]), 0) || a[k] != a0[k] || b[k] != b0[k] {
				c.Failf("M01/hann", "%d samples: windowed sample %d is %g", n, k, h[k])
				return
			}
		}
		for k, v := range analysis.PowerSpectrum(a) {
			if v != a[k]*a[k] {
				c.Failf("M01/power", "power of %g is %g", a[k], v)
				return
			}
		}
		c.Distinct(n, shift, i)
	})
}

// specRef is the analyzer written the long way: it keeps the whole recording.
type specRef struct {
	n, hop            int
	sr                float64
	win               analysis.WindowFunc
	w                 []float64
	tape              []float64 // samples since the start (or Reset)
	next              int       // tape position at which the next frame is complete
	mode              analysis.AveragingMode
	depth             int
	smooth            float64
	hist              [][]float64
	out               []float64
	lo, hi            float64
	frames, lastReady int
}

func (s *specRef) feed(x []float64) (ready bool) {
	for _, v := range x {
		s.tape = append(s.tape, v)
		if len(s.tape) == s.next {
			z := make([]complex128, s.n)
			for k, v := range s.tape[s.next-s.n:] {
				z[k] = complex(v*s.w[k], 0)
			}
			m := make([]float64, s.n/2+1)
			for k := range m {
				m[k] = cmplx.Abs(dft(z, k))
			}
			s.next += s.hop
			s.frame(m)
			s.frames++
			ready = true
		}
	}
	return
}

func (s *specRef) frame(m []float64) {
	switch s.mode {
	case analysis.NoAveraging:
		s.out = m
	case analysis.ExponentialAveraging:
		o := make([]float64, len(m))
		for k := range m {
			o[k] = s.smooth*s.out[k] + (1-s.smooth)*m[k]
		}
		s.out = o
	case analysis.PeakHold:
		o := make([]float64, len(m))
		for k := range m {
			o[k] = math.Max(s.out[k], m[k])
		}
		s.out = o
	case analysis.LinearAveraging:
		if s.hist = append(s.hist, m); len(s.hist) > s.depth {
			s.hist = s.hist[1:]
		}
		o := make([]float64, len(m))
		for k := range m {
			for _, h := range s.hist {
				o[k] += h[k] / float64(len(s.hist))
			}
		}
		s.out = o
	}
}

func m02(r *mon.Run) {
	r.Par("analyzer", r.N(400, 4000), func(c *mon.C, i int) {
		n := 4 << c.Rand.IntN(6)
		if i%50 == 7 {
			n = 512 << c.Rand.IntN(3)
		}
		sr := mon.Pick(c.Rand, 8000.0, 44100, 48000, 96000, 192000)
		win := analysis.WindowFunc(c.Rand.IntN(7))
		sa := analysis.NewSpectrumAnalyzer(n, sr, win)
		s := &specRef{n: n, hop: n / 2, sr: sr, win: win, smooth: 0.9, next: n, out: make([]float64, n/2+1), lo: 20, hi: sr / 2}
		s.w = make([]float64, n)
		for k := range s.w {
			s.w[k] = windowRef(win, n, k)
		}
		peak := 0.0
		for step := 0; step < 60-40*(n/512/max(n/512, 1)); step++ {
			switch c.Rand.IntN(9) {
			case 0:
				h := mon.Pick(c.Rand, 1+c.Rand.IntN(n), n, n/2, n/4, 0, -1, n+1)
				if n > 128 && h > 0 {
					h = max(h, n/2)
				}
				sa.SetHopSize(h)
				if h > 0 && h <= n {
					s.hop = h
				}
			case 1:
				s.mode = analysis.AveragingMode(c.Rand.IntN(4))
				s.depth = 1 + c.Rand.IntN(8)
				sa.SetAveraging(s.mode, s.depth)
				if s.mode != analysis.NoAveraging {
					s.hist = nil
				}
			case 2:
				v := mon.Pick(c.Rand, 0, 1, c.Rand.Float64(), -0.1, 1.1)
				sa.SetSmoothing(v)
				if v >= 0 && v <= 1 {
					s.smooth = v
				}
			case 3:
				lo, hi := mon.Uni(c.Rand, -100, sr/2), mon.Uni(c.Rand, 0, sr)
				if c.Rand.IntN(4) == 0 {
					lo, hi = 0, sr/2
				}
				sa.SetFrequencyRange(lo, hi)
				s.lo, s.hi = math.Max(0, lo), math.Min(sr/2, hi)
			case 4:
				if c.Rand.IntN(3) == 0 {
					sa.Reset()
					s.tape, s.hist, s.next = nil, nil, n
					s.out = make([]float64, n/2+1)
					peak = 0
				}
			default:
				x := signal(c.Rand, c.Rand.IntN(2*n+1))
				for _, v := range x {
					peak = math.Max(peak, math.Abs(v))
				}
				got, want := sa.Process(x), s.feed(x)
				if got != want {
					c.Failf("M02/ready", "size %d, hop %d: %d samples up to %d report a new spectrum: %v, want %v", n, s.hop, len(x), len(s.tape), got, want)
					return
				}
			}
			eps := (1e-11*float64(n) + 2e-6*b2f(win == analysis.KaiserWindow)) * float64(n) * peak
			sp := sa.GetSpectrum()
			if len(sp) != n/2+1 {
				c.Failf("M02/length", "size %d gives %d bins", n, len(sp))
				return
			}
			for k := range sp {
				if !mon.Close(sp[k], s.out[k], eps, 0) {
					c.Failf("M02/spectrum", "size %d, window %d, hop %d, averaging %d (depth %d, smoothing %g), frame %d: bin %d is %g, want %g", n, win, s.hop, s.mode, s.depth, s.smooth, s.frames, k, sp[k], s.out[k])
					return
				}
			}
			for k, d := range sa.GetSpectrumDB() {
				if !mon.Close(d, floorDB(sp[k]), 1e-6, 0) {
					c.Failf("M02/decibel", "magnitude %g reads %g dB", sp[k], d)
					return
				}
			}
			// the range: every bin whose frequency lies inside it, plus at most one on either side
			rg, rd := sa.GetSpectrumInRange(), sa.GetSpectrumDBInRange()
			bw := sr / float64(n)
			var first, last = -1, -2
			for k := range sp {
				if f := float64(k) * bw; f >= s.lo && f <= s.hi {
					if first < 0 {
						first = k
					}
					last = k
				}
			}
			off := int(s.lo / bw)
			if first >= 0 {
				if off > first || off+len(rg) <= last || len(rg) > last-first+3 || off+len(rg) > len(sp) {
					c.Failf("M02/range", "size %d at %g Hz: range %g..%g holds bins %d..%d, got %d bins from %d", n, sr, s.lo, s.hi, first, last, len(rg), off)
					return
				}
				pf, pm := sa.GetPeakFrequency()
				best := 0.0
				for k, v := range rg {
					if v != sp[off+k] || !mon.Close(rd[k], floorDB(v), 1e-6, 0) {
						c.Failf("M02/range-values", "bin %d of the range is %g, %g dB; the spectrum has %g", k, v, rd[k], sp[off+k])
						return
					}
					best = math.Max(best, v)
				}
				if pm != best || best > 0 && sp[sa.GetBinForFrequency(pf+bw/4)] != best {
					c.Failf("M02/peak", "size %d: peak %g at %g Hz, loudest in range %g", n, pm, pf, best)
					return
				}
			} else if len(rg) > 1 || len(rd) != len(rg) {
				c.Failf("M02/empty-range", "size %d at %g Hz: range %g..%g holds no bin, got %d", n, sr, s.lo, s.hi, len(rg))
				return
			}
			// bands
			a, b := mon.Uni(c.Rand, 0, sr/2), mon.Uni(c.Rand, 0, sr/2)
			if a > b {
				a, b = b, a
			}
			e := 0.0
			for k := int(a / bw); k <= int(b/bw) && k < len(sp); k++ {
				e += sp[k] * sp[k]
			}
			if g := sa.GetBandEnergy(a, b); !mon.Close(g, e, 1e-300, 1e-9) {
				c.Failf("M02/band", "size %d: band %g..%g holds energy %g, want %g", n, a, b, g, e)
				return
			}
			k := c.Rand.IntN(n/2 + 1)
			if g := sa.GetBinForFrequency(sa.GetFrequencyForBin(k)); g != k {
				c.Failf("M02/bins", "bin %d of %d at %g Hz maps back to bin %d", k, n, sr, g)
				return
			}
			cf := analysis.StandardOctaveBands()
			for j, g := range sa.GetOctaveBands(cf) {
				e, cnt := 0.0, 0
				for k := int(cf[j] / math.Sqrt2 / bw); k <= int(cf[j]*math.Sqrt2/bw) && k < len(sp); k++ {
					e, cnt = e+sp[k]*sp[k], cnt+1
				}
				if cnt > 0 {
					e = math.Sqrt(e / float64(cnt))
				}
				if !mon.Close(g, e, 1e-300, 1e-9) {
					c.Failf("M02/octave", "size %d at %g Hz: octave at %g holds %g, want %g", n, sr, cf[j], g, e)
					return
				}
			}
			c.Evals(1)
			c.Distinct(n, int(s.mode), s.hop, int(win), len(s.tape))
		}
		c.Count("frames", s.frames)
	})
	// deep averages
	r.Par("deep", r.N(10, 60), func(c *mon.C, i int) {
		n, sr := mon.Pick(c.Rand, 8, 16, 32), 48000.0
		depth, hop := mon.Pick(c.Rand, 65, 150, 400, 1100), mon.Pick(c.Rand, n, n/2, n/4)
		win := analysis.WindowFunc(c.Rand.IntN(7))
		sa := analysis.NewSpectrumAnalyzer(n, sr, win)
		s := &specRef{n: n, hop: hop, sr: sr, win: win, smooth: 0.9, next: n, out: make([]float64, n/2+1), lo: 20, hi: sr / 2, mode: analysis.LinearAveraging, depth: depth}
		s.w = make([]float64, n)
		for k := range s.w {
			s.w[k] = windowRef(win, n, k)
		}
		sa.SetHopSize(hop)
		sa.SetAveraging(s.mode, depth)
		for step := 0; step < 12; step++ {
			x := signal(c.Rand, 1+c.Rand.IntN(depth*hop/2))
			sa.Process(x)
			s.feed(x)
			sp := sa.GetSpectrum()
			for k := range sp {
				if !mon.Close(sp[k], s.out[k], (1e-9*float64(n)+2e-6*b2f(win == analysis.KaiserWindow))*float64(n), 0) {
					c.Failf("M02/spectrum", "size %d, window %d, hop %d, average of the last %d, frame %d: bin %d is %g, want %g", n, win, hop, depth, s.frames, k, sp[k], s.out[k])
					return
				}
			}
			c.Evals(1)
			c.Distinct("deep", depth, hop, s.frames)
		}
	})
	// large sizes: the newest frame alone, by another analyser, and some bins by the sum itself
	r.Par("large", r.N(8, 40), func(c *mon.C, i int) {
		n, sr := []int{8192, 16384, 32768, 65536}[i%4], 48000.0
		win := mon.Pick(c.Rand, analysis.HannWindow, analysis.HammingWindow, analysis.BlackmanWindow)
		hop := mon.Pick(c.Rand, n, n/2, n/4, n/2+77)
		sa := analysis.NewSpectrumAnalyzer(n, sr, win)
		sa.SetHopSize(hop)
		var tape []float64
		next := n
		wr := make([]float64, n)
		for k := range wr {
			wr[k] = windowRef(win, n, k)
		}
		for step := 0; step < 6; step++ {
			x := signal(c.Rand, 1+c.Rand.IntN(n))
			sa.Process(x)
			tape = append(tape, x...)
			end := 0
			for next <= len(tape) {
				end, next = next, next+hop
			}
			if end == 0 {
				continue
			}
			one := analysis.NewSpectrumAnalyzer(n, sr, win)
			one.Process(tape[end-n : end])
			a, b := sa.GetSpectrum(), one.GetSpectrum()
			w := make([]complex128, n)
			peak := 0.0
			for k, v := range tape[end-n : end] {
				w[k] = complex(v*wr[k], 0)
				peak = math.Max(peak, math.Abs(v))
			}
			for k := range a {
				if !mon.Close(a[k], b[k], 1e-10*float64(n)*peak, 0) {
					c.Failf("M02/spectrum", "size %d, hop %d, frame ending at %d: bin %d is %g, that frame alone gives %g", n, hop, end, k, a[k], b[k])
					return
				}
			}
			for j := 0; j < 4; j++ {
				k := c.Rand.IntN(n/2 - 1)
				if want := cmplx.Abs(dft(w, k)); !mon.Close(a[k], want, 1e-8*float64(n)*peak, 1e-6) {
					c.Failf("M02/spectrum", "size %d: bin %d is %g, the sum gives %g", n, k, a[k], want)
					return
				}
			}
			c.Evals(len(a))
			c.Distinct("large", n, hop, end)
		}
	})
	r.Case("bands", func(c *mon.C) {
		t := analysis.StandardThirdOctaveBands()
		for i, f := range t {
			if f < 20 || f > 20000 || i > 0 && !mon.Close(f/t[i-1], math.Cbrt(2), 0, 1e-9) {
				c.Failf("M02/third-octave", "third-octave bands %v", t)
			}
		}
		c.Evals(len(t))
		c.Distinct("thirds", len(t))
	})
}

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

var _ = fmt.Sprint
