package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"regexp"
	"slices"
	"strings"

	"github.com/justyntemme/vst3go/pkg/framework/debug"
	"verif/harness/mon"
)

func randBuf(q *rand.Rand, nan bool) ([]float32, string) {
	n := mon.Pick(q, 0, 1, 2, 3, 79, 80, 81, 150, 159, 160, 512, 1+q.IntN(1000), 1+q.IntN(1000))
	if q.IntN(40) == 0 {
		n = mon.Pick(q, 5000, 20000, 100000)
	}
	b := make([]float32, n)
	lvl := mon.LogUniform(q, 1e-6, 4)
	dc := 0.0
	kind := q.IntN(9)
	switch kind {
	case 0:
		lvl = 0
	case 1:
		dc = mon.Uni(q, -0.5, 0.5)
	case 2:
		lvl = mon.LogUniform(q, 1e-30, 1e-6)
	case 3:
		lvl = mon.LogUniform(q, 1e2, 1e37)
	}
	for i := range b {
		b[i] = float32(lvl*(2*q.Float64()-1) + dc)
		if kind == 4 {
			b[i] = float32(lvl * math.Sin(float64(i)*0.1))
		}
		if kind == 5 && q.IntN(3) == 0 {
			b[i] = mon.Pick(q, float32(1), -1, 0.99, -0.99, 0.9899999, 1.0000001, 0, float32(math.Copysign(0, -1)), math.SmallestNonzeroFloat32)
		}
	}
	if nan && n > 0 {
		for k := 1 + q.IntN(3); k > 0; k-- {
			b[q.IntN(n)] = float32(math.NaN())
		}
	}
	return b, fmt.Sprint(kind)
}

var dumpRe = regexp.MustCompile(`^ *(\d+) \| (\S+) \| 0x([0-9A-F]{8}) \| (.*)$`)

var avgRe = regexp.MustCompile(`Max difference: (\S+) at sample \d+\n\s*Average difference: (\S+)\n`)

// mirror turns a drawing upside down.
func mirror(s string) string {
	l := strings.Split(s, "\n")
	for k := 1; k < len(l); k++ {
		ru := []rune(l[k])
		slices.Reverse(ru)
		l[k] = string(ru)
	}
	return strings.Join(l, "\n")
}

func f06(r *mon.Run) {
	r.Par("analyze", r.N(1500, 20000), func(c *mon.C, _ int) {
		q := c.Rand
		nan := q.IntN(4) == 0
		b, kind := randBuf(q, nan)
		keep := append([]float32(nil), b...)
		an := debug.NewAudioAnalyzer()
		g := an.Analyze(b)
		if q.IntN(2) == 0 {
			g = debug.AnalyzeBuffer(b)
		}
		c.Evals(1)
		c.Distinct(kind, len(b), nan, g.Peak)
		for i := range b {
			if math.Float32bits(b[i]) != math.Float32bits(keep[i]) {
				c.Failf("modified", "analysis changed the buffer")
				return
			}
		}
		inf := q.IntN(12) == 0 && len(b) > 0
		if inf {
			b[q.IntN(len(b))] = float32(math.Inf(1 - 2*q.IntN(2)))
			g = an.Analyze(b)
		}
		var peak, sum, sq, mag float64
		clip, nn, zc := 0, 0, 0
		prev := float32(0)
		for i, x := range b {
			if x != x {
				nn++
				continue
			}
			a := math.Abs(float64(x))
			peak = math.Max(peak, a)
			sum += float64(x)
			mag += a
			sq += float64(x) * float64(x)
			if a >= float64(float32(0.99)) {
				clip++
			}
			if i > 0 && (prev < 0) != (x < 0) {
				zc++
			}
			prev = x
		}
		n := float64(len(b))
		if len(b) == 0 {
			if g != (debug.AnalysisResult{}) {
				c.Failf("empty", "an empty buffer analyzes as %+v", g)
			}
			return
		}
		fail := func(sig string, got, want any) {
			c.Failf(sig, "buffer of %d (kind %s, %d NaN): %s %v want %v", len(b), kind, nn, sig, got, want)
		}
		if float64(g.Peak) != peak {
			fail("peak", g.Peak, peak)
		}
		if g.HasNaN != (nn > 0) || g.NaNCount != nn {
			fail("nan-count", g.NaNCount, nn)
		}
		if g.ClippedSamples != clip || g.Clipping != (clip > 0) {
			fail("clipping", g.ClippedSamples, clip)
		}
		if inf {
			if t := strings.Join(debug.CheckBuffer(b, "nm"), "\n"); !strings.Contains(t, "Clipping") || !strings.Contains(t, "Peak exceeds") || strings.Contains(t, "NaN values") != (nn > 0) {
				c.Failf("check", "CheckBuffer of a buffer with an infinite sample: %q", t)
			}
			return
		}
		// NaN samples are reported and left out; dividing by the buffer length or by the
		// samples left are both readings of "the buffer's RMS and DC"
		rel := 1e-6
		okAny := func(got, s, tol float64) bool {
			for _, d := range []float64{n, math.Max(1, n-float64(nn))} {
				if mon.Close(got, s/d, tol/d, rel) {
					return true
				}
			}
			return false
		}
		if !okAny(float64(g.RMS)*float64(g.RMS), sq, 1e-88) && !okAny(float64(g.RMS), math.Sqrt(sq*n), 1e-30) && !(nn > 0 && okAny(float64(g.RMS), math.Sqrt(sq*(n-float64(nn))), 1e-30)) {
			fail("rms", g.RMS, math.Sqrt(sq/n))
		}
		if !okAny(float64(g.DC), sum, 1e-9*mag+1e-42*n) {
			fail("dc", g.DC, sum/n)
		}
		if nn == 0 {
			if g.ZeroCrossings != zc {
				fail("zero-crossings", g.ZeroCrossings, zc)
			}
			rms := math.Sqrt(sq / n)
			if math.Abs(rms-1e-4) > 1e-9 && g.Silent != (rms < 1e-4) {
				fail("silent", g.Silent, rms < 1e-4)
			}
		}
		// CheckBuffer names exactly the problems the buffer has
		iss := debug.CheckBuffer(b, "nm")
		text := strings.Join(iss, "\n")
		want := map[string]bool{"NaN": nn > 0, "Clipping": clip > 0, "Peak exceeds": peak > 1}
		if dc := math.Abs(sum / n); nn == 0 && !(math.Abs(dc-0.01) <= 1e-6) {
			want["DC offset"] = dc > 0.01
		}
		for k, w := range want {
			if strings.Contains(text, k) != w {
				c.Failf("check", "CheckBuffer of %d samples (peak %v, %d NaN, %d clipped, dc %v): %q, %q expected: %v", len(b), peak, nn, clip, sum/n, text, k, w)
			}
		}
		for _, s := range iss {
			if !strings.HasPrefix(s, "nm: ") {
				c.Failf("check", "issue %q does not name the buffer", s)
			}
		}
	})
	r.Par("compare", r.N(1000, 10000), func(c *mon.C, _ int) {
		q := c.Rand
		a, kind := randBuf(q, q.IntN(5) == 0)
		b := append([]float32(nil), a...)
		tol := float32(mon.LogUniform(q, 1e-7, 0.1))
		if q.IntN(5) == 0 { // differences that are exactly the tolerance
			tol = float32(math.Ldexp(1, -q.IntN(12)))
			for i := range a {
				a[i] = float32(q.IntN(17)-8) * tol
				b[i] = a[i] + float32(q.IntN(5)-2)*tol
			}
		}
		if q.IntN(6) == 0 && len(b) > 0 {
			b[len(b)-1] += tol * 100
		}
		for k := q.IntN(3); k > 0 && len(b) > 0 && q.IntN(3) == 0; k-- {
			i := q.IntN(len(b))
			a[i] = float32(math.Inf(1 - 2*q.IntN(2)))
			b[i] = a[i]
		}
		for k := q.IntN(4); k > 0 && len(b) > 0; k-- {
			i := q.IntN(len(b))
			b[i] = mon.Pick(q, b[i]+tol*10, b[i]-tol*10, b[i]+tol/10, float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), 0)
		}
		if q.IntN(20) == 0 {
			b = append(b, 0)
		}
		got := debug.CompareBuffers(a, b, tol)
		c.Evals(1)
		c.Distinct(kind, len(a), got)
		if len(a) != len(b) {
			if !strings.Contains(got, "mismatch") {
				c.Failf("compare-length", "lengths %d and %d compared as %q", len(a), len(b), got)
			}
			return
		}
		diff, nanBoth := 0, 0
		worst, wi, total := -1.0, -1, 0.0
		for i := range a {
			an, bn := a[i] != a[i], b[i] != b[i]
			switch {
			case an && bn:
				nanBoth++
			case an || bn:
				diff++
				worst, wi = math.Inf(1), i
			case a[i] == b[i]:
			default:
				if d := a[i] - b[i]; d > tol || -d > tol {
					diff++
					total += math.Abs(float64(d))
					if x := math.Abs(float64(d)); x > worst {
						worst, wi = x, i
					}
				}
			}
		}
		if diff == 0 && nanBoth > 0 {
			return // two NaN at one place: equal or different, the tool may say either
		}
		if id := strings.Contains(got, "identical within tolerance"); id != (diff == 0) {
			c.Failf("compare", "%d of %d samples differ by more than %v (worst %v at %d), reported %q", diff, len(a), tol, worst, wi, got)
			return
		}
		if diff > 0 && nanBoth == 0 {
			if !strings.Contains(got, fmt.Sprintf("different: %d / %d ", diff, len(a))) {
				c.Failf("compare-count", "%d of %d samples differ: %q", diff, len(a), got)
			}
			if mon.Fin(worst) && !strings.Contains(got, fmt.Sprintf("at sample %d\n", wi)) {
				c.Failf("compare-max", "the largest difference %v is at %d: %q", worst, wi, got)
			}
			if m := avgRe.FindStringSubmatch(got); mon.Fin(worst) {
				var big, avg float64
				if m != nil {
					fmt.Sscan(m[1], &big)
					fmt.Sscan(m[2], &avg)
				}
				if m == nil || !mon.Close(big, worst, 1e-6, 1e-6) || !mon.Close(avg, total/float64(diff), 1e-6, 1e-6) {
					c.Failf("compare-figures", "largest difference %v, average of the differing samples %v: %q", worst, total/float64(diff), got)
				}
			}
		}
	})
	r.Par("dump", r.N(600, 6000), func(c *mon.C, _ int) {
		q := c.Rand
		b, kind := randBuf(q, q.IntN(5) == 0)
		if len(b) > 0 && q.IntN(4) == 0 {
			b[q.IntN(len(b))] = float32(math.Inf(1 - 2*q.IntN(2)))
		}
		lim := mon.Pick(q, 0, -1, 1, 5, len(b), len(b)+1, 1<<40)
		var d string
		if !c.NoPanic("dump-panic", func() { d = debug.DumpBuffer(b, lim) }) {
			return
		}
		c.Evals(1)
		c.Distinct("dump", kind, len(b), lim)
		n := lim
		if lim <= 0 || lim > len(b) {
			n = len(b)
		}
		i := 0
		for _, l := range strings.Split(d, "\n") {
			m := dumpRe.FindStringSubmatch(l)
			if m == nil {
				continue
			}
			var ix int
			var bits uint32
			fmt.Sscan(m[1], &ix)
			fmt.Sscanf(m[3], "%X", &bits)
			if i >= n || ix != i || bits != math.Float32bits(b[i]) || m[2] != fmt.Sprintf("%+.6f", b[i]) {
				c.Failf("dump", "dump line %d reads %q for sample %v (%08X)", i, l, b[i%max(1, len(b))], math.Float32bits(b[i%max(1, len(b))]))
				return
			}
			if x := b[i]; x == x {
				if strings.Count(m[4], "|") != 1 {
					c.Failf("dump-bar", "the bar of sample %v shows no position: %q", x, l)
					return
				}
				want := (math.Max(-1, math.Min(1, float64(x))) + 1) * 10
				if p := float64(strings.IndexByte(m[4], '|')); !(math.Abs(p-want) <= 1.01) {
					c.Failf("dump-bar", "the bar of sample %v is at %v of 20", x, p)
				}
			}
			i++
		}
		if i != n {
			c.Failf("dump-lines", "dump of %d samples, limit %d, shows %d", len(b), lim, i)
		}
		if more := strings.Contains(d, "more samples"); more != (n < len(b)) || more && !strings.Contains(d, fmt.Sprintf("%d more samples", len(b)-n)) {
			c.Failf("dump-lines", "dump of %d samples, %d shown: %q", len(b), n, d[max(0, len(d)-60):])
		}
	})
	r.Par("print", r.N(400, 4000), func(c *mon.C, _ int) {
		q := c.Rand
		n := 1 + q.IntN(600)
		w := mon.Pick(q, 80, 0, -5, 1, 7, 40, 200, 1+q.IntN(300))
		ew := w
		if w <= 0 {
			ew = 80
		}
		// one pulse of full height: wherever it is, some column must show it on its side
		width := (n + ew - 1) / ew * 2
		b := make([]float32, n)
		at := max(0, mon.Pick(q, 0, n-width, n-width, q.IntN(max(1, n-width+1))))
		sg := float32(1 - 2*q.IntN(2))
		lvl := sg * float32(mon.LogUniform(q, 1e-3, 10))
		for i := at; i < min(n, at+width); i++ {
			b[i] = lvl
		}
		var s string
		if !c.NoPanic("print-panic", func() { s = debug.PrintBuffer(b, w) }) {
			return
		}
		c.Evals(1)
		c.Distinct("print", n, w, at)
		lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
		if len(lines)-1 > ew || len(lines) < 2 {
			c.Failf("print-width", "%d samples at width %d printed %d columns", n, w, len(lines)-1)
			return
		}
		lit, where := false, -1
		for k, l := range lines[1:] {
			mid := strings.IndexByte(l, '-')
			for p, ru := range l {
				if ru == '█' {
					if (p < mid) != (sg > 0) {
						c.Failf("print-side", "a pulse of %v is drawn on the wrong side", lvl)
						return
					}
					if !lit {
						where = k
					}
					lit = true
				}
			}
		}
		if !lit {
			c.Failf("print-lost", "a pulse at samples %d..%d of %d does not show in %d columns", at, at+width-1, n, len(lines)-1)
			return
		}
		if x := float64(at) / float64(n) * float64(len(lines)-1); !(math.Abs(float64(where)-x) <= 2.5+0.02*float64(ew)) {
			c.Failf("print-place", "a pulse at sample %d of %d first shows in column %d of %d", at, n, where, len(lines)-1)
		}
		// the negated buffer is drawn upside down, no higher and no lower
		v, _ := randBuf(q, false)
		neg := make([]float32, len(v))
		for i := range v {
			neg[i] = -v[i]
		}
		if s1, s2 := debug.PrintBuffer(v, w), debug.PrintBuffer(neg, w); mirror(s1) != s2 {
			c.Failf("print-mirror", "a buffer of %d samples and its negative are drawn with different heights", len(v))
		}
		h, kind := randBuf(q, true)
		for i := range h {
			if q.IntN(20) == 0 {
				h[i] = float32(math.Inf(1))
			}
		}
		c.NoPanic("print-panic", func() { debug.PrintBuffer(h, w) })
		_ = kind
	})
	r.Case("logged", func(c *mon.C) {
		q := c.Rand
		for k := 0; k < r.N(100, 800); k++ {
			b, kind := randBuf(q, q.IntN(3) == 0)
			s := &sink{}
			name := mon.Pick(q, "nm", "out 2", "50% wet %d")
			debug.SetOutput(s)
			debug.SetLevel(debug.LogLevelDebug)
			debug.SetFlags(debug.FlagLevel)
			g := debug.AnalyzeBuffer(b)
			debug.LogBufferStats(b, name)
			t := strings.Join(s.take(), "")
			c.Evals(1)
			c.Distinct("log", kind, len(b))
			for _, x := range []struct {
				s string
				w bool
			}{{"'"+name+"'", true}, {fmt.Sprintf("Samples: %d\n", len(b)), true}, {fmt.Sprintf("Peak: %.3f\n", g.Peak), true}, {fmt.Sprintf("RMS: %.3f\n", g.RMS), true}, {fmt.Sprintf("DC: %.6f\n", g.DC), true},
				{"[WARN]   Clipping: ", g.Clipping}, {"Silent", g.Silent}, {"[ERROR]   NaN values: ", g.HasNaN}} {
				if strings.Contains(t, x.s) != x.w {
					c.Failf("log-stats", "buffer %+v logged as %q (%q expected: %v)", g, t, x.s, x.w)
					return
				}
			}
			debug.CheckAudioBuffer(b, name)
			t = strings.Join(s.take(), "")
			w := ""
			for _, i := range debug.CheckBuffer(b, name) {
				w += "[WARN] " + i + "\n"
			}
			if t != w {
				c.Failf("log-check", "CheckAudioBuffer logged %q, the issues are %q", t, w)
			}
		}
	})
}
