package mon

import (
	"math"
	"math/rand/v2"
)

// HostileF64 are the values that break naive range handling.
var HostileF64 = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 2, -2, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64,
	math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 1 + 1e-16, 1 - 1e-16, math.Nextafter(1, 2), math.Nextafter(1, 0), math.Nextafter(0, -1), 1e-300, 1e300, 1e-38, 0.1, 100, -100}

// AnyF64 mixes hostile, ordinary and random-bit doubles.
func AnyF64(r *rand.Rand) float64 {
	switch r.IntN(5) {
	case 0:
		return HostileF64[r.IntN(len(HostileF64))]
	case 1:
		return math.Float64frombits(r.Uint64())
	case 2:
		return (r.Float64()*2 - 1) * 1000
	default:
		return r.Float64()
	}
}

// Fin reports whether x is neither NaN nor infinite.
func Fin(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

// Fin32 is Fin for float32.
func Fin32(x float32) bool { return Fin(float64(x)) }

// Close compares with absolute and relative tolerance.
func Close(a, b, abs, rel float64) bool {
	if a == b {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	d := math.Abs(a - b)
	return d <= abs || d <= rel*math.Max(math.Abs(a), math.Abs(b))
}

// LogUniform draws from [lo,hi] on a log scale.
func LogUniform(r *rand.Rand, lo, hi float64) float64 {
	return lo * math.Exp(r.Float64()*math.Log(hi/lo))
}

// Uni draws uniformly from [lo,hi].
func Uni(r *rand.Rand, lo, hi float64) float64 { return lo + r.Float64()*(hi-lo) }

// Pick one.
func Pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }
