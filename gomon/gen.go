package main

import (
	"math"
	"math/rand/v2"
	"sort"
)

// Gen is the workload generator (independent of the randomness under test).
type Gen struct{ *rand.Rand }

func newGen(seed uint64) *Gen { return &Gen{rand.New(rand.NewPCG(seed, 0x9e3779b97f4a7c15))} }

func (g *Gen) logu(a, b float64) float64 { return a * math.Pow(b/a, g.Float64()) }
func (g *Gen) unif(a, b float64) float64 { return a + (b-a)*g.Float64() }
func (g *Gen) between(a, b int) int      { return a + g.IntN(b-a+1) }
func (g *Gen) coin(p float64) bool       { return g.Float64() < p }

func pick[T any](g *Gen, xs ...T) T { return xs[g.IntN(len(xs))] }

// ks returns the Kolmogorov-Smirnov statistic sqrt(n)*D of the samples; ties are handled for
// distributions with atoms by comparing both one-sided limits (cdf is P(X<=x), cdfl is P(X<x)).
func ks(xs []float64, cdf, cdfl func(float64) float64) float64 {
	sort.Float64s(xs)
	n := float64(len(xs))
	d := 0.0
	for i := 0; i < len(xs); {
		j := i
		for j < len(xs) && xs[j] == xs[i] {
			j++
		}
		d = math.Max(d, math.Abs(float64(j)/n-cdf(xs[i])))
		d = math.Max(d, math.Abs(float64(i)/n-cdfl(xs[i])))
		i = j
	}
	return d * math.Sqrt(n)
}

// ksLimit is exceeded with probability below 1e-12 under the null hypothesis: 2exp(-2x^2).
const ksLimit = 3.8

func phi(x float64) float64 { return 0.5 * math.Erfc(-x/math.Sqrt2) }

func laplaceCDF(x, b float64) float64 {
	if x < 0 {
		return 0.5 * math.Exp(x/b)
	}
	return 1 - 0.5*math.Exp(-x/b)
}

// logBinomTail bounds the log of the probability that Binomial(n,p) is at least as extreme as k (Chernoff).
func logBinomTail(n, k, p float64) float64 {
	q := k / n
	if q == p {
		return 0
	}
	kl := 0.0
	if q > 0 {
		if p <= 0 {
			return math.Inf(-1)
		}
		kl += q * math.Log(q/p)
	}
	if q < 1 {
		if p >= 1 {
			return math.Inf(-1)
		}
		kl += (1 - q) * math.Log((1-q)/(1-p))
	}
	return -n * kl
}

// consistent: k successes out of n are plausible for probability p (false alarm below 1e-12).
func consistent(n, k int, p float64) bool {
	return logBinomTail(float64(n), float64(k), math.Min(1, math.Max(0, p))) > -28.5
}

// logPhi is the log of the standard normal distribution function.
func logPhi(x float64) float64 {
	if x > -10 {
		return math.Log(phi(x))
	}
	z, t, sum := x*x, 1.0, 1.0
	for k := 1; k < 30; k++ {
		n := t * -float64(2*k-1) / z
		if math.Abs(n) >= math.Abs(t) {
			break
		}
		t = n
		sum += t
	}
	return -z/2 - math.Log(-x) - 0.5*math.Log(2*math.Pi) + math.Log(sum)
}

// sigmaDelta is the exact delta of the Gaussian mechanism (l2 sensitivity s).
func sigmaDelta(sigma, s, eps float64) float64 {
	a, b := s/(2*sigma), eps*sigma/s
	if a-b < -10 {
		l1 := logPhi(a - b)
		return math.Exp(l1) * -math.Expm1(eps+logPhi(-a-b)-l1)
	}
	return phi(a-b) - math.Exp(eps+logPhi(-a-b))
}
