package main

import (
	"math"

	"a.test/aaa"

	"github.com/google/differential-privacy/go/v3/dpagg"
	"github.com/google/differential-privacy/go/v3/rand"
)

type selSpec struct {
	eps, delta float64
	l0, pre    int64
}

func (s selSpec) d() D { return D{"epsilon": s.eps, "delta": s.delta, "l0": s.l0, "pre_threshold": s.pre} }

func (s selSpec) build() (*dpagg.PreAggSelectPartition, error) {
	return dpagg.NewPreAggSelectPartition(&dpagg.PreAggSelectPartitionOptions{Epsilon: s.eps, Delta: s.delta, MaxPartitionsContributed: s.l0, PreThreshold: s.pre})
}

func genSel(g *Gen) selSpec {
	s := selSpec{eps: g.logu(1e-3, 10), delta: g.logu(1e-12, .5), l0: int64(g.between(1, 3))}
	if g.coin(.3) {
		s.eps = g.logu(1e-12, 1e-3)
	}
	if g.coin(.1) {
		s.eps = g.logu(1e-17, 1e-12)
	}
	if g.coin(.1) {
		s.eps = g.logu(10, 700)
	}
	if g.coin(.4) {
		s.pre = int64(g.between(0, 30))
	}
	return s
}

// keepRecursion is the documented recursion for the probabilities of keeping a partition of
// 0, 1, 2... privacy units (until it is one, or up to max units).
func keepRecursion(eps, delta float64, max int) []float64 {
	p := []float64{0}
	for i := 1; i <= max; i++ {
		q := p[i-1]
		// 1-exp(-eps)*(1-q-delta), written without cancellation
		v := math.Min(math.Exp(eps)*q+delta, math.Exp(-eps)*(q+delta)-math.Expm1(-eps))
		if v >= 1 {
			return append(p, 1)
		}
		p = append(p, v)
	}
	return p
}

func (s selSpec) keepProb(rec []float64, n int) float64 {
	m := n
	if s.pre > 1 {
		if n < int(s.pre) {
			return 0
		}
		m = n - int(s.pre) + 1
	}
	if m <= 0 {
		return 0
	}
	if m >= len(rec) {
		return rec[len(rec)-1]
	}
	return rec[m]
}

// setUniform makes every following rand.Uniform() return u (or nearly u), which is returned.
func setUniform(u float64) float64 {
	fr, ex := math.Frexp(u) // u = fr*2^ex, fr in [.5,1): u = (2fr) / 2^(1-ex)
	geo := 1 - ex
	if geo < 1 {
		geo = 1
	}
	i := uint64((2*fr - 1) * (1 << 53))
	b := make([]byte, 0, 16)
	for k := 0; k < 8; k++ {
		b = append(b, byte(i>>(8*k)))
	}
	z := geo - 1
	for ; z >= 8; z -= 8 {
		b = append(b, 0)
	}
	b = append(b, byte(0x80>>z))
	aaa.SetPattern(b)
	// Use up what is buffered: the pattern starts with the first byte of the next block.
	n0 := aaa.Handed()
	for aaa.Handed() == n0 {
		rand.U8()
	}
	for k := 1; k < len(b); k++ {
		rand.U8()
	}
	v := rand.Uniform()
	if w := rand.Uniform(); w != v {
		return math.NaN()
	}
	return v
}

func sampleCount(g *Gen, s selSpec, rec []float64) int {
	base := 0
	if s.pre > 1 {
		base = int(s.pre) - 1
	}
	switch g.IntN(6) {
	case 0:
		return base + 1
	case 1:
		return base + g.between(1, 4)
	case 2:
		return base - g.between(0, 5)
	case 3:
		return base + len(rec) - 1 - g.IntN(min(len(rec), 4))
	}
	return base + g.between(1, len(rec)+2)
}

func contribute(g *Gen, s selSpec, p *dpagg.PreAggSelectPartition, n int) *dpagg.PreAggSelectPartition {
	switch g.IntN(4) {
	case 0:
		p.IncrementBy(int64(n))
	case 1:
		k := g.between(1, 50)
		p.IncrementBy(int64(n + k))
		p.IncrementBy(int64(-k))
	case 2:
		k := g.between(-3, 10)
		q, _ := s.build()
		p.IncrementBy(int64(n - k))
		q.IncrementBy(int64(k))
		check(p.Merge(q) == nil, "selection:merge", "merging fails", s.d())
	default:
		if n > 200 || n < 0 {
			p.IncrementBy(int64(n))
			break
		}
		for i := 0; i < n; i++ {
			p.Increment()
		}
	}
	return p
}

// selExact compares decisions at chosen random numbers with the recursion.
func selExact(g *Gen) {
	s := genSel(g)
	const max = 20000
	rec := keepRecursion(s.eps/float64(s.l0), s.delta/float64(s.l0), max)
	for round := 0; round < 3; round++ {
		n := sampleCount(g, s, rec)
		want := s.keepProb(rec, n)
		if s.pre > 1 && n-int(s.pre)+1 > max || n > max {
			continue
		}
		for _, f := range []float64{1 - 1e-7, 1 + 1e-7, g.logu(.1, 10)} {
			u := want * f
			if want == 0 {
				u = g.logu(1e-15, 1)
			}
			if want == 1 {
				u = pick(g, 1-1e-15, 1-g.logu(1e-15, 1))
			}
			if u >= 1 {
				continue
			}
			u = setUniform(u)
			p, err := s.build()
			d := s.d()
			d["units"], d["keep_probability"], d["u"] = n, want, u
			if !check(err == nil, "selection:error", "valid options are rejected", d) {
				return
			}
			contribute(g, s, p, n)
			keep, err := p.ShouldKeepPartition()
			count("selection_exact", 1)
			d["kept"] = keep
			if math.IsNaN(u) {
				count("selection_uncontrolled", 1)
				continue
			}
			if want == 0 {
				count("selection_never", 1)
			}
			if want == 1 {
				count("selection_always", 1)
			}
			if math.Abs(u-want) > 1e-10*want || want == 1 {
				check(err == nil && keep == (u < want), "selection:probability", "a partition is not kept with the documented probability", d)
			}
		}
		key("sel", s.eps, s.delta, s.l0, s.pre, n)
	}
	aaa.SetPattern(nil)
}

// selLaw compares the frequency of keeping partitions with the recursion, or with the thresholded
// Gaussian count for more than three partitions.
func selLaw(g *Gen, runs int) {
	s := genSel(g)
	s.delta = g.logu(.005, .6)
	s.eps = g.logu(.02, 5)
	rec := keepRecursion(s.eps/float64(s.l0), s.delta/float64(s.l0), 3000)
	n := sampleCount(g, s, rec)
	want := s.keepProb(rec, n)
	lo, hi := want, want
	if g.coin(.4) {
		s.l0 = int64(g.between(4, 40))
		sc := refSigma(math.Sqrt(float64(s.l0)), s.eps, s.delta/2)
		// Threshold for one unit in each of l0 partitions.
		pd := -math.Expm1(math.Log1p(-s.delta/2) / float64(s.l0))
		m := float64(n)
		if s.pre > 1 {
			m -= float64(s.pre) - 1
		}
		if g.coin(.5) {
			m = math.Floor(g.unif(1, 1+4*sc))
			n = int(m)
			if s.pre > 1 {
				n += int(s.pre) - 1
			}
		}
		// T = 1 + sc*z with P(N > z) = pd.
		zlo, zhi := -10.0, 10.0
		for i := 0; i < 200; i++ {
			z := (zlo + zhi) / 2
			if phi(-z) > pd {
				zlo = z
			} else {
				zhi = z
			}
		}
		prob := func(sc float64) float64 {
			t := math.Ceil(1+sc*zlo-1e-9) - .5
			return phi(-(t - m) / sc)
		}
		lo, hi = 1, 0
		for _, f := range []float64{.999, .9995, 1, 1.0005, 1.001} { // sigma is documented to be accurate to 0.1%
			lo, hi = math.Min(lo, prob(sc*f)), math.Max(hi, prob(sc*f))
		}
		if s.pre > 1 && n < int(s.pre) || n <= 0 && s.pre <= 1 && m < 1 {
			if s.pre > 1 {
				lo, hi = 0, 0
			} else {
				return
			}
		}
		lo, hi = lo*.997, math.Min(1, hi*1.003)
		count("selection_gaussian", 1)
	}
	kept := 0
	d := s.d()
	for i := 0; i < runs; i++ {
		p, err := s.build()
		if !check(err == nil, "selection:error", "valid options are rejected", d) {
			return
		}
		p.IncrementBy(int64(n))
		if k, err := p.ShouldKeepPartition(); err != nil {
			check(false, "selection:error", "no decision", d)
			return
		} else if k {
			kept++
		}
	}
	count("selection_runs", runs)
	key("selLaw", s.eps, s.delta, s.l0, s.pre, n)
	d["units"], d["low"], d["high"], d["kept"], d["runs"] = n, lo, hi, kept, runs
	fr := float64(kept) / float64(runs)
	check(fr >= lo || consistent(runs, kept, lo), "selection:too-rarely", "a partition is kept too rarely", d)
	check(fr <= hi || consistent(runs, kept, hi), "selection:too-often", "a partition is kept too often", d)
	check(hi > 0 || kept == 0, "selection:pre-threshold", "a partition below the pre-threshold is kept", d)
}

// hardThreshold: the first number of units that is always kept.
func hardThreshold(g *Gen) {
	s := genSel(g)
	s.eps = g.logu(.01, 600)
	e, dl := s.eps/float64(s.l0), s.delta/float64(s.l0)
	up := keepRecursion(e*(1+1e-9), dl*(1+1e-9), 1<<17)
	lo := len(up) - 1
	for lo > 1 && up[lo-1] > 1-1e-14 { // as good as one
		lo--
	}
	hi := len(keepRecursion(e*(1-1e-9), dl*(1-1e-9), 1<<17)) - 1
	if hi >= 1<<17 {
		return
	}
	if s.pre > 1 {
		lo += int(s.pre) - 1
		hi += int(s.pre) - 1
	}
	p, err := s.build()
	d := s.d()
	if !check(err == nil, "selection:error", "valid options are rejected", d) {
		return
	}
	k, err := p.GetHardThreshold()
	d["threshold"], d["low"], d["high"] = k, lo, hi
	count("hard_thresholds", 1)
	key("hard", s.eps, s.delta, s.l0, s.pre)
	check(err == nil && k >= lo, "selection:hard-threshold-low", "the hard threshold is not always kept", d)
	check(err == nil && k <= hi+1, "selection:hard-threshold-high", "fewer units than the hard threshold are always kept", d)
}

// selInvalid: invalid options never give a selection.
func selInvalid(g *Gen) {
	s := genSel(g)
	switch g.IntN(4) {
	case 0:
		s.eps = pick(g, 0, math.NaN(), math.Inf(1), -g.logu(1e-9, 9))
	case 1:
		s.delta = pick(g, 0, math.NaN(), 1, 1+g.logu(1e-9, 9), -g.logu(1e-9, 9))
	case 2:
		s.l0 = -int64(g.between(0, 4))
	case 3:
		s.pre = -int64(g.between(1, 9))
	}
	d := s.d()
	guard("selection", d, func() {
		_, err := s.build()
		count("selection_invalid", 1)
		key("selInvalid", s.eps, s.delta, s.l0, s.pre)
		check(err != nil, "selection:invalid", "invalid options are accepted", d)
	})
}
