package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/google/differential-privacy/go/v3/dpagg"
	"github.com/google/differential-privacy/go/v3/noise"
)

// anyNoise accepts all parameters and adds nothing: a noise of the user, of a kind the library does not know.
type anyNoise struct{}

func (anyNoise) AddNoiseInt64(x, l0, lInf int64, eps, delta float64) (int64, error) { return x, nil }
func (anyNoise) AddNoiseFloat64(x float64, l0 int64, lInf, eps, delta float64) (float64, error) {
	return x, nil
}
func (anyNoise) Threshold(l0 int64, lInf, eps, nd, td float64) (float64, error) { return 0, nil }
func (anyNoise) ComputeConfidenceIntervalInt64(x, l0, lInf int64, eps, delta, alpha float64) (noise.ConfidenceInterval, error) {
	return noise.ConfidenceInterval{LowerBound: float64(x), UpperBound: float64(x)}, nil
}
func (anyNoise) ComputeConfidenceIntervalFloat64(x float64, l0 int64, lInf, eps, delta, alpha float64) (noise.ConfidenceInterval, error) {
	return noise.ConfidenceInterval{LowerBound: x, UpperBound: x}, nil
}

// script answers with prepared values, whatever the data are.
type script struct {
	noise.Noise
	answers []float64
	k       int
}

func (s *script) next() float64 {
	v := s.answers[s.k%len(s.answers)]
	s.k++
	return v
}

func (s *script) AddNoiseInt64(x, l0, lInf int64, eps, delta float64) (int64, error) {
	return int64(math.Round(s.next())), nil
}

func (s *script) AddNoiseFloat64(x float64, l0 int64, lInf, eps, delta float64) (float64, error) {
	return s.next(), nil
}

// allAnswers is everything an aggregation tells.
func (s aggSpec) allAnswers(h *handle, alpha float64, full bool) (r []float64) {
	if s.kind == "quantiles" {
		for i := 0; i <= 10; i++ {
			v, _ := h.rank(float64(i) / 10)
			r = append(r, v)
		}
		return
	}
	if v, ok := h.raw.(*dpagg.BoundedVariance); ok && full {
		x, err := v.ResultWithCountAndMean()
		if err != nil {
			return nil
		}
		return []float64{x.Count, x.Mean, x.Variance}
	}
	v, err := h.result()
	if err != nil {
		return nil
	}
	r = append(r, v)
	if h.interval != nil {
		ci, _ := h.interval(alpha)
		r = append(r, ci.LowerBound, ci.UpperBound)
	}
	return
}

// postprocess: whatever an aggregation tells is a function of its noised values only.
func postprocess(g *Gen) {
	s := genAgg(g)
	if s.kind == "quantiles" {
		s.height, s.fan = g.between(1, 3), g.between(2, 5)
	}
	amp := g.logu(1, 1e3) * (1 + math.Max(math.Abs(s.lower), math.Abs(s.upper)))
	ans := make([]float64, 200)
	for i := range ans {
		ans[i] = g.unif(-.3, 1) * amp
	}
	if g.coin(.3) {
		ans[g.IntN(4)] = 0
	}
	var all [][]float64
	full, alpha := g.coin(.7), g.unif(.01, .9)
	d := s.d()
	for run := 0; run < 2; run++ {
		h, err := s.build(s.n)
		if !check(err == nil, "aggregation:error", "valid options are rejected", d) {
			return
		}
		h.set(&script{Noise: s.n, answers: ans})
		for k := pick(g, 0, 1, g.between(2, 40)); k > 0; k-- {
			h.add(s.entry(g))
		}
		all = append(all, s.allAnswers(h, alpha, full))
	}
	d["answers_1"], d["answers_2"] = fmt.Sprint(all[0]), fmt.Sprint(all[1])
	count("postprocessing", 1)
	key("post", s.kind, s.lower, s.upper, s.eps, full)
	check(all[0] != nil && fmt.Sprint(all[0]) == fmt.Sprint(all[1]), "postprocess:"+s.kind, "with the same noised values the answers differ, so they depend on the data directly", d)
	a := all[0]
	if s.kind == "variance" && full && a != nil {
		count("full_results", 1)
		c := math.Round(ans[0])
		mean := clamp(ans[1]/math.Max(1, c)+s.lower+(s.upper-s.lower)/2, s.lower, s.upper)
		d["count"], d["mean"] = c, mean
		check(a[0] == c && math.Abs(a[1]-mean) <= 1e-9*(1+math.Abs(mean)), "postprocess:variance-parts", "the count and mean returned with the variance are not the noised ones", d)
		check(a[2] >= 0 && a[2] <= (s.upper-s.lower)*(s.upper-s.lower)/4*(1+1e-12), "range:variance", "the result lies outside of the possible range", d)
	}
	if s.kind == "mean" && a != nil {
		c := math.Round(ans[0])
		mean := clamp(ans[1]/math.Max(1, c)+s.lower+(s.upper-s.lower)/2, s.lower, s.upper)
		d["count"], d["mean"] = c, mean
		check(math.Abs(a[0]-mean) <= 1e-9*(1+math.Abs(mean)), "postprocess:mean", "the mean is not the noised sum over the noised count", d)
	}
}

// exactQuantiles: few entries, no noise: the quantile is the documented interpolation inside of the
// leaf that contains it.
func exactQuantiles(g *Gen) {
	s := genAgg(g, "quantiles")
	ht, b := s.dims()
	leaves := int(math.Round(math.Pow(float64(b), float64(ht))))
	if leaves > 1<<20 {
		return
	}
	h, err := s.build(s.n)
	if !check(err == nil, "aggregation:error", "valid options are rejected", s.d()) {
		return
	}
	h.set(&rec{Noise: s.n})
	n := g.between(1, 30)
	w := (s.upper - s.lower) / float64(leaves)
	var idx []int
	for i := 0; i < n; i++ {
		k := g.IntN(leaves)
		if len(idx) > 0 {
			k = pick(g, k, idx[g.IntN(len(idx))], clampInt(idx[g.IntN(len(idx))]+g.between(-2, 2), 0, leaves-1))
		}
		x := s.lower + (float64(k)+g.unif(.2, .8))*w
		switch {
		case g.coin(.05):
			k, x = leaves-1, pick(g, math.Inf(1), s.upper, s.upper+g.logu(1e-6, 1e6), math.MaxFloat64)
		case g.coin(.05):
			k, x = 0, pick(g, math.Inf(-1), s.lower, s.lower-g.logu(1e-6, 1e6), -math.MaxFloat64)
		case g.coin(.05):
			h.add(math.NaN())
		}
		if !check(h.add(x) == nil, "aggregation:add", "an entry is rejected", s.d()) {
			return
		}
		idx = append(idx, k)
	}
	sort.Ints(idx)
	d := s.d()
	for i := 0; i < 15; i++ {
		k := g.IntN(n)
		u := pick(g, g.unif(.001, .999), .001, .999, .5)
		q := (float64(k) + u) / float64(n)
		c := clamp(q, .005, .995)
		if int(c*float64(n)) != k {
			continue
		}
		before, cnt := 0, 0
		for _, j := range idx {
			if j < idx[k] {
				before++
			} else if j == idx[k] {
				cnt++
			}
		}
		want := s.lower + (float64(idx[k])+clamp((c*float64(n)-float64(before))/float64(cnt), 0, 1))*w
		v, err := h.rank(q)
		d["n"], d["rank"], d["value"], d["want"], d["leaf"], d["leaves_of_entries"] = n, q, v, want, w, fmt.Sprint(idx)
		count("exact_quantiles", 1)
		key("exactQuantiles", s.lower, s.upper, s.height, s.fan, n, q)
		check(err == nil && math.Abs(v-want) <= 1e-3*w+1e-9*(math.Abs(s.lower)+math.Abs(s.upper)), "quantiles:exact", "without noise the quantile is not the value at its rank in its leaf", d)
	}
}

func clampInt(x, lo, hi int) int { return max(lo, min(hi, x)) }

// customNoise: with a noise of the user extreme bounds are allowed; the sensitivities it is given cover them.
func customNoise(g *Gen) {
	r := &rec{Noise: anyNoise{}}
	s := genAgg(g, "sumInt", "sumFloat", "count")
	s.delta = pick(g, 0, 1e-5)
	d := s.d()
	if s.kind == "sumInt" {
		lo := pick(g, int64(math.MinInt64), math.MinInt64+1, math.MinInt64/2, -int64(g.between(0, 1000)))
		hi := pick(g, int64(math.MaxInt64), math.MaxInt64-1, int64(g.between(0, 1000)), lo)
		if lo == 0 && hi == 0 {
			return
		}
		d["lower"], d["upper"] = lo, hi
		c, err := dpagg.NewBoundedSumInt64(&dpagg.BoundedSumInt64Options{Epsilon: s.eps, Delta: s.delta, MaxPartitionsContributed: s.l0, Lower: lo, Upper: hi, Noise: r})
		if err != nil {
			count("custom_refused", 1)
			return
		}
		c.Add(lo)
		if _, err := c.Result(); err != nil {
			return
		}
		need := math.Max(math.Abs(float64(lo)), math.Abs(float64(hi)))
		for _, k := range r.calls {
			d["declared"] = k.lInf
			check(k.lInf >= need*(1-1e-12), "custom:sensitivity", "the declared sensitivity does not cover the bounds", d)
		}
	} else if s.kind == "sumFloat" {
		lo := pick(g, math.Inf(-1), -math.MaxFloat64, -g.logu(1, 1e300), g.unif(-5, 0))
		hi := pick(g, math.Inf(1), math.MaxFloat64, g.logu(1, 1e300), g.unif(0, 5))
		d["lower"], d["upper"] = lo, hi
		c, err := dpagg.NewBoundedSumFloat64(&dpagg.BoundedSumFloat64Options{Epsilon: s.eps, Delta: s.delta, MaxPartitionsContributed: s.l0, Lower: lo, Upper: hi, Noise: r})
		if err != nil {
			count("custom_refused", 1)
			return
		}
		c.Add(hi)
		if _, err := c.Result(); err != nil {
			return
		}
		need := math.Max(-lo, hi)
		for _, k := range r.calls {
			d["declared"] = k.lInf
			check(k.lInf >= need*(1-1e-12), "custom:sensitivity", "the declared sensitivity does not cover the bounds", d)
		}
	} else {
		// A custom noise is another noise than Laplace, even with the same parameters.
		s.delta = 0
		a, err1 := s.build(noise.Laplace())
		b, err2 := s.build(r)
		if err1 != nil || err2 != nil {
			return
		}
		check(a.merge(b) != nil && b.merge(a) != nil, "lifecycle:incompatible", "aggregations of different noise are merged", d)
	}
	count("custom_noise", 1)
	key("custom", s.kind, d["lower"], d["upper"], s.l0)
}

// radius of a confidence interval of level alpha.
func radius(n noise.Noise, l0 int64, lInf, eps, delta, alpha float64) float64 {
	if delta == 0 {
		return -math.Log(alpha) * float64(l0) * lInf / eps
	}
	return noise.SigmaForGaussian(l0, lInf, eps, delta) * math.Sqrt2 * math.Erfcinv(alpha)
}

// meanInterval: the interval of a mean has the documented level for every pair of noised sum and count.
func meanInterval(g *Gen) {
	s := genAgg(g, "mean")
	w := (s.upper - s.lower) / 2
	c := math.Round(g.logu(1, 1e5))
	if g.coin(.2) {
		c = float64(-g.between(0, 5))
	}
	sum := g.unif(-1.2, 1.2) * w * math.Max(c, 1)
	h, err := s.build(s.n)
	if !check(err == nil, "aggregation:error", "valid options are rejected", s.d()) {
		return
	}
	h.set(&script{Noise: s.n, answers: []float64{c, sum}})
	alpha := pick(g, g.unif(.01, .9), g.logu(1e-6, .5))
	if _, err := h.result(); err != nil {
		return
	}
	ci, err := h.interval(alpha)
	d := s.d()
	d["count"], d["sum"], d["alpha"], d["lower_ci"], d["upper_ci"] = c, sum, alpha, ci.LowerBound, ci.UpperBound
	if !check(err == nil, "interval:result", "no confidence interval", d) {
		return
	}
	got := ci.UpperBound - ci.LowerBound
	at := func(an float64) (lo, hi float64) {
		ad := (alpha - an) / (1 - an)
		rn := radius(s.n, s.l0, w*float64(s.m), s.eps/2, s.delta/2, an)
		rd := math.Round(radius(s.n, s.l0, float64(s.m), s.eps/2, s.delta/2, ad))
		dl, du := math.Max(c-rd, 1), math.Max(c+rd, 1)
		nl, nu := sum-rn, sum+rn
		if nl >= 0 {
			lo = nl / du
		} else {
			lo = nl / dl
		}
		if nu >= 0 {
			hi = nu / dl
		} else {
			hi = nu / du
		}
		mid := s.lower + w
		return clamp(lo+mid, s.lower, s.upper), clamp(hi+mid, s.lower, s.upper)
	}
	best, coarse := math.Inf(1), math.Inf(1)
	for i := 1; i < 4000; i++ {
		lo, hi := at(alpha * float64(i) / 4000)
		best = math.Min(best, hi-lo)
		if i%4 == 0 {
			coarse = math.Min(coarse, hi-lo)
		}
	}
	d["smallest"], d["documented"], d["size"] = best, coarse, got
	count("mean_intervals", 1)
	key("meanInterval", s.lower, s.upper, s.eps, c, alpha)
	tol := 1e-9 * (math.Abs(s.lower) + math.Abs(s.upper))
	check(got >= best*.999-tol, "interval:mean-narrow", "the interval of the mean is smaller than its level permits", d)
	check(got <= coarse*1.01+tol, "interval:mean-wide", "the interval of the mean is larger than documented", d)
}

// compensated: trees of different heights are different, even if their sensitivities agree.
func compensated(g *Gen) {
	s := genAgg(g, "quantiles")
	s.height, s.fan = 2, g.between(2, 5)
	t := s
	t.height = 4
	s.l0 = 2 * t.l0
	a, err1 := s.build(s.n)
	b, err2 := t.build(t.n)
	if err1 != nil || err2 != nil {
		return
	}
	b.add(t.upper)
	count("incompatible", 1)
	key("compensated", s.l0, s.fan, s.eps)
	check(a.merge(b) != nil, "lifecycle:incompatible", "quantile trees of different heights are merged", s.d())
}

// invalidLevel: levels of intervals and deltas of thresholds outside of their domain are refused.
func invalidLevel(g *Gen) {
	p := genParams(g, false)
	a := pick(g, math.NaN(), 0, 1, -g.logu(1e-9, 10), 1+g.logu(1e-9, 10), math.Inf(1), math.Inf(-1))
	d := p.d()
	d["level"] = a
	count("invalid_levels", 1)
	key("level", p.kind, a, p.eps)
	guard("level", d, func() {
		_, err := p.n.ComputeConfidenceIntervalFloat64(1, p.l0, p.lInf, p.eps, p.delta, a)
		check(err != nil, "interval:invalid-level", "an invalid level is accepted", d)
		_, err = p.n.ComputeConfidenceIntervalInt64(1, p.l0, 1, p.eps, p.delta, a)
		check(err != nil, "interval:invalid-level", "an invalid level is accepted", d)
		if a != 1 || true {
			_, err = p.n.Threshold(p.l0, p.lInf, p.eps, p.delta, a)
			check(err != nil, "threshold:invalid-delta", "an invalid threshold delta is accepted", d)
		}
		if p.delta > 0 {
			_, err = p.n.Threshold(p.l0, p.lInf, p.eps, p.delta, 1-p.delta*g.unif(0, .99))
			check(err != nil, "threshold:invalid-delta", "deltas that add up to more than one are accepted", d)
		}
	})
	s := genAgg(g, "count", "sumInt", "sumFloat", "mean")
	h, err := s.build(s.n)
	if err != nil {
		return
	}
	h.result()
	guard("level", d, func() {
		_, err := h.interval(a)
		check(err != nil, "interval:invalid-level", "an invalid level is accepted by an aggregation", d)
	})
}
