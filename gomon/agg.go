package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/google/differential-privacy/go/v3/dpagg"
	"github.com/google/differential-privacy/go/v3/noise"
)

// call is one observed request for noise.
type call struct {
	x          float64
	l0         int64
	lInf       float64
	eps, delta float64
	integer    bool
}

// rec is a noise that records what it is asked for. add is what it adds (or, with fixed set,
// what it answers).
type rec struct {
	noise.Noise
	calls []call
	add   func(i int, scale float64) float64
	fixed *float64
	thr   *float64 // the threshold it answers with
	asked []call   // thresholds it was asked for
}

func (r *rec) Threshold(l0 int64, lInf, eps, nd, td float64) (float64, error) {
	r.asked = append(r.asked, call{td, l0, lInf, eps, nd, false})
	if r.thr != nil {
		return *r.thr, nil
	}
	return r.Noise.Threshold(l0, lInf, eps, nd, td)
}

func (r *rec) answer(c call) float64 {
	r.calls = append(r.calls, c)
	if r.fixed != nil {
		return *r.fixed
	}
	if r.add != nil {
		return c.x + r.add(len(r.calls), c.lInf)
	}
	return c.x
}

func (r *rec) AddNoiseInt64(x, l0, lInf int64, eps, delta float64) (int64, error) {
	if _, err := r.Noise.AddNoiseInt64(0, l0, lInf, eps, delta); err != nil {
		return 0, err
	}
	return int64(math.Round(r.answer(call{float64(x), l0, float64(lInf), eps, delta, true}))), nil
}

func (r *rec) AddNoiseFloat64(x float64, l0 int64, lInf, eps, delta float64) (float64, error) {
	if _, err := r.Noise.AddNoiseFloat64(0, l0, lInf, eps, delta); err != nil {
		return 0, err
	}
	return r.answer(call{x, l0, lInf, eps, delta, false}), nil
}

// Agg is any of the bounded aggregations.
type Agg interface{ Add(float64) error }

type aggSpec struct {
	kind         string
	lower, upper float64
	l0, m        int64 // partitions per privacy unit, contributions per partition
	eps, delta   float64
	n            noise.Noise
	height, fan  int
	// The aggregation is created with n and switched to this noise afterwards.
}

func (s aggSpec) d() D {
	return D{"aggregation": s.kind, "lower": s.lower, "upper": s.upper, "l0": s.l0, "contributions": s.m, "epsilon": s.eps, "delta": s.delta,
		"height": s.height, "branching": s.fan}
}

var aggKinds = []string{"count", "sumInt", "sumFloat", "mean", "variance", "stddev", "quantiles"}

func genAgg(g *Gen, kinds ...string) aggSpec {
	if len(kinds) == 0 {
		kinds = aggKinds
	}
	s := aggSpec{kind: kinds[g.IntN(len(kinds))], l0: int64(pick(g, 1, 1, 2, g.between(1, 20))), m: int64(pick(g, 1, 1, 2, g.between(1, 9)))}
	s.eps = g.logu(.05, 20)
	if g.coin(.5) {
		s.n = noise.Laplace()
	} else {
		s.n, s.delta = noise.Gaussian(), g.logu(1e-10, .2)
	}
	a, b := g.unif(-100, 100), g.unif(-100, 100)
	switch g.IntN(6) {
	case 0:
		a, b = 0, g.unif(.1, 50)
	case 1:
		a, b = -g.unif(.1, 50), 0
	case 2:
		a, b = -g.unif(5, 50), g.unif(.1, 5)
	case 3:
		a = g.unif(-1e3, 1e3)
		b = a + g.logu(1e-3, 10)
	}
	s.lower, s.upper = math.Min(a, b), math.Max(a, b)
	if s.kind == "sumInt" {
		s.lower, s.upper = math.Floor(s.lower), math.Ceil(s.upper)
		if s.lower == 0 && s.upper == 0 {
			s.upper = 3
		}
	}
	if s.kind == "count" || s.kind == "sumInt" || s.kind == "sumFloat" {
		s.m = 1
	}
	s.height, s.fan = pick(g, 0, 1, 2, 3), pick(g, 0, 2, 3, 4, 16)
	return s
}

type handle struct {
	add      func(float64) error
	result   func() (float64, error)
	rank     func(float64) (float64, error)
	set      func(noise.Noise)
	merge    func(other *handle) error
	encode   func() ([]byte, error)
	decode   func([]byte) error
	interval func(float64) (noise.ConfidenceInterval, error)
	thresh   func(float64) (*float64, error)
	pre      func(int64, float64) (*float64, error)
	noises   func() []noise.Noise
	raw      any
}

// blank is an aggregation as a decoder makes it: without any options.
func (s aggSpec) blank() *handle {
	switch s.kind {
	case "count":
		return wrapCount(new(dpagg.Count))
	case "sumInt":
		return wrapSumInt(new(dpagg.BoundedSumInt64))
	case "sumFloat":
		return wrapSumFloat(new(dpagg.BoundedSumFloat64))
	case "mean":
		return wrapMean(new(dpagg.BoundedMean))
	case "variance":
		return wrapVariance(new(dpagg.BoundedVariance))
	case "stddev":
		return wrapStddev(new(dpagg.BoundedStandardDeviation))
	case "quantiles":
		return wrapQuantiles(new(dpagg.BoundedQuantiles))
	}
	panic("kind " + s.kind)
}

func fi(p *int64, err error) (*float64, error) {
	if p == nil {
		return nil, err
	}
	f := float64(*p)
	return &f, err
}

// build creates the aggregation, with noise n.
func (s aggSpec) build(n noise.Noise) (*handle, error) {
	switch s.kind {
	case "count":
		c, err := dpagg.NewCount(&dpagg.CountOptions{Epsilon: s.eps, Delta: s.delta, MaxPartitionsContributed: s.l0, Noise: n})
		if err != nil {
			return nil, err
		}
		return wrapCount(c), nil
	case "sumInt":
		c, err := dpagg.NewBoundedSumInt64(&dpagg.BoundedSumInt64Options{Epsilon: s.eps, Delta: s.delta, MaxPartitionsContributed: s.l0, Lower: int64(s.lower), Upper: int64(s.upper), Noise: n})
		if err != nil {
			return nil, err
		}
		return wrapSumInt(c), nil
	case "sumFloat":
		c, err := dpagg.NewBoundedSumFloat64(&dpagg.BoundedSumFloat64Options{Epsilon: s.eps, Delta: s.delta, MaxPartitionsContributed: s.l0, Lower: s.lower, Upper: s.upper, Noise: n})
		if err != nil {
			return nil, err
		}
		return wrapSumFloat(c), nil
	case "mean":
		c, err := dpagg.NewBoundedMean(&dpagg.BoundedMeanOptions{Epsilon: s.eps, Delta: s.delta, MaxPartitionsContributed: s.l0, MaxContributionsPerPartition: s.m, Lower: s.lower, Upper: s.upper, Noise: n})
		if err != nil {
			return nil, err
		}
		return wrapMean(c), nil
	case "variance":
		c, err := dpagg.NewBoundedVariance(&dpagg.BoundedVarianceOptions{Epsilon: s.eps, Delta: s.delta, MaxPartitionsContributed: s.l0, MaxContributionsPerPartition: s.m, Lower: s.lower, Upper: s.upper, Noise: n})
		if err != nil {
			return nil, err
		}
		return wrapVariance(c), nil
	case "stddev":
		c, err := dpagg.NewBoundedStandardDeviation(&dpagg.BoundedStandardDeviationOptions{Epsilon: s.eps, Delta: s.delta, MaxPartitionsContributed: s.l0, MaxContributionsPerPartition: s.m, Lower: s.lower, Upper: s.upper, Noise: n})
		if err != nil {
			return nil, err
		}
		return wrapStddev(c), nil
	case "quantiles":
		c, err := dpagg.NewBoundedQuantiles(&dpagg.BoundedQuantilesOptions{Epsilon: s.eps, Delta: s.delta, MaxPartitionsContributed: s.l0, MaxContributionsPerPartition: s.m, Lower: s.lower, Upper: s.upper, Noise: n, TreeHeight: s.height, BranchingFactor: s.fan})
		if err != nil {
			return nil, err
		}
		return wrapQuantiles(c), nil
	}
	panic("kind " + s.kind)
}

func wrapCount(c *dpagg.Count) *handle {
	return &handle{raw: c, noises: func() []noise.Noise { return []noise.Noise{c.Noise} },
		add:      func(float64) error { return c.Increment() },
		result:   func() (float64, error) { v, err := c.Result(); return float64(v), err },
		set:      func(n noise.Noise) { c.Noise = n },
		merge:    func(o *handle) error { return c.Merge(o.raw.(*dpagg.Count)) },
		encode:   c.GobEncode,
		decode:   c.GobDecode,
		interval: c.ComputeConfidenceInterval,
		pre:      func(p int64, d float64) (*float64, error) { return fi(c.PreThresholdedResult(p, d)) },
		thresh:   func(d float64) (*float64, error) { return fi(c.ThresholdedResult(d)) }}
}

func wrapSumInt(c *dpagg.BoundedSumInt64) *handle {
	return &handle{raw: c, noises: func() []noise.Noise { return []noise.Noise{c.Noise} },
		add:      func(x float64) error { return c.Add(int64(x)) },
		result:   func() (float64, error) { v, err := c.Result(); return float64(v), err },
		set:      func(n noise.Noise) { c.Noise = n },
		merge:    func(o *handle) error { return c.Merge(o.raw.(*dpagg.BoundedSumInt64)) },
		encode:   c.GobEncode,
		decode:   c.GobDecode,
		interval: c.ComputeConfidenceInterval,
		thresh:   func(d float64) (*float64, error) { return fi(c.ThresholdedResult(d)) }}
}

func wrapSumFloat(c *dpagg.BoundedSumFloat64) *handle {
	return &handle{raw: c, noises: func() []noise.Noise { return []noise.Noise{c.Noise} }, add: c.Add, result: c.Result, set: func(n noise.Noise) { c.Noise = n },
		merge:  func(o *handle) error { return c.Merge(o.raw.(*dpagg.BoundedSumFloat64)) },
		encode: c.GobEncode, decode: c.GobDecode, interval: c.ComputeConfidenceInterval, thresh: c.ThresholdedResult}
}

func wrapMean(c *dpagg.BoundedMean) *handle {
	return &handle{raw: c, noises: func() []noise.Noise { return []noise.Noise{c.Count.Noise, c.NormalizedSum.Noise} }, add: c.Add, result: c.Result, set: func(n noise.Noise) { c.Count.Noise = n; c.NormalizedSum.Noise = n },
		merge:  func(o *handle) error { return c.Merge(o.raw.(*dpagg.BoundedMean)) },
		encode: c.GobEncode, decode: c.GobDecode, interval: c.ComputeConfidenceInterval}
}

func setVariance(c *dpagg.BoundedVariance, n noise.Noise) {
	c.Count.Noise = n
	c.NormalizedSum.Noise = n
	c.NormalizedSumOfSquares.Noise = n
}

func wrapVariance(c *dpagg.BoundedVariance) *handle {
	return &handle{raw: c, noises: func() []noise.Noise { return []noise.Noise{c.Count.Noise, c.NormalizedSum.Noise, c.NormalizedSumOfSquares.Noise} }, add: c.Add, result: c.Result, set: func(n noise.Noise) { setVariance(c, n) },
		merge:  func(o *handle) error { return c.Merge(o.raw.(*dpagg.BoundedVariance)) },
		encode: c.GobEncode, decode: c.GobDecode}
}

func wrapStddev(c *dpagg.BoundedStandardDeviation) *handle {
	return &handle{raw: c, noises: func() []noise.Noise { return []noise.Noise{c.Variance.Count.Noise, c.Variance.NormalizedSum.Noise, c.Variance.NormalizedSumOfSquares.Noise} }, add: c.Add, result: c.Result, set: func(n noise.Noise) { setVariance(&c.Variance, n) },
		merge:  func(o *handle) error { return c.Merge(o.raw.(*dpagg.BoundedStandardDeviation)) },
		encode: c.GobEncode, decode: c.GobDecode}
}

func wrapQuantiles(c *dpagg.BoundedQuantiles) *handle {
	return &handle{raw: c, noises: func() []noise.Noise { return []noise.Noise{c.Noise} }, add: c.Add, rank: c.Result, set: func(n noise.Noise) { c.Noise = n },
		merge:  func(o *handle) error { return c.Merge(o.raw.(*dpagg.BoundedQuantiles)) },
		encode: c.GobEncode, decode: c.GobDecode}
}

func (s aggSpec) dims() (h, b int) {
	h, b = s.height, s.fan
	if h == 0 {
		h = dpagg.DefaultTreeHeight
	}
	if b == 0 {
		b = dpagg.DefaultBranchingFactor
	}
	return
}

// entry is one value contributed to the aggregation.
func (s aggSpec) entry(g *Gen) float64 {
	w := s.upper - s.lower
	x := g.unif(s.lower, s.upper)
	switch g.IntN(12) {
	case 0:
		x = s.lower
	case 1:
		x = s.upper
	case 2:
		x = s.lower - g.logu(1e-3, 1e3)*w
	case 3:
		x = s.upper + g.logu(1e-3, 1e3)*w
	case 4:
		x = s.lower + w/2
	case 5:
		x = math.Nextafter(s.upper, s.lower)
	}
	if s.kind == "sumInt" {
		return math.Round(x)
	}
	if g.coin(.02) {
		return pick(g, math.NaN(), math.Inf(1), math.Inf(-1))
	}
	return x
}

func clamp(x, lo, hi float64) float64 { return math.Max(lo, math.Min(hi, x)) }

// exact is the aggregation's documented value without noise.
func (s aggSpec) exact(xs []float64) float64 {
	n, sum := 0.0, 0.0
	var ys []float64
	for _, x := range xs {
		if math.IsNaN(x) {
			if s.kind == "count" {
				n++
			}
			continue
		}
		y := clamp(x, s.lower, s.upper)
		ys = append(ys, y)
		sum += y
		n++
	}
	switch s.kind {
	case "count":
		return n
	case "sumInt", "sumFloat":
		return sum
	}
	if n == 0 {
		if s.kind == "mean" {
			return s.lower + (s.upper-s.lower)/2
		}
		return 0
	}
	mean, v := 0.0, 0.0
	for _, y := range ys {
		mean += y / n
	}
	if s.kind == "mean" {
		return mean
	}
	for _, y := range ys {
		v += (y - mean) * (y - mean) / n
	}
	if s.kind == "stddev" {
		return math.Sqrt(v)
	}
	return v
}

// exactness: without noise, the result is the exact statistic of the clamped entries;
// with arbitrary noise, it stays inside of its range.
func exactness(g *Gen) {
	s := genAgg(g, "count", "sumInt", "sumFloat", "mean", "variance", "stddev")
	r := &rec{Noise: s.n}
	h, err := s.build(s.n)
	if !check(err == nil, "aggregation:error", "valid options are rejected", s.d()) {
		return
	}
	h.set(r)
	n := pick(g, 0, 1, 2, g.between(3, 200))
	xs := make([]float64, n)
	for i := range xs {
		xs[i] = s.entry(g)
		if err := h.add(xs[i]); !check(err == nil, "aggregation:add", "an entry is rejected", s.d()) {
			return
		}
	}
	noisy := g.coin(.5)
	if noisy {
		amp := g.logu(.1, 1e6)
		r.add = func(i int, scale float64) float64 { return g.unif(-1, 1) * amp * scale }
	}
	got, err := h.result()
	want := s.exact(xs)
	d := s.d()
	d["n"], d["got"], d["want"] = n, got, want
	if !check(err == nil, "aggregation:result", "no result", d) {
		return
	}
	key("exact", s.kind, s.lower, s.upper, n, noisy, s.eps)
	if noisy {
		count("noisy_results", 1)
		switch s.kind {
		case "mean":
			check(got >= s.lower && got <= s.upper, "range:mean", "the result lies outside of the bounds", d)
		case "variance":
			check(got >= 0 && got <= (s.upper-s.lower)*(s.upper-s.lower)/4*(1+1e-12), "range:variance", "the result lies outside of the possible range", d)
		case "stddev":
			check(got >= 0 && got <= (s.upper-s.lower)/2*(1+1e-12), "range:stddev", "the result lies outside of the possible range", d)
		}
		// The answer is the documented function of the noised parts.
		return
	}
	count("exact_results", 1)
	m := math.Max(math.Abs(s.lower), math.Abs(s.upper))
	tol := 1e-12 * (1 + m) * float64(n+1)
	w := s.upper - s.lower
	switch s.kind {
	case "mean":
		tol = 1e-12 * (m + w)
	case "variance":
		tol = 1e-11 * (m*w + w*w)
	case "stddev":
		tol = math.Sqrt(1e-11 * (m*w + w*w))
	}
	check(math.Abs(got-want) <= tol, "exact:"+s.kind, "without noise the result is not the statistic of the clamped entries", d)
}

// budget: the requests for noise of one result stay within the declared budget, and every
// declared sensitivity covers the influence of one privacy unit.
func budget(g *Gen) {
	s := genAgg(g)
	if s.kind == "quantiles" && s.height == 0 && s.fan == 16 || s.fan == 0 {
		s.height, s.fan = 2, 4
	}
	r1, r2 := &rec{Noise: s.n}, &rec{Noise: s.n}
	if s.kind == "quantiles" {
		one := 1.0
		r1.fixed, r2.fixed = &one, &one // every node looks alike, so both runs visit the same nodes
	}
	a, err := s.build(s.n)
	if !check(err == nil, "aggregation:error", "valid options are rejected", s.d()) {
		return
	}
	b, _ := s.build(s.n)
	a.set(r1)
	b.set(r2)
	n := g.between(0, 20)
	for i := 0; i < n; i++ {
		x := s.entry(g)
		a.add(x)
		b.add(x)
	}
	same := g.coin(.4)
	x := s.entry(g)
	var unit []float64
	for i := int64(0); i < s.m; i++ {
		if !same {
			x = s.entry(g)
		}
		unit = append(unit, x)
		b.add(x)
	}
	replace := false
	ranks := []float64{0, 1}
	if s.kind == "quantiles" {
		for i := 0; i < 60; i++ {
			ranks = append(ranks, float64(i)/60)
		}
		for _, q := range ranks {
			a.rank(q)
			b.rank(q)
		}
	} else {
		a.result()
		b.result()
	}
	d := s.d()
	d["unit"] = fmt.Sprint(unit)
	if !check(len(r1.calls) == len(r2.calls), "budget:data-dependent", "the number of noised values depends on the data", d) {
		return
	}
	_ = replace
	count("budget_runs", 1)
	count("noise_requests", len(r1.calls))
	key("budget", s.kind, s.l0, s.m, s.eps, s.delta, s.lower, s.upper, n)
	te, td, l1, l2 := 0.0, 0.0, 0.0, 0.0
	for i, c := range r1.calls {
		e := r2.calls[i]
		diff := math.Abs(c.x - e.x)
		d["call"], d["diff"], d["declared_lInf"], d["declared_l0"] = i, diff, c.lInf, c.l0
		check(c.l0 == e.l0 && c.lInf == e.lInf && c.eps == e.eps && c.delta == e.delta, "budget:data-dependent", "the noise parameters depend on the data", d)
		check(diff <= c.lInf*(1+1e-9)+1e-9*math.Abs(c.x), "budget:sensitivity", "a privacy unit changes a noised value by more than the declared sensitivity", d)
		check(c.l0 >= s.l0, "budget:l0", "the declared L0 sensitivity is smaller than the number of partitions of a privacy unit", d)
		te += c.eps
		td += c.delta
		l1 += diff
		l2 += diff * diff
	}
	if s.kind == "quantiles" {
		// All nodes share one budget; the declared sensitivities must cover the whole tree.
		c := r1.calls[0]
		h, _ := s.dims()
		d["l1"], d["l2"], d["height"] = l1, math.Sqrt(l2), h
		per := float64(c.l0) / float64(s.l0)
		check(l1 <= per*c.lInf*(1+1e-9), "budget:tree-l1", "a privacy unit changes the tree by more than the declared L1 sensitivity", d)
		check(math.Sqrt(l2) <= math.Sqrt(per)*c.lInf*(1+1e-9), "budget:tree-l2", "a privacy unit changes the tree by more than the declared L2 sensitivity", d)
		check(c.eps <= s.eps*(1+1e-9) && c.delta <= s.delta*(1+1e-9), "budget:exceeded", "the budget is exceeded", d)
		if same && !math.IsNaN(x) {
			count("tree_worst_case", 1)
		}
		return
	}
	d["epsilon_used"], d["delta_used"] = te, td
	check(te <= s.eps*(1+1e-9) && td <= s.delta*(1+1e-9)+1e-300, "budget:exceeded", "the parts use more than the declared budget", d)
	check(te >= s.eps*(1-1e-9) && td >= s.delta*(1-1e-9), "budget:unused", "the declared budget is not used", d)
}

// quantiles without noise lie in the leaf of the exact quantile; they are monotone in the rank and repeatable.
func quantiles(g *Gen) {
	s := genAgg(g, "quantiles")
	h, err := s.build(s.n)
	if !check(err == nil, "aggregation:error", "valid options are rejected", s.d()) {
		return
	}
	r := &rec{Noise: s.n}
	noisy := g.coin(.4)
	h.set(r)
	n := g.between(1, 400)
	var xs []float64
	for i := 0; i < n; i++ {
		x := s.entry(g)
		if g.coin(.3) && len(xs) > 0 {
			x = xs[g.IntN(len(xs))]
		}
		h.add(x)
		if !math.IsNaN(x) {
			xs = append(xs, clamp(x, s.lower, s.upper))
		}
	}
	if len(xs) == 0 {
		return
	}
	sort.Float64s(xs)
	if noisy {
		amp := g.logu(.1, 100)
		r.add = func(i int, scale float64) float64 { return g.unif(-1, 1) * amp }
	}
	ht, b := s.dims()
	leaf := (s.upper - s.lower) / math.Pow(float64(b), float64(ht))
	ranks := make([]float64, 12)
	for i := range ranks {
		ranks[i] = g.Float64()
	}
	ranks = append(ranks, 0, 1, .5)
	sort.Float64s(ranks)
	prev := math.Inf(-1)
	d := s.d()
	d["n"], d["noisy"] = n, noisy
	first := map[float64]float64{}
	calls := 0
	for round := 0; round < 2; round++ {
		for _, q := range ranks {
			v, err := h.rank(q)
			d["rank"], d["value"] = q, v
			if !check(err == nil && v >= s.lower-1e-12*math.Abs(s.lower) && v <= s.upper+1e-12*math.Abs(s.upper), "quantiles:range", "the quantile lies outside of the bounds", d) {
				return
			}
			count("quantiles", 1)
			if round == 1 {
				check(v == first[q], "quantiles:repeat", "asking again gives another answer (fresh noise for the same node)", d)
				continue
			}
			first[q] = v
			if !noisy {
				// Monotone in the rank, up to the numerical tolerance of the ranks.
				check(v >= prev-2e-5*(s.upper-s.lower), "quantiles:monotone", "quantiles are not monotone in the rank", d)
				prev = math.Max(prev, v)
				qa := clamp(q, .005, .995)
				// Nodes with less than 0.75% of their siblings are ignored on every level.
				slack := .0075*float64(b)*float64(ht) + 1e-5 + 1.01/float64(len(xs))
				lo := xs[int(clamp(math.Floor((qa-slack)*float64(len(xs))), 0, float64(len(xs)-1)))]
				hi := xs[int(clamp(math.Ceil((qa+slack)*float64(len(xs))), 0, float64(len(xs)-1)))]
				d["low"], d["high"], d["leaf"] = lo, hi, leaf
				check(v >= lo-leaf*1.0001-1e-9*(s.upper-s.lower) && v <= hi+leaf*1.0001+1e-9*(s.upper-s.lower), "quantiles:accuracy", "the quantile is not the leaf of the exact quantile", d)
			}
		}
		if round == 0 {
			calls = len(r.calls)
		}
	}
	check(len(r.calls) == calls, "quantiles:renoise", "a node is noised twice", d)
	key("quantiles", s.lower, s.upper, s.height, s.fan, n, noisy)
	for _, q := range []float64{-g.logu(1e-9, 1), 1 + g.logu(1e-9, 1), math.Inf(1)} {
		_, err := h.rank(q)
		check(err != nil, "quantiles:bad-rank", "an invalid rank is accepted", D{"rank": q})
	}
	done := make(chan error, 1)
	go func() { _, err := h.rank(math.NaN()); done <- err }()
	select {
	case err := <-done:
		check(err != nil, "quantiles:nan-rank", "rank NaN is accepted", d)
	case <-timeout():
		check(false, "quantiles:nan-rank", "rank NaN never returns", d)
		finish()
		exit()
	}
}

// near the upper bound entries belong to the last leaf.
func topLeaf(g *Gen) {
	s := genAgg(g, "quantiles")
	s.height, s.fan = pick(g, 1, 2, 3), pick(g, 2, 4, 10)
	h, err := s.build(s.n)
	if err != nil {
		return
	}
	r := &rec{Noise: s.n}
	h.set(r)
	x := s.upper
	for i := g.IntN(4); i > 0; i-- {
		x = math.Nextafter(x, s.lower)
	}
	n := g.between(1, 5)
	for i := 0; i < n; i++ {
		h.add(x)
	}
	v, err := h.rank(.5)
	_, b := s.dims()
	ht, _ := s.dims()
	leaf := (s.upper - s.lower) / math.Pow(float64(b), float64(ht))
	d := s.d()
	d["x"], d["value"] = x, v
	count("top_leaf", 1)
	key("top", s.lower, s.upper, s.height, s.fan, x)
	check(err == nil && v >= s.upper-leaf*1.0001, "quantiles:top-leaf", "entries just below the upper bound are counted elsewhere", d)
}

// badOptions: invalid options never give an aggregation that answers.
func badOptions(g *Gen) {
	s := genAgg(g)
	what := pick(g, "eps", "delta", "l0", "bounds", "m", "tree")
	bad := pick(g, math.NaN(), -1.0, math.Inf(1), -g.logu(1e-9, 10))
	switch what {
	case "eps":
		s.eps = pick(g, bad, 0)
	case "delta":
		if s.delta == 0 {
			s.delta = pick(g, bad, 1e-9)
		} else {
			s.delta = pick(g, bad, 0, 1, 1.5)
			if math.IsInf(s.delta, 1) {
				s.delta = 1
			}
		}
	case "l0":
		s.l0 = -int64(g.between(0, 3))
	case "bounds":
		if s.kind == "count" {
			return
		}
		if s.kind == "sumInt" {
			if g.coin(.5) {
				s.lower = math.MinInt64
			} else {
				s.lower, s.upper = s.upper+1, s.lower
			}
		} else {
			switch g.IntN(5) {
			case 0:
				s.lower, s.upper = s.upper, s.lower
			case 1:
				s.lower = pick(g, math.NaN(), math.Inf(-1))
			case 2:
				s.upper = pick(g, math.NaN(), math.Inf(1))
			case 3:
				s.lower, s.upper = 0, 0
			case 4:
				if s.kind == "sumFloat" {
					return // equal bounds are allowed
				}
				s.upper = s.lower
			}
			if s.lower == s.upper && s.lower != 0 && s.kind == "sumFloat" {
				return
			}
		}
	case "m":
		if s.kind == "count" || s.kind == "sumInt" || s.kind == "sumFloat" {
			return
		}
		s.m = -int64(g.between(0, 3))
	case "tree":
		if s.kind != "quantiles" {
			return
		}
		if g.coin(.5) {
			s.height = -g.between(1, 3)
		} else {
			s.fan = pick(g, -1, 1, -5)
		}
	}
	count("bad_options", 1)
	key("bad", what, s.kind, s.eps, s.delta, s.l0, s.lower, s.upper, s.m, s.height, s.fan)
	d := s.d()
	guard("options", d, func() {
		n := s.n
		if g.coin(.3) && s.delta == 0 && what != "delta" {
			n = nil
		}
		_, err := s.build(n)
		check(err != nil, "options:"+what, "invalid options are accepted", d)
	})
}

// coverage of the confidence intervals of whole aggregations.
func aggInterval(g *Gen, runs int) {
	s := genAgg(g, "count", "sumInt", "sumFloat", "mean")
	s.eps = g.logu(.2, 10)
	alpha := pick(g, g.unif(.01, .5), g.unif(.3, .95))
	n := pick(g, 1, 2, g.between(1, 60), g.between(1, 60), g.between(1, 60))
	if s.kind != "mean" && g.coin(.2) {
		n = 0
	}
	xs := make([]float64, n)
	for i := range xs {
		xs[i] = s.entry(g)
		for !finite(xs[i]) {
			xs[i] = s.entry(g)
		}
	}
	want := s.exact(xs)
	miss := 0
	d := s.d()
	d["alpha"], d["true"], d["n"] = alpha, want, n
	if s.kind == "mean" {
		runs /= 4
	}
	for i := 0; i < runs; i++ {
		h, err := s.build(s.n)
		if err != nil {
			check(false, "aggregation:error", "valid options are rejected", d)
			return
		}
		if _, err := h.interval(alpha); i == 0 {
			check(err != nil, "interval:early", "a confidence interval is returned before the result", d)
		}
		for _, x := range xs {
			h.add(x)
		}
		v, _ := h.result()
		ci, err := h.interval(alpha)
		ci2, _ := h.interval(alpha)
		d["value"], d["lower_ci"], d["upper_ci"] = v, ci.LowerBound, ci.UpperBound
		if !check(err == nil && ci.LowerBound <= ci.UpperBound && ci == ci2, "interval:result", "no (repeatable) confidence interval", d) {
			return
		}
		tol := 1e-9 * (1 + math.Abs(want))
		if want < ci.LowerBound-tol || want > ci.UpperBound+tol {
			miss++
		}
	}
	d["missed"], d["runs"] = miss, runs
	count("interval_runs", runs)
	key("aggInterval", s.kind, s.lower, s.upper, s.eps, alpha)
	check(float64(miss) <= alpha*float64(runs) || consistent(runs, miss, alpha), "interval:aggregate-coverage", "the true value is outside of the confidence interval too often", d)
}
