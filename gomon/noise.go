package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/google/differential-privacy/go/v3/noise"
)

type params struct {
	kind       string
	n          noise.Noise
	l0         int64
	lInf       float64
	eps, delta float64
}

func (p params) scale() float64 { // Laplace
	return float64(p.l0) * p.lInf / p.eps
}

func (p params) d() D {
	return D{"noise": p.kind, "l0": p.l0, "lInf": p.lInf, "epsilon": p.eps, "delta": p.delta}
}

func genParams(g *Gen, integer bool) params {
	p := params{l0: int64(pick(g, 1, 1, 2, 3, 5, g.between(1, 40)))}
	p.lInf = g.logu(1e-3, 1e4)
	if g.coin(.2) {
		p.lInf = 1
	}
	if integer {
		p.lInf = float64(pick(g, 1, 1, 2, g.between(1, 1000), g.between(1, 1<<40)))
	}
	p.eps = g.logu(1e-2, 20)
	if g.coin(.5) {
		p.kind, p.n = "Laplace", noise.Laplace()
	} else {
		p.kind, p.n = "Gaussian", noise.Gaussian()
		p.delta = g.logu(1e-12, 0.6)
	}
	return p
}

// refSigma is an independent bisection for the smallest sigma.
func refSigma(s, eps, delta float64) float64 {
	lo, hi := 0.0, s
	for sigmaDelta(hi, s, eps) > delta {
		lo, hi = hi, 2*hi
	}
	for i := 0; i < 200; i++ {
		m := (lo + hi) / 2
		if sigmaDelta(m, s, eps) > delta {
			lo = m
		} else {
			hi = m
		}
	}
	return hi
}

// lawFloat: AddNoiseFloat64 follows the declared law.
func lawFloat(g *Gen, n int) {
	p := genParams(g, false)
	var cdf func(float64) float64
	sc := p.scale()
	if p.kind == "Gaussian" {
		sc = refSigma(p.lInf*math.Sqrt(float64(p.l0)), p.eps, p.delta)
		cdf = func(x float64) float64 { return phi(x / sc) }
	} else {
		cdf = func(x float64) float64 { return laplaceCDF(x, sc) }
	}
	x := pick(g, 0, g.unif(-1, 1)*sc, g.unif(-1e4, 1e4)*sc, -g.logu(1e-6, 1e3), g.unif(-1, 1)*sc/128, g.unif(-1, 1)*sc/128)
	xs := make([]float64, 0, n)
	grid := math.Exp2(math.Ceil(math.Log2(sc)) - 41)
	if p.kind == "Gaussian" { // granularity: the power of two above 2 sigma / 2^57
		grid = math.Exp2(math.Floor(math.Log2(sc*.998)) - 56)
	}
	offGrid, repeats := 0, 0
	for i := 0; i < n; i++ {
		v, err := p.n.AddNoiseFloat64(x, p.l0, p.lInf, p.eps, p.delta)
		if !check(err == nil && finite(v), "law:error", "valid parameters are rejected or the result is not finite", p.d()) {
			return
		}
		if math.Mod(v, grid) != 0 {
			offGrid++
		}
		if i > 0 && v-x == xs[i-1] {
			repeats++
		}
		xs = append(xs, v-x)
	}
	count("draws", n)
	key("lawFloat", p.kind, p.l0, p.lInf, p.eps, p.delta, x)
	d := p.d()
	d["x"] = x
	d["off_grid"] = offGrid
	check(offGrid == 0, "law:grid", "results are not multiples of the power of two granularity, so low-order bits reveal the input", d)
	check(repeats < 3, "law:fresh", "the same noise is used again", d)
	k := ks(xs, cdf, cdf)
	d["ks"] = k
	d["scale"] = sc
	// 0.1% accuracy of sigma is documented and moves the CDF by less than 2.5e-4.
	check(k < ksLimit+3e-4*math.Sqrt(float64(n)), "law:float:"+p.kind, "the noise does not follow the declared law", d)
}

func lawInt(g *Gen, n int) {
	p := genParams(g, true)
	sc := p.scale()
	var f func(float64) float64
	if p.kind == "Gaussian" {
		sc = refSigma(p.lInf*math.Sqrt(float64(p.l0)), p.eps, p.delta)
		f = func(x float64) float64 { return phi(x / sc) }
	} else {
		f = func(x float64) float64 { return laplaceCDF(x, sc) }
	}
	x := int64(pick(g, 0, g.between(-1000, 1000), g.between(-1<<50, 1<<50)))
	xs := make([]float64, 0, n)
	for i := 0; i < n; i++ {
		v, err := p.n.AddNoiseInt64(x, p.l0, int64(p.lInf), p.eps, p.delta)
		if !check(err == nil, "law:error", "valid parameters are rejected", p.d()) {
			return
		}
		xs = append(xs, float64(v-x))
	}
	count("draws", n)
	key("lawInt", p.kind, p.l0, p.lInf, p.eps, p.delta, x)
	k := ks(xs, func(v float64) float64 { return f(v + .5) }, func(v float64) float64 { return f(v - .5) })
	d := p.d()
	d["x"], d["ks"], d["scale"] = x, k, sc
	check(k < ksLimit+3e-4*math.Sqrt(float64(n)), "law:int:"+p.kind, "the noise does not follow the declared law", d)
}

// hugeSensitivity: products of sensitivities beyond int64 still give noise of the right scale.
func hugeSensitivity(g *Gen) {
	l0 := int64(1) << g.between(0, 12)
	if g.coin(.5) {
		l0 += int64(g.between(0, 3))
	}
	lInf := int64(g.logu(1<<50, 9.2e18))
	if g.coin(.4) {
		lInf = math.MaxInt64 - int64(g.between(0, 2))
	}
	eps := float64(l0) * float64(lInf) / g.logu(1<<45, 1<<54)
	sc := float64(l0) * float64(lInf) / eps
	far := 0
	const n = 150
	d := D{"l0": l0, "lInf": lInf, "epsilon": eps, "scale": sc}
	guard("huge-sensitivity", d, func() {
		for i := 0; i < n; i++ {
			v, err := noise.Laplace().AddNoiseInt64(0, l0, lInf, eps, 0)
			if err != nil {
				count("rejected", 1)
				return
			}
			if math.Abs(float64(v)) >= sc*math.Ln2 {
				far++
			}
		}
		count("huge", 1)
		key("huge", l0, lInf)
		d["beyond_median"] = far
		check(consistent(n, far, .5), "law:huge-sensitivity", "noise for huge sensitivities does not have the declared scale", d)
	})
}

// sigma: the Gaussian calibration is safe and nearly minimal.
func sigma(g *Gen) {
	l0 := int64(pick(g, 1, 2, 3, 10, g.between(1, 100000)))
	lInf := g.logu(1e-9, 1e12)
	eps := g.logu(1e-8, 700)
	delta := g.logu(1e-14, .999)
	s := noise.SigmaForGaussian(l0, lInf, eps, delta)
	l2 := lInf * math.Sqrt(float64(l0))
	got := sigmaDelta(s, l2, eps)
	d := D{"l0": l0, "lInf": lInf, "epsilon": eps, "delta": delta, "sigma": s, "true_delta": got}
	count("sigmas", 1)
	key("sigma", l0, lInf, eps, delta)
	check(got <= delta*(1+1e-9)+1e-15, "sigma:unsafe", "the calibrated Gaussian noise does not give the requested delta", d)
	less := sigmaDelta(s*(1-3e-3), l2, eps)
	d["delta_of_less_noise"] = less
	check(less > delta*(1-1e-9)-1e-15 || s == 0, "sigma:excess", "noticeably less noise would do", d)
}

func invalidArgs(g *Gen) {
	p := genParams(g, false)
	bad := func(pos bool) float64 {
		xs := []float64{math.NaN(), math.Inf(1), math.Inf(-1), -1, -g.logu(1e-9, 1e9)}
		if pos {
			xs = append(xs, 0)
		}
		return xs[g.IntN(len(xs))]
	}
	what := pick(g, "l0", "lInf", "eps", "delta")
	alpha, thr := .1, 1e-5
	switch what {
	case "l0":
		p.l0 = -int64(g.between(0, 5))
	case "lInf":
		p.lInf = bad(true)
	case "eps":
		p.eps = pick(g, bad(true), math.Exp2(-51), math.Exp2(-50)*(1-1e-9))
	case "delta":
		if p.kind == "Laplace" {
			p.delta = pick(g, bad(false), 1e-12, .1, 1)
		} else {
			p.delta = pick(g, bad(true), 1, 1.5)
		}
	}
	count("invalid", 1)
	key("invalid", what, p.kind, p.l0, p.lInf, p.eps, p.delta)
	guard("invalid-arguments", p.d(), func() {
		_, err := p.n.AddNoiseFloat64(1, p.l0, p.lInf, p.eps, p.delta)
		check(err != nil, "invalid:"+what, "AddNoiseFloat64 accepts an invalid parameter", p.d())
		if what != "lInf" || (finite(p.lInf) && p.lInf <= 0) {
			_, err = p.n.AddNoiseInt64(1, p.l0, int64(p.lInf), p.eps, p.delta)
			if what == "lInf" || p.lInf >= 1 {
				check(err != nil, "invalid:"+what, "AddNoiseInt64 accepts an invalid parameter", p.d())
			}
		}
		_, err = p.n.Threshold(p.l0, p.lInf, p.eps, p.delta, thr)
		check(err != nil, "invalid:"+what, "Threshold accepts an invalid parameter", p.d())
		_, err = p.n.ComputeConfidenceIntervalFloat64(1, p.l0, p.lInf, p.eps, p.delta, alpha)
		check(err != nil, "invalid:"+what, "ComputeConfidenceIntervalFloat64 accepts an invalid parameter", p.d())
	})
	q := genParams(g, false)
	a := pick(g, bad(true), 1, 1.1)
	_, err := q.n.ComputeConfidenceIntervalFloat64(1, q.l0, q.lInf, q.eps, q.delta, a)
	check(err != nil, "invalid:alpha", "an invalid alpha is accepted", D{"alpha": a})
	t := pick(g, bad(true), 1, 2, 1-q.delta*.999, 1-q.delta*.5)
	if t >= 1 || !(t > 0) || t+q.delta >= 1 {
		_, err = q.n.Threshold(q.l0, q.lInf, q.eps, q.delta, t)
		check(err != nil, "invalid:threshold-delta", "an invalid threshold delta is accepted", D{"threshold_delta": t, "noise_delta": q.delta})
	}
}

// tail is the probability that the noise is larger than t.
func (p params) tail(t float64) float64 {
	if p.kind == "Laplace" {
		b := p.scale()
		if t >= 0 {
			return .5 * math.Exp(-t/b)
		}
		return 1 - .5*math.Exp(t/b)
	}
	return phi(-t / noise.SigmaForGaussian(p.l0, p.lInf, p.eps, p.delta))
}

// keepProb is the probability that at least one of l0 partitions with one unit passes the threshold.
func (p params) keepProb(k float64) float64 {
	return -math.Expm1(float64(p.l0) * math.Log1p(-p.tail(k-p.lInf)))
}

func threshold(g *Gen) {
	p := genParams(g, false)
	td := pick(g, g.logu(1e-15, .3), g.unif(.01, .999))
	if td+p.delta >= 1 {
		return
	}
	k, err := p.n.Threshold(p.l0, p.lInf, p.eps, p.delta, td)
	d := p.d()
	d["threshold_delta"], d["threshold"] = td, k
	if !check(err == nil, "threshold:error", "valid parameters are rejected", d) {
		return
	}
	count("thresholds", 1)
	key("threshold", p.kind, p.l0, p.lInf, p.eps, p.delta, td)
	slack := 2.3e-16 * float64(p.l0)
	kp := p.keepProb(k)
	d["keep_probability"] = kp
	check(kp <= td*(1+1e-6)+slack, "threshold:unsafe", "a partition of a single privacy unit is released too often", d)
	check(kp >= td*(1-1e-3)-slack, "threshold:excess", "the threshold is not the smallest", d)
	if x, ok := p.n.(interface {
		DeltaForThreshold(int64, float64, float64, float64, float64) (float64, error)
	}); ok {
		k2 := p.lInf + pick(g, g.unif(-3, 20), g.unif(0, 30))*(k-p.lInf)/8
		dt, err := x.DeltaForThreshold(p.l0, p.lInf, p.eps, p.delta, k2)
		want := p.keepProb(k2)
		d["threshold2"], d["delta_for_threshold"], d["want"] = k2, dt, want
		count("delta_for_threshold", 1)
		check(err == nil && dt >= want*(1-1e-6)-slack, "threshold:delta-unsafe", "the delta reported for a threshold is too small", d)
		check(err == nil && dt <= want*(1+1e-3)*(1+want*float64(p.l0))+slack, "threshold:delta-excess", "the delta reported for a threshold is too large", d)
	}
}

func interval(g *Gen) {
	integer := g.coin(.5)
	p := genParams(g, integer)
	alpha := pick(g, g.logu(1e-12, .999), g.unif(.001, .999))
	sc := p.scale()
	if p.kind == "Gaussian" {
		sc = noise.SigmaForGaussian(p.l0, p.lInf, p.eps, p.delta)
	}
	miss := func(r float64) float64 { // P(|noise| > r)
		if p.kind == "Laplace" {
			return math.Exp(-r / sc)
		}
		return math.Erfc(r / sc / math.Sqrt2)
	}
	d := p.d()
	d["alpha"] = alpha
	key("interval", integer, p.kind, p.l0, p.lInf, p.eps, p.delta, alpha)
	count("intervals", 1)
	if !integer {
		x := pick(g, 0, g.unif(-5, 5)*sc)
		ci, err := p.n.ComputeConfidenceIntervalFloat64(x, p.l0, p.lInf, p.eps, p.delta, alpha)
		r1, r2 := x-ci.LowerBound, ci.UpperBound-x
		d["x"], d["lower"], d["upper"] = x, ci.LowerBound, ci.UpperBound
		if !check(err == nil && r1 >= 0 && r2 >= 0, "interval:error", "no confidence interval around the result", d) {
			return
		}
		tol := 1e-6 + 1e-7/alpha*0
		for _, r := range []float64{r1, r2} {
			m := miss(r)
			d["miss"] = m
			check(math.Abs(m-alpha) <= alpha*tol*10+1e-13, "interval:coverage", "the confidence level of the interval is not the requested one", d)
		}
		return
	}
	x := int64(pick(g, 0, g.between(-1000, 1000), g.between(-1<<61, 1<<61)))
	if sc > 1<<50 {
		return
	}
	ci, err := p.n.ComputeConfidenceIntervalInt64(x, p.l0, int64(p.lInf), p.eps, p.delta, alpha)
	d["x"], d["lower"], d["upper"] = x, ci.LowerBound, ci.UpperBound
	if !check(err == nil && finite(ci.LowerBound) && finite(ci.UpperBound), "interval:error", "no confidence interval", d) {
		return
	}
	lo, _ := new(big.Float).SetFloat64(ci.LowerBound).Int(nil)
	hi, _ := new(big.Float).SetFloat64(ci.UpperBound).Int(nil)
	bx := big.NewInt(x)
	for _, r := range []*big.Int{new(big.Int).Sub(bx, lo), new(big.Int).Sub(hi, bx)} {
		rf, _ := new(big.Float).SetInt(r).Float64()
		// The noise is rounded: it is at most r in absolute value if the real noise is below r + 1/2.
		m := miss(rf + .5)
		d["radius"], d["miss"] = rf, m
		check(rf >= 0 && m <= alpha*(1+1e-5)+1e-13, "interval:coverage-int", "the confidence interval is too narrow", d)
		ulp := 1 + (math.Abs(float64(x))+rf)*4.5e-16
		check(rf <= 1.01+ulp || miss(rf-1.01-ulp) >= alpha*(1-1e-5)-1e-15, "interval:wide-int", "the confidence interval is too wide", d)
	}
}

// thresholded: results are released if and only if they reach the threshold, and never for
// fewer privacy units than the pre-threshold.
func thresholded(g *Gen) {
	s := genAgg(g, "count", "sumInt", "sumFloat")
	td := pick(g, g.logu(1e-12, .3), g.unif(.01, .9))
	if td+s.delta >= 1 {
		return
	}
	h, err := s.build(s.n)
	if err != nil {
		return
	}
	lInf := 1.0
	if s.kind != "count" {
		lInf = math.Max(math.Abs(s.lower), math.Abs(s.upper))
	}
	k, err := s.n.Threshold(s.l0, lInf, s.eps, s.delta, td)
	d := s.d()
	d["threshold_delta"], d["threshold"] = td, k
	if !check(err == nil, "threshold:error", "valid parameters are rejected", d) {
		return
	}
	r := &rec{Noise: s.n}
	exactly := g.coin(.3)
	if exactly {
		k = pick(g, float64(g.between(-20, 60)), float64(g.between(-20, 60)), g.unif(-20, 60))
		kk := k
		r.thr = &kk
	}
	raw, pre := g.between(0, 40), int64(0)
	usePre := s.kind == "count" && g.coin(.6)
	if usePre {
		pre = int64(pick(g, 0, 1, raw, raw+1, g.between(0, 45)))
		k += math.Max(float64(pre), 1) - 1
	}
	v := k + pick(g, 0, g.unif(-1, 1), g.unif(-3, 3), g.unif(-30, 30), -1, 1)
	if s.kind != "sumFloat" {
		v = math.Ceil(k) + float64(pick(g, 0, -1, 1, g.between(-5, 5)))
	}
	if g.coin(.1) {
		v = pick(g, -1.0, 1) * g.logu(1, 1e15)
		v = math.Round(v)
	}
	r.fixed = &v
	h.set(r)
	for i := 0; i < raw; i++ {
		h.add(clamp(s.entry(g), s.lower, s.upper))
	}
	var p *float64
	if usePre {
		p, err = h.pre(pre, td)
	} else {
		p, err = h.thresh(td)
	}
	want := v >= k
	if usePre && int64(raw) < max(pre, 1) {
		want = false
		count("below_pre_threshold", 1)
	}
	d["raw"], d["pre_threshold"], d["noised"], d["released"], d["want"] = raw, pre, v, p != nil, want
	count("thresholded", 1)
	key("thresholded", s.kind, s.l0, s.eps, s.delta, s.lower, s.upper, td, raw, pre, v)
	if !check(err == nil, "threshold:result-error", "no thresholded result", d) {
		return
	}
	for _, c := range r.asked {
		d["asked"] = fmt.Sprint(c)
		check(c.l0 == s.l0 && c.eps == s.eps && c.delta == s.delta && c.x == td && math.Abs(c.lInf-lInf) <= 1e-12*lInf, "threshold:parameters", "the threshold is computed for other parameters", d)
	}
	if exactly || math.Abs(v-k) > 1e-9*math.Abs(k) || s.kind != "sumFloat" && math.Abs(v-k) > 1e-6 {
		check(p == nil || want, "threshold:released", "a result below the threshold is released", d)
		check(p != nil || !want, "threshold:dropped", "a result above the threshold is dropped", d)
	}
	check(p == nil || *p == v, "threshold:value", "the released value is not the noised result", d)
	for _, c := range r.calls {
		check(c.l0 == s.l0 && c.eps == s.eps && c.delta == s.delta && math.Abs(c.lInf-lInf) <= 1e-12*lInf, "threshold:noise", "the noise of a thresholded result has other parameters", d)
	}
	check(len(r.calls) <= 1, "threshold:noise", "more than one noised result", d)
}

// grid: rounding of large integers to the granularity.
func grid(g *Gen) {
	kind := pick(g, "Laplace", "Gaussian")
	x := int64(g.between(-1<<40, 1<<40)) | 1
	d := D{"noise": kind, "x": x}
	for i := 0; i < 20; i++ {
		var v, gr int64
		var err error
		if kind == "Laplace" {
			lInf, eps := int64(g.logu(1<<44, 1<<56)), g.logu(.5, 8)
			sc := float64(lInf) / eps
			v, err = noise.Laplace().AddNoiseInt64(x, 1, lInf, eps, 0)
			gr = int64(math.Exp2(math.Ceil(math.Log2(sc*(1-1e-12))) - 41))
			d["lInf"], d["epsilon"] = lInf, eps
		} else {
			lInf, eps, delta := int64(g.logu(1<<56, 1<<57)), g.logu(.8, 6), g.logu(1e-6, .1)
			sc := refSigma(float64(lInf), eps, delta)
			if sc > 6e17 {
				continue
			}
			v, err = noise.Gaussian().AddNoiseInt64(x, 1, lInf, eps, delta)
			gr = int64(math.Exp2(math.Floor(math.Log2(sc*.998)) - 56))
			d["lInf"], d["epsilon"], d["delta"] = lInf, eps, delta
		}
		d["value"], d["granularity"] = v, gr
		count("grid_draws", 1)
		key("grid", kind, x, d["lInf"])
		if !check(err == nil && (gr <= 1 || v%gr == 0), "law:grid-int", "results are not multiples of the granularity, so low-order bits reveal the input", d) {
			return
		}
	}
}
