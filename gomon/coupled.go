package main

import (
	"math"

	"a.test/aaa"
	"github.com/google/differential-privacy/go/v3/noise"
	"github.com/google/differential-privacy/go/v3/rand"
)

// flush uses up what the library has buffered, so that the next byte comes from the source as set now.
func flush() {
	for n0 := aaa.Handed(); aaa.Handed() == n0; {
		rand.U8()
	}
}

// restart puts the randomness of the library into a state that depends on the seed only.
func restart(seed uint64) {
	aaa.SetPattern([]byte{0xff})
	flush()
	for i := 0; i < 16; i++ {
		rand.Boolean()
	}
	aaa.SetPattern([]byte{0})
	flush()
	for i := 0; i < 16 && rand.Boolean(); i++ {
	}
	for i := 0; i < 7; i++ {
		rand.Boolean()
	}
	aaa.SetPattern(nil)
	aaa.Seed(seed)
	flush()
}

// coupled: with the same randomness, a value is moved by exactly what its input moves, rounded to
// the nearest multiple of the granularity.
func coupled(g *Gen) {
	integer := g.coin(.6)
	p := genParams(g, integer)
	if integer && g.coin(.7) {
		if p.kind == "Laplace" {
			p.lInf = math.Round(g.logu(1<<41, 1<<52))
		} else {
			p.lInf = math.Round(g.logu(1<<55, 1<<57))
			p.l0, p.eps = 1, g.logu(.8, 6)
			p.delta = g.logu(1e-6, .1)
		}
	}
	sc := p.scale()
	gr := math.Exp2(math.Ceil(math.Log2(sc)) - 40)
	if p.kind == "Gaussian" {
		sc = noise.SigmaForGaussian(p.l0, p.lInf, p.eps, p.delta)
		gr = math.Exp2(math.Ceil(math.Log2(2*sc)) - 57)
	}
	if integer && (sc > 6e17 || sc*40 > 9e18) {
		return
	}
	seed := g.Uint64()
	d := p.d()
	d["granularity"], d["integer"] = gr, integer
	add := func(x float64) (float64, int64, bool) {
		restart(seed)
		if integer {
			v, err := p.n.AddNoiseInt64(int64(x), p.l0, int64(p.lInf), p.eps, p.delta)
			return 0, v, err == nil
		}
		v, err := p.n.AddNoiseFloat64(x, p.l0, p.lInf, p.eps, p.delta)
		return v, 0, err == nil
	}
	f0, i0, ok := add(0)
	f1, i1, ok1 := add(0)
	if !ok || !ok1 {
		return
	}
	if f0 != f1 || i0 != i1 {
		count("not_replayed", 1)
		return
	}
	for k := 0; k < 4; k++ {
		x := pick(g, gr*float64(g.between(-40, 40)), gr*g.unif(-5, 5), sc*g.unif(-2, 2), g.unif(-1e6, 1e6))
		if integer {
			x = math.Round(x)
			if math.Abs(x) > 1e17 {
				x = math.Mod(x, 1e17)
			}
			if math.Abs(x) > 1<<53 {
				x = math.Round(x/1024) * 1024
			}
		} else {
			x = clamp(x, -1e3*sc, 1e3*sc)
		}
		f, i, ok := add(x)
		d["x"], d["base"], d["value"] = x, pick(g, f0+float64(i0)), f+float64(i)
		count("coupled", 1)
		key("coupled", integer, p.kind, p.lInf, p.eps, x)
		if !check(ok, "coupled:error", "a value is refused", d) {
			return
		}
		if integer {
			diff, h := i-i0-int64(x), int64(gr)
			d["shift"] = diff
			if gr < 1 {
				check(diff == 0, "coupled:int", "with the same randomness the noise differs for another value", d)
			} else {
				check((i-i0)%h == 0 && 2*diff <= h && -2*diff <= h, "coupled:int", "the value is not rounded to the nearest multiple of the granularity", d)
			}
			continue
		}
		diff := f - f0 - x
		tol := gr/2*(1+1e-9) + 4.5e-16*(math.Abs(f)+math.Abs(f0)+math.Abs(x))
		d["shift"] = diff
		check(math.Abs(diff) <= tol, "coupled:float", "with the same randomness the noise differs for another value", d)
	}
}

// nearPower: scales just above a power of two still have a power of two as granularity.
func nearPower(g *Gen) {
	k := g.between(-20, 20)
	sc := math.Exp2(float64(k)) * (1 + math.Exp2(-float64(g.between(36, 52)))*pick(g, 1, 1, 3, g.unif(1, 2)))
	d := D{"scale": sc}
	for i := 0; i < 20; i++ {
		v, err := noise.Laplace().AddNoiseFloat64(0, 1, sc, 1, 0)
		d["value"] = v
		count("near_power", 1)
		if !check(err == nil && math.Mod(v, math.Exp2(float64(k-41))) == 0, "law:grid", "results are not multiples of the power of two granularity", d) {
			return
		}
	}
	key("near", sc)
}

// tails: far outcomes are as frequent as they should be.
func tails(g *Gen, n int) {
	p := genParams(g, false)
	p.kind, p.n, p.delta = "Gaussian", noise.Gaussian(), g.logu(1e-8, .1)
	if g.coin(.3) {
		p.kind, p.n, p.delta = "Laplace", noise.Laplace(), 0
	}
	sc := p.scale()
	if p.kind == "Gaussian" {
		sc = noise.SigmaForGaussian(p.l0, p.lInf, p.eps, p.delta)
	}
	ps := []float64{.1, 1e-2, 1e-3, 1e-4, 2e-5}
	var lim []float64
	for _, q := range ps {
		if p.kind == "Laplace" {
			lim = append(lim, -math.Log(q)*sc)
		} else {
			lim = append(lim, sc*math.Sqrt2*math.Erfcinv(q))
		}
	}
	cnt := make([][2]int, len(ps))
	for i := 0; i < n; i++ {
		v, _ := p.n.AddNoiseFloat64(0, p.l0, p.lInf, p.eps, p.delta)
		side := 0
		if v < 0 {
			side, v = 1, -v
		}
		for j, l := range lim {
			if v > l {
				cnt[j][side]++
			}
		}
	}
	count("tail_draws", n)
	key("tails", p.kind, p.eps, p.delta)
	for j, q := range ps {
		for side := 0; side < 2; side++ {
			d := p.d()
			d["n"], d["probability"], d["side"], d["seen"], d["expected"] = n, q/2, side, cnt[j][side], float64(n)*q/2
			check(consistent(n, cnt[j][side], q/2), "law:tail", "far outcomes are not as frequent as the law demands", d)
		}
	}
}
