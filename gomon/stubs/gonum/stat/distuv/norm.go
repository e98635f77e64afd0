// Package distuv is a stand-in for gonum's normal distribution (not available offline).
package distuv

import "math"

type Normal struct{ Mu, Sigma float64 }

var UnitNormal = Normal{Mu: 0, Sigma: 1}

func (n Normal) CDF(x float64) float64 { return 0.5 * math.Erfc(-(x-n.Mu)/(n.Sigma*math.Sqrt2)) }

func (n Normal) Survival(x float64) float64 { return 0.5 * math.Erfc((x-n.Mu)/(n.Sigma*math.Sqrt2)) }

func (n Normal) Prob(x float64) float64 {
	z := (x - n.Mu) / n.Sigma
	return math.Exp(-z*z/2) / (n.Sigma * math.Sqrt(2*math.Pi))
}

func (n Normal) Quantile(p float64) float64 {
	if p < 0 || p > 1 {
		panic("distuv: percentile out of bounds")
	}
	if p < 0.5 {
		return n.Mu - n.Sigma*math.Sqrt2*math.Erfcinv(2*p)
	}
	return n.Mu + n.Sigma*math.Sqrt2*math.Erfinv(2*p-1)
}

func (n Normal) StdDev() float64   { return n.Sigma }
func (n Normal) Variance() float64 { return n.Sigma * n.Sigma }
func (n Normal) Mean() float64     { return n.Mu }
