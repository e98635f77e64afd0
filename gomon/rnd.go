package main

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"

	"a.test/aaa"

	"github.com/google/differential-privacy/go/v3/dpagg"
	"github.com/google/differential-privacy/go/v3/noise"
	"github.com/google/differential-privacy/go/v3/rand"
)

// chi2ok bounds Pearson's statistic (Laurent-Massart, with margin): false alarm below 1e-12.
func chi2ok(obs []int, p []float64, n int) (float64, bool) {
	x := 0.0
	for i, o := range obs {
		e := p[i] * float64(n)
		x += (float64(o) - e) * (float64(o) - e) / e
	}
	k := float64(len(obs) - 1)
	return x, x < k+2*math.Sqrt(k*40)+2*40
}

func flat(k int) []float64 {
	p := make([]float64, k)
	for i := range p {
		p[i] = 1 / float64(k)
	}
	return p
}

func flatCheck(what string, obs []int, n int, d D) {
	x, ok := chi2ok(obs, flat(len(obs)), n)
	d["chi2"], d["bins"], d["n"] = x, len(obs), n
	check(ok, "random:"+what, "not uniformly distributed", d)
}

func uniformity(g *Gen, n int) {
	short := g.coin(.4)
	aaa.SetShort(short)
	defer aaa.SetShort(false)
	d := func() D { return D{"short_reads": short} }
	if short {
		count("short_reads", 1)
	}
	count("random_draws", 8*n)
	key("uniformity", g.Uint64())
	b := make([]int, 256)
	for i := 0; i < n; i++ {
		b[rand.U8()]++
	}
	flatCheck("u8", b, n, d())
	by := make([][]int, 8)
	for k := range by {
		by[k] = make([]int, 256)
	}
	seen := map[uint64]bool{}
	same := 0
	for i := 0; i < n; i++ {
		v := rand.U64()
		if seen[v] {
			same++
		}
		seen[v] = true
		for k := range by {
			by[k][byte(v>>(8*k))]++
		}
	}
	check(same == 0, "random:repeat", "a 64-bit random number is returned twice", d())
	for k := range by {
		flatCheck("u64", by[k], n, d())
	}
	pairs := make([]int, 256)
	w, prev := 0, 0
	for i := 0; i < n; i++ {
		bit := 0
		if g.coin(.5) {
			if rand.Boolean() {
				bit = 1
			}
		} else if s := rand.Sign(); s == 1 {
			bit = 1
		} else {
			check(s == -1, "random:sign", "neither 1 nor -1", d())
		}
		w = (w<<1 | bit) & 255
		prev++
		if prev%8 == 0 {
			pairs[w]++
		}
	}
	flatCheck("bits", pairs, n/8, d())
	geo := make([]int, 12)
	pg := make([]float64, 12)
	for i := range pg {
		pg[i] = math.Exp2(-float64(i + 1))
	}
	pg[11] *= 2
	for i := 0; i < n; i++ {
		v := rand.Geometric()
		if !check(v >= 1 && v == math.Trunc(v), "random:geometric", "not a positive integer", d()) {
			break
		}
		geo[int(math.Min(v, 12))-1]++
	}
	x, ok := chi2ok(geo, pg, n)
	check(ok, "random:geometric", "not geometrically distributed", D{"chi2": x, "counts": fmt.Sprint(geo), "short": short})
	us, ns := make([]float64, n), make([]float64, n)
	low := make([]int, 16)
	for i := range us {
		us[i] = rand.Uniform()
		_, m := 0, math.Float64bits(us[i])
		low[m>>1&15]++ // the lowest bit is rounded to even
		ns[i] = rand.Normal()
	}
	flatCheck("uniform-low-bits", low, n, d())
	k := ks(us, func(x float64) float64 { return x }, func(x float64) float64 { return x })
	check(k < ksLimit && us[0] > 0 && us[n-1] <= 1, "random:uniform", "not uniformly distributed", D{"ks": k, "min": us[0], "max": us[n-1], "short": short})
	k = ks(ns, phi, phi)
	check(k < ksLimit, "random:normal", "not normally distributed", D{"ks": k, "short": short})
}

func bounded(g *Gen, n int) {
	var m int64
	switch g.IntN(5) {
	case 0:
		m = int64(g.between(1, 40))
	case 1:
		m = int64(g.logu(1, 9e18))
	case 2: // far from a divisor of 2^63
		m = int64(g.unif(1<<61, 9.2e18))
	case 3:
		m = int64(1)<<g.between(0, 62) + int64(g.between(-1, 1))
		if m < 1 {
			m = 1
		}
	case 4:
		m = math.MaxInt64 - int64(g.between(0, 3))
	}
	bins := int(math.Min(float64(m), 48))
	obs, p := make([]int, bins), make([]float64, bins)
	last := make([]int, 2)
	for i := 0; i < n; i++ {
		v := rand.I63n(m)
		if !check(v >= 0 && v < m, "random:range", "outside of the range", D{"n": m, "value": v}) {
			return
		}
		// bin of v: floor(v*bins/m) without overflow
		j := int(float64(v) / float64(m) * float64(bins))
		if m <= 48 {
			j = int(v)
		}
		obs[min(j, bins-1)]++
		last[v&1]++
	}
	for i := range p {
		p[i] = 1 / float64(bins)
	}
	if m > 48 && m < 1<<20 {
		for i := range p {
			p[i] = 0
		}
		for v := int64(0); v < m; v++ {
			j := int(float64(v) / float64(m) * float64(bins))
			p[min(j, bins-1)] += 1 / float64(m)
		}
	}
	count("bounded_draws", n)
	key("bounded", m)
	x, ok := 0.0, true
	if bins > 1 {
		x, ok = chi2ok(obs, p, n)
	}
	check(ok, "random:bounded", "not uniformly distributed", D{"n": m, "chi2": x, "counts": fmt.Sprint(obs)})
	if m > 1000 || m%2 == 0 {
		check(consistent(n, last[0], .5+.5*float64(m%2)/float64(m)), "random:bounded-parity", "not uniformly distributed", D{"n": m, "even": last[0]})
	}
}

// parallel: concurrent use neither races nor hands out the same randomness twice.
func parallel(g *Gen, n int) {
	const workers = 8
	short := g.coin(.3)
	aaa.SetShort(short)
	defer aaa.SetShort(false)
	vals := make([][]uint64, workers)
	bits := make([]int, workers)
	words := make([][256]int, workers)
	normals := make([][]float64, workers)
	laps := make([][]float64, workers)
	counts := make([][]float64, workers)
	eps := g.logu(.1, 5)
	sc := 1 / eps
	sig := noise.SigmaForGaussian(1, 1, eps, 1e-5)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		seed := g.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := newGen(seed)
			word, nb := 0, 0
			for i := 0; i < n; i++ {
				switch r.IntN(5) {
				case 0:
					vals[w] = append(vals[w], rand.U64())
				case 1:
					b := 0
					if rand.Boolean() {
						b = 1
					}
					bits[w]++
					word = (word<<1 | b) & 255
					if nb++; nb%8 == 0 {
						words[w][word]++
					}
				case 2:
					v, _ := noise.Gaussian().AddNoiseFloat64(0, 1, 1, eps, 1e-5)
					normals[w] = append(normals[w], v/sig)
				case 3:
					v, _ := noise.Laplace().AddNoiseFloat64(0, 1, 1, eps, 0)
					laps[w] = append(laps[w], v/sc)
				case 4:
					c, err := dpagg.NewCount(&dpagg.CountOptions{Epsilon: eps, MaxPartitionsContributed: 1, Noise: noise.Laplace()})
					if err == nil {
						c.IncrementBy(100)
						v, _ := c.Result()
						counts[w] = append(counts[w], float64(v-100))
					}
				}
			}
		}()
	}
	wg.Wait()
	var all []uint64
	var nn, ll, cc []float64
	tot := make([]int, 256)
	for w := 0; w < workers; w++ {
		all = append(all, vals[w]...)
		nn = append(nn, normals[w]...)
		ll = append(ll, laps[w]...)
		cc = append(cc, counts[w]...)
		for i, k := range words[w] {
			tot[i] += k
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	dup := 0
	for i := 1; i < len(all); i++ {
		if all[i] == all[i-1] {
			dup++
		}
	}
	d := func() D { return D{"workers": workers, "n": n, "duplicates": dup, "epsilon": eps, "short_reads": short} }
	count("parallel_draws", workers*n)
	key("parallel", g.Uint64())
	check(dup == 0, "random:parallel-repeat", "two goroutines receive the same random number", d())
	s := 0
	for _, k := range tot {
		s += k
	}
	flatCheck("parallel-bits", tot, s, d())
	k := ks(ll, func(x float64) float64 { return laplaceCDF(x, 1) }, func(x float64) float64 { return laplaceCDF(x, 1) })
	check(k < ksLimit, "random:parallel-laplace", "the noise of concurrent requests does not follow its law", D{"ks": k})
	// Noise is on a grid far finer than its scale: equal values are reused randomness.
	dup = 0
	for i := 1; i < len(ll); i++ {
		if ll[i] == ll[i-1] && ll[i] != 0 {
			dup++
		}
	}
	check(dup <= 2, "random:parallel-noise-repeat", "concurrent requests receive the same noise", d())
	k = ks(nn, phi, phi)
	check(k < ksLimit+3e-4*math.Sqrt(float64(len(nn))), "random:parallel-gauss", "the noise of concurrent requests does not follow its law", D{"ks": k})
	k = ks(cc, func(x float64) float64 { return laplaceCDF(x+.5, sc) }, func(x float64) float64 { return laplaceCDF(x-.5, sc) })
	check(k < ksLimit, "random:parallel-count", "concurrent counts do not follow their law", D{"ks": k, "epsilon": eps})
}

// fault: without randomness nothing is returned.
func fault(g *Gen) {
	what := pick(g, "u8", "u64", "i63n", "uniform", "geometric", "boolean", "normal", "laplace", "gauss", "select", "count")
	mode := pick(g, "error", "eof", "partial")
	cmd := exec.Command(os.Args[0], "faultChild", fmt.Sprint(g.IntN(1000)), "1", what, mode)
	out, err := cmd.Output()
	s := string(out)
	d := D{"what": what, "mode": mode, "output": s, "error": err}
	if !check(strings.Contains(s, "BEFORE"), "random:child", "the child does not start", d) {
		return
	}
	count("faults", 1)
	key("fault", what, mode)
	check(err != nil && !strings.Contains(s, "RETURNED"), "random:fault", "a value is returned although the source of randomness fails", d)
}

func faultChild(what, mode string) {
	use := func() any {
		switch what {
		case "u8":
			return rand.U8()
		case "u64":
			return rand.U64()
		case "i63n":
			return rand.I63n(1000)
		case "uniform":
			return rand.Uniform()
		case "geometric":
			return rand.Geometric()
		case "boolean":
			return rand.Boolean()
		case "normal":
			return rand.Normal()
		case "laplace":
			v, err := noise.Laplace().AddNoiseFloat64(0, 1, 1, 1, 0)
			if err != nil {
				os.Exit(1)
			}
			return v
		case "gauss":
			v, err := noise.Gaussian().AddNoiseFloat64(0, 1, 1, 1, 1e-5)
			if err != nil {
				os.Exit(1)
			}
			return v
		case "select":
			p, _ := dpagg.NewPreAggSelectPartition(&dpagg.PreAggSelectPartitionOptions{Epsilon: 1, Delta: 1e-3, MaxPartitionsContributed: 1})
			p.IncrementBy(5)
			v, err := p.ShouldKeepPartition()
			if err != nil {
				os.Exit(1)
			}
			return v
		}
		c, _ := dpagg.NewCount(&dpagg.CountOptions{Epsilon: 1, MaxPartitionsContributed: 1})
		v, err := c.Result()
		if err != nil {
			os.Exit(1)
		}
		return v
	}
	use()
	// The buffered bytes are used up first: a block is read, and emptied.
	n0 := aaa.Handed()
	for aaa.Handed() == n0 {
		rand.U8()
	}
	for k := aaa.Handed() - n0 - 1; k > 0; k-- {
		rand.U8()
	}
	aaa.Fail(mode)
	fmt.Println("BEFORE")
	for i := 0; i < 60; i++ {
		use()
	}
	fmt.Println("RETURNED")
}
