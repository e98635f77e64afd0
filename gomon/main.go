package main

import (
	"fmt"
	"os"
	"strconv"

	"a.test/aaa"
	"github.com/google/differential-privacy/go/v3/rand"
)

func main() {
	fam := os.Args[1]
	seed, _ := strconv.ParseUint(os.Args[2], 10, 64)
	n, _ := strconv.Atoi(os.Args[3])
	aaa.Seed(seed*7919 + 13)
	rand.U8()
	if aaa.Handed() == 0 {
		fmt.Println("the randomness is not under control")
		os.Exit(3)
	}
	g := newGen(seed)
	run := func(k int, f func()) {
		for i := 0; i < k; i++ {
			f()
		}
	}
	switch fam {
	case "lawFloat":
		run(n, func() { lawFloat(g, 6000) })
	case "lawInt":
		run(n, func() { lawInt(g, 6000) })
	case "huge":
		run(n, func() { hugeSensitivity(g) })
	case "sigma":
		run(n, func() { sigma(g) })
	case "invalid":
		run(n, func() { invalidArgs(g) })
	case "threshold":
		run(n, func() { threshold(g) })
	case "thresholded":
		run(n, func() { thresholded(g) })
	case "grid":
		run(n, func() { grid(g) })
	case "interval":
		run(n, func() { interval(g) })
	case "exact":
		run(n, func() { exactness(g) })
	case "budget":
		run(n, func() { budget(g) })
	case "quantiles":
		run(n, func() { quantiles(g) })
	case "topLeaf":
		run(n, func() { topLeaf(g) })
	case "options":
		run(n, func() { badOptions(g) })
	case "aggInterval":
		run(n, func() { aggInterval(g, 400) })
	case "selExact":
		run(n, func() { selExact(g) })
	case "selLaw":
		run(n, func() { selLaw(g, 4000) })
	case "hardThreshold":
		run(n, func() { hardThreshold(g) })
	case "selInvalid":
		run(n, func() { selInvalid(g) })
	case "history":
		run(n, func() { history(g) })
	case "incompatible":
		run(n, func() { incompatible(g) })
	case "selLife":
		run(n, func() { selLife(g) })
	case "uniformity":
		run(n, func() { uniformity(g, 20000) })
	case "bounded":
		run(n, func() { bounded(g, 20000) })
	case "parallel":
		run(n, func() { parallel(g, 1500) })
	case "fault":
		run(n, func() { fault(g) })
	case "faultChild":
		faultChild(os.Args[4], os.Args[5])
		return
	case "postprocess":
		run(n, func() { postprocess(g) })
	case "exactQuantiles":
		run(n, func() { exactQuantiles(g) })
	case "customNoise":
		run(n, func() { customNoise(g) })
	case "meanInterval":
		run(n, func() { meanInterval(g) })
	case "compensated":
		run(n, func() { compensated(g) })
	case "invalidLevel":
		run(n, func() { invalidLevel(g) })
	case "coupled":
		run(n, func() { coupled(g) })
	case "nearPower":
		run(n, func() { nearPower(g) })
	case "tails":
		tails(g, n)
	default:
		fmt.Println("unknown family", fam)
		os.Exit(3)
	}
	finish()
}
