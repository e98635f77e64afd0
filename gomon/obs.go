package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"sync"
)

var (
	out   = bufio.NewWriter(os.Stdout)
	outMu sync.Mutex
	cnt   = map[string]int64{}
	nviol int
)

type D map[string]any

func count(name string, n int) {
	outMu.Lock()
	cnt[name] += int64(n)
	outMu.Unlock()
}

func key(parts ...any) {
	outMu.Lock()
	fmt.Fprintf(out, "K\t%q\n", fmt.Sprint(parts...))
	outMu.Unlock()
}

func check(ok bool, mech, msg string, d D) bool {
	outMu.Lock()
	defer outMu.Unlock()
	cnt["oracle_evaluations"]++
	if !ok && nviol < 40 {
		nviol++
		for k, v := range d {
			d[k] = fmt.Sprintf("%v", v)
		}
		b, _ := json.Marshal(D{"mechanism": mech, "message": msg, "detail": d})
		fmt.Fprintf(out, "V\t%s\n", b)
		out.Flush()
	}
	return ok
}

func finish() {
	for k, v := range cnt {
		fmt.Fprintf(out, "C\t%s\t%d\n", k, v)
	}
	fmt.Fprintln(out, "END")
	out.Flush()
}

// guard turns a panic of the code under test into a violation.
func guard(mech string, d D, f func()) {
	defer func() {
		if r := recover(); r != nil {
			check(false, "panic:"+mech, fmt.Sprintf("the code panics: %v", r), d)
		}
	}()
	f()
}

func finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }
