package main

import (
	"fmt"
	"math"

	"github.com/google/differential-privacy/go/v3/dpagg"
)

const (
	stDefault = iota
	stMerged
	stSerialized
	stResult
)

type obj struct {
	h       *handle
	state   int
	content []float64
	spec    aggSpec
	name    int
}

// outcome is what an aggregation answers without noise, and the noise it asks for.
func (s aggSpec) outcome(h *handle, ranks []float64) (vals []float64, calls []call, err error) {
	r := &rec{Noise: s.n}
	h.set(r)
	if s.kind == "quantiles" {
		for _, q := range ranks {
			v, err := h.rank(q)
			if err != nil {
				return nil, nil, err
			}
			vals = append(vals, v)
		}
		return vals, r.calls, nil
	}
	v, err := h.result()
	return []float64{v}, r.calls, err
}

func closeTo(a, b, scale float64) bool { return a == b || math.Abs(a-b) <= 1e-9*scale }

// same compares an answer with the answer of a fresh aggregation of the same entries.
func (o *obj) same(g *Gen, d D) {
	ranks := []float64{g.Float64(), .5, g.Float64()}
	ref, err := o.spec.build(o.spec.n)
	if !check(err == nil, "aggregation:error", "valid options are rejected", d) {
		return
	}
	for _, x := range o.content {
		ref.add(x)
	}
	want, wc, err1 := o.spec.outcome(ref, ranks)
	got, gc, err2 := o.spec.outcome(o.h, ranks)
	d["entries"], d["want"], d["got"], d["requests"], d["expected_requests"] = fmt.Sprint(o.content), fmt.Sprint(want), fmt.Sprint(got), fmt.Sprint(gc), fmt.Sprint(wc)
	if !check(err1 == nil && err2 == nil, "lifecycle:no-result", "no result is returned", d) {
		return
	}
	m := math.Max(math.Abs(o.spec.lower), math.Abs(o.spec.upper))
	scale := (1 + m + m*m) * float64(1+len(o.content))
	ok := len(want) == len(got) && len(wc) == len(gc)
	for i := 0; ok && i < len(want); i++ {
		sc := scale
		if o.spec.kind == "stddev" {
			sc = math.Sqrt(scale) * 1e5
		}
		ok = closeTo(want[i], got[i], sc)
	}
	check(ok, "lifecycle:content", "merged or decoded entries are not those contributed", d)
	for i := 0; i < len(wc) && i < len(gc); i++ {
		a, b := wc[i], gc[i]
		if !check(a.l0 == b.l0 && a.lInf == b.lInf && a.eps == b.eps && a.delta == b.delta && closeTo(a.x, b.x, scale), "lifecycle:noise",
			"the noise after merging or decoding differs", d) {
			break
		}
	}
	count("lifecycle_results", 1)
}

// history runs a random sequence of operations on a few aggregations against a model.
func history(g *Gen) {
	s := genAgg(g)
	var objs []*obj
	fresh := func() *obj {
		h, err := s.build(s.n)
		if err != nil {
			return nil
		}
		o := &obj{h: h, spec: s, name: len(objs)}
		objs = append(objs, o)
		return o
	}
	for i := g.between(1, 4); i > 0; i-- {
		if fresh() == nil {
			return
		}
	}
	var log []string
	sig := ""
	d := func() D {
		r := s.d()
		r["history"] = fmt.Sprint(log)
		return r
	}
	expect := func(err error, ok bool, o *obj, what string) bool {
		count("operations", 1)
		if !ok {
			count("refused", 1)
		}
		r := d()
		r["error"] = err
		return check((err == nil) == ok, "lifecycle:"+what, map[bool]string{true: "a permitted operation is refused", false: "a finished aggregation is used again"}[ok], r)
	}
	for step := g.between(5, 30); step > 0; step-- {
		o := objs[g.IntN(len(objs))]
		op := pick(g, "add", "add", "add", "add", "merge", "merge", "encode", "copy", "result", "late", "thresh", "interval")
		if op == "result" && o.state == stDefault && g.coin(.5) {
			op = "add"
		}
		log = append(log, fmt.Sprintf("%s(%d)", op, o.name))
		sig += op[:1] + fmt.Sprint(o.state)
		switch op {
		case "add":
			for k := g.between(1, 6); k > 0; k-- {
				x := s.entry(g)
				if s.kind != "count" && math.IsNaN(x) {
					x = s.lower
				}
				if !expect(o.h.add(x), o.state == stDefault, o, "add") {
					return
				}
				if o.state == stDefault {
					o.content = append(o.content, x)
				}
			}
		case "merge":
			p := objs[g.IntN(len(objs))]
			if p == o {
				continue
			}
			log[len(log)-1] += fmt.Sprintf("<-%d", p.name)
			ok := o.state == stDefault && p.state == stDefault
			if !expect(o.h.merge(p.h), ok, o, "merge") {
				return
			}
			if ok {
				o.content = append(o.content, p.content...)
				p.state = stMerged
				count("merges", 1)
			}
		case "encode", "copy":
			ok := o.state == stDefault || o.state == stSerialized
			b, err := o.h.encode()
			if !expect(err, ok, o, "encode") {
				return
			}
			if !ok {
				continue
			}
			o.state = stSerialized
			q := fresh()
			if q == nil {
				return
			}
			switch g.IntN(3) {
			case 0:
				q.h = s.blank()
			case 1:
				if other := genAgg(g); other.kind == s.kind {
					if h, err := other.build(other.n); err == nil {
						q.h = h
					}
				}
			}
			if g.coin(.3) && q.h.noises()[0] != nil { // whatever was in it is replaced
				q.h.add(s.upper)
			}
			if g.coin(.2) && q.h.noises()[0] != nil {
				if s.kind == "quantiles" {
					q.h.rank(.5)
				} else {
					q.h.result()
				}
			}
			if !expect(q.h.decode(b), true, q, "decode") {
				return
			}
			q.content = append([]float64(nil), o.content...)
			r := d()
			r["noises"], r["decoded"] = fmt.Sprint(o.h.noises()), fmt.Sprint(q.h.noises())
			check(fmt.Sprint(o.h.noises()) == fmt.Sprint(q.h.noises()), "lifecycle:noise-kind", "a decoded aggregation has another noise", r)
			count("decodes", 1)
		case "result":
			if o.state == stDefault {
				o.same(g, d())
				o.state = stResult
				continue
			}
			if s.kind == "quantiles" {
				_, err := o.h.rank(g.Float64())
				if !expect(err, o.state == stResult, o, "result") {
					return
				}
				continue
			}
			_, err := o.h.result()
			if !expect(err, false, o, "result") {
				return
			}
		case "thresh":
			if o.h.thresh == nil {
				continue
			}
			td := g.logu(1e-9, .3)
			v, err := o.h.thresh(td)
			if !expect(err, o.state == stDefault, o, "thresholded") {
				return
			}
			if o.state != stDefault {
				check(v == nil, "lifecycle:thresholded", "a finished aggregation answers", d())
			} else {
				o.state = stResult
			}
		case "late":
			if o.h.pre == nil {
				continue
			}
			v, err := o.h.pre(int64(g.between(0, 20)), g.logu(1e-9, .3))
			if !expect(err, o.state == stDefault, o, "pre-thresholded") {
				return
			}
			if o.state != stDefault {
				check(v == nil, "lifecycle:thresholded", "a finished aggregation answers", d())
			} else {
				o.state = stResult
			}
		case "interval":
			if o.h.interval == nil {
				continue
			}
			_, err := o.h.interval(g.unif(.01, .9))
			if !expect(err, o.state == stResult, o, "interval") {
				return
			}
		}
	}
	for _, o := range objs {
		if o.state == stDefault {
			log = append(log, fmt.Sprintf("final(%d)", o.name))
			o.same(g, d())
		}
	}
	count("histories", 1)
	key(s.kind, sig)
}

// incompatible: aggregations of different parameters cannot be merged, and stay as they are.
func incompatible(g *Gen) {
	s := genAgg(g)
	t := s
	what := pick(g, "eps", "delta", "l0", "lower", "upper", "m", "height", "fan", "noise", "tiny")
	switch what {
	case "eps":
		t.eps *= pick(g, .5, 2, 1.001)
	case "tiny":
		t.eps = math.Nextafter(t.eps, 100)
	case "delta":
		if s.delta == 0 {
			return
		}
		t.delta *= pick(g, .5, 1.5, 1.0001)
	case "l0":
		t.l0 += int64(g.between(1, 3))
	case "lower", "upper":
		if s.kind == "count" {
			return
		}
		if what == "lower" {
			t.lower -= float64(g.between(1, 5))
		} else {
			t.upper += float64(g.between(1, 5))
		}
	case "m":
		if s.kind == "count" || s.kind == "sumInt" || s.kind == "sumFloat" {
			return
		}
		t.m += int64(g.between(1, 3))
	case "height", "fan":
		if s.kind != "quantiles" {
			return
		}
		s.height, s.fan = g.between(1, 3), g.between(2, 6)
		t.height, t.fan = s.height, s.fan
		if what == "height" {
			t.height++
		} else {
			t.fan++
		}
	case "noise":
		u := genAgg(g)
		for (u.delta == 0) == (s.delta == 0) {
			u = genAgg(g)
		}
		t.n, t.delta = u.n, u.delta
	}
	a, err1 := s.build(s.n)
	b, err2 := t.build(t.n)
	if err1 != nil || err2 != nil {
		return
	}
	oa, ob := &obj{h: a, spec: s}, &obj{h: b, spec: t}
	for _, o := range []*obj{oa, ob} {
		for k := g.between(0, 4); k > 0; k-- {
			x := clamp(s.entry(g), -1e6, 1e6)
			if math.IsNaN(x) {
				continue
			}
			o.h.add(x)
			o.content = append(o.content, x)
		}
	}
	d := s.d()
	d["difference"] = what
	d["other"] = fmt.Sprint(t.d())
	count("incompatible", 1)
	key("incompatible", what, s.kind, s.eps, s.delta, s.l0)
	if !check(a.merge(b) != nil, "lifecycle:incompatible", "aggregations of different parameters are merged", d) {
		return
	}
	oa.same(g, d)
	ob.same(g, d)
}

// selLife: the life cycle of partition selections.
func selLife(g *Gen) {
	s := genSel(g)
	s.eps, s.delta = g.logu(.5, 3), g.logu(1e-3, .3)
	a, err := s.build()
	if err != nil {
		return
	}
	hard, _ := a.GetHardThreshold()
	d := s.d()
	n := hard - g.IntN(2)*(hard-1)
	a.IncrementBy(int64(n))
	if g.coin(.5) {
		b, _ := s.build()
		k := g.between(0, n)
		c, _ := s.build()
		b.IncrementBy(int64(k))
		c.IncrementBy(int64(n - k))
		check(b.Merge(c) == nil, "lifecycle:selection-merge", "merging fails", d)
		_, err := c.ShouldKeepPartition()
		check(err != nil && c.Increment() != nil && b.Merge(c) != nil, "lifecycle:selection-merged", "a merged selection is used again", d)
		_, err = c.GobEncode()
		check(err != nil, "lifecycle:selection-merged", "a merged selection is serialized", d)
		a = b
	}
	if g.coin(.5) {
		by, err := a.GobEncode()
		check(err == nil, "lifecycle:selection-encode", "encoding fails", d)
		_, err = a.ShouldKeepPartition()
		check(err != nil && a.Increment() != nil, "lifecycle:selection-serialized", "a serialized selection is used again", d)
		b := new(dpagg.PreAggSelectPartition)
		if g.coin(.3) {
			b, _ = s.build()
		} else if g.coin(.5) {
			if o, err := genSel(g).build(); err == nil {
				o.Increment()
				b = o
			}
		}
		check(b.GobDecode(by) == nil, "lifecycle:selection-decode", "decoding fails", d)
		b2, _ := s.build()
		h2, err := b.GetHardThreshold()
		check(err == nil && h2 == hard && b.Merge(b2) == nil, "lifecycle:selection-decode", "a decoded selection has other parameters", d)
		a = b
	}
	t := s
	switch g.IntN(4) {
	case 0:
		t.eps *= 1.5
	case 1:
		t.delta *= .5
	case 2:
		t.l0++
	case 3:
		t.pre += 2
	}
	if o, err := t.build(); err == nil {
		check(a.Merge(o) != nil, "lifecycle:selection-incompatible", "selections of different parameters are merged", d)
	}
	keep, err := a.ShouldKeepPartition()
	d["units"], d["hard_threshold"] = n, hard
	check(err == nil, "lifecycle:selection", "no decision", d)
	if n == hard && s.l0 <= 3 {
		check(keep, "lifecycle:selection-always", "a partition that is always kept is dropped", d)
	}
	if s.pre > 1 && n < int(s.pre) {
		check(!keep, "lifecycle:selection-never", "a partition below the pre-threshold is kept", d)
	}
	_, err = a.ShouldKeepPartition()
	e2 := a.Increment()
	_, e3 := a.GobEncode()
	check(err != nil && e2 != nil && e3 != nil, "lifecycle:selection-again", "a selection is asked again", d)
	count("selection_histories", 1)
	key("selLife", s.eps, s.delta, s.l0, s.pre, n)
}
