package main

// Concretising a counterexample. Where the solver's answer over-approximates the program (uninterpreted functions,
// rounding windows) its model need not be a real run. Inputs near the model are then evaluated on the path's own terms
// with the native meaning of every function; one that satisfies the path and the negated assertion is replayed against
// the real code like any other counterexample. Nothing is ever shown this way, only violations are found.

import (
	"math"
	"time"
)

const (
	concTries  = 6000
	concBudget = 1500 * time.Millisecond
)

func (x *Exec) concretise(neg *Term, base *Model, msg, kind string) bool {
	if x.run.concTime.Load() > int64(20*time.Second) {
		return false
	}
	start := time.Now()
	defer func() { x.run.concTime.Add(int64(time.Since(start))) }()
	var ts []*Term
	for _, n := range x.inputs {
		if t := x.c.vars[n]; t != nil {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return false
	}
	rng := uint64(0x9e3779b97f4a7c15)
	rnd := func(n int) int {
		rng ^= rng << 13
		rng ^= rng >> 7
		rng ^= rng << 17
		return int(rng >> 33 % uint64(n))
	}
	tried := 0
	for i := 0; i < concTries && time.Since(start) < concBudget; i++ {
		m := &Model{vals: map[string]uint64{}, memo: map[int32]evalRes{}}
		keep := 0
		if base != nil {
			keep = i % 4 // how much of the model is kept
		}
		for _, t := range ts {
			var v uint64
			switch {
			case keep > 0 && rnd(4) < keep:
				v = base.vals[t.name]
			case keep > 1 && rnd(2) == 0:
				v = nudge(t, base.vals[t.name], rnd(5)-2)
			default:
				v = guess(t, 4*rnd(1<<20)+[]int{0, 0, 1, 2, 3, 0}[i%6])
			}
			m.vals[t.name] = clampVar(t, v)
		}
		if x.modelHolds(m, neg) {
			if x.candidate(m.vals, msg, kind) {
				return true
			}
			if tried++; tried >= 3 {
				return false
			}
		}
	}
	return false
}

// nudge moves an input by d steps.
func nudge(t *Term, v uint64, d int) uint64 {
	switch t.sort {
	case SInt:
		return (v + uint64(d)) & mask(t.w)
	case SFloat:
		if gridVar(t) {
			return fBits(bitsF(v) + float64(d)*math.Ldexp(1, t.grid))
		}
		return fBits(bitsF(v) * (1 + float64(d)*0x1p-20))
	}
	return v
}
