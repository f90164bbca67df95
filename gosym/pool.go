package main

// Guessed models save solver calls when a branch is obviously possible. They never decide that something cannot happen.

import (
	"hash/fnv"
	"math"
)

const poolSeeds = 48
const poolFound = 48

func mix(s string, k int) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	h.Write([]byte{byte(k), byte(k >> 8), byte(k >> 16)})
	v := h.Sum64()
	v ^= v >> 31
	v *= 0x9e3779b97f4a7c15
	return v ^ v>>29
}

// guess is a value of the input t, reproducible from the seed.
func guess(t *Term, seed int) uint64 {
	h := mix(t.name, seed)
	pick := func(lo, hi int64) int64 {
		n := uint64(hi-lo) + 1
		if n == 0 {
			return lo
		}
		k := h >> 16
		switch seed % 4 {
		case 0:
			return lo + int64(k%n)
		case 1:
			return min(max(int64(k%5)-2, lo), hi)
		case 2:
			c := []int64{lo, hi, 0, lo + int64(mix("a", seed)%n), lo + int64(mix("b", seed)%n)}
			return min(max(c[k%5], lo), hi)
		}
		c := []int64{0, 1 + int64(mix("c", seed)%3), -1 - int64(mix("d", seed)%4)}
		return min(max(c[k%3], lo), hi)
	}
	switch t.sort {
	case SBool:
		return h >> 20 & 1
	case SInt:
		return uint64(pick(t.ilo, t.ihi)) & mask(t.w)
	}
	if gridVar(t) {
		lo, hi := gridRange(t)
		return fBits(float64(pick(lo, hi)) * math.Ldexp(1, t.grid))
	}
	lo, hi := max(t.lo, -1e6), min(t.hi, 1e6)
	if lo >= hi {
		return fBits(t.lo)
	}
	return fBits(min(max(float64(pick(int64(math.Ceil(lo)), int64(math.Floor(hi)))), t.lo), t.hi))
}

// guessed looks for a known model of the path and cond.
func (x *Exec) guessed(cond *Term) *Model {
	if x.pool == nil {
		for i := 1; i <= poolSeeds; i++ {
			x.pool = append(x.pool, &Model{vals: map[string]uint64{}, memo: map[int32]evalRes{}, seed: i})
		}
	}
	for i := len(x.pool) - 1; i >= 0; i-- {
		if m := x.pool[i]; x.modelHolds(m, cond) {
			return m
		}
	}
	return nil
}

func (x *Exec) found(m *Model) {
	if m == nil {
		return
	}
	m.seed = 1000 + len(x.pool)
	if len(x.pool) < poolSeeds+poolFound {
		x.pool = append(x.pool, m)
		return
	}
	x.poolAt++
	x.pool[poolSeeds+x.poolAt%poolFound] = m
}
