// Package sym is what harnesses are written against. Under gosym every call is given a symbolic meaning; compiled
// natively the calls read the recorded inputs of one run, so that a counterexample is replayed on the real build.
package sym

import (
	"fmt"
	"math"
	"os"
)

var (
	In    map[string]uint64
	Tier  string
	names = map[string]int{}
	Obs   []string
)

// Failed is thrown by a failed assertion, Assumed by a failed assumption.
type Failed string
type Assumed struct{}

func get(base string) uint64 {
	k := names[base]
	names[base] = k + 1
	if k > 0 {
		base = fmt.Sprintf("%s#%d", base, k)
	}
	return In[base]
}

// F is any multiple of 2^grid in [lo,hi].
func F(name string, lo, hi float64, grid int) float64 {
	v := math.Float64frombits(get(name))
	k := v / math.Ldexp(1, grid)
	domain(v >= lo && v <= hi && k == math.Trunc(k))
	return v
}

// domain ends the run as if by a failed assumption if an input is outside its declared domain.
func domain(ok bool) {
	if !ok {
		panic(Assumed{})
	}
}

// Real is any double in [lo,hi]; Any is any finite double.
func Real(name string, lo, hi float64) float64 {
	v := math.Float64frombits(get(name))
	domain(v >= lo && v <= hi)
	return v
}
func Any(name string) float64 { return Real(name, -math.MaxFloat64, math.MaxFloat64) }

// Int is any integer in lo..hi. Choose is one of 0..k-1, decided by forking, so the result is concrete on each path.
func Int(name string, lo, hi int) int {
	v := int(int64(get(name)))
	domain(v >= lo && v <= hi)
	return v
}
func Choose(name string, k int) int { return Int(name, 0, k-1) }
func Bool(name string) bool         { return get(name) != 0 }
func Byte(name, alphabet string) byte {
	b := byte(get(name))
	for i := 0; i < len(alphabet); i++ {
		if alphabet[i] == b {
			return b
		}
	}
	panic(Assumed{})
}

// Bound is a size that differs between the quick and the thorough tier.
func Bound(name string, q, th int) int {
	if Tier == "thorough" {
		return th
	}
	return q
}

func Assume(c bool) {
	if !c {
		panic(Assumed{})
	}
}

func Assert(c bool, msg string) {
	Obs = append(Obs, fmt.Sprintf("assert %s %v", msg, c))
	if !c {
		panic(Failed(msg))
	}
}

// And, Or, Not, Implies, Iff and the Ite family build conditions without branching.
func And(c ...bool) bool {
	for _, b := range c {
		if !b {
			return false
		}
	}
	return true
}
func Or(c ...bool) bool {
	for _, b := range c {
		if b {
			return true
		}
	}
	return false
}
func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteF(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}
func IteI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteB(c bool, a, b bool) bool {
	if c {
		return a
	}
	return b
}

// Panics reports whether f panics.
func Panics(f func()) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case Failed, Assumed:
				panic(e)
			}
			if os.Getenv("SYM_TRACE") != "" {
				fmt.Fprintln(os.Stderr, "recovered:", e)
			}
			r = true
		}
	}()
	f()
	return false
}

// Observe records a value that the interpreter's own concrete runs are compared with.
func Observe(label string, v float64) {
	Obs = append(Obs, fmt.Sprintf("%s=%x", label, math.Float64bits(v)))
}

// SameF reports whether two doubles are identical, sign of zero included.
func SameF(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b)
}
