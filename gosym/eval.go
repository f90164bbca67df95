package main

// Native evaluation of terms under a model, and formatting of input values.

import (
	"fmt"
	"math"
	"strings"
	"unsafe"
)

type evalRes struct {
	u  uint64
	ok bool
}

func bitsF(u uint64) float64  { return math.Float64frombits(u) }
func fBits(f float64) uint64  { return math.Float64bits(f) }
func addrOf(p *Value) uintptr { return uintptr(unsafe.Pointer(p)) }

func (x *Exec) evalBool(t *Term, m *Model) (bool, bool) {
	r := x.eval(t, m)
	return r.u != 0, r.ok
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// ufNative gives the real meaning of functions that are uninterpreted for the solver.
var ufNative = map[string]func(a []float64) float64{
	"sin":   func(a []float64) float64 { return math.Sin(a[0]) },
	"cos":   func(a []float64) float64 { return math.Cos(a[0]) },
	"tan":   func(a []float64) float64 { return math.Tan(a[0]) },
	"asin":  func(a []float64) float64 { return math.Asin(a[0]) },
	"acos":  func(a []float64) float64 { return math.Acos(a[0]) },
	"atan":  func(a []float64) float64 { return math.Atan(a[0]) },
	"atan2": func(a []float64) float64 { return math.Atan2(a[0], a[1]) },
	"exp":   func(a []float64) float64 { return math.Exp(a[0]) },
	"log":   func(a []float64) float64 { return math.Log(a[0]) },
	"log2":  func(a []float64) float64 { return math.Log2(a[0]) },
	"log10": func(a []float64) float64 { return math.Log10(a[0]) },
	"pow":   func(a []float64) float64 { return math.Pow(a[0], a[1]) },
	"cbrt":  func(a []float64) float64 { return math.Cbrt(a[0]) },
	"hypot": func(a []float64) float64 { return math.Hypot(a[0], a[1]) },
	"rem":   func(a []float64) float64 { return math.Remainder(a[0], a[1]) },
}

func (x *Exec) eval(t *Term, m *Model) evalRes {
	if t.op == OConst {
		return evalRes{t.iv, true}
	}
	if r, ok := m.memo[t.id]; ok {
		return r
	}
	r := x.eval1(t, m)
	m.memo[t.id] = r
	return r
}

func (x *Exec) eval1(t *Term, m *Model) evalRes {
	if t.op == OVar {
		v, ok := m.vals[t.name]
		if !ok && m.seed > 0 {
			v, ok = guess(t, m.seed), true
			m.vals[t.name] = v
		}
		return evalRes{v, ok}
	}
	bad := evalRes{}
	if t.op == OFUF && strings.HasPrefix(t.name, absPrefix) {
		return x.evalAbs(t, m)
	}
	if t.op == OIte {
		g := x.eval(t.a[0], m)
		if !g.ok {
			return bad
		}
		if g.u != 0 {
			return x.eval(t.a[1], m)
		}
		return x.eval(t.a[2], m)
	}
	if t.op == OAnd {
		a := x.eval(t.a[0], m)
		if a.ok && a.u == 0 {
			return a
		}
		b := x.eval(t.a[1], m)
		if b.ok && b.u == 0 {
			return b
		}
		return evalRes{b2u(a.u != 0 && b.u != 0), a.ok && b.ok}
	}
	var a [3]uint64
	for i := 0; i < int(t.n); i++ {
		r := x.eval(t.a[i], m)
		if !r.ok {
			return bad
		}
		a[i] = r.u
	}
	f := func(i int) float64 { return bitsF(a[i]) }
	F := func(v float64) evalRes { return evalRes{fBits(v), true} }
	B := func(b bool) evalRes { return evalRes{b2u(b), true} }
	w := t.w
	I := func(v uint64) evalRes { return evalRes{v & mask(w), true} }
	sx := func(i int) int64 { return sext(a[i], t.a[i].w) }
	switch t.op {
	case ONot:
		return B(a[0] == 0)
	case OBEq:
		return B(a[0] == a[1])
	case OIAdd, OISub, OIMul, OISDiv, OIUDiv, OISRem, OIURem, OIAnd, OIOr, OIXor, OIShl, OILshr, OIAshr:
		k := x.c.IBin(t.op, x.c.Int(a[0], w), x.c.Int(a[1], w))
		if !k.isConst() {
			return bad
		}
		return I(k.iv)
	case OINeg:
		return I(-a[0])
	case OIInv:
		return I(^a[0])
	case OIEq:
		return B(a[0] == a[1])
	case OISLt:
		return B(sx(0) < sx(1))
	case OIULt:
		return B(a[0] < a[1])
	case OIZext, OITrunc:
		return I(a[0])
	case OISext:
		return I(uint64(sx(0)))
	case OFAdd:
		return F(f(0) + f(1))
	case OFSub:
		return F(f(0) - f(1))
	case OFMul:
		return F(f(0) * f(1))
	case OFDiv:
		return F(f(0) / f(1))
	case OFNeg:
		return F(-f(0))
	case OFAbs:
		return F(math.Abs(f(0)))
	case OFMin:
		return F(math.Min(f(0), f(1)))
	case OFMax:
		return F(math.Max(f(0), f(1)))
	case OFSqrt:
		return F(math.Sqrt(f(0)))
	case OFFloor:
		return F(math.Floor(f(0)))
	case OFCeil:
		return F(math.Ceil(f(0)))
	case OFTrunc:
		return F(math.Trunc(f(0)))
	case OFMod:
		return F(math.Mod(f(0), f(1)))
	case OFLt:
		return B(f(0) < f(1))
	case OFLe:
		return B(f(0) <= f(1))
	case OFEq:
		return B(f(0) == f(1))
	case OFNaN:
		return B(f(0) != f(0))
	case OFInf:
		return B(math.IsInf(f(0), 0))
	case OI2F:
		return F(float64(sx(0)))
	case OU2F:
		return F(float64(a[0]))
	case OF2I:
		if t.name == "u" {
			return I(uint64(f(0)))
		}
		return I(uint64(int64(f(0))))
	case OFUF:
		if fn, ok := ufNative[t.name]; ok {
			var fs []float64
			for i := 0; i < int(t.n); i++ {
				fs = append(fs, f(i))
			}
			return F(fn(fs))
		}
	case OBUF:
		if t.sort == SInt {
			if strings.HasPrefix(t.name, "s2_cover") {
				return x.evalCover(t.name, m)
			}
			if fn, ok := iufNative[t.name]; ok {
				return I(fn(a[:t.n]))
			}
			return bad
		}
		if fn, ok := bufNative[t.name]; ok {
			return B(fn(a[:t.n]))
		}
	}
	return bad
}

var iufNative = map[string]func(a []uint64) uint64{}

var bufNative = map[string]func(a []uint64) bool{
	"signbit": func(a []uint64) bool { return a[0]>>63 == 1 },
}

func fmtVal(t *Term, v uint64) string {
	switch t.sort {
	case SBool:
		return fmt.Sprint(v != 0)
	case SInt:
		return fmt.Sprint(sext(v, t.w))
	}
	return fmt.Sprint(bitsF(v))
}
