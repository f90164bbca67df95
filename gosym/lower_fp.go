package main

// Bit-precise lowering: floats are IEEE binary64, ints are bit-vectors.

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

type Lowerer interface {
	Bool(t *Term) *Node
	Var(t *Term) *Node
	ParseVar(t *Term, s string) (uint64, bool)
	Logic() string
	IncLogic() string
	Incremental() []string
	Backends() []string
}

func newLowerer(c *Ctx, r *Run) Lowerer {
	if c.mode == MFP {
		return &fpLow{g: NewGraph(), memo: map[int32]*Node{}, c: c}
	}
	return newPoly(c, r.h)
}

const fpSort = "(_ FloatingPoint 11 53)"

type fpLow struct {
	g    *Graph
	c    *Ctx
	memo map[int32]*Node
	uf   bool
}

func (l *fpLow) Logic() string         { return "ALL" }
func (l *fpLow) IncLogic() string      { return "" }
func (l *fpLow) Incremental() []string { return []string{"z3-new", "-in", "-smt2"} }
func (l *fpLow) Backends() []string    { return []string{"z3n", "cvc5"} }

func bvSort(w int) string { return fmt.Sprintf("(_ BitVec %d)", w) }

func bvConst(v uint64, w int) string { return fmt.Sprintf("(_ bv%d %d)", v&mask(uint8(w)), w) }

func fpConst(v float64) string {
	b := math.Float64bits(v)
	if v != v {
		return "(_ NaN 11 53)"
	}
	return fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", b>>63, b>>52&0x7ff, b&(1<<52-1))
}

func (l *fpLow) Bool(t *Term) *Node { return l.low(t) }

// gridVar reports whether an input is given by an integer multiple of 2^grid.
func gridVar(t *Term) bool { return t.sort == SFloat && t.grid > -1000 }

func gridRange(t *Term) (lo, hi int64) {
	s := math.Ldexp(1, t.grid)
	return int64(math.Ceil(t.lo / s)), int64(math.Floor(t.hi / s))
}

func bitsFor(lo, hi *big.Int) int {
	f := func(v *big.Int) int {
		if v.Sign() >= 0 {
			return v.BitLen() + 1
		}
		n := new(big.Int).Not(v)
		return n.BitLen() + 1
	}
	return max(f(lo), f(hi))
}

func (l *fpLow) Var(t *Term) *Node {
	switch t.sort {
	case SBool:
		return l.g.con(t.smt, "Bool")
	case SInt:
		n := l.g.con(t.smt, bvSort(int(t.w)))
		lo, hi := minMaxW(t.w)
		if n.aux == nil && (t.ilo != lo || t.ihi != hi) {
			n.aux = []*Node{l.g.mk("Bool", fmt.Sprintf("(and (bvsle %s %s) (bvsle %s %s))", bvConst(uint64(t.ilo), int(t.w)), n.name, n.name, bvConst(uint64(t.ihi), int(t.w))), n)}
		}
		return n
	}
	if gridVar(t) {
		lo, hi := gridRange(t)
		w := bitsFor(big.NewInt(lo), big.NewInt(hi))
		n := l.g.con(t.smt, bvSort(w))
		if n.aux == nil {
			n.aux = []*Node{l.g.mk("Bool", fmt.Sprintf("(and (bvsle %s %s) (bvsle %s %s))", bvConst(uint64(lo), w), n.name, n.name, bvConst(uint64(hi), w)), n)}
		}
		return n
	}
	n := l.g.con(t.smt, fpSort)
	if n.aux == nil {
		n.aux = []*Node{l.g.mk("Bool", fmt.Sprintf("(and (fp.leq %s %s) (fp.leq %s %s))", fpConst(t.lo), n.name, n.name, fpConst(t.hi)), n)}
	}
	return n
}

func (l *fpLow) ParseVar(t *Term, s string) (uint64, bool) {
	switch t.sort {
	case SBool:
		return b2u(s == "true"), s == "true" || s == "false"
	case SInt:
		v, ok := parseBV(s)
		return v & mask(t.w), ok
	}
	if gridVar(t) {
		v, ok := parseBV(s)
		if !ok {
			return 0, false
		}
		lo, hi := gridRange(t)
		w := bitsFor(big.NewInt(lo), big.NewInt(hi))
		k := sext(v, uint8(w))
		return fBits(math.Ldexp(float64(k), t.grid)), true
	}
	return parseFP(s)
}

func parseBV(s string) (uint64, bool) {
	switch {
	case strings.HasPrefix(s, "#b"):
		v, err := strconv.ParseUint(s[2:], 2, 64)
		return v, err == nil
	case strings.HasPrefix(s, "#x"):
		v, err := strconv.ParseUint(s[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(s, "(_ bv"):
		f := strings.Fields(s[5:])
		v, err := strconv.ParseUint(f[0], 10, 64)
		return v, err == nil
	}
	return 0, false
}

func parseFP(s string) (uint64, bool) {
	switch {
	case strings.HasPrefix(s, "(_ +zero"):
		return 0, true
	case strings.HasPrefix(s, "(_ -zero"):
		return 1 << 63, true
	case strings.HasPrefix(s, "(_ NaN"):
		return fBits(math.NaN()), true
	case strings.HasPrefix(s, "(_ +oo"):
		return fBits(math.Inf(1)), true
	case strings.HasPrefix(s, "(_ -oo"):
		return fBits(math.Inf(-1)), true
	case strings.HasPrefix(s, "(fp "):
		f := strings.Fields(strings.Trim(s, "()"))
		if len(f) != 4 {
			return 0, false
		}
		a, ok1 := parseBV(f[1])
		b, ok2 := parseBV(f[2])
		c, ok3 := parseBV(f[3])
		return a<<63 | b<<52 | c, ok1 && ok2 && ok3
	}
	return 0, false
}

func (l *fpLow) low(t *Term) *Node {
	if n, ok := l.memo[t.id]; ok {
		return n
	}
	n := l.low1(t)
	l.memo[t.id] = n
	return n
}

func (l *fpLow) low1(t *Term) *Node {
	g := l.g
	sort := "Bool"
	switch t.sort {
	case SInt:
		sort = bvSort(int(t.w))
	case SFloat:
		sort = fpSort
	}
	if t.op == OConst {
		switch t.sort {
		case SBool:
			return g.mk("Bool", fmt.Sprint(t.iv == 1))
		case SInt:
			return g.mk(sort, bvConst(t.iv, int(t.w)))
		}
		return g.mk(sort, fpConst(t.fv))
	}
	if t.op == OVar {
		v := l.Var(t)
		if t.sort == SFloat && gridVar(t) {
			return g.mk(fpSort, fmt.Sprintf("(fp.mul RNE ((_ to_fp 11 53) RNE %s) %s)", v.name, fpConst(math.Ldexp(1, t.grid))), v)
		}
		return v
	}
	var a [3]*Node
	var deps []*Node
	for i := 0; i < int(t.n); i++ {
		a[i] = l.low(t.a[i])
		deps = append(deps, a[i])
	}
	e := func(f string, args ...interface{}) *Node { return g.mk(sort, fmt.Sprintf(f, args...), deps...) }
	op2 := func(o string) *Node { return e("(%s %s %s)", o, a[0].name, a[1].name) }
	switch t.op {
	case ONot:
		return e("(not %s)", a[0].name)
	case OAnd:
		return op2("and")
	case OBEq, OIEq:
		return op2("=")
	case OIte:
		return e("(ite %s %s %s)", a[0].name, a[1].name, a[2].name)
	case OIAdd:
		return op2("bvadd")
	case OISub:
		return op2("bvsub")
	case OIMul:
		return op2("bvmul")
	case OISDiv:
		return op2("bvsdiv")
	case OIUDiv:
		return op2("bvudiv")
	case OISRem:
		return op2("bvsrem")
	case OIURem:
		return op2("bvurem")
	case OIAnd:
		return op2("bvand")
	case OIOr:
		return op2("bvor")
	case OIXor:
		return op2("bvxor")
	case OIShl:
		return op2("bvshl")
	case OILshr:
		return op2("bvlshr")
	case OIAshr:
		return op2("bvashr")
	case OINeg:
		return e("(bvneg %s)", a[0].name)
	case OIInv:
		return e("(bvnot %s)", a[0].name)
	case OISLt:
		return op2("bvslt")
	case OIULt:
		return op2("bvult")
	case OIZext:
		return e("((_ zero_extend %d) %s)", t.w-t.a[0].w, a[0].name)
	case OISext:
		return e("((_ sign_extend %d) %s)", t.w-t.a[0].w, a[0].name)
	case OITrunc:
		return e("((_ extract %d 0) %s)", t.w-1, a[0].name)
	case OFAdd:
		return e("(fp.add RNE %s %s)", a[0].name, a[1].name)
	case OFSub:
		return e("(fp.sub RNE %s %s)", a[0].name, a[1].name)
	case OFMul:
		return e("(fp.mul RNE %s %s)", a[0].name, a[1].name)
	case OFDiv:
		return e("(fp.div RNE %s %s)", a[0].name, a[1].name)
	case OFNeg:
		return e("(fp.neg %s)", a[0].name)
	case OFAbs:
		return e("(fp.abs %s)", a[0].name)
	case OFMin:
		return e("(ite (or (fp.lt %s %s) (and (fp.eq %s %s) (fp.isNegative %s))) %s %s)", a[0].name, a[1].name, a[0].name, a[1].name, a[0].name, a[0].name, a[1].name)
	case OFMax:
		return e("(ite (or (fp.lt %s %s) (and (fp.eq %s %s) (fp.isPositive %s))) %s %s)", a[1].name, a[0].name, a[0].name, a[1].name, a[0].name, a[0].name, a[1].name)
	case OFSqrt:
		return e("(fp.sqrt RNE %s)", a[0].name)
	case OFFloor:
		return e("(fp.roundToIntegral RTN %s)", a[0].name)
	case OFCeil:
		return e("(fp.roundToIntegral RTP %s)", a[0].name)
	case OFTrunc:
		return e("(fp.roundToIntegral RTZ %s)", a[0].name)
	case OFLt:
		return op2("fp.lt")
	case OFLe:
		return op2("fp.leq")
	case OFEq:
		return op2("fp.eq")
	case OFNaN:
		return e("(fp.isNaN %s)", a[0].name)
	case OFInf:
		return e("(fp.isInfinite %s)", a[0].name)
	case OI2F:
		return e("((_ to_fp 11 53) RNE %s)", a[0].name)
	case OU2F:
		return e("((_ to_fp_unsigned 11 53) RNE %s)", a[0].name)
	case OF2I:
		if t.name == "u" {
			return e("((_ fp.to_ubv %d) RTZ %s)", t.w, a[0].name)
		}
		return e("((_ fp.to_sbv %d) RTZ %s)", t.w, a[0].name)
	case OFUF, OFMod, OBUF:
		nm := "uf_" + t.name
		if t.op == OFMod {
			nm = "uf_mod"
		}
		if t.op == OBUF && t.name == "signbit" {
			return e("(fp.isNegative %s)", a[0].name)
		}
		var as, ns []string
		for i := 0; i < int(t.n); i++ {
			s := fpSort
			if t.a[i].sort == SInt {
				s = bvSort(int(t.a[i].w))
			} else if t.a[i].sort == SBool {
				s = "Bool"
			}
			as = append(as, s)
			ns = append(ns, a[i].name)
		}
		fd := g.raw(nm, fmt.Sprintf("(declare-fun %s (%s) %s)", nm, strings.Join(as, " "), sort))
		deps = append(deps, fd)
		n := e("(%s %s)", nm, strings.Join(ns, " "))
		if t.sort == SFloat && t.fin {
			n.aux = append(n.aux, g.mk("Bool", fmt.Sprintf("(and (fp.leq %s %s) (fp.leq %s %s))", fpConst(t.lo), n.name, n.name, fpConst(t.hi)), n))
		}
		return n
	}
	unsup("lowering of %s", opNames[t.op])
	return nil
}
