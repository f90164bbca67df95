package main

// Lowering of floats through exact quotients with error bounds.
//
// Every float term is represented as N/D * 2^g with integer (or, for mode real, real) expressions N and D > 0, and an
// absolute bound eps on the distance between the float the program computes and that quotient. Inputs on a grid and sums
// and products of them that fit 53 bits are exact (eps = 0). Comparisons are decided exactly where the distance of
// distinct quotients exceeds eps; inside the remaining window the outcome is left to the solver, which over-approximates
// the program.

import (
	"fmt"
	"math"
	"math/big"
	"strings"
)

// NX is an integer expression with bounds (real-valued in mode real).
type NX struct {
	n      *Node // nil: constant lo
	lo, hi *big.Int
}

type polyF struct {
	N, D NX
	g    int
	eps  float64
	cr   bool // the float is the correctly rounded quotient
	cont bool // N ranges over reals, so there is no smallest difference
}

type polyLow struct {
	c        *Ctx
	g        *Graph
	bv       bool
	real     bool
	ord      bool
	fm       map[int32]*polyF
	bm       map[int32]*Node
	im       map[int32]*NX
	om       map[int32]*Node
	ibm      map[int32]*Node
	pairs    map[[2]int32][2]*Node
	sqrtBits int
	ufBits   int
	ufApps   map[string][]*Term
	sqrts    []*Term
	polys    map[*Node]polynomial
	abounds  map[*Node]NX
	byPoly   map[string]NX
	signs    map[string]signNodes
	signInfo map[*Node]signInfo
	relInfo  map[*Node]relInfo
	iteInfo  map[*Node]iteInfo
	prods    []prodInfo
}

func newPoly(c *Ctx, h *Harness) *polyLow {
	return &polyLow{c: c, g: NewGraph(), bv: c.mode == MBV, real: c.mode == MReal, ord: c.mode == MOrd,
		fm: map[int32]*polyF{}, bm: map[int32]*Node{}, im: map[int32]*NX{}, om: map[int32]*Node{}, ibm: map[int32]*Node{},
		pairs: map[[2]int32][2]*Node{}, sqrtBits: h.sqrtBits, ufBits: h.ufBits, ufApps: map[string][]*Term{},
		polys: map[*Node]polynomial{}, abounds: map[*Node]NX{}, byPoly: map[string]NX{}, signs: map[string]signNodes{},
		signInfo: map[*Node]signInfo{}, relInfo: map[*Node]relInfo{}, iteInfo: map[*Node]iteInfo{}}
}

func (l *polyLow) Logic() string {
	switch {
	case l.bv:
		return "QF_BV"
	case l.ord:
		return "QF_LRA"
	case l.real:
		return "QF_NRA"
	}
	return "QF_NIA"
}
func (l *polyLow) IncLogic() string {
	if l.bv {
		return "QF_BV"
	}
	return ""
}
func (l *polyLow) Incremental() []string { return []string{"z3-new", "-in", "-smt2"} }
func (l *polyLow) Backends() []string {
	switch {
	case l.bv:
		return []string{"z3n", "cvc5bv"}
	}
	return []string{"z3n", "cvc5"}
}

func bi(v int64) *big.Int { return big.NewInt(v) }
func pow2(k int) *big.Int { return new(big.Int).Lsh(bi(1), uint(k)) }

func (l *polyLow) sort(lo, hi *big.Int) string {
	switch {
	case l.bv:
		return bvSort(bitsFor(lo, hi))
	case l.real || l.ord:
		return "Real"
	}
	return "Int"
}

func (l *polyLow) cst(v *big.Int) NX { return NX{nil, v, v} }
func (l *polyLow) ci(v int64) NX     { return l.cst(bi(v)) }

func (x NX) isC() bool { return x.n == nil }
func (x NX) w() int    { return bitsFor(x.lo, x.hi) }

func smtInt(v *big.Int, real bool) string {
	s := new(big.Int).Abs(v).String()
	if real {
		s += ".0"
	}
	if v.Sign() < 0 {
		return "(- " + s + ")"
	}
	return s
}

// txt gives the SMT text of x; in bv mode at width w.
func (l *polyLow) txt(x NX, w int) (string, []*Node) {
	if x.isC() {
		if l.bv {
			v := new(big.Int).And(x.lo, new(big.Int).Sub(pow2(w), bi(1)))
			return fmt.Sprintf("(_ bv%s %d)", v, w), nil
		}
		return smtInt(x.lo, l.real || l.ord), nil
	}
	if l.bv {
		k := x.w()
		switch {
		case k < w:
			return fmt.Sprintf("((_ sign_extend %d) %s)", w-k, x.n.name), []*Node{x.n}
		case k > w:
			return fmt.Sprintf("((_ extract %d 0) %s)", w-1, x.n.name), []*Node{x.n}
		}
	}
	return x.n.name, []*Node{x.n}
}

func (l *polyLow) mkN(lo, hi *big.Int, op string, as ...NX) NX {
	if lo.Cmp(hi) == 0 && !l.real {
		return l.cst(lo)
	}
	w := bitsFor(lo, hi)
	var parts []string
	var deps []*Node
	for _, a := range as {
		t, d := l.txt(a, w)
		parts = append(parts, t)
		deps = append(deps, d...)
	}
	n := l.g.mk(l.sort(lo, hi), "("+op+" "+strings.Join(parts, " ")+")", deps...)
	return NX{n, lo, hi}
}

func (l *polyLow) op(bv, other string) string {
	if l.bv {
		return bv
	}
	return other
}

func (l *polyLow) add(a, b NX) NX {
	if a.isC() && b.isC() {
		return l.cst(new(big.Int).Add(a.lo, b.lo))
	}
	if a.isC() && a.lo.Sign() == 0 {
		return b
	}
	if b.isC() && b.lo.Sign() == 0 {
		return a
	}
	return l.norm(polyAdd(l.polyOf(a), l.polyOf(b), 1), new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi), func(lo, hi *big.Int) NX {
		return l.mkN(lo, hi, l.op("bvadd", "+"), a, b)
	})
}

func (l *polyLow) sub(a, b NX) NX {
	if a.isC() && b.isC() {
		return l.cst(new(big.Int).Sub(a.lo, b.lo))
	}
	if b.isC() && b.lo.Sign() == 0 {
		return a
	}
	if !a.isC() && a.n == b.n {
		return l.ci(0)
	}
	return l.norm(polyAdd(l.polyOf(a), l.polyOf(b), -1), new(big.Int).Sub(a.lo, b.hi), new(big.Int).Sub(a.hi, b.lo), func(lo, hi *big.Int) NX {
		return l.mkN(lo, hi, l.op("bvsub", "-"), a, b)
	})
}

func (l *polyLow) neg(a NX) NX {
	if a.isC() {
		return l.cst(new(big.Int).Neg(a.lo))
	}
	return l.norm(polyAdd(polynomial{}, l.polyOf(a), -1), new(big.Int).Neg(a.hi), new(big.Int).Neg(a.lo), func(lo, hi *big.Int) NX {
		return l.mkN(lo, hi, l.op("bvneg", "-"), a)
	})
}

func (l *polyLow) mul(a, b NX) NX {
	if a.isC() && b.isC() {
		return l.cst(new(big.Int).Mul(a.lo, b.lo))
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if b.lo.Sign() == 0 {
			return b
		}
		if b.lo.IsInt64() && b.lo.Int64() == 1 {
			return a
		}
		if b.lo.IsInt64() && b.lo.Int64() == -1 {
			return l.neg(a)
		}
	}
	var lo, hi *big.Int
	for _, p := range []*big.Int{a.lo, a.hi} {
		for _, q := range []*big.Int{b.lo, b.hi} {
			v := new(big.Int).Mul(p, q)
			if lo == nil || v.Cmp(lo) < 0 {
				lo = v
			}
			if hi == nil || v.Cmp(hi) > 0 {
				hi = v
			}
		}
	}
	if !a.isC() && a.n == b.n {
		lo = bi(0)
	}
	if !b.isC() && a.n.id > b.n.id {
		a, b = b, a
	}
	pa, pb := l.polyOf(a), l.polyOf(b)
	pm := polyMul(pa, pb)
	if l.bv && pm != nil && !a.isC() && !b.isC() && len(pa)+len(pb) > 2 && len(l.prods) < 4000 {
		l.prods = append(l.prods, prodInfo{pa, pb, pm})
	}
	return l.norm(pm, lo, hi, func(lo, hi *big.Int) NX {
		return l.mkN(lo, hi, l.op("bvmul", "*"), a, b)
	})
}

func (l *polyLow) ite(g *Node, a, b NX) NX {
	if isT(g) {
		return a
	}
	if isF(g) {
		return b
	}
	if a.n == b.n && a.lo.Cmp(b.lo) == 0 && a.hi.Cmp(b.hi) == 0 {
		return a
	}
	lo, hi := a.lo, a.hi
	if b.lo.Cmp(lo) < 0 {
		lo = b.lo
	}
	if b.hi.Cmp(hi) > 0 {
		hi = b.hi
	}
	w := bitsFor(lo, hi)
	ta, da := l.txt(a, w)
	tb, db := l.txt(b, w)
	deps := append([]*Node{g}, da...)
	n := l.g.mk(l.sort(lo, hi), fmt.Sprintf("(ite %s %s %s)", g.name, ta, tb), append(deps, db...)...)
	l.iteInfo[n] = iteInfo{g, a, b}
	return NX{n, lo, hi}
}

func (l *polyLow) boolC(b bool) *Node { return l.g.mk("Bool", fmt.Sprint(b)) }

func (l *polyLow) rel(op, bvop string, a, b NX) *Node {
	w := max(a.w(), b.w())
	ta, da := l.txt(a, w)
	tb, db := l.txt(b, w)
	o := op
	if l.bv {
		o = bvop
	}
	n := l.g.mk("Bool", fmt.Sprintf("(%s %s %s)", o, ta, tb), append(da, db...)...)
	l.relInfo[n] = relInfo{op, a, b}
	return n
}

func (l *polyLow) lt(a, b NX) *Node {
	if a.hi.Cmp(b.lo) < 0 {
		return l.boolC(true)
	}
	if a.lo.Cmp(b.hi) >= 0 {
		return l.boolC(false)
	}
	n, _ := l.sign(a, b)
	return n
}
func (l *polyLow) le(a, b NX) *Node {
	if a.hi.Cmp(b.lo) <= 0 {
		return l.boolC(true)
	}
	if a.lo.Cmp(b.hi) > 0 {
		return l.boolC(false)
	}
	n, z := l.sign(a, b)
	return l.bop("or", n, z)
}
func (l *polyLow) eq(a, b NX) *Node {
	if a.isC() && b.isC() {
		return l.boolC(a.lo.Cmp(b.lo) == 0)
	}
	if a.n == b.n && !a.isC() {
		return l.boolC(true)
	}
	if a.hi.Cmp(b.lo) < 0 || b.hi.Cmp(a.lo) < 0 {
		return l.boolC(false)
	}
	_, z := l.sign(a, b)
	return z
}

func isT(n *Node) bool { return n.expr == "true" }
func isF(n *Node) bool { return n.expr == "false" }

func (l *polyLow) bop(op string, as ...*Node) *Node {
	switch op {
	case "not":
		if isT(as[0]) || isF(as[0]) {
			return l.boolC(isF(as[0]))
		}
	case "and", "or":
		unit, zero := isT, isF
		if op == "or" {
			unit, zero = isF, isT
		}
		var rest []*Node
		for _, a := range as {
			if zero(a) {
				return a
			}
			if !unit(a) {
				rest = append(rest, a)
			}
		}
		if len(rest) == 0 {
			return l.boolC(op == "and")
		}
		if len(rest) == 1 {
			return rest[0]
		}
		as = rest
	case "=>":
		if len(as) == 2 {
			if isF(as[0]) || isT(as[1]) {
				return l.boolC(true)
			}
			if isT(as[0]) {
				return as[1]
			}
		}
	case "ite":
		if isT(as[0]) || as[1] == as[2] {
			return as[1]
		}
		if isF(as[0]) {
			return as[2]
		}
	}
	var p []string
	for _, a := range as {
		p = append(p, a.name)
	}
	return l.g.mk("Bool", "("+op+" "+strings.Join(p, " ")+")", as...)
}

// fresh makes a new integer unknown with bounds; facts are attached to it.
func (l *polyLow) fresh(name string, lo, hi *big.Int) NX {
	if lo.Cmp(hi) == 0 && !l.real {
		return l.cst(lo)
	}
	n := l.g.con(name, l.sort(lo, hi))
	x := NX{n, lo, hi}
	if n.aux == nil {
		n.aux = []*Node{l.bop("and", l.leRaw(l.cst(lo), x), l.leRaw(x, l.cst(hi)))}
	}
	return x
}

func (l *polyLow) leRaw(a, b NX) *Node { return l.rel("<=", "bvsle", a, b) }

// ---------- floats

func up(v float64) float64 {
	if v == 0 {
		return 0
	}
	return v * (1 + 1e-12)
}

// shift multiplies by 2^k, k >= 0.
func (l *polyLow) shift(a NX, k int) NX {
	if k == 0 {
		return a
	}
	return l.mul(a, l.cst(pow2(k)))
}

// half ulp bound for values of magnitude at most m
func rnd(m float64) float64 {
	if m == 0 {
		return 0
	}
	return up(m*0x1p-53 + 0x1p-1074)
}

func (l *polyLow) mag(f *polyF) float64 {
	n := new(big.Int).Abs(f.N.lo)
	if m := new(big.Int).Abs(f.N.hi); m.Cmp(n) > 0 {
		n = m
	}
	d := f.D.lo
	q := new(big.Float).Quo(new(big.Float).SetInt(n), new(big.Float).SetInt(d))
	v, _ := new(big.Float).SetMantExp(q, f.g).Float64()
	return up(v)
}

// fmag bounds the magnitude of the term's value.
func (l *polyLow) fmag(t *Term, f *polyF) float64 {
	m := l.mag(f)
	if t.fin {
		m = math.Min(m, maxabs(t))
	}
	return m
}

func (l *polyLow) fl(t *Term) *polyF {
	if f, ok := l.fm[t.id]; ok {
		return f
	}
	f := l.fl1(t)
	// use the term's bounds to tighten an integer numerator
	if f.D.isC() && f.D.lo.IsInt64() && f.D.lo.Int64() == 1 && t.fin && !f.cont && !f.N.isC() {
		if f.g < 0 && f.g > -900 || f.g >= 0 && f.g < 900 {
			s := math.Ldexp(1, f.g)
			slack := f.eps/s + 1
			if a, b := t.lo/s, t.hi/s; math.Abs(a) < 1e300 && math.Abs(b) < 1e300 {
				lo := toBig(math.Floor(a - slack*1.001 + 0.0))
				hi := toBig(math.Ceil(b + slack*1.001))
				if f.eps == 0 {
					lo, hi = toBig(math.Ceil(a)), toBig(math.Floor(b))
					if math.Abs(a) > 1e15 || math.Abs(b) > 1e15 {
						lo, hi = f.N.lo, f.N.hi
					}
				}
				f = l.tighten(f, lo, hi)
			}
		}
	}
	l.fm[t.id] = f
	return f
}

func toBig(v float64) *big.Int {
	b, _ := new(big.Float).SetFloat64(v).Int(nil)
	return b
}

func (l *polyLow) tighten(f *polyF, lo, hi *big.Int) *polyF {
	nlo, nhi := f.N.lo, f.N.hi
	if lo.Cmp(nlo) > 0 {
		nlo = lo
	}
	if hi.Cmp(nhi) < 0 {
		nhi = hi
	}
	if nlo.Cmp(nhi) > 0 || (nlo == f.N.lo && nhi == f.N.hi) {
		return f
	}
	r := *f
	if l.bv {
		w := bitsFor(nlo, nhi)
		if w < f.N.w() {
			t, d := l.txt(f.N, w)
			r.N = l.alias(f.N, NX{l.g.mk(bvSort(w), t, d...), nlo, nhi})
			return &r
		}
		// keep the node's width: bounds may only shrink if the width stays
		if w == f.N.w() {
			r.N = NX{f.N.n, nlo, nhi}
		}
		return &r
	}
	r.N = NX{f.N.n, nlo, nhi}
	return &r
}

func one() *big.Int { return bi(1) }

func (l *polyLow) fconst(v float64) *polyF {
	if v != v || math.IsInf(v, 0) {
		unsup("non-finite value in this lowering")
	}
	if v == 0 {
		return &polyF{N: l.ci(0), D: l.ci(1), g: 0, cr: true}
	}
	g := dyadic(v)
	m := math.Ldexp(v, -g) // |m| < 2^53, exact
	return &polyF{N: l.cst(toBig(m)), D: l.ci(1), g: g, cr: true}
}

// align brings two quotients to the same scale.
func (l *polyLow) align(a, b *polyF) (NX, NX, int) {
	if a.N.isC() && a.N.lo.Sign() == 0 {
		return a.N, b.N, b.g
	}
	if b.N.isC() && b.N.lo.Sign() == 0 {
		return a.N, b.N, a.g
	}
	g := min(a.g, b.g)
	if a.g-g > 1100 || b.g-g > 1100 {
		unsup("scales too far apart")
	}
	return l.shift(a.N, a.g-g), l.shift(b.N, b.g-g), g
}

// common gives factors ma and mb, and a common multiple D = a*ma = b*mb of two denominators.
func (l *polyLow) common(a, b NX) (ma, mb, D NX) {
	if sameNX(a, b) {
		return l.ci(1), l.ci(1), a
	}
	if !l.real || a.isC() && b.isC() {
		return b, a, l.mul(a, b)
	}
	pa, pb := l.polyOf(a), l.polyOf(b)
	if len(pa) != 1 || len(pb) != 1 {
		return b, a, l.mul(a, b)
	}
	var xa, xb monomial
	for _, m := range pa {
		xa = m
	}
	for _, m := range pb {
		xb = m
	}
	if xa.c.Sign() <= 0 || xb.c.Sign() <= 0 {
		return b, a, l.mul(a, b)
	}
	g := new(big.Int).GCD(nil, nil, xa.c, xb.c)
	ma, mb = l.cst(new(big.Int).Quo(xb.c, g)), l.cst(new(big.Int).Quo(xa.c, g))
	i, j := 0, 0
	for i < len(xa.at) || j < len(xb.at) {
		switch {
		case j == len(xb.at) || i < len(xa.at) && xa.at[i].id < xb.at[j].id:
			mb = l.mul(mb, l.abounds[xa.at[i]])
			i++
		case i == len(xa.at) || xb.at[j].id < xa.at[i].id:
			ma = l.mul(ma, l.abounds[xb.at[j]])
			j++
		default:
			i, j = i+1, j+1
		}
	}
	// a monomial of positive value may have negative factors
	if !ma.isC() && ma.lo.Sign() < 0 || !mb.isC() && mb.lo.Sign() < 0 {
		return b, a, l.mul(a, b)
	}
	return ma, mb, l.mul(a, ma)
}

func sameNX(a, b NX) bool {
	return a.n == b.n && a.lo.Cmp(b.lo) == 0 && a.hi.Cmp(b.hi) == 0
}

func isOne(a NX) bool { return a.isC() && a.lo.IsInt64() && a.lo.Int64() == 1 }

// finish computes the rounding status of an operation whose exact result on the operand quotients is r.
func (l *polyLow) finish(t *Term, r *polyF, opEps float64, exactIn bool) *polyF {
	if exactIn && opEps == 0 {
		if isOne(r.D) && r.g >= -1074 && !r.cont {
			m := new(big.Int).Abs(r.N.lo)
			if k := new(big.Int).Abs(r.N.hi); k.Cmp(m) > 0 {
				m = k
			}
			if m.Cmp(pow2(53)) <= 0 {
				r.eps, r.cr = 0, true
				return r
			}
		}
		if isOne(r.D) && t.grid > -1000 && t.fin && maxabs(t) <= math.Ldexp(1, 53+t.grid) {
			r.eps, r.cr = 0, true
			return r
		}
		r.cr = true
	} else {
		r.cr = false
	}
	r.eps = up(opEps + rnd(l.fmag(t, r)+opEps))
	if math.IsInf(r.eps, 0) || r.eps != r.eps {
		unsup("unbounded rounding error")
	}
	return r
}

func (l *polyLow) fl1(t *Term) *polyF {
	c := l.c
	switch t.op {
	case OConst:
		return l.fconst(t.fv)
	case OVar:
		if gridVar(t) {
			lo, hi := gridRange(t)
			return &polyF{N: l.fresh(t.smt, bi(lo), bi(hi)), D: l.ci(1), g: t.grid, cr: true}
		}
		if l.real {
			n := l.fresh(t.smt, toBig(math.Floor(t.lo)), toBig(math.Ceil(t.hi)))
			return &polyF{N: n, D: l.ci(1), g: 0, cr: true, cont: true}
		}
		unsup("input %s without a grid", t.name)
	case OIte:
		g := l.Bool(t.a[0])
		if isT(g) {
			return l.fl(t.a[1])
		}
		if isF(g) {
			return l.fl(t.a[2])
		}
		a, b := l.fl(t.a[1]), l.fl(t.a[2])
		na, nb, gg := l.align(a, b)
		return &polyF{N: l.ite(g, na, nb), D: l.ite(g, a.D, b.D), g: gg, eps: math.Max(a.eps, b.eps), cr: a.cr && b.cr, cont: a.cont || b.cont}
	case OFMin, OFMax:
		lt := c.FLt(t.a[0], t.a[1])
		p, q := t.a[0], t.a[1]
		if t.op == OFMax {
			p, q = q, p
		}
		return l.fl(c.mk(termKey{op: OIte, sort: SFloat}, []*Term{lt, p, q}))
	case OFAdd, OFSub:
		a, b := l.fl(t.a[0]), l.fl(t.a[1])
		na, nb, g := l.align(a, b)
		r := &polyF{g: g, cont: a.cont || b.cont}
		f := l.add
		if t.op == OFSub {
			f = l.sub
		}
		ma, mb, D := l.common(a.D, b.D)
		r.N, r.D = f(l.mul(na, ma), l.mul(nb, mb)), D
		return l.finish(t, r, a.eps+b.eps, a.eps == 0 && b.eps == 0)
	case OFMul:
		a, b := l.fl(t.a[0]), l.fl(t.a[1])
		r := &polyF{N: l.mul(a.N, b.N), D: l.mul(a.D, b.D), g: a.g + b.g, cont: a.cont || b.cont}
		e := 0.0
		if a.eps != 0 || b.eps != 0 {
			e = up(l.fmag(t.a[0], a)*b.eps + l.fmag(t.a[1], b)*a.eps + a.eps*b.eps)
		}
		if e == 0 && (a.eps != 0 || b.eps != 0) {
			e = 0
		}
		return l.finish(t, r, e, a.eps == 0 && b.eps == 0)
	case OFDiv:
		a, b := l.fl(t.a[0]), l.fl(t.a[1])
		// D of the result must be positive
		num, den := l.mul(a.N, b.D), l.mul(a.D, b.N)
		if den.hi.Sign() < 0 || (den.hi.Sign() == 0) {
			num, den = l.neg(num), l.neg(den)
		} else if den.lo.Sign() < 0 {
			s := l.lt(den, l.ci(0))
			n0, d0 := num, den
			num, den = l.ite(s, l.neg(num), num), l.abs(den)
			if l.real {
				// for normal forms, both carry the sign of the denominator as a factor
				sg := l.ite(s, l.ci(-1), l.ci(1))
				sg.n.unit = true
				l.signed(sg, n0, num)
				l.signed(sg, d0, den)
			}
		}
		if den.lo.Sign() <= 0 {
			// division by zero was excluded before; keep the quotient well-formed
			d := den
			if d.hi.Sign() <= 0 {
				unsup("division by zero")
			}
			if !b.cont {
				z := l.eq(d, l.ci(0))
				d = l.ite(z, l.ci(1), d)
				den = NX{d.n, bi(1), d.hi}
				den = l.narrow(d, bi(1), d.hi)
			} else if !(t.a[1].fin && (t.a[1].lo > 0 || t.a[1].hi < 0)) {
				unsup("division by a continuous value that may be near zero")
			}
		}
		r := &polyF{N: num, D: den, g: a.g - b.g, cont: a.cont || b.cont}
		e := 0.0
		if a.eps != 0 || b.eps != 0 {
			bm := l.minMag(t.a[1], b)
			if bm <= b.eps {
				unsup("division by an inexact value that may be near zero")
			}
			q := l.fmag(t, r)
			e = up((a.eps + q*b.eps) / (bm - b.eps))
		}
		return l.finish(t, r, e, a.eps == 0 && b.eps == 0)
	case OFNeg:
		a := *l.fl(t.a[0])
		a.N = l.neg(a.N)
		return &a
	case OFAbs:
		a := *l.fl(t.a[0])
		a.N = l.abs(a.N)
		return &a
	case OFSqrt:
		return l.sqrt(t)
	case OFFloor, OFCeil, OFTrunc:
		return &polyF{N: l.toInt(t.op, t.a[0], fmt.Sprintf("q%d", t.id)), D: l.ci(1), g: 0, cr: true}
	case OFMod:
		a, b := l.fl(t.a[0]), l.fl(t.a[1])
		if a.eps == 0 && b.N.isC() && b.N.lo.Sign() != 0 && isOne(a.D) && isOne(b.D) && !a.cont {
			na, nb, g := l.align(a, b)
			m := new(big.Int).Abs(nb.lo)
			qlo, qhi := new(big.Int).Quo(na.lo, m), new(big.Int).Quo(na.hi, m)
			q := l.fresh(fmt.Sprintf("m%d", t.id), qlo, qhi)
			r := l.sub(na, l.mul(q, l.cst(m)))
			neg := l.lt(na, l.ci(0))
			mm := l.cst(m)
			fact := l.bop("and", l.bop("=>", neg, l.bop("and", l.lt(l.neg(mm), r), l.le(r, l.ci(0)))), l.bop("=>", l.bop("not", neg), l.bop("and", l.le(l.ci(0), r), l.lt(r, mm))))
			if q.n != nil {
				q.n.aux = append(q.n.aux, fact)
			}
			return &polyF{N: r, D: l.ci(1), g: g, cr: true}
		}
		if m := t.a[1].fv; t.a[1].isConst() && t.a[0].fin && t.a[0].hi-t.a[0].lo < 8*m {
			// a - m*q for one of a few q
			q0, q1 := int64(math.Trunc(t.a[0].lo/m))-1, int64(math.Trunc(t.a[0].hi/m))+1
			q := l.fresh(fmt.Sprintf("m%d", t.id), bi(q0), bi(q1))
			var one *Node
			for i := q0; i <= q1; i++ {
				if n := l.eq(q, l.ci(i)); one == nil {
					one = n
				} else {
					one = l.bop("or", one, n)
				}
			}
			// align the grids of a and m
			ma, mb, g := l.align(&polyF{N: a.N, D: a.D, g: a.g}, b)
			r := &polyF{N: l.sub(ma, l.mul(l.mul(q, mb), a.D)), D: a.D, g: g, eps: a.eps, cont: a.cont}
			s := math.Ldexp(1, -g)
			lo, hi := t.lo, t.hi
			if t.a[0].lo < 0 {
				lo = -m
			}
			if t.a[0].hi > 0 {
				hi = m
			}
			bl, bh := toBig(math.Floor((lo-a.eps)*s)-1), toBig(math.Ceil((hi+a.eps)*s)+1)
			in := l.bop("and", l.le(l.mul(l.cst(bl), r.D), r.N), l.le(r.N, l.mul(l.cst(bh), r.D)))
			if q.n != nil {
				q.n.aux = append(q.n.aux, one, in)
			}
			return r
		}
		return l.opaque(t, fmt.Sprintf("mod%d", t.id))
	case OFUF:
		if strings.HasPrefix(t.name, absPrefix) {
			return l.opaque(t, fmt.Sprintf("abs_%d", t.id))
		}
		if f := l.known(t); f != nil {
			return f
		}
		if f := l.near(t); f != nil {
			return f
		}
		return l.opaque(t, fmt.Sprintf("uf_%s_%d", t.name, t.id))
	case OI2F:
		n := l.in(t.a[0])
		if bitsFor(n.lo, n.hi) > 54 {
			unsup("wide int to float")
		}
		return &polyF{N: n, D: l.ci(1), g: 0, cr: true}
	}
	unsup("float operation %s in this lowering", opNames[t.op])
	return nil
}

func (l *polyLow) signed(sg, x, y NX) {
	if x.isC() && x.lo.Sign() == 0 || y.isC() {
		return
	}
	if _, ok := l.abounds[y.n]; ok {
		return
	}
	if p := polyMul(l.polyOf(sg), l.polyOf(x)); p != nil {
		l.polys[y.n] = p
	}
}

// narrow gives d tighter bounds, truncating its width in bv mode.
func (l *polyLow) narrow(d NX, lo, hi *big.Int) NX {
	if l.bv {
		w := bitsFor(lo, hi)
		if w < d.w() {
			t, dp := l.txt(d, w)
			return l.alias(d, NX{l.g.mk(bvSort(w), t, dp...), lo, hi})
		}
		if w > d.w() {
			return d
		}
	}
	return NX{d.n, lo, hi}
}

func (l *polyLow) abs(a NX) NX {
	if a.lo.Sign() >= 0 {
		return a
	}
	if a.hi.Sign() <= 0 {
		return l.neg(a)
	}
	r := l.ite(l.lt(a, l.ci(0)), l.neg(a), a)
	hi := new(big.Int).Neg(a.lo)
	if a.hi.Cmp(hi) > 0 {
		hi = a.hi
	}
	if r.isC() {
		return r
	}
	return l.narrow(r, bi(0), hi)
}

// minMag is a lower bound on the magnitude of the quotient of f (non-zero).
func (l *polyLow) minMag(t *Term, f *polyF) float64 {
	if t.fin && t.lo > 0 {
		return t.lo * (1 - 1e-12)
	}
	if t.fin && t.hi < 0 {
		return -t.hi * (1 - 1e-12)
	}
	if f.cont || f.eps != 0 {
		return 0
	}
	d, _ := new(big.Float).SetInt(f.D.hi).Float64()
	return math.Ldexp(1, f.g) / d * (1 - 1e-12)
}

// opaque is an arbitrary value within the term's bounds.
func (l *polyLow) opaque(t *Term, name string) *polyF {
	if !t.fin {
		unsup("opaque value without bounds (%s)", opNames[t.op])
	}
	var r *polyF
	if l.real {
		const k = 30
		lo, hi := toBig(math.Floor(math.Ldexp(t.lo, k))), toBig(math.Ceil(math.Ldexp(t.hi, k)))
		n := l.fresh(name, lo, hi)
		r = &polyF{N: n, D: l.ci(1), g: -k, cont: true, cr: true}
	} else {
		p := l.ufBits
		lo, hi := toBig(math.Floor(math.Ldexp(t.lo, p))), toBig(math.Ceil(math.Ldexp(t.hi, p)))
		n := l.fresh(name, lo, hi)
		r = &polyF{N: n, D: l.ci(1), g: -p, eps: math.Ldexp(1, -p)}
	}
	if t.op == OFUF && r.N.n != nil && !strings.HasPrefix(t.name, absPrefix) {
		if t.name == "atan2" {
			// a direction and the positive x axis
			one := l.c.F(1)
			r.N.n.aux = append(r.N.n.aux, l.turn(t.a[0], t.a[1], l.c.F(0), one, r.N, -r.g, true))
		}
		// congruence with earlier applications
		for _, o := range l.ufApps[t.name] {
			if o == t || within(t, o) {
				continue
			}
			eq := l.c.True
			for i := 0; i < int(t.n); i++ {
				if t.a[i].sort != SFloat {
					eq = l.c.False
					break
				}
				eq = l.c.And(eq, l.c.FEq(t.a[i], o.a[i]))
			}
			if eq.isFalse() {
				continue
			}
			fo := l.fl(o)
			r.N.n.aux = append(r.N.n.aux, l.bop("=>", l.Bool(eq), l.eq(r.N, fo.N)))
			if t.name == "atan2" && len(l.ufApps[t.name]) <= 4 {
				r.N.n.aux = append(r.N.n.aux, l.turn(t.a[0], t.a[1], o.a[0], o.a[1], l.sub(r.N, fo.N), -r.g, false))
			}
		}
		l.ufApps[t.name] = append(l.ufApps[t.name], t)
	}
	return r
}

const nearby = 1e-8

// apart bounds the distance of the values of two terms (mode real).
func (l *polyLow) apart(a, b *polyF) float64 {
	d := polyAdd(l.polyOf(l.shift(l.mul(a.N, b.D), max(0, a.g-b.g))), l.polyOf(l.shift(l.mul(b.N, a.D), max(0, b.g-a.g))), -1)
	q := new(big.Float).SetInt(new(big.Int).Mul(a.D.lo, b.D.lo))
	if d == nil || q.Sign() <= 0 {
		return math.Inf(1)
	}
	lo, hi := l.polyBounds(d)
	m := new(big.Float).SetInt(lo.Neg(lo))
	if h := new(big.Float).SetInt(hi); h.Cmp(m) > 0 {
		m = h
	}
	m.SetMantExp(m, min(a.g, b.g))
	v, _ := m.Quo(m, q).Float64()
	return up(v + a.eps + b.eps)
}

// around is the middle and the radius of the values of f, when the radius is small.
func (l *polyLow) around(f *polyF) (mid, rad float64, ok bool) {
	pn, pd := l.polyOf(f.N), l.polyOf(f.D)
	if pn == nil || pd == nil {
		return 0, 0, false
	}
	nl, nh := l.polyBounds(pn)
	dl, dh := l.polyBounds(pd)
	if dl.Sign() <= 0 {
		return 0, 0, false
	}
	if nl.Sign() >= 0 {
		dl, dh = dh, dl
	} else if nh.Sign() > 0 {
		dh = dl
	}
	// now nl/dl is the least and nh/dh the largest value
	q := func(n, d *big.Int) float64 {
		v := new(big.Float).SetPrec(200).SetInt(n)
		v.Quo(v, new(big.Float).SetPrec(200).SetInt(d))
		v.SetMantExp(v, f.g)
		r, _ := v.Float64()
		return r
	}
	lo, hi := q(nl, dl), q(nh, dh)
	mid = (lo + hi) / 2
	rad = up((hi-lo)/2 + math.Abs(mid)*1e-15 + f.eps)
	return mid, rad, rad <= nearby && !math.IsInf(mid, 0)
}

// known gives the value of a function of almost constant arguments.
func (l *polyLow) known(t *Term) *polyF {
	if !l.real || t.name != "sin" && t.name != "cos" && t.name != "atan" && t.name != "atan2" && t.name != "acos" && t.name != "asin" {
		return nil
	}
	a, ra, ok := l.around(l.fl(t.a[0]))
	if !ok {
		return nil
	}
	var v, r float64
	switch t.name {
	case "sin":
		v, r = math.Sin(a), ra
	case "cos":
		v, r = math.Cos(a), ra
	case "atan":
		v, r = math.Atan(a), ra
	case "acos", "asin":
		m := math.Abs(a) + ra
		if m > 1-1e-6 {
			return nil
		}
		v, r = math.Acos(a), ra/math.Sqrt(1-m*m)
		if t.name == "asin" {
			v = math.Asin(a)
		}
	case "atan2":
		b, rb, ok := l.around(l.fl(t.a[1]))
		h := math.Hypot(a, b)
		if !ok || h < 1e-3 || b-rb <= 0 && math.Abs(a) <= ra {
			return nil
		}
		v, r = math.Atan2(a, b), (ra+rb)/(h-ra-rb)
	}
	f := *l.fl(l.c.F(v))
	f.eps, f.cr = up(f.eps+r+4e-15), false
	return &f
}

// near gives an application of a function with slope at most 1 to almost the argument of an earlier one as that one, with the
// difference as error.
func (l *polyLow) near(t *Term) *polyF {
	if !l.real || t.name != "sin" && t.name != "cos" && t.name != "atan" {
		return nil
	}
	a := l.fl(t.a[0])
	for _, o := range l.ufApps[t.name] {
		if within(t, o) {
			continue
		}
		if v := l.apart(a, l.fl(o.a[0])); v <= nearby {
			f := *l.fl(o)
			f.eps, f.cr = up(f.eps+v), false
			return &f
		}
	}
	return nil
}

// within is: t occurs in o.
func within(t, o *Term) bool {
	seen := map[int32]bool{}
	var f func(o *Term) bool
	f = func(o *Term) bool {
		if o == t {
			return true
		}
		if o.id <= t.id || seen[o.id] {
			return false
		}
		seen[o.id] = true
		for i := 0; i < int(o.n); i++ {
			if f(o.a[i]) {
				return true
			}
		}
		return false
	}
	return f(o)
}

// turn says in which half and quarter planes the difference d (scaled by 2^p) of two angles lies: it is that of the cross and dot
// products of the directions, up to rounding.
func (l *polyLow) turn(y2, x2, y1, x1 *Term, d NX, p int, single bool) *Node {
	c := l.c
	mul := func(a, b *Term) *Term { return c.FBin(OFMul, a, b) }
	cr := c.FBin(OFSub, mul(x1, y2), mul(y1, x2))
	dot := c.FBin(OFAdd, mul(x1, x2), mul(y1, y2))
	lo := func(v float64) NX { return l.cst(toBig(math.Floor(math.Ldexp(v, p)) - 1)) }
	hi := func(v float64) NX { return l.cst(toBig(math.Ceil(math.Ldexp(v, p)) + 1)) }
	in := func(a, b float64) *Node { return l.bop("and", l.le(lo(a), d), l.le(d, hi(b))) }
	some := func(is ...float64) *Node {
		var r *Node
		for i := 0; i < len(is); i += 2 {
			if single && (is[i] >= math.Pi && is[i+1] > math.Pi || is[i+1] <= -math.Pi) {
				continue // a single angle is in (-pi, pi]
			}
			n := in(is[i], is[i+1])
			if r == nil {
				r = n
			} else {
				r = l.bop("or", r, n)
			}
		}
		return r
	}
	z, pi := c.F(0), math.Pi
	imp := func(h *Term, n *Node) *Node { return l.bop("=>", l.Bool(h), n) }
	r := imp(c.FLt(z, cr), some(0, pi, -2*pi, -pi))
	r = l.bop("and", r, imp(c.FLt(cr, z), some(-pi, 0, pi, 2*pi)))
	r = l.bop("and", r, imp(c.FLt(z, dot), some(-pi/2, pi/2, 3*pi/2, 2*pi, -2*pi, -3*pi/2)))
	r = l.bop("and", r, imp(c.FLt(dot, z), some(pi/2, 3*pi/2, -3*pi/2, -pi/2)))
	r = l.bop("and", r, imp(c.FEq(dot, z), some(pi/2, pi/2, -pi/2, -pi/2, 3*pi/2, 3*pi/2, -3*pi/2, -3*pi/2)))
	flat := c.FEq(cr, z)
	r = l.bop("and", r, imp(c.And(flat, c.FLt(z, dot)), some(0, 0, 2*pi, 2*pi, -2*pi, -2*pi)))
	r = l.bop("and", r, imp(c.And(flat, c.FLt(dot, z)), some(pi, pi, -pi, -pi)))
	return r
}

func (l *polyLow) sqrt(t *Term) *polyF {
	a := l.fl(t.a[0])
	if a.N.lo.Sign() < 0 {
		if !(t.a[0].fin && t.a[0].lo >= 0) {
			unsup("square root of a possibly negative value")
		}
	}
	p := l.sqrtBits
	amax := l.fmag(t.a[0], a)
	smax := math.Sqrt(amax) * (1 + 1e-12)
	in := a.eps
	if in > 0 {
		if lo := l.minMag(t.a[0], a); lo > 0 {
			in = math.Min(math.Sqrt(a.eps), a.eps/math.Sqrt(lo))
		} else {
			in = math.Sqrt(a.eps)
		}
		in = up(in)
	}
	N := a.N
	if N.lo.Sign() < 0 {
		N = l.ite(l.lt(N, l.ci(0)), l.ci(0), N)
		N = l.narrow(N, bi(0), a.N.hi)
	}
	if l.real {
		if a.eps > 0 {
			if mid, rad, ok := l.around(a); ok {
				v := math.Sqrt(math.Max(mid, 0))
				r := math.Sqrt(math.Max(mid, 0)+rad) - v
				if mid > rad {
					r = math.Max(r, v-math.Sqrt(mid-rad))
				} else {
					r = math.Max(r, v)
				}
				f := *l.fl(l.c.F(v))
				f.eps, f.cr = up(f.eps+r+rnd(v+r)*2), false
				return &f
			}
		}
		if lo := t.a[0].lo; t.a[0].fin && lo > nearby {
			for _, o := range l.sqrts {
				if v := l.apart(a, l.fl(o.a[0])); v <= nearby && !within(t, o) {
					f := *l.fl(o)
					f.eps, f.cr = up(f.eps+up(v/math.Sqrt(lo))), false
					return &f
				}
			}
			l.sqrts = append(l.sqrts, t)
		}
		const k = 30 // in units of 2^-k, so that the bounds are not far off
		hi := toBig(math.Ceil(math.Ldexp(smax, k)) + 1)
		smin := 0.0
		if t.a[0].fin && t.a[0].lo > a.eps {
			smin = math.Sqrt(t.a[0].lo-a.eps) * (1 - 1e-12)
		}
		s := l.fresh(fmt.Sprintf("sqrt%d", t.id), toBig(math.Floor(math.Ldexp(smin, k))), hi)
		lhs, rhs := l.mul(l.mul(s, s), a.D), N
		if a.g+2*k > 0 {
			rhs = l.shift(rhs, a.g+2*k)
		} else {
			lhs = l.shift(lhs, -a.g-2*k)
		}
		if s.n != nil {
			s.n.aux = append(s.n.aux, l.eqRaw(lhs, rhs))
		}
		r := &polyF{N: s, D: l.ci(1), g: -k, cont: true, cr: a.eps == 0}
		r.eps = up(in + rnd(smax+in))
		return r
	}
	hi := toBig(math.Ceil(math.Ldexp(smax, p)) + 1)
	s := l.fresh(fmt.Sprintf("sqrt%d", t.id), bi(0), hi)
	s1 := l.add(s, l.ci(1))
	lhs, lhs1, rhs := l.mul(l.mul(s, s), a.D), l.mul(l.mul(s1, s1), a.D), N
	if k := a.g + 2*p; k > 0 {
		rhs = l.shift(rhs, k)
	} else {
		lhs, lhs1 = l.shift(lhs, -k), l.shift(lhs1, -k)
	}
	if s.n != nil {
		s.n.aux = append(s.n.aux, l.bop("and", l.le(lhs, rhs), l.lt(rhs, lhs1)))
	}
	r := &polyF{N: s, D: l.ci(1), g: -p}
	r.eps = up(math.Ldexp(1, -p) + in + rnd(smax+in))
	return r
}

func (l *polyLow) eqRaw(a, b NX) *Node { return l.rel("=", "=", a, b) }

// toInt is floor, ceil or trunc of a float as an integer expression.
func (l *polyLow) toInt(op Op, t *Term, name string) NX {
	a := l.fl(t)
	if a.eps == 0 && isOne(a.D) && !a.cont {
		if a.g >= 0 {
			return l.shift(a.N, a.g)
		}
		k := -a.g
		d := pow2(k)
		fl := func(v *big.Int) *big.Int { return new(big.Int).Div(v, d) } // Euclidean, d > 0: floor
		floor := func(n NX) NX {
			if n.isC() {
				return l.cst(fl(n.lo))
			}
			lo, hi := fl(n.lo), fl(n.hi)
			if l.bv {
				if lo.Cmp(hi) == 0 {
					return l.cst(lo)
				}
				w := n.w()
				if k >= w {
					w2 := k + 1
					tx, dp := l.txt(n, w2)
					m := NX{l.g.mk(bvSort(1), fmt.Sprintf("((_ extract %d %d) %s)", w2-1, w2-1, tx), dp...), bi(-1), bi(0)}
					return m
				}
				m := NX{l.g.mk(bvSort(w-k), fmt.Sprintf("((_ extract %d %d) %s)", w-1, k, n.n.name), n.n), nil, nil}
				m.lo, m.hi = new(big.Int).Neg(pow2(w-k-1)), new(big.Int).Sub(pow2(w-k-1), bi(1))
				return l.narrow(m, lo, hi)
			}
			q := l.fresh(name+n.n.name, lo, hi)
			if q.n != nil {
				qd := l.mul(q, l.cst(d))
				q.n.aux = append(q.n.aux, l.bop("and", l.le(qd, n), l.lt(n, l.add(qd, l.cst(d)))))
			}
			return q
		}
		switch op {
		case OFFloor:
			return floor(a.N)
		case OFCeil:
			return l.neg(floor(l.neg(a.N)))
		}
		return l.ite(l.lt(a.N, l.ci(0)), l.neg(floor(l.neg(a.N))), floor(a.N))
	}
	// general case: an integer in the window allowed by the error bound
	if !t.fin || maxabs(t) > 1e15 {
		unsup("integer part of an unbounded value")
	}
	q := l.fresh(name, toBig(math.Floor(t.lo)-1), toBig(math.Ceil(t.hi)+1))
	if q.n == nil {
		return q
	}
	// q*D <= N*2^g + e etc., scaled to integers
	N, D := a.N, a.D
	sh := 0
	if a.g > 0 {
		N = l.shift(N, a.g)
	} else {
		D = l.shift(D, -a.g)
		sh = -a.g
	}
	dm, _ := new(big.Float).SetInt(a.D.hi).Float64()
	E := toBig(math.Ceil(up(math.Ldexp(a.eps*dm, sh))))
	if dd, _ := new(big.Float).SetInt(D.hi).Float64(); a.cr && !a.cont && D.isC() && a.eps*dd < 0.5 {
		// the exact value is a fraction over D: rounding cannot carry it across an integer
		E = bi(0)
	}
	e := l.cst(E)
	if a.cont && a.eps > 0 {
		e = l.ci(1)
	}
	qd := l.mul(q, D)
	nlo, nhi := l.sub(N, e), l.add(N, e)
	fl := l.bop("and", l.le(qd, nhi), l.lt(nlo, l.add(qd, D)))
	ce := l.bop("and", l.le(nlo, qd), l.lt(l.sub(qd, D), nhi))
	switch op {
	case OFFloor:
		q.n.aux = append(q.n.aux, fl)
	case OFCeil:
		q.n.aux = append(q.n.aux, ce)
	default:
		z := l.ci(0)
		q.n.aux = append(q.n.aux, l.bop("and", l.bop("=>", l.lt(e, N), fl), l.bop("=>", l.lt(N, l.neg(e)), ce),
			l.bop("=>", l.bop("and", l.le(N, e), l.le(l.neg(e), N)), l.bop("or", fl, ce)), l.bop("=>", l.lt(e, N), l.le(z, q)), l.bop("=>", l.lt(N, l.neg(e)), l.le(q, z))))
	}
	return q
}

// ---------- comparisons

// cmp returns nodes for a < b and a == b, for a.id < b.id or a constant.
func (l *polyLow) cmp(a, b *Term) (*Node, *Node) {
	k := [2]int32{a.id, b.id}
	if p, ok := l.pairs[k]; ok {
		return p[0], p[1]
	}
	lt, eq := l.cmp1(a, b)
	l.pairs[k] = [2]*Node{lt, eq}
	return lt, eq
}

func sqrtThr(c float64) float64 {
	// the smallest float whose rounded root is >= c
	if c <= 0 {
		return 0
	}
	t := c * c
	for math.Sqrt(t) >= c {
		t = math.Nextafter(t, 0)
	}
	for math.Sqrt(t) < c {
		t = math.Nextafter(t, math.Inf(1))
	}
	return t
}

func (l *polyLow) cmp1(a, b *Term) (*Node, *Node) {
	c := l.c
	if l.ord {
		na, nb := l.ordF(a), l.ordF(b)
		return l.g.mk("Bool", fmt.Sprintf("(< %s %s)", na.name, nb.name), na, nb), l.g.mk("Bool", fmt.Sprintf("(= %s %s)", na.name, nb.name), na, nb)
	}
	// roots against constants and other roots
	if a.op == OFSqrt && b.isConst() && b.fin && a.a[0].fin && a.a[0].lo >= 0 && b.fv < 1e150 {
		if b.fv < 0 {
			return l.boolC(false), l.boolC(false)
		}
		if b.fv == 0 { // no root of a positive float is zero
			return l.boolC(false), l.Bool(c.Not(c.FLt(c.F(0), a.a[0])))
		}
		t1, t2 := sqrtThr(b.fv), sqrtThr(math.Nextafter(b.fv, math.Inf(1)))
		lt := l.Bool(c.FLt(a.a[0], c.F(t1)))
		lt2 := l.Bool(c.FLt(a.a[0], c.F(t2)))
		return lt, l.bop("and", lt2, l.bop("not", lt))
	}
	if b.op == OFSqrt && a.isConst() && a.fin && b.a[0].fin && b.a[0].lo >= 0 && a.fv < 1e150 {
		lt, eq := l.cmp(b, a)
		return l.bop("not", l.bop("or", lt, eq)), eq
	}
	if a.op == OFSqrt && b.op == OFSqrt {
		fa, fb := l.fl(a.a[0]), l.fl(b.a[0])
		if fa.eps == 0 && fb.eps == 0 && isOne(fa.D) && isOne(fb.D) && !fa.cont && !fb.cont {
			m := math.Max(l.fmag(a.a[0], fa), l.fmag(b.a[0], fb))
			if math.Ldexp(1, min(fa.g, fb.g)) >= m*0x1p-49 {
				return l.cmpT(a.a[0], b.a[0])
			}
		}
	}
	fa, fb := l.fl(a), l.fl(b)
	na, nb, g := l.align(fa, fb)
	ma, mb, DD := l.common(fa.D, fb.D)
	na, nb = l.mul(na, ma), l.mul(nb, mb)
	eps := fa.eps + fb.eps
	if eps == 0 {
		return l.lt(na, nb), l.eq(na, nb)
	}
	// distance in units of 2^g / (Da*Db)
	d, _ := new(big.Float).SetInt(DD.hi).Float64()
	cont := fa.cont || fb.cont
	u := up(math.Ldexp(eps*d, -g))
	u1 := up(math.Ldexp(eps, -g))
	scaled := (cont || l.real) && (!fa.D.isC() || !fb.D.isC()) && !math.IsInf(u1, 0) && u1 > 0 // the window is given in terms of D
	if (math.IsInf(u, 0) || u > 1e200) && !scaled {
		unsup("comparison window too large: %s < %s eps=%g,%g D=%v,%v g=%d,%d", a.str(6), b.str(6), fa.eps, fb.eps, fa.D.hi, fb.D.hi, fa.g, fb.g)
	}
	X := l.sub(na, nb)
	if X.isC() && !cont {
		s := X.lo.Sign()
		if s == 0 && fa.cr && fb.cr {
			return l.boolC(false), l.boolC(true)
		}
		ux := toBig(math.Floor(u))
		if !math.IsInf(u, 0) && new(big.Int).Abs(X.lo).Cmp(ux) > 0 {
			return l.boolC(s < 0), l.boolC(false)
		}
	}
	if !math.IsInf(u, 0) {
		// decided by the bounds alone
		ub := toBig(math.Ceil(u) + 1)
		if X.lo.Cmp(ub) > 0 {
			return l.boolC(false), l.boolC(false)
		}
		if X.hi.Cmp(ub.Neg(ub)) < 0 {
			return l.boolC(true), l.boolC(false)
		}
	}
	if scaled && math.IsInf(u, 0) { // the same, beyond the range of float64
		f := new(big.Float).SetInt(DD.hi)
		f.Mul(f, big.NewFloat(u1))
		ub, _ := f.Int(nil)
		ub.Add(ub, bi(2))
		if X.lo.Cmp(ub) > 0 {
			return l.boolC(false), l.boolC(false)
		}
		if X.hi.Cmp(ub.Neg(ub)) < 0 {
			return l.boolC(true), l.boolC(false)
		}
	}
	both := fa.cr && fb.cr
	zero := l.ci(0)
	var below, above *Node
	if cont || l.real {
		if X.isC() {
			X = l.add(X, l.ci(0))
		}
		tx, dx := l.txt(X, 0)
		us := ""
		if r := new(big.Rat).SetFloat64(u); r != nil {
			us = fmt.Sprintf("(/ %s.0 %s.0)", r.Num(), r.Denom())
		}
		D := DD
		if !D.isC() && !math.IsInf(u1, 0) && u1 > 0 {
			r := new(big.Rat).SetFloat64(u1)
			td, dd := l.txt(D, 0)
			us = fmt.Sprintf("(* (/ %s.0 %s.0) %s)", r.Num(), r.Denom(), td)
			dx = append(dx, dd...)
		}
		below = l.g.mk("Bool", fmt.Sprintf("(< %s (- %s))", tx, us), dx...)
		above = l.g.mk("Bool", fmt.Sprintf("(> %s %s)", tx, us), dx...)
	} else {
		E := toBig(math.Floor(u))
		if E.Sign() == 0 && both {
			return l.lt(na, nb), l.eq(na, nb)
		}
		below = l.lt(X, l.cst(new(big.Int).Neg(E)))
		above = l.lt(l.cst(E), X)
	}
	name := fmt.Sprintf("c%d_%d", a.id, b.id)
	pl := l.g.con(name+"lt", "Bool")
	pe := l.g.con(name+"eq", "Bool")
	fact := l.bop("and",
		l.bop("=>", below, l.bop("and", pl, l.bop("not", pe))),
		l.bop("=>", above, l.bop("and", l.bop("not", pl), l.bop("not", pe))),
		l.bop("not", l.bop("and", pl, pe)))
	if both {
		fact = l.bop("and", fact, l.bop("=>", l.eq(X, zero), pe), l.bop("=>", l.lt(zero, X), l.bop("not", pl)), l.bop("=>", l.lt(X, zero), l.bop("or", pl, pe)))
	}
	pl.aux = append(pl.aux, fact)
	pe.aux = append(pe.aux, fact)
	return pl, pe
}

// cmpT orders the pair and returns (a<b, a==b).
func (l *polyLow) cmpT(a, b *Term) (*Node, *Node) {
	if a.isConst() && b.isConst() {
		return l.boolC(a.fv < b.fv), l.boolC(a.fv == b.fv)
	}
	if a == b {
		return l.boolC(false), l.boolC(true)
	}
	if a.isConst() && math.IsInf(a.fv, 0) || b.isConst() && math.IsInf(b.fv, 0) {
		return l.boolC(a.isConst() && a.fv < 0 || b.isConst() && b.fv > 0), l.boolC(false)
	}
	if a.id < b.id {
		return l.cmp(a, b)
	}
	lt, eq := l.cmp(b, a)
	return l.bop("not", l.bop("or", lt, eq)), eq
}

func (l *polyLow) Bool(t *Term) *Node {
	if n, ok := l.bm[t.id]; ok {
		return n
	}
	n := l.bool1(t)
	l.bm[t.id] = n
	return n
}

func (l *polyLow) bool1(t *Term) *Node {
	switch t.op {
	case OConst:
		return l.boolC(t.iv == 1)
	case OVar:
		return l.g.con(t.smt, "Bool")
	case ONot:
		return l.bop("not", l.Bool(t.a[0]))
	case OAnd:
		return l.bop("and", l.Bool(t.a[0]), l.Bool(t.a[1]))
	case OBEq:
		return l.bop("=", l.Bool(t.a[0]), l.Bool(t.a[1]))
	case OIte:
		return l.bop("ite", l.Bool(t.a[0]), l.Bool(t.a[1]), l.Bool(t.a[2]))
	case OFLt:
		lt, _ := l.cmpT(t.a[0], t.a[1])
		return lt
	case OFLe:
		lt, eq := l.cmpT(t.a[0], t.a[1])
		return l.bop("or", lt, eq)
	case OFEq:
		_, eq := l.cmpT(t.a[0], t.a[1])
		return eq
	case OFNaN, OFInf:
		// the lowering of the number gives up where the result is not finite
		l.fl(t.a[0])
		return l.boolC(false)

	case OIEq:
		if l.isWide(t.a[0]) || l.isWide(t.a[1]) {
			a, b := l.ibv(t.a[0]), l.ibv(t.a[1])
			return l.bop("=", a, b)
		}
		return l.eq(l.in(t.a[0]), l.in(t.a[1]))
	case OISLt:
		if l.isWide(t.a[0]) || l.isWide(t.a[1]) {
			return l.bop("bvslt", l.ibv(t.a[0]), l.ibv(t.a[1]))
		}
		return l.lt(l.in(t.a[0]), l.in(t.a[1]))
	case OIULt:
		if t.a[0].ilo >= 0 && t.a[1].ilo >= 0 && !l.isWide(t.a[0]) && !l.isWide(t.a[1]) {
			return l.lt(l.in(t.a[0]), l.in(t.a[1]))
		}
		return l.bop("bvult", l.ibv(t.a[0]), l.ibv(t.a[1]))
	case OBUF:
		if t.name == "signbit" {
			lt, _ := l.cmpT(t.a[0], l.c.F(0))
			return lt
		}
		return l.g.con(fmt.Sprintf("buf_%s_%d", t.name, t.id), "Bool")
	}
	unsup("lowering of %s", opNames[t.op])
	return nil
}

// ---------- ints

// isWide reports whether the term needs modular arithmetic.
func (l *polyLow) isWide(t *Term) bool {
	lo, hi := minMaxW(t.w)
	return t.ilo == lo && t.ihi == hi && t.w > 16
}

func (l *polyLow) in(t *Term) NX {
	if x, ok := l.im[t.id]; ok {
		return *x
	}
	x := l.in1(t)
	l.im[t.id] = &x
	return x
}

func (l *polyLow) in1(t *Term) NX {
	lo, hi := bi(t.ilo), bi(t.ihi)
	lim := func(x NX) NX {
		if x.isC() {
			return x
		}
		nlo, nhi := x.lo, x.hi
		if lo.Cmp(nlo) > 0 {
			nlo = lo
		}
		if hi.Cmp(nhi) < 0 {
			nhi = hi
		}
		if nlo.Cmp(nhi) > 0 {
			return x
		}
		return l.narrow(x, nlo, nhi)
	}
	switch t.op {
	case OConst:
		return l.ci(t.sval())
	case OVar:
		x := l.fresh(t.smt, lo, hi)
		if l.real && x.n != nil && t.ihi-t.ilo <= 64 && len(x.n.aux) == 1 {
			var is []*Node
			for v := t.ilo; v <= t.ihi; v++ {
				is = append(is, l.eqRaw(x, l.ci(v)))
			}
			x.n.aux = append(x.n.aux, l.bop("or", is...))
		}
		return x
	case OIte:
		return l.ite(l.Bool(t.a[0]), l.in(t.a[1]), l.in(t.a[2]))
	}
	if !l.isWide(t) {
		switch t.op {
		case OIAdd:
			if !l.isWide(t.a[0]) && !l.isWide(t.a[1]) {
				return lim(l.add(l.in(t.a[0]), l.in(t.a[1])))
			}
		case OISub:
			if !l.isWide(t.a[0]) && !l.isWide(t.a[1]) {
				return lim(l.sub(l.in(t.a[0]), l.in(t.a[1])))
			}
		case OIMul:
			if !l.isWide(t.a[0]) && !l.isWide(t.a[1]) {
				return lim(l.mul(l.in(t.a[0]), l.in(t.a[1])))
			}
		case OINeg:
			if !l.isWide(t.a[0]) {
				return lim(l.neg(l.in(t.a[0])))
			}
		case OISext:
			return lim(l.in(t.a[0]))
		case OIZext:
			if t.a[0].ilo >= 0 {
				return lim(l.in(t.a[0]))
			}
		case OITrunc:
			if t.a[0].ilo >= t.ilo && t.a[0].ihi <= t.ihi {
				return lim(l.in(t.a[0]))
			}
		case OF2I:
			return lim(l.toInt(OFTrunc, t.a[0], fmt.Sprintf("f2i%d", t.id)))
		}
	}
	if t.op == OBUF {
		return l.fresh(fmt.Sprintf("iuf_%s_%d", t.name, t.id), lo, hi)
	}
	if !l.bv {
		unsup("integer operation %s in this lowering", opNames[t.op])
	}
	n := l.ibv(t)
	full := NX{n, nil, nil}
	a, b := minMaxW(t.w)
	full.lo, full.hi = bi(a), bi(b)
	return lim(full)
}

// ibv is the term as a bit-vector of its full width.
func (l *polyLow) ibv(t *Term) *Node {
	if !l.bv {
		unsup("bit-vector operation in this lowering")
	}
	if n, ok := l.ibm[t.id]; ok {
		return n
	}
	n := l.ibv1(t)
	l.ibm[t.id] = n
	return n
}

func (l *polyLow) ibv1(t *Term) *Node {
	w := int(t.w)
	direct := func(op string, as ...*Node) *Node {
		var p []string
		for _, a := range as {
			p = append(p, a.name)
		}
		return l.g.mk(bvSort(w), "("+op+" "+strings.Join(p, " ")+")", as...)
	}
	a := func(i int) *Node { return l.ibv(t.a[i]) }
	ops := map[Op]string{OISDiv: "bvsdiv", OIUDiv: "bvudiv", OISRem: "bvsrem", OIURem: "bvurem", OIAnd: "bvand", OIOr: "bvor", OIXor: "bvxor", OIShl: "bvshl", OILshr: "bvlshr", OIAshr: "bvashr"}
	if o, ok := ops[t.op]; ok {
		return direct(o, a(0), a(1))
	}
	wide := l.isWide(t) || (t.n > 0 && t.a[0].sort == SInt && l.isWide(t.a[0])) || (t.n > 1 && t.a[1].sort == SInt && l.isWide(t.a[1]))
	switch t.op {
	case OIInv:
		return direct("bvnot", a(0))
	case OIAdd:
		if wide {
			return direct("bvadd", a(0), a(1))
		}
	case OISub:
		if wide {
			return direct("bvsub", a(0), a(1))
		}
	case OIMul:
		if wide {
			return direct("bvmul", a(0), a(1))
		}
	case OINeg:
		if wide {
			return direct("bvneg", a(0))
		}
	case OIZext:
		if t.a[0].ilo < 0 {
			return direct(fmt.Sprintf("(_ zero_extend %d)", w-int(t.a[0].w)), a(0))
		}
	case OITrunc:
		if !(t.a[0].ilo >= t.ilo && t.a[0].ihi <= t.ihi) || l.isWide(t.a[0]) {
			return direct(fmt.Sprintf("(_ extract %d 0)", w-1), a(0))
		}
	case OIte:
		if wide {
			return direct("ite", l.Bool(t.a[0]), a(1), a(2))
		}
	}
	x := l.in(t)
	s, d := l.txt(x, w)
	return l.g.mk(bvSort(w), s, d...)
}

// ---------- ord: arithmetic results are arbitrary

func (l *polyLow) ordF(t *Term) *Node {
	if n, ok := l.om[t.id]; ok {
		return n
	}
	n := l.ordF1(t)
	l.om[t.id] = n
	return n
}

func ratStr(v float64) string {
	r := new(big.Rat).SetFloat64(v)
	n := new(big.Int).Abs(r.Num())
	s := fmt.Sprintf("(/ %s.0 %s.0)", n, r.Denom())
	if r.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return s
}

func (l *polyLow) ordF1(t *Term) *Node {
	g := l.g
	switch t.op {
	case OConst:
		if t.fv != t.fv || math.IsInf(t.fv, 0) {
			unsup("non-finite value in this lowering")
		}
		return g.mk("Real", ratStr(t.fv))
	case OIte:
		b, p, q := l.Bool(t.a[0]), l.ordF(t.a[1]), l.ordF(t.a[2])
		return g.mk("Real", fmt.Sprintf("(ite %s %s %s)", b.name, p.name, q.name), b, p, q)
	case OFMin, OFMax:
		p, q := l.ordF(t.a[0]), l.ordF(t.a[1])
		if t.op == OFMax {
			return g.mk("Real", fmt.Sprintf("(ite (< %s %s) %s %s)", p.name, q.name, q.name, p.name), p, q)
		}
		return g.mk("Real", fmt.Sprintf("(ite (< %s %s) %s %s)", p.name, q.name, p.name, q.name), p, q)
	case OFNeg:
		p := l.ordF(t.a[0])
		return g.mk("Real", fmt.Sprintf("(- %s)", p.name), p)
	case OFAbs:
		p := l.ordF(t.a[0])
		return g.mk("Real", fmt.Sprintf("(ite (< %s 0.0) (- %s) %s)", p.name, p.name, p.name), p)
	}
	name := t.smt
	if t.op != OVar {
		name = fmt.Sprintf("%s_%d", opNames[t.op], t.id)
	}
	n := g.con(name, "Real")
	if n.aux == nil && t.fin && (t.op == OVar || maxabs(t) < 1e30) {
		n.aux = []*Node{g.mk("Bool", fmt.Sprintf("(and (<= %s %s) (<= %s %s))", ratStr(t.lo), n.name, n.name, ratStr(t.hi)), n)}
	}
	return n
}

// ---------- inputs

func (l *polyLow) Var(t *Term) *Node {
	switch t.sort {
	case SBool:
		return l.g.con(t.smt, "Bool")
	case SInt:
		x := l.in(t)
		if x.isC() {
			return l.g.mk(l.sort(x.lo, x.hi), func() string { s, _ := l.txt(x, bitsFor(x.lo, x.hi)); return s }())
		}
		return x.n
	}
	if l.ord {
		return l.ordF(t)
	}
	f := l.fl(t)
	if f.N.isC() {
		return l.g.mk(l.sort(f.N.lo, f.N.hi), func() string { s, _ := l.txt(f.N, bitsFor(f.N.lo, f.N.hi)); return s }())
	}
	return f.N.n
}

func (l *polyLow) ParseVar(t *Term, s string) (uint64, bool) {
	if t.sort == SBool {
		return b2u(s == "true"), s == "true" || s == "false"
	}
	var v *big.Rat
	if l.bv {
		u, ok := parseBV(s)
		if !ok {
			return 0, false
		}
		var w int
		if t.sort == SInt {
			w = l.in(t).w()
		} else {
			w = l.fl(t).N.w()
		}
		v = new(big.Rat).SetInt64(sext(u, uint8(w)))
	} else {
		v = parseRat(s)
		if v == nil {
			return 0, false
		}
	}
	if t.sort == SInt {
		if !v.IsInt() {
			return 0, false
		}
		return uint64(v.Num().Int64()) & mask(t.w), true
	}
	if l.ord {
		f, _ := v.Float64()
		return fBits(f), true
	}
	f, _ := v.Float64()
	if gridVar(t) {
		f = math.Ldexp(math.Round(f), t.grid)
	}
	f = math.Min(math.Max(f, t.lo), t.hi)
	if f == 0 {
		f = 0
	}
	return fBits(f), true
}

// parseRat reads an SMT real or int value; algebraic numbers are approximated.
func parseRat(s string) *big.Rat {
	e := sexpr(s)
	if len(e) != 1 {
		return nil
	}
	var ev func(e interface{}) *big.Rat
	ev = func(e interface{}) *big.Rat {
		switch e := e.(type) {
		case string:
			e = strings.TrimSuffix(e, "?")
			r, ok := new(big.Rat).SetString(e)
			if !ok {
				return nil
			}
			return r
		case []interface{}:
			if len(e) == 0 {
				return nil
			}
			op, _ := e[0].(string)
			var as []*big.Rat
			for _, a := range e[1:] {
				v := ev(a)
				if v == nil {
					return nil
				}
				as = append(as, v)
			}
			switch {
			case op == "-" && len(as) == 1:
				return as[0].Neg(as[0])
			case op == "/" && len(as) == 2 && as[1].Sign() != 0:
				return as[0].Quo(as[0], as[1])
			case op == "+" && len(as) == 2:
				return as[0].Add(as[0], as[1])
			case op == "*" && len(as) == 2:
				return as[0].Mul(as[0], as[1])
			}
		}
		return nil
	}
	return ev(e[0])
}
