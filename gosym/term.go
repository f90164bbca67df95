package main

// Hash-consed symbolic terms. Floats are IEEE double operations; how they are given to the solver is
// decided by the lowering (lower_fp.go, lower_poly.go).

import (
	"fmt"
	"math"
	"math/bits"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OBEq // bool equality
	// integers (bit-vectors of width w)
	OIAdd
	OISub
	OIMul
	OISDiv
	OIUDiv
	OISRem
	OIURem
	OIAnd
	OIOr
	OIXor
	OIShl
	OILshr
	OIAshr
	OINeg
	OIInv
	OIEq
	OISLt
	OIULt
	OIZext
	OISext
	OITrunc
	// floats
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFMin
	OFMax
	OFSqrt
	OFFloor
	OFCeil
	OFTrunc
	OFMod
	OFLt
	OFLe
	OFEq
	OFNaN
	OFInf
	OFUF // uninterpreted function (name) with a contract
	OI2F // signed int -> float
	OU2F
	OF2I // float -> signed int of width w (truncation)
	OBUF // uninterpreted bool (name) over args
)

var opNames = map[Op]string{OConst: "const", OVar: "var", ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OBEq: "beq",
	OIAdd: "iadd", OISub: "isub", OIMul: "imul", OISDiv: "isdiv", OIUDiv: "iudiv", OISRem: "isrem", OIURem: "iurem", OIAnd: "iand", OIOr: "ior", OIXor: "ixor",
	OIShl: "ishl", OILshr: "ilshr", OIAshr: "iashr", OINeg: "ineg", OIInv: "iinv", OIEq: "ieq", OISLt: "islt", OIULt: "iult", OIZext: "izext", OISext: "isext", OITrunc: "itrunc",
	OFAdd: "fadd", OFSub: "fsub", OFMul: "fmul", OFDiv: "fdiv", OFNeg: "fneg", OFAbs: "fabs", OFMin: "fmin", OFMax: "fmax", OFSqrt: "fsqrt", OFFloor: "ffloor", OFCeil: "fceil", OFTrunc: "ftrunc", OFMod: "fmod",
	OFLt: "flt", OFLe: "fle", OFEq: "feq", OFNaN: "fisnan", OFInf: "fisinf", OFUF: "uf", OI2F: "i2f", OU2F: "u2f", OF2I: "f2i", OBUF: "buf"}

type Sort uint8

const (
	SBool Sort = iota
	SInt
	SFloat
)

const noGrid = -5000

type Term struct {
	op   Op
	sort Sort
	w    uint8 // int width
	id   int32
	n    uint8
	a    [3]*Term
	iv   uint64
	fv   float64
	name string
	smt  string // symbol of an input
	// float facts
	fin    bool    // definitely finite
	lo, hi float64 // bounds when not NaN
	grid   int     // every finite value is a multiple of 2^grid (noGrid: unknown)
	// int facts (signed interpretation)
	ilo, ihi int64
	// depth, for reporting
	size int32
}

type termKey struct {
	op         Op
	sort       Sort
	w          uint8
	a0, a1, a2 int32
	iv         uint64
	name       string
}

type Mode uint8

const (
	MFP Mode = iota
	MBV
	MReal
	MInt
	MOrd
)

func (m Mode) String() string { return [...]string{"fp", "bv", "real", "int", "ord"}[m] }

// poly reports whether floats are lowered through the exact-quotient tracking.
func (m Mode) poly() bool { return m != MFP }

type Ctx struct {
	mode  Mode
	tab   map[termKey]*Term
	next  int32
	True  *Term
	False *Term
	vars  map[string]*Term
	abs   map[string]absFn
	doms  map[string]int
}

func NewCtx(mode Mode) *Ctx {
	c := &Ctx{mode: mode, tab: map[termKey]*Term{}, vars: map[string]*Term{}, doms: map[string]int{}}
	c.True = c.mk(termKey{op: OConst, sort: SBool, iv: 1}, nil)
	c.False = c.mk(termKey{op: OConst, sort: SBool, iv: 0}, nil)
	return c
}

func (c *Ctx) mk(k termKey, args []*Term) *Term {
	k.a0, k.a1, k.a2 = -1, -1, -1
	if len(args) > 0 {
		k.a0 = args[0].id
	}
	if len(args) > 1 {
		k.a1 = args[1].id
	}
	if len(args) > 2 {
		k.a2 = args[2].id
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: k.op, sort: k.sort, w: k.w, iv: k.iv, name: k.name, id: c.next, n: uint8(len(args)), grid: noGrid, size: 1}
	c.next++
	copy(t.a[:], args)
	for _, x := range args {
		if t.size < 1<<28 {
			t.size += x.size
		}
	}
	switch t.sort {
	case SFloat:
		if t.op == OConst {
			t.fv = math.Float64frombits(t.iv)
		}
		c.floatFacts(t)
	case SInt:
		c.intFacts(t)
	}
	c.tab[k] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort == SBool && t.iv == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort == SBool && t.iv == 0 }

func (t *Term) String() string { return t.str(4) }
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			return fmt.Sprint(t.iv == 1)
		case SInt:
			return fmt.Sprint(t.sval())
		default:
			return fmt.Sprint(t.fv)
		}
	case OVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	s := "(" + opNames[t.op]
	if t.name != "" {
		s += ":" + t.name
	}
	for i := 0; i < int(t.n); i++ {
		s += " " + t.a[i].str(d-1)
	}
	return s + ")"
}

// ---------- bool

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// mkVar makes an input. An input that is read with another domain on another path is another unknown of the
// same name.
func (c *Ctx) mkVar(name, dom string, k termKey) *Term {
	k.name = name + "\x00" + dom
	t := c.mk(k, nil)
	if t.smt == "" {
		t.name, t.smt = name, name
		if n := c.doms[name]; n > 0 {
			t.smt = fmt.Sprintf("%s~%d", name, n)
		}
		c.doms[name]++
	}
	c.vars[name] = t
	return t
}

func (c *Ctx) BoolVar(name string) *Term {
	return c.mkVar(name, "b", termKey{op: OVar, sort: SBool})
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.iv == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return c.mk(termKey{op: ONot, sort: SBool}, []*Term{a})
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return c.False
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.False
	}
	// absorption with nested conjunctions/disjunctions
	if b.op == OAnd && (b.a[0] == a || b.a[1] == a) {
		return b
	}
	if a.op == OAnd && (a.a[0] == b || a.a[1] == b) {
		return a
	}
	if a.op == OOr && (a.a[0] == b || a.a[1] == b) {
		return b
	}
	if b.op == OOr && (b.a[0] == a || b.a[1] == a) {
		return a
	}
	if a.op == OOr {
		nb := c.Not(b)
		if a.a[0] == nb {
			return c.And(a.a[1], b)
		}
		if a.a[1] == nb {
			return c.And(a.a[0], b)
		}
	}
	if b.op == OOr {
		na := c.Not(a)
		if b.a[0] == na {
			return c.And(a, b.a[1])
		}
		if b.a[1] == na {
			return c.And(a, b.a[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(termKey{op: OAnd, sort: SBool}, []*Term{a, b})
}

func (c *Ctx) Or(a, b *Term) *Term {
	// (x and y) or (x and not y) = x
	if a.op == OAnd && b.op == OAnd {
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if a.a[i] == b.a[j] && c.Not(a.a[1-i]) == b.a[1-j] {
					return a.a[i]
				}
			}
		}
	}
	return c.Not(c.And(c.Not(a), c.Not(b)))
}

func (c *Ctx) BEq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isTrue() {
		return a
	}
	if b.isFalse() {
		return c.Not(a)
	}
	if c.Not(a) == b {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(termKey{op: OBEq, sort: SBool}, []*Term{a, b})
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.isTrue() {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if g.op == ONot {
		return c.Ite(g.a[0], b, a)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if a.op == OIte && a.a[0] == g {
		return c.Ite(g, a.a[1], b)
	}
	if b.op == OIte && b.a[0] == g {
		return c.Ite(g, a, b.a[2])
	}
	// ite(g, a, ite(h, a, b)) = ite(g or h, a, b)
	if b.op == OIte && b.a[1] == a {
		return c.Ite(c.Or(g, b.a[0]), a, b.a[2])
	}
	// recognise min and max of finite floats
	if a.sort == SFloat && a.fin && b.fin && c.mode.poly() && (g.op == OFLt || g.op == OFLe) {
		if g.a[0] == a && g.a[1] == b {
			return c.FMin(a, b)
		}
		if g.a[0] == b && g.a[1] == a {
			return c.FMax(a, b)
		}
	}
	return c.mk(termKey{op: OIte, sort: a.sort, w: a.w}, []*Term{g, a, b})
}

// ---------- ints

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	return int64(v<<(64-w)) >> (64 - w)
}

func (t *Term) sval() int64 { return sext(t.iv, t.w) }

func (c *Ctx) Int(v uint64, w uint8) *Term {
	return c.mk(termKey{op: OConst, sort: SInt, w: w, iv: v & mask(w)}, nil)
}
func (c *Ctx) I64(v int64) *Term { return c.Int(uint64(v), 64) }

func (c *Ctx) IntVar(name string, w uint8, lo, hi int64) *Term {
	t := c.mkVar(name, fmt.Sprintf("i%d,%d,%d", w, lo, hi), termKey{op: OVar, sort: SInt, w: w})
	t.ilo, t.ihi = lo, hi
	return t
}

func minMaxW(w uint8) (int64, int64) {
	return -1 << (w - 1), 1<<(w-1) - 1
}

func (c *Ctx) intFacts(t *Term) {
	lo, hi := minMaxW(t.w)
	set := func(l, h int64) {
		if l < lo || h > hi || l > h {
			return
		}
		t.ilo, t.ihi = l, h
	}
	t.ilo, t.ihi = lo, hi
	a, b := t.a[0], t.a[1]
	switch t.op {
	case OConst:
		t.ilo, t.ihi = t.sval(), t.sval()
	case OIte:
		t.ilo, t.ihi = min(b.ilo, t.a[2].ilo), max(b.ihi, t.a[2].ihi)
	case OIAdd:
		l, o1 := addOv(a.ilo, b.ilo)
		h, o2 := addOv(a.ihi, b.ihi)
		if !o1 && !o2 {
			set(l, h)
		}
	case OISub:
		l, o1 := subOv(a.ilo, b.ihi)
		h, o2 := subOv(a.ihi, b.ilo)
		if !o1 && !o2 {
			set(l, h)
		}
	case OINeg:
		if a.ilo > lo {
			set(-a.ihi, -a.ilo)
		}
	case OIMul:
		m := func(x int64) bool { return x > -(1<<31) && x < 1<<31 }
		if m(a.ilo) && m(a.ihi) && m(b.ilo) && m(b.ihi) {
			p := []int64{a.ilo * b.ilo, a.ilo * b.ihi, a.ihi * b.ilo, a.ihi * b.ihi}
			l, h := p[0], p[0]
			for _, x := range p {
				l, h = min(l, x), max(h, x)
			}
			set(l, h)
		}
	case OISRem:
		if b.isConst() && b.sval() > 0 {
			k := b.sval()
			l, h := int64(0), k-1
			if a.ilo < 0 {
				l = -(k - 1)
			}
			set(l, h)
		}
	case OISDiv:
		if b.isConst() && b.sval() > 0 {
			set(a.ilo/b.sval(), a.ihi/b.sval())
		}
	case OISext:
		set(a.ilo, a.ihi)
	case OIZext:
		if a.ilo >= 0 {
			set(a.ilo, a.ihi)
		} else {
			set(0, int64(mask(a.w)))
		}
	case OITrunc:
		set(a.ilo, a.ihi)
	case OF2I:
		if a.fin && a.lo > -9e15 && a.hi < 9e15 {
			set(int64(math.Trunc(a.lo)), int64(math.Trunc(a.hi)))
		}
	}
}

func addOv(a, b int64) (int64, bool) {
	s := a + b
	return s, (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0)
}
func subOv(a, b int64) (int64, bool) {
	s := a - b
	return s, (a >= 0 && b < 0 && s < 0) || (a < 0 && b > 0 && s >= 0)
}

func (c *Ctx) IBin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		x, y := a.iv, b.iv
		sx, sy := a.sval(), b.sval()
		switch op {
		case OIAdd:
			return c.Int(x+y, w)
		case OISub:
			return c.Int(x-y, w)
		case OIMul:
			return c.Int(x*y, w)
		case OISDiv:
			if sy != 0 {
				if sy == -1 {
					return c.Int(uint64(-sx), w)
				}
				return c.Int(uint64(sx/sy), w)
			}
		case OIUDiv:
			if y != 0 {
				return c.Int(x/y, w)
			}
		case OISRem:
			if sy != 0 {
				if sy == -1 {
					return c.Int(0, w)
				}
				return c.Int(uint64(sx%sy), w)
			}
		case OIURem:
			if y != 0 {
				return c.Int(x%y, w)
			}
		case OIAnd:
			return c.Int(x&y, w)
		case OIOr:
			return c.Int(x|y, w)
		case OIXor:
			return c.Int(x^y, w)
		case OIShl:
			if y >= 64 {
				return c.Int(0, w)
			}
			return c.Int(x<<y, w)
		case OILshr:
			if y >= 64 {
				return c.Int(0, w)
			}
			return c.Int(x>>y, w)
		case OIAshr:
			if y >= 64 {
				y = 63
			}
			return c.Int(uint64(sx>>y), w)
		}
	}
	zero := func(t *Term) bool { return t.isConst() && t.iv == 0 }
	switch op {
	case OIAdd:
		if zero(a) {
			return b
		}
		if zero(b) {
			return a
		}
	case OISub:
		if zero(b) {
			return a
		}
		if a == b {
			return c.Int(0, w)
		}
	case OIMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.iv == 1 {
			return a
		}
		if zero(b) {
			return b
		}
	case OISDiv:
		if b.isConst() && b.iv == 1 {
			return a
		}
	}
	// push constants through constant-leaf ites
	if b.isConst() && constTree(a, 4) {
		return c.Ite(a.a[0], c.IBin(op, a.a[1], b), c.IBin(op, a.a[2], b))
	}
	if a.isConst() && constTree(b, 4) {
		return c.Ite(b.a[0], c.IBin(op, a, b.a[1]), c.IBin(op, a, b.a[2]))
	}
	if (op == OIAdd || op == OIMul || op == OIAnd || op == OIOr || op == OIXor) && a.id > b.id {
		a, b = b, a
	}
	return c.mk(termKey{op: op, sort: SInt, w: w}, []*Term{a, b})
}

// constTree reports whether t is an ite tree (depth <= d) with constant leaves.
func constTree(t *Term, d int) bool {
	if t.op != OIte || d == 0 {
		return false
	}
	for _, x := range t.a[1:] {
		if !x.isConst() && !constTree(x, d-1) {
			return false
		}
	}
	return true
}

func (c *Ctx) INeg(a *Term) *Term {
	if a.isConst() {
		return c.Int(-a.iv, a.w)
	}
	return c.mk(termKey{op: OINeg, sort: SInt, w: a.w}, []*Term{a})
}
func (c *Ctx) IInv(a *Term) *Term {
	if a.isConst() {
		return c.Int(^a.iv, a.w)
	}
	return c.mk(termKey{op: OIInv, sort: SInt, w: a.w}, []*Term{a})
}

func (c *Ctx) IEq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.iv == b.iv)
	}
	if a.ihi < b.ilo || b.ihi < a.ilo {
		return c.False
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && a.op == OIte && (a.a[1].isConst() || a.a[2].isConst() || constTree(a, 6)) {
		return c.Ite(a.a[0], c.IEq(a.a[1], b), c.IEq(a.a[2], b))
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(termKey{op: OIEq, sort: SBool}, []*Term{a, b})
}

func (c *Ctx) ILt(a, b *Term, signed bool) *Term {
	if a == b {
		return c.False
	}
	op := OIULt
	if signed {
		op = OISLt
	}
	if a.isConst() && b.isConst() {
		if signed {
			return c.Bool(a.sval() < b.sval())
		}
		return c.Bool(a.iv < b.iv)
	}
	if signed || (a.ilo >= 0 && b.ilo >= 0) {
		if a.ihi < b.ilo {
			return c.True
		}
		if a.ilo >= b.ihi {
			return c.False
		}
	}
	if b.isConst() && a.op == OIte && (a.a[1].isConst() || a.a[2].isConst() || constTree(a, 6)) {
		return c.Ite(a.a[0], c.ILt(a.a[1], b, signed), c.ILt(a.a[2], b, signed))
	}
	if a.isConst() && b.op == OIte && (b.a[1].isConst() || b.a[2].isConst() || constTree(b, 6)) {
		return c.Ite(b.a[0], c.ILt(a, b.a[1], signed), c.ILt(a, b.a[2], signed))
	}
	return c.mk(termKey{op: op, sort: SBool}, []*Term{a, b})
}

func (c *Ctx) ILe(a, b *Term, signed bool) *Term { return c.Not(c.ILt(b, a, signed)) }

// IConv converts an integer to width w, extending by sign if signed.
func (c *Ctx) IConv(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if signed {
			return c.Int(uint64(a.sval()), w)
		}
		return c.Int(a.iv, w)
	}
	if a.op == OIte {
		return c.Ite(a.a[0], c.IConv(a.a[1], w, signed), c.IConv(a.a[2], w, signed))
	}
	op := OIZext
	if w < a.w {
		op = OITrunc
	} else if signed {
		op = OISext
	}
	return c.mk(termKey{op: op, sort: SInt, w: w}, []*Term{a})
}

// ---------- floats

func (c *Ctx) F(v float64) *Term {
	b := math.Float64bits(v)
	if v == 0 && c.mode.poly() {
		b = 0
	}
	if v != v {
		b = math.Float64bits(math.NaN())
	}
	return c.mk(termKey{op: OConst, sort: SFloat, iv: b}, nil)
}

func (c *Ctx) FloatVar(name string, lo, hi float64, grid int) *Term {
	t := c.mkVar(name, fmt.Sprintf("f%v,%v,%d", lo, hi, grid), termKey{op: OVar, sort: SFloat})
	t.lo, t.hi, t.grid, t.fin = lo, hi, grid, true
	if grid == noGrid {
		t.grid = -1074
	}
	return t
}

func dyadic(v float64) int { // largest g with v a multiple of 2^g
	if v == 0 || math.IsInf(v, 0) || v != v {
		return 1023
	}
	b := math.Float64bits(v)
	m := b & (1<<52 - 1)
	e := int(b >> 52 & 0x7ff)
	if e == 0 {
		return bits.TrailingZeros64(m) - 1074
	}
	m |= 1 << 52
	return bits.TrailingZeros64(m) + e - 1075
}

func maxabs(t *Term) float64 { return math.Max(math.Abs(t.lo), math.Abs(t.hi)) }

func (c *Ctx) floatFacts(t *Term) {
	t.lo, t.hi = math.Inf(-1), math.Inf(1)
	a, b := t.a[0], t.a[1]
	fin := func(lo, hi float64) {
		if lo != lo || hi != hi || math.IsInf(lo, 0) || math.IsInf(hi, 0) {
			t.fin = false
			return
		}
		t.lo, t.hi, t.fin = lo, hi, true
	}
	ng := func(g int) {
		if g < -1074 {
			g = -1074
		}
		t.grid = g
	}
	switch t.op {
	case OConst:
		if t.fv == t.fv && !math.IsInf(t.fv, 0) {
			t.fin = true
			t.lo, t.hi = t.fv, t.fv
			t.grid = dyadic(t.fv)
		} else if t.fv == t.fv {
			t.lo, t.hi = t.fv, t.fv
		}
	case OIte:
		x, y := t.a[1], t.a[2]
		t.fin = x.fin && y.fin
		t.lo, t.hi = math.Min(x.lo, y.lo), math.Max(x.hi, y.hi)
		t.grid = min(x.grid, y.grid)
	case OFAdd:
		if a.fin && b.fin {
			fin(a.lo+b.lo, a.hi+b.hi)
			ng(min(a.grid, b.grid))
		}
	case OFSub:
		if a.fin && b.fin {
			fin(a.lo-b.hi, a.hi-b.lo)
			ng(min(a.grid, b.grid))
		}
	case OFMul:
		if a.fin && b.fin {
			p := []float64{a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}
			l, h := p[0], p[0]
			for _, x := range p {
				l, h = math.Min(l, x), math.Max(h, x)
			}
			if a == b {
				l = 0
				if a.lo > 0 {
					l = a.lo * a.lo
				} else if a.hi < 0 {
					l = a.hi * a.hi
				}
			}
			fin(l, h)
			ng(a.grid + b.grid)
		}
	case OFDiv:
		if a.fin && b.fin {
			if b.lo > 0 || b.hi < 0 {
				p := []float64{a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi}
				l, h := p[0], p[0]
				for _, x := range p {
					l, h = math.Min(l, x), math.Max(h, x)
				}
				fin(l, h)
			} else if c.mode.poly() && b.grid > -1000 {
				// the denominator is known to be non-zero where the quotient is used (forked before)
				m := maxabs(a) / math.Ldexp(1, b.grid)
				fin(-m, m)
			}
			ng(-1074)
			if b.isConst() {
				if f, e := math.Frexp(b.fv); f == 0.5 || f == -0.5 {
					ng(a.grid - (e - 1))
				}
			}
		}
	case OFNeg:
		t.fin, t.lo, t.hi, t.grid = a.fin, -a.hi, -a.lo, a.grid
	case OFAbs:
		t.fin, t.grid = a.fin, a.grid
		t.hi = maxabs(a)
		t.lo = 0
		if a.lo > 0 {
			t.lo = a.lo
		} else if a.hi < 0 {
			t.lo = -a.hi
		}
	case OFMin:
		t.fin, t.lo, t.hi, t.grid = a.fin && b.fin, math.Min(a.lo, b.lo), math.Min(a.hi, b.hi), min(a.grid, b.grid)
	case OFMax:
		t.fin, t.lo, t.hi, t.grid = a.fin && b.fin, math.Max(a.lo, b.lo), math.Max(a.hi, b.hi), min(a.grid, b.grid)
	case OFSqrt:
		if a.fin && (a.lo >= 0) {
			fin(math.Sqrt(a.lo), math.Sqrt(a.hi))
			ng(-1074)
		}
	case OFFloor:
		t.fin, t.lo, t.hi, t.grid = a.fin, math.Floor(a.lo), math.Floor(a.hi), 0
	case OFCeil:
		t.fin, t.lo, t.hi, t.grid = a.fin, math.Ceil(a.lo), math.Ceil(a.hi), 0
	case OFTrunc:
		t.fin, t.lo, t.hi, t.grid = a.fin, math.Trunc(a.lo), math.Trunc(a.hi), 0
	case OFMod:
		if a.fin && b.isConst() && b.fin && b.fv != 0 {
			m := math.Abs(b.fv)
			hi := math.Nextafter(m, 0)
			lo := -hi
			if a.lo >= 0 {
				lo = 0
			}
			if a.hi <= 0 {
				hi = 0
			}
			lo, hi = math.Max(lo, math.Min(a.lo, 0)), math.Min(hi, math.Max(a.hi, 0))
			fin(lo, hi)
			ng(min(a.grid, b.grid))
		}
	case OI2F:
		fin(float64(a.ilo), float64(a.ihi))
		ng(0)
	case OU2F:
		if a.ilo >= 0 {
			fin(float64(a.ilo), float64(a.ihi))
		} else {
			fin(0, math.Ldexp(1, int(a.w)))
		}
		ng(0)
	}
	if t.op != OConst && t.fin && t.grid > 1000 && t.lo == 0 && t.hi == 0 {
		t.grid = 0
	}
}

func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := a.fv, b.fv
		switch op {
		case OFAdd:
			return c.F(x + y)
		case OFSub:
			return c.F(x - y)
		case OFMul:
			return c.F(x * y)
		case OFDiv:
			return c.F(x / y)
		case OFMod:
			return c.F(math.Mod(x, y))
		}
	}
	nan := func(t *Term) bool { return t.isConst() && t.fv != t.fv }
	if nan(a) || nan(b) {
		return c.F(math.NaN())
	}
	poly := c.mode.poly()
	cz := func(t *Term) bool { return t.isConst() && t.fv == 0 }
	inf := func(t *Term) bool { return t.isConst() && math.IsInf(t.fv, 0) }
	switch op {
	case OFAdd:
		if poly {
			if cz(a) {
				return b
			}
			if cz(b) {
				return a
			}
			if inf(a) && b.fin {
				return a
			}
			if inf(b) && a.fin {
				return b
			}
		}
		if poly && a.op == OFSub && a.a[1] == b && exactSum(a) {
			return a.a[0]
		}
		if poly && b.op == OFSub && b.a[1] == a && exactSum(b) {
			return b.a[0]
		}
		// x + (-y) = x - y ; (-x) + y = y - x
		if b.op == OFNeg {
			return c.FBin(OFSub, a, b.a[0])
		}
		if a.op == OFNeg {
			return c.FBin(OFSub, b, a.a[0])
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OFSub:
		if b.isConst() && b.fv == 0 && !math.Signbit(b.fv) {
			return a
		}
		if poly && cz(b) {
			return a
		}
		if poly {
			if inf(a) && b.fin {
				return a
			}
			if inf(b) && a.fin {
				return c.F(-b.fv)
			}
			if cz(a) {
				return c.FNeg(b)
			}
		}
		if a == b && a.fin {
			return c.F(0)
		}
		if b.op == OFNeg {
			return c.FBin(OFAdd, a, b.a[0])
		}
		if poly && exactSum(a) {
			switch {
			case a.a[0] == b && a.op == OFSub:
				return c.FNeg(a.a[1])
			case a.a[0] == b:
				return a.a[1]
			case a.a[1] == b && a.op == OFAdd:
				return a.a[0]
			}
		}
		if poly && a.op == OFNeg && !b.isConst() {
			return c.FNeg(c.FBin(OFAdd, a.a[0], b))
		}
	case OFMul:
		if a.isConst() && !b.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.fv == 1 {
			return a
		}
		if b.isConst() && b.fv == -1 {
			return c.FNeg(a)
		}
		if poly && cz(b) && a.fin {
			return b
		}
		// signs come out of products exactly
		if a.op == OFNeg && b.op == OFNeg {
			return c.FBin(OFMul, a.a[0], b.a[0])
		}
		if a.op == OFNeg {
			return c.FNeg(c.FBin(OFMul, a.a[0], b))
		}
		if b.op == OFNeg {
			return c.FNeg(c.FBin(OFMul, a, b.a[0]))
		}
		// (x-y)*(x-y) is the same for (y-x)*(y-x)
		if a == b && a.op == OFSub && a.a[0].id > a.a[1].id {
			s := c.FBin(OFSub, a.a[1], a.a[0])
			return c.FBin(OFMul, s, s)
		}
		if a == b && a.op == OFAbs {
			return c.FBin(OFMul, a.a[0], a.a[0])
		}
		if poly {
			if inf(b) && a.fin && (a.lo > 0 || a.hi < 0) {
				if a.lo > 0 {
					return b
				}
				return c.F(-b.fv)
			}
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case OFDiv:
		if b.isConst() && b.fv == 1 {
			return a
		}
		if b.isConst() && b.fv == -1 {
			return c.FNeg(a)
		}
		if poly && inf(b) && a.fin {
			return c.F(0)
		}
		if poly && cz(a) && b.fin && (b.lo > 0 || b.hi < 0) {
			return a
		}
		if a.op == OFNeg && b.op == OFNeg {
			return c.FBin(OFDiv, a.a[0], b.a[0])
		}
		if a.op == OFNeg {
			return c.FNeg(c.FBin(OFDiv, a.a[0], b))
		}
		if b.op == OFNeg {
			return c.FNeg(c.FBin(OFDiv, a, b.a[0]))
		}
		if b.isConst() {
			if f, e := math.Frexp(b.fv); (f == 0.5 || f == -0.5) && e > -500 && e < 500 {
				return c.FBin(OFMul, a, c.F(1/b.fv)) // exact reciprocal: same correctly rounded result
			}
		}
	}
	if op != OFMod {
		// arithmetic on ite trees with constants
		if b.isConst() && constTree(a, 3) {
			return c.Ite(a.a[0], c.FBin(op, a.a[1], b), c.FBin(op, a.a[2], b))
		}
		if a.isConst() && constTree(b, 3) {
			return c.Ite(b.a[0], c.FBin(op, a, b.a[1]), c.FBin(op, a, b.a[2]))
		}
	}
	return c.mk(termKey{op: op, sort: SFloat}, []*Term{a, b})
}

func (c *Ctx) FNeg(a *Term) *Term {
	if a.isConst() {
		return c.F(-a.fv)
	}
	if a.op == OFNeg {
		return a.a[0]
	}
	if c.mode.poly() && a.op == OFSub {
		return c.FBin(OFSub, a.a[1], a.a[0]) // exact up to the sign of zero, which poly modes do not track
	}
	return c.mk(termKey{op: OFNeg, sort: SFloat}, []*Term{a})
}

func (c *Ctx) FAbs(a *Term) *Term {
	if a.isConst() {
		return c.F(math.Abs(a.fv))
	}
	if a.op == OFAbs {
		return a
	}
	if a.op == OFNeg {
		return c.FAbs(a.a[0])
	}
	if a.lo >= 0 && a.fin {
		return a
	}
	if a.op == OFSub && a.a[0].id > a.a[1].id {
		return c.FAbs(c.FBin(OFSub, a.a[1], a.a[0]))
	}
	return c.mk(termKey{op: OFAbs, sort: SFloat}, []*Term{a})
}

// FMin and FMax follow math.Min/Max for finite arguments (callers handle non-finite ones).
func (c *Ctx) FMin(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() && b.isConst() {
		return c.F(math.Min(a.fv, b.fv))
	}
	if a.fin && b.fin {
		if a.hi < b.lo || (c.mode.poly() && a.hi <= b.lo) {
			return a
		}
		if b.hi < a.lo || (c.mode.poly() && b.hi <= a.lo) {
			return b
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(termKey{op: OFMin, sort: SFloat}, []*Term{a, b})
}

func (c *Ctx) FMax(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() && b.isConst() {
		return c.F(math.Max(a.fv, b.fv))
	}
	if a.fin && b.fin {
		if a.hi < b.lo || (c.mode.poly() && a.hi <= b.lo) {
			return b
		}
		if b.hi < a.lo || (c.mode.poly() && b.hi <= a.lo) {
			return a
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(termKey{op: OFMax, sort: SFloat}, []*Term{a, b})
}

func (c *Ctx) FUn(op Op, a *Term) *Term {
	if a.isConst() {
		switch op {
		case OFSqrt:
			return c.F(math.Sqrt(a.fv))
		case OFFloor:
			return c.F(math.Floor(a.fv))
		case OFCeil:
			return c.F(math.Ceil(a.fv))
		case OFTrunc:
			return c.F(math.Trunc(a.fv))
		}
	}
	if op == OFSqrt && c.mode.poly() && a.op == OFMul && a.a[0] == a.a[1] && exactProduct(a) {
		return c.FAbs(a.a[0]) // the square is exact, so its root is exact
	}
	if op != OFSqrt && a.fin && a.grid >= 0 {
		return a
	}
	return c.mk(termKey{op: op, sort: SFloat}, []*Term{a})
}

// exactSum is: t is a sum or difference that is never rounded.
func exactSum(t *Term) bool {
	if t.op != OFAdd && t.op != OFSub {
		return false
	}
	x, y := t.a[0], t.a[1]
	g := min(x.grid, y.grid)
	return x.fin && y.fin && g > -1000 && g < 1000 && maxabs(x)+maxabs(y) <= math.Ldexp(1, 53+g)
}

func exactProduct(t *Term) bool {
	g := t.a[0].grid + t.a[1].grid
	return t.fin && g > -1000 && maxabs(t) <= math.Ldexp(1, 53+g)
}

func (c *Ctx) FLt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(a.fv < b.fv)
	}
	if (a.isConst() && a.fv != a.fv) || (b.isConst() && b.fv != b.fv) || a == b {
		return c.False
	}
	if a.fin && b.fin || a.fin && b.isConst() || b.fin && a.isConst() {
		if a.hi < b.lo {
			return c.True
		}
		if a.lo >= b.hi {
			return c.False
		}
	}
	if t := c.cmpDist(a, b, c.FLt); t != nil {
		return t
	}
	if t := c.cmpMono(OFLt, a, b); t != nil {
		return t
	}
	return c.mk(termKey{op: OFLt, sort: SBool}, []*Term{a, b})
}

func (c *Ctx) FLe(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(a.fv <= b.fv)
	}
	if (a.isConst() && a.fv != a.fv) || (b.isConst() && b.fv != b.fv) {
		return c.False
	}
	if a.fin && b.fin {
		return c.Not(c.FLt(b, a))
	}
	if a.fin && b.isConst() || b.fin && a.isConst() {
		if a.hi <= b.lo {
			return c.True
		}
		if a.lo > b.hi {
			return c.False
		}
	}
	if t := c.cmpDist(a, b, c.FLe); t != nil {
		return t
	}
	return c.mk(termKey{op: OFLe, sort: SBool}, []*Term{a, b})
}

// coarse values are zero or not tiny.
func coarse(t *Term) bool {
	return t.fin && t.sort == SFloat && (t.grid > -250 || t.op == OFSqrt && t.a[0].fin && t.a[0].grid > -250)
}

func (c *Ctx) FEq(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(a.fv == b.fv)
	}
	if (a.isConst() && a.fv != a.fv) || (b.isConst() && b.fv != b.fv) {
		return c.False
	}
	if a == b && a.fin {
		return c.True
	}
	if a == b {
		return c.Not(c.FIsNaN(a))
	}
	if a.fin && b.fin || a.fin && b.isConst() || b.fin && a.isConst() {
		if a.hi < b.lo || b.hi < a.lo {
			return c.False
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if t := c.cmpDist(a, b, c.FEq); t != nil {
		return t
	}
	// a choice compared with one of its own branches
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if u, v := p[0], p[1]; u.op == OIte && (u.a[1] == v || u.a[2] == v) {
			return c.Ite(u.a[0], c.FEq(u.a[1], v), c.FEq(u.a[2], v))
		}
	}
	// x - y == 0 exactly when x == y (gradual underflow)
	if b.isConst() && b.fv == 0 && a.op == OFSub && a.a[0].fin && a.a[1].fin {
		return c.FEq(a.a[0], a.a[1])
	}
	// nothing underflows on a grid
	if b.isConst() && b.fv == 0 && c.mode.poly() && a.fin && a.n == 2 && coarse(a.a[0]) && coarse(a.a[1]) {
		if a.op == OFMul {
			return c.Or(c.FEq(a.a[0], b), c.FEq(a.a[1], b))
		}
		if a.op == OFAdd && a.a[0].lo >= 0 && a.a[1].lo >= 0 {
			return c.And(c.FEq(a.a[0], b), c.FEq(a.a[1], b))
		}
	}
	if b.isConst() && b.fv == 0 && (a.op == OFAbs || a.op == OFNeg || a.op == OFSqrt && a.fin) {
		return c.FEq(a.a[0], b)
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(termKey{op: OFEq, sort: SBool}, []*Term{a, b})
}

// cmpDist pushes a comparison with a constant into an ite with a constant branch.
func (c *Ctx) cmpDist(a, b *Term, f func(x, y *Term) *Term) *Term {
	if b.isConst() && a.op == OIte && (a.a[1].isConst() || a.a[2].isConst()) {
		return c.Ite(a.a[0], f(a.a[1], b), f(a.a[2], b))
	}
	if a.isConst() && b.op == OIte && (b.a[1].isConst() || b.a[2].isConst()) {
		return c.Ite(b.a[0], f(a, b.a[1]), f(a, b.a[2]))
	}
	return nil
}

// cmpMono rewrites comparisons of differences with zero: fl(x-y) < 0 iff x < y.
func (c *Ctx) cmpMono(op Op, a, b *Term) *Term {
	if b.isConst() && b.fv == 0 && a.op == OFSub && a.a[0].fin && a.a[1].fin {
		return c.FLt(a.a[0], a.a[1])
	}
	if a.isConst() && a.fv == 0 && b.op == OFSub && b.a[0].fin && b.a[1].fin {
		return c.FLt(b.a[1], b.a[0])
	}
	if b.isConst() && b.fv == 0 && a.op == OFNeg && a.fin {
		return c.FLt(b, a.a[0])
	}
	if a.isConst() && a.fv == 0 && b.op == OFNeg && b.fin {
		return c.FLt(b.a[0], a)
	}
	return nil
}

func (c *Ctx) FIsNaN(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.fv != a.fv)
	}
	if a.fin {
		return c.False
	}
	if a.op == OIte {
		return c.Ite(a.a[0], c.FIsNaN(a.a[1]), c.FIsNaN(a.a[2]))
	}
	return c.mk(termKey{op: OFNaN, sort: SBool}, []*Term{a})
}

func (c *Ctx) FIsInf(a *Term) *Term {
	if a.isConst() {
		return c.Bool(math.IsInf(a.fv, 0))
	}
	if a.fin {
		return c.False
	}
	if a.op == OIte {
		return c.Ite(a.a[0], c.FIsInf(a.a[1]), c.FIsInf(a.a[2]))
	}
	return c.mk(termKey{op: OFInf, sort: SBool}, []*Term{a})
}

// UF is an uninterpreted float function with result bounds.
func (c *Ctx) UF(name string, lo, hi float64, args ...*Term) *Term {
	t := c.mk(termKey{op: OFUF, sort: SFloat, name: name}, args)
	t.lo, t.hi, t.fin, t.grid = lo, hi, true, -1074
	return t
}

func (c *Ctx) BUF(name string, args ...*Term) *Term {
	return c.mk(termKey{op: OBUF, sort: SBool, name: name}, args)
}

func (c *Ctx) I2F(a *Term, signed bool) *Term {
	if a.isConst() {
		if signed {
			return c.F(float64(a.sval()))
		}
		return c.F(float64(a.iv))
	}
	if a.op == OIte {
		return c.Ite(a.a[0], c.I2F(a.a[1], signed), c.I2F(a.a[2], signed))
	}
	op := OI2F
	if !signed && a.ilo < 0 {
		op = OU2F
	}
	return c.mk(termKey{op: op, sort: SFloat}, []*Term{a})
}

func (c *Ctx) F2I(a *Term, w uint8, signed bool) *Term {
	if a.isConst() {
		if signed {
			return c.Int(uint64(int64(a.fv)), w)
		}
		return c.Int(uint64(a.fv), w)
	}
	if a.fin && math.Trunc(a.lo) == math.Trunc(a.hi) && maxabs(a) < 1<<52 {
		return c.Int(uint64(int64(a.lo)), w)
	}
	if a.op == OIte {
		return c.Ite(a.a[0], c.F2I(a.a[1], w, signed), c.F2I(a.a[2], w, signed))
	}
	name := ""
	if !signed {
		name = "u"
	}
	return c.mk(termKey{op: OF2I, sort: SInt, w: w, name: name}, []*Term{a})
}
