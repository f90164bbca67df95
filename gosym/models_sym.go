package main

// Models of the harness API (package harness/sym) and of package math.

import (
	"fmt"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(x *Exec, fn *ssa.Function, args []Value) Value

var models = map[string]modelFn{}

func unit() Value { return Tuple(nil) }

func (x *Exec) noSpec(what string) {
	if x.spec > 0 {
		panic(abortSpec{what})
	}
}

func conStr(v Value) string {
	s, ok := v.(Str)
	if !ok || s.symbolic() {
		unsup("symbolic name")
	}
	return s.s
}

func conInt(v Value) int64 {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		unsup("constant expected")
	}
	return t.sval()
}

func conF(v Value) float64 {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		unsup("constant expected")
	}
	return t.fv
}

// fresh returns the unique name of the next input called base.
func (x *Exec) freshName(base string) string {
	x.noSpec("input")
	k := x.names[base]
	x.names[base] = k + 1
	if k > 0 {
		base = fmt.Sprintf("%s#%d", base, k)
	}
	x.inputs = append(x.inputs, base)
	return base
}

func (x *Exec) boundsNote(name, b string) {
	x.run.mu.Lock()
	x.run.bounds[name] = b
	x.run.mu.Unlock()
}

func baseName(n string) string {
	if i := strings.IndexByte(n, '#'); i >= 0 {
		n = n[:i]
	}
	return n
}

func (x *Exec) symF(base string, lo, hi float64, grid int) Value {
	n := x.freshName(base)
	d := fmt.Sprintf("[%v, %v]", lo, hi)
	if grid == noGrid {
		d += ", every double"
	} else {
		d += fmt.Sprintf(", multiples of 2^%d", grid)
	}
	x.boundsNote(baseName(n), d)
	if x.conc {
		return x.c.F(bitsF(x.concVal(n, func() uint64 { return fBits(x.randF(lo, hi, grid)) })))
	}
	if grid == noGrid && (x.c.mode == MBV || x.c.mode == MInt) {
		unsup("an input without grid in mode %v", x.c.mode)
	}
	return x.c.FloatVar(n, lo, hi, grid)
}

func (x *Exec) concVal(n string, f func() uint64) uint64 {
	v, ok := x.concIn[n]
	if !ok {
		v = f()
		x.concIn[n] = v
	}
	return v
}

func (x *Exec) randF(lo, hi float64, grid int) float64 {
	r := x.rnd
	if grid != noGrid {
		u := math.Ldexp(1, grid)
		l, h := int64(math.Ceil(lo/u)), int64(math.Floor(hi/u))
		return float64(l+r.Int63n(h-l+1)) * u
	}
	if math.IsInf(hi-lo, 0) || r.Intn(4) == 0 {
		for {
			f := bitsF(r.Uint64())
			if f == f && !math.IsInf(f, 0) && f >= lo && f <= hi {
				return f
			}
			if !math.IsInf(hi-lo, 0) {
				break
			}
		}
	}
	return math.Min(hi, math.Max(lo, lo+(hi-lo)*r.Float64()))
}

func boolSlice(v Value) []*Term {
	var r []*Term
	for _, e := range v.(Slice).a {
		r = append(r, e.(*Term))
	}
	return r
}

func init() {
	sym := func(name string, f modelFn) { models["harness/sym."+name] = f }
	sym("F", func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.symF(conStr(a[0]), conF(a[1]), conF(a[2]), int(conInt(a[3])))
	})
	sym("Any", func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.symF(conStr(a[0]), -math.MaxFloat64, math.MaxFloat64, noGrid)
	})
	sym("Real", func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.symF(conStr(a[0]), conF(a[1]), conF(a[2]), noGrid)
	})
	sym("Int", func(x *Exec, _ *ssa.Function, a []Value) Value {
		n := x.freshName(conStr(a[0]))
		lo, hi := conInt(a[1]), conInt(a[2])
		x.boundsNote(baseName(n), fmt.Sprintf("integers %d..%d", lo, hi))
		if x.conc {
			return x.c.I64(int64(x.concVal(n, func() uint64 { return uint64(lo + x.rnd.Int63n(hi-lo+1)) })))
		}
		return x.c.IntVar(n, 64, lo, hi)
	})
	sym("Choose", func(x *Exec, _ *ssa.Function, a []Value) Value {
		n := x.freshName(conStr(a[0]))
		k := conInt(a[1])
		x.boundsNote(baseName(n), fmt.Sprintf("each of %d choices", k))
		if x.conc {
			return x.c.I64(int64(x.concVal(n, func() uint64 { return uint64(x.rnd.Int63n(k)) })))
		}
		if k <= 1 {
			x.c.IntVar(n, 64, 0, 1)
			x.assume1(x.c.IEq(x.c.vars[n], x.c.I64(0)))
			return x.c.I64(0)
		}
		v := x.c.IntVar(n, 64, 0, k-1)
		for i := int64(0); i < k-1; i++ {
			if x.decide(x.c.IEq(v, x.c.I64(i))) {
				return x.c.I64(i)
			}
		}
		return x.c.I64(k - 1)
	})
	sym("Bool", func(x *Exec, _ *ssa.Function, a []Value) Value {
		n := x.freshName(conStr(a[0]))
		x.boundsNote(baseName(n), "both truth values")
		if x.conc {
			return x.c.Bool(x.concVal(n, func() uint64 { return uint64(x.rnd.Int63n(2)) }) != 0)
		}
		return x.c.BoolVar(n)
	})
	sym("Byte", func(x *Exec, _ *ssa.Function, a []Value) Value {
		n := x.freshName(conStr(a[0]))
		al := conStr(a[1])
		x.boundsNote(baseName(n), fmt.Sprintf("any byte of %q", al))
		if x.conc {
			return x.c.Int(x.concVal(n, func() uint64 { return uint64(al[x.rnd.Intn(len(al))]) }), 8)
		}
		lo, hi := int64(255), int64(0)
		var set [256]bool
		for i := 0; i < len(al); i++ {
			lo, hi = min(lo, int64(al[i])), max(hi, int64(al[i]))
			set[al[i]] = true
		}
		if lo == hi {
			hi++ // keep it a variable
		}
		if hi > 127 {
			unsup("non-ASCII alphabet")
		}
		// a 64-bit variable keeps the interval facts; bytes are its truncation
		v := x.c.IntVar(n, 64, lo, hi)
		for b := lo; b <= hi; b++ {
			if !set[b] {
				x.assume1(x.c.Not(x.c.IEq(v, x.c.I64(b))))
			}
		}
		return x.c.IConv(v, 8, false)
	})
	sym("Assume", func(x *Exec, _ *ssa.Function, a []Value) Value {
		x.noSpec("assume")
		if !x.assume1(a[0].(*Term)) {
			panic(pathEnd{"assumption"})
		}
		return unit()
	})
	sym("Assert", func(x *Exec, _ *ssa.Function, a []Value) Value {
		x.noSpec("assert")
		x.assert(a[0].(*Term), conStr(a[1]))
		return unit()
	})
	sym("And", func(x *Exec, _ *ssa.Function, a []Value) Value {
		r := x.c.True
		for _, t := range boolSlice(a[0]) {
			r = x.c.And(r, t)
		}
		return r
	})
	sym("Or", func(x *Exec, _ *ssa.Function, a []Value) Value {
		r := x.c.False
		for _, t := range boolSlice(a[0]) {
			r = x.c.Or(r, t)
		}
		return r
	})
	sym("Not", func(x *Exec, _ *ssa.Function, a []Value) Value { return x.c.Not(a[0].(*Term)) })
	sym("Implies", func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.c.Or(x.c.Not(a[0].(*Term)), a[1].(*Term))
	})
	sym("Iff", func(x *Exec, _ *ssa.Function, a []Value) Value { return x.c.BEq(a[0].(*Term), a[1].(*Term)) })
	ite := func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	}
	sym("IteF", ite)
	sym("IteI", ite)
	sym("IteB", ite)
	sym("Bound", func(x *Exec, _ *ssa.Function, a []Value) Value {
		v := conInt(a[1])
		if x.run.tier == "thorough" {
			v = conInt(a[2])
		}
		x.boundsNote(conStr(a[0]), fmt.Sprint(v))
		return x.c.I64(v)
	})
	sym("Panics", func(x *Exec, _ *ssa.Function, a []Value) (r Value) {
		d, fn := x.depth, x.curFn
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(goPanic); ok {
					x.depth, x.curFn = d, fn
					r = x.c.True
					return
				}
				panic(e)
			}
		}()
		x.callClosure(a[0].(*Closure), nil, nil)
		return x.c.False
	})
	sym("Observe", func(x *Exec, _ *ssa.Function, a []Value) Value {
		if x.spec > 0 {
			panic(abortSpec{"observe"})
		}
		if x.conc {
			x.obs = append(x.obs, fmt.Sprintf("%s=%x", conStr(a[0]), fBits(a[1].(*Term).fv)))
		}
		return unit()
	})
	sym("SameF", func(x *Exec, _ *ssa.Function, a []Value) Value {
		p, q := a[0].(*Term), a[1].(*Term)
		if p == q {
			return x.c.True
		}
		if p.isConst() && q.isConst() {
			return x.c.Bool(p.iv == q.iv)
		}
		if x.c.mode == MFP {
			return x.c.And(x.c.FEq(p, q), x.c.BEq(x.signbit(p), x.signbit(q)))
		}
		return x.c.FEq(p, q)
	})
}

func (x *Exec) signbit(t *Term) *Term {
	if t.isConst() {
		return x.c.Bool(math.Signbit(t.fv))
	}
	if x.c.mode == MFP {
		return x.c.BUF("signbit", t)
	}
	return x.c.FLt(t, x.c.F(0))
}

// assume1 adds a condition to the path; false if the path ends.
func (x *Exec) assume1(t *Term) bool {
	if t.isTrue() {
		return true
	}
	if t.isFalse() {
		return false
	}
	if x.conc {
		v, ok := x.evalBool(t, x.base)
		return ok && v
	}
	if v, ok := x.isKnown(t); ok {
		return v
	}
	r, m := x.sat(t)
	if r == Unsat {
		return false
	}
	x.push(t, m)
	return true
}

// ---------- math

func (x *Exec) minmax(isMin bool, a, b *Term) *Term {
	c := x.c
	f := c.FMin
	if !isMin {
		f = c.FMax
	}
	if a.isConst() && b.isConst() {
		if isMin {
			return c.F(math.Min(a.fv, b.fv))
		}
		return c.F(math.Max(a.fv, b.fv))
	}
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[0].isConst() && p[0].fv != p[0].fv {
			return p[0]
		}
		if p[0].isConst() && math.IsInf(p[0].fv, 0) && p[1].fin {
			if (p[0].fv < 0) == isMin {
				return p[0]
			}
			return p[1]
		}
	}
	if a.fin && b.fin {
		return f(a, b)
	}
	return c.Ite(c.Or(c.FIsNaN(a), c.FIsNaN(b)), c.F(math.NaN()), f(a, b))
}

func (x *Exec) sqrt(a *Term) *Term {
	c := x.c
	if a.isConst() {
		return c.F(math.Sqrt(a.fv))
	}
	if !c.mode.poly() {
		return c.FUn(OFSqrt, a)
	}
	if a.fin && a.lo >= 0 {
		return c.FUn(OFSqrt, a)
	}
	if a.op == OIte {
		return c.Ite(a.a[0], x.sqrt(a.a[1]), x.sqrt(a.a[2]))
	}
	if x.decide(c.FLt(a, c.F(0))) {
		return c.F(math.NaN())
	}
	return c.FUn(OFSqrt, c.FMax(a, c.F(0)))
}

// finite reports (forking if needed) whether t is neither NaN nor infinite.
func (x *Exec) finite(t *Term) bool {
	if t.fin {
		return true
	}
	if t.isConst() {
		return t.fv == t.fv && !math.IsInf(t.fv, 0)
	}
	return !x.decide(x.c.Or(x.c.FIsNaN(t), x.c.FIsInf(t)))
}

func wide(lo, hi float64) (float64, float64) {
	w := func(v, d float64) float64 { return v + d*(math.Abs(v)*1e-14+1e-300) }
	return w(lo, -1), w(hi, 1)
}

func (x *Exec) trig(name string, a *Term) *Term {
	c := x.c
	if a.isConst() {
		return c.F(ufNative[name]([]float64{a.fv}))
	}
	if a.op == OIte {
		return c.Ite(a.a[0], x.trig(name, a.a[1]), x.trig(name, a.a[2]))
	}
	odd := name == "sin" || name == "tan" || name == "asin" || name == "atan"
	if a.op == OFNeg && (odd || name == "cos") {
		r := x.trig(name, a.a[0])
		if odd {
			return c.FNeg(r)
		}
		return r
	}
	if name == "cos" && a.op == OFAbs {
		return x.trig(name, a.a[0])
	}
	if a.op == OFSub && a.a[0].id > a.a[1].id && c.mode.poly() && (odd || name == "cos") {
		r := x.trig(name, c.FBin(OFSub, a.a[1], a.a[0]))
		if odd {
			return c.FNeg(r)
		}
		return r
	}
	// (x-y)/k and (x-y)*k with constant k
	if (a.op == OFDiv || a.op == OFMul) && c.mode.poly() && a.a[1].isConst() && a.a[0].op == OFSub && a.a[0].a[0].id > a.a[0].a[1].id && (odd || name == "cos") {
		r := x.trig(name, c.FBin(a.op, c.FBin(OFSub, a.a[0].a[1], a.a[0].a[0]), a.a[1]))
		if odd {
			return c.FNeg(r)
		}
		return r
	}
	if !x.finite(a) {
		if name == "atan" || name == "exp" || name == "log" {
			unsup("%s of an infinite value", name)
		}
		return c.F(math.NaN())
	}
	x.stub("math." + name + ": uninterpreted, deterministic; assumed: range on monotone intervals, odd/even symmetry, value at 0")
	lo, hi := a.lo, a.hi
	in := func(p, q float64) bool { return lo >= p && hi <= q }
	f := func(v float64) float64 { return ufNative[name]([]float64{v}) }
	rl, rh := math.Inf(-1), math.Inf(1)
	switch name {
	case "sin":
		rl, rh = -1, 1
		if in(-math.Pi/2, math.Pi/2) {
			rl, rh = wide(f(lo), f(hi))
		} else if in(0, math.Pi) {
			rl = 0
		} else if in(-math.Pi, 0) {
			rh = 0
		}
	case "cos":
		rl, rh = -1, 1
		if in(-math.Pi/2, math.Pi/2) {
			rl, _ = wide(math.Min(f(lo), f(hi)), 0)
		} else if in(0, math.Pi) {
			rl, rh = wide(f(hi), f(lo))
		}
	case "tan":
		rl, rh = -2e16, 2e16
		if in(-1.57, 1.57) {
			rl, rh = wide(f(lo), f(hi))
		}
	case "asin", "acos":
		if lo < -1 || hi > 1 {
			if x.decide(c.Or(c.FLt(a, c.F(-1)), c.FLt(c.F(1), a))) {
				return c.F(math.NaN())
			}
			lo, hi = math.Max(lo, -1), math.Min(hi, 1)
		}
		rl, rh = f(lo), f(hi)
		if name == "acos" {
			rl, rh = rh, rl
		}
		rl, rh = wide(rl, rh)
		if name == "acos" {
			rl = math.Max(rl, 0)
		}
		rl, rh = math.Max(rl, -math.Pi), math.Min(rh, math.Pi)
	case "atan":
		rl, rh = wide(f(lo), f(hi))
		rl, rh = math.Max(rl, -math.Pi/2), math.Min(rh, math.Pi/2)
	case "exp":
		rl, rh = f(lo), f(hi)
		rl, rh = wide(rl, rh)
		rl = math.Max(rl, 0)
		if math.IsInf(rh, 0) {
			unsup("exp overflow")
		}
	case "log", "log2", "log10":
		if lo <= 0 {
			if x.decide(c.FLt(a, c.F(0))) {
				return c.F(math.NaN())
			}
			if x.decide(c.FEq(a, c.F(0))) {
				return c.F(math.Inf(-1))
			}
			lo = 5e-324
		}
		rl, rh = wide(f(lo), f(hi))
	case "cbrt":
		rl, rh = wide(f(lo), f(hi))
	}
	if (name == "sin" || name == "cos") && rl < -1 {
		rl = -1
	}
	if (name == "sin" || name == "cos") && rh > 1 {
		rh = 1
	}
	r := c.UF(name, rl, rh, a)
	if a.lo <= 0 && a.hi >= 0 && (odd || name == "cos" || name == "exp" || name == "cbrt") {
		z := a
		if c.mode.poly() {
			r = c.Ite(c.FEq(a, c.F(0)), c.F(f(0)), r)
		} else if odd || name == "cbrt" {
			r = c.Ite(c.FEq(a, c.F(0)), z, r) // keeps the sign of zero
		} else {
			r = c.Ite(c.FEq(a, c.F(0)), c.F(f(0)), r)
		}
	}
	return r
}

func (x *Exec) atan2(y, z *Term) *Term {
	c := x.c
	if y.isConst() && z.isConst() {
		return c.F(math.Atan2(y.fv, z.fv))
	}
	if y.op == OIte && c.mode.poly() {
		return c.Ite(y.a[0], x.atan2(y.a[1], z), x.atan2(y.a[2], z))
	}
	if z.op == OIte && c.mode.poly() {
		return c.Ite(z.a[0], x.atan2(y, z.a[1]), x.atan2(y, z.a[2]))
	}
	if !x.finite(y) || !x.finite(z) {
		if x.decide(c.Or(c.FIsNaN(y), c.FIsNaN(z))) {
			return c.F(math.NaN())
		}
		unsup("atan2 of an infinite value")
	}
	x.stub("math.atan2: uninterpreted, deterministic; assumed: range [-pi, pi], quadrant of the arguments, exact values on the axes, the half and quarter plane that the difference of two angles lies in (the sign of zero is not tracked outside the fp lowering)")
	zero := c.F(0)
	pi := math.Pi
	r := c.UF("atan2", -pi, pi, y, z)
	if !c.mode.poly() {
		return r
	}
	// quadrants, exact on the axes
	ypos, yneg := c.FLt(zero, y), c.FLt(y, zero)
	zpos, zneg := c.FLt(zero, z), c.FLt(z, zero)
	q := func(lo, hi float64) *Term { return c.FMin(c.FMax(r, c.F(lo)), c.F(hi)) }
	onY := func(v, w float64) *Term { return c.Ite(zpos, c.F(v), c.Ite(zneg, c.F(w), c.F(0))) }
	res := c.Ite(ypos,
		c.Ite(zpos, q(0, pi/2), c.Ite(zneg, q(pi/2, pi), c.F(pi/2))),
		c.Ite(yneg,
			c.Ite(zpos, q(-pi/2, 0), c.Ite(zneg, q(-pi, -pi/2), c.F(-pi/2))),
			onY(0, pi)))
	return res
}

func (x *Exec) pow(a, b *Term) *Term {
	c := x.c
	if a.isConst() && b.isConst() {
		return c.F(math.Pow(a.fv, b.fv))
	}
	if b.isConst() {
		y := b.fv
		switch {
		case y == 0:
			return c.F(1)
		case y == 1:
			return a
		case y == 0.5:
			return x.sqrt(a)
		case y == -0.5:
			return x.fdiv(c.F(1), x.sqrt(a))
		}
		if y == math.Trunc(y) && math.Abs(y) <= 64 {
			// the runtime multiplies by repeated squaring on scaled values: the same correctly rounded products
			// as long as nothing overflows or underflows
			x.assumption("math.Pow with an integer exponent is repeated squaring; overflow and underflow of intermediate products are outside the bound")
			n := int(math.Abs(y))
			var r *Term
			s := a
			for i := n; i != 0; i >>= 1 {
				if i&1 == 1 {
					if r == nil {
						r = s
					} else {
						r = c.FBin(OFMul, r, s)
					}
				}
				if i > 1 {
					s = c.FBin(OFMul, s, s)
				}
			}
			if y < 0 {
				return x.fdiv(c.F(1), r)
			}
			return r
		}
	}
	if a.isConst() && a.fv == 2 && b.fin && b.lo > -1000 && b.hi < 1000 {
		return c.UF("pow", 0, math.Ldexp(1, int(b.hi)+1), a, b)
	}
	if a.fin && a.lo > 0 && b.isConst() {
		lo, hi := math.Pow(a.lo, b.fv), math.Pow(a.hi, b.fv)
		if lo > hi {
			lo, hi = hi, lo
		}
		lo, hi = wide(lo, hi)
		return c.UF("pow", lo, hi, a, b)
	}
	unsup("math.Pow with these arguments")
	return nil
}

func (x *Exec) fmod(a, b *Term) *Term {
	c := x.c
	if a.isConst() && b.isConst() {
		return c.F(math.Mod(a.fv, b.fv))
	}
	if !b.isConst() || b.fv == 0 || b.fv != b.fv || math.IsInf(b.fv, 0) {
		unsup("math.Mod with a symbolic divisor")
	}
	if !x.finite(a) {
		return c.F(math.NaN())
	}
	if a.op == OFNeg && c.mode.poly() {
		return c.FNeg(x.fmod(a.a[0], b))
	}
	m := math.Abs(b.fv)
	if c.mode.poly() && maxabs(a) < m {
		return a
	}
	return c.FBin(OFMod, a, c.F(m))
}

func f1(name string, f func(x *Exec, a *Term) *Term) {
	models["math."+name] = func(x *Exec, _ *ssa.Function, a []Value) Value { return f(x, a[0].(*Term)) }
}
func f2(name string, f func(x *Exec, a, b *Term) *Term) {
	models["math."+name] = func(x *Exec, _ *ssa.Function, a []Value) Value { return f(x, a[0].(*Term), a[1].(*Term)) }
}

func init() {
	f1("Sqrt", (*Exec).sqrt)
	f1("Abs", func(x *Exec, a *Term) *Term { return x.c.FAbs(a) })
	f2("Min", func(x *Exec, a, b *Term) *Term { return x.minmax(true, a, b) })
	f2("Max", func(x *Exec, a, b *Term) *Term { return x.minmax(false, a, b) })
	un := func(op Op) func(x *Exec, a *Term) *Term {
		return func(x *Exec, a *Term) *Term { return x.c.FUn(op, a) }
	}
	f1("Floor", un(OFFloor))
	f1("Ceil", un(OFCeil))
	f1("Trunc", un(OFTrunc))
	f1("Round", func(x *Exec, a *Term) *Term {
		c := x.c
		if a.isConst() {
			return c.F(math.Round(a.fv))
		}
		x.assumption("math.Round(x) is trunc(x+copysign(0.5,x)) (they differ only for values one rounding step below a half)")
		return c.Ite(c.FLt(a, c.F(0)), c.FUn(OFCeil, c.FBin(OFSub, a, c.F(0.5))), c.FUn(OFFloor, c.FBin(OFAdd, a, c.F(0.5))))
	})
	f2("Mod", (*Exec).fmod)
	f2("Pow", (*Exec).pow)
	for _, n := range []string{"Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Exp", "Log", "Log2", "Log10", "Cbrt"} {
		nm := strings.ToLower(n)
		f1(n, func(x *Exec, a *Term) *Term { return x.trig(nm, a) })
	}
	f2("Atan2", (*Exec).atan2)
	f2("Hypot", func(x *Exec, a, b *Term) *Term {
		c := x.c
		if a.isConst() && b.isConst() {
			return c.F(math.Hypot(a.fv, b.fv))
		}
		x.stub("math.Hypot: taken as sqrt(a*a+b*b) (within one rounding step)")
		return x.sqrt(c.FBin(OFAdd, c.FBin(OFMul, a, a), c.FBin(OFMul, b, b)))
	})
	f1("IsNaN", func(x *Exec, a *Term) *Term { return x.c.FIsNaN(a) })
	models["math.IsInf"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		s := conInt(a[1])
		if t.isConst() {
			return x.c.Bool(math.IsInf(t.fv, int(s)))
		}
		r := x.c.FIsInf(t)
		if r.isFalse() {
			return r
		}
		switch {
		case s > 0:
			return x.c.And(r, x.c.FLt(x.c.F(0), t))
		case s < 0:
			return x.c.And(r, x.c.FLt(t, x.c.F(0)))
		}
		return r
	}
	models["math.NaN"] = func(x *Exec, _ *ssa.Function, a []Value) Value { return x.c.F(math.NaN()) }
	models["math.Inf"] = func(x *Exec, _ *ssa.Function, a []Value) Value { return x.c.F(math.Inf(int(conInt(a[0])))) }
	f1("Signbit", func(x *Exec, a *Term) *Term { return x.signbit(a) })
	f2("Copysign", func(x *Exec, a, b *Term) *Term {
		r := x.c.FAbs(a)
		return x.c.Ite(x.signbit(b), x.c.FNeg(r), r)
	})
	models["math.Modf"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		i := x.c.FUn(OFTrunc, t)
		return Tuple{i, x.c.FBin(OFSub, t, i)}
	}
	models["math.Float64bits"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.c.Int(fBits(conF(a[0])), 64)
	}
	models["math.Float64frombits"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.c.F(bitsF(uint64(conInt(a[0]))))
	}
	f2("Remainder", func(x *Exec, a, b *Term) *Term {
		if a.isConst() && b.isConst() {
			return x.c.F(math.Remainder(a.fv, b.fv))
		}
		unsup("math.Remainder")
		return nil
	})
	models["math.Sincos"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		t := a[0].(*Term)
		return Tuple{x.trig("sin", t), x.trig("cos", t)}
	}
	models["math.FMA"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.c.F(math.FMA(conF(a[0]), conF(a[1]), conF(a[2])))
	}
	models["math.Frexp"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		f, e := math.Frexp(conF(a[0]))
		return Tuple{x.c.F(f), x.c.I64(int64(e))}
	}
	models["math.Ldexp"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.c.FBin(OFMul, a[0].(*Term), x.c.F(math.Ldexp(1, int(conInt(a[1])))))
	}
}
