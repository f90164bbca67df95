package main

// Abstraction of a function verified by properties of its own: a harness with the directive abstract=Name treats calls of
// the exported function Name of go-geo with symbolic arguments as uninterpreted: equal arguments give equal results, the
// first number returned is in [0,1e15], others in +-1e15. What is shown holds whatever the function computes within that
// contract. With abstract=Name:metric the function is moreover taken as a distance of two points: symmetric, and zero from a
// point to itself (shown in C16). A counterexample is evaluated with the function's real code and replayed natively before it is reported.

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const absPrefix = "abs:"

func (x *Exec) abstractCall(fn *ssa.Function, args []Value) (Value, bool) {
	if len(x.run.h.abstract) == 0 || fn.Pkg == nil || fn.Signature.Recv() != nil || x.run.h.abstract[fn.Name()] == "" ||
		!x.inScope(fn.Pkg) || strings.HasPrefix(fn.Pkg.Pkg.Path(), "harness") {
		return nil, false
	}
	c := x.c
	var leaves []*Term
	shape := ""
	symbolic := false
	var flat func(v Value) bool
	flat = func(v Value) bool {
		switch v := v.(type) {
		case *Term:
			if v.sort == SFloat {
				leaves = append(leaves, v)
				symbolic = symbolic || !v.isConst()
				shape += "f"
				return true
			}
			if !v.isConst() {
				return false
			}
			shape += fmt.Sprintf("i%d:%x", v.w, v.iv)
			return true
		case StructV:
			for _, e := range v {
				if !flat(e) {
					return false
				}
			}
			return true
		case Str:
			if v.symbolic() {
				return false
			}
			shape += fmt.Sprintf("s%q", conStr(v))
			return true
		}
		return false
	}
	for _, a := range args {
		if !flat(a) {
			return nil, false
		}
	}
	if !symbolic {
		return nil, false
	}
	for _, l := range leaves {
		if l.op == OIte {
			return nil, false
		}
	}
	if x.run.h.abstract[fn.Name()] == "metric" {
		n := len(leaves) / 2
		zero, swap := true, false
		for i := n - 1; i >= 0; i-- {
			zero = zero && leaves[i] == leaves[n+i]
			if leaves[i] != leaves[n+i] {
				swap = leaves[i].id > leaves[n+i].id
			}
		}
		if zero {
			return c.F(0), true
		}
		if swap {
			leaves = append(append([]*Term{}, leaves[n:]...), leaves[:n]...)
		}
	}
	// terms take three arguments at most
	packed := leaves
	for len(packed) > 3 {
		var p []*Term
		for i := 0; i < len(packed); i += 3 {
			p = append(p, c.UF("pack", 0, 0, packed[i:min(i+3, len(packed))]...))
		}
		packed = p
	}
	if x.c.abs == nil {
		x.c.abs = map[string]absFn{}
	}
	key := absPrefix + fn.Name() + "/" + shape
	x.c.abs[key] = absFn{fn, args}
	k := 0
	var build func(t types.Type) Value
	build = func(t types.Type) Value {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			r := make(StructV, u.NumFields())
			for i := range r {
				r[i] = build(u.Field(i).Type())
			}
			return r
		case *types.Basic:
			if u.Kind() == types.Float64 {
				lo, hi := -1e15, 1e15
				if k == 0 {
					lo = 0
				}
				v := c.UF(fmt.Sprintf("%s#%d", key, k), lo, hi, packed...)
				k++
				return v
			}
		}
		unsup("abstraction of a result of type %v", t)
		return nil
	}
	res := fn.Signature.Results()
	x.fnSeen(fn)
	if res.Len() == 1 {
		return build(res.At(0).Type()), true
	}
	r := make(Tuple, res.Len())
	for i := range r {
		r[i] = build(res.At(i).Type())
	}
	return r, true
}

type absFn struct {
	fn   *ssa.Function
	args []Value // of one call, for their shape
}

// evalAbs evaluates an application by running the function's real code on the values of its arguments.
func (x *Exec) evalAbs(t *Term, m *Model) (r evalRes) {
	key, idx, _ := strings.Cut(t.name, "#")
	a, ok := x.c.abs[key]
	if !ok {
		return evalRes{}
	}
	var vals []float64
	var flat func(t *Term) bool
	flat = func(t *Term) bool {
		if t.op == OFUF && t.name == "pack" {
			for i := 0; i < int(t.n); i++ {
				if !flat(t.a[i]) {
					return false
				}
			}
			return true
		}
		e := x.eval(t, m)
		vals = append(vals, bitsF(e.u))
		return e.ok
	}
	for i := 0; i < int(t.n); i++ {
		if !flat(t.a[i]) {
			return evalRes{}
		}
	}
	ck := key
	for _, v := range vals {
		ck += fmt.Sprintf(",%x", math.Float64bits(v))
	}
	if x.absMemo == nil || len(x.absMemo) > 100000 {
		x.absMemo = map[string][]float64{}
	}
	out, ok := x.absMemo[ck]
	if !ok {
		out = x.runConst(a, vals)
		x.absMemo[ck] = out
	}
	var i int
	fmt.Sscan(idx, &i)
	if i >= len(out) {
		return evalRes{}
	}
	return evalRes{fBits(out[i]), true}
}

func (x *Exec) runConst(a absFn, vals []float64) (out []float64) {
	depth, fn, steps := x.depth, x.curFn, x.steps
	conc := x.conc
	defer func() {
		x.depth, x.curFn, x.steps, x.conc = depth, fn, steps, conc
		if recover() != nil {
			out = nil
		}
	}()
	n := 0
	var subst func(v Value) Value
	subst = func(v Value) Value {
		switch v := v.(type) {
		case *Term:
			if v.sort == SFloat {
				n++
				return x.c.F(vals[n-1])
			}
		case StructV:
			r := make(StructV, len(v))
			for i := range v {
				r[i] = subst(v[i])
			}
			return r
		}
		return v
	}
	var args []Value
	for _, v := range a.args {
		args = append(args, subst(v))
	}
	var collect func(v Value)
	collect = func(v Value) {
		switch v := v.(type) {
		case *Term:
			if !v.isConst() {
				panic("not constant")
			}
			out = append(out, v.fv)
		case StructV:
			for _, e := range v {
				collect(e)
			}
		case Tuple:
			for _, e := range v {
				collect(e)
			}
		}
	}
	collect(x.callBody(a.fn, args))
	return out
}
