package main

// Runtime values of the symbolic interpreter.

import (
	"fmt"
	"go/types"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool, int, float), Str, Ptr, Slice, StructV, ArrayV, Iface, *Closure, *MapV, Tuple, TokByte, *Native, nil.
type Value interface{}

type Ptr = *Value // nil pointer: (*Value)(nil)

type Slice struct{ a []Value } // nil slice: a == nil

type StructV []Value
type ArrayV []Value
type Tuple []Value

type Iface struct {
	t types.Type // nil: nil interface
	v Value
}

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(x *Exec, args []Value) Value
	name   string
}

type mapEntry struct {
	k, v Value
	dead bool
}

// MapV keeps its entries in insertion order; iteration order of the real map is abstracted to that order.
type MapV struct {
	ents []*mapEntry
}

// Native is an opaque value owned by a model.
type Native struct {
	kind string
	v    interface{}
}

// FTok is a formatted floating-point number inside a string.
type FTok struct {
	x    *Term
	fmt  byte
	prec int
	text string
	id   int
	// exact says that parsing the text gives back x bit for bit.
	exact bool
}

type SAnn struct {
	tok *FTok
	off int32
	sym *Term // symbolic byte
}

type Str struct {
	s   string
	ann []SAnn // nil, or one per byte
}

// TokByte is a byte of a formatted number held in a byte slice.
type TokByte struct {
	c   byte
	tok *FTok
	off int32
}

func S(s string) Str { return Str{s: s} }

func (s Str) annAt(i int) SAnn {
	if s.ann == nil {
		return SAnn{}
	}
	return s.ann[i]
}

func (s Str) sub(i, j int) Str {
	r := Str{s: s.s[i:j]}
	if s.ann != nil {
		for _, a := range s.ann[i:j] {
			if a.tok != nil || a.sym != nil {
				r.ann = s.ann[i:j]
				break
			}
		}
	}
	return r
}

func catStr(a, b Str) Str {
	r := Str{s: a.s + b.s}
	if a.ann != nil || b.ann != nil {
		r.ann = make([]SAnn, len(r.s))
		copy(r.ann, a.ann)
		copy(r.ann[len(a.s):], b.ann)
	}
	return r
}

func (s Str) symbolic() bool {
	for _, a := range s.ann {
		if a.sym != nil && !a.sym.isConst() {
			return true
		}
	}
	return false
}

type Unsupported struct{ msg string }

func unsup(format string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(format, a...)}) }

func under(t types.Type) types.Type { return t.Underlying() }

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// intType returns the width and signedness of an integer type.
func intType(t types.Type) (w uint8, signed bool, ok bool) {
	b, k := under(t).(*types.Basic)
	if !k {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (x *Exec) zero(t types.Type) Value {
	c := x.c
	switch u := t.(type) {
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = x.zero(u.At(i).Type())
		}
		return r
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return Ptr(nil)
		}
		if w, _, ok := intType(u); ok {
			return c.Int(0, w)
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return c.False
		case u.Info()&types.IsFloat != 0:
			return c.F(0)
		case u.Info()&types.IsString != 0:
			return Str{}
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return Slice{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*Native)(nil)
	case *types.Struct:
		r := make(StructV, u.NumFields())
		for i := range r {
			r[i] = x.zero(u.Field(i).Type())
		}
		return r
	case *types.Array:
		r := make(ArrayV, u.Len())
		for i := range r {
			r[i] = x.zero(u.Elem())
		}
		return r
	}
	unsup("zero value of %v", t)
	return nil
}

// copyVal copies structs and arrays (values share no storage).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case StructV:
		r := make(StructV, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	case ArrayV:
		r := make(ArrayV, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	}
	return v
}

func sameSlice(a, b Slice) bool {
	if len(a.a) != len(b.a) || cap(a.a) != cap(b.a) || (a.a == nil) != (b.a == nil) {
		return false
	}
	return cap(a.a) == 0 || unsafe.SliceData(a.a) == unsafe.SliceData(b.a)
}

// same reports whether two values are identical without consulting the solver.
func same(a, b Value) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case Slice:
		b, ok := b.(Slice)
		return ok && sameSlice(a, b)
	case StructV:
		b, ok := b.(StructV)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !same(a[i], b[i]) {
				return false
			}
		}
		return true
	case ArrayV:
		b, ok := b.(ArrayV)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !same(a[i], b[i]) {
				return false
			}
		}
		return true
	case Tuple:
		b, ok := b.(Tuple)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !same(a[i], b[i]) {
				return false
			}
		}
		return true
	case Str:
		b, ok := b.(Str)
		if !ok || a.s != b.s {
			return false
		}
		for i := range a.s {
			if a.annAt(i) != b.annAt(i) {
				return false
			}
		}
		return true
	case Iface:
		b, ok := b.(Iface)
		if !ok || (a.t == nil) != (b.t == nil) {
			return false
		}
		return a.t == nil || types.Identical(a.t, b.t) && same(a.v, b.v)
	}
	return a == b
}

// merge returns ite(g, a, b) if the values can be merged.
func (x *Exec) merge(g *Term, a, b Value) (Value, bool) {
	switch av := a.(type) {
	case *Term:
		bv, ok := b.(*Term)
		if !ok || av.sort != bv.sort || av.w != bv.w {
			return nil, false
		}
		return x.c.Ite(g, av, bv), true
	case StructV:
		bv, ok := b.(StructV)
		if !ok || len(av) != len(bv) {
			return nil, false
		}
		r := make(StructV, len(av))
		for i := range av {
			v, ok := x.merge(g, av[i], bv[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case ArrayV:
		bv, ok := b.(ArrayV)
		if !ok || len(av) != len(bv) {
			return nil, false
		}
		r := make(ArrayV, len(av))
		for i := range av {
			v, ok := x.merge(g, av[i], bv[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Tuple:
		bv, ok := b.(Tuple)
		if !ok || len(av) != len(bv) {
			return nil, false
		}
		r := make(Tuple, len(av))
		for i := range av {
			v, ok := x.merge(g, av[i], bv[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Iface:
		bv, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if av.t == nil && bv.t == nil {
			return a, true
		}
		if av.t == nil || bv.t == nil || !types.Identical(av.t, bv.t) {
			return nil, false
		}
		v, ok := x.merge(g, av.v, bv.v)
		if !ok {
			return nil, false
		}
		return Iface{av.t, v}, true
	}
	if same(a, b) {
		return a, true
	}
	return nil, false
}

// ---------- stores with journal

type undoRec struct {
	p   *Value
	old Value
	f   func()
}

func (x *Exec) setSlot(p *Value, v Value) {
	x.journal = append(x.journal, undoRec{p: p, old: *p})
	*p = v
}

// store writes v to the location p, keeping the storage of structs and arrays in place.
func (x *Exec) store(p *Value, v Value) {
	switch nv := v.(type) {
	case StructV:
		if old, ok := (*p).(StructV); ok && len(old) == len(nv) {
			if len(nv) > 0 && &old[0] == &nv[0] {
				return
			}
			// copy first: the value may be part of the destination
			tmp := make([]Value, len(nv))
			for i := range nv {
				tmp[i] = copyVal(nv[i])
			}
			for i := range tmp {
				x.store(&old[i], tmp[i])
			}
			return
		}
		x.setSlot(p, copyVal(v))
	case ArrayV:
		if old, ok := (*p).(ArrayV); ok && len(old) == len(nv) {
			if len(nv) > 0 && &old[0] == &nv[0] {
				return
			}
			tmp := make([]Value, len(nv))
			for i := range nv {
				tmp[i] = copyVal(nv[i])
			}
			for i := range tmp {
				x.store(&old[i], tmp[i])
			}
			return
		}
		x.setSlot(p, copyVal(v))
	default:
		x.setSlot(p, v)
	}
}

func (x *Exec) undoTo(n int) {
	for i := len(x.journal) - 1; i >= n; i-- {
		r := x.journal[i]
		if r.f != nil {
			r.f()
		} else {
			*r.p = r.old
		}
	}
	x.journal = x.journal[:n]
}

func load(v Value) Value { return copyVal(v) }
