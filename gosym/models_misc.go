package main

// Models of sort, reflect, time, math/rand, sync and the third-party grid packages.

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) deepEqual(a, b Value, t types.Type, depth int) *Term {
	c := x.c
	if depth > 60 {
		unsup("reflect.DeepEqual of a deep value")
	}
	switch u := under(t).(type) {
	case *types.Interface:
		ai, bi := a.(Iface), b.(Iface)
		if ai.t == nil || bi.t == nil {
			return c.Bool(ai.t == nil && bi.t == nil)
		}
		if !types.Identical(ai.t, bi.t) {
			return c.False
		}
		return x.deepEqual(ai.v, bi.v, ai.t, depth+1)
	case *types.Pointer:
		p, q := a.(Ptr), b.(Ptr)
		if p == q {
			return c.True
		}
		if p == nil || q == nil {
			return c.False
		}
		return x.deepEqual(*p, *q, u.Elem(), depth+1)
	case *types.Slice:
		p, q := a.(Slice), b.(Slice)
		if (p.a == nil) != (q.a == nil) || len(p.a) != len(q.a) {
			return c.False
		}
		if sameSlice(p, q) {
			return c.True
		}
		r := c.True
		for i := range p.a {
			r = c.And(r, x.deepEqual(p.a[i], q.a[i], u.Elem(), depth+1))
			if r.isFalse() {
				break
			}
		}
		return r
	case *types.Array:
		p, q := a.(ArrayV), b.(ArrayV)
		r := c.True
		for i := range p {
			r = c.And(r, x.deepEqual(p[i], q[i], u.Elem(), depth+1))
		}
		return r
	case *types.Struct:
		p, q := a.(StructV), b.(StructV)
		r := c.True
		for i := range p {
			r = c.And(r, x.deepEqual(p[i], q[i], u.Field(i).Type(), depth+1))
			if r.isFalse() {
				break
			}
		}
		return r
	case *types.Map:
		p, _ := a.(*MapV)
		q, _ := b.(*MapV)
		if (p == nil) != (q == nil) {
			return c.False
		}
		if p == q {
			return c.True
		}
		if len(p.ents) != len(q.ents) {
			return c.False
		}
		r := c.True
		for _, e := range p.ents {
			f := x.mapFind(q, e.k)
			if f == nil {
				return c.False
			}
			r = c.And(r, x.deepEqual(e.v, f.v, u.Elem(), depth+1))
		}
		return r
	case *types.Signature:
		p, _ := a.(*Closure)
		q, _ := b.(*Closure)
		return c.Bool(p == nil && q == nil)
	}
	return x.equal(a, b)
}

// sortFunc is the insertion sort that the library uses for up to 12 elements.
func (x *Exec) sortFunc(sl Slice, less func(i, j int) bool) {
	a := sl.a
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			p, q := copyVal(a[j]), copyVal(a[j-1])
			x.store(&a[j], q)
			x.store(&a[j-1], p)
		}
	}
}

type ghash struct {
	lat, lng *Term
	n        int
}

func init() {
	models["reflect.DeepEqual"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.deepEqual(a[0], a[1], emptyIface, 0)
	}
	sortSlice := func(limit int) modelFn {
		return func(x *Exec, _ *ssa.Function, a []Value) Value {
			sl, ok := a[0].(Iface).v.(Slice)
			if !ok {
				unsup("sort.Slice of %T", a[0].(Iface).v)
			}
			if len(sl.a) > limit {
				unsup("sort.Slice of more than %d elements", limit)
			}
			less := a[1].(*Closure)
			x.sortFunc(sl, func(i, j int) bool {
				return x.decide(x.callClosure(less, []Value{x.c.I64(int64(i)), x.c.I64(int64(j))}, nil).(*Term))
			})
			return unit()
		}
	}
	models["sort.Slice"] = sortSlice(12)
	models["sort.SliceStable"] = sortSlice(20)
	models["time.Now"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		x.clock++
		r := x.zero(fn.Signature.Results().At(0).Type()).(StructV)
		r[1] = x.c.I64(x.clock)
		return r
	}
	for _, m := range []string{"UnixNano", "Unix", "UnixMilli", "UnixMicro", "Nanosecond"} {
		models["(time.Time)."+m] = func(x *Exec, _ *ssa.Function, a []Value) Value {
			x.stub("time.Now: a strictly increasing counter")
			return x.c.IBin(OIAdd, x.c.I64(1_600_000_000_000_000_000), a[0].(StructV)[1].(*Term))
		}
	}
	for _, m := range []string{"Intn", "Int63n", "Int31n", "Int", "Int63", "Int31"} {
		nm := m
		models["math/rand."+nm] = func(x *Exec, fn *ssa.Function, a []Value) Value {
			unsup("math/rand.%s", nm)
			return nil
		}
	}
	noop := func(x *Exec, fn *ssa.Function, a []Value) Value { return unit() }
	for _, m := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		models[m] = noop
	}
	models["(*sync.Once).Do"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		p := deref(x, a[0])
		s := (*p).(StructV)
		n, ok := s[0].(*Native)
		if ok && n != nil {
			return unit()
		}
		x.setSlot(&s[0], &Native{kind: "done"})
		x.callClosure(a[1].(*Closure), nil, nil)
		return unit()
	}

	for n := 1; n <= 12; n++ {
		cell := func(r float64, bits int) func(hi float64) func(a []float64) float64 {
			size := math.Ldexp(2*r, -bits)
			return func(hi float64) func(a []float64) float64 {
				return func(a []float64) float64 { return (math.Floor((a[0]+r)/size)+hi)*size - r }
			}
		}
		la, ln := cell(90, 5*n/2), cell(180, 5*n-5*n/2)
		ufNative[fmt.Sprintf("gh_lo_lat%d", n)], ufNative[fmt.Sprintf("gh_hi_lat%d", n)] = la(0), la(1)
		ufNative[fmt.Sprintf("gh_lo_lng%d", n)], ufNative[fmt.Sprintf("gh_hi_lng%d", n)] = ln(0), ln(1)
	}
	// ----- geohash: contract of the third-party package
	const gh = "github.com/mmcloughlin/geohash"
	const ghNote = "geohash package: contract stub (the cell of an encoded point contains the point, its size depends on the precision only, its centre is the midpoint; hashes are opaque texts)"
	reg := func(x *Exec, lat, lng *Term, n int) Value {
		x.noSpec("geohash")
		x.stub(ghNote)
		if n < 1 || n > 12 {
			x.rtPanic("slice bounds out of range")
		}
		if x.ghashes == nil {
			x.ghashes = map[string]ghash{}
		}
		for k, g := range x.ghashes {
			if g.lat == lat && g.lng == lng && g.n == n {
				return S(k)
			}
		}
		id := fmt.Sprintf("%d", len(x.ghashes))
		if len(id) > n {
			unsup("too many geohashes")
		}
		k := id + strings.Repeat("_", n-len(id))
		x.ghashes[k] = ghash{lat, lng, n}
		return S(k)
	}
	models[gh+".EncodeInt"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		return x.callBody(fn.Pkg.Func("encodeInt"), a)
	}
	models[gh+".EncodeWithPrecision"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		if a[0].(*Term).isConst() && a[1].(*Term).isConst() && a[2].(*Term).isConst() {
			return x.callBody(fn, a)
		}
		if x.conc {
			unsup("geohash in concrete mode")
		}
		return reg(x, a[0].(*Term), a[1].(*Term), int(x.concrete(a[2].(*Term))))
	}
	models[gh+".BoundingBox"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		g, ok := x.ghashes[conStr(a[0])]
		if !ok {
			return x.callBody(fn, a)
		}
		c := x.c
		lo := func(name string, v *Term, m float64) (*Term, *Term) {
			// the cell is only known to contain the point within the world
			in := c.And(c.FLe(c.F(-m), v), c.FLt(v, c.F(m)))
			l := c.UF("gh_lo_"+name+fmt.Sprint(g.n), -m, m, v)
			h := c.UF("gh_hi_"+name+fmt.Sprint(g.n), -m, m, v)
			return c.Ite(in, c.FMin(l, v), l), c.Ite(in, c.FMax(h, v), h)
		}
		la, lb := lo("lat", g.lat, 90)
		ga, gb := lo("lng", g.lng, 180)
		return StructV{la, lb, ga, gb}
	}
	models["runtime.KeepAlive"] = noop
	_ = math.Pi
}
