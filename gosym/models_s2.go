package main

// Contract of github.com/golang/geo/s2, as far as go-geo uses it: cells of positions, centres, corners, neighbours and
// coverings are opaque functions of what they are asked for; a cell of a position is a valid leaf cell. The arithmetic on
// cell numbers (Parent, Level, IsValid, RangeMin ...) is the library's own code. With constants the library itself is called.

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"math"
	"math/bits"
	"sort"
	"strings"

	"github.com/golang/geo/r3"
	"github.com/golang/geo/s1"
	"github.com/golang/geo/s2"
	"golang.org/x/tools/go/ssa"
)

const s2Note = "s2 package: contract stub (cells, centres, corners, neighbours and coverings are functions of the arguments; a covering depends on the loops only up to their start vertex and a repeated end)"

// IUF is an uninterpreted integer.
func (c *Ctx) IUF(name string, w uint8, args ...*Term) *Term {
	return c.mk(termKey{op: OBUF, sort: SInt, w: w, name: name}, args)
}

func s2ll(a []float64) s2.LatLng {
	return s2.LatLng{Lat: s1.Angle(a[0]), Lng: s1.Angle(a[1])}
}
func s2id(f float64) s2.CellID { return s2.CellID(math.Float64bits(f)) }
func s2pt(a []float64) s2.Point {
	return s2.Point{Vector: r3.Vector{X: a[0], Y: a[1], Z: a[2]}}
}

// s2cover is a covering asked for.
type s2cover struct {
	key   string
	loops [][][3]*Term
	start [3]*Term
	level *Term
}

// cells is the covering under a model: evaluated by the library.
func (s s2cover) cells(val func(t *Term) (uint64, bool)) ([]s2.CellID, bool) {
	ok := true
	pt := func(v [3]*Term) s2.Point {
		var f [3]float64
		for i, t := range v {
			u, o := val(t)
			f[i], ok = bitsF(u), ok && o
		}
		return s2pt(f[:])
	}
	var ls []*s2.Loop
	for _, l := range s.loops {
		var ps []s2.Point
		for _, v := range l {
			ps = append(ps, pt(v))
		}
		ls = append(ls, s2.LoopFromPoints(ps))
	}
	start := pt(s.start)
	lv, o := val(s.level)
	if !ok || !o || int64(lv) < 0 || int64(lv) > 8 {
		return nil, false
	}
	ids := s2.SimpleRegionCovering(s2.PolygonFromLoops(ls), start, int(lv))
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids, true
}

// evalCover gives the two numbers that stand for a covering: their number and a digest.
func (x *Exec) evalCover(name string, m *Model) evalRes {
	var k, i int
	if _, err := fmt.Sscanf(name, "s2_cover%d_%d", &k, &i); err != nil || k >= len(x.s2covers) {
		return evalRes{}
	}
	ids, ok := x.s2covers[k].cells(func(t *Term) (uint64, bool) {
		r := x.eval(t, m)
		return r.u, r.ok
	})
	h := fnv.New64()
	for _, id := range ids {
		fmt.Fprint(h, uint64(id), ",")
	}
	if i == 0 {
		return evalRes{uint64(len(ids)), ok}
	}
	return evalRes{h.Sum64(), ok}
}

func allConst(ts ...*Term) bool {
	for _, t := range ts {
		if !t.isConst() {
			return false
		}
	}
	return true
}

// floats gives the number terms of a struct, in order.
func floats(v Value) (r []*Term) {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case StructV:
		for _, e := range v {
			r = append(r, floats(e)...)
		}
	case ArrayV:
		for _, e := range v {
			r = append(r, floats(e)...)
		}
	}
	return
}

func s2point(x, y, z *Term) Value { return StructV{StructV{x, y, z}} }

// canonical drops a repeated last vertex and starts at the one first made.
func canonical(vs [][3]*Term) [][3]*Term {
	if n := len(vs); n > 1 && vs[0] == vs[n-1] {
		vs = vs[:n-1]
	}
	at := 0
	id := func(v [3]*Term) string { return fmt.Sprintf("%09d,%09d,%09d", v[0].id, v[1].id, v[2].id) }
	for i := range vs {
		if id(vs[i]) < id(vs[at]) {
			at = i
		}
	}
	return append(append([][3]*Term(nil), vs[at:]...), vs[:at]...)
}

func init() {
	const p = "github.com/golang/geo/s2."
	const cid = "(github.com/golang/geo/s2.CellID)."
	uf := func(name string, f func(a []float64) float64) { ufNative[name] = f }
	uf("s2_lat", func(a []float64) float64 { return float64(s2id(a[0]).LatLng().Lat) })
	uf("s2_lng", func(a []float64) float64 { return float64(s2id(a[0]).LatLng().Lng) })
	uf("s2_plat", func(a []float64) float64 { return float64(s2.LatLngFromPoint(s2pt(a)).Lat) })
	uf("s2_plng", func(a []float64) float64 { return float64(s2.LatLngFromPoint(s2pt(a)).Lng) })
	xyz := func(v s2.Point, k int) float64 { return [3]float64{v.X, v.Y, v.Z}[k] }
	for k := 0; k < 3; k++ {
		k := k
		uf(fmt.Sprintf("s2_p%d", k), func(a []float64) float64 { return xyz(s2.PointFromLatLng(s2ll(a)), k) })
		for i := 0; i < 4; i++ {
			i := i
			uf(fmt.Sprintf("s2_v%d%d", i, k), func(a []float64) float64 {
				return xyz(s2.CellFromCellID(s2id(a[0])).Vertex(i), k)
			})
		}
	}
	iufNative["s2_cell"] = func(a []uint64) uint64 {
		return uint64(s2.CellIDFromLatLng(s2ll([]float64{bitsF(a[0]), bitsF(a[1])})))
	}
	for i := 0; i < 8; i++ {
		i := i
		iufNative[fmt.Sprintf("s2_nb%d", i)] = func(a []uint64) uint64 {
			if l := int(a[1]); l >= 0 && l <= 30 && s2.CellID(a[0]).IsValid() && l >= s2.CellID(a[0]).Level() {
				if r := s2.CellID(a[0]).AllNeighbors(l); i < len(r) {
					return uint64(r[i])
				}
			}
			return 0
		}
	}
	one := func(x *Exec, name string, lo, hi float64, as ...*Term) *Term {
		x.stub(s2Note)
		if allConst(as...) {
			var fs []float64
			for _, a := range as {
				fs = append(fs, bitsF(a.iv))
				if a.sort == SFloat {
					fs[len(fs)-1] = a.fv
				}
			}
			return x.c.F(ufNative[name](fs))
		}
		return x.c.UF(name, lo, hi, as...)
	}
	iuf := func(x *Exec, name string, as ...*Term) *Term {
		x.stub(s2Note)
		if allConst(as...) {
			var us []uint64
			for _, a := range as {
				u := a.iv
				if a.sort == SFloat {
					u = fBits(a.fv)
				}
				us = append(us, u)
			}
			return x.c.Int(iufNative[name](us), 64)
		}
		return x.c.IUF(name, 64, as...)
	}
	bit := func(c *Ctx, v *Term, i int) *Term {
		return c.Not(c.IEq(c.IBin(OIAnd, v, c.Int(1<<uint(i), 64)), c.Int(0, 64)))
	}
	models["math/bits.TrailingZeros64"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		v := a[0].(*Term)
		if v.isConst() {
			return x.c.I64(int64(bits.TrailingZeros64(v.iv)))
		}
		r := x.c.I64(64)
		for i := 63; i >= 0; i-- {
			r = x.c.Ite(bit(x.c, v, i), x.c.I64(int64(i)), r)
		}
		return r
	}
	models["math/bits.Len64"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		v := a[0].(*Term)
		if v.isConst() {
			return x.c.I64(int64(bits.Len64(v.iv)))
		}
		r := x.c.I64(0)
		for i := 0; i < 64; i++ {
			r = x.c.Ite(bit(x.c, v, i), x.c.I64(int64(i)+1), r)
		}
		return r
	}
	models[p+"CellIDFromLatLng"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		ll := floats(a[0])
		c := x.c
		u := iuf(x, "s2_cell", ll[0], ll[1])
		if u.isConst() {
			return u
		}
		// one of the six faces, and a leaf
		u = c.Ite(c.ILt(u, c.Int(6<<61, 64), false), u, c.IBin(OISub, u, c.Int(6<<61, 64)))
		return c.IBin(OIOr, u, c.Int(1, 64))
	}
	models[cid+"LatLng"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		id := a[0].(*Term)
		return StructV{one(x, "s2_lat", -math.Pi/2, math.Pi/2, id), one(x, "s2_lng", -math.Pi, math.Pi, id)}
	}
	models[p+"LatLngFromPoint"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		v := floats(a[0])
		return StructV{one(x, "s2_plat", -math.Pi/2, math.Pi/2, v...), one(x, "s2_plng", -math.Pi, math.Pi, v...)}
	}
	models[p+"PointFromLatLng"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		ll := floats(a[0])
		return s2point(one(x, "s2_p0", -1, 1, ll...), one(x, "s2_p1", -1, 1, ll...), one(x, "s2_p2", -1, 1, ll...))
	}
	models[cid+"AllNeighbors"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		id, l := a[0].(*Term), a[1].(*Term)
		r := Slice{}
		for i := 0; i < 8; i++ {
			r.a = append(r.a, iuf(x, fmt.Sprintf("s2_nb%d", i), id, l))
		}
		return r
	}
	vertex := func(x *Exec, id *Term, i int) Value {
		var v [3]*Term
		for k := range v {
			v[k] = one(x, fmt.Sprintf("s2_v%d%d", i, k), -1, 1, id)
		}
		return s2point(v[0], v[1], v[2])
	}
	// a cell is known by its number, the fourth field
	models[p+"CellFromCellID"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		r := x.zero(fn.Signature.Results().At(0).Type()).(StructV)
		r[3] = a[0]
		return r
	}
	models["(github.com/golang/geo/s2.Cell).Vertex"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		return vertex(x, a[0].(StructV)[3].(*Term), int(x.concrete(a[1].(*Term)))&3)
	}
	models["(github.com/golang/geo/s2.Cell).ID"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		return a[0].(StructV)[3]
	}
	for _, m := range []string{"Face", "Level", "IsLeaf", "SizeIJ", "SizeST", "Edge", "BoundUV", "Center", "Children", "ExactArea", "ApproxArea", "RectBound", "CapBound", "ContainsPoint"} {
		m := m
		models["(github.com/golang/geo/s2.Cell)."+m] = func(x *Exec, fn *ssa.Function, a []Value) Value {
			unsup("s2.Cell.%s", m)
			return nil
		}
	}
	loop := func(x *Exec, fn *ssa.Function, vs Slice) Value {
		l := x.zero(under(fn.Signature.Results().At(0).Type()).(*types.Pointer).Elem()).(StructV)
		l[0] = vs
		var v Value = l
		return Ptr(&v)
	}
	models[p+"LoopFromCell"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		id := a[0].(StructV)[3].(*Term)
		r := Slice{}
		for i := 0; i < 4; i++ {
			r.a = append(r.a, vertex(x, id, i))
		}
		return loop(x, fn, r)
	}
	models[p+"LoopFromPoints"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		x.stub(s2Note)
		r := Slice{}
		for _, v := range a[0].(Slice).a {
			r.a = append(r.a, copyVal(v))
		}
		return loop(x, fn, r)
	}
	models[p+"PolygonFromLoops"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		return loop(x, fn, Slice{append([]Value(nil), a[0].(Slice).a...)})
	}
	models[p+"PolygonFromOrientedLoops"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		unsup("s2.PolygonFromOrientedLoops")
		return nil
	}
	models[p+"SimpleRegionCovering"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		x.noSpec("s2 covering")
		x.stub(s2Note)
		vertices := func(v Value) (r [][3]*Term) {
			for _, p := range (*deref(x, v)).(StructV)[0].(Slice).a {
				f := floats(p)
				r = append(r, [3]*Term{f[0], f[1], f[2]})
			}
			return
		}
		reg := a[0].(Iface)
		if reg.t == nil {
			unsup("covering of nothing")
		}
		var loops [][][3]*Term
		switch n := reg.t.String(); {
		case strings.HasSuffix(n, "s2.Loop"):
			loops = append(loops, canonical(vertices(reg.v)))
		case strings.HasSuffix(n, "s2.Polygon"):
			for _, l := range (*deref(x, reg.v)).(StructV)[0].(Slice).a {
				loops = append(loops, canonical(vertices(l)))
			}
		default:
			unsup("covering of %s", n)
		}
		level := a[2].(*Term)
		con := level.isConst()
		key := fmt.Sprint(level.id)
		for _, l := range loops {
			key += "|"
			for _, v := range l {
				key += fmt.Sprintf("%d,%d,%d;", v[0].id, v[1].id, v[2].id)
				con = con && allConst(v[:]...)
			}
		}
		// the start only has to lie in the region
		st := floats(a[1])
		inside := false
		for _, l := range loops {
			for _, v := range l {
				inside = inside || v == [3]*Term{st[0], st[1], st[2]}
			}
		}
		if !inside {
			key += fmt.Sprintf("from %d,%d,%d", st[0].id, st[1].id, st[2].id)
		}
		r := Slice{}
		if con && allConst(st...) {
			ids, ok := s2cover{loops: loops, start: [3]*Term{st[0], st[1], st[2]}, level: level}.cells(func(t *Term) (uint64, bool) { return t.iv, true })
			if !ok {
				unsup("covering at this level")
			}
			for _, id := range ids {
				r.a = append(r.a, x.c.Int(uint64(id), 64))
			}
			return r
		}
		k, ok := 0, false
		for k = range x.s2covers {
			if ok = x.s2covers[k].key == key; ok {
				break
			}
		}
		if !ok {
			k = len(x.s2covers)
			x.s2covers = append(x.s2covers, s2cover{key, loops, [3]*Term{st[0], st[1], st[2]}, level})
		}
		for i := 0; i < 2; i++ {
			r.a = append(r.a, x.c.IUF(fmt.Sprintf("s2_cover%d_%d", k, i), 64))
		}
		return r
	}
}
