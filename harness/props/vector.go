package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

const vm = 1 << 20

func gv() geo.Vector2 {
	p := gp(vm, -4)
	return geo.Vector2{X: p.X, Y: p.Y}
}

func sameV(a, b geo.Vector2) bool { return sym.And(a.X == b.X, a.Y == b.Y) }

// Component-wise operations and their identities.
func C28_Algebra() {
	a, b, c := gv(), gv(), gv()
	a0, b0 := a, b
	sym.Assert(sameV(a.Add(b), geo.Vector2{X: a0.X + b0.X, Y: a0.Y + b0.Y}), "adding is component-wise")
	sym.Assert(sameV(a.Sub(b), geo.Vector2{X: a0.X - b0.X, Y: a0.Y - b0.Y}), "subtracting is component-wise")
	sym.Assert(sameV(geo.Add(a, b), a.Add(b)), "both ways of adding agree")
	sym.Assert(sameV(a.Add(b), b.Add(a)), "adding commutes")
	sym.Assert(sameV(a.Add(b).Sub(b), a), "subtracting undoes adding")
	d, x := a.Dot(b), a.Cross(b)
	sym.Assert(d == a0.X*b0.X+a0.Y*b0.Y, "the dot product is the sum of the products")
	sym.Assert(x == a0.X*b0.Y-a0.Y*b0.X, "the cross product is the difference of the products")
	sym.Assert(d == b.Dot(a), "dot is symmetric")
	sym.Assert(x == -b.Cross(a), "cross is antisymmetric")
	sym.Assert(a.Cross(a) == 0, "parallel vectors have no cross product")
	ab := a.Add(b)
	sym.Assert(ab.Dot(c) == a.Dot(c)+b.Dot(c), "dot is additive")
	sym.Assert(a.LengthSq() == a.Dot(a), "the squared length is the dot with itself")
	sym.Assert(a.Equal(b) == sameV(a, b), "equal means equal components")
	sym.Assert(a.Equal(*a.Clone()), "a clone is equal")
	sym.Assert(sym.And(sameV(a, a0), sameV(b, b0)), "the operands are unchanged")
}

// Scaling and dividing in place.
func C28_Scale() {
	v := gp(1024, -2)
	a := geo.Vector2{X: v.X, Y: v.Y}
	k := sym.F("k", -64, 64, -2)
	a0 := a
	c := a.Clone()
	c.Multiply(k)
	sym.Assert(sameV(*c, geo.Vector2{X: a0.X * k, Y: a0.Y * k}), "scaling is component-wise")
	sym.Assert(sameV(a, a0), "a clone is independent")
	sym.Assert(a.Cross(*c) == 0, "a multiple is parallel")
	d := *c
	sym.Assert(d.LengthSq() == k*k*a.LengthSq(), "scaling scales the squared length by the square")
	e := a.Clone()
	e.X += 1
	sym.Assert(sameV(a, a0), "a clone is independent")
	p := geo.Point{X: a0.X, Y: a0.Y}
	q := gp(vm, -4)
	sym.Assert(sameV(*geo.ConvertPointToVector(p, q), geo.Vector2{X: q.X - p.X, Y: q.Y - p.Y}), "a vector between points is their difference")
	sym.Assert(sameV(*geo.ConvertSegToVector(geo.LineSegment{Start: p, End: q}), geo.Vector2{X: q.X - p.X, Y: q.Y - p.Y}), "the vector of a segment is its difference")
	sym.Assert(sameV(*geo.NewVector2(k, a0.Y), geo.Vector2{X: k, Y: a0.Y}), "a new vector has the components given")
}

// Division, including by zero.
//
//sym:mode=real merge=off
func C28_Divide() {
	a := gv()
	a0 := a
	sym.Assert(sym.Panics(func() { a.Divide(0) }), "dividing by zero panics")
	sym.Assert(sameV(a, a0), "a failed division changes nothing")
	k := sym.F("k", 0.25, 1024, -2)
	if sym.Bool("negative") {
		k = -k
	}
	if s := []float64{1, 1.0 / (1 << 24), 1.0 / (1 << 30) / (1 << 20), 1 << 30}[sym.Choose("scale", 4)]; s != 1 {
		k *= s
	}
	sym.Assert(!sym.Panics(func() { a.Divide(k) }), "only dividing by zero panics")
	sym.Assert(sym.And(closeTo(a.X*k, a0.X, 1e-4), closeTo(a.Y*k, a0.Y, 1e-4)), "multiplying undoes dividing")
}

// a vector that is not zero: its larger part is at least 1/16 and below 2^12
func nonzero() geo.Vector2 {
	lo := 0.0625
	switch b := sym.Choose("band", 6); {
	case b < 4:
		for ; b > 0; b-- {
			lo *= 16
		}
	case b == 4:
		lo = 1.0 / (1 << 20)
	case b == 5:
		lo = 1.0 / (1 << 28)
	}
	x, y := sym.F("long", lo, lo*16, -4), sym.F("short", -lo*16, lo*16, -4)
	if sym.Bool("negative") {
		x = -x
	}
	if sym.Bool("swap") {
		return geo.Vector2{X: y, Y: x}
	}
	return geo.Vector2{X: x, Y: y}
}

// Length and normalising.
//
//sym:mode=real merge=off
func C28_Length() {
	z := geo.Vector2{}
	sym.Assert(z.Length() == 0, "the zero vector has no length")
	a := nonzero()
	a0 := a
	l := a.Length()
	sym.Assert(l > 0, "a vector that is not zero has a length")
	sym.Assert(closeTo(l*l, a0.X*a0.X+a0.Y*a0.Y, 1e-2), "the length is the root of the squared length")
	u := *geo.Normalize(a)
	sym.Assert(sameV(a, a0), "the functional form leaves its operand unchanged")
	sym.Assert(closeTo(u.X*u.X+u.Y*u.Y, 1, 1e-6), "a normalised vector has length 1")
	sym.Assert(sym.And(closeTo(u.X*l, a0.X, 1e-6), closeTo(u.Y*l, a0.Y, 1e-6)), "normalising keeps the direction")
	a.Normalize()
	sym.Assert(sameV(a, u), "both ways of normalising agree")
}
