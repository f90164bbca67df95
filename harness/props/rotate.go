package props

import (
	"math"

	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

const cut = 1e-4 + 1e-9 // results are cut to four decimals

func angleOf() float64 {
	return []float64{0, math.Pi / 2, math.Pi, -math.Pi / 2, 0.5, -2.25, 7, 1e-3}[sym.Choose("angle", sym.Bound("angles", 5, 8))]
}

// Rotating by any angle is the rotation, up to four decimals.
//
//sym:mode=real merge=off time=30
func C30_Formula() {
	p, c := gp(1024, -10), gp(1024, -10)
	a := sym.F("a", -100, 100, -20)
	q := geo.RotateCW(p, c, a).(geo.Point)
	dx, dy := p.X-c.X, p.Y-c.Y
	s, k := math.Sin(a), math.Cos(a)
	sym.Assert(closeTo(q.X, c.X+dx*k+dy*s, cut), "the point is rotated clockwise about the centre (x)")
	sym.Assert(closeTo(q.Y, c.Y+dy*k-dx*s, cut), "the point is rotated clockwise about the centre (y)")
	q = geo.RotateCCW(p, c, a).(geo.Point)
	sym.Assert(closeTo(q.X, c.X+dx*k-dy*s, cut), "the point is rotated counter-clockwise about the centre (x)")
	sym.Assert(closeTo(q.Y, c.Y+dy*k+dx*s, cut), "the point is rotated counter-clockwise about the centre (y)")
	q = geo.RotateCW(c, c, a).(geo.Point)
	sym.Assert(sym.And(closeTo(q.X, c.X, cut), closeTo(q.Y, c.Y, cut)), "the centre stays")
}

// Rotating can be undone.
//
//sym:mode=real merge=off time=30
func C30_Undo() {
	p, c := gp(1024, -10), gp(1024, -10)
	a := angleOf()
	q := geo.RotateCW(p, c, a).(geo.Point)
	r := geo.RotateCCW(q, c, a).(geo.Point)
	sym.Assert(sym.And(closeTo(r.X, p.X, 3*cut), closeTo(r.Y, p.Y, 3*cut)), "rotating back undoes rotating")
	r = geo.RotateCW(q, c, -a).(geo.Point)
	sym.Assert(sym.And(closeTo(r.X, p.X, 3*cut), closeTo(r.Y, p.Y, 3*cut)), "rotating by the opposite angle undoes rotating")
}

// A quarter turn clockwise.
//
//sym:mode=real merge=off time=30
func C30_Quarter() {
	c := gp(1024, -10)
	d := sym.F("d", 1, 1024, -10)
	q := geo.RotateCW(geo.Point{X: c.X + d, Y: c.Y}, c, math.Pi/2).(geo.Point)
	sym.Assert(sym.And(closeTo(q.X, c.X, cut), closeTo(q.Y, c.Y-d, cut)), "a quarter turn clockwise takes east to south")
	q = geo.RotateCCW(geo.Point{X: c.X + d, Y: c.Y}, c, math.Pi/2).(geo.Point)
	sym.Assert(sym.And(closeTo(q.X, c.X, cut), closeTo(q.Y, c.Y+d, cut)), "a quarter turn counter-clockwise takes east to north")
}

// A polygon is rotated vertex by vertex.
//
//sym:mode=real merge=off time=30
func C30_Polygon() {
	n := 3 + sym.Choose("n", 2)
	v := gps(n, 1024, -10)
	c := gp(1024, -10)
	a := angleOf()
	p := poly(v)
	ccw := sym.Choose("ccw", 2) == 1
	turn := geo.RotateCW
	if ccw {
		turn = geo.RotateCCW
	}
	q := turn(p, c, a).(geo.Polygon)
	sym.Assert(len(q) == 1, "a rotated polygon has an outer ring")
	sym.Assert(len(q[0]) == n+1, "a rotated polygon keeps its number of vertices")
	for i := range p[0] {
		r := turn(p[0][i], c, a).(geo.Point)
		sym.Assert(same(q[0][i], r), "a polygon is rotated vertex by vertex")
	}
	sym.Assert(sameList(p[0], ring(v)), "the rotated polygon is left as it was")
}
