package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// A line is valid exactly when it has at least two points.
//
//sym:mode=ord
func C34_Line() {
	n := sym.Choose("n", sym.Bound("points", 6, 10))
	l := geo.LineString(aps(n))
	sym.Assert((l.Verify() == nil) == (n >= 2), "a line is valid from two points on")
}

// verifyPt has an independent range for each coordinate so that a swapped range shows.
func verifyPt(g int) geo.Point {
	x := sym.F("x", -200, 200, g)
	y := sym.F("y", -200, 200, g)
	return geo.Point{X: x, Y: y}
}

func inRange(v []geo.Point) bool {
	r := true
	for _, p := range v {
		r = sym.And(r, p.X >= -180, p.X <= 180, p.Y >= -90, p.Y <= 90)
	}
	return r
}

// crosses is: two edges of the closed polygon over v cross properly.
func crosses(v []geo.Point) bool {
	n := len(v)
	r := false
	for i := 0; i < n; i++ {
		for j := i + 2; j < n; j++ {
			if i == 0 && j == n-1 {
				continue
			}
			r = sym.Or(r, proper(v[i], v[(i+1)%n], v[j], v[(j+1)%n]))
		}
	}
	return r
}

func start(v []geo.Point, k int) []geo.Point {
	r := append([]geo.Point{}, v[k:]...)
	return append(r, v[:k]...)
}

// Triangles: range and area decide.
func C34_Triangle() {
	v := []geo.Point{verifyPt(-2), verifyPt(-2), verifyPt(-2)}
	p := poly(v)
	err := p.Verify()
	a := area2(v)
	sym.Assert(sym.Implies(sym.Not(inRange(v)), err != nil), "a vertex out of range is an error")
	sym.Assert(sym.Implies(a == 0, err != nil), "no area is an error")
	sym.Assert(sym.Implies(sym.And(inRange(v), a != 0), err == nil), "a triangle within the ranges is valid")
}

// Rings with fewer than three distinct positions.
func C34_TooFew() {
	n := sym.Choose("n", 3)
	var p geo.Polygon
	switch n {
	case 0:
		p = geo.Polygon{}
		if sym.Bool("ring") {
			p = geo.Polygon{geo.LinearRing{}}
		}
	default:
		v := gps(n, 90, -2)
		p = poly(v)
	}
	sym.Assert(p.Verify() != nil, "fewer than three positions are an error")
}

func verifyRing(n int, m float64, g int) {
	var v []geo.Point
	for i := 0; i < n; i++ {
		v = append(v, gp(m, g))
	}
	p := poly(v)
	err := p.Verify()
	if n == 4 {
		sym.Assert(sym.Implies(crosses(v), err != nil), "crossing edges are an error")
	}
	sym.Assert(sym.Implies(area2(v) == 0, err != nil), "no area is an error")
	sym.Assert(sym.Implies(sym.And(simple(v), inRange(v), area2(v) != 0), err == nil), "a simple ring is valid")
}

// Rings of four and five vertices on a small grid: crossing edges, area and simplicity decide.
//
//sym:time=30
func C34_Ring4() { verifyRing(4, 7, 0) }

//sym:time=90
func C34_Ring5() { verifyRing(5, 3, 0) }

// Two given edges that cross are noticed, whatever the others do.
//
//sym:time=60
func C34_Pair() {
	n := 4 + sym.Choose("n", sym.Bound("ring sizes", 2, 3))
	i := sym.Choose("first edge", n-2)
	k := n - i - 2
	if i == 0 {
		k--
	}
	j := i + 2 + sym.Choose("second edge", k)
	v := gps(n, 3, 0)
	sym.Assume(proper(v[i], v[(i+1)%n], v[j], v[(j+1)%n]))
	p := poly(v)
	sym.Assert(p.Verify() != nil, "crossing edges are an error")
}

// Small triangles and quadrilaterals have an area, too.
func C34_Small() {
	n := 3 + sym.Choose("n", 2)
	var v []geo.Point
	for i := 0; i < n; i++ {
		v = append(v, gp(3.0/(1<<14), -14))
	}
	d := area2(v)
	p := poly(v)
	sym.Assume(sym.And(simple(v), d != 0))
	sym.Assert(p.Verify() == nil, "a simple ring is valid")
}

// A longer ring: vertices of a fixed simple polygon in range except one, which moves freely.
func C34_Range() {
	n := sym.Bound("vertices", 5, 8)
	base := []geo.Point{{X: 0, Y: 0}, {X: 10, Y: -5}, {X: 20, Y: 0}, {X: 25, Y: 10}, {X: 20, Y: 20}, {X: 10, Y: 25}, {X: 0, Y: 20}, {X: -5, Y: 10}}
	v := cp(base[:n])
	k := sym.Choose("k", n)
	v[k] = verifyPt(-2)
	p := poly(v)
	sym.Assert(sym.Implies(sym.Not(inRange(v)), p.Verify() != nil), "a vertex out of range is an error")
}
