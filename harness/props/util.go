// Package props holds the properties: each function Cxx_... is one bounded claim about the exported behaviour of go-geo.
package props

import (
	"math"

	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// gp is a point on the grid 2^g with |x|,|y| <= m.
func gp(m float64, g int) geo.Point {
	x := sym.F("x", -m, m, g)
	y := sym.F("y", -m, m, g)
	return geo.Point{X: x, Y: y}
}

// ap is a point with any finite coordinates.
func ap() geo.Point {
	x := sym.Any("x")
	y := sym.Any("y")
	return geo.Point{X: x, Y: y}
}

func gps(n int, m float64, g int) []geo.Point {
	r := make([]geo.Point, 0, n)
	for i := 0; i < n; i++ {
		r = append(r, gp(m, g))
	}
	return r
}

func gpz(m float64, g int) geo.PointZ {
	x := sym.F("x", -m, m, g)
	y := sym.F("y", -m, m, g)
	z := sym.F("z", -m, m, g)
	return geo.PointZ{X: x, Y: y, Z: z}
}

// same is exact equality of coordinates.
func same(a, b geo.Point) bool   { return sym.And(a.X == b.X, a.Y == b.Y) }
func sameZ(a, b geo.PointZ) bool { return sym.And(a.X == b.X, a.Y == b.Y, a.Z == b.Z) }

func sameList(a, b []geo.Point) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, same(a[i], b[i]))
	}
	return r
}

func sameListZ(a, b []geo.PointZ) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, sameZ(a[i], b[i]))
	}
	return r
}

func cp(a []geo.Point) []geo.Point {
	r := make([]geo.Point, len(a))
	copy(r, a)
	return r
}

func cpz(a []geo.PointZ) []geo.PointZ {
	r := make([]geo.PointZ, len(a))
	copy(r, a)
	return r
}

// closeTo is |a-b| <= eps.
func closeTo(a, b, eps float64) bool { return sym.And(a-b <= eps, b-a <= eps) }

func isNaN(v float64) bool { return v != v }

func finite(v float64) bool { return sym.And(v <= math.MaxFloat64, v >= -math.MaxFloat64) }

func cross(o, a, b geo.Point) float64 {
	return (a.X-o.X)*(b.Y-o.Y) - (a.Y-o.Y)*(b.X-o.X)
}

func minF(a, b float64) float64 { return sym.IteF(a < b, a, b) }
func maxF(a, b float64) float64 { return sym.IteF(a > b, a, b) }

// onSeg is: p lies on the closed segment ab (exact on grid coordinates).
func onSeg(p, a, b geo.Point) bool {
	return sym.And(cross(a, b, p) == 0,
		minF(a.X, b.X) <= p.X, p.X <= maxF(a.X, b.X),
		minF(a.Y, b.Y) <= p.Y, p.Y <= maxF(a.Y, b.Y))
}

// proper is: ab and cd cross at one point interior to both.
func proper(a, b, c, d geo.Point) bool {
	c1, c2 := cross(a, b, c), cross(a, b, d)
	c3, c4 := cross(c, d, a), cross(c, d, b)
	return sym.And(
		sym.Or(sym.And(c1 > 0, c2 < 0), sym.And(c1 < 0, c2 > 0)),
		sym.Or(sym.And(c3 > 0, c4 < 0), sym.And(c3 < 0, c4 > 0)))
}

// meet is: the closed segments ab and cd share a point.
func meet(a, b, c, d geo.Point) bool {
	c1, c2 := cross(a, b, c), cross(a, b, d)
	c3, c4 := cross(c, d, a), cross(c, d, b)
	split := sym.And(
		sym.Or(sym.And(c1 <= 0, c2 >= 0), sym.And(c1 >= 0, c2 <= 0)),
		sym.Or(sym.And(c3 <= 0, c4 >= 0), sym.And(c3 >= 0, c4 <= 0)))
	// parallel segments (c1 == c2) share a point only on a common line
	return sym.IteB(c1 == c2, sym.And(c1 == 0, sym.Or(onSeg(a, c, d), onSeg(b, c, d), onSeg(c, a, b), onSeg(d, a, b))), split)
}

// ring closes a list of distinct vertices.
func ring(v []geo.Point) geo.LinearRing {
	r := make(geo.LinearRing, 0, len(v)+1)
	r = append(r, v...)
	return append(r, v[0])
}

func poly(v []geo.Point) geo.Polygon { return geo.Polygon{ring(v)} }

// simple is: the closed polygon over v (at least 3 vertices) is a simple polygon with distinct vertices.
func simple(v []geo.Point) bool {
	n := len(v)
	r := true
	for i := 0; i < n; i++ {
		a, b := v[i], v[(i+1)%n]
		r = sym.And(r, sym.Not(same(a, b)))
		// neighbouring edges only share their vertex
		c := v[(i+2)%n]
		r = sym.And(r, sym.Not(onSeg(c, a, b)), sym.Not(onSeg(a, b, c)))
		for j := i + 2; j < n; j++ {
			if i == 0 && j == n-1 {
				continue
			}
			r = sym.And(r, sym.Not(meet(a, b, v[j], v[(j+1)%n])))
		}
	}
	return r
}

// area2 is twice the signed area of the closed polygon over v.
func area2(v []geo.Point) float64 {
	s := 0.0
	for i := range v {
		j := (i + 1) % len(v)
		s += v[i].X*v[j].Y - v[j].X*v[i].Y
	}
	return s
}

func absF(v float64) float64 { return sym.IteF(v < 0, -v, v) }
