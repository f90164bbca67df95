package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// spots are point sets that span an area; no two edges of a hull are nearly parallel to a diagonal of another.
var spots = [][]geo.Point{
	{{X: 0, Y: 0}, {X: 7, Y: -1}, {X: 4, Y: 3}, {X: 3, Y: -4}},
	{{X: 0, Y: 0}, {X: 1.25, Y: 0.25}, {X: 1.5, Y: 0.625}, {X: 0.625, Y: 1.125}, {X: 0.75, Y: 0.5}},
	{{X: 0, Y: 0}, {X: 8, Y: 1}, {X: 3, Y: 6}},
	{{X: 0, Y: 0}, {X: -5, Y: 3}, {X: -4, Y: -6}, {X: 6, Y: -2}, {X: 2, Y: 7}},
}

// of is a geometry of a kind over some points.
func of(kind int, v []geo.Point) geo.Geometry {
	switch kind {
	case 0:
		return geo.MultiPoint(v)
	case 1:
		return geo.LineString(v)
	case 2:
		if n := len(v); n > 6 {
			return geo.MultiLineString{v[:2], v[2 : n-2], v[n-2:]}
		}
		return geo.MultiLineString{v[:2], v[2:]}
	case 3:
		return geo.Polygon{ring(v)}
	}
	return geo.MultiPolygon{geo.Polygon{ring(v[:3])}, geo.Polygon{ring(v[len(v)-3:])}}
}

// encloses checks that m is a closed rectangle around v.
func encloses(m geo.Polygon, v []geo.Point, eps float64) []geo.Point {
	sym.Assert(len(m) == 1 && len(m[0]) == 5, "the rectangle has four corners")
	r := m[0]
	sym.Assert(same(r[0], r[4]), "the rectangle is closed")
	sym.Assert(sym.And(closeTo(r[0].X+r[2].X, r[1].X+r[3].X, eps), closeTo(r[0].Y+r[2].Y, r[1].Y+r[3].Y, eps)), "opposite sides are equal")
	ux, uy := r[1].X-r[0].X, r[1].Y-r[0].Y
	wx, wy := r[2].X-r[1].X, r[2].Y-r[1].Y
	sym.Assert(closeTo(ux*wx+uy*wy, 0, eps), "the corners are right angles")
	for _, p := range v {
		for i := 0; i < 4; i++ {
			sym.Assert(cross(r[i], r[i+1], p) <= eps, "the rectangle encloses the points")
		}
	}
	return r
}

// The rectangle encloses the points and is the smallest of those along an edge, wherever the points are and in whatever order.
//
//sym:mode=real time=60 feas=0.05 inc=0.1
func C38_Order() {
	s := spots[sym.Choose("shape", sym.Bound("shapes", 2, len(spots)))]
	k := sym.Choose("start", len(s))
	o := geo.Point{X: sym.F("x", -64, 64, -20), Y: sym.F("y", -64, 64, -20)}
	least(s, o, k, 0)
}

// The same for every kind of geometry.
//
//sym:mode=real time=60 feas=0.05 inc=0.1
func C38_Kinds() {
	s := spots[sym.Choose("shape", sym.Bound("shapes", 1, len(spots)))]
	kind := 1 + sym.Choose("kind", 4)
	o := geo.Point{X: sym.F("x", -64, 64, -20), Y: sym.F("y", -64, 64, -20)}
	least(s, o, 0, kind)
}

// The same for many points, most of them inside.
//
//sym:mode=real time=60 feas=0.05 inc=0.1
func C38_Many() {
	v := []geo.Point{{X: 3, Y: -4}, {X: 4, Y: 3}}
	for i := 0; i < sym.Bound("inner", 10, 18); i++ {
		v = append(v, geo.Point{X: 3 + float64(i%4)/4, Y: float64(i/4)/4 - 1})
	}
	v = append(v, geo.Point{X: 7, Y: -1}, geo.Point{X: 0, Y: 0})
	least(v, geo.Point{X: sym.F("x", -64, 64, -20), Y: 5}, 0, sym.Choose("kind", 5))
}

// The same for points close together.
//
//sym:mode=real time=60 feas=0.05 inc=0.1
func C38_Small() {
	var s []geo.Point
	for _, p := range spots[2*sym.Choose("shape", sym.Bound("shapes", 1, 2))] {
		s = append(s, geo.Point{X: p.X / 4096, Y: p.Y / 4096})
	}
	least(s, geo.Point{X: sym.F("x", -1.0/64, 1.0/64, -24), Y: 0}, 0, 0)
}

// least checks the rectangle of a shape moved by o.
func least(s []geo.Point, o geo.Point, k, kind int) {
	v := start(s, k)
	for i := range v {
		v[i] = geo.Point{X: v[i].X + o.X, Y: v[i].Y + o.Y}
	}
	eps := 1e-6
	if v[0].X-v[1].X < 0.01 && v[1].X-v[0].X < 0.01 {
		eps = 1e-11
	}
	r := encloses(geo.Mbr(of(kind, v)), v, eps)
	best := 1e9
	for i := range s {
		for j := range s {
			if i == j {
				continue
			}
			d := geo.Point{X: s[j].X - s[i].X, Y: s[j].Y - s[i].Y}
			l2 := d.X*d.X + d.Y*d.Y
			u0, u1, w0, w1 := 1e9, -1e9, 1e9, -1e9
			edge := true
			for _, p := range s {
				u, w := p.X*d.X+p.Y*d.Y, d.X*p.Y-d.Y*p.X
				u0, u1, w0, w1 = minF(u0, u), maxF(u1, u), minF(w0, w), maxF(w1, w)
				edge = edge && cross(s[i], s[j], p) >= 0
			}
			if edge {
				best = minF(best, (u1-u0)*(w1-w0)/l2)
			}
		}
	}
	a := area2(r[:4])
	sym.Assert(closeTo(a, -2*best, eps), "the rectangle is the smallest along an edge of the hull")
}

// There is no rectangle of a point or of points on a line.
//
//sym:mode=real time=60 feas=0.05 inc=0.1
func C38_None() {
	o := geo.Point{X: sym.F("x", -64, 64, -20), Y: sym.F("y", -64, 64, -20)}
	sym.Assert(len(geo.Mbr(o)) == 0, "a point has no rectangle")
	n := sym.Choose("n", 4)
	var v []geo.Point
	for i := 0; i < n; i++ {
		v = append(v, geo.Point{X: o.X + 3*float64(i), Y: o.Y + 2*float64(i)})
	}
	sym.Assert(len(geo.Mbr(geo.MultiPoint(v))) == 0, "points on a line have no rectangle")
}
