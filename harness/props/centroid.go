package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// The mean of points.
//
//sym:mode=real merge=off
func C15_Points() {
	n := sym.Int("n", 1, 5)
	v := gps(n, 1<<20, -20)
	v0 := cp(v)
	c := geo.Centroid(geo.MultiPoint(v))
	var sx, sy float64
	for _, p := range v0 {
		sx += p.X
		sy += p.Y
	}
	k := float64(n)
	sym.Assert(sym.And(closeTo(c.X*k, sx, 1e-6), closeTo(c.Y*k, sy, 1e-6)), "the centroid of points is their mean")
	sym.Assert(sameList(v, v0), "the points are unchanged")
	sym.Assert(same(geo.Centroid(v[0]), v0[0]), "the centroid of a point is the point")
}

// fan sums twice the area and six times the first moments over the triangles from the first vertex.
func fan(v []geo.Point) (a, mx, my float64) {
	for i := 1; i+1 < len(v); i++ {
		k := cross(v[0], v[i], v[i+1])
		a += k
		mx += k * (v[0].X + v[i].X + v[i+1].X)
		my += k * (v[0].Y + v[i].Y + v[i+1].Y)
	}
	return a, mx, my
}

// The centroid is the area-weighted mean of the triangles of a fan.
//
//sym:mode=real merge=off ttime=200
func C15_Polygon() {
	n := sym.Int("n", 3, sym.Bound("vertices", 5, 6))
	v := gps(n, 16, -1)
	a, mx, my := fan(v)
	if sym.Bool("counter-clockwise") {
		sym.Assume(a > 0)
	} else {
		sym.Assume(a < 0)
	}
	p := poly(v)
	c := geo.Centroid(p)
	sym.Assert(sym.And(closeTo(c.X, mx/(3*a), 1e-6), closeTo(c.Y, my/(3*a), 1e-6)), "the centroid of a polygon is the area-weighted mean of its triangles")
	sym.Assert(sameList(p[0], ring(v)), "the polygon is unchanged")
}

// Triangle, rectangle, orientation, start vertex, holes and lines.
//
//sym:mode=real merge=off
func C15_Triangle() {
	v := gps(3, 64, -2)
	s := area2(v)
	if sym.Bool("counter-clockwise") {
		sym.Assume(s > 0)
	} else {
		sym.Assume(s < 0)
	}
	c := geo.Centroid(poly(v))
	sym.Assert(sym.And(closeTo(c.X*3, v[0].X+v[1].X+v[2].X, 1e-6), closeTo(c.Y*3, v[0].Y+v[1].Y+v[2].Y, 1e-6)), "the centroid of a triangle is the mean of its corners")
	d := geo.Centroid(poly(reversed(v)))
	sym.Assert(sym.And(closeTo(c.X, d.X, 1e-6), closeTo(c.Y, d.Y, 1e-6)), "reversing the ring keeps the centroid")
	sym.Assert(sym.And(c.X >= minF(v[0].X, minF(v[1].X, v[2].X))-1e-6, c.X <= maxF(v[0].X, maxF(v[1].X, v[2].X))+1e-6), "the centroid of a triangle is in its bounding box")
}

//sym:mode=real merge=off
func C15_Rectangle() {
	a, b := gp(64, -2), gp(64, -2)
	sym.Assume(sym.And(a.X+0.25 <= b.X, a.Y+0.25 <= b.Y))
	v := []geo.Point{a, {X: b.X, Y: a.Y}, b, {X: a.X, Y: b.Y}}
	if sym.Bool("clockwise") {
		v = reversed(v)
	}
	c := geo.Centroid(*geo.NewPolygonFromPois(v...))
	sym.Assert(sym.And(closeTo(2*c.X, a.X+b.X, 1e-6), closeTo(2*c.Y, a.Y+b.Y, 1e-6)), "the centroid of a rectangle is its centre")
}

//sym:mode=real merge=off
func C15_Invariance() {
	n := sym.Int("n", 3, sym.Bound("vertices", 4, 5))
	v := gps(n, 16, -1)
	s := area2(v)
	if sym.Bool("counter-clockwise") {
		sym.Assume(s > 0)
	} else {
		sym.Assume(s < 0)
	}
	c := geo.Centroid(poly(v))
	w := v
	switch sym.Choose("edit", 4) {
	case 0:
		w = reversed(v)
	case 1:
		w = rotated(v, 1+sym.Choose("start", len(v)-1))
	case 2:
		d := geo.Centroid(geo.Polygon{ring(v), ring(gps(3, 16, -1))})
		sym.Assert(sym.And(closeTo(c.X, d.X, 1e-6), closeTo(c.Y, d.Y, 1e-6)), "holes do not change the centroid")
		return
	case 3:
		t := gp(1024, -1)
		d := geo.Centroid(poly(moved(v, t)))
		sym.Assert(sym.And(closeTo(c.X+t.X, d.X, 1e-6), closeTo(c.Y+t.Y, d.Y, 1e-6)), "the centroid moves with the polygon")
		return
	}
	d := geo.Centroid(poly(w))
	sym.Assert(sym.And(closeTo(c.X, d.X, 1e-6), closeTo(c.Y, d.Y, 1e-6)), "orientation and start vertex do not matter")
}

// A convex quadrilateral has its centroid inside its bounding box.
//
//sym:mode=real merge=off
func C15_Convex() {
	v := gps(4, 16, -1)
	for i := range v {
		sym.Assume(cross(v[i], v[(i+1)%4], v[(i+2)%4]) > 0)
	}
	c := geo.Centroid(poly(v))
	hi := sym.F("hi", -16, 16, -1)
	sym.Assume(sym.And(v[0].X <= hi, v[1].X <= hi, v[2].X <= hi, v[3].X <= hi))
	sym.Assert(c.X <= hi+1e-6, "the centroid of a convex polygon is in its bounding box")
}

// A small polygon far from the origin, as the outline of a building in degrees.
func C15_Building() {
	t := geo.Point{X: sym.F("lon", 128, 180, -22), Y: sym.F("lat", 64, 90, -22)}
	w, h := sym.F("w", 0x1p-22, 0x1p-18, -22), sym.F("h", 0x1p-22, 0x1p-18, -22)
	v := []geo.Point{{}, {X: w}, {X: w, Y: h}, {Y: h}}
	c := geo.Centroid(poly(moved(v, t)))
	sym.Assert(sym.And(t.X <= c.X, c.X <= t.X+w, t.Y <= c.Y, c.Y <= t.Y+h), "the centroid of a small rectangle is inside it")
}

// Without area there is no centroid.
func C15_NoArea() {
	n := sym.Int("n", 3, sym.Bound("vertices", 4, 6))
	v := gps(n, 1<<12, -4)
	sym.Assume(area2(v) == 0)
	c := geo.Centroid(poly(v))
	sym.Assert(sym.And(isNaN(c.X), isNaN(c.Y)), "a polygon of zero area has no centroid")
	e := geo.Centroid(geo.Polygon{})
	sym.Assert(sym.And(isNaN(e.X), isNaN(e.Y)), "an empty polygon has no centroid")
}
