package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

func reversed(v []geo.Point) []geo.Point {
	r := make([]geo.Point, 0, len(v))
	for i := len(v) - 1; i >= 0; i-- {
		r = append(r, v[i])
	}
	return r
}

// rotated starts the list at position k.
func rotated(v []geo.Point, k int) []geo.Point {
	r := make([]geo.Point, 0, len(v))
	for i := range v {
		r = append(r, v[(i+k)%len(v)])
	}
	return r
}

// moved adds t to every point.
func moved(v []geo.Point, t geo.Point) []geo.Point {
	r := make([]geo.Point, 0, len(v))
	for _, p := range v {
		r = append(r, geo.Point{X: p.X + t.X, Y: p.Y + t.Y})
	}
	return r
}

// Area and orientation of any ring.
func C14_Area() {
	n := sym.Int("n", 3, sym.Bound("vertices", 6, 8))
	v := gps(n, 1<<16, -4)
	p := poly(v)
	s := area2(v)
	a := geo.GetArea(p)
	sym.Assert(2*a == absF(s), "the area is the absolute shoelace area")
	sym.Assert(a >= 0, "an area is not negative")
	sym.Assert(p.IsCCW() == (s > 0), "counter-clockwise is a positive signed area")
	sym.Assert(geo.GetArea(poly(reversed(v))) == a, "reversing the ring keeps the area")
	sym.Assert(sym.Iff(poly(reversed(v)).IsCCW(), s < 0), "reversing the ring reverses the orientation")
	sym.Assert(geo.GetArea(poly(rotated(v, 1+sym.Choose("start", len(v)-1)))) == a, "another start vertex keeps the area")
	hole := poly(gps(3, 1<<16, -4))
	sym.Assert(geo.GetArea(geo.Polygon{p[0], hole[0]}) == a, "the area is that of the outer ring")
	sym.Assert(sym.Iff((geo.Polygon{p[0], hole[0]}).IsCCW(), s > 0), "the orientation is that of the outer ring")
	sym.Assert(sameList(p[0], ring(v)), "the polygon is unchanged")
}

// Translation and scaling.
func C14_Moved() {
	n := sym.Int("n", 3, sym.Bound("vertices", 5, 7))
	v := gps(n, 1<<10, -4)
	a := geo.GetArea(poly(v))
	t := gp(1<<18, -4)
	sym.Assert(geo.GetArea(poly(moved(v, t))) == a, "translating keeps the area")
	k := sym.F("k", -32, 32, -1)
	w := make([]geo.Point, 0, n)
	for _, p := range v {
		w = append(w, geo.Point{X: p.X * k, Y: p.Y * k})
	}
	sym.Assert(2*geo.GetArea(poly(w)) == absF(k*k*area2(v)), "scaling scales the area by the square")
}

// A small polygon far from the origin, as the outline of a building in degrees.
func C14_Building() {
	t := geo.Point{X: sym.F("lon", 128, 180, -22), Y: sym.F("lat", 64, 90, -22)}
	n := sym.Int("n", 3, sym.Bound("vertices", 4, 6))
	var v []geo.Point
	for i := 0; i < n; i++ {
		v = append(v, gp(0x1p-18, -22))
	}
	a := geo.GetArea(poly(moved(v, t)))
	s := absF(area2(v))
	sym.Assert(sym.And(2*a <= s*1.001, 2*a >= s*0.999), "the area of a small polygon is right to a thousandth")
}

func C14_Rectangle() {
	a, b := gp(1<<20, -5), gp(1<<20, -5)
	sym.Assume(sym.And(a.X < b.X, a.Y < b.Y))
	r := geo.NewPolygonFromPois(a, geo.Point{X: b.X, Y: a.Y}, b, geo.Point{X: a.X, Y: b.Y})
	sym.Assert(geo.GetArea(*r) == (b.X-a.X)*(b.Y-a.Y), "a rectangle has the area width times height")
	sym.Assert(r.IsCCW(), "a rectangle drawn counter-clockwise is")
}

func C14_Multi() {
	n := sym.Int("n", 0, 3)
	var m geo.MultiPolygon
	sum := 0.0
	for i := 0; i < n; i++ {
		k := sym.Choose("kind", 4)
		if k == 0 {
			m = append(m, geo.Polygon{})
			continue
		}
		v := gps(2+k, 1<<16, -4)
		m = append(m, poly(v))
		sum += absF(area2(v))
	}
	sym.Assert(2*geo.GetArea(m) == sum, "the area of a multipolygon is the sum over its polygons")
	sym.Assert(2*geo.MultiPolyArea(m) == sum, "both ways to ask for the area agree")
}

func C14_Others() {
	v := gps(4, 1<<16, -4)
	r := ring(v)
	var g geo.Geometry
	switch sym.Choose("kind", 7) {
	case 0:
		g = v[0]
	case 1:
		g = geo.MultiPoint(v)
	case 2:
		g = geo.LineString(r)
	case 3:
		g = geo.MultiLineString{geo.LineString(r), geo.LineString(v)}
	case 4:
		g = geo.PointZ{X: v[0].X, Y: v[0].Y, Z: v[1].X}
	case 5:
		g = geo.Polygon{}
	case 6:
		g = geo.MultiPolygon{}
	}
	sym.Assert(geo.GetArea(g) == 0, "what is not an area has no area")
	sym.Assert(!(geo.Polygon{}).IsCCW(), "an empty polygon has no orientation")
}
