package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

func dot(o, a, b geo.Point) float64 { return (a.X-o.X)*(b.X-o.X) + (a.Y-o.Y)*(b.Y-o.Y) }

func sq(a, b geo.Point) float64 { return dot(a, b, b) }

// nearestOn asserts that c is the point of the segment ab nearest to q, up to eps (in products of lengths).
func nearestOn(c, q, a, b geo.Point, eps float64) {
	sym.Assert(sym.And(c.X >= minF(a.X, b.X)-eps, c.X <= maxF(a.X, b.X)+eps), "the point reported is between the ends (x)")
	sym.Assert(sym.And(c.Y >= minF(a.Y, b.Y)-eps, c.Y <= maxF(a.Y, b.Y)+eps), "the point reported is between the ends (y)")
	sym.Assert(closeTo(cross(a, b, c), 0, eps), "the point reported is on the line of the segment")
	// it is at the foot, or at an end with the foot beyond it
	t := (q.X-c.X)*(b.X-a.X) + (q.Y-c.Y)*(b.Y-a.Y)
	sym.Assert(sym.Or(t >= -eps, sym.And(closeTo(c.X, a.X, eps), closeTo(c.Y, a.Y, eps))), "no point nearer towards the start")
	sym.Assert(sym.Or(t <= eps, sym.And(closeTo(c.X, b.X, eps), closeTo(c.Y, b.Y, eps))), "no point nearer towards the end")
}

// apart is the end of a segment from a that has a length of at least step, in one of four ways; 4 is a segment of length
// zero.
func apart(a geo.Point, way int, step, m float64, g int) geo.Point {
	switch way {
	case 0:
		return geo.Point{X: a.X + sym.F("dx", step, m, g), Y: a.Y + sym.F("dy", -m, m, g)}
	case 1:
		return geo.Point{X: a.X - sym.F("dx", step, m, g), Y: a.Y + sym.F("dy", -m, m, g)}
	case 2:
		return geo.Point{X: a.X, Y: a.Y + sym.F("dy", step, m, g)}
	case 3:
		return geo.Point{X: a.X, Y: a.Y - sym.F("dy", step, m, g)}
	}
	return a
}

// The nearest point on a segment, planar.
//
//sym:mode=real merge=off time=60
func C17_Segment() {
	size := sym.Choose("size", 4)
	m, g, step := []float64{8, 256, 1, 1.0 / 4096}[size], []int{0, 0, -8, -20}[size], []float64{1, 1, 1.0 / 256, 1.0 / (1 << 17)}[size]
	q, a := gp(m, g), gp(m, g)
	b := apart(a, sym.Choose("way", 5), step, m, g)
	d, c := geo.PointToSegmentDistance(q, a, b, geo.SRID(0))
	nearestOn(c, q, a, b, []float64{1e-9, 1e-4, 1e-6, 1e-12}[size])
	sym.Assert(d == geo.EuclideanDis(q, c), "the distance reported is that to the point reported")
}

// With geographic coordinates the point is the same and the distance is the geographic one.
//
//sym:mode=real merge=off time=60 abstract=CoordDistance:metric
func C17_SegmentGeographic() {
	q, a := gp(64, 0), gp(64, 0)
	b := apart(a, sym.Choose("way", 5), 1, 16, 0)
	d, c := geo.PointToSegmentDistance(q, a, b, geo.SRID_WGS84_GPS)
	_, c2 := geo.PointToSegmentDistance(q, a, b, geo.SRID(0))
	sym.Assert(same(c, c2), "the nearest point does not depend on the reference system")
	sym.Assert(d == geo.CoordDistance(q, c), "the distance reported is the geographic one")
}

// The foot on the infinite line and its parameter.
//
//sym:mode=real merge=off time=60
func C17_Foot() {
	size := sym.Choose("size", 2)
	m := []float64{8, 256}[size]
	eps := []float64{1e-6, 1e-2}[size]
	q, a := gp(m, 0), gp(m, 0)
	b := apart(a, sym.Choose("way", 4), 1, m, 0)
	d, f, u := geo.PointToLineDistance(q, a, b, geo.SRID(0))
	sym.Assert(closeTo(f.X, a.X+u*(b.X-a.X), eps), "the foot is at the parameter reported (x)")
	sym.Assert(closeTo(f.Y, a.Y+u*(b.Y-a.Y), eps), "the foot is at the parameter reported (y)")
	sym.Assert(closeTo((q.X-f.X)*(b.X-a.X)+(q.Y-f.Y)*(b.Y-a.Y), 0, eps), "the foot is perpendicular")
	sym.Assert(d == geo.EuclideanDis(q, f), "the distance reported is that to the foot")
}

// Snapping to a line.
//
//sym:mode=real merge=off abstract=PointToSegmentDistance time=100
func C17_Hit() {
	n := sym.Choose("n", sym.Bound("segments", 5, 8)) + 2
	size := sym.Choose("size", 2)
	m, g, step := []float64{8, 1 << 36}[size], []int{0, 30}[size], []float64{1, 1 << 30}[size]
	q := gp(m, g)
	l := geo.LineString{gp(m, g)}
	for i := 1; i < n; i++ {
		l = append(l, apart(l[i-1], (i*3)%5, step, m, g))
	}
	p, i, d := geo.PointHitLineString(q, l, geo.SRID(0))
	sym.Assert(i >= 0 && i < len(l)-1, "the index is that of a segment")
	for j := 0; j+1 < len(l); j++ {
		e, c := geo.PointToSegmentDistance(q, l[j], l[j+1], geo.SRID(0))
		sym.Assert(d <= e, "no segment is nearer")
		if j == i {
			sym.Assert(sym.And(d == e, same(c, p)), "point and distance are those of the segment reported")
		}
	}
}

// The distance to a polygon.
//
//sym:mode=real merge=off abstract=PointToSegmentDistance time=100
func C17_Polygon() {
	k := sym.Choose("size", 2)
	m := []float64{4, 1 << 35}[k]
	g := []int{0, 33}[k]
	step := []float64{1, 1 << 33}[k]
	x, y := sym.F("x", -m, m, g), sym.F("y", -m, m, g)
	w, h := sym.F("w", step, m, g), sym.F("h", step, m, g)
	pts := []geo.Point{{X: x, Y: y}, {X: x + w, Y: y}, {X: x + w, Y: y + h}, {X: x, Y: y + h}}
	if sym.Bool("triangle") {
		pts = pts[:3]
	}
	q := gp(2*m, g)
	p := poly(pts)
	d := geo.PointPolygonDistance(q, p, geo.SRID(0))
	in := geo.IsPointInPolygon(q, p)
	if in != geo.RELA_DISJOINT {
		sym.Assert(d == 0, "the distance is zero in the polygon and on its border")
		return
	}
	any := false
	for i := range pts {
		e, _ := geo.PointToSegmentDistance(q, p[0][i], p[0][i+1], geo.SRID(0))
		sym.Assert(d <= e, "no edge is nearer")
		any = sym.Or(any, d == e)
	}
	sym.Assert(any, "the distance is that to an edge")
}

// Points next to the border of a polygon, within the tolerance or just outside.
//
//sym:mode=real merge=off time=60
func C17_Border() {
	pts := []geo.Point{{}, {X: 4}, {X: 4, Y: 4}, {Y: 4}}
	p := poly(pts)
	q := geo.Point{X: sym.F("x", -1, 5, -2), Y: sym.F("off", -1.0/(1<<17), 1.0/(1<<17), -23)}
	switch sym.Choose("side", 4) {
	case 1:
		q.Y += 4
	case 2:
		q.X, q.Y = q.Y, q.X
	case 3:
		q.X, q.Y = q.Y+4, q.X
	}
	d := geo.PointPolygonDistance(q, p, geo.SRID(0))
	if geo.IsPointInPolygon(q, p) != geo.RELA_DISJOINT {
		sym.Assert(d == 0, "the distance is zero in the polygon and on its border")
	} else {
		dx, dy := maxF(maxF(-q.X, q.X-4), 0), maxF(maxF(-q.Y, q.Y-4), 0)
		sym.Assert(closeTo(d*d, dx*dx+dy*dy, 1e-9), "the distance is that to the border")
		sym.Assert(d > 0, "a point outside has a distance")
	}
}

// Points on a slanted border, where the nearest point of an edge is subject to rounding.
//
//sym:mode=real merge=off time=60
func C17_Slanted() {
	o := gp(8, 0)
	if sym.Choose("fixed", 2) == 1 {
		o = geo.Point{X: 1, Y: 2}
	}
	at := func(x, y float64) geo.Point { return geo.Point{X: o.X + x, Y: o.Y + y} }
	j := float64(sym.Choose("at", 12))
	p := poly([]geo.Point{at(0, 0), at(55, 33), at(-20, 40)})
	sym.Assert(geo.PointPolygonDistance(at(5*j, 3*j), p, geo.SRID(0)) == 0, "the distance is zero on the border")
}
