package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
)

// small is a geometry of the kind with few points: empty, one point, two, or three.
func small(kind, n int, pts []geo.Point) geo.Geometry {
	p := pts[:n:n]
	switch kind {
	case 0:
		return pts[0]
	case 1:
		return geo.MultiPoint(p)
	case 2:
		return geo.LineString(p)
	case 3:
		if n == 0 {
			return geo.MultiLineString{}
		}
		return geo.MultiLineString{geo.LineString(p), nil}
	case 4:
		if n == 0 {
			return geo.Polygon{}
		}
		return geo.Polygon{ring(p)}
	case 5:
		if n == 0 {
			return geo.Polygon(nil)
		}
		return geo.Polygon{geo.LinearRing(p[:n-1])}
	case 6:
		if n == 0 {
			return geo.MultiPolygon{nil}
		}
		return geo.MultiPolygon{{ring(p)}, {}, {nil}}
	}
	return geo.LineString(nil)
}

func few(coarse bool) geo.Geometry {
	m, g := 4.0, 0
	if !coarse {
		m, g = 1.0/(1<<18), -21
	}
	n := sym.Choose("n", 4)
	return small(sym.Choose("kind", 8), n, gps(3, m, g))
}

// Measuring a geometry with few points, or none, does not panic.
//
//sym:mode=real merge=off feas=0.03 inc=0.03 time=12
func C36_Measures() {
	x := few(sym.Bool("coarse"))
	switch sym.Choose("what", 4) {
	case 0:
		geo.BoundingBox(x)
		geo.BoxToGeo(*geo.BoundingBox(x))
	case 1:
		geo.GetArea(x)
		geo.Centroid(x)
	case 2:
		if p, ok := x.(geo.Polygon); ok {
			p.Verify()
			p.SelfIntersect()
			p.IsCCW()
			p.GetInteriorRing()
			p.GetExteriorPoints()
		}
		if l, ok := x.(geo.LineString); ok {
			l.Verify()
			l.Length()
			l.GetFirstPoint()
			l.GetEndPoint()
			l.Reverse()
		}
	case 3:
		if x.Type() == geo.GEOMETRY_POINT || x.Type() == geo.GEOMETRY_POLYGON || x.Type() == geo.GEOMETRY_LINESTRING {
			geo.RotateCW(x, geo.Point{X: 1, Y: 2}, 1)
			geo.RotateCCW(x, geo.Point{X: 1, Y: 2}, 1)
		}
	}
}

//sym:mode=real merge=off feas=0.03 inc=0.03 time=12
func C36_Mbr() {
	pts := onePoint()
	if sym.Bool("tiny") {
		for i := range pts {
			pts[i].X /= 1 << 19
			pts[i].Y /= 1 << 19
		}
	}
	geo.Mbr(small(sym.Choose("kind", 8), sym.Choose("n", 4), pts))
}

// Constructors given few points do not panic.
//
//sym:mode=ord
func C36_Constructors() {
	n := sym.Choose("n", 4)
	pts := aps(n)
	var z []geo.PointZ
	for _, p := range pts {
		z = append(z, geo.PointZ{X: p.X, Y: p.Y, Z: 1})
	}
	geo.NewLinearRing(pts...)
	geo.NewLinearRingZ(z...)
	geo.NewRingFromLine(geo.LineString(pts))
	geo.NewRingFromLineZ(geo.LineStringZ(z))
	p := geo.NewPolygonFromPois(pts...)
	q := geo.NewPolygonZFromPois(z...)
	a, b := geo.LineString(pts).ToRing(), geo.LineStringZ(z).ToRing()
	sym.Assert(len(p.GetExteriorRing()) == len(a) && len(q.GetExteriorRing()) == len(b), "rings and polygons agree")
	sym.Assert(n < 2 || len(a) >= n && len(b) >= n, "two or more points make a ring")
	geo.NewLineString(pts...)
	geo.NewLineStringZ(z...)
	geo.NewMultiPoint(pts...)
	geo.NewMultiLineString()
	geo.NewPolygon()
	geo.NewPolygonZ()
	geo.NewMultiPolygon()
}

// Encoding a geometry with few points, or none, does not panic.
//
//sym:mode=fp time=12
func C36_Encode() {
	n := sym.Choose("n", 4)
	x := small(sym.Choose("kind", 8), n, []geo.Point{{X: 1.5, Y: sym.Any("y")}, {X: 1, Y: 2}, {X: 3, Y: 4.5}})
	wkt.Encode(x)
	geojson.MarshalGeo(x)
	geojson.NewFeature(x).SetBoundingBox()
}

// onePoint is three points, one of them free.
func onePoint() []geo.Point {
	pts := []geo.Point{{X: 0, Y: 0}, {X: 1, Y: 0}, {X: -1, Y: 1}}
	pts[sym.Choose("free", 3)] = gp(2, 0)
	return pts
}

// Relations and distances between a geometry with few points and a plain one do not panic.
//
//sym:mode=real merge=off feas=0.03 inc=0.03 time=12
func C36_Lines() {
	n := sym.Choose("n", 4)
	l := geo.LineString(onePoint()[:n])
	q := geo.Point{X: 1, Y: 1}
	sq := poly([]geo.Point{{X: -1, Y: -1}, {X: 1, Y: -1}, {X: 0, Y: 1}})
	full := geo.LineString{{X: -3, Y: 0}, {X: 3, Y: 1}}
	switch sym.Choose("what", 7) {
	case 0:
		geo.IsPointOnLine(q, l)
	case 1:
		geo.LinePolyRelation(l, sq)
	case 2:
		geo.LineRelation(l, full)
		geo.LineRelation(full, l)
	case 3:
		geo.HausdorffDistance(l, full, geo.SRID(0))
		geo.HausdorffDistance(full, l, geo.SRID(0))
	case 4:
		geo.PointHitLineString(q, l, geo.SRID(0))
	case 5:
		geo.DouglasPeuckerSimplify(l, 1, geo.SRID(0))
	case 6:
		geo.ConvexHull(l...)
	}
}

//sym:mode=real merge=off feas=0.03 inc=0.03 time=12
func C36_Rings() {
	n := sym.Choose("n", 4)
	pts := onePoint()[:n:n]
	var p geo.Polygon
	if n > 0 {
		p = geo.Polygon{geo.LinearRing(pts[: n-1 : n-1])}
		if sym.Bool("closed") {
			p = poly(pts)
		}
	}
	var v geo.LinearRing
	if len(p) > 0 {
		v = p[0]
	}
	q := geo.Point{X: 1, Y: 1}
	sq := poly([]geo.Point{{X: -1, Y: -1}, {X: 1, Y: -1}, {X: 0, Y: 1}})
	switch sym.Choose("what", 6) {
	case 0:
		geo.IsPointInPolygon(q, p)
	case 1:
		geo.LinePolyRelation(geo.LineString{{X: -3, Y: 0}, {X: 3, Y: 1}}, p)
	case 2:
		geo.PolyRelation(sq, p)
	case 3:
		geo.PointPolygonDistance(q, p, geo.SRID(0))
	case 4:
		geo.LinearPolyRelation(v, sq)
	case 5:
		geo.LinearCentroid(v)
	}
}
