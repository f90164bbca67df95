package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
)

// guarded is n points in storage with two more points behind them, as when the caller appended to a line cut from a
// longer one.
type guarded struct {
	all []geo.Point
	was []geo.Point
}

func guard(pts []geo.Point) *guarded {
	all := append(cp(pts), geo.Point{X: 77, Y: -77}, geo.Point{X: -78, Y: 78})
	return &guarded{all, cp(all)}
}

func (g *guarded) pts() []geo.Point { return g.all[:len(g.all)-2] }

func (g *guarded) check(what string) {
	sym.Assert(sameList(g.all, g.was), what+" leaves the caller's points alone")
}

type guardedZ struct {
	all []geo.PointZ
	was []geo.PointZ
}

func guardZ(pts []geo.PointZ) *guardedZ {
	all := append(cpz(pts), geo.PointZ{X: 77, Y: -77, Z: 7}, geo.PointZ{X: -78, Y: 78, Z: 8})
	return &guardedZ{all, cpz(all)}
}

func (g *guardedZ) pts() []geo.PointZ { return g.all[:len(g.all)-2] }

func (g *guardedZ) check(what string) {
	sym.Assert(sameListZ(g.all, g.was), what+" leaves the caller's points alone")
}

// somePoints is n points, the last one free, equal to the first, or almost equal to it.
func somePoints(n int) []geo.Point {
	pts := gps(n, 4, 0)
	if n > 1 {
		switch sym.Choose("ends", 3) {
		case 1:
			pts[n-1] = pts[0]
		case 2:
			pts[n-1] = geo.Point{X: pts[0].X + 1.0/(1<<22), Y: pts[0].Y}
		}
	}
	return pts
}

// A ring made from a line does not share the line's storage in a way that shows: making it, and editing it afterwards,
// leaves the line and what lies behind it alone.
//
//sym:mode=bv time=60
func C12_Ring() {
	n := sym.Choose("n", sym.Bound("points", 4, 6)) + 2
	g := guard(somePoints(n))
	var r geo.LinearRing
	switch sym.Choose("how", 4) {
	case 0:
		r = *geo.NewRingFromLine(geo.LineString(g.pts()))
	case 1:
		r = geo.LineString(g.pts()).ToRing()
	case 2:
		r = *geo.NewLinearRing(g.pts()...)
	case 3:
		r = geo.NewPolygonFromPois(g.pts()...).GetExteriorRing()
	}
	g.check("building a ring")
	before := cp(r)
	r2 := append(r, geo.Point{X: 5, Y: 5})
	_ = r2
	g.check("appending to a ring built from a line")
	g.all[0] = geo.Point{X: 9, Y: 9}
	sym.Assert(sameList(r, before), "changing the line afterwards does not change the ring")
}

//sym:mode=bv time=60
func C12_RingZ() {
	n := sym.Choose("n", sym.Bound("points", 4, 6)) + 2
	var ps []geo.PointZ
	for i := 0; i < n; i++ {
		ps = append(ps, gpz(4, 0))
	}
	switch sym.Choose("ends", 3) {
	case 1:
		ps[n-1] = ps[0]
	case 2:
		ps[n-1] = ps[0]
		ps[n-1].Z += 1.0 / (1 << 22)
	}
	g := guardZ(ps)
	var r geo.LinearRingZ
	switch sym.Choose("how", 4) {
	case 0:
		r = *geo.NewRingFromLineZ(geo.LineStringZ(g.pts()))
	case 1:
		r = geo.LineStringZ(g.pts()).ToRing()
	case 2:
		r = *geo.NewLinearRingZ(g.pts()...)
	case 3:
		r = geo.NewPolygonZFromPois(g.pts()...).GetExteriorRing()
	}
	g.check("building a ring")
	before := cpz(r)
	r2 := append(r, geo.PointZ{X: 5, Y: 5})
	_ = r2
	g.check("appending to a ring built from a line")
	g.all[0] = geo.PointZ{X: 9, Y: 9}
	sym.Assert(sameListZ(r, before), "changing the line afterwards does not change the ring")
}

// Simplifying.
//
//sym:mode=real merge=off feas=0.03 inc=0.03 time=20
func C12_Simplify() {
	n := sym.Choose("n", sym.Bound("points", 5, 6))
	g := guard(somePoints(n))
	r := geo.DouglasPeuckerSimplify(geo.LineString(g.pts()), sym.F("threshold", 0, 2, -1), geo.SRID(0))
	g.check("simplifying")
	before := cp(r)
	r = append(r, geo.Point{X: 5, Y: 5})
	g.check("appending to a simplified line")
	if n > 0 {
		g.all[0] = geo.Point{X: 9, Y: 9}
		sym.Assert(sameList(r[:len(before)], before), "changing the line afterwards does not change the simplified one")
	}
}

// The hull and the bounding rectangle.
//
//sym:mode=bv merge=off feas=0.03 inc=0.03 time=20
func C12_Hull() {
	n := sym.Choose("n", sym.Bound("points", 5, 6))
	g := guard(gps(n, 2, 0))
	geo.ConvexHull(g.pts()...)
	g.check("a convex hull")
}

//sym:mode=real merge=off feas=0.03 inc=0.03 time=20
func C12_Mbr() {
	g := guard(append(onePoint(), geo.Point{X: 1, Y: -1})[:sym.Choose("n", 2)+3])
	switch sym.Choose("kind", 4) {
	case 0:
		geo.Mbr(geo.MultiPoint(g.pts()))
	case 1:
		geo.Mbr(geo.LineString(g.pts()))
	case 2:
		geo.Mbr(geo.Polygon{geo.LinearRing(g.pts())})
	case 3:
		geo.Mbr(geo.MultiLineString{geo.LineString(g.pts())})
	}
	g.check("a minimal bounding rectangle")
}

// Measures, relations and encodings of a ring or line.
//
//sym:mode=real merge=off feas=0.03 inc=0.03 time=20
func C12_Measures() {
	pts := ring(gps(3, 4, 0))
	g := guard(pts)
	l := geo.LineString(g.pts())
	p := geo.Polygon{geo.LinearRing(g.pts())}
	h := guard([]geo.Point{gp(4, 0), gp(4, 0)})
	l2 := geo.LineString(h.pts())
	what := ""
	switch sym.Choose("what", 12) {
	case 0:
		what = "an area"
		geo.GetArea(p)
		geo.GetArea(geo.MultiPolygon{p})
		p.IsCCW()
	case 1:
		what = "a centroid"
		geo.Centroid(p)
		geo.Centroid(geo.MultiPoint(g.pts()))
		geo.Centroid(l)
		geo.LinearCentroid(geo.LinearRing(g.pts()))
	case 2:
		what = "a bounding box"
		geo.BoundingBox(p)
		geo.BoundingBox(l)
		geo.BoundingBox(geo.MultiPoint(g.pts()))
		geo.BoundingBox(geo.MultiLineString{l})
		geo.BoundingBox(geo.MultiPolygon{p})
	case 3:
		what = "a point relation"
		geo.IsPointInPolygon(h.all[0], p)
		geo.IsPointOnLine(h.all[0], l)
	case 4:
		what = "a line relation"
		geo.LineRelation(l, l2)
	case 5:
		what = "a relation to a polygon"
		geo.LinePolyRelation(l2, p)
	case 6:
		what = "a polygon relation"
		geo.PolyRelation(geo.Polygon{ring(h.pts())}, p)
	case 7:
		what = "a self-intersection test"
		p.SelfIntersect()
		p.Verify()
		l.Verify()
	case 8:
		what = "a distance"
		geo.PointPolygonDistance(h.all[0], p, geo.SRID(0))
		geo.PointHitLineString(h.all[0], l2, geo.SRID(0))
	case 9:
		what = "a length"
		l.Length()
		l.Equal(l2)
		geo.HausdorffDistance(geo.LineString(g.pts()[:2]), l2, geo.SRID(0))
	case 10:
		what = "a rotation"
		geo.RotateCW(p, h.all[0], 1)
		geo.RotateCCW(p, h.all[0], 1)
	case 11:
		what = "an encoding"
		wkt.Encode(p)
		wkt.Encode(l)
		wkt.Encode(geo.MultiPolygon{p})
		geojson.MarshalGeo(p)
		geojson.MarshalGeo(l)
		geojson.MarshalGeo(geo.MultiPoint(g.pts()))
		geojson.NewFeature(p)
	}
	g.check(what)
	h.check(what)
}

// Constructors copy the list they are given.
//
//sym:mode=ord
func C12_Constructors() {
	n := sym.Choose("n", sym.Bound("points", 4, 6)) + 1
	g := guard(aps(n))
	other := geo.Point{X: 1, Y: 2}
	l := geo.NewLineString(g.pts()...)
	mp := geo.NewMultiPoint(g.pts()...)
	before := cp(g.pts())
	l.Append(other)
	mp.Append(other)
	g.check("building a line or multipoint and appending to it")
	g.all[n-1] = other
	sym.Assert(sameList((*l)[:n], before), "a line does not change with the arguments of its constructor")
	sym.Assert(sameList((*mp)[:n], before), "a multipoint does not change with the arguments of its constructor")
	lines := make([]geo.LineString, 2, 4)
	lines[0], lines[1] = geo.LineString(before), geo.LineString(cp(before))
	ml := geo.NewMultiLineString(lines...)
	rings := make([]geo.LinearRing, 2, 4)
	rings[0], rings[1] = geo.LinearRing(before), geo.LinearRing(cp(before))
	p := geo.NewPolygon(rings...)
	polys := make([]geo.Polygon, 2, 4)
	polys[0], polys[1] = *p, geo.Polygon{}
	mpo := geo.NewMultiPolygon(polys...)
	p.AddInteriorRing(geo.LinearRing{other})
	mpo.AddPolygon(geo.Polygon{})
	lines[0], rings[0], polys[0] = nil, nil, nil
	sym.Assert(len(*ml) == 2 && sameList((*ml)[0], before), "a multiline does not change with the arguments of its constructor")
	sym.Assert(len(*p) == 3 && sameList((*p)[0], before), "a polygon does not change with the arguments of its constructor")
	sym.Assert(len(*mpo) == 3 && len((*mpo)[0]) == 2 && sameList((*mpo)[0][0], before), "a multipolygon does not change with the arguments of its constructor")
	sym.Assert(len(lines[:3][2]) == 0 && len(rings[:3][2]) == 0 && len(polys[:3][2]) == 0, "storage behind the arguments is left alone")
}

// Covering with cells.
//
//sym:mode=bv merge=off
func C12_Cover() {
	pts := ring(gps(sym.Choose("n", 2)+3, 3, 0))
	sym.Assume(cross(pts[0], pts[1], pts[2]) != 0)
	g := guard(pts)
	geo.S2RegionCoverer(geo.Polygon{geo.LinearRing(g.pts())}, 4, geo.SRID_WGS84_GPS)
	g.check("a cell covering")
}
