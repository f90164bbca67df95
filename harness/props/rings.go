package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

func nearPt(a, b geo.Point) bool { return sym.And(near(a.X, b.X), near(a.Y, b.Y)) }
func nearPtZ(a, b geo.PointZ) bool {
	return sym.And(near(a.X, b.X), near(a.Y, b.Y), near(a.Z, b.Z))
}

func epts(n int) []geo.Point {
	var r []geo.Point
	for i := 0; i < n; i++ {
		r = append(r, ept())
	}
	return r
}

func checkRing(r, pts []geo.Point) {
	n := len(pts)
	sym.Assert(len(r) >= n, "no vertex is lost")
	sym.Assert(sameList(r[:n], pts), "the vertices keep their order")
	cl := nearPt(pts[0], pts[n-1])
	sym.Assert((len(r) == n) == cl, "a point is added exactly when the ring is open")
	if len(r) > n {
		sym.Assert(len(r) == n+1, "at most one point is added")
		sym.Assert(same(r[n], pts[0]), "the added point is the first one")
	}
}

// Every way of building a ring from points closes it and keeps the vertices.
func C13_Ring() {
	n := sym.Choose("n", sym.Bound("points", 5, 8)) + 2
	pts := epts(n)
	in := cp(pts)
	switch sym.Choose("how", 4) {
	case 0:
		checkRing(*geo.NewLinearRing(in...), pts)
	case 1:
		checkRing(*geo.NewRingFromLine(in), pts)
	case 2:
		checkRing(geo.LineString(in).ToRing(), pts)
	case 3:
		p := geo.NewPolygonFromPois(in...)
		sym.Assert(len(*p) == 1, "a polygon from points has one ring")
		checkRing((*p)[0], pts)
	}
	sym.Assert(sameList(in, pts), "the points given are unchanged")
}

func C13_RingZ() {
	n := sym.Choose("n", sym.Bound("points", 4, 6)) + 2
	var pts []geo.PointZ
	for i := 0; i < n; i++ {
		pts = append(pts, gpz(8, -24))
	}
	in := cpz(pts)
	var r []geo.PointZ
	switch sym.Choose("how", 4) {
	case 0:
		r = *geo.NewLinearRingZ(in...)
	case 1:
		r = *geo.NewRingFromLineZ(in)
	case 2:
		r = geo.LineStringZ(in).ToRing()
	case 3:
		p := geo.NewPolygonZFromPois(in...)
		sym.Assert(len(*p) == 1, "a polygon from points has one ring")
		r = (*p)[0]
	}
	sym.Assert(len(r) >= n, "no vertex is lost")
	sym.Assert(sameListZ(r[:n], pts), "the vertices keep their order")
	cl := nearPtZ(pts[0], pts[n-1])
	sym.Assert((len(r) == n) == cl, "a point is added exactly when the ring is open")
	if len(r) > n {
		sym.Assert(len(r) == n+1, "at most one point is added")
		sym.Assert(sameZ(r[n], pts[0]), "the added point is the first one")
	}
}

// Points are equal exactly when every coordinate differs by less than 1e-6.
func C13_PointEqual() {
	a, b := ept(), ept()
	sym.Assert(a.Equal(b) == nearPt(a, b), "equality of points")
	sym.Assert(a.Equal(b) == b.Equal(a), "equality is symmetric")
	sym.Assert(a.Equal(a), "a point equals itself")
}

func C13_PointZEqual() {
	a, b := gpz(8, -24), gpz(8, -24)
	sym.Assert(a.Equal(b) == nearPtZ(a, b), "equality of 3D points")
	sym.Assert(a.Equal(b) == b.Equal(a), "equality is symmetric")
	sym.Assert(a.Equal(a), "a point equals itself")
}

func sameRings(a, b []geo.LinearRing) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, sameList(a[i], b[i]))
	}
	return r
}

// Polygons report their rings and points as put in.
//
//sym:mode=ord
func C13_Polygon() {
	k := sym.Choose("rings", sym.Bound("rings", 4, 5))
	var rs []geo.LinearRing
	for i := 0; i < k; i++ {
		rs = append(rs, aps(3))
	}
	p := *geo.NewPolygon(rs...)
	sym.Assert(sameRings(p, rs), "NewPolygon holds its rings")
	if k == 0 {
		sym.Assert(p.GetExteriorRing() == nil, "an empty polygon has no outer ring")
		sym.Assert(len(p.GetInteriorRing()) == 0, "an empty polygon has no inner rings")
	} else {
		sym.Assert(sameList(p.GetExteriorRing(), rs[0]), "the outer ring is the first")
		sym.Assert(sameList(p.GetExteriorPoints(), rs[0]), "the outer points are those of the first ring")
		sym.Assert(sameRings(p.GetInteriorRing(), rs[1:]), "the inner rings are the others")
		sym.Assert(p.GetExteriorRing().GetPointCount() == 3, "the point count is the number of points")
		sym.Assert(sameList(p.GetExteriorRing().GetPointSet(), rs[0]), "the point set is all points")
		sym.Assert(sameList(p.GetExteriorRing().ToLineString(), rs[0]), "the line has the same points")
	}
	h := geo.LinearRing(aps(3))
	if sym.Choose("edit", 2) == 0 {
		p.AddInteriorRing(h)
		sym.Assert(sameRings(p, append(append([]geo.LinearRing{}, rs...), h)), "an added ring comes last")
	} else {
		p.SetExteriorRing(h)
		w := append([]geo.LinearRing{}, rs...)
		if k == 0 {
			w = append(w, h)
		} else {
			w[0] = h
		}
		sym.Assert(sameRings(p, w), "setting the outer ring replaces the first ring only")
	}
}

//sym:mode=ord
func C13_PolygonZ() {
	k := sym.Choose("rings", sym.Bound("rings", 4, 5))
	var rs []geo.LinearRingZ
	for i := 0; i < k; i++ {
		rs = append(rs, apsz(3))
	}
	p := *geo.NewPolygonZ(rs...)
	sym.Assert(len(p) == k, "NewPolygonZ holds its rings")
	for i := range rs {
		sym.Assert(sameListZ(p[i], rs[i]), "NewPolygonZ holds its rings")
	}
	if k == 0 {
		sym.Assert(p.GetExteriorRing() == nil, "an empty polygon has no outer ring")
		sym.Assert(len(p.GetInteriorRing()) == 0, "an empty polygon has no inner rings")
	} else {
		sym.Assert(sameListZ(p.GetExteriorRing(), rs[0]), "the outer ring is the first")
		sym.Assert(sameListZ(p.GetExteriorPoints(), rs[0]), "the outer points are those of the first ring")
		sym.Assert(len(p.GetInteriorRing()) == k-1, "the inner rings are the others")
		for i, r := range p.GetInteriorRing() {
			sym.Assert(sameListZ(r, rs[i+1]), "the inner rings are the others")
		}
		sym.Assert(p.GetExteriorRing().GetPointCount() == 3, "the point count is the number of points")
		sym.Assert(sameListZ(p.GetExteriorRing().GetPointSet(), rs[0]), "the point set is all points")
		sym.Assert(sameListZ(p.GetExteriorRing().ToLineString(), rs[0]), "the line has the same points")
	}
	h := geo.LinearRingZ(apsz(3))
	if sym.Choose("edit", 2) == 0 {
		p.AddInteriorRing(h)
		sym.Assert(len(p) == k+1 && sameListZ(p[k], h), "an added ring comes last")
	} else {
		p.SetExteriorRing(h)
		sym.Assert(sameListZ(p[0], h), "setting the outer ring replaces the first ring")
		sym.Assert(len(p) == max(k, 1), "setting the outer ring keeps the others")
	}
}
