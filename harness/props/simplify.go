package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// within is: p is at most r away from the segment ab (that the distance is right is C17).
func within(p, a, b geo.Point, r float64, srid geo.SRID) bool {
	d, _ := geo.PointToSegmentDistance(p, a, b, srid)
	return d <= r
}

// fits is: r is the points pts thinned out, from position i of pts and j of r on, given that pts[i] was kept as r[j].
func fits(pts, r []geo.Point, i, j int, th float64, srid geo.SRID) bool {
	if j == len(r)-1 {
		return i == len(pts)-1
	}
	any := false
	for k := i + 1; k <= len(pts)-(len(r)-1-j); k++ {
		ok := same(pts[k], r[j+1])
		for m := i + 1; m < k; m++ {
			ok = sym.And(ok, within(pts[m], pts[i], pts[k], th, srid))
		}
		if ok == false {
			continue
		}
		any = sym.Or(any, sym.And(ok, fits(pts, r, k, j+1, th, srid)))
	}
	return any
}

func simplified(pts []geo.Point, th float64, srid geo.SRID) {
	n := len(pts)
	r := geo.DouglasPeuckerSimplify(geo.LineString(cp(pts)), th, srid)
	if n < 3 {
		sym.Assert(sameList(r, pts), "a line of fewer than three points is returned unchanged")
		return
	}
	sym.Assert(len(r) >= 2 && len(r) <= n, "the ends are kept and no point is added")
	sym.Assert(sym.And(same(r[0], pts[0]), same(r[len(r)-1], pts[n-1])), "the ends are kept")
	sym.Assert(fits(pts, r, 0, 0, th, srid), "every removed point is within the threshold of the segment that replaces it")
}

// Any line of few points, closed or not.
//
//sym:mode=real merge=off abstract=PointToSegmentDistance time=100
func C22_Simplify() {
	n := sym.Choose("n", sym.Bound("points", 6, 7))
	closed := sym.Choose("closed", 2) == 1
	pts := gps(n, 8, 0)
	if closed && n > 1 {
		pts[n-1] = pts[0]
	}
	simplified(pts, sym.F("threshold", 0, 4, -2), []geo.SRID{0, geo.SRID_WGS84_GPS}[sym.Choose("srid", 2)])
}

// Threshold zero removes only points on the segment that replaces them.
//
//sym:mode=real merge=off abstract=PointToSegmentDistance time=60
func C22_Zero() {
	n := sym.Choose("n", sym.Bound("points", 3, 4)) + 3
	simplified(gps(n, 8, 0), 0, geo.SRID(0))
}

// Simplifying again changes nothing, and a larger threshold keeps no more points.
//
//sym:mode=real merge=off abstract=PointToSegmentDistance time=60
func C22_Again() {
	n := sym.Choose("n", sym.Bound("points", 4, 5)) + 3
	pts := geo.LineString(gps(n, 8, 0))
	for i := range pts { // to tell the points apart
		pts[i].Y += 32 * float64(i)
	}
	t := sym.F("threshold", 0, 40, -2)
	r := geo.DouglasPeuckerSimplify(pts, t, geo.SRID(0))
	sym.Assert(sameList(geo.DouglasPeuckerSimplify(r, t, geo.SRID(0)), r), "simplifying again changes nothing")
	u := t + sym.F("more", 0, 40, -2)
	in := 0
	for _, p := range geo.DouglasPeuckerSimplify(pts, u, geo.SRID(0)) {
		for in < len(r) && r[in].Y != p.Y {
			in++
		}
		sym.Assert(in < len(r), "a larger threshold keeps no other points")
	}
}

// With a negative threshold every point is kept.
//
//sym:mode=real merge=off abstract=PointToSegmentDistance time=60 steps=300000
func C22_Negative() {
	n := sym.Choose("n", sym.Bound("points", 6, 8))
	pts := gps(n, 8, 0)
	r := geo.DouglasPeuckerSimplify(geo.LineString(cp(pts)), sym.F("threshold", -4, -1, -2), geo.SRID(0))
	sym.Assert(sameList(r, pts), "with a negative threshold every point is kept")
}

// The same for two points whose distances from what replaces them are computed.
//
//sym:mode=real merge=off time=60
func C22_Bump() {
	a, b := sym.F("a", 0, 4, -2), sym.F("b", 0, 4, -2)
	l := geo.LineString{{X: 0, Y: 0}, {X: 2, Y: a}, {X: 3, Y: b}, {X: 10, Y: 0}}
	t := sym.F("threshold", 0.25, 4, -2)
	u := t + sym.F("more", 0, 4, -2)
	r := geo.DouglasPeuckerSimplify(l, t, geo.SRID(0))
	sym.Assert(sameList(geo.DouglasPeuckerSimplify(r, t, geo.SRID(0)), r), "simplifying again changes nothing")
	in := 0
	for _, p := range geo.DouglasPeuckerSimplify(l, u, geo.SRID(0)) {
		for in < len(r) && r[in].X != p.X {
			in++
		}
		sym.Assert(in < len(r), "a larger threshold keeps no other points")
	}
}
