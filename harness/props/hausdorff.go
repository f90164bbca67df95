package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// The discrete Hausdorff distance is the largest distance from a vertex to the other line's nearest vertex.
//
//sym:mode=real merge=on abstract=PointDistance:metric time=100
func C23_Definition() {
	n := sym.Choose("n", sym.Bound("points", 2, 3)) + 2
	k := sym.Choose("k", sym.Bound("points", 2, 3)) + 2
	big := sym.Choose("size", 2)
	m, g := []float64{8, 1 << 36}[big], []int{0, 30}[big]
	gap := []float64{1, 1 << 30}[big]
	a, b := geo.LineString(gps(n, m, g)), geo.LineString(gps(k, m, g))
	sym.Assume(sym.And(a[0].X+gap <= a[1].X, b[0].Y+gap <= b[1].Y))
	srid := geo.SRID(0)
	if sym.Choose("geographic", 2) == 1 {
		srid = geo.SRID_WGS84_GPS
	}
	h := geo.HausdorffDistance(a, b, srid)
	reached := false
	both := [2]geo.LineString{a, b}
	for s := 0; s < 2; s++ {
		for _, p := range both[s] {
			near, all := false, true
			for _, q := range both[1-s] {
				d := geo.PointDistance(p, q, srid)
				near = sym.Or(near, d <= h)
				all = sym.And(all, d >= h)
			}
			sym.Assert(near, "every vertex has a vertex of the other line within the distance")
			reached = sym.Or(reached, all)
		}
	}
	sym.Assert(reached, "the distance is that of some vertex to the other line")
}

// Symmetric.
//
//sym:mode=real merge=on abstract=PointDistance:metric time=100
func C23_Symmetric() {
	n := sym.Choose("n", sym.Bound("points", 2, 3)) + 2
	a, b := geo.LineString(gps(n, 8, 0)), geo.LineString(gps(2, 8, 0))
	srid := geo.SRID(0)
	sym.Assume(sym.And(a[0].X+1 <= a[1].X, b[0].Y+1 <= b[1].Y))
	sym.Assert(geo.HausdorffDistance(a, b, srid) == geo.HausdorffDistance(b, a, srid), "the distance is symmetric")
}

// Zero exactly for the same set of vertices.
//
//sym:mode=real merge=off time=60
func C23_Zero() {
	a := geo.LineString(gps(3, 4, 0))
	sym.Assume(sym.And(a[0].X+1 <= a[1].X, a[1].X+1 <= a[2].X))
	perm := [][]int{{0, 1, 2}, {2, 1, 0}, {1, 0, 2, 1}, {0, 2, 0, 1}}[sym.Choose("order", 4)]
	var b geo.LineString
	for _, i := range perm {
		b = append(b, a[i])
	}
	sym.Assert(geo.HausdorffDistance(a, b, geo.SRID(0)) == 0, "lines with the same vertices have distance zero")
	b = append(b, geo.Point{X: a[0].X, Y: a[0].Y + sym.F("off", 0.25, 4, -2)})
	sym.Assert(geo.HausdorffDistance(a, b, geo.SRID(0)) > 0, "a vertex off the other line's vertices shows")
}
