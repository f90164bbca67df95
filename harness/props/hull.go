package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// hullOf asserts that the hull of the points is right. As every point is to the left of every edge and there is an area,
// the region is the convex hull, so that it can depend neither on the order of the points nor on repeated ones.
func hullOf(pts []geo.Point) {
	flat := true
	for i := 1; i < len(pts); i++ {
		for j := i + 1; j < len(pts); j++ {
			flat = sym.And(flat, cross(pts[0], pts[i], pts[j]) == 0)
		}
	}
	if len(pts) > 1 {
		same0 := true
		for i := 2; i < len(pts); i++ {
			same0 = sym.And(same0, same(pts[0], pts[i]))
		}
		flat = sym.Or(flat, same0)
	}
	h := geo.ConvexHull(pts...)
	if len(h) == 0 {
		sym.Assert(flat, "points that span an area have a hull")
		return
	}
	sym.Assert(len(h) == 1 && len(h[0]) >= 2, "the hull is one ring")
	r := h[0]
	n := len(r) - 1
	sym.Assert(same(r[0], r[n]), "the hull is closed")
	sum := 0.0
	for i := 0; i < n; i++ {
		in := false
		for _, p := range pts {
			in = sym.Or(in, same(r[i], p))
		}
		sym.Assert(in, "the vertices of the hull are points given")
		left := true
		for _, p := range pts {
			left = sym.And(left, cross(r[i], r[i+1], p) >= 0)
		}
		sym.Assert(sym.Or(flat, left), "every point is inside or on the hull, which is convex and counter-clockwise")
		sum += cross(r[0], r[i], r[i+1])
	}
	sym.Assert(sym.Iff(sum > 0, sym.Not(flat)), "the hull has an area exactly if the points span one")
}

// Any few points.
//
//sym:mode=int merge=off feas=0.05 inc=0.1 time=30
func C21_Hull() {
	n := sym.Choose("n", sym.Bound("points", 4, 5))
	hullOf(gps(n, 4, 0))
}

// Three points with fractions, whose triangle may be small.
//
//sym:mode=int merge=off feas=0.05 inc=0.1 time=30
func C21_Small() {
	pts := gps(3, 4, -3)
	if sym.Choose("fourth", 2) == 1 {
		pts = append(pts, geo.Point{X: 0.5, Y: 0.25})
	}
	hullOf(pts)
}

// Points of which one is given twice or more, in any position.
//
//sym:mode=int merge=off feas=0.05 inc=0.1 time=30
func C21_Repeated() {
	pts := []geo.Point{{X: 0, Y: 0}, {X: 4, Y: 1}, {X: 1, Y: 4}, gp(5, 0)}
	k := sym.Choose("which", 4)
	pts = append(pts, pts[k])
	if m := sym.Choose("more", 4); m > 0 {
		pts = append([]geo.Point{pts[(k+m)%4]}, pts...)
	}
	hullOf(pts)
}

// Many points, two of them free: sorting goes another way from thirteen points on.
//
//sym:mode=int merge=off feas=0.05 inc=0.1 time=30
func C21_Many() {
	pts := []geo.Point{{X: 1, Y: 3}, {X: 5, Y: 1}, {X: 2, Y: 6}, {X: 7, Y: 7}, {X: 3, Y: 2}, {X: 6, Y: 4}, {X: 4, Y: 8},
		{X: 8, Y: 3}, {X: 1, Y: 7}, {X: 5, Y: 5}, {X: 2, Y: 4}, {X: 7, Y: 2}, {X: 4, Y: 4}}
	at := sym.Choose("at", 3) * 6
	p := gp(9, 0)
	pts[at] = p
	hullOf(pts)
}

// Two free points among fixed ones.
//
//sym:mode=int merge=off feas=0.05 inc=0.1 time=30
func C21_Two() {
	pts := []geo.Point{{X: -1, Y: 0}, gp(4, 0), {X: 3, Y: 1}, gp(4, 0), {X: 1, Y: 3}}
	hullOf(pts)
}
