package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// inside is: p is strictly inside the closed polygon over v, given that it lies on none of its edges.
func inside(p geo.Point, v []geo.Point) bool {
	in := false
	for i := range v {
		a, b := v[i], v[(i+1)%len(v)]
		c := cross(a, b, p)
		hit := sym.Or(sym.And(a.Y <= p.Y, b.Y > p.Y, c > 0), sym.And(b.Y <= p.Y, a.Y > p.Y, c < 0))
		in = sym.Or(sym.And(in, sym.Not(hit)), sym.And(sym.Not(in), hit))
	}
	return in
}

func onRing(p geo.Point, v []geo.Point) bool {
	r := false
	for i := range v {
		r = sym.Or(r, onSeg(p, v[i], v[(i+1)%len(v)]))
	}
	return r
}

func inOrOn(p geo.Point, v []geo.Point) bool { return sym.Or(onRing(p, v), inside(p, v)) }

// convex is: v is a strictly convex counter-clockwise or clockwise polygon.
func convex(v []geo.Point) bool {
	n := len(v)
	l, r := true, true
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if j == i || j == (i+1)%n {
				continue
			}
			c := cross(v[i], v[(i+1)%n], v[j])
			l = sym.And(l, c > 0)
			r = sym.And(r, c < 0)
		}
	}
	return sym.Or(l, r)
}

func classify(v []geo.Point, p geo.Point) {
	sym.Assume(simple(v))
	r := geo.IsPointInPolygon(p, poly(v))
	on := onRing(p, v)
	sym.Assert(sym.Implies(on, r == geo.RELA_TOUCH), "a point on the border touches")
	in := inside(p, v)
	sym.Assert(sym.Implies(sym.And(sym.Not(on), in), r == geo.RELA_CONTAIN), "a point inside is contained")
	sym.Assert(sym.Implies(sym.And(sym.Not(on), sym.Not(in)), r == geo.RELA_DISJOINT), "a point outside is disjoint")
}

//sym:time=30
func C18_Triangle() { classify(gps(3, 15, 0), gp(15, 0)) }

//sym:time=30
func C18_Quad() { classify(gps(4, 7, 0), gp(7, 0)) }

// A fixed star-like ring of eight vertices with two free neighbouring vertices.
//
//sym:time=30
func C18_Large() {
	v := []geo.Point{{X: 0, Y: 10}, {X: -3, Y: 3}, {X: -10, Y: 0}, {X: -3, Y: -3}, {X: 0, Y: -10}, {X: 3, Y: -3}, {X: 10, Y: 0}, {X: 3, Y: 3}}
	v[7] = gp(12, 0)
	classify(v, gp(12, 0))
}

func C18_OnSegment() {
	a, b, p := gp(500, -2), gp(500, -2), gp(500, -2)
	sym.Assert(geo.IsPointOnSegment(a, b, p) == onSeg(p, a, b), "on-segment test is exact")
	sym.Assert(geo.IsPointOnSegment(b, a, p) == onSeg(p, a, b), "on-segment test does not depend on direction")
}

func C18_OnLine() {
	n := 1 + sym.Choose("n", sym.Bound("points", 4, 6))
	l := geo.LineString(gps(n, 31, -1))
	p := gp(31, -1)
	on := same(p, l[0])
	for i := 0; i+1 < n; i++ {
		on = sym.Or(on, onSeg(p, l[i], l[i+1]))
	}
	sym.Assert(geo.IsPointOnLine(p, l) == on, "on-line test is exact")
}

func relation(a, b, c, d geo.Point) {
	s, t := geo.LineSegment{Start: a, End: b}, geo.LineSegment{Start: c, End: d}
	r := geo.SegmentRelation(s, t)
	x, m := proper(a, b, c, d), meet(a, b, c, d)
	sym.Assert((r == geo.RELA_INTERSECT) == x, "INTERSECT exactly for a proper crossing")
	sym.Assert((r == geo.RELA_TOUCH) == sym.And(m, sym.Not(x)), "TOUCH exactly for any other shared point")
	sym.Assert((r == geo.RELA_DISJOINT) == sym.Not(m), "DISJOINT exactly without shared point")
}

func C19_Segments() { relation(gp(15, 0), gp(15, 0), gp(15, 0), gp(15, 0)) }

// Whichever is given first and whatever the direction.
func C19_Symmetric() {
	a, b, c, d := gp(3, 0), gp(3, 0), gp(3, 0), gp(3, 0)
	r := geo.SegmentRelation(geo.LineSegment{Start: a, End: b}, geo.LineSegment{Start: c, End: d})
	sym.Assert(r == geo.SegmentRelation(geo.LineSegment{Start: c, End: d}, geo.LineSegment{Start: a, End: b}), "relation is symmetric")
	sym.Assert(r == geo.SegmentRelation(geo.LineSegment{Start: b, End: a}, geo.LineSegment{Start: c, End: d}), "direction does not matter")
	sym.Assert(r == geo.SegmentRelation(geo.LineSegment{Start: a, End: b}, geo.LineSegment{Start: d, End: c}), "direction does not matter")
}

func C19_Lines() {
	n := 2 + sym.Choose("n", 2)
	m := 2
	if n == 2 {
		m += sym.Choose("m", 2)
	}
	k, l := geo.LineString(gps(n, 7, 0)), geo.LineString(gps(m, 7, 0))
	any := false
	for i := 0; i+1 < n; i++ {
		for j := 0; j+1 < m; j++ {
			any = sym.Or(any, meet(k[i], k[i+1], l[j], l[j+1]))
		}
	}
	r := geo.LineRelation(k, l)
	sym.Assert((r == geo.RELA_INTERSECT) == any, "lines intersect exactly when some segments share a point")
	sym.Assert((r == geo.RELA_DISJOINT) == sym.Not(any), "lines are disjoint otherwise")
}

func C19_SelfIntersect4() {
	v := gps(4, 7, 0)
	sym.Assert(poly(v).SelfIntersect() == crosses(v), "self-intersecting exactly when two edges cross properly")
}

//sym:time=40
func C19_SelfIntersect5() {
	v := gps(5, 3, 0)
	sym.Assert(poly(v).SelfIntersect() == crosses(v), "self-intersecting exactly when two edges cross properly")
}

// Seven vertices, two of them free: every pair of edges is examined.
func C19_SelfIntersectLarge() {
	v := []geo.Point{{X: 0, Y: 0}, {X: 6, Y: -3}, {X: 10, Y: 1}, {X: 11, Y: 6}, {X: 7, Y: 10}, {X: 2, Y: 11}, {X: -3, Y: 6}}
	k := sym.Choose("k", len(v))
	v[k] = gp(15, 0)
	sym.Assert(poly(v).SelfIntersect() == crosses(v), "self-intersecting exactly when two edges cross properly")
}

// segPoly checks one segment against a simple polygon.
func segPoly(v []geo.Point, a, b geo.Point) {
	sym.Assume(simple(v))
	sym.Assume(sym.Not(same(a, b)))
	n := len(v)
	x, m := false, false
	for i := 0; i < n; i++ {
		x = sym.Or(x, proper(a, b, v[i], v[(i+1)%n]))
		m = sym.Or(m, meet(a, b, v[i], v[(i+1)%n]))
	}
	r := geo.SegPolyRelation(geo.LineSegment{Start: a, End: b}, poly(v))
	sym.Assert(sym.Implies(x, r == geo.RELA_INTERSECT), "a segment crossing an edge intersects")
	sym.Assert(sym.Implies(r == geo.RELA_INTERSECT, m), "an intersecting segment shares a point with the border")
	ia, ib := inOrOn(a, v), inOrOn(b, v)
	sym.Assert(sym.Implies(r == geo.RELA_DISJOINT, sym.And(sym.Not(ia), sym.Not(ib), sym.Not(m))), "a disjoint segment shares no point")
	c := convex(v)
	sym.Assert(sym.Implies(sym.And(c, ia, ib, sym.Not(m)), r == geo.RELA_CONTAIN), "a segment strictly inside is contained")
	sym.Assert(sym.Implies(sym.And(c, ia, ib, m), r == geo.RELA_COVER), "a segment inside touching the border is covered")
}

// A triangle with one free vertex and a segment with one free end.
//
//sym:time=45
func C20_SegTriangle() {
	v := []geo.Point{{X: 0, Y: 0}, {X: 5, Y: -1}, gp(7, 0)}
	a := []geo.Point{{X: 2, Y: 3}, {X: 0, Y: 0}, {X: 1, Y: -5}}
	segPoly(v, a[sym.Choose("a", sym.Bound("fixed ends", 1, 3))], gp(7, 0))
}

// A fixed concave polygon and a free segment.
//
//sym:time=40
func C20_SegConcave() {
	v := []geo.Point{{X: 0, Y: 0}, {X: 8, Y: 1}, {X: 3, Y: 3}, {X: 2, Y: 8}}
	k := sym.Choose("start", sym.Bound("starting vertices", 1, len(v)))
	segPoly(start(v, k), gp(10, 0), gp(10, 0))
}

//sym:time=40
func C20_SegConvex() {
	v := []geo.Point{{X: 0, Y: 0}, {X: 6, Y: -2}, {X: 9, Y: 4}, {X: 2, Y: 9}}
	k := sym.Choose("start", sym.Bound("starting vertices", 1, len(v)))
	segPoly(start(v, k), gp(10, 0), gp(10, 0))
}

func pathPoly(r geo.GeometryRealation, path, v []geo.Point) {
	n := len(v)
	x, m, in := false, false, false
	for j := 0; j+1 < len(path); j++ {
		sym.Assume(sym.Not(same(path[j], path[j+1])))
		for i := 0; i < n; i++ {
			x = sym.Or(x, proper(path[j], path[j+1], v[i], v[(i+1)%n]))
			m = sym.Or(m, meet(path[j], path[j+1], v[i], v[(i+1)%n]))
		}
	}
	for _, p := range path {
		in = sym.Or(in, inOrOn(p, v))
	}
	sym.Assert(sym.Implies(x, r == geo.RELA_INTERSECT), "a path crossing an edge intersects")
	sym.Assert(sym.Implies(r == geo.RELA_INTERSECT, m), "an intersecting path shares a point with the border")
	sym.Assert(sym.Implies(r == geo.RELA_DISJOINT, sym.And(sym.Not(in), sym.Not(m))), "a disjoint path shares no point")
}

// A line of three points, one of them fixed, and a fixed polygon.
//
//sym:time=45
func C20_Line() {
	v := []geo.Point{{X: 0, Y: 0}, {X: 8, Y: 0}, {X: 4, Y: 7}}
	m := []geo.Point{{X: 4, Y: 3}, {X: -2, Y: -2}, {X: 4, Y: 0}, {X: 8, Y: 0}}
	l := []geo.Point{gp(12, 0), m[sym.Choose("middle", sym.Bound("middle points", 2, 4))], gp(12, 0)}
	pathPoly(geo.LinePolyRelation(geo.LineString(l), poly(v)), l, v)
}

// A triangular ring with one free vertex and a fixed triangle.
//
//sym:time=45
func C20_Ring() {
	v := []geo.Point{{X: 0, Y: 0}, {X: 8, Y: 0}, {X: 4, Y: 7}}
	m := [][2]geo.Point{{{X: 4, Y: 3}, {X: 3, Y: 1}}, {{X: -2, Y: -2}, {X: -3, Y: 2}}, {{X: 1, Y: -3}, {X: 9, Y: 5}}, {{X: 8, Y: 0}, {X: 4, Y: 2}}}
	k := m[sym.Choose("fixed", len(m))]
	t := []geo.Point{k[0], k[1], gp(12, 0)}
	sym.Assume(simple(t))
	l := ring(t)
	if sym.Choose("kind", 2) == 0 {
		pathPoly(geo.LinearPolyRelation(l, poly(v)), l, v)
	} else {
		pathPoly(geo.PolyRelation(poly(t), poly(v)), l, v)
	}
}

// A path that stays at a point for a while.
//
//sym:time=45
func C20_Repeat() {
	v := []geo.Point{{X: 0, Y: 0}, {X: 8, Y: 0}, {X: 4, Y: 7}}
	p := []geo.Point{{X: -2, Y: 1}, {X: 4, Y: 3}, {X: 4, Y: 0}, {X: 8, Y: 0}}[sym.Choose("p", 4)]
	q := gp(12, 0)
	l := [][]geo.Point{{p, p, q}, {q, q, p}, {p, q, q}}[sym.Choose("order", 3)]
	pathPoly(geo.LinePolyRelation(geo.LineString(l), poly(v)), []geo.Point{p, q}, v)
}

// The relation of a segment depends neither on its direction nor on that of the ring or its first vertex.
//
//sym:time=45
func C20_Direction() {
	v := []geo.Point{{X: 0, Y: 0}, {X: 8, Y: 1}, {X: 3, Y: 3}, {X: 2, Y: 8}}
	a := []geo.Point{{X: -3, Y: -3}, {X: 2, Y: 2}, {X: 8, Y: 1}, {X: 4, Y: 0.5}, gp(10, 0)}[sym.Choose("a", sym.Bound("ends, the last free", 4, 5))]
	b := gp(10, 0)
	r := geo.SegPolyRelation(geo.LineSegment{Start: a, End: b}, poly(v))
	switch sym.Choose("change", 3) {
	case 0:
		sym.Assert(geo.SegPolyRelation(geo.LineSegment{Start: b, End: a}, poly(v)) == r, "the direction of the segment does not matter")
	case 1:
		w := []geo.Point{v[3], v[2], v[1], v[0]}
		sym.Assert(geo.SegPolyRelation(geo.LineSegment{Start: a, End: b}, poly(w)) == r, "the direction of the ring does not matter")
	default:
		sym.Assert(geo.SegPolyRelation(geo.LineSegment{Start: a, End: b}, poly(start(v, 2))) == r, "the first vertex does not matter")
	}
}
