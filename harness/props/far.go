package props

// The planar properties away from the origin.

import (
	"math"

	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// elsewhere is a place at some distance from the origin.
func elsewhere() geo.Point {
	return []geo.Point{{X: 1 << 14, Y: 3}, {X: 1 << 20, Y: -(1 << 20)}, {X: -200, Y: -90}, {X: -5, Y: -(1 << 14)}, {X: 128, Y: 100}, {X: -(1 << 14), Y: 1 << 14}}[sym.Choose("place", sym.Bound("places", 4, 6))]
}

func shift(o geo.Point, v ...geo.Point) (r []geo.Point) {
	for _, p := range v {
		r = append(r, geo.Point{X: p.X + o.X, Y: p.Y + o.Y})
	}
	return
}

//sym:mode=real time=30
func C16_Far() {
	o := elsewhere()
	p, q := gp(64, -4), gp(64, -4)
	v := shift(o, p, q)
	d := geo.PointDistance(v[0], v[1], geo.SRID(0))
	dx, dy := p.X-q.X, p.Y-q.Y
	sym.Assert(closeTo(d*d, dx*dx+dy*dy, 1e-6), "planar distance is the length of the difference")
	d = geo.PointDistance(v[0], p, geo.SRID(0))
	sym.Assert(closeTo(d*d, o.X*o.X+o.Y*o.Y, 1), "planar distance is the length of the difference")
	l := geo.LineString(append(v, o))
	s := geo.EuclideanDistance(v[0], v[1]) + geo.EuclideanDistance(v[1], o)
	sym.Assert(closeTo(l.Length(), s, 1e-6), "the length of a line is the sum of the distances")
}

//sym:mode=real merge=off time=40
func C17_Far() {
	o := elsewhere()
	p := gp(16, -2)
	v := shift(o, p, geo.Point{X: -3, Y: 1}, geo.Point{X: 5, Y: 2})
	d, q := geo.PointToSegmentDistance(v[0], v[1], v[2], geo.SRID(0))
	nearestOn(q, v[0], v[1], v[2], 1e-4)
	sym.Assert(closeTo(d, geo.EuclideanDis(v[0], q), 1e-6), "the distance is that of the nearest point")
	d, q, _ = geo.PointToLineDistance(v[0], v[1], v[2], geo.SRID(0))
	sym.Assert(closeTo(d, geo.EuclideanDis(v[0], q), 1e-6), "the distance to a straight line is that of the foot")
	sym.Assert(closeTo(cross(v[1], v[2], q), 0, 1e-4), "the foot is on the line")
	sym.Assert(closeTo((q.X-v[0].X)*8+(q.Y-v[0].Y), 0, 1e-4), "the foot is at a right angle")
}

//sym:time=40
func C18_Far() {
	v := shift(elsewhere(), geo.Point{}, geo.Point{X: 6, Y: -2}, geo.Point{X: 3, Y: 2}, geo.Point{X: 2, Y: 7}, gp(7, 0))
	classify(start(v[:4], sym.Choose("start", 2)), v[4])
}

//sym:time=40
func C18_FarSegment() {
	v := shift(elsewhere(), gp(7, -1), gp(7, -1), geo.Point{X: -3, Y: 2})
	on := onSeg(v[0], v[1], v[2])
	sym.Assert(geo.IsPointOnSegment(v[1], v[2], v[0]) == on, "on-segment test is exact")
	sym.Assert(geo.IsPointOnLine(v[0], geo.LineString(v[1:])) == on, "on-line test is exact")
}

//sym:time=40
func C19_Far() {
	v := shift(elsewhere(), gp(7, 0), geo.Point{X: -3, Y: 1}, gp(7, 0), geo.Point{X: 5, Y: -2})
	k := 2 * sym.Choose("which", 2)
	relation(v[k], v[(k+1)%4], v[(k+2)%4], v[(k+3)%4])
}

//sym:time=40
func C19_FarSelf() {
	v := shift(elsewhere(), geo.Point{X: 1, Y: 5}, geo.Point{X: -3, Y: 1}, gp(7, 0), geo.Point{X: 5, Y: -2})
	v = start(v, 2*sym.Choose("start", 2))
	sym.Assert(poly(v).SelfIntersect() == crosses(v), "self-intersecting exactly when two edges cross properly")
}

//sym:time=45
func C20_Far() {
	v := shift(elsewhere(), geo.Point{}, geo.Point{X: 8, Y: 1}, geo.Point{X: 3, Y: 3}, geo.Point{X: 2, Y: 8}, gp(9, 0), geo.Point{X: 2, Y: 2})
	k := sym.Choose("end", 2)
	segPoly(v[:4], v[4+k], v[5-k])
	pathPoly(geo.LinePolyRelation(geo.LineString(v[4:]), poly(v[:4])), v[4:], v[:4])
}

//sym:mode=int merge=off feas=0.05 inc=0.1 time=40
func C21_Far() {
	hullOf(shift(elsewhere(), geo.Point{X: 1}, gp(5, 0), geo.Point{X: 3, Y: 1}, geo.Point{X: 2, Y: 3}, geo.Point{X: 2, Y: 1}))
}

//sym:mode=bv ufbits=16 merge=off feas=0.1 inc=0.1 time=40
func C27_Far() {
	v := shift(elsewhere(), gp(31, 0), geo.Point{X: 1, Y: 2}, gp(31, 0))
	a, c, b := v[0], v[1], v[2]
	t, err := geo.CacAngle(a, c, b)
	if err != nil {
		sym.Assert(sym.Or(same(a, c), same(b, c)), "the angle is an error only for an arm of length zero")
		return
	}
	x := cross(c, a, b)
	const e = 1e-3
	sym.Assert(sym.Implies(x > 0, sym.Or(t <= math.Pi+e, t >= 2*math.Pi-e)), "the angle to the left is at most half a turn")
	sym.Assert(sym.Implies(x < 0, sym.Or(t >= math.Pi-e, t <= e)), "the angle to the right is at least half a turn")
}

//sym:mode=bv merge=off feas=0.1 inc=0.1 time=40
func C27_FarConvex() {
	v := shift(elsewhere(), gp(31, 0), geo.Point{X: 1, Y: 2}, geo.Point{X: 3, Y: -2})
	k := 2 * sym.Choose("which", 2)
	a, c, b := v[k], v[1], v[2-k]
	r, err := geo.CacConvex(a, c, b)
	if err != nil {
		sym.Assert(sym.Or(same(a, c), same(b, c)), "the convexity is an error only for an arm of length zero")
		return
	}
	x := cross(c, a, b)
	sym.Assert(sym.Iff(r == 1, x > 0), "a vertex is of the first class when the sine is positive")
	sym.Assert(sym.Iff(r == 0, x < 0), "a vertex is of class zero when the sine is negative")
}

//sym:mode=real merge=off time=30
func C30_Far() {
	p, c := gp(1<<16, -10), gp(1<<16, -10)
	a := sym.F("a", -4096, 4096, -20)
	q := geo.RotateCW(p, c, a).(geo.Point)
	dx, dy := p.X-c.X, p.Y-c.Y
	s, k := math.Sin(a), math.Cos(a)
	sym.Assert(closeTo(q.X, c.X+dx*k+dy*s, cut), "the point is rotated clockwise about the centre (x)")
	sym.Assert(closeTo(q.Y, c.Y+dy*k-dx*s, cut), "the point is rotated clockwise about the centre (y)")
}

//sym:time=40
func C13_PointEqualFar() {
	v := shift(elsewhere(), gp(8, -24), geo.Point{X: 1, Y: 2})
	sym.Assert(v[0].Equal(v[1]) == nearPt(v[0], v[1]), "equality of points")
	sym.Assert(v[1].Equal(v[0]) == nearPt(v[0], v[1]), "equality is symmetric")
}

//sym:time=40
func C11_EqualFar() {
	v := shift(elsewhere(), gp(8, -24), geo.Point{X: 1, Y: 2}, geo.Point{X: 3, Y: 4})
	a, b := geo.LineString{v[0], v[2]}, geo.LineString{v[1], v[2]}
	want := sym.And(near(v[0].X, v[1].X), near(v[0].Y, v[1].Y))
	sym.Assert(a.Equal(b) == want, "lines are equal exactly when lengths and points are")
	sym.Assert(b.Equal(a) == want, "equality is symmetric")
}

//sym:mode=real merge=off time=40
func C28_LengthFar() {
	s := []float64{1 << 20, 1 << 40}[sym.Choose("scale", 2)]
	a := geo.Vector2{X: s * sym.F("x", 1, 2, -20), Y: s * sym.F("y", -2, 2, -20)}
	x, y := a.X/s, a.Y/s
	l := a.Length() / s
	sym.Assert(closeTo(l*l, x*x+y*y, 1e-6), "the length is the root of the squared length")
}

// Neighbours far from the origin.
//
//sym:time=40 merge=off
func C03_Far() {
	o := elsewhere()
	var all []geo.Spatial
	for i, p := range [][2]float64{{0, 0}, {6, 1}, {2, 7}, {8, 8}, {4, 3}} {
		all = append(all, one(p[0]+o.X, p[1]+o.Y, i))
	}
	x := build(1, 2, 0, all)
	for i := range all {
		x.insert(i)
	}
	x.nearest(2+sym.Choose("k", 2), geo.Point{X: o.X + sym.F("x", -3, 12, 0), Y: o.Y + 3})
}

//sym:mode=real time=60 feas=0.05 inc=0.1
func C38_Far() {
	o := []geo.Point{{X: 1 << 14, Y: 3}, {X: -200, Y: -90}, {X: -5, Y: -(1 << 14)}}[sym.Choose("place", sym.Bound("places", 2, 3))]
	s := spots[sym.Choose("shape", sym.Bound("shapes", 1, len(spots)))]
	least(s, geo.Point{X: o.X + sym.F("x", 0, 1, -20), Y: o.Y}, 0, 0)
}
