package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

func abox() *geo.Box {
	b := &geo.Box{MinX: sym.Any("minx"), MinY: sym.Any("miny"), MaxX: sym.Any("maxx"), MaxY: sym.Any("maxy")}
	sym.Assume(sym.And(b.MinX <= b.MaxX, b.MinY <= b.MaxY))
	return b
}

func inBox(b *geo.Box, x, y float64) bool {
	return sym.And(b.MinX <= x, x <= b.MaxX, b.MinY <= y, y <= b.MaxY)
}

// boxes come either with any finite coordinates (comparisons only, decided over all doubles) or on a fine grid.
func gbox() *geo.Box {
	b := &geo.Box{MinX: sym.F("minx", -1e6, 1e6, -10), MinY: sym.F("miny", -1e6, 1e6, -10), MaxX: sym.F("maxx", -1e6, 1e6, -10), MaxY: sym.F("maxy", -1e6, 1e6, -10)}
	sym.Assume(sym.And(b.MinX <= b.MaxX, b.MinY <= b.MaxY))
	return b
}

func fpt() geo.Point { return gp(1e6, -10) }

func intersect(a, b *geo.Box, p geo.Point) {
	a0, b0 := *a, *b
	r := a.Intersect(b)
	sym.Assert(r == b.Intersect(a), "Intersect is symmetric")
	sym.Assert(sym.Implies(sym.And(inBox(a, p.X, p.Y), inBox(b, p.X, p.Y)), r), "boxes sharing a point intersect")
	wx, wy := maxF(a.MinX, b.MinX), maxF(a.MinY, b.MinY)
	sym.Assert(sym.Implies(r, sym.And(inBox(a, wx, wy), inBox(b, wx, wy))), "intersecting boxes share a point")
	sym.Assert(a.Intersect(a), "a box intersects itself")
	sym.Assert(sym.And(*a == a0, *b == b0), "Intersect leaves its operands alone")
}

// Two boxes over all doubles intersect exactly when they share a point.
//
//sym:mode=ord
func C04_Intersect() { intersect(abox(), abox(), ap()) }

// The same on a grid, where arithmetic is followed exactly.
func C04_IntersectGrid() { intersect(gbox(), gbox(), fpt()) }

// The same bit for bit.
//
//sym:mode=fp merge=off time=40
func C04_IntersectBits() { intersect(abox(), abox(), ap()) }

//sym:mode=fp merge=off time=40
func C04_ContainBits() { contain(abox(), abox(), ap()) }

//sym:mode=fp merge=off time=40
func C04_UnionBits() { union(abox(), abox()) }

//sym:mode=ord
func C04_NilBox() {
	a := abox()
	var n *geo.Box
	sym.Assert(!a.Intersect(n), "nothing intersects a nil box")
	sym.Assert(!n.Intersect(a), "a nil box intersects nothing")
}

func contain(a, b *geo.Box, p geo.Point) {
	r := a.Contain(b)
	sym.Assert(sym.Implies(sym.And(r, inBox(b, p.X, p.Y)), inBox(a, p.X, p.Y)), "a contained box has all its points inside")
	corners := sym.And(inBox(a, b.MinX, b.MinY), inBox(a, b.MaxX, b.MaxY))
	sym.Assert(sym.Implies(corners, r), "a box with both corners inside is contained")
	sym.Assert(a.Contain(a), "a box contains itself")
}

// Containment is containment of every point.
//
//sym:mode=ord
func C04_Contain() { contain(abox(), abox(), ap()) }

func C04_ContainGrid() { contain(gbox(), gbox(), fpt()) }

func pointInBox(a *geo.Box, p geo.Point) {
	sym.Assert(geo.IsPointInBox(a, p) == inBox(a, p.X, p.Y), "point in box")
}

// A point is in a box exactly when it lies between the bounds.
//
//sym:mode=ord
func C04_PointInBox() { pointInBox(abox(), ap()) }

func C04_PointInBoxGrid() { pointInBox(gbox(), fpt()) }

func union(a, b *geo.Box) {
	a0, b0 := *a, *b
	u, v := a.Union(b), b.Union(a)
	lx, ly := minF(a.MinX, b.MinX), minF(a.MinY, b.MinY)
	hx, hy := maxF(a.MaxX, b.MaxX), maxF(a.MaxY, b.MaxY)
	sym.Assert(sym.And(u.MinX == lx, u.MinY == ly, u.MaxX == hx, u.MaxY == hy), "union is the smallest cover")
	sym.Assert(sym.And(v.MinX == lx, v.MinY == ly, v.MaxX == hx, v.MaxY == hy), "union is symmetric")
	sym.Assert(sym.And(*a == a0, *b == b0), "union leaves its operands alone")
}

// The union is the smallest common cover, in either order, and leaves its operands alone.
//
//sym:mode=ord
func C04_Union() { union(abox(), abox()) }

func C04_UnionGrid() { union(gbox(), gbox()) }

// A box built from corners or from a centre and half lengths has exactly these bounds.
func C04_NewBox() {
	b := gbox()
	n := geo.NewBox(b.MinX, b.MinY, b.MaxX, b.MaxY)
	sym.Assert(*n == *b, "NewBox keeps the bounds")
	p := fpt()
	w, h := sym.F("w", 0, 1e6, -10), sym.F("h", 0, 1e6, -10)
	r := geo.NewRectBox(p, w, h)
	sym.Assert(sym.And(r.MinX == p.X-w, r.MaxX == p.X+w, r.MinY == p.Y-h, r.MaxY == p.Y+h), "NewRectBox spans the lengths around the point")
}

// The union of a list is the smallest common cover.
//
//sym:mode=ord
func C04_BoxUnion() {
	n := sym.Choose("n", sym.Bound("boxes", 6, 10)) + 1
	var bs []*geo.Box
	for i := 0; i < n; i++ {
		bs = append(bs, abox())
	}
	first := *bs[0]
	u := geo.BoxUnion(bs...)
	lx, ly, hx, hy := bs[0].MinX, bs[0].MinY, bs[0].MaxX, bs[0].MaxY
	for _, b := range bs[1:] {
		lx, ly, hx, hy = minF(lx, b.MinX), minF(ly, b.MinY), maxF(hx, b.MaxX), maxF(hy, b.MaxY)
	}
	sym.Assert(sym.And(u.MinX == lx, u.MinY == ly, u.MaxX == hx, u.MaxY == hy), "union of a list is the smallest cover")
	sym.Assert(*bs[0] == first, "union leaves the first box alone")
}

// A box becomes a point, a line or a polygon with exactly its corners.
func C04_BoxToGeo() {
	x0, y0 := sym.F("x", -1e6, 1e6, -3), sym.F("y", -1e6, 1e6, -3)
	w, h := sym.F("w", 0, 1e6, -3), sym.F("h", 0, 1e6, -3)
	b := geo.Box{MinX: x0, MinY: y0, MaxX: x0 + w, MaxY: y0 + h}
	switch g := geo.BoxToGeo(b).(type) {
	case geo.Point:
		sym.Assert(sym.And(w == 0, h == 0), "a point only for a box without extent")
		sym.Assert(sym.And(g.X == x0, g.Y == y0), "the point is the box")
	case geo.LineString:
		sym.Assert(sym.Iff(w == 0, h != 0), "a line only for a box without one extent")
		sym.Assert(len(g) == 2, "a line of two points")
		lo, hi := geo.Point{X: x0, Y: y0}, geo.Point{X: x0 + w, Y: y0 + h}
		sym.Assert(sym.Or(sym.And(same(g[0], lo), same(g[1], hi)), sym.And(same(g[0], hi), same(g[1], lo))), "the line joins the corners")
	case geo.Polygon:
		sym.Assert(sym.And(w != 0, h != 0), "a polygon only for a box with two extents")
		sym.Assert(len(g) == 1, "a polygon without holes")
		r := g[0]
		sym.Assert(len(r) == 5, "a closed ring of four corners")
		sym.Assert(same(r[0], r[4]), "the ring is closed")
		for _, x := range []float64{x0, x0 + w} {
			for _, y := range []float64{y0, y0 + h} {
				has := false
				for _, p := range r {
					has = sym.Or(has, same(p, geo.Point{X: x, Y: y}))
				}
				sym.Assert(has, "every corner is a vertex")
			}
		}
		a := area2(r[:4])
		sym.Assert(sym.Or(a == 2*w*h, a == -2*w*h), "the ring goes round the box")
		sym.Assert(b.Size() == w*h, "size is width times height")
	default:
		sym.Assert(false, "a box becomes a point, a line or a polygon")
	}
}

func checkBox(b *geo.Box, pts []geo.Point) {
	lx, ly, hx, hy := false, false, false, false
	in := true
	for _, p := range pts {
		in = sym.And(in, inBox(b, p.X, p.Y))
		lx, ly = sym.Or(lx, p.X == b.MinX), sym.Or(ly, p.Y == b.MinY)
		hx, hy = sym.Or(hx, p.X == b.MaxX), sym.Or(hy, p.Y == b.MaxY)
	}
	sym.Assert(in, "the box contains every vertex")
	sym.Assert(sym.And(lx, ly, hx, hy), "every side of the box is attained")
}

func aps(n int) []geo.Point {
	var r []geo.Point
	for i := 0; i < n; i++ {
		r = append(r, ap())
	}
	return r
}

//sym:mode=ord
func C05_Point() {
	p := ap()
	checkBox(geo.BoundingBox(p), []geo.Point{p})
}

//sym:mode=ord
func C05_MultiPoint() {
	n := sym.Choose("n", sym.Bound("points", 8, 16)) + 1
	pts := aps(n)
	checkBox(geo.BoundingBox(geo.MultiPoint(pts)), pts)
}

//sym:mode=ord
func C05_Line() {
	n := sym.Choose("n", sym.Bound("points", 8, 16)) + 1
	pts := aps(n)
	checkBox(geo.BoundingBox(geo.LineString(pts)), pts)
}

//sym:mode=ord
func C05_MultiLine() {
	n := sym.Choose("lines", sym.Bound("lines", 3, 4)) + 1
	var ml geo.MultiLineString
	var all []geo.Point
	for i := 0; i < n; i++ {
		k := sym.Choose("n", sym.Bound("points", 3, 4)) + 1
		if n == 1 {
			k += 3
		}
		pts := aps(k)
		all = append(all, pts...)
		ml = append(ml, pts)
	}
	checkBox(geo.BoundingBox(ml), all)
}

// The box of a polygon is the box of its outer ring.
//
//sym:mode=ord
func C05_Polygon() {
	outer := aps(sym.Bound("ring", 6, 12))
	p := geo.Polygon{outer}
	if sym.Choose("holes", 2) == 1 {
		p = append(p, aps(1))
	}
	checkBox(geo.BoundingBox(p), outer)
}

// Closed lines in a multiline, and rings as large in a multipolygon.
//
//sym:mode=ord
func C05_Closed() {
	a, b := aps(4+sym.Choose("n", 2)), aps(2)
	if sym.Choose("ends", 2) == 1 {
		a = ring(a)
	}
	if sym.Choose("order", 2) == 1 {
		a, b = b, a
	}
	all := append(cp(a), b...)
	if sym.Choose("kind", 2) == 0 {
		checkBox(geo.BoundingBox(geo.MultiLineString{a, b}), all)
	} else {
		checkBox(geo.BoundingBox(geo.MultiPolygon{{a}, {b}}), all)
	}
}

// The box of a multipolygon; inner rings lie inside the outer ones.
//
//sym:mode=ord
func C05_MultiPolygon() {
	n := sym.Choose("polys", sym.Bound("polygons", 3, 6)) + 1
	var mp geo.MultiPolygon
	var all []geo.Point
	for i := 0; i < n; i++ {
		outer := aps(2)
		all = append(all, outer...)
		p := geo.Polygon{outer}
		if i == 0 && sym.Choose("holes", 2) == 1 {
			h := ap()
			sym.Assume(sym.And(minF(outer[0].X, outer[1].X) <= h.X, h.X <= maxF(outer[0].X, outer[1].X),
				minF(outer[0].Y, outer[1].Y) <= h.Y, h.Y <= maxF(outer[0].Y, outer[1].Y)))
			p = append(p, geo.LinearRing{h})
		}
		mp = append(mp, p)
	}
	checkBox(geo.BoundingBox(mp), all)
}
