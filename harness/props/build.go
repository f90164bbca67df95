package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// Points hold their coordinates, and setting one leaves the others.
//
//sym:mode=ord
func C40_Point() {
	a, b := ap(), ap()
	p := geo.NewPoint(a.X, a.Y)
	sym.Assert(same(*p, a), "a point holds its coordinates")
	q := geo.NewPoint(a.X, a.Y)
	if sym.Choose("set", 2) == 0 {
		p.SetX(b.X)
		sym.Assert(sym.And(p.X == b.X, p.Y == a.Y), "setting X sets X only")
	} else {
		p.SetY(b.Y)
		sym.Assert(sym.And(p.X == a.X, p.Y == b.Y), "setting Y sets Y only")
	}
	sym.Assert(same(*q, a), "setting a coordinate leaves other points")
}

//sym:mode=ord
func C40_PointZ() {
	l := apsz(2)
	a, b := l[0], l[1]
	p := geo.NewPointZ(a.X, a.Y, a.Z)
	sym.Assert(sameZ(*p, a), "a point holds its coordinates")
	w := a
	switch sym.Choose("set", 3) {
	case 0:
		p.SetX(b.X)
		w.X = b.X
	case 1:
		p.SetY(b.Y)
		w.Y = b.Y
	case 2:
		p.SetZ(b.Z)
		w.Z = b.Z
	}
	sym.Assert(sameZ(*p, w), "setting a coordinate sets it only")
}

// A geometry made of points holds exactly them, and has storage of its own.
//
//sym:mode=ord
func C40_Points() {
	n := sym.Choose("n", sym.Bound("points", 6, 12)+1)
	pts := aps(n)
	in := cp(pts)
	var got func() []geo.Point
	var add func(geo.Point)
	switch sym.Choose("kind", 2) {
	case 0:
		g := geo.NewLineString(in...)
		got = func() []geo.Point { return *g }
		add = func(p geo.Point) { g.Append(p) }
		sym.Assert(g.GetPointCount() == n, "the count is the number of points")
		sym.Assert(sameList(g.GetPointSet(), pts), "the point set is all points")
	case 1:
		g := geo.NewMultiPoint(in...)
		got = func() []geo.Point { return *g }
		add = g.Append
		sym.Assert(sameList(g.GetPointSet(), pts), "the point set is all points")
	}
	sym.Assert(sameList(got(), pts), "the geometry holds exactly the points given, in order")
	e := ap()
	if n > 0 {
		in[sym.Choose("at", n)] = e
		sym.Assert(sameList(got(), pts), "changing the points given leaves the geometry")
		in = cp(pts)
	}
	add(e)
	sym.Assert(sameList(got(), append(cp(pts), e)), "an added point comes last")
	sym.Assert(sameList(in, pts), "adding leaves the points given")
}

//sym:mode=ord
func C40_PointsZ() {
	n := sym.Choose("n", sym.Bound("points", 6, 12)+1)
	pts := apsz(n)
	in := cpz(pts)
	var got func() []geo.PointZ
	var add func(geo.PointZ)
	line := false
	switch sym.Choose("kind", 2) {
	case 0:
		g := geo.NewLineStringZ(in...)
		line = true
		got = func() []geo.PointZ { return *g }
		add = func(p geo.PointZ) { sym.Assert(g.Append(p) == nil, "adding to a line succeeds") }
		sym.Assert(g.GetPointCount() == n, "the count is the number of points")
		sym.Assert(sameListZ(g.GetPointSet(), pts), "the point set is all points")
		if n >= 2 {
			sym.Assert(sameZ(g.GetFirstPoint(), pts[0]), "the first point")
			sym.Assert(sameZ(g.GetEndPoint(), pts[n-1]), "the last point")
		} else {
			sym.Assert(!sym.Panics(func() { g.GetFirstPoint(); g.GetEndPoint() }), "asking a short line for its ends does not panic")
		}
	case 1:
		g := geo.NewMultiPointZ(in...)
		got = func() []geo.PointZ { return *g }
		add = g.Append
		sym.Assert(sameListZ(g.GetPointSet(), pts), "the point set is all points")
	}
	sym.Assert(sameListZ(got(), pts), "the geometry holds exactly the points given, in order")
	e := apsz(1)[0]
	if n > 0 {
		in[sym.Choose("at", n)] = e
		sym.Assert(sameListZ(got(), pts), "changing the points given leaves the geometry")
		in = cpz(pts)
	}
	add(e)
	sym.Assert(sameListZ(got(), append(cpz(pts), e)), "an added point comes last")
	sym.Assert(sameListZ(in, pts), "adding leaves the points given")
	if line {
		l := geo.NewLineStringZ(pts...)
		l.Reverse()
		for i := range pts {
			sym.Assert(sameZ((*l)[i], pts[n-1-i]), "a reversed line has the points in reverse")
		}
	}
}

// A geometry made of lines, rings or polygons holds exactly them.
//
//sym:mode=ord
func C40_Parts() {
	k := sym.Choose("parts", sym.Bound("parts", 4, 6)+1)
	var parts, got [][]geo.Point
	for i := 0; i < k; i++ {
		parts = append(parts, aps(1+i%3))
	}
	kind := sym.Choose("kind", 3)
	switch kind {
	case 0:
		var l []geo.LineString
		for _, p := range parts {
			l = append(l, p)
		}
		g := geo.NewMultiLineString(l...)
		for i := range l {
			l[i] = nil
		}
		for _, p := range *g {
			got = append(got, p)
		}
	case 1:
		var l []geo.LinearRing
		for _, p := range parts {
			l = append(l, p)
		}
		g := geo.NewPolygon(l...)
		for i := range l {
			l[i] = nil
		}
		for _, p := range *g {
			got = append(got, p)
		}
	case 2:
		var l []geo.Polygon
		for _, p := range parts {
			l = append(l, geo.Polygon{p, p})
		}
		g := geo.NewMultiPolygon(l...)
		for i := range l {
			l[i] = nil
		}
		for _, p := range *g {
			sym.Assert(len(p) == 2, "the parts keep their rings")
			sym.Assert(sameList(p[0], p[1]), "the parts keep their rings")
			got = append(got, p[0])
		}
	}
	sym.Assert(len(got) == k, "the geometry has the parts given")
	for i := range parts {
		sym.Assert(sameList(got[i], parts[i]), "the geometry has the parts given, in order")
	}
}

//sym:mode=ord
func C40_PartsZ() {
	k := sym.Choose("parts", sym.Bound("parts", 4, 6)+1)
	var parts, got [][]geo.PointZ
	for i := 0; i < k; i++ {
		parts = append(parts, apsz(1+i%3))
	}
	switch sym.Choose("kind", 3) {
	case 0:
		var l []geo.LineStringZ
		for _, p := range parts {
			l = append(l, p)
		}
		g := geo.NewMultiLineStringZ(l...)
		for i := range l {
			l[i] = nil
		}
		for _, p := range *g {
			got = append(got, p)
		}
	case 1:
		var l []geo.LinearRingZ
		for _, p := range parts {
			l = append(l, p)
		}
		g := geo.NewPolygonZ(l...)
		for i := range l {
			l[i] = nil
		}
		for _, p := range *g {
			got = append(got, p)
		}
	case 2:
		var l []geo.PolygonZ
		for _, p := range parts {
			l = append(l, geo.PolygonZ{p, p})
		}
		g := geo.NewMultiPolygonZ(l...)
		for i := range l {
			l[i] = nil
		}
		for _, p := range *g {
			sym.Assert(len(p) == 2, "the parts keep their rings")
			sym.Assert(sameListZ(p[0], p[1]), "the parts keep their rings")
			got = append(got, p[0])
		}
	}
	sym.Assert(len(got) == k, "the geometry has the parts given")
	for i := range parts {
		sym.Assert(sameListZ(got[i], parts[i]), "the geometry has the parts given, in order")
	}
}

// Equality of 3D lines is equality of length and of every point.
//
//sym:mode=bv
func C40_EqualZ() {
	n := sym.Choose("n", sym.Bound("points", 4, 6))
	m := sym.Choose("m", sym.Bound("points", 4, 6))
	var a, b []geo.PointZ
	for i := 0; i < n; i++ {
		a = append(a, gpz(8, -24))
	}
	for i := 0; i < m; i++ {
		b = append(b, gpz(8, -24))
	}
	want := n == m
	for i := 0; i < n && i < m; i++ {
		want = sym.And(want, nearPtZ(a[i], b[i]))
	}
	sym.Assert(geo.LineStringZ(a).Equal(geo.LineStringZ(b)) == want, "lines are equal exactly when all their points are")
}
