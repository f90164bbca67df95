package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

func insertAt(m []geo.Point, i int, p geo.Point) []geo.Point {
	r := make([]geo.Point, 0, len(m)+1)
	r = append(r, m[:i]...)
	r = append(r, p)
	return append(r, m[i:]...)
}

func deleteAt(m []geo.Point, i int) []geo.Point {
	r := make([]geo.Point, 0, len(m))
	r = append(r, m[:i]...)
	return append(r, m[i+1:]...)
}

func setAt(m []geo.Point, i int, p geo.Point) []geo.Point {
	r := cp(m)
	r[i] = p
	return r
}

// edit applies one edit to the line and to the model list, and checks the reported error.
func edit(l *geo.LineString, m []geo.Point, kinds int) []geo.Point {
	return editWith(l, m, kinds, ap)
}

func editWith(l *geo.LineString, m []geo.Point, kinds int, ap func() geo.Point) []geo.Point {
	n := len(m)
	switch sym.Choose("op", kinds) {
	case 0:
		pos := sym.Choose("pos", n+3) - 1
		p := ap()
		err := l.InsertPoint(pos, p)
		ok := pos >= 0 && pos <= n
		sym.Assert((err == nil) == ok, "InsertPoint reports a position out of range")
		if ok {
			m = insertAt(m, pos, p)
		}
	case 1:
		pos := sym.Choose("pos", n+3) - 1
		err := l.DelPoint(pos)
		ok := pos >= 0 && pos < n
		sym.Assert((err == nil) == ok, "DelPoint reports a position out of range")
		if ok {
			m = deleteAt(m, pos)
		}
	case 2:
		pos := sym.Choose("pos", n+3) - 1
		p := ap()
		err := l.SetPoint(pos, p)
		ok := pos >= 0 && pos <= n
		sym.Assert((err == nil) == ok, "SetPoint reports a position out of range")
		if ok && pos == n {
			m = append(cp(m), p)
		} else if ok {
			m = setAt(m, pos, p)
		}
	case 3:
		p := ap()
		sym.Assert(l.Append(p) == nil, "Append succeeds")
		m = append(cp(m), p)
	case 4:
		l.Reverse()
		r := cp(m)
		for i := range r {
			r[i] = m[n-1-i]
		}
		m = r
	}
	sym.Assert(sameList(*l, m), "the line holds the edited list")
	sym.Assert(l.GetPointCount() == len(m), "the point count is the length")
	return m
}

// Every sequence of edits on every line, with spare capacity or without, acts as on a plain list.
//
//sym:mode=ord time=40
func C11_Edits() {
	n := sym.Choose("n", sym.Bound("points", 3, 5))
	pts := aps(n)
	var l geo.LineString
	if sym.Bool("spare") {
		l = make(geo.LineString, 0, n+3)
		l = append(l, pts...)
	} else {
		l = *geo.NewLineString(pts...)
	}
	m := cp(pts)
	sym.Assert(sameList(l, m), "NewLineString holds its arguments")
	k := sym.Bound("edits", 3, 3)
	for i := 0; i < k; i++ {
		m = edit(&l, m, 5)
	}
}

// One edit on longer lines.
//
//sym:mode=ord
func C11_EditLong() {
	n := sym.Choose("n", sym.Bound("points", 8, 12))
	pts := aps(n)
	l := *geo.NewLineString(pts...)
	edit(&l, cp(pts), 5)
}

// Edits of lines whose points lie closer together than the tolerance of Equal.
//
//sym:mode=bv time=60
func C11_Near() {
	near := func() geo.Point { return gp(1, -22) }
	n := sym.Choose("n", sym.Bound("points", 5, 7))
	pts := gps(n, 1, -22)
	l := *geo.NewLineString(pts...)
	m := editWith(&l, cp(pts), 5, near)
	editWith(&l, m, 5, near)
}

// Reading points.
//
//sym:mode=ord
func C11_Read() {
	n := sym.Choose("n", sym.Bound("points", 6, 10))
	pts := aps(n)
	l := *geo.NewLineString(pts...)
	pos := sym.Choose("pos", n+3) - 1
	p := l.GetPoint(pos)
	if pos < 0 || pos >= n {
		sym.Assert(p == nil, "GetPoint is nil out of range")
	} else {
		sym.Assert(p != nil, "GetPoint finds every point")
		sym.Assert(same(*p, pts[pos]), "GetPoint returns the point at the position")
	}
	if n >= 2 {
		sym.Assert(same(*l.GetFirstPoint(), pts[0]), "GetFirstPoint")
		sym.Assert(same(*l.GetEndPoint(), pts[n-1]), "GetEndPoint")
	}
	if n == 0 {
		sym.Assert(sym.And(l.GetFirstPoint() == nil, l.GetEndPoint() == nil), "an empty line has no ends")
	}
	sym.Assert(sameList(l.GetPointSet(), pts), "GetPointSet returns all points")
	sym.Assert(sameList(l, pts), "reading changes nothing")
}

// Splitting gives the two parts sharing the split point; growing one part does not change the other.
//
//sym:mode=ord
func C11_Split() {
	n := sym.Choose("n", sym.Bound("points", 6, 9)) + 1
	pts := aps(n)
	l := *geo.NewLineString(pts...)
	pos := sym.Choose("pos", n)
	a, b := l.SplitByIndex(pos)
	sym.Assert(sameList(a, pts[:pos+1]), "the first part ends at the split point")
	sym.Assert(sameList(b, pts[pos:]), "the second part starts at the split point")
	a.Append(ap())
	sym.Assert(sameList(b, pts[pos:]), "appending to the first part leaves the second alone")
	sym.Assert(sameList(l, pts), "appending to a part leaves the line alone")
}

//sym:mode=ord
func C11_ReverseTwice() {
	n := sym.Choose("n", sym.Bound("points", 8, 12))
	pts := aps(n)
	l := *geo.NewLineString(pts...)
	l.Reverse()
	l.Reverse()
	sym.Assert(sameList(l, pts), "reversing twice is the identity")
}

func near(a, b float64) bool { return sym.And(a-b < 0.000001, b-a < 0.000001) }

// ept is a point on a grid fine enough for the 1e-6 tolerance to matter.
func ept() geo.Point { return gp(8, -24) }

// Equality of lines is equality of length and of corresponding points.
func C11_Equal() {
	n := sym.Choose("n", sym.Bound("points", 4, 6))
	k := sym.Choose("k", sym.Bound("points", 4, 6))
	var a, b geo.LineString
	for i := 0; i < n; i++ {
		a = append(a, ept())
	}
	for i := 0; i < k; i++ {
		b = append(b, ept())
	}
	want := n == k
	for i := 0; i < n && i < k; i++ {
		want = sym.And(want, near(a[i].X, b[i].X), near(a[i].Y, b[i].Y))
	}
	sym.Assert(a.Equal(b) == want, "lines are equal exactly when lengths and points are")
	sym.Assert(b.Equal(a) == want, "equality is symmetric")
}

func C11_EqualZ() {
	n := sym.Choose("n", sym.Bound("points", 3, 4))
	k := sym.Choose("k", sym.Bound("points", 3, 4))
	var a, b geo.LineStringZ
	for i := 0; i < n; i++ {
		a = append(a, gpz(8, -24))
	}
	for i := 0; i < k; i++ {
		b = append(b, gpz(8, -24))
	}
	want := n == k
	for i := 0; i < n && i < k; i++ {
		want = sym.And(want, near(a[i].X, b[i].X), near(a[i].Y, b[i].Y), near(a[i].Z, b[i].Z))
	}
	sym.Assert(a.Equal(b) == want, "3D lines are equal exactly when lengths and points are")
	sym.Assert(b.Equal(a) == want, "equality is symmetric")
}

func apz() geo.PointZ {
	x := sym.Any("x")
	y := sym.Any("y")
	z := sym.Any("z")
	return geo.PointZ{X: x, Y: y, Z: z}
}

func apsz(n int) []geo.PointZ {
	var r []geo.PointZ
	for i := 0; i < n; i++ {
		r = append(r, apz())
	}
	return r
}

//sym:mode=ord
func C11_LineZ() {
	n := sym.Choose("n", sym.Bound("points", 6, 9))
	pts := apsz(n)
	l := *geo.NewLineStringZ(pts...)
	sym.Assert(sameListZ(l, pts), "NewLineStringZ holds its arguments")
	sym.Assert(l.GetPointCount() == n, "the point count is the length")
	if n >= 2 {
		sym.Assert(sameZ(l.GetFirstPoint(), pts[0]), "GetFirstPoint")
		sym.Assert(sameZ(l.GetEndPoint(), pts[n-1]), "GetEndPoint")
	}
	sym.Assert(sameListZ(l.GetPointSet(), pts), "GetPointSet returns all points")
	l.Reverse()
	rev := cpz(pts)
	for i := range rev {
		rev[i] = pts[n-1-i]
	}
	sym.Assert(sameListZ(l, rev), "Reverse reverses")
	l.Reverse()
	sym.Assert(sameListZ(l, pts), "reversing twice is the identity")
	p := apz()
	sym.Assert(l.Append(p) == nil, "Append succeeds")
	sym.Assert(sameListZ(l, append(cpz(pts), p)), "Append adds at the end")
}

//sym:mode=ord
func C11_MultiPoint() {
	n := sym.Choose("n", sym.Bound("points", 5, 8))
	pts := aps(n)
	mp := *geo.NewMultiPoint(pts...)
	p := ap()
	mp.Append(p)
	sym.Assert(sameList(mp.GetPointSet(), append(cp(pts), p)), "appending to a multipoint")
	ptz := apsz(n)
	mpz := *geo.NewMultiPointZ(ptz...)
	q := apz()
	mpz.Append(q)
	sym.Assert(sameListZ(mpz.GetPointSet(), append(cpz(ptz), q)), "appending to a 3D multipoint")
}

// Setters of single points.
//
//sym:mode=ord
func C11_PointSetters() {
	p := geo.NewPoint(sym.Any("x"), sym.Any("y"))
	x, y, z := sym.Any("nx"), sym.Any("ny"), sym.Any("nz")
	oy := p.Y
	p.SetX(x)
	sym.Assert(sym.And(p.X == x, p.Y == oy), "SetX sets only x")
	p.SetY(y)
	sym.Assert(sym.And(p.X == x, p.Y == y), "SetY sets only y")
	q := geo.NewPointZ(sym.Any("x"), sym.Any("y"), sym.Any("z"))
	oy, oz := q.Y, q.Z
	q.SetX(x)
	sym.Assert(sym.And(q.X == x, q.Y == oy, q.Z == oz), "SetX sets only x")
	q.SetY(y)
	sym.Assert(sym.And(q.X == x, q.Y == y, q.Z == oz), "SetY sets only y")
	q.SetZ(z)
	sym.Assert(sym.And(q.X == x, q.Y == y, q.Z == z), "SetZ sets only z")
}
