package props

// The same properties for long inputs: most of what they hold is fixed, some of it is free.

import (
	"encoding/json"
	"fmt"

	"harness/sym"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
)

// many is a number of elements; pos one of their positions.
func many() int { return []int{12, 40, 110}[sym.Choose("many", sym.Bound("sizes", 3, 3))] }

func pos(n int) int { return []int{n - 1, n / 2, 10, 3}[sym.Choose("at", sym.Bound("positions", 3, 4))] }

// zigzag is a line of n points with one unit in x from each to the next.
func zigzag(n int) (r []geo.Point) {
	for i := 0; i < n; i++ {
		r = append(r, geo.Point{X: float64(i), Y: float64(i % 2)})
	}
	return
}

func zigzagZ(n int) (r []geo.PointZ) {
	for i := 0; i < n; i++ {
		r = append(r, geo.PointZ{X: float64(i), Y: float64(i % 2), Z: float64(i % 3)})
	}
	return
}

// comb is a counter-clockwise polygon with n teeth upwards between x = 0 and 2n: from the tip of one tooth at
// (2i+1, 8) to the next at (2i+3, 8) the border goes down to (2i+2, 4); the lower side is at y = 0.
func comb(n int) (r []geo.Point) {
	r = append(r, geo.Point{}, geo.Point{X: float64(2 * n)})
	for i := n - 1; i >= 0; i-- {
		r = append(r, geo.Point{X: float64(2*i + 1), Y: 8})
		if i > 0 {
			r = append(r, geo.Point{X: float64(2 * i), Y: 4})
		}
	}
	return
}

//sym:mode=ord time=40
func C04_Many() {
	n := many()
	k := pos(n)
	var l []*geo.Box
	var b geo.Box
	for i := 0; i < n; i++ {
		c := &geo.Box{MinX: float64(i % 5), MinY: float64(i % 7), MaxX: float64(i%5) + 1, MaxY: float64(i % 7)}
		if i == k {
			c.MinX, c.MaxY = sym.F("x0", -20, -10, 0), sym.F("y1", 20, 30, 0)
			b = *c
		}
		l = append(l, c)
	}
	u := geo.BoxUnion(l...)
	sym.Assert(sym.And(u.MinX == b.MinX, u.MaxY == b.MaxY, u.MinY == 0, u.MaxX == 5), "the union of many boxes is their least cover")
}

//sym:mode=ord time=40
func C05_Many() {
	n := many()
	k := pos(n)
	v := zigzag(n)
	p := ap()
	v[k] = p
	x0, y0, x1, y1 := p.X, p.Y, p.X, p.Y
	for i, q := range v {
		if i != k {
			x0, y0, x1, y1 = minF(x0, q.X), minF(y0, q.Y), maxF(x1, q.X), maxF(y1, q.Y)
		}
	}
	var l geo.MultiLineString
	var q geo.MultiPolygon
	for i := range v {
		l = append(l, geo.LineString{v[i]})
		q = append(q, geo.Polygon{{v[i], v[i]}})
	}
	b := geo.BoundingBox([]geo.Geometry{geo.MultiPoint(v), geo.LineString(v), geo.Polygon{v}, l, q, geo.MultiPolygon{{v}}}[sym.Choose("kind", 6)])
	sym.Assert(sym.And(b.MinX == x0, b.MinY == y0, b.MaxX == x1, b.MaxY == y1), "the box of many points is their least cover")
}

// long is a geometry of a kind with many points or parts.
func long(kind int) geo.Geometry {
	n := []int{12, 60, 130}[sym.Choose("many", sym.Bound("sizes", 3, 3))]
	m := &mixed{free: 1, from: sym.Choose("from", 2) * (n + 3)}
	if kind > 5 {
		return m.geometry(kind, 12)
	}
	return m.geometry(kind, n)
}

//sym:mode=fp time=60
func C06_Many() {
	kind := 2 + sym.Choose("kind", 10)
	wktTrip(kind, long(kind))
}

// parts is a geometry of a kind with many parts.
func parts(m *mixed, kind int) geo.Geometry {
	var a geo.MultiLineString
	var b geo.MultiLineStringZ
	var c geo.Polygon
	var d geo.PolygonZ
	var e geo.MultiPolygon
	var f geo.MultiPolygonZ
	n := []int{14, 110}[sym.Choose("parts", 2)]
	for i := 0; i < n; i++ {
		switch kind {
		case 6:
			a = append(a, m.ps(2))
		case 7:
			b = append(b, m.pzs(2))
		case 8:
			c = append(c, m.ring(3))
		case 9:
			d = append(d, m.ringz(3))
		case 10:
			e = append(e, geo.Polygon{m.ring(3)})
		case 11:
			f = append(f, geo.PolygonZ{m.ringz(3)})
		}
	}
	return []geo.Geometry{a, b, c, d, e, f}[kind-6]
}

//sym:mode=fp time=60
func C06_ManyParts() {
	kind := 6 + sym.Choose("kind", 6)
	wktTrip(kind, parts(&mixed{free: 1, from: 40 * sym.Choose("from", 2)}, kind))
}

//sym:mode=fp time=60
func C08_ManyParts() {
	kind := 6 + sym.Choose("kind", 6)
	jsonTrip(kind, parts(&mixed{free: 1, from: 40 * sym.Choose("from", 2)}, kind))
}

// A line or a ring of many points within a geometry of parts.
//
//sym:mode=fp time=60
func C06_LongParts() {
	m := &mixed{free: 1}
	switch sym.Choose("kind", 6) {
	case 0:
		wktTrip(6, geo.MultiLineString{m.ps(3), m.ps(20)})
	case 1:
		wktTrip(7, geo.MultiLineStringZ{m.pzs(3), m.pzs(20)})
	case 2:
		wktTrip(8, geo.Polygon{m.ring(30), m.ring(20)})
	case 3:
		wktTrip(9, geo.PolygonZ{m.ringz(30), m.ringz(20)})
	case 4:
		wktTrip(10, geo.MultiPolygon{{m.ring(3), m.ring(15), m.ring(3)}, {m.ring(20)}})
	case 5:
		wktTrip(11, geo.MultiPolygonZ{{m.ringz(3), m.ringz(15), m.ringz(3)}, {m.ringz(20)}})
	}
}

//sym:mode=fp time=60
func C08_Many() {
	kind := 2 + sym.Choose("kind", 10)
	jsonTrip(kind, long(kind))
}

//sym:mode=fp time=60
func C08_LongParts() {
	m := &mixed{free: 1}
	switch sym.Choose("kind", 6) {
	case 0:
		jsonTrip(6, geo.MultiLineString{m.ps(3), m.ps(20)})
	case 1:
		jsonTrip(7, geo.MultiLineStringZ{m.pzs(3), m.pzs(20)})
	case 2:
		jsonTrip(8, geo.Polygon{m.ring(30), m.ring(20)})
	case 3:
		jsonTrip(9, geo.PolygonZ{m.ringz(30), m.ringz(20)})
	case 4:
		jsonTrip(10, geo.MultiPolygon{{m.ring(3), m.ring(15), m.ring(3)}, {m.ring(20)}})
	case 5:
		jsonTrip(11, geo.MultiPolygonZ{{m.ringz(3), m.ringz(15), m.ringz(3)}, {m.ringz(20)}})
	}
}

// Long lists of positions: one of them may be broken.
//
//sym:mode=fp time=60
func C09_Many() {
	n := many()
	k := pos(n)
	broken := sym.Choose("broken", 5)
	depth := 1 + sym.Choose("depth", 3)
	var c []interface{}
	x := sym.Any("x")
	position := func(i int) []interface{} {
		r := []interface{}{float64(i), 1.5}
		if i == k {
			r[0] = x
			switch broken {
			case 1:
				r = r[:1]
			case 2:
				r[1] = "1"
			case 3:
				r = append(r, 2.0)
			}
		}
		return r
	}
	for i := 0; i < n; i++ {
		var v interface{} = position(i)
		if depth == 3 {
			v = []interface{}{v}
		}
		c = append(c, v)
	}
	kind := "LineString"
	if depth > 1 {
		kind = "Polygon"
	}
	var v interface{} = c
	if depth == 2 {
		v = []interface{}{c}
	}
	g, err := geojson.UnmarshalGeo(&geojson.GeoJson{Type: kind, Coordinates: v})
	if broken == 1 || broken == 2 || broken == 3 {
		if err != nil {
			return
		}
	}
	sym.Assert(err == nil, "positions that are right can be decoded")
	_, size, xs := flat(g)
	sym.Assert(len(xs) == 2*n, "no position is dropped or invented")
	if depth == 3 {
		sym.Assert(len(size) == n, "no ring is dropped or invented")
	}
	sym.Assert(sym.SameF(xs[2*k], x), "positions keep their place")
	for i := 0; i < n; i++ {
		sym.Assert(i == k || xs[2*i] == float64(i), "positions keep their place")
	}
}

// Many features with many properties.
//
//sym:mode=fp time=60
func C10_Many() {
	n := []int{12, 40, 110}[sym.Choose("many", 3)]
	k := pos(n)
	fc := geojson.NewFeatureCollection()
	x := sym.Any("x")
	for i := 0; i < n; i++ {
		f := geojson.NewFeature(geo.Point{X: float64(i), Y: 1})
		f.ID = fmt.Sprint("id", i)
		if i == k {
			for j := 0; j < n; j++ {
				f.SetProperty(fmt.Sprint("p", j), float64(j))
			}
			f.SetProperty(fmt.Sprint("p", n-1), x)
		}
		fc.AddFeature(f)
	}
	sym.Assert(len(fc.Features) == n, "every feature is added")
	b, err := json.Marshal(fc)
	sym.Assert(err == nil, "a feature collection can be encoded")
	r, err := geojson.UnmarshalFeatureCollection(b)
	sym.Assert(err == nil && len(r.Features) == n, "every feature is kept")
	for i, f := range r.Features {
		sym.Assert(f.ID.(string) == fmt.Sprint("id", i), "the features keep their order and IDs")
	}
	f := r.Features[k]
	sym.Assert(len(f.Properties) == n, "every property is kept")
	v, err := f.PropertyFloat64(fmt.Sprint("p", n-1))
	sym.Assert(err == nil, "a property keeps its type")
	sym.Assert(sym.SameF(v, x), "a property keeps its value")
	w, err := f.PropertyInt("p3")
	sym.Assert(err == nil && w == 3, "a property keeps its value")
}

//sym:mode=real time=40
func C11_Many() {
	n := many()
	k := pos(n)
	v := zigzag(n)
	v[k] = gp(64, -4)
	q := gp(64, -4)
	l := geo.LineString(cp(v))
	switch sym.Choose("edit", 6) {
	case 0:
		l.Reverse()
		sym.Assert(len(l) == n, "reversing keeps the number of points")
		for i := range l {
			sym.Assert(same(l[i], v[n-1-i]), "reversing turns the order around")
		}
		l.Reverse()
		sym.Assert(sameList(l, v), "reversing twice changes nothing")
	case 1:
		sym.Assert(l.InsertPoint(k, q) == nil, "a point can be inserted")
		w := append(cp(v[:k]), q)
		sym.Assert(sameList(l, append(w, v[k:]...)), "inserting adds one point there")
	case 2:
		sym.Assert(l.DelPoint(k) == nil, "a point can be deleted")
		sym.Assert(sameList(l, append(cp(v[:k]), v[k+1:]...)), "deleting removes one point")
	case 3:
		sym.Assert(l.SetPoint(k, q) == nil, "a point can be set")
		w := cp(v)
		w[k] = q
		sym.Assert(sameList(l, w), "setting replaces one point")
	case 4:
		a, b := l.SplitByIndex(k)
		sym.Assert(sym.And(sameList(a, v[:k+1]), sameList(b, v[k:])), "splitting keeps the points")
	case 5:
		w := cp(v)
		w[k] = q
		sym.Assume(sym.Or(q.X-v[k].X >= 1, q.X-v[k].X <= -1))
		sym.Assert(l.Equal(cp(v)), "equal lines are equal")
		sym.Assert(!l.Equal(w), "lines with one different point are different")
	}
}

//sym:mode=real time=40
func C11_ManyZ() {
	n := many()
	k := pos(n)
	v := zigzagZ(n)
	v[k] = gpz(64, -4)
	l := geo.LineStringZ(cpz(v))
	sym.Assert(l.Equal(cpz(v)), "equal lines are equal")
	w := cpz(v)
	w[k].Z += sym.F("dz", 1, 9, 0)
	sym.Assert(!l.Equal(w), "lines with one different point are different")
	l.Reverse()
	for i := range l {
		sym.Assert(sameZ(l[i], v[n-1-i]), "reversing turns the order around")
	}
	l.Append(w[k])
	sym.Assert(len(l) == n+1 && sameZ(l[n], w[k]), "appending adds a point at the end")
}

//sym:mode=real time=40
func C13_Many() {
	n := many()
	k := pos(n)
	v := zigzag(n)
	v[k] = gp(64, -4)
	z := zigzagZ(n)
	z[k] = gpz(64, -4)
	v[n-1].X, z[n-1].X = v[n-1].X+200, z[n-1].X+200
	r, rz := geo.NewLinearRing(v...), geo.NewLinearRingZ(z...)
	sym.Assert(sameList(*r, append(cp(v), v[0])), "an open ring is closed")
	sym.Assert(sameListZ(*rz, append(cpz(z), z[0])), "an open ring is closed")
	sym.Assert(sameList(*geo.NewLinearRing(*r...), *r), "a closed ring is kept")
	sym.Assert(sameListZ(*geo.NewLinearRingZ(*rz...), *rz), "a closed ring is kept")
	p, pz := geo.NewPolygonFromPois(v...), geo.NewPolygonZFromPois(z...)
	sym.Assert(len(*p) == 1 && sameList(p.GetExteriorPoints(), *r), "a polygon keeps its ring")
	sym.Assert(len(*pz) == 1 && sameListZ(pz.GetExteriorPoints(), *rz), "a polygon keeps its ring")
	for i := 1; i < n; i++ {
		p.AddInteriorRing(geo.LinearRing{v[i]})
	}
	sym.Assert(len(p.GetInteriorRing()) == n-1 && same(p.GetInteriorRing()[n-2][0], v[n-1]), "a polygon keeps its holes")
}

//sym:mode=real time=40
func C14_Many() {
	n := many()
	v := comb(n)
	k := pos(len(v))
	v[k].Y += sym.F("h", 0, 3, -8)
	o := gp(64, -8)
	s := 0.0
	for i := range v {
		v[i] = geo.Point{X: v[i].X + o.X, Y: v[i].Y + o.Y}
	}
	for i := range v {
		a, b := v[i], v[(i+1)%len(v)]
		s += (a.X - b.X) * (a.Y + b.Y)
	}
	sym.Assert(closeTo(2*geo.GetArea(poly(v)), s, 1e-6), "the area is the area below the border")
	sym.Assert(poly(v).IsCCW(), "the ring is counter-clockwise")
	var m geo.MultiPolygon
	t := 0.0
	for i := 0; i < n; i++ {
		h := float64(1 + i%4)
		if i == n-2 {
			h = sym.F("side", 0, 9, -4)
		}
		m = append(m, poly([]geo.Point{{}, {X: h}, {X: h, Y: 2}, {Y: 2}}))
		t += 2 * h
	}
	sym.Assert(closeTo(geo.GetArea(m), t, 1e-6), "the area of a multi-polygon is the sum")
}

// border is a rectangle of 4 x 2 whose sides are divided in n parts.
func border(n int, o geo.Point) (r []geo.Point) {
	c := []geo.Point{{}, {X: 4}, {X: 4, Y: 2}, {Y: 2}}
	for i := range c {
		d := c[(i+1)%4]
		for j := 0; j < n; j++ {
			t := float64(j) / float64(n)
			r = append(r, geo.Point{X: o.X + c[i].X + t*(d.X-c[i].X), Y: o.Y + c[i].Y + t*(d.Y-c[i].Y)})
		}
	}
	return
}

//sym:mode=real time=40
func C15_Many() {
	n := many()
	v := zigzag(n)
	v[pos(n)] = gp(64, -4)
	x, y := 0.0, 0.0
	for _, p := range v {
		x, y = x+p.X, y+p.Y
	}
	c := geo.Centroid(geo.MultiPoint(v))
	sym.Assert(closeTo(c.X, x/float64(n), 1e-6), "the centroid of many points is their mean (x)")
	sym.Assert(closeTo(c.Y, y/float64(n), 1e-6), "the centroid of many points is their mean (y)")
	o := gp(64, -4)
	w := border([]int{4, 16, 32}[sym.Choose("parts", 3)], o)
	c = geo.Centroid(poly(start(w, sym.Choose("start", 2)*3)))
	sym.Assert(sym.And(closeTo(c.X, o.X+2, 1e-6), closeTo(c.Y, o.Y+1, 1e-6)), "the centroid of a rectangle with many vertices is its centre")
}

//sym:mode=real time=40
func C16_Many() {
	n := many()
	k := pos(n)
	l := geo.LineString{}
	h := sym.F("h", 1, 64, -4)
	s := 0.0
	for i := 0; i < n; i++ {
		p := geo.Point{X: float64(3 * i), Y: float64(4 * (i % 2))}
		if i >= k {
			p.X += h - 3
		}
		if i > 0 && i == k {
			p.Y = l[i-1].Y
		}
		if i > k {
			p.Y = l[i-1].Y + 4
		}
		if i > 0 && i == k {
			s += h
		} else if i > 0 {
			s += 5
		}
		l = append(l, p)
	}
	sym.Assert(closeTo(l.Length(), s, 1e-6), "the length of a long line is the sum over its segments")
}

// A point next to one segment of a long line, or to one edge of a large polygon.
//
//sym:mode=real merge=off time=60 steps=8000000
func C17_Many() {
	n := many()
	if sym.Choose("polygon", 2) == 0 {
		l := geo.LineString{}
		for i := 0; i <= n; i++ {
			l = append(l, geo.Point{X: float64(4 * i)})
		}
		k := pos(n)
		q := geo.Point{X: float64(4*k) + sym.F("x", 1, 3, -4), Y: sym.F("y", 0, 8, -4)}
		p, i, d := geo.PointHitLineString(q, l, geo.SRID(0))
		sym.Assert(i == k, "the nearest segment of a long line")
		sym.Assert(sym.And(closeTo(p.X, q.X, 1e-6), closeTo(p.Y, 0, 1e-6)), "the nearest point of a long line")
		sym.Assert(closeTo(d, q.Y, 1e-6), "the distance to a long line")
		return
	}
	v := []geo.Point{{X: float64(4 * n), Y: 1e4}, {Y: 1e4}}
	for i := 0; i <= n; i++ {
		v = append(v, geo.Point{X: float64(4 * i)})
	}
	k := pos(n)
	q := geo.Point{X: float64(4*k) + sym.F("x", 1, 3, -4), Y: -sym.F("y", 1, 8, -4)}
	d := geo.PointPolygonDistance(q, poly(start(v, 2*sym.Choose("start", 2))), geo.SRID(0))
	sym.Assert(closeTo(d, -q.Y, 1e-6), "the distance to a large polygon")
}

//sym:time=60 steps=8000000
func C18_Many() {
	n := many()
	v := comb(n)
	k := pos(n)
	p := poly(v)
	x := float64(2*k + 1)
	y := sym.F("y", -9, 16, -1)
	want := geo.RELA_DISJOINT
	if sym.And(y > 0, y < 8) {
		want = geo.RELA_CONTAIN
	} else if sym.Or(y == 0, y == 8) {
		want = geo.RELA_TOUCH
	}
	sym.Assert(geo.IsPointInPolygon(geo.Point{X: x, Y: y}, p) == want, "a point below or above the tip of a tooth")
	x = float64(2 * k)
	if k == 0 {
		return
	}
	want = geo.RELA_DISJOINT
	if sym.And(y > 0, y < 4) {
		want = geo.RELA_CONTAIN
	} else if sym.Or(y == 0, y == 4) {
		want = geo.RELA_TOUCH
	}
	sym.Assert(geo.IsPointInPolygon(geo.Point{X: x, Y: y}, p) == want, "a point between two teeth")
	sym.Assert(geo.IsPointOnLine(geo.Point{X: x + 0.5, Y: 6}, geo.LineString(p[0])), "a point on the side of a tooth is on the line")
}

// sizes for what takes the square of it
func some() int { return []int{12, 40}[sym.Choose("some", 2)] }

//sym:time=60 steps=20000000
func C19_Many() {
	n := some()
	a := zigzag(n)
	k := pos(n - 1)
	m := some()
	j := pos(m - 1)
	// the other line runs below, and touches or crosses segment k of the first with its segment j only
	h := sym.F("h", -2, 2, -1)
	back := []float64{1000, -1000}[sym.Choose("back", 2)]
	var b []geo.Point
	for i := 0; i < m; i++ {
		b = append(b, geo.Point{X: float64(k) - float64(j-i)*back, Y: -8})
	}
	b[j].X, b[j].Y, b[j+1].X, b[j+1].Y = float64(k)+0.5, -8, float64(k)+0.5, h
	r := geo.LineRelation(a, b)
	s := geo.LineRelation(b, a)
	sym.Assert(r == s, "the order of the lines does not matter")
	sym.Assert((r == geo.RELA_INTERSECT) == (h >= 0.5), "two long lines intersect exactly when some of their segments share a point")
}

//sym:time=60 steps=20000000
func C19_ManySelf() {
	n := some()
	v := comb(n)
	k := pos(n)
	// the tip of a tooth is drawn down, below the lower side or not
	h := sym.F("h", -3, 8, -1)
	for i := range v {
		if v[i].X == float64(2*k+1) && v[i].Y == 8 {
			v[i].Y = h
		}
	}
	x := poly(start(v, []int{0, 1, 11}[sym.Choose("start", 3)])).SelfIntersect()
	sym.Assert(x == (h < 0), "a large polygon intersects itself exactly when two edges cross")
}

//sym:time=60 steps=20000000
func C20_Many() {
	n := some()
	v := start(comb(n), []int{0, 11}[sym.Choose("start", 2)])
	k := pos(n)
	p := poly(v)
	x := float64(2*k+1) - 0.5
	h := sym.F("h", 1, 15, -1)
	a, b := geo.Point{X: x, Y: 1}, geo.Point{X: x, Y: h + 1}
	r := geo.SegPolyRelation(geo.LineSegment{Start: a, End: b}, p)
	if h+1 > 6 {
		sym.Assert(r == geo.RELA_INTERSECT, "a segment that crosses an edge of a large polygon intersects it")
	} else if h+1 < 6 {
		sym.Assert(r == geo.RELA_CONTAIN, "a segment inside a large polygon is contained")
	}
	// a long line inside, with one point that may be outside
	var l geo.LineString
	m := some()
	j := pos(m)
	for i := 0; i < m; i++ {
		l = append(l, geo.Point{X: x, Y: 1 + float64(i)/64})
	}
	l[j] = b
	r = geo.LinePolyRelation(l, p)
	rr := geo.LinearPolyRelation(geo.LinearRing(append(l, l[0])), p)
	if h+1 > 6 {
		sym.Assert(sym.And(r == geo.RELA_INTERSECT, rr == geo.RELA_INTERSECT), "a long line that crosses an edge intersects the polygon")
	} else if h+1 < 6 {
		sym.Assert(sym.And(r == geo.RELA_CONTAIN, rr == geo.RELA_CONTAIN), "a long line inside is contained")
	}
}

// A long line with one bump, which stays exactly when the threshold is lower.
//
//sym:mode=real merge=off time=60 steps=8000000
func C22_Many() {
	n := many()
	k := pos(n)
	if k == n-1 {
		k = n - 2
	}
	u := []float64{1, 4096}[sym.Choose("unit", 2)]
	// all other points are close to one of the ends
	var l geo.LineString
	for i := 0; i < n; i++ {
		x := float64(i) / 1024
		if i >= k {
			x += 1024
		}
		if i > k {
			x += 1024
		}
		l = append(l, geo.Point{X: x * u})
	}
	h := []float64{4, -4}[sym.Choose("below", 2)] * u
	l[k].Y = h
	t := sym.F("threshold", 0.0625, 8, -8) * u
	r := geo.DouglasPeuckerSimplify(l, t, geo.SRID(0))
	sym.Assert(sym.And(same(r[0], l[0]), same(r[len(r)-1], l[n-1])), "the ends are kept")
	if t < 4*u {
		any := false
		for _, p := range r {
			any = sym.Or(any, same(p, l[k]))
		}
		sym.Assert(any, "a point farther than the threshold is kept")
	} else if t > 4*u {
		sym.Assert(len(r) == 2, "points within the threshold are removed")
	}
	sym.Assert(sameList(geo.DouglasPeuckerSimplify(l, -1, geo.SRID(0)), l), "a negative threshold keeps every point")
}

// Long lines that are the same but for one point of either.
//
//sym:mode=real merge=off time=60 steps=20000000
func C23_Many() {
	n := some()
	a, b := zigzag(n), zigzag(n)
	k := pos(n)
	h := sym.F("h", 2, 32, -4)
	b[k].Y = -h
	d := geo.HausdorffDistance(a, b, geo.SRID(0))
	e := geo.HausdorffDistance(b, a, geo.SRID(0))
	sym.Assert(closeTo(d, e, 1e-6), "the distance is symmetric")
	near := 1e9
	for _, p := range a {
		near = minF(near, (p.X-b[k].X)*(p.X-b[k].X)+(p.Y+h)*(p.Y+h))
	}
	sym.Assert(closeTo(d*d, near, 1e-4), "the distance is that of the point far off")
	c := append(append([]geo.Point(nil), a...), b[k])
	d = geo.HausdorffDistance(a, c, geo.SRID(0))
	sym.Assert(closeTo(d*d, near, 1e-4), "the distance is that of the last point")
}

//sym:mode=real time=40
func C30_Many() {
	n := many()
	v := zigzag(n)
	k := pos(n)
	v[k] = gp(64, -4)
	c := geo.Point{X: 1, Y: 2}
	p := geo.RotateCW(geo.Polygon{ring(v)}, c, 0.5).(geo.Polygon)
	sym.Assert(len(p) == 1 && len(p[0]) == n+1, "rotating keeps the vertex count")
	for i := range v {
		q := geo.RotateCW(v[i], c, 0.5).(geo.Point)
		sym.Assert(same(p[0][i], q), "a polygon is rotated vertex by vertex")
	}
}

//sym:mode=real merge=off time=60 steps=20000000
func C34_Many() {
	n := some()
	v := comb(n)
	k := pos(len(v))
	if k < 2 {
		k = 2
	}
	if v[k].Y == 4 {
		k++
	}
	v[k].Y += sym.F("h", -2, 160, -2)
	p := poly(v)
	sym.Assert((p.Verify() == nil) == (v[k].Y <= 90), "a large simple ring is valid exactly when all its vertices are in range")
	l := geo.LineString(v)
	sym.Assert(l.Verify() == nil, "a long line is valid")
}

//sym:mode=real time=40
func C35_Many() {
	n := many()
	p := gp(64, -4)
	var mp geo.MultiPoint
	var mz geo.MultiPointZ
	var q geo.Polygon
	var qz geo.PolygonZ
	var m geo.MultiPolygon
	var mqz geo.MultiPolygonZ
	for i := 0; i < n; i++ {
		a := geo.Point{X: p.X + float64(i%3), Y: p.Y}
		z := geo.PointZ{X: a.X, Y: a.Y, Z: float64(i)}
		mp.Append(a)
		mz.Append(z)
		q.AddInteriorRing(geo.LinearRing{a})
		qz.AddInteriorRing(geo.LinearRingZ{z})
		m.AddPolygon(geo.Polygon{{a}})
		mqz.AddPolygonZ(geo.PolygonZ{{z}})
	}
	sym.Assert(len(mp) == n && len(mz) == n && len(q) == n && len(qz) == n && len(m) == n && len(mqz) == n, "adding appends one element, however many there are")
	for i := 0; i < n; i++ {
		a := geo.Point{X: p.X + float64(i%3), Y: p.Y}
		z := geo.PointZ{X: a.X, Y: a.Y, Z: float64(i)}
		sym.Assert(sym.And(same(mp[i], a), same(q[i][0], a), same(m[i][0][0], a)), "adding appends exactly the element")
		sym.Assert(sym.And(sameZ(mz[i], z), sameZ(qz[i][0], z), sameZ(mqz[i][0][0], z)), "adding appends exactly the element")
	}
}

//sym:mode=real time=40
func C40_Many() {
	n := many()
	v := zigzag(n)
	z := zigzagZ(n)
	k := pos(n)
	v[k], z[k] = gp(64, -4), gpz(64, -4)
	sym.Assert(sameList(*geo.NewMultiPoint(v...), v), "a multi-point of many points")
	sym.Assert(sameListZ(*geo.NewMultiPointZ(z...), z), "a multi-point of many points")
	sym.Assert(sameList(*geo.NewLineString(v...), v), "a line of many points")
	sym.Assert(sameListZ(*geo.NewLineStringZ(z...), z), "a line of many points")
	var l []geo.LineString
	var lz []geo.LineStringZ
	var r []geo.LinearRing
	var rz []geo.LinearRingZ
	var q []geo.Polygon
	for i := range v {
		l, lz = append(l, geo.LineString{v[i]}), append(lz, geo.LineStringZ{z[i]})
		r, rz = append(r, geo.LinearRing{v[i]}), append(rz, geo.LinearRingZ{z[i]})
		q = append(q, geo.Polygon{{v[i]}})
	}
	ml, mlz := *geo.NewMultiLineString(l...), *geo.NewMultiLineStringZ(lz...)
	p, pz, mq := *geo.NewPolygon(r...), *geo.NewPolygonZ(rz...), *geo.NewMultiPolygon(q...)
	sym.Assert(len(ml) == n && len(mlz) == n && len(p) == n && len(pz) == n && len(mq) == n, "a geometry of many parts")
	for i := range v {
		sym.Assert(sym.And(same(ml[i][0], v[i]), same(p[i][0], v[i]), same(mq[i][0][0], v[i])), "the parts keep their order")
		sym.Assert(sym.And(sameZ(mlz[i][0], z[i]), sameZ(pz[i][0], z[i])), "the parts keep their order")
	}
}

// Trees of several levels, whose queries have long results.
//
//sym:time=60 steps=20000000
func C01_Many() {
	n := many()
	all := cloud(n)
	x := &index{all: all, in: make([]bool, n)}
	switch sym.Choose("how", 3) {
	case 0:
		x.tree = geo.NewTree(all...)
	case 1:
		x.tree = geo.NewMinMaxTree(3, 8, all...)
	default:
		x.tree = geo.NewMinMaxTree(2, 5)
		for _, o := range all {
			x.tree.Insert(o)
		}
	}
	for i := range all {
		x.in[i] = true
	}
	gone := pos(n)
	x.remove(gone)
	x.list(&geo.Box{MinX: -5, MinY: -5, MaxX: sym.F("qx", -5, 25, 0), MaxY: 30})
	x.book()
}

// Many objects with the same ID, between others, are deleted and replaced at once.
//
//sym:time=60 steps=20000000
func C02_Many() {
	n := some()
	all := cloud(n)
	p := geo.Point{X: sym.F("x", -5, 15, -4), Y: 6}
	for i := range all {
		if i%3 > 0 {
			all[i].ID = "same"
		}
	}
	all[n-1].Geom = p
	t := geo.NewMinMaxTree(2, []int{3, 9}[sym.Choose("capacity", 2)], all[:n/2]...)
	for _, o := range all[n/2:] {
		t.Insert(o)
	}
	k := 0
	for i := range all {
		if all[i].ID == "same" {
			k++
		}
	}
	sym.Assert(len(t.SearchBySpatialID("same")) == k, "a lookup finds exactly the objects with the ID")
	up := sym.Choose("upsert", 2)
	if up == 1 {
		t.UpsertBySpatialID(geo.Spatial{ID: "same", Geom: p})
	} else {
		sym.Assert(t.DeleteBySpatialID("same"), "deleting by ID reports whether there was such an object")
	}
	sym.Assert(len(t.SearchBySpatialID("same")) == up, "no other object with the ID is left")
	sym.Assert(t.Size() == n-k+up, "size is the number of stored objects")
	for _, o := range all {
		if o.ID != "same" {
			sym.Assert(len(t.SearchBySpatialID(o.ID)) == 1, "objects with other IDs are kept")
		}
	}
	sym.Assert(len(t.SearchIntersect(&geo.Box{MinX: -20, MinY: -20, MaxX: 40, MaxY: 40})) == n-k+up, "a query finds all that is left")
}

// Many neighbours of a point near one of the corners.
//
//sym:mode=real merge=off time=60 steps=20000000
func C03_Many() {
	n := many()
	var all []geo.Spatial
	for i := 0; i < n; i++ {
		// distances from (-1, y) that differ by at least one
		all = append(all, one(float64(i*37%n), float64(i%3)/8, i))
	}
	x := &index{all: all, in: make([]bool, n)}
	if sym.Choose("bulk", 2) == 1 {
		x.tree = geo.NewMinMaxTree(2, 6, all...)
	} else {
		x.tree = geo.NewTree()
		for _, o := range all {
			x.tree.Insert(o)
		}
	}
	k := []int{11, 30, n - 1, n + 1}[sym.Choose("k", sym.Bound("counts", 3, 4))]
	p := geo.Point{X: sym.F("x", -2, -1, -4), Y: 0.125}
	r := x.tree.NearestNeighbors(k, p)
	if k > n {
		k = n
	}
	sym.Assert(len(r) == k, "k or all objects are returned")
	for i, o := range r {
		sym.Assert(o.Geom.(geo.Point).X == float64(i), "the nearest objects in order")
	}
}

// bowl is a convex counter-clockwise polygon with an edge on top that is longer than the others, turned by quarters.
func bowl(n, turn int) (r []geo.Point) {
	for i := -n; i <= n; i++ {
		p := geo.Point{X: float64(i), Y: float64(i*i) / 4}
		for k := 0; k < turn; k++ {
			p.X, p.Y = -p.Y, p.X
		}
		r = append(r, p)
	}
	return
}

// Hulls with many vertices.
//
//sym:mode=int merge=off feas=0.05 inc=0.1 time=60 steps=20000000
func C21_Edges() {
	n := []int{6, 25}[sym.Choose("n", sym.Bound("sizes", 2, 2))]
	v := bowl(n, sym.Choose("turn", 4))
	at := []int{0, n, 2*n + 1}[sym.Choose("at", 3)]
	v = append(v[:at:at], append([]geo.Point{{X: sym.F("x", -64, 64, 0), Y: 1}}, v[at:]...)...)
	hullOf(v)
}

// Rectangles of hulls with many edges.
//
//sym:mode=real time=60 feas=0.05 inc=0.1 steps=20000000
func C38_Edges() {
	n := []int{6, 20}[sym.Choose("n", sym.Bound("sizes", 2, 2))]
	s := bowl(n, sym.Choose("turn", 4))
	least(s, geo.Point{X: sym.F("x", -4, 4, -20), Y: 5}, 0, 0)
}
