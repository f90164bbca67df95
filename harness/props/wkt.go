package props

import (
	"strings"

	"harness/sym"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/wkt"
)

// flat lists the kind, the sizes and the coordinates of a geometry.
func flat(g geo.Geometry) (kind int, size []int, xs []float64) {
	p2 := func(ps []geo.Point) {
		size = append(size, len(ps))
		for _, p := range ps {
			xs = append(xs, p.X, p.Y)
		}
	}
	p3 := func(ps []geo.PointZ) {
		size = append(size, len(ps))
		for _, p := range ps {
			xs = append(xs, p.X, p.Y, p.Z)
		}
	}
	switch v := g.(type) {
	case geo.Point:
		return 1, nil, []float64{v.X, v.Y}
	case geo.PointZ:
		return 2, nil, []float64{v.X, v.Y, v.Z}
	case geo.MultiPoint:
		kind = 3
		p2(v)
	case geo.MultiPointZ:
		kind = 4
		p3(v)
	case geo.LineString:
		kind = 5
		p2(v)
	case geo.LineStringZ:
		kind = 6
		p3(v)
	case geo.MultiLineString:
		kind = 7
		for _, l := range v {
			p2(l)
		}
	case geo.MultiLineStringZ:
		kind = 8
		for _, l := range v {
			p3(l)
		}
	case geo.Polygon:
		kind = 9
		for _, l := range v {
			p2(l)
		}
	case geo.PolygonZ:
		kind = 10
		for _, l := range v {
			p3(l)
		}
	case geo.MultiPolygon:
		kind = 11
		for _, q := range v {
			size = append(size, -len(q))
			for _, l := range q {
				p2(l)
			}
		}
	case geo.MultiPolygonZ:
		kind = 12
		for _, q := range v {
			size = append(size, -len(q))
			for _, l := range q {
				p3(l)
			}
		}
	}
	return
}

// identical compares two geometries bit for bit.
func identical(a, b geo.Geometry, what string) {
	ka, sa, xa := flat(a)
	kb, sb, xb := flat(b)
	sym.Assert(ka == kb, what+": the kind is kept")
	ok := len(sa) == len(sb)
	for i := 0; ok && i < len(sa); i++ {
		ok = sa[i] == sb[i]
	}
	sym.Assert(ok && len(xa) == len(xb), what+": the structure is kept")
	eq := true
	for i := range xa {
		eq = sym.And(eq, sym.SameF(xa[i], xb[i]))
	}
	sym.Assert(eq, what+": the coordinates are identical")
}

// some numbers for the coordinates that are not free.
var nums = []float64{0, 1.5, -2.25, 1e-9, 123456789.125, -7, 1e21, 0.1, -33.3333333333, 5e-324, 180, -90}

// mixed is numbers in which a few chosen positions are free.
type mixed struct {
	at, free, from int
	near           bool // coordinates closer together than the tolerance, or equal
	level          bool // all heights are zero
}

func (m *mixed) next() float64 {
	m.at++
	if m.at > m.from && m.at <= m.from+m.free {
		return sym.Any("v")
	}
	if m.near {
		return 7 + float64(m.at%5/2)*1e-10
	}
	return nums[(m.at*5)%len(nums)]
}
func (m *mixed) p() geo.Point   { return geo.Point{X: m.next(), Y: m.next()} }
func (m *mixed) pz() geo.PointZ {
	p := geo.PointZ{X: m.next(), Y: m.next(), Z: m.next()}
	if m.level {
		p.Z = 0
	}
	return p
}
func (m *mixed) ps(n int) (r []geo.Point) {
	for i := 0; i < n; i++ {
		r = append(r, m.p())
	}
	return
}
func (m *mixed) pzs(n int) (r []geo.PointZ) {
	for i := 0; i < n; i++ {
		r = append(r, m.pz())
	}
	return
}
func (m *mixed) ring(n int) geo.LinearRing {
	r := m.ps(n)
	return append(r, r[0])
}
func (m *mixed) ringz(n int) geo.LinearRingZ {
	r := m.pzs(n)
	return append(r, r[0])
}

// geometry is any of the twelve kinds with k (1..) parts.
func (m *mixed) geometry(kind, k int) geo.Geometry {
	switch kind {
	case 0:
		return m.p()
	case 1:
		return m.pz()
	case 2:
		return geo.MultiPoint(m.ps(k))
	case 3:
		return geo.MultiPointZ(m.pzs(k))
	case 4:
		return geo.LineString(m.ps(k))
	case 5:
		return geo.LineStringZ(m.pzs(k))
	}
	var l geo.MultiLineString
	var lz geo.MultiLineStringZ
	var q geo.Polygon
	var qz geo.PolygonZ
	var mq geo.MultiPolygon
	var mz geo.MultiPolygonZ
	for i := 0; i < k; i++ {
		switch kind {
		case 6:
			l = append(l, m.ps(1+(i+k)%3))
		case 7:
			lz = append(lz, m.pzs(1+(i+k)%3))
		case 8:
			q = append(q, m.ring(3+i%2))
		case 9:
			qz = append(qz, m.ringz(3+i%2))
		case 10:
			a := geo.Polygon{m.ring(3)}
			if i%2 == 1 {
				a = append(a, m.ring(4))
			}
			mq = append(mq, a)
		case 11:
			a := geo.PolygonZ{m.ringz(3)}
			if i%2 == 0 {
				a = append(a, m.ringz(3))
			}
			mz = append(mz, a)
		}
	}
	switch kind {
	case 6:
		return l
	case 7:
		return lz
	case 8:
		return q
	case 9:
		return qz
	case 10:
		return mq
	}
	return mz
}

var words = []string{"POINT", "POINT", "MULTIPOINT", "MULTIPOINT", "LINESTRING", "LINESTRING", "MULTILINESTRING", "MULTILINESTRING", "POLYGON", "POLYGON", "MULTIPOLYGON", "MULTIPOLYGON"}

func wktTrip(kind int, g geo.Geometry) {
	s := wkt.Encode(g)
	sym.Assert(strings.HasPrefix(s, words[kind]+"("), "the text starts with the keyword of the kind")
	r, err := wkt.Decode(s)
	sym.Assert(err == nil, "an encoded geometry can be decoded")
	identical(g, r, "round trip")
}

// Every kind with one to three parts and two free coordinates among fixed ones.
//
//sym:mode=fp time=60
func C06_Kinds() {
	kind := sym.Choose("kind", 12)
	k := 1
	if kind > 1 {
		k += sym.Choose("parts", sym.Bound("parts", 3, 4))
	}
	m := &mixed{free: 1, from: sym.Choose("from", 2)}
	like := sym.Choose("like", 3)
	m.near, m.level = like == 1, like == 2
	wktTrip(kind, m.geometry(kind, k))
}

// Points and lines with free coordinates throughout.
//
//sym:mode=fp time=60
func C06_Free() {
	kind := []int{0, 1, 2, 4}[sym.Choose("kind", 4)]
	m := &mixed{free: sym.Bound("free coordinates", 3, 6)}
	wktTrip(kind, m.geometry(kind, 1+kind/2))
}

// text is n free characters of an alphabet.
func text(name string, n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte(name, alphabet)
	}
	return string(b)
}

var keywords = []string{"POINT", "LINESTRING", "MULTIPOINT", "POLYGON", "MULTILINESTRING", "MULTIPOLYGON"}

// decodeOrError decodes a text around the body and, when that succeeds, compares the
// numbers of the geometry with the numbers written in the body.
func decodeOrError(kind int, body string) {
	g, err := wkt.Decode(keywords[kind] + "(" + body + ")")
	if err != nil {
		return
	}
	sym.Assert(g != nil, "no error means a geometry")
	k, _, xs := flat(g)
	sym.Assert(k > 0 && words[k-1] == keywords[kind], "the geometry has the kind of the keyword")
	num, in := 0, false
	for i := 0; i < len(body); i++ {
		c := body[i]
		sym.Assert(c != 'x', "a coordinate that is no number is an error")
		sep := c == ' ' || c == ',' || c == '(' || c == ')'
		if !sep && !in {
			num++
		}
		in = !sep
	}
	sym.Assert(num > 0, "a text without coordinates is an error")
	if kind != 3 && kind != 5 {
		sym.Assert(len(xs) == num, "every number of the text is a coordinate")
	} else {
		sym.Assert(len(xs) >= num, "every number of the text is a coordinate")
	}
}

// A keyword and a short arbitrary text in parentheses.
//
//sym:time=60
func C07_Body() {
	kind := sym.Choose("keyword", 6)
	n := sym.Choose("length", sym.Bound("body characters", 6, 8))
	decodeOrError(kind, text("c", n, "1 ,()x"))
}

// Arbitrary characters at a place inside a well-formed text.
//
//sym:time=60
func C07_Damage() {
	kind := sym.Choose("keyword", 6)
	body := []string{"1 2", "1 2,3 4", "1 2,3 4", "(1 2,3 4,5 6,1 2)", "(1 2,3 4),(5 6,7 8)", "((1 2,3 4,5 6,1 2)),((7 8,9 10,1 3,7 8))"}[kind]
	at := sym.Choose("at", len(body)+1)
	cut := sym.Choose("cut", 2)
	ins := text("c", sym.Choose("inserted", sym.Bound("inserted characters", 3, 4)), " ,()x-.")
	if at+cut > len(body) {
		cut = 0
	}
	decodeOrError(kind, body[:at]+ins+body[at+cut:])
}

// Texts without a geometry keyword.
//
//sym:time=60
func C07_NoKeyword() {
	s := text("c", sym.Choose("length", sym.Bound("characters", 5, 7)), "PO(1 )")
	_, err := wkt.Decode(s)
	sym.Assert(err != nil, "a text without a keyword is an error")
	s = []string{"Point(1 2)", "point (1 2)", "POINTS(1 2)", "MULTI(1 2)", "LINE(1 2)", "POINT 1 2", "POINT", "(1 2)", "POINT(1 2", "POINT)1 2("}[sym.Choose("text", 10)]
	_, err = wkt.Decode(s)
	sym.Assert(err != nil, "a text that is not a geometry is an error")
}

// Optional blanks do not matter.
//
//sym:time=60
func C07_Blanks() {
	// _ stands for an optional blank
	s := []string{
		"_POINT_(_1 -2.5_)_",
		"_POINT_(_1 -2.5 3e2_)",
		"_LINESTRING_(_1 2_,_3 4_,_5 6_)_",
		"LINESTRING_(_1 2 9,_3 4 9_)_",
		"_MULTIPOINT_(_1 2_,_3 4_)_",
		"MULTIPOINT_(_(_1 2_)_,_(_3 4_)_)_",
		"MULTIPOINT_((1 2),_(3 4),_(5 6_)_)_",
		"POLYGON_(_(_1 2_,_3 4,5 6,_1 2_)_)_",
		"POLYGON_(_(1 2,3 4,5 6,1 2_)_,_(_1 3,2 4,5 7,1 3)_)_",
		"MULTILINESTRING_(_(_1 2_,_3 4_)_,_(5 6,7 8_)_)",
		"MULTIPOLYGON_(_(_(_1 2_,_3 4,5 6,_1 2_)_)_)_",
		"MULTIPOLYGON_(_((1 2,3 4,5 6,1 2))_,_(_(1 3,2 4,5 7,1 3)_)_)",
	}[sym.Choose("text", 12)]
	tight, loose := "", ""
	blank := []string{" ", "  "}[sym.Choose("blanks", 2)]
	for _, c := range s {
		if c != '_' {
			tight += string(c)
			loose += string(c)
			continue
		}
		if sym.Bool("blank") {
			loose += blank
		}
	}
	a, ea := wkt.Decode(tight)
	b, eb := wkt.Decode(loose)
	sym.Assert(ea == nil, "a well-formed text is decoded")
	sym.Assert(eb == nil, "a text with optional blanks is decoded")
	identical(a, b, "blanks")
}
