package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// Every kind that takes a reference system takes every one, and keeps its points.
func C35_Srid() {
	v := gps(4, 1<<20, -4)
	v0 := cp(v)
	id := uint64(sym.Int("srid", 0, 1<<40))
	k := sym.Choose("kind", 6)
	if k < 5 && sym.Bool("empty") {
		v = nil
	}
	line := geo.LineString(v)
	p := geo.Polygon{geo.LinearRing(v)}
	ok := !sym.Panics(func() {
		for i := 0; i < 2; i++ {
			switch k {
			case 0:
				geo.MultiPoint(v).SetSrid(id)
			case 1:
				geo.MultiLineString{line}.SetSrid(id)
			case 2:
				geo.MultiLineStringZ{}.SetSrid(id)
			case 3:
				geo.MultiPolygon{p}.SetSrid(id)
			case 4:
				p.SetSrid(id)
			case 5:
				p.SetSRID(int(id))
			}
		}
	})
	sym.Assert(ok, "assigning a reference system does not panic")
	if v != nil {
		sym.Assert(sym.And(sameList(v, v0), sameList(p[0], v0)), "assigning a reference system keeps the geometry")
	}
}

func C35_Type() {
	kinds := []struct {
		g geo.Geometry
		t geo.GeometryType
	}{
		{geo.Point{}, "Point"}, {geo.MultiPoint{}, "MultiPoint"},
		{geo.LineString{}, "LineString"}, {geo.MultiLineString{}, "MultiLineString"},
		{geo.Polygon{}, "Polygon"}, {geo.MultiPolygon{}, "MultiPolygon"},
		{geo.PointZ{}, "PointZ"}, {geo.MultiPointZ{}, "MultiPointZ"},
		{geo.LineStringZ{}, "LineStringZ"}, {geo.MultiLineStringZ{}, "MultiLineStringZ"},
		{geo.PolygonZ{}, "PolygonZ"}, {geo.MultiPolygonZ{}, "MultiPolygonZ"},
		{geo.Collection{}, "GeometryCollection"},
	}
	k := kinds[sym.Choose("kind", len(kinds))]
	sym.Assert(k.g.Type() == k.t, "every geometry reports its type")
}

// Adding appends exactly the element, and nothing else changes, whatever capacity the collection has.
func C35_Append() {
	n := sym.Choose("n", 5)
	spare := sym.Choose("spare", 3)
	p := gp(1<<20, -4)
	pz := gpz(1<<20, -4)
	switch sym.Choose("kind", 6) {
	case 0:
		v := gps(n, 1<<20, -4)
		c := make(geo.MultiPoint, n, n+spare)
		copy(c, v)
		c.Append(p)
		sym.Assert(sameList(c, append(cp(v), p)), "adding a point appends it")
	case 1:
		var v []geo.PointZ
		c := make(geo.MultiPointZ, 0, n+spare)
		for i := 0; i < n; i++ {
			v = append(v, gpz(1<<20, -4))
			c = append(c, v[i])
		}
		c.Append(pz)
		sym.Assert(sameListZ(c, append(cpz(v), pz)), "adding a point appends it")
	case 2:
		c := make(geo.Polygon, 0, n+spare)
		var v []geo.LinearRing
		for i := 0; i < n; i++ {
			v = append(v, ring(gps(3, 1<<20, -4)))
			c = append(c, v[i])
		}
		h := geo.LinearRing(gps(sym.Choose("ring", 4), 1<<20, -4))
		if len(h) == 3 {
			h = ring(h)
		}
		c.AddInteriorRing(h)
		sym.Assert(len(c) == n+1, "adding a ring appends it")
		for i := range v {
			sym.Assert(sameList(c[i], v[i]), "adding a ring keeps the rings before it")
		}
		sym.Assert(sameList(c[len(c)-1], h), "adding a ring appends it")
	case 3:
		c := make(geo.MultiPolygon, 0, n+spare)
		var v []geo.Polygon
		for i := 0; i < n; i++ {
			v = append(v, poly(gps(3, 1<<20, -4)))
			c = append(c, v[i])
		}
		h := geo.Polygon{geo.LinearRing(gps(sym.Choose("ring", 4), 1<<20, -4))}
		if len(h[0]) == 3 {
			h = poly(h[0])
		}
		c.AddPolygon(h)
		sym.Assert(len(c) == n+1, "adding a polygon appends it")
		for i := range v {
			sym.Assert(len(c[i]) == 1 && sameList(c[i][0], v[i][0]), "adding a polygon keeps the polygons before it")
		}
		sym.Assert(len(c[len(c)-1]) == 1 && sameList(c[len(c)-1][0], h[0]), "adding a polygon appends it")
	case 4:
		c := make(geo.MultiPolygonZ, 0, spare)
		var v []geo.PolygonZ
		for i := 0; i <= n; i++ {
			h := geo.PolygonZ{{pz, {Z: float64(i)}}, {pz}}[:2-i%2]
			v = append(v, h)
			c.AddPolygonZ(h)
			sym.Assert(len(c) == i+1, "adding a polygon appends it")
			for j := range v {
				sym.Assert(len(c[j]) == len(v[j]), "adding a polygon keeps its rings")
				for k := range v[j] {
					sym.Assert(sameListZ(c[j][k], v[j][k]), "adding a polygon appends it")
				}
			}
		}
	case 5:
		c := make(geo.PolygonZ, 0, spare)
		var v []geo.LinearRingZ
		for i := 0; i <= n; i++ {
			h := geo.LinearRingZ{pz, {X: float64(i)}, {Y: float64(i)}, pz}[:4-i%4]
			v = append(v, h)
			c.AddInteriorRing(h)
			sym.Assert(len(c) == i+1, "adding a ring appends it")
			for j := range v {
				sym.Assert(sameListZ(c[j], v[j]), "adding a ring appends it")
			}
		}
	}
}
