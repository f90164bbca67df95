package props

import (
	"encoding/json"
	"reflect"

	"harness/sym"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
)

var types = []string{"Point", "Point", "MultiPoint", "MultiPoint", "LineString", "LineString", "MultiLineString", "MultiLineString", "Polygon", "Polygon", "MultiPolygon", "MultiPolygon"}

// tree is the coordinates member RFC 7946 prescribes for a geometry.
func tree(g geo.Geometry) interface{} {
	type list = []interface{}
	p2 := func(ps []geo.Point) (r list) {
		for _, p := range ps {
			r = append(r, list{p.X, p.Y})
		}
		return
	}
	p3 := func(ps []geo.PointZ) (r list) {
		for _, p := range ps {
			r = append(r, list{p.X, p.Y, p.Z})
		}
		return
	}
	switch v := g.(type) {
	case geo.Point:
		return list{v.X, v.Y}
	case geo.PointZ:
		return list{v.X, v.Y, v.Z}
	case geo.MultiPoint:
		return p2(v)
	case geo.MultiPointZ:
		return p3(v)
	case geo.LineString:
		return p2(v)
	case geo.LineStringZ:
		return p3(v)
	}
	var r list
	switch v := g.(type) {
	case geo.MultiLineString:
		for _, l := range v {
			r = append(r, p2(l))
		}
	case geo.MultiLineStringZ:
		for _, l := range v {
			r = append(r, p3(l))
		}
	case geo.Polygon:
		for _, l := range v {
			r = append(r, p2(l))
		}
	case geo.PolygonZ:
		for _, l := range v {
			r = append(r, p3(l))
		}
	case geo.MultiPolygon:
		for _, q := range v {
			r = append(r, tree(q))
		}
	case geo.MultiPolygonZ:
		for _, q := range v {
			r = append(r, tree(q))
		}
	}
	return r
}

// sameTree compares decoded JSON values, numbers bit for bit.
func sameTree(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && sym.SameF(x, y)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = sym.And(r, sameTree(x[i], y[i]))
		}
		return r
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for _, k := range []string{"a", "b", "c", "name", "type", "properties", "coordinates"} {
			p, in := x[k]
			q, on := y[k]
			if in != on {
				return false
			}
			r = sym.And(r, sameTree(p, q))
		}
		return r
	}
	return reflect.DeepEqual(a, b)
}

func jsonTrip(kind int, g geo.Geometry) {
	s, err := geojson.MarshalGeo(g)
	sym.Assert(err == nil, "every kind is encoded")
	var m map[string]interface{}
	sym.Assert(json.Unmarshal(s, &m) == nil, "the text is JSON")
	sym.Assert(len(m) == 2 && m["type"] == types[kind], "the RFC type name is written")
	sym.Assert(sameTree(m["coordinates"], tree(g)), "the coordinates are nested as the RFC prescribes")
	if kind > 1 && kind/2%2 == 1 || kind > 9 {
		return // decoding is not offered for these kinds
	}
	j := &geojson.GeoJson{}
	sym.Assert(json.Unmarshal(s, j) == nil, "the text is a GeoJSON object")
	r, err := geojson.UnmarshalGeo(j)
	sym.Assert(err == nil, "an encoded geometry can be decoded")
	identical(g, r, "round trip")
}

// Every kind with one to three parts and a free coordinate among fixed ones.
//
//sym:mode=fp time=60
func C08_Kinds() {
	kind := sym.Choose("kind", 12)
	k := 1
	if kind > 1 {
		k += sym.Choose("parts", sym.Bound("parts", 3, 4))
	}
	m := &mixed{free: 1, from: sym.Choose("from", 2)}
	m.near = sym.Choose("near", 2) == 1
	jsonTrip(kind, m.geometry(kind, k))
}

// Points and lines with free coordinates.
//
//sym:mode=fp time=60
func C08_Free() {
	kind := []int{0, 1, 2, 4}[sym.Choose("kind", 4)]
	m := &mixed{free: sym.Bound("free coordinates", 2, 4)}
	jsonTrip(kind, m.geometry(kind, 1+kind/2))
}

// anyJSON is an arbitrary JSON value; broken nesting, too few or too many numbers, other types.
func anyJSON(depth, width int) interface{} {
	k := 5
	if depth == 0 {
		k = 4
	}
	switch sym.Choose("value", k) {
	case 0:
		return sym.Any("n")
	case 1:
		return "1"
	case 2:
		return nil
	case 3:
		return map[string]interface{}{"a": 1.0}
	}
	return listJSON(sym.Choose("length", width+1), depth, width)
}

func listJSON(n, depth, width int) interface{} {
	r := []interface{}{}
	for i := 0; i < n; i++ {
		r = append(r, anyJSON(depth-1, width))
	}
	return r
}

// decodeTree decodes a geometry; if that succeeds its coordinates are exactly those of the tree.
func decodeTree(kind int, t interface{}) {
	g, err := geojson.UnmarshalGeo(&geojson.GeoJson{Type: types[kind], Coordinates: t})
	if err != nil {
		return
	}
	k, _, _ := flat(g)
	sym.Assert(k > 0 && types[k-1] == types[kind], "the geometry has the kind of the type member")
	u := tree(g)
	if l, ok := t.([]interface{}); ok && len(l) == 0 {
		sym.Assert(len(u.([]interface{})) == 0, "nothing comes from nothing")
		return
	}
	sym.Assert(sameOrEmpty(t, u), "every coordinate comes from its position in the input")
}

// sameOrEmpty is sameTree that also takes a missing list as an empty one.
func sameOrEmpty(a, b interface{}) bool {
	x, ok := a.([]interface{})
	y, on := b.([]interface{})
	if !ok || !on {
		return sameTree(a, b)
	}
	if len(x) != len(y) {
		return false
	}
	r := true
	for i := range x {
		r = sym.And(r, sameOrEmpty(x[i], y[i]))
	}
	return r
}

// Points from any value, and from a list nested once more.
//
//sym:mode=fp time=60
func C09_Point() {
	if sym.Bool("nested") {
		decodeTree(0, anyJSON(2, 2))
	} else {
		decodeTree(0, anyJSON(1, sym.Bound("list length", 5, 6)))
	}
}

// Lines from lists of up to three arbitrary positions.
//
//sym:mode=fp time=60
func C09_Line() {
	decodeTree(4, damaged(1))
}

// Polygons from lists of arbitrary rings.
//
//sym:mode=fp time=60
func C09_Polygon() {
	decodeTree(8, damaged(2))
}

// Kinds that are not supported are errors, and a missing member is one.
func C09_Others() {
	kind := []int{0, 2, 4, 6, 8, 10}[sym.Choose("kind", 6)]
	var t interface{}
	switch sym.Choose("value", 4) {
	case 1:
		t = "x"
	case 2:
		t = map[string]interface{}{}
	case 3:
		t = sym.Bool("b")
	}
	_, err := geojson.UnmarshalGeo(&geojson.GeoJson{Type: types[kind], Coordinates: t})
	sym.Assert(err != nil, "no coordinates is an error")
}

// damaged is a list of positions nested depth deep in which one value is arbitrary; the positions have
// two or three numbers each.
func damaged(depth int) interface{} {
	n := sym.Choose("parts", 4)
	dim := 2
	if depth > 1 && n > 1 {
		dim += sym.Choose("z", 2)
	}
	r := []interface{}{}
	bad := sym.Choose("damaged part", 4)
	for i := 0; i < n; i++ {
		switch {
		case i == bad && sym.Bool("arbitrary"):
			r = append(r, anyJSON(1, 3))
		case i == bad && depth > 1:
			r = append(r, damaged(depth-1))
		case depth > 1:
			l := []interface{}{position(dim), position(dim), position(dim), position(dim)}
			r = append(r, l[:1+3*(i%2)])
		default:
			r = append(r, position(2+sym.Choose("z", 2)))
		}
	}
	return r
}

func position(n int) interface{} {
	r := []interface{}{}
	for i := 0; i < n; i++ {
		r = append(r, sym.Any("c"))
	}
	return r
}

// anyProperty is a JSON value as a property can hold it.
func anyProperty(name string) interface{} {
	switch sym.Choose(name, 7) {
	case 0:
		return sym.Any(name)
	case 1:
		return sym.Bool(name)
	case 2:
		return "te\"xt \u00e9 <&>\n" + text(name, 1, "a\"\\<\n ")
	case 3:
		return nil
	case 4:
		return []interface{}{1.5, "x", nil, true, []interface{}{}}
	case 5:
		return map[string]interface{}{"a": -3.0, "b": map[string]interface{}{"c": "d"}}
	}
	return map[string]interface{}{}
}

func anyID(name string) interface{} {
	switch sym.Choose(name, 3) {
	case 0:
		return "id-" + text(name, 1, "a1\"")
	case 1:
		return sym.Any(name)
	}
	return nil
}

// sameFeature compares a feature with what reading its text gave.
func sameFeature(f, r *geojson.Feature, g geo.Geometry) {
	sym.Assert(r.Type == "Feature", "the type is Feature")
	sym.Assert(sameTree(f.ID, r.ID), "the ID is kept")
	sym.Assert(len(f.Properties) == len(r.Properties), "the number of properties is kept")
	ok := true
	for k, v := range f.Properties {
		w, in := r.Properties[k]
		ok = sym.And(ok, in, sameTree(v, w))
	}
	sym.Assert(ok, "the properties are kept")
	sym.Assert(len(f.BoundingBox) == len(r.BoundingBox), "the bounding box is kept")
	for i := range f.BoundingBox {
		sym.Assert(sym.SameF(f.BoundingBox[i], r.BoundingBox[i]), "the bounding box is kept")
	}
	sym.Assert(len(f.CRS) == len(r.CRS), "the CRS is kept")
	for k, v := range f.CRS {
		sym.Assert(sameTree(v, r.CRS[k]), "the CRS is kept")
	}
	sym.Assert(r.GeometryJson != nil, "the geometry is kept")
	sym.Assert(sameTree(r.GeometryJson.Coordinates, tree(g)), "the coordinates are kept")
	kind, _, _ := flat(g)
	sym.Assert(r.GeometryJson.Type == types[kind-1], "the geometry type is kept")
}

// aFeature is a feature with one free member.
func aFeature(m *mixed, what, kind int) (*geojson.Feature, geo.Geometry) {
	if what == 0 {
		m.free = m.at + 1
	}
	g := m.geometry(kind, 1+kind%2)
	f := geojson.NewFeature(g)
	switch what {
	case 1:
		f.ID = anyID("id")
	case 2:
		f.BoundingBox = []float64{-1, sym.Any("bbox"), 3, 4}
	case 3:
		f.Type = "wrong"
		f.SetProperty("k", anyProperty("property"))
		f.SetProperty("other", 7.25)
	case 4:
		f.CRS = map[string]interface{}{"type": "name", "properties": map[string]interface{}{"name": "EPSG:4326"}}
		f.Properties = nil
	case 5:
		f.ID = "all"
		f.BoundingBox = []float64{1, 2, 3, 4, 5, 6}
		f.SetProperty("", "empty key")
		f.CRS = map[string]interface{}{"a": 1.0}
	}
	return f, g
}

// A feature written and read.
//
//sym:mode=fp time=60
func C10_Feature() {
	f, g := aFeature(&mixed{}, sym.Choose("free member", 6), sym.Choose("kind", 12))
	s, err := json.Marshal(f)
	sym.Assert(err == nil, "a feature is encoded")
	r, err := geojson.UnmarshalFeature(s)
	sym.Assert(err == nil, "an encoded feature is decoded")
	sameFeature(f, r, g)
	s, err = f.MarshalJSON()
	sym.Assert(err == nil, "a feature is encoded")
	r, err = geojson.UnmarshalFeature(s)
	sym.Assert(err == nil, "an encoded feature is decoded")
	sameFeature(f, r, g)
}

// A collection written and read.
//
//sym:mode=fp time=60
func C10_Collection() {
	n := sym.Choose("features", 4)
	what := sym.Choose("free member", 6)
	m := &mixed{}
	var gs []geo.Geometry
	fc := geojson.NewFeatureCollection()
	for i := 0; i < n; i++ {
		w := what
		if i != n-1 {
			w = (what + i + 1) % 6
			if w < 4 {
				w = 4
			}
		}
		f, g := aFeature(m, w, (what*5+n+i)%12)
		fc.AddFeature(f)
		gs = append(gs, g)
	}
	switch sym.Choose("extra", 5) {
	case 1:
		fc.BoundingBox = []float64{1, 2, sym.Any("bbox"), 4}
	case 4:
		fc.BoundingBox = []float64{1, 2, 3, 4, sym.Any("bbox"), 6}
		fc.CRS = map[string]interface{}{"name": "x", "properties": map[string]interface{}{"y": []interface{}{1.0}}}
	case 2:
		fc.CRS = map[string]interface{}{"name": "x"}
		fc.Type = ""
	case 3:
		if n == 0 {
			fc.Features = nil
		}
	}
	s, err := json.Marshal(fc)
	sym.Assert(err == nil, "a collection is encoded")
	var m2 map[string]interface{}
	sym.Assert(json.Unmarshal(s, &m2) == nil && m2["type"] == "FeatureCollection", "the type is FeatureCollection")
	l, ok := m2["features"].([]interface{})
	sym.Assert(ok && len(l) == n, "features is a list")
	r, err := geojson.UnmarshalFeatureCollection(s)
	sym.Assert(err == nil, "an encoded collection is decoded")
	sym.Assert(len(r.Features) == n && r.Type == "FeatureCollection", "the features are kept")
	for i := range r.Features {
		sameFeature(fc.Features[i], r.Features[i], gs[i])
	}
	sym.Assert(len(r.BoundingBox) == len(fc.BoundingBox) && len(r.CRS) == len(fc.CRS), "the members are kept")
	for i := range r.BoundingBox {
		sym.Assert(sym.SameF(fc.BoundingBox[i], r.BoundingBox[i]), "the bounding box is kept")
	}
	for k, v := range fc.CRS {
		sym.Assert(sameTree(v, r.CRS[k]), "the CRS is kept")
	}
}

// The bounding box of a feature is the one of its geometry.
//
//sym:mode=fp time=60
func C10_BoundingBox() {
	m := &mixed{free: 8}
	g := m.geometry([]int{0, 2, 4, 6, 8, 10}[sym.Choose("kind", 6)], 2)
	f := geojson.NewFeature(geo.Point{X: 1, Y: 2})
	f.Geometry = g
	f.SetBoundingBox()
	b := geo.BoundingBox(g)
	sym.Assert(len(f.BoundingBox) == 4, "the box is stored")
	sym.Assert(sym.And(f.BoundingBox[0] == b.MinX, f.BoundingBox[1] == b.MinY, f.BoundingBox[2] == b.MaxX, f.BoundingBox[3] == b.MaxY), "the box of the geometry is stored")
}

// Typed accessors of properties.
//
//sym:mode=fp time=60
func C10_Accessors() {
	f := &geojson.Feature{}
	b, i, x, s := sym.Bool("bool"), sym.Int("int", -1<<62, 1<<62), sym.Real("float", -1<<53, 1<<53), text("string", 2, "ab")
	var v interface{}
	kind := sym.Choose("stored", 6)
	switch kind {
	case 0:
		v = b
	case 1:
		v = i
	case 2:
		v = x
	case 3:
		v = s
	case 4:
		v = []interface{}{b}
	}
	if sym.Bool("map exists") {
		f.Properties = map[string]interface{}{"other": true}
	}
	if kind < 5 {
		f.SetProperty("k", v)
	}
	gb, eb := f.PropertyBool("k")
	sym.Assert((eb == nil) == (kind == 0) && gb == sym.And(kind == 0, b), "a boolean or an error")
	gi, ei := f.PropertyInt("k")
	wi := 0
	if kind == 1 {
		wi = i
	} else if kind == 2 {
		wi = int(x)
	}
	sym.Assert((ei == nil) == (kind == 1 || kind == 2) && gi == wi, "an integer or an error")
	gx, ex := f.PropertyFloat64("k")
	wx := 0.0
	if kind == 2 {
		wx = x
	}
	sym.Assert((ex == nil) == (kind == 2) && gx == wx, "a number or an error")
	gs, es := f.PropertyString("k")
	ws := ""
	if kind == 3 {
		ws = s
	}
	sym.Assert((es == nil) == (kind == 3) && gs == ws, "a text or an error")
	db, di, dx := sym.Bool("bool default"), sym.Int("int default", -1000, 1000), sym.Real("float default", -1e6, 1e6)
	sym.Assert(f.PropertyMustBool("k", db) == sym.IteB(kind == 0, b, db), "the boolean or the default")
	sym.Assert(f.PropertyMustInt("k", di) == sym.IteI(kind == 1 || kind == 2, wi, di), "the integer or the default")
	sym.Assert(f.PropertyMustFloat64("k", dx) == sym.IteF(kind == 2, x, dx), "the number or the default")
	if kind != 3 {
		ws = "default"
	}
	sym.Assert(f.PropertyMustString("k", "default") == ws, "the text or the default")
	sym.Assert(f.PropertyMustBool("k") == gb && f.PropertyMustInt("k") == gi && f.PropertyMustFloat64("k") == gx && f.PropertyMustString("k") == gs, "without a default the zero value")
}
