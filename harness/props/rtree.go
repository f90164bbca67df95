package props

import (
	"fmt"
	"math"

	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// index is an R-tree next to the list of what it should hold.
type index struct {
	tree *geo.Rtree
	all  []geo.Spatial // Properties is the position in this list
	in   []bool
}

// span is an object covering [x,x+w] x [0,1] with grid coordinates.
func span(m float64, id string, n int) geo.Spatial {
	x := sym.F("x", -m, m, 0)
	w := sym.F("w", 0, m, 0)
	return geo.Spatial{ID: id, Properties: n, Geom: geo.LineString{{X: x, Y: 0}, {X: x + w, Y: 1}}}
}

func spans(n int, m float64) []geo.Spatial {
	r := make([]geo.Spatial, 0, n)
	for i := 0; i < n; i++ {
		r = append(r, span(m, fmt.Sprintf("id%d", i), i))
	}
	return r
}

// fixed is an object covering [x,x+w] x [0,1].
func fixed(x, w float64, n int) geo.Spatial {
	return geo.Spatial{ID: fmt.Sprintf("id%d", n), Properties: n, Geom: geo.LineString{{X: x, Y: 0}, {X: x + w, Y: 1}}}
}

// one is a point object.
func one(x, y float64, n int) geo.Spatial {
	return geo.Spatial{ID: fmt.Sprintf("id%d", n), Properties: n, Geom: geo.Point{X: x, Y: y}}
}

// build is a tree of the first k objects.
func build(min, max, k int, all []geo.Spatial) *index {
	x := &index{tree: geo.NewMinMaxTree(min, max, all[:k]...), all: all, in: make([]bool, len(all))}
	for i := 0; i < k; i++ {
		x.in[i] = true
	}
	return x
}

func (x *index) insert(i int) {
	x.tree.Insert(x.all[i])
	x.in[i] = true
}

func (x *index) remove(i int) {
	ok := x.tree.Delete(x.all[i])
	sym.Assert(ok == x.in[i], "deleting reports whether the object was there")
	x.in[i] = false
}

func (x *index) size() int {
	n := 0
	for _, b := range x.in {
		if b {
			n++
		}
	}
	return n
}

func hits(a, b *geo.Box) bool {
	return sym.And(a.MinX <= b.MaxX, b.MinX <= a.MaxX, a.MinY <= b.MaxY, b.MinY <= a.MaxY)
}

// search compares a box query with the list.
func (x *index) search(q *geo.Box) {
	got := make([]int, len(x.all))
	x.tree.SearchIntersectWithCond(q, func(o ...geo.Spatial) bool {
		got[o[0].Properties.(int)]++
		return false
	})
	for i, o := range x.all {
		if !x.in[i] {
			sym.Assert(got[i] == 0, "a removed object is not found")
			continue
		}
		sym.Assert(got[i] == sym.IteI(hits(geo.BoundingBox(o.Geom), q), 1, 0), "an object is found once exactly when its box meets the query box")
	}
}

// list compares the results of an unfiltered and a filtered query with the list; the box decides nothing here.
func (x *index) list(q *geo.Box) {
	all := x.tree.SearchIntersect(q)
	even := x.tree.SearchIntersectWithCond(q, func(o ...geo.Spatial) bool { return o[0].Properties.(int)%2 == 0 })
	a, e := make([]int, len(x.all)), make([]int, len(x.all))
	for _, o := range all {
		a[o.Properties.(int)]++
	}
	for _, o := range even {
		e[o.Properties.(int)]++
	}
	for i, o := range x.all {
		h := x.in[i] && hits(geo.BoundingBox(o.Geom), q)
		sym.Assert(a[i] == sym.IteI(h, 1, 0), "an unfiltered query returns the matching objects once")
		sym.Assert(e[i] == sym.IteI(h && i%2 == 0, 1, 0), "a filtered query returns those that pass the filter")
	}
}

func (x *index) book() {
	sym.Assert(x.tree.Size() == x.size(), "size is the number of stored objects")
}

func query(m float64) *geo.Box {
	a := sym.F("qx", -m, m, 0)
	w := sym.F("qw", 0, m, 0)
	b := sym.F("qy", -2, 2, 0)
	h := sym.F("qh", 0, 2, 0)
	return &geo.Box{MinX: a, MinY: b, MaxX: a + w, MaxY: b + h}
}

// Objects inserted one by one in a tree of the smallest capacity.
//
//sym:time=40
func C01_Insert() {
	n := sym.Bound("objects", 4, 5)
	all := spans(n, 15)
	all[0] = fixed(0, 4, 0)
	if sym.Bound("free objects", 2, 3) == 2 {
		all[2] = fixed(-3, 9, 2)
	}
	x := build(1, 2, 0, all)
	for i := range all {
		x.insert(i)
	}
	x.book()
	x.search(query(40))
}

// Bulk-loaded ordered points with one more insertion.
//
//sym:time=40
func C01_Bulk() {
	n := 3 + sym.Choose("n", sym.Bound("bulk", 4, 6))
	var all []geo.Spatial
	last := -40.0
	for i := 0; i < n; i++ {
		v := sym.F("x", -40, 40, 0)
		sym.Assume(v > last)
		last = v
		all = append(all, one(v, 0, i))
	}
	all = append(all, one(sym.F("x", -40, 40, 0), 0, n))
	x := build(1, 2, n, all)
	x.insert(n)
	x.book()
	x.search(query(80))
}

// cloud is n fixed objects: points, overlapping and equal boxes.
func cloud(n int) []geo.Spatial {
	r := make([]geo.Spatial, 0, n)
	for i := 0; i < n; i++ {
		x, y := float64(i*7%11), float64(i*5%13)
		switch i % 4 {
		case 0:
			r = append(r, geo.Spatial{ID: fmt.Sprintf("id%d", i), Properties: i, Geom: geo.Point{X: x, Y: y}})
		case 1:
			r = append(r, geo.Spatial{ID: fmt.Sprintf("id%d", i), Properties: i, Geom: geo.LineString{{X: x, Y: y}, {X: x - 3, Y: y + 2}}})
		case 2:
			r = append(r, geo.Spatial{ID: fmt.Sprintf("id%d", i), Properties: i, Geom: geo.MultiPoint{{X: x, Y: y}, {X: x + 6, Y: y - 1}, {X: x, Y: y + 5}}})
		default:
			r = append(r, geo.Spatial{ID: fmt.Sprintf("id%d", i), Properties: i, Geom: *geo.NewPolygon(geo.LinearRing{{X: 2, Y: 2}, {X: 5, Y: 2}, {X: 2, Y: 6}})})
		}
	}
	return r
}

// Trees of several shapes over fixed objects, some deleted again: every query box.
//
//sym:time=40
func C01_Shapes() {
	caps := [][2]int{{1, 2}, {1, 3}, {2, 4}, {2, 5}, {3, 8}}
	c := caps[sym.Choose("capacity", len(caps))]
	n := 9 + 4*sym.Choose("n", sym.Bound("sizes", 2, 4))
	all := cloud(n)
	bulk := sym.Choose("bulk", 3)
	x := build(c[0], c[1], n*bulk/2, all)
	for i := range all {
		if !x.in[i] {
			x.insert(i)
		}
	}
	step := 1 + sym.Choose("gone", 4)
	for i := 0; i < n && step > 1; i += step {
		x.remove(i)
	}
	x.book()
	q := &geo.Box{MinX: sym.F("qx", -15, 25, 0), MinY: sym.F("qy", -15, 25, 0), MaxX: 0, MaxY: 0}
	q.MaxX, q.MaxY = q.MinX+sym.F("qw", 0, 40, 0), q.MinY+sym.F("qh", 0, 40, 0)
	x.search(q)
}

// A free object put into a tree of several levels: it and all others are found.
//
//sym:time=40
func C01_Deep() {
	caps := [][2]int{{1, 3}, {2, 4}, {1, 2}, {2, 5}}
	c := caps[sym.Choose("capacity", sym.Bound("capacities", 2, len(caps)))]
	n := []int{11, 20, 30, 45}[sym.Choose("n", sym.Bound("sizes", 3, 4))]
	var all []geo.Spatial
	step := []int{1, 7, 13}[sym.Choose("order", 3)]
	for i := 0; i < n; i++ {
		k := i * step % 46
		all = append(all, one(float64(k*17%47), float64(k*29%43), i))
	}
	p := geo.Point{X: sym.F("x", -15, 60, 0), Y: []float64{-10, 20, 50}[sym.Choose("y", 3)]}
	all = append(all, geo.Spatial{ID: "free", Properties: n, Geom: p})
	x := build(c[0], c[1], 0, all)
	for i := range all {
		x.insert(i)
	}
	x.book()
	x.search(&geo.Box{MinX: p.X, MinY: p.Y, MaxX: p.X, MaxY: p.Y})
}

// The default capacities, and plain lists of results.
//
//sym:time=40
func C01_Results() {
	n := []int{4, 12}[sym.Choose("n", 2)]
	all := cloud(n)
	x := &index{tree: geo.NewTree(all...), all: all, in: make([]bool, n)}
	for i := range all {
		x.in[i] = true
	}
	if sym.Choose("gone", 2) == 1 {
		x.remove(1)
	}
	x.list(&geo.Box{MinX: 3, MinY: sym.F("qy", -3, 15, 0), MaxX: sym.F("qx", 3, 20, 0), MaxY: 20})
}

// Every sequence of insertions and deletions of four objects.
//
//sym:time=40
func C02_History() {
	n := 5
	all := cloud(n)
	x := build(1, 2, 3, all)
	for k := sym.Bound("steps", 4, 6); k > 0; k-- {
		i := sym.Choose("object", n)
		if x.in[i] {
			x.remove(i)
		} else {
			x.insert(i)
		}
		x.book()
	}
	x.search(&geo.Box{MinX: sym.F("qx", -15, 25, 0), MinY: 2, MaxX: 40, MaxY: sym.F("qy", 2, 25, 0)})
	for _, o := range all {
		f := x.tree.SearchBySpatialID(o.ID)
		i := o.Properties.(int)
		if x.in[i] {
			sym.Assert(len(f) == 1 && f[0].Properties.(int) == i, "a lookup finds the object with the ID")
		} else {
			sym.Assert(len(f) == 0, "a lookup finds nothing else")
		}
	}
}

// Objects of every kind can be deleted, and what is not stored is not.
func C02_Kinds() {
	a, b, c, d := gp(9, 0), gp(9, 0), gp(9, 0), gp(9, 0)
	kinds := []geo.Geometry{a, geo.MultiPoint{a, b}, geo.LineString{a, b}, geo.MultiLineString{{a, b}, {c}}, *geo.NewPolygon(ring([]geo.Point{a, b, c})), geo.MultiPolygon{*geo.NewPolygon(ring([]geo.Point{a, b, c}))}}
	k := sym.Choose("kind", len(kinds))
	x := build(1, 2, 0, []geo.Spatial{{ID: "a", Properties: 0, Geom: kinds[k]}, {ID: "b", Properties: 1, Geom: kinds[k]}, {ID: "c", Properties: 2, Geom: d}})
	x.insert(0)
	x.remove(1)
	x.insert(1)
	x.insert(2)
	i := sym.Choose("gone", 3)
	x.remove(i)
	x.remove(i)
	x.book()
	x.search(query(20))
}

// Every order of deleting all of a tree and filling it again.
//
//sym:time=40
func C02_Empty() {
	n := 3 + sym.Choose("n", sym.Bound("objects", 3, 4))
	var all []geo.Spatial
	for i := 0; i < n; i++ {
		all = append(all, one(float64(10*i), 0, i))
	}
	bulk := sym.Choose("bulk", 2)
	x := build(1, 2, n*bulk, all)
	if bulk == 0 {
		for i := range all {
			x.insert(i)
		}
	}
	for k := n; k > 0; k-- {
		i := sym.Choose("next", k)
		for j := range all {
			if x.in[j] {
				if i == 0 {
					x.remove(j)
					break
				}
				i--
			}
		}
		x.book()
	}
	q := query(80)
	x.search(q)
	sym.Assert(len(x.tree.NearestNeighbors(2, gp(9, 0))) == 0, "an empty tree has no neighbours")
	x.insert(0)
	x.insert(n - 1)
	x.book()
	x.search(q)
}

// Deleting from symbolic objects.
//
//sym:time=40
func C02_Delete() {
	all := spans(4, 15)
	all[0], all[1] = fixed(0, 4, 0), fixed(3, 5, 1)
	x := build(1, 2, 0, all)
	for i := range all {
		x.insert(i)
	}
	x.remove(3 - sym.Choose("gone", sym.Bound("deleted object", 2, 4)))
	x.book()
	x.search(query(20))
}

// Every capacity, deletions in many orders down to nothing, with all that is left checked on the way.
//
//sym:time=40
func C02_Capacities() {
	caps := [][2]int{{2, 3}, {2, 4}, {2, 5}, {3, 5}, {3, 7}, {1, 3}}
	c := caps[sym.Choose("capacity", sym.Bound("capacities", 4, len(caps)))]
	n := 13
	all := cloud(n)
	bulk := sym.Choose("bulk", 2)
	x := build(c[0], c[1], n*bulk, all)
	for i := range all {
		if !x.in[i] {
			x.insert(i)
		}
	}
	step, from := []int{1, 5, 8, 12}[sym.Choose("order", 4)], sym.Choose("first", 3)*4
	qx, qy := sym.F("qx", -15, 25, 0), sym.F("qy", 2, 25, 0)
	for k := 0; k < n; k++ {
		x.remove((from + k*step) % n)
		x.book()
		if k%2 == 0 {
			x.search(&geo.Box{MinX: qx, MinY: 2, MaxX: 40, MaxY: qy})
		}
		for i, o := range all {
			f := x.tree.SearchBySpatialID(o.ID)
			sym.Assert(x.in[i] == (len(f) == 1), "a lookup finds what is stored")
		}
	}
}

// Deleting and replacing by ID when several objects share one.
//
//sym:time=40
func C02_ByID() {
	n := sym.Bound("objects", 4, 5)
	id := []string{"x", ""}[sym.Choose("id", 2)]
	at := [][2]float64{{0, 10}, {2, 4}, {9, 3}, {5, 1}, {-2, 5}}
	free := 1 + sym.Choose("free", sym.Bound("free objects", 1, n-1))
	var all []geo.Spatial
	for i := 0; i < n; i++ {
		o := fixed(at[i][0], at[i][1], i)
		if i == free && id != "" {
			o = span(15, "", i)
		}
		o.ID = "other"
		if sym.Choose("same", 2) == 1 {
			o.ID = id
		}
		all = append(all, o)
	}
	up := fixed(-1, 4, n)
	if id != "" {
		up = span(7, id, n)
	}
	up.ID = id
	all = append(all, up)
	x := build(1, 2, 0, all)
	has := false
	for i := 0; i < n; i++ {
		x.insert(i)
		has = has || all[i].ID == id
	}
	op := sym.Choose("op", 2)
	if op == 0 {
		sym.Assert(x.tree.DeleteBySpatialID(id) == has, "deleting by ID reports whether there was such an object")
	} else {
		x.tree.UpsertBySpatialID(up)
	}
	for i := 0; i < n; i++ {
		x.in[i] = all[i].ID != id
	}
	x.in[n] = op == 1
	x.book()
	x.search(query(20))
	found := x.tree.SearchBySpatialID(id)
	sym.Assert(len(found) == op, "a lookup finds exactly the objects with the ID")
	for _, o := range found {
		sym.Assert(o.Properties.(int) == n, "a lookup returns the object with the ID")
	}
}

// Replacing several objects by one call: they act one after the other.
//
//sym:time=40
func C02_Batch() {
	n := 4
	all := cloud(n)
	t := geo.NewMinMaxTree(1, 2+sym.Choose("capacity", 2))
	ids := []string{"a", "b", "c"}
	for i := range all {
		all[i].ID = ids[i%2]
		if i < 3 {
			t.Insert(all[i])
		}
	}
	k := 1 + sym.Choose("batch", sym.Bound("batch", 3, 4))
	var batch []geo.Spatial
	last := map[string]int{}
	for i := 0; i < k; i++ {
		o := geo.Spatial{ID: ids[sym.Choose("id", 3)], Properties: 10 + i, Geom: gp(9, 0)}
		batch = append(batch, o)
		last[o.ID] = 10 + i
	}
	t.UpsertBySpatialID(batch...)
	size := 0
	for _, id := range ids {
		r := t.SearchBySpatialID(id)
		size += len(r)
		if v, ok := last[id]; ok {
			sym.Assert(len(r) == 1 && r[0].Properties.(int) == v, "upserting leaves exactly one object with the ID, the last one")
		} else {
			sym.Assert(len(r) == map[string]int{"a": 2, "b": 1}[id], "upserting keeps objects with other IDs")
		}
	}
	sym.Assert(t.Size() == size, "size is the number of stored objects")
}

// nearest compares a neighbour query with the list of stored objects.
func (x *index) nearest(k int, p geo.Point) {
	r := x.tree.NearestNeighbors(k, p)
	want := x.size()
	if k < want {
		want = k
	}
	sym.Assert(len(r) == want, "k or all objects are returned")
	got := make([]bool, len(x.all))
	last := 0.0
	for _, o := range r {
		i := o.Properties.(int)
		sym.Assert(x.in[i], "only stored objects are returned")
		sym.Assert(sym.Not(got[i]), "an object is returned once")
		got[i] = true
		d := boxDist(p, geo.BoundingBox(o.Geom))
		sym.Assert(d >= last, "ordered by distance")
		last = d
	}
	for i, o := range x.all {
		if x.in[i] && !got[i] && len(r) > 0 {
			sym.Assert(boxDist(p, geo.BoundingBox(o.Geom)) >= last, "no object left out is closer")
		}
	}
}

// boxDist is the squared distance of a point to a box.
func boxDist(p geo.Point, b *geo.Box) float64 {
	dx := sym.IteF(p.X < b.MinX, b.MinX-p.X, sym.IteF(p.X > b.MaxX, p.X-b.MaxX, 0))
	dy := sym.IteF(p.Y < b.MinY, b.MinY-p.Y, sym.IteF(p.Y > b.MaxY, p.Y-b.MaxY, 0))
	return dx*dx + dy*dy
}

// A free query point and a fixed tree of several levels.
//
//sym:time=40 merge=off
func C03_Point() {
	var all []geo.Spatial
	at := [][2]float64{{0, 0}, {6, 1}, {2, 7}, {8, 8}, {4, 3}, {-3, 5}, {-5, -4}}
	n := sym.Bound("objects", 5, 7)
	for i := 0; i < n; i++ {
		all = append(all, one(at[i][0], at[i][1], i))
	}
	bulk := sym.Choose("bulk", 2)
	x := build(1, 2, n*bulk, all)
	if bulk == 0 {
		for i := range all {
			x.insert(i)
		}
	}
	x.nearest(sym.Choose("k", n+2), gp(12, 0))
}

// Objects of symbolic extent along a line.
//
//sym:time=40 merge=off
func C03_Objects() {
	all := spans(4, 15)
	all[0], all[1] = fixed(-6, 4, 0), fixed(3, 5, 1)
	if sym.Bound("free objects", 1, 2) == 1 {
		all[2] = fixed(-2, 1, 2)
	}
	x := build(1, 2, 0, all)
	for i := range all {
		x.insert(i)
	}
	x.nearest(1+sym.Choose("k", 3), geo.Point{X: 0, Y: float64(sym.Choose("py", 2))})
}

// Objects far apart and empty geometries: the size of a box may overflow.
//
//sym:mode=ord time=40
func C02_Far() {
	s := []float64{1e150, 1e160, 1e308}[sym.Choose("scale", 3)]
	p := []geo.Point{{X: -1, Y: -s}, {X: s, Y: 7}, {X: s / 2, Y: s / 3}}[sym.Choose("p", 3)]
	all := []geo.Spatial{one(s, -s, 0), {ID: "id1", Properties: 1, Geom: geo.MultiPoint{}}, one(-s, s, 2), one(p.X, p.Y, 3),
		{ID: "id4", Properties: 4, Geom: geo.LineString{}}, one(0, s, 5), one(3, 4, 6)}
	x := build(1, 2, 0, all)
	step, from := 1+sym.Choose("order", sym.Bound("orders", 3, 6)), sym.Choose("first", 7)
	for k := range all {
		x.insert((from + k*step) % len(all))
	}
	x.book()
	x.search(&geo.Box{MinX: sym.Any("qx"), MinY: sym.Any("qy"), MaxX: math.MaxFloat64, MaxY: math.MaxFloat64})
	for _, o := range all {
		sym.Assert(len(x.tree.SearchBySpatialID(o.ID)) == 1, "a lookup finds what is stored")
	}
	for i := range all {
		x.tree.UpsertBySpatialID(all[i])
		x.book()
	}
	sym.Assert(len(x.tree.NearestNeighbors(len(all), p)) == len(all), "all are neighbours")
	for i := range all {
		x.remove(i)
		x.book()
	}
}

// Only empty geometries.
func C02_Hollow() {
	t := geo.NewTree()
	n := 26 + sym.Choose("n", 30)
	for i := 0; i < n; i++ {
		t.Insert(geo.Spatial{ID: fmt.Sprint(i), Properties: i, Geom: geo.MultiPoint{}})
	}
	sym.Assert(t.Size() == n, "size is the number of stored objects")
}

// The constructors that choose capacities and IDs themselves.
//
//sym:time=40
func C01_Default() {
	n := sym.Choose("n", sym.Bound("sizes", 14, 30))
	all := cloud(n + 2)
	p := geo.Point{X: sym.F("x", -15, 25, 0), Y: 5}
	all[n].Geom = p
	var t *geo.Rtree
	if sym.Choose("ids", 2) == 0 {
		t = geo.NewTreeWith(all[:n]...)
		t.Insert(all[n])
		t.Insert(all[n+1])
	} else {
		var g []geo.Geometry
		for _, o := range all[:n] {
			g = append(g, o.Geom)
		}
		t = geo.NewRandomIDTree(g...)
		t.InsertWithRandomId(all[n].Geom)
		t.InsertWithRandomId(all[n+1].Geom)
	}
	sym.Assert(t.Size() == n+2, "size is the number of stored objects")
	q := &geo.Box{MinX: p.X, MinY: 2, MaxX: p.X + 3, MaxY: 7}
	found := t.SearchIntersect(q)
	want := 0
	for _, o := range all {
		want += sym.IteI(hits(geo.BoundingBox(o.Geom), q), 1, 0)
	}
	sym.Assert(len(found) == want, "a query returns as many objects as match")
	for _, o := range found {
		sym.Assert(hits(geo.BoundingBox(o.Geom), q), "a query returns only what matches")
	}
}

// level is the boxes of a tree over objects: each the least around those inside it, and every object in one per level.
func level(t *geo.Rtree, max int, all []geo.Spatial) {
	boxes := t.GetAllBoundingBoxes()
	n := len(all)
	sym.Assert(t.Size() == n, "size is the number of stored objects")
	sym.Assert((t.Depth() == 1) == (len(boxes) == 0), "a tree of one level has no boxes")
	sym.Assert(t.Depth() >= 1 && (n <= max || t.Depth() > 1), "a node holds no more than its capacity")
	sym.Assert(n == 0 || len(boxes) <= n*(t.Depth()-1), "no box is empty")
	bb := make([]*geo.Box, n)
	in := make([]int, n)
	for i, o := range all {
		bb[i] = geo.BoundingBox(o.Geom)
	}
	for _, b := range boxes {
		var west, south, east, north bool
		for i := range bb {
			k := sym.And(b.MinX <= bb[i].MinX, b.MinY <= bb[i].MinY, bb[i].MaxX <= b.MaxX, bb[i].MaxY <= b.MaxY)
			in[i] += sym.IteI(k, 1, 0)
			west = sym.Or(west, sym.And(k, bb[i].MinX == b.MinX))
			south = sym.Or(south, sym.And(k, bb[i].MinY == b.MinY))
			east = sym.Or(east, sym.And(k, bb[i].MaxX == b.MaxX))
			north = sym.Or(north, sym.And(k, bb[i].MaxY == b.MaxY))
		}
		sym.Assert(sym.And(west, south, east, north), "a box is the least around objects inside it")
	}
	for i := range all {
		sym.Assert(in[i] >= t.Depth()-1, "an object lies in a box of every level")
	}
	reach := 1
	for k := 0; k < t.Depth(); k++ {
		reach *= max
	}
	sym.Assert(n <= reach, "the depth is enough for the number of objects")
}

// One free object among fixed ones, put in at any time, others deleted.
//
//sym:time=40
func C39_Insert() {
	caps := [][2]int{{1, 2}, {1, 3}, {2, 4}, {2, 5}, {3, 8}}
	c := caps[sym.Choose("capacity", len(caps))]
	n := []int{3, 7, 12, 16}[sym.Choose("n", sym.Bound("sizes", 3, 4))]
	all := cloud(n)
	free := sym.Choose("free", 3) * (n - 1) / 2
	all[free].Geom = geo.Point{X: sym.F("x", -15, 25, 0), Y: []float64{-7, 4}[sym.Choose("y", 2)]}
	t := geo.NewMinMaxTree(c[0], c[1])
	for _, o := range all {
		t.Insert(o)
	}
	level(t, c[1], all)
	least := 2 // a root of two nodes, the others at least filled to the minimum
	for k := t.Depth(); k > 1; k-- {
		least *= c[0]
	}
	sym.Assert(t.Depth() == 1 || n >= least, "the tree is no deeper than its least filling allows")
	for _, b := range t.GetAllBoundingBoxes() {
		in := 0
		for _, o := range all {
			q := geo.BoundingBox(o.Geom)
			in += sym.IteI(sym.And(b.MinX <= q.MinX, b.MinY <= q.MinY, q.MaxX <= b.MaxX, q.MaxY <= b.MaxY), 1, 0)
		}
		sym.Assert(in >= c[0], "a node holds its least filling")
	}
	step := 2 + sym.Choose("gone", 2)
	var left []geo.Spatial
	for i, o := range all {
		if i%step == 0 && i != free {
			sym.Assert(t.Delete(o), "a stored object can be deleted")
		} else {
			left = append(left, o)
		}
	}
	level(t, c[1], left)
}

// Bulk loading, then deletion down to nothing.
//
//sym:time=40
func C39_Bulk() {
	caps := [][2]int{{1, 2}, {1, 3}, {2, 4}, {2, 5}}
	c := caps[sym.Choose("capacity", len(caps))]
	n := 3 + sym.Choose("n", sym.Bound("sizes", 15, 50))
	all := cloud(n)
	all[n/2].Geom = geo.Point{X: sym.F("x", -15, 25, 0), Y: 4}
	t := geo.NewMinMaxTree(c[0], c[1], all...)
	level(t, c[1], all)
	most := 1
	for k := t.Depth(); k > 2; k-- {
		most *= c[1]
	}
	sym.Assert(n > most, "a bulk-loaded tree is no deeper than needed")
	for k := 0; len(all) > 0; k++ {
		i := (k * 5) % len(all)
		sym.Assert(t.Delete(all[i]), "a stored object can be deleted")
		all = append(append([]geo.Spatial{}, all[:i]...), all[i+1:]...)
		level(t, c[1], all)
	}
}

// view is what can be seen of a tree without a query point or box: its counts, its boxes and every object under its ID.
type view struct {
	size, depth int
	boxes       []geo.Box
	byID        [][]geo.Spatial
}

func look(t *geo.Rtree, ids int) view {
	v := view{size: t.Size(), depth: t.Depth()}
	for _, b := range t.GetAllBoundingBoxes() {
		v.boxes = append(v.boxes, *b)
	}
	for i := 0; i < ids; i++ {
		v.byID = append(v.byID, t.SearchBySpatialID(fmt.Sprintf("id%d", i)))
	}
	return v
}

func sameBox(a, b geo.Box) bool {
	return sym.And(a.MinX == b.MinX, a.MinY == b.MinY, a.MaxX == b.MaxX, a.MaxY == b.MaxY)
}

func sameView(a, b view, what string) {
	sym.Assert(a.size == b.size, what+" keeps the size")
	sym.Assert(a.depth == b.depth, what+" keeps the depth")
	sym.Assert(len(a.boxes) == len(b.boxes), what+" keeps the boxes")
	for _, x := range a.boxes {
		n := 0
		for _, y := range a.boxes {
			n += sym.IteI(sameBox(x, y), 1, 0)
		}
		for _, y := range b.boxes {
			n -= sym.IteI(sameBox(x, y), 1, 0)
		}
		sym.Assert(n == 0, what+" keeps the boxes")
	}
	for i := range a.byID {
		sameFound(a.byID[i], b.byID[i], what+" keeps the objects")
	}
}

// sameFound: the same objects, and none twice.
func sameFound(a, b []geo.Spatial, what string) {
	sym.Assert(len(a) == len(b), what)
	n := map[int]int{}
	for _, o := range a {
		n[o.Properties.(int)]++
	}
	for _, o := range b {
		n[o.Properties.(int)]--
		sym.Assert(n[o.Properties.(int)] == 0, what)
	}
}

// spread is n different points.
func spread(n int) []geo.Spatial {
	var r []geo.Spatial
	for i := 0; i < n; i++ {
		r = append(r, one(float64(i*7%11), float64(i*5%13), i))
	}
	return r
}

func grown(all []geo.Spatial) (*geo.Rtree, int) {
	c := [][2]int{{1, 2}, {1, 3}, {2, 4}, {2, 6}}[sym.Choose("capacity", 4)]
	var t *geo.Rtree
	switch sym.Choose("built", 3) {
	case 0:
		t = geo.NewMinMaxTree(c[0], c[1], all...)
	case 1:
		t = geo.NewMinMaxTree(c[0], c[1])
		for _, o := range all {
			t.Insert(o)
		}
	case 2:
		h := len(all) / 2
		t = geo.NewMinMaxTree(c[0], c[1], all[:h]...)
		t.InsertWithRandomId(geo.Point{X: 3, Y: 3})
		for _, o := range all[h:] {
			t.Insert(o)
		}
		t.DeleteWithComparator(geo.Spatial{Geom: geo.Point{X: 3, Y: 3}}, func(o ...geo.Spatial) bool { return o[0].Properties == nil })
	}
	return t, c[1]
}

// Queries of every kind leave the tree as it is, answer again as before, and their results belong to the caller.
//
//sym:time=40 merge=off
func C41_Queries() {
	n := []int{4, 8, 15}[sym.Choose("n", sym.Bound("sizes", 2, 3))]
	all := spread(n)
	t, _ := grown(all)
	before := look(t, n)
	p := gp(12, 0)
	q := &geo.Box{MinX: p.X - 3, MinY: p.Y - 4, MaxX: p.X + 3, MaxY: p.Y + 4}
	q0, k := *q, 1+sym.Choose("k", 3)
	kind := sym.Choose("query", 3)
	ask := func() []geo.Spatial {
		switch kind {
		case 0:
			return t.SearchIntersect(q)
		case 1:
			return t.SearchIntersectWithCond(q, func(o ...geo.Spatial) bool { return o[0].Properties.(int)%2 == 0 })
		}
		return t.NearestNeighbors(k, p)
	}
	a := ask()
	keep := append([]geo.Spatial{}, a...)
	sym.Assert(sameBox(*q, q0), "a query leaves its box")
	for i := range a {
		a[i] = geo.Spatial{ID: "other", Properties: 99, Geom: geo.Point{X: 50, Y: 50}}
	}
	_ = append(a, geo.Spatial{ID: "other", Properties: 98})
	sameView(before, look(t, n), "a query")
	b := ask()
	sym.Assert(len(b) == len(keep), "the same query gives the same answer")
	for i := range b {
		sym.Assert(b[i].Properties.(int) == keep[i].Properties.(int), "the same query gives the same answer")
	}
	for i := range a {
		sym.Assert(a[i].Properties.(int) == 99, "a later query leaves earlier results")
	}
}

// A filter may ask the tree itself.
//
//sym:time=40 merge=off
func C41_Nested() {
	n := []int{4, 8, 15}[sym.Choose("n", sym.Bound("sizes", 2, 3))]
	all := spread(n)
	t, _ := grown(all)
	p := gp(12, 0)
	q := &geo.Box{MinX: p.X - 3, MinY: p.Y - 4, MaxX: p.X + 3, MaxY: p.Y + 4}
	plain := t.SearchIntersect(q)
	kind := sym.Choose("query", 3)
	var inner [][]geo.Spatial
	got := t.SearchIntersectWithCond(q, func(o ...geo.Spatial) bool {
		switch kind {
		case 0:
			inner = append(inner, t.NearestNeighbors(1, o[0].Geom.(geo.Point)))
		case 1:
			inner = append(inner, t.SearchIntersect(geo.BoundingBox(o[0].Geom)))
		case 2:
			inner = append(inner, t.SearchBySpatialID(o[0].ID))
		}
		return true
	})
	sym.Assert(len(got) == len(plain), "a filter that asks the tree changes nothing")
	for i := range got {
		sym.Assert(got[i].Properties.(int) == plain[i].Properties.(int), "a filter that asks the tree changes nothing")
		sym.Assert(len(inner[i]) == 1 && inner[i][0].Properties.(int) == got[i].Properties.(int), "a query within a query finds the object")
	}
}

// Edits that do not apply leave the tree as it is.
//
//sym:time=40 merge=off
func C41_Refused() {
	n := []int{4, 9, 15}[sym.Choose("n", sym.Bound("sizes", 2, 3))]
	all := spread(n)
	t, _ := grown(all)
	before := look(t, n)
	p := gp(12, 0)
	hit := false
	for _, o := range all {
		hit = sym.Or(hit, same(o.Geom.(geo.Point), p))
	}
	sym.Assume(!hit)
	var ok bool
	switch sym.Choose("edit", 3) {
	case 0:
		ok = t.Delete(geo.Spatial{ID: "other", Properties: 99, Geom: p})
	case 1:
		ok = t.DeleteBySpatialID("other")
	case 2:
		ok = t.DeleteWithComparator(geo.Spatial{ID: "other", Geom: p}, func(o ...geo.Spatial) bool { return o[0].ID == o[1].ID })
	}
	sym.Assert(!ok, "deleting what is not stored is refused")
	sameView(before, look(t, n), "a refused deletion")
}
