package props

import (
	"harness/sym"

	"github.com/golang/geo/s2"
	geo "github.com/hzw456/go-geo"
)

// position is any longitude and latitude.
func position2() geo.Point {
	return geo.Point{X: sym.Real("lon", -180, 180), Y: sym.Real("lat", -90, 90)}
}

// cellID is any cell of a level, of those 31.
func cellID() (s2.CellID, int) {
	level := sym.Choose("level", 31)
	face := sym.Int("face", 0, 5)
	pos := sym.Int("pos", 0, 1<<61-1)
	return s2.CellIDFromFacePosLevel(face, uint64(pos), level), level
}

// The cell of a position is a valid cell of the level that contains the leaf cell of the position.
//
//sym:mode=fp merge=off time=30
func C32_Cell() {
	p := position2()
	level := sym.Choose("level", 31)
	id := geo.S2GetCellID(p, level, geo.SRID_WGS84_GPS)
	c := s2.CellID(id)
	leaf := uint64(s2.CellIDFromLatLng(s2.LatLngFromDegrees(p.Y, p.X)))
	sym.Assert(c.IsValid(), "the cell is valid")
	sym.Assert(c.Level() == level, "the cell has the level asked for")
	sym.Assert(sym.And(uint64(c.RangeMin()) <= leaf, leaf <= uint64(c.RangeMax())), "the cell contains the position")
}

// The centre and the corners of a cell, longitude first.
//
//sym:mode=fp merge=off time=30
func C32_Centre() {
	c, _ := cellID()
	m := geo.S2GetCenter(uint64(c), geo.SRID_WGS84_GPS)
	sym.Assert(m != nil, "a cell has a centre")
	ll := c.LatLng()
	sym.Assert(closeTo(m.X, ll.Lng.Degrees(), 1e-9), "the longitude of the centre")
	sym.Assert(closeTo(m.Y, ll.Lat.Degrees(), 1e-9), "the latitude of the centre")
	b := geo.S2GetBoundary(uint64(c), geo.SRID_WGS84_GPS)
	sym.Assert(len(b) == 4, "a cell has four corners")
	for i, p := range b {
		v := s2.LatLngFromPoint(s2.CellFromCellID(c).Vertex(i))
		sym.Assert(closeTo(p.X, v.Lng.Degrees(), 1e-9), "the longitude of a corner")
		sym.Assert(closeTo(p.Y, v.Lat.Degrees(), 1e-9), "the latitude of a corner")
	}
}

// The neighbours of a cell are those at its own level.
//
//sym:mode=fp merge=off time=30
func C32_Neighbours() {
	c, level := cellID()
	n := geo.S2GetAllNeighbors(uint64(c), geo.SRID_WGS84_GPS)
	w := c.AllNeighbors(level)
	sym.Assert(len(n) == len(w), "all neighbours are returned")
	for _, id := range w {
		in := false
		for _, g := range n {
			in = sym.Or(in, g == uint64(id))
		}
		sym.Assert(in, "every neighbour is returned")
	}
}

// Other reference systems give nothing.
//
//sym:mode=fp merge=off time=30
func C32_Other() {
	srid := []geo.SRID{0, geo.SRID_WGS84_PSEUDO_MERCATOR, 4490}[sym.Choose("srid", 3)]
	p := position2()
	c, level := cellID()
	sym.Assert(geo.S2GetCellID(p, level, srid) == 0, "no cell")
	sym.Assert(geo.S2GetCenter(uint64(c), srid) == nil, "no centre")
	sym.Assert(len(geo.S2GetBoundary(uint64(c), srid)) == 0, "no corners")
	sym.Assert(len(geo.S2GetAllNeighbors(uint64(c), srid)) == 0, "no neighbours")
}

func covering(v []geo.Point) {
	level := sym.Choose("level", 6)
	got := geo.S2RegionCoverer(poly(v), level, geo.SRID_WGS84_GPS)
	if area2(v) < 0 {
		v = cp(v)
		for i, j := 1, len(v)-1; i < j; i, j = i+1, j-1 {
			v[i], v[j] = v[j], v[i]
		}
	}
	var ps []s2.Point
	for _, p := range v {
		ps = append(ps, s2.PointFromLatLng(s2.LatLngFromDegrees(p.Y, p.X)))
	}
	want := s2.SimpleRegionCovering(s2.PolygonFromLoops([]*s2.Loop{s2.LoopFromPoints(ps)}), ps[0], level)
	sym.Assert(len(got) == len(want), "the covering has the cells of the region")
	for _, id := range want {
		in := false
		for _, g := range got {
			in = sym.Or(in, g == uint64(id))
		}
		sym.Assert(in, "the covering has the cells of the region")
	}
}

// The covering of a triangle in either direction is that of the region inside.
//
//sym:mode=bv merge=off time=30
func C32_Triangle() {
	o := []geo.Point{{}, {X: 100, Y: 40}, {X: -150, Y: -50}}[sym.Choose("where", 3)]
	v := gps(3, 15, 0)
	d := cross(v[0], v[1], v[2])
	sym.Assume(sym.Or(d >= 3, d <= -3))
	for i := range v {
		v[i] = geo.Point{X: v[i].X + o.X, Y: v[i].Y + o.Y}
	}
	covering(v)
}

// The same for a convex quadrilateral.
//
//sym:mode=bv merge=off time=30
func C32_Quad() {
	v := gps(4, 7, 0)
	l, r := true, true
	for i := range v {
		d := cross(v[i], v[(i+1)%4], v[(i+2)%4])
		l, r = sym.And(l, d >= 3), sym.And(r, d <= -3)
	}
	sym.Assume(sym.Or(l, r))
	covering(v)
}
