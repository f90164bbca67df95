package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

func inCell(p geo.Point, b geo.Box) bool {
	return sym.And(b.MinX <= p.X, p.X <= b.MaxX, b.MinY <= p.Y, p.Y <= b.MaxY)
}

// A cell contains the point it was made for.
//
//sym:mode=real merge=off time=30
func C31_Cell() {
	p := geo.Point{X: sym.F("lon", -180, 179.999, -10), Y: sym.F("lat", -90, 89.999, -10)}
	n := 1 + sym.Choose("precision", 12)
	h := geo.GeohashEncode(p, uint(n), geo.SRID_WGS84_GPS)
	sym.Assert(len(h) == n, "the hash has the requested length")
	b := geo.GeohashGetBoundary(h, geo.SRID_WGS84_GPS)
	sym.Assert(inCell(p, b), "the cell contains the point")
	c := geo.GeohashGetCenter(h, geo.SRID_WGS84_GPS)
	sym.Assert(closeTo(c.X, (b.MinX+b.MaxX)/2, 1e-9), "the centre is in the middle (x)")
	sym.Assert(closeTo(c.Y, (b.MinY+b.MaxY)/2, 1e-9), "the centre is in the middle (y)")
}

// The neighbours of a cell, in the order N, NE, E, SE, S, SW, W, NW.
//
//sym:mode=real merge=off time=30
func C31_Neighbours() {
	p := geo.Point{X: sym.F("lon", -120, 120, -10), Y: sym.F("lat", -60, 60, -10)}
	n := 3 + sym.Choose("precision", 10)
	h := geo.GeohashEncode(p, uint(n), geo.SRID_WGS84_GPS)
	b := geo.GeohashGetBoundary(h, geo.SRID_WGS84_GPS)
	ns := geo.GeohashGetAllNeighbors(h, geo.SRID_WGS84_GPS)
	sym.Assert(len(ns) == 8, "a cell has eight neighbours")
	c := geo.GeohashGetCenter(h, geo.SRID_WGS84_GPS)
	w, t := b.MaxX-b.MinX, b.MaxY-b.MinY
	sym.Assume(sym.And(w <= 2, t <= 2)) // the size of a cell with three characters
	dx, dy := []float64{0, 1, 1, 1, 0, -1, -1, -1}, []float64{1, 1, 0, -1, -1, -1, 0, 1}
	for i, g := range ns {
		sym.Assert(len(g) == n, "a neighbour has the precision of the cell")
		nb := geo.GeohashGetBoundary(g, geo.SRID_WGS84_GPS)
		q := geo.Point{X: c.X + dx[i]*w, Y: c.Y + dy[i]*t}
		sym.Assert(sym.And(nb.MinX <= q.X+1e-9, q.X-1e-9 <= nb.MaxX, nb.MinY <= q.Y+1e-9, q.Y-1e-9 <= nb.MaxY), "the neighbours are in order")
	}
}
