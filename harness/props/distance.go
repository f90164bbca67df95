package props

import (
	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// notWGS is any reference system but WGS84.
func notWGS() geo.SRID {
	s := sym.Int("srid", -1, 40000)
	sym.Assume(s != int(geo.SRID_WGS84_GPS))
	return geo.SRID(s)
}

// Planar distance: agreement, symmetry, definiteness.
func C16_Planar() {
	p, q := gp(1<<10, -8), gp(1<<10, -8)
	d := geo.EuclideanDistance(p, q)
	sym.Assert(sym.And(d == geo.EuclideanDis(p, q), d == p.Distance(q), d == geo.PointDistance(p, q, notWGS())), "the functions for planar distance agree")
	sym.Assert(sym.And(d == geo.EuclideanDistance(q, p), d == geo.EuclideanDis(q, p), d == q.Distance(p)), "planar distance is symmetric")
	sym.Assert(d >= 0, "planar distance is not negative")
	sym.Assert(sym.Iff(d == 0, same(p, q)), "planar distance is zero exactly for identical points")
}

// The Euclidean length of the difference.
//
//sym:mode=real
func C16_Length() {
	p, q := gp(1<<10, -8), gp(1<<10, -8)
	d := p.Distance(q)
	dx, dy := p.X-q.X, p.Y-q.Y
	sym.Assert(closeTo(d*d, dx*dx+dy*dy, 1e-6), "planar distance is the length of the difference")
	a, b := gpz(1<<10, -8), gpz(1<<10, -8)
	e := geo.EuclideanDisZ(a, b)
	dx, dy, dz := a.X-b.X, a.Y-b.Y, a.Z-b.Z
	sym.Assert(closeTo(e*e, dx*dx+dy*dy+dz*dz, 1e-6), "distance in space is the length of the difference")
}

func C16_Space() {
	p, q := gpz(1<<10, -8), gpz(1<<10, -8)
	d := geo.EuclideanDisZ(p, q)
	sym.Assert(d == geo.EuclideanDisZ(q, p), "distance in space is symmetric")
	sym.Assert(d >= 0, "distance in space is not negative")
	sym.Assert(sym.Iff(d == 0, sameZ(p, q)), "distance in space is zero exactly for identical points")
}

// The triangle inequality.
//
//sym:mode=real
func C16_Triangle() {
	a, b := gp(1<<10, -4), gp(1<<10, -4)
	o := geo.Point{}
	sym.Assert(a.Distance(b) <= a.Distance(o)+o.Distance(b)+1e-6, "a detour is not shorter")
}

// Line length.
//
//sym:mode=real
func C16_Line() {
	n := sym.Int("n", 0, sym.Bound("points", 5, 7))
	v := gps(n, 1<<10, -8)
	l := geo.LineString(v)
	s := 0.0
	for i := 0; i+1 < len(v); i++ {
		s += v[i].Distance(v[i+1])
	}
	d := l.Length()
	sym.Assert(closeTo(d, s, 1e-6), "the length of a line is the sum over its segments")
	r := geo.LineString(reversed(v))
	sym.Assert(closeTo(r.Length(), d, 1e-6), "reversing a line keeps its length")
	sym.Assert(sameList(l, v), "the line is unchanged")
	if n < 2 {
		sym.Assert(d == 0, "a line of one point has no length")
	}
}

// A line of points closer together than the tolerance has a length, too.
//
//sym:mode=real
func C16_Dense() {
	n := 2 + sym.Choose("n", sym.Bound("points", 4, 6))
	v := gps(n, 1.0/(1<<19), -40)
	if sym.Choose("start", 2) == 1 {
		v[0] = geo.Point{X: 1}
	}
	s := 0.0
	for i := 0; i+1 < n; i++ {
		s += v[i].Distance(v[i+1])
	}
	sym.Assert(closeTo(geo.LineString(v).Length(), s, 1e-10), "the length of a line is the sum over its segments")
}

// the points of the Earth in degrees
func lonlat(g int) geo.Point {
	return geo.Point{X: sym.F("lon", -180, 180, g), Y: sym.F("lat", -90, 90, g)}
}

// Geographic distance.
func C16_Geographic() {
	p, q := lonlat(-20), lonlat(-20)
	d := geo.CoordDistance(p, q)
	sym.Assert(!isNaN(d), "geographic distance is a number")
	sym.Assert(sym.And(d >= 0, d <= 20015087), "geographic distance is at most half the circumference")
	sym.Assert(d == geo.CoordDistance(q, p), "geographic distance is symmetric")
	sym.Assert(geo.CoordDistance(p, p) == 0, "geographic distance of a point to itself is zero")
	srid := geo.SRID(sym.Int("srid", -1, 40000))
	e := geo.PointDistance(p, q, srid)
	if srid == geo.SRID_WGS84_GPS {
		sym.Assert(e == d, "distances in WGS84 are geographic")
	} else {
		sym.Assert(e == geo.EuclideanDistance(p, q), "distances outside WGS84 are planar")
	}
}

// Opposite points, where the haversine reaches 1.
func C16_Antipodes() {
	p := geo.Point{X: sym.F("lon", -180, 0, -10), Y: sym.F("lat", -90, 90, -10)}
	d := geo.CoordDistance(p, geo.Point{X: p.X + 180, Y: -p.Y})
	sym.Assert(sym.And(d >= 0, d <= 20015087), "the distance of opposite points is at most half the circumference")
}

// The great-circle formula.
func C16_GreatCircle() {
	p, q := lonlat(-20), lonlat(-20)
	d := geo.CoordGreateCircle(p, q)
	sym.Assert(sym.And(d >= 0, d <= 20015087), "great-circle distance is at most half the circumference")
	sym.Assert(d == geo.CoordGreateCircle(q, p), "great-circle distance is symmetric")
	e := geo.CoordGreateCircle(p, p)
	sym.Assert(sym.And(e >= 0, e <= 20015087), "great-circle distance of a point to itself is a distance")
}

// arcs on a sphere with a radius of 6371 km: two latitudes, the difference of longitudes, the length (by vectors).
var arcs = [][4]float64{
	{0, 0, 10, 1111949.2664},
	{0, 0, 90, 10007543.3980},
	{0, 0, 200, 17791188.2631},
	{0, 0, 350, 1111949.2664},
	{30, 30, 1, 96297.3257},
	{60, 60, 120, 5706280.4017},
	{-45, -45, 179, 10007058.2309},
	{10, 25, 0, 1667923.8997},
	{-35, 50, 0, 9451568.7648},
	{-80, 70, 0, 16679238.9967},
	{10, 20, 30, 3401520.6328},
	{-33, 51, 77, 11979061.0037},
	{60, -60, 150, 18361513.2185},
	{88, -70, 300, 17672389.0245},
	{0.001, 0, 0.001, 157.2534},
	{89, 89, 180, 222389.8533},
	{0, 0, 5e-7, 0.0556},
	{45, 45.0000008, 0, 0.0890},
}

// The length of an arc does not depend on the longitude it starts from, nor on full turns.
//
//sym:mode=real
func C16_Arc() {
	r := arcs[sym.Choose("arc", len(arcs))]
	lon := sym.F("lon", -180, 180, -10)
	p, q := geo.Point{X: lon, Y: r[0]}, geo.Point{X: lon + r[2], Y: r[1]}
	switch sym.Choose("which", 3) {
	case 1:
		p, q = q, p
	case 2:
		p.X, q.X = q.X, p.X
	}
	sym.Assert(closeTo(geo.CoordDistance(p, q), r[3], 1e-3), "geographic distance is the length of the arc")
	sym.Assert(closeTo(geo.PointDistance(p, q, geo.SRID_WGS84_GPS), r[3], 1e-3), "the distance in WGS84 is the length of the arc")
	if r[3] < 1000 {
		return // the arc cosine has few digits there
	}
	sym.Assert(closeTo(geo.CoordGreateCircle(p, q), r[3], 1), "great-circle distance is the length of the arc")
}

// Along a meridian from any latitude.
//
//sym:mode=real
func C16_Meridian() {
	d := []float64{0.001, 1, 10, 45, 90, 130, 4e-7}[sym.Choose("arc", 7)]
	p := geo.Point{X: sym.F("lon", -180, 180, -10), Y: sym.F("lat", -90, 45, -10)}
	q := geo.Point{X: p.X, Y: p.Y + d}
	sym.Assume(q.Y <= 90)
	sym.Assert(closeTo(geo.CoordDistance(p, q), d/180*3.141592653589793*6371000, 1e-3), "geographic distance along a meridian is the length of the arc")
}

// Equal and opposite points at latitudes where rounding takes the cosine of the angle beyond 1.
func C16_Clamp() {
	lat := []float64{-87.5, -12, -8, -5.5, -2.5, 0, 12, 33, 45, 90}[sym.Choose("lat", 10)]
	p := geo.Point{X: sym.F("lon", -180, 180, -10), Y: lat}
	d := geo.CoordGreateCircle(p, p)
	sym.Assert(sym.And(d >= 0, d <= 1), "great-circle distance of a point to itself is next to zero")
	d = geo.CoordDistance(p, p)
	sym.Assert(d == 0, "geographic distance of a point to itself is zero")
	q := geo.Point{X: 0, Y: lat}
	d = geo.CoordGreateCircle(q, geo.Point{X: 180, Y: -lat})
	sym.Assert(closeTo(d, 6371000*3.141592653589793, 1), "opposite points are half the circumference apart")
}
