package props

import (
	"math"

	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

func place() geo.Point {
	return geo.Point{X: sym.F("lon", -180, 180, -10), Y: sym.F("lat", -90, 90, -10)}
}

// Azimuths are in [0, 360) and those of the formula for the initial bearing.
//
//sym:mode=real merge=off time=30
func C27_Azimuth() {
	p, q := place(), place()
	az := geo.GetAzimuth(p, q, geo.SRID_WGS84_GPS)
	sym.Assert(az >= 0, "an azimuth is not negative")
	sym.Assert(az < 360, "an azimuth is less than 360")
	const k = math.Pi / 180
	l1, l2, f1, f2 := p.X*math.Pi/180, q.X*math.Pi/180, p.Y*math.Pi/180, q.Y*math.Pi/180
	y := math.Sin(l2-l1) * math.Cos(f2)
	x := math.Cos(f1)*math.Sin(f2) - math.Sin(f1)*math.Cos(f2)*math.Cos(l2-l1)
	b := math.Atan2(y, x) / k
	sym.Assert(sym.Or(closeTo(az, b, 1e-9), closeTo(az, b+360, 1e-9), closeTo(az, b-360, 1e-9)), "an azimuth is the initial bearing of the great circle")
}

// Azimuths in systems other than WGS84 are 0.
//
//sym:mode=fp merge=off time=30
func C27_AzimuthOther() {
	s := sym.Int("srid", -1, 100000)
	sym.Assume(s != int(geo.SRID_WGS84_GPS))
	sym.Assert(geo.GetAzimuth(ap(), ap(), geo.SRID(s)) == 0, "an azimuth in another system is 0")
}

// towards is a point at an offset from c that is far along one axis and near along the other, or both.
func towards(c geo.Point) geo.Point {
	d := gp(64, -2)
	switch sym.Choose("flat", 3) {
	case 1:
		d.Y *= 1.0 / (1 << 60)
	case 2:
		d.X *= 1.0 / (1 << 60)
	}
	return geo.Point{X: c.X + d.X, Y: c.Y + d.Y}
}

// The angle at a vertex is in [0, 2 pi) and an error when an arm has no length.
//
//sym:mode=real merge=off feas=0.1 inc=0.1 time=30
func C27_Angle() {
	c := geo.Point{}
	a, b := towards(c), towards(c)
	t, err := geo.CacAngle(a, c, b)
	if err != nil {
		sym.Assert(sym.Or(same(a, c), same(b, c)), "the angle is an error only for an arm of length zero")
		return
	}
	sym.Assert(sym.Not(sym.Or(same(a, c), same(b, c))), "the angle is an error for an arm of length zero")
	sym.Assert(t >= 0, "the angle is not negative")
	sym.Assert(t < 2*math.Pi, "the angle is less than a full turn")
}

// The angle turns counter-clockwise from the first arm to the second.
//
//sym:mode=bv ufbits=16 merge=off feas=0.1 inc=0.1 time=30
func C27_Turn() {
	c := gp(1024, -2)
	a, b := gp(1024, -2), gp(1024, -2)
	t, err := geo.CacAngle(a, c, b)
	sym.Assume(err == nil)
	x := cross(c, a, b)
	d := (a.X-c.X)*(b.X-c.X) + (a.Y-c.Y)*(b.Y-c.Y)
	const e = 1e-3
	sym.Assert(sym.Implies(x > 0, sym.Or(t <= math.Pi+e, t >= 2*math.Pi-e)), "the angle to the left is at most half a turn")
	sym.Assert(sym.Implies(x < 0, sym.Or(t >= math.Pi-e, t <= e)), "the angle to the right is at least half a turn")
	sym.Assert(sym.Implies(sym.And(x == 0, d < 0), closeTo(t, math.Pi, e)), "opposite arms are half a turn apart")
	sym.Assert(sym.Implies(sym.And(x == 0, d > 0), sym.Or(t <= e, t >= 2*math.Pi-e)), "equal directions have no angle")
	sym.Assert(sym.Implies(d > 0, sym.Or(t <= math.Pi/2+e, t >= 3*math.Pi/2-e)), "arms to one side are less than a quarter turn apart")
	sym.Assert(sym.Implies(d < 0, sym.And(t >= math.Pi/2-e, t <= 3*math.Pi/2+e)), "arms to opposite sides are more than a quarter turn apart")
}

// The convexity class is the sign of the sine of the angle.
//
//sym:mode=bv merge=off feas=0.1 inc=0.1 time=30
func C27_Convex() {
	a, c, b := gp(1024, -2), gp(1024, -2), gp(1024, -2)
	k, err := geo.CacConvex(a, c, b)
	if err != nil {
		sym.Assert(sym.Or(same(a, c), same(b, c)), "the convexity is an error only for an arm of length zero")
		return
	}
	sym.Assert(sym.Not(sym.Or(same(a, c), same(b, c))), "the convexity is an error for an arm of length zero")
	x := cross(c, a, b)
	sym.Assert(sym.Iff(k == 1, x > 0), "a vertex is of the first class when the sine is positive")
	sym.Assert(sym.Iff(k == 0, x < 0), "a vertex is of class zero when the sine is negative")
	sym.Assert(sym.Iff(k == 2, x == 0), "a vertex is of the second class when the sine is zero")
}

// The quadrant angle is the angle from the positive x axis.
//
//sym:mode=real merge=off feas=0.1 inc=0.1 time=30
func C27_Quadrant() {
	m := []float64{64, 1 << 40}[sym.Choose("far", 2)]
	c, b := gp(m, -2), gp(m, -2)
	t, err := geo.CacQuadrantAngle(c, b)
	if err != nil {
		sym.Assert(same(b, c), "the quadrant angle is an error only for equal points")
		return
	}
	sym.Assert(sym.Not(same(b, c)), "the quadrant angle is an error for equal points")
	const e = 1e-6
	x, y := b.X-c.X, b.Y-c.Y
	sym.Assert(sym.Implies(y > 0, sym.And(t >= 0, t <= math.Pi+e)), "a point above is at most half a turn away")
	sym.Assert(sym.Implies(y < 0, sym.Or(t >= math.Pi-e, t <= e)), "a point below is at least half a turn away")
	sym.Assert(sym.Implies(x > 0, sym.Or(t <= math.Pi/2+e, t >= 3*math.Pi/2-e)), "a point to the right is within a quarter turn")
	sym.Assert(sym.Implies(x < 0, sym.And(t >= math.Pi/2-e, t <= 3*math.Pi/2+e)), "a point to the left is a quarter turn away")
	sym.Assert(sym.Implies(sym.And(y == 0, x > 0), t == 0), "the positive x axis has angle zero")
}

// Destinations are on the globe.
//
//sym:mode=real merge=off time=30
func C27_Destination() {
	p := place()
	d, b := sym.F("distance", 0, 1<<25, -4), sym.F("bearing", -360, 360, -10)
	lat, lon := geo.DestinationPoint(p.Y, p.X, d, b)
	sym.Assert(sym.And(lat == lat, lon == lon), "the destination is a number")
	sym.Assert(sym.And(lon >= -180, lon <= 180), "the longitude of a destination is in range")
	sym.Assert(sym.And(lat >= -90-1e-9, lat <= 90+1e-9), "the latitude of a destination is in range")
	f, g, t := p.Y*math.Pi/180, d/6371000, b*math.Pi/180
	s := math.Sin(f)*math.Cos(g) + math.Cos(f)*math.Sin(g)*math.Cos(t)
	f2 := math.Asin(math.Max(-1, math.Min(s, 1)))
	l2 := p.X + math.Atan2(math.Sin(t)*math.Sin(g)*math.Cos(f), math.Cos(g)-math.Sin(f)*math.Sin(f2))*180/math.Pi
	sym.Assert(closeTo(lat, f2*180/math.Pi, 1e-6), "the latitude of a destination is that of the formula")
	sym.Assert(sym.Or(closeTo(lon, l2, 1e-6), closeTo(lon, l2-360, 1e-6), closeTo(lon, l2+360, 1e-6)), "the longitude of a destination is that of the formula")
}

// Destinations towards a pole are numbers.
//
//sym:mode=real merge=off time=30 validate=20
func C27_Pole() {
	south := sym.Choose("south", 2) == 1
	lat := sym.F("lat", 0, 90, -10)
	d := (90 - lat) * math.Pi / 180 * 6371000
	b := 0.0
	if south {
		lat, b = -lat, 180
	}
	a, o := geo.DestinationPoint(lat, sym.F("lon", -180, 180, -10), d, b)
	sym.Assert(sym.And(a == a, o == o), "the destination is a number")
	sym.Assert(sym.And(a >= -90-1e-9, a <= 90+1e-9), "the latitude of a destination is in range")
}

// Angles between fixed directions, with the vertex anywhere: from the first arm counter-clockwise to the second.
//
//sym:mode=real merge=off time=30
func C27_Known() {
	dirs := []geo.Point{{X: 1}, {X: 3, Y: 1}, {X: 2, Y: 2}, {Y: 5}, {X: -1, Y: 4}, {X: -7, Y: 0.5}, {X: -2}, {X: -3, Y: -1}, {X: -1, Y: -1}, {Y: -6}, {X: 4, Y: -9}, {X: 8, Y: -0.25}}
	i, j := sym.Choose("first", len(dirs)), sym.Choose("second", len(dirs))
	c := gp(64, -2)
	if sym.Choose("where", 2) == 1 {
		c = geo.Point{X: 1000 + c.X, Y: c.Y - 2000}
	}
	at := func(d geo.Point) geo.Point { return geo.Point{X: c.X + d.X, Y: c.Y + d.Y} }
	want := math.Atan2(dirs[j].Y, dirs[j].X) - math.Atan2(dirs[i].Y, dirs[i].X)
	if i > j {
		want += 2 * math.Pi
	}
	if i >= 7 && j < 7 || i < 7 && j >= 7 { // below the negative x axis, angles start from -pi
		if i < 7 {
			want += 2 * math.Pi
		} else {
			want -= 2 * math.Pi
		}
	}
	t, err := geo.CacAngle(at(dirs[i]), c, at(dirs[j]))
	sym.Assert(err == nil, "arms with a length have an angle")
	sym.Assert(closeTo(t, want, 1e-9), "the angle is the difference of the directions")
	q, err := geo.CacQuadrantAngle(c, at(dirs[j]))
	sym.Assert(err == nil, "a direction has an angle")
	w := math.Atan2(dirs[j].Y, dirs[j].X)
	if w < 0 {
		w += 2 * math.Pi
	}
	sym.Assert(closeTo(q, w, 1e-9), "the quadrant angle is that of the direction")
}

// A second arm next to the first, on the clockwise side of it or on top of it.
//
//sym:mode=real merge=off time=30
func C27_Next() {
	y := []float64{0, 1e-20, 1e-17, 1e-9}[sym.Choose("apart", 4)]
	t, err := geo.CacAngle(geo.Point{X: 1, Y: y}, geo.Point{}, geo.Point{X: 1})
	sym.Assert(err == nil, "arms with a length have an angle")
	sym.Assert(sym.Or(closeTo(t, 0, 1e-8), closeTo(t, 2*math.Pi, 1e-8)), "arms next to each other have an angle of next to zero or a full turn")
}

// Destinations at known places: along the equator, along a meridian, a quarter turn away.
//
//sym:mode=real merge=off time=30
func C27_Places() {
	const r = 6371000 * math.Pi / 180 // the length of a degree
	lon := sym.F("lon", -60, 60, -10)
	k := [][5]float64{ // latitude, distance in degrees, bearing, latitude and longitude of the destination
		{0, 10, 90, 0, 10}, {0, 10, 270, 0, -10}, {0, 10, -90, 0, -10}, {0, 100, 90, 0, 100}, {0, 25, 0, 25, 0}, {0, 25, 180, -25, 0}, {30, 15, 0, 45, 0}, {-50, 35, 180, -85, 0},
		{60, 60, 0, 60, 180}, {45, 90, 90, 0, 90}, {60, 90, 270, 0, -90}, {0, 90, 45, 45, 90}, {10, 20, 360, 30, 0},
		{30, 40, 60, 41.4034797884, 47.9154875590}, {-33, 77, 200, -62.9249269210, -132.9311056084}, {85, 12, 310, 80.4265515578, -106.7330496930}, {5, 150, -20, 23.1150874754, -169.2842058280},
	}[sym.Choose("place", 17)]
	lat, to := geo.DestinationPoint(k[0], lon, k[1]*r, k[2])
	sym.Assert(closeTo(lat, k[3], 1e-6), "the latitude of the destination")
	w := lon + k[4]
	sym.Assert(sym.Or(closeTo(to, w, 1e-6), closeTo(to, w-360, 1e-6), closeTo(to, w+360, 1e-6)), "the longitude of the destination")
}
