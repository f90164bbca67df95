package props

import (
	"math"

	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// outside is: the position is not in the rectangle that the offset of GCJ02 applies to.
func outside(lon, lat float64) bool {
	return sym.Not(sym.And(lon > 73.66, lon < 135.05, lat > 3.86, lat < 53.55))
}

// Outside China nothing changes, for any numbers.
//
//sym:mode=fp merge=off time=30
func C26_Outside() {
	lon, lat := sym.Any("lon"), sym.Any("lat")
	sym.Assume(outside(lon, lat))
	a, b := geo.WGS84toGCJ02(lon, lat)
	sym.Assert(sym.And(a == lon, b == lat), "outside China converting to GCJ02 changes nothing")
	a, b = geo.GCJ02toWGS84(lon, lat)
	sym.Assert(sym.And(a == lon, b == lat), "outside China converting from GCJ02 changes nothing")
}

// Positions in China are moved by less than 0.02 degrees, and moved back by the same offset.
//
//sym:mode=real merge=off time=30
func C26_Inside() {
	lon, lat := sym.F("lon", 73.6601, 135.0499, -20), sym.F("lat", 3.8601, 53.5499, -20)
	a, b := geo.WGS84toGCJ02(lon, lat)
	sym.Assert(closeTo(a, lon, 0.02), "the longitude moves by less than 0.02 degrees")
	sym.Assert(closeTo(b, lat, 0.02), "the latitude moves by less than 0.02 degrees")
	c, d := geo.GCJ02toWGS84(lon, lat)
	sym.Assert(closeTo(a-lon, lon-c, 1e-9), "converting from GCJ02 takes off the longitude that converting to it adds")
	sym.Assert(closeTo(b-lat, lat-d, 1e-9), "converting from GCJ02 takes off the latitude that converting to it adds")
}

// offset is the published definition of the GCJ02 offset.
func offset(lon, lat float64) (float64, float64) {
	const a, ee = 6378245.0, 0.00669342162296594323
	x, y := lon-105.0, lat-35.0
	s := math.Sin
	w := 20.0*s(6.0*x*math.Pi) + 20.0*s(2.0*x*math.Pi)
	dy := -100.0 + 2.0*x + 3.0*y + 0.2*y*y + 0.1*x*y + 0.2*math.Sqrt(math.Abs(x)) +
		(w+20.0*s(y*math.Pi)+40.0*s(y/3.0*math.Pi)+160.0*s(y/12.0*math.Pi)+320.0*s(y*math.Pi/30.0))*2.0/3.0
	dx := 300.0 + x + 2.0*y + 0.1*x*x + 0.1*x*y + 0.1*math.Sqrt(math.Abs(x)) +
		(w+20.0*s(x*math.Pi)+40.0*s(x/3.0*math.Pi)+150.0*s(x/12.0*math.Pi)+300.0*s(x/30.0*math.Pi))*2.0/3.0
	phi := lat / 180.0 * math.Pi
	m := 1 - ee*s(phi)*s(phi)
	q := math.Sqrt(m)
	return dx * 180.0 / (a / q * math.Cos(phi) * math.Pi), dy * 180.0 / (a * (1 - ee) / (m * q) * math.Pi)
}

// The offset is that of the published algorithm.
//
//sym:mode=real merge=off time=30
func C26_Published() {
	lon, lat := sym.F("lon", 73.6601, 135.0499, -20), sym.F("lat", 3.8601, 53.5499, -20)
	dx, dy := offset(lon, lat)
	a, b := geo.WGS84toGCJ02(lon, lat)
	sym.Assert(closeTo(a, lon+dx, 1e-8), "the longitude is offset as published")
	sym.Assert(closeTo(b, lat+dy, 1e-8), "the latitude is offset as published")
}

// sameNum is equality of results that may be not-a-number.
func sameNum(a, b float64) bool { return sym.Or(a == b, sym.And(a != a, b != b)) }

// Conversions to and from BD09 go through GCJ02.
//
//sym:mode=ord merge=off time=30
func C26_Compose() {
	lon, lat := sym.F("lon", -180, 180, -20), sym.F("lat", -90, 90, -20)
	a, b := geo.WGS84toBD09(lon, lat)
	c, d := geo.GCJ02toBD09(geo.WGS84toGCJ02(lon, lat))
	sym.Assert(sym.And(sameNum(a, c), sameNum(b, d)), "converting to BD09 goes through GCJ02")
	a, b = geo.BD09toWGS84(lon, lat)
	c, d = geo.GCJ02toWGS84(geo.BD09toGCJ02(lon, lat))
	sym.Assert(sym.And(sameNum(a, c), sameNum(b, d)), "converting from BD09 goes through GCJ02")
}

// The BD09 offset is that of the published algorithm.
//
//sym:mode=real merge=off time=30
func C26_Baidu() {
	lon, lat := sym.F("lon", 70, 140, -20), sym.F("lat", 3, 54, -20)
	const k = math.Pi * 3000.0 / 180.0
	z := math.Sqrt(lon*lon+lat*lat) + 0.00002*math.Sin(lat*k)
	t := math.Atan2(lat, lon) + 0.000003*math.Cos(lon*k)
	a, b := geo.GCJ02toBD09(lon, lat)
	sym.Assert(closeTo(a, z*math.Cos(t)+0.0065, 1e-8), "the BD09 longitude is as published")
	sym.Assert(closeTo(b, z*math.Sin(t)+0.006, 1e-8), "the BD09 latitude is as published")
	x, y := lon-0.0065, lat-0.006
	z = math.Sqrt(x*x+y*y) - 0.00002*math.Sin(y*k)
	t = math.Atan2(y, x) - 0.000003*math.Cos(x*k)
	a, b = geo.BD09toGCJ02(lon, lat)
	sym.Assert(closeTo(a, z*math.Cos(t), 1e-8), "the longitude from BD09 is as published")
	sym.Assert(closeTo(b, z*math.Sin(t), 1e-8), "the latitude from BD09 is as published")
}
