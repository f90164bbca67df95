package props

import (
	"math"

	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// The ellipsoid and the projection of UTM.
const (
	utmA  = 6378137.0
	utmE2 = 0.00669438
	utmK0 = 0.9996
)

// snyder is the transverse Mercator series (Snyder, Map Projections: A Working Manual, 8-9 and 8-10): easting and northing of a
// position phi (radians) at l radians from the central meridian.
func snyder(phi, l float64) (float64, float64) {
	const e4, e6, ep = utmE2 * utmE2, utmE2 * utmE2 * utmE2, utmE2 / (1 - utmE2)
	s, k := math.Sin(phi), math.Cos(phi)
	t := s / k
	T, C, A := t*t, ep*k*k, k*l
	n := utmA / math.Sqrt(1-utmE2*s*s)
	m := utmA * ((1-utmE2/4-3*e4/64-5*e6/256)*phi -
		(3*utmE2/8+3*e4/32+45*e6/1024)*math.Sin(2*phi) +
		(15*e4/256+45*e6/1024)*math.Sin(4*phi) -
		(35*e6/3072)*math.Sin(6*phi))
	A2 := A * A
	e := utmK0 * n * (A + (1-T+C)*A2*A/6 + (5-18*T+T*T+72*C-58*ep)*A2*A2*A/120)
	y := utmK0 * (m + n*t*(A2/2+(5-T+9*C+4*C*C)*A2*A2/24+(61-58*T+T*T+600*C-330*ep)*A2*A2*A2/720))
	return e, y
}

// inverse is the inverse series (Snyder 3-24 to 3-26 and 8-17, 8-18): latitude and distance from the central meridian, in radians.
func inverse(x, y float64) (float64, float64) {
	const e4, e6, ep = utmE2 * utmE2, utmE2 * utmE2 * utmE2, utmE2 / (1 - utmE2)
	q := math.Sqrt(1 - utmE2)
	n1 := (1 - q) / (1 + q)
	mu := y / utmK0 / (utmA * (1 - utmE2/4 - 3*e4/64 - 5*e6/256))
	n2 := n1 * n1
	phi := mu + (3*n1/2-27*n2*n1/32+269*n2*n2*n1/512)*math.Sin(2*mu) +
		(21*n2/16-55*n2*n2/32)*math.Sin(4*mu) +
		(151*n2*n1/96-417*n2*n2*n1/128)*math.Sin(6*mu) +
		(1097*n2*n2/512)*math.Sin(8*mu)
	s, k := math.Sin(phi), math.Cos(phi)
	t := s / k
	T, C := t*t, ep*k*k
	w := 1 - utmE2*s*s
	D := x / (utmA / math.Sqrt(w) * utmK0)
	D2 := D * D
	lat := phi - t*w/(1-utmE2)*(D2/2-
		(5+3*T+10*C-4*C*C-9*ep)*D2*D2/24+
		(61+90*T+298*C+45*T*T-252*ep-3*C*C)*D2*D2*D2/720)
	lon := (D - (1+2*T+C)*D2*D/6 + (5-2*C+28*T-3*C*C+8*ep+24*T*T)*D2*D2*D/120) / k
	return lat, lon
}

// Easting and northing are those of the series, on both hemispheres.
//
//sym:mode=real merge=off time=100
func C37_From() {
	lat := away()
	zone := someZone()
	m := float64(zone*6 - 183)
	lon := m + sym.F("d", -2.9375, 2.9375, -10)
	south := sym.Choose("south", 2) == 1
	if south {
		lat = -lat
	}
	e, n, z, _, err := geo.FromLatLon(lat, lon, false)
	sym.Assert(err == nil && z == zone, "the position is converted")
	const rad = math.Pi / 180
	x, y := snyder(lat*rad, lon*rad-m*rad)
	sym.Assert(closeTo(e, x+500000, 1e-6), "the easting is that of the transverse Mercator series")
	if south {
		y += 10000000
	}
	sym.Assert(closeTo(n, y, 1e-6), "the northing is that of the transverse Mercator series")
}

// Latitude and longitude are those of the inverse series.
//
//sym:mode=real merge=off time=100
func C37_To() {
	zone := someZone()
	e := sym.F("easting", 170000, 830000, -4)
	bands := []float64{1000, 1e6, 2e6, 3e6, 4e6, 5e6, 55e5, 6e6, 63e5, 66e5, 69e5, 71e5, 73e5, 75e5, 77e5, 79e5, 8e6, 81e5, 82e5, 83e5, 84e5, 85e5, 86e5, 87e5, 88e5}
	b := sym.Choose("band", len(bands)-1)
	n := sym.F("northing", bands[b], bands[b+1], -4)
	y := n
	letter := "N"
	if sym.Choose("south", 2) == 1 {
		letter = "M"
		n = 10000000 - n
		y = n - 10000000
	}
	lat, lon, err := geo.ToLatLon(e, n, zone, letter)
	sym.Assert(err == nil, "the coordinates are converted")
	u, v := inverse(e-500000, y)
	sym.Assert(closeTo(lat, u*180/math.Pi, 1e-9), "the latitude is that of the inverse series")
	sym.Assert(closeTo(lon, v*180/math.Pi+float64(zone*6-183), 1e-9), "the longitude is that of the inverse series")
}
