package props

import (
	"math"

	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

const bands = "CDEFGHJKLMNPQRSTUVWX"

// zoneOf asserts that zone and letter are right for a position in range.
func zoneOf(lat, lon float64, northern bool) {
	_, _, z, l, err := geo.FromLatLon(lat, lon, northern)
	sym.Assert(err == nil, "every position in range is converted")
	sym.Assert(sym.And(z >= 1, z <= 60), "the zone is one of 1 to 60")
	d := lon - float64(z*6-183)
	norway := sym.And(lat >= 56, lat <= 64, lon >= 3, lon <= 12)
	svalbard := sym.And(lat >= 72, lon >= 0, lon <= 42)
	sym.Assert(sym.And(d <= 6, d >= -6), "the central meridian is at most 6 degrees away")
	sym.Assert(sym.Or(norway, svalbard, sym.And(d <= 3+1e-9, d >= -3-1e-9)), "outside the exceptions the central meridian is at most 3 degrees away")
	sym.Assert(sym.Implies(sym.And(lat >= 56, lat < 64, lon >= 3, lon < 12), z == 32), "southern Norway is in zone 32")
	if northern {
		sym.Assert(l == "N" || l == "S", "the hemisphere is N or S")
		sym.Assert(sym.Iff(l == "N", lat >= 0), "the hemisphere is that of the latitude")
		return
	}
	sym.Assert(len(l) == 1, "the band has a letter")
	for i := 0; i < len(bands); i++ {
		if l == bands[i:i+1] {
			lo := float64(i)*8 - 80
			sym.Assert(sym.And(lat >= lo, sym.Or(lat < lo+8, sym.And(i == len(bands)-1, lat <= 84))), "the letter is that of the band of the latitude")
			sym.Assert(sym.Iff(l >= "N", lat >= 0), "the letter has the hemisphere of the latitude")
			return
		}
	}
	sym.Assert(false, "the letter is one of the bands")
}

// Zones and letters on a fine grid.
//
//sym:mode=int merge=off time=30
func C24_Zone() {
	lat, lon := sym.F("lat", -80, 84, -20), sym.F("lon", -180, 180, -20)
	zoneOf(lat, lon, sym.Choose("northern", 2) == 1)
}

// Zones next to the border of the last one, for any double.
//
//sym:mode=fp merge=off time=30
func C24_LastZone() {
	_, _, z, _, err := geo.FromLatLon([]float64{-80, 0, 60, 84}[sym.Choose("lat", 4)], sym.Real("lon", 179.5, 180), false)
	sym.Assert(sym.And(err == nil, z == 60), "the last zone ends at 180 degrees")
}

// Zones and letters, for any doubles in range.
//
//sym:mode=fp merge=off time=30 ttime=600 thorough
func C24_AnyZone() {
	lat, lon := sym.Real("lat", -80, 84), sym.Real("lon", -180, 180)
	zoneOf(lat, lon, sym.Choose("northern", 2) == 1)
}

// Positions out of range are errors.
//
//sym:mode=ord merge=off time=30
func C24_Range() {
	lat, lon := sym.Any("lat"), sym.Any("lon")
	switch sym.Choose("special", 8) {
	case 0:
		lat = math.NaN()
	case 1:
		lon = math.NaN()
	case 2:
		lat = math.Inf(1)
	case 3:
		lat = math.Inf(-1)
	case 4:
		lon = math.Inf(1)
	case 5:
		lon = math.Inf(-1)
	default:
		sym.Assume(sym.Or(lat < -80, lat > 84, lon < -180, lon > 180))
	}
	_, _, _, _, err := geo.FromLatLon(lat, lon, sym.Choose("northern", 2) == 1)
	sym.Assert(err != nil, "a position out of range is an error")
	sym.Assert(geo.ValidateLatLone(lat, lon) != nil, "a position out of range is not valid")
}

// Conversion from UTM accepts exactly what is in range.
//
//sym:mode=bv merge=off feas=0.03 inc=0.03 time=30
func C24_Accept() {
	e, n := sym.F("easting", -1<<21, 1<<21, -2), sym.F("northing", -1<<24, 1<<24, -2)
	switch sym.Choose("special", 6) {
	case 0:
		e = math.NaN()
	case 1:
		n = math.NaN()
	case 2:
		e = math.Inf(1)
	case 3:
		n = math.Inf(-1)
	}
	zone := sym.Int("zone", -100, 100)
	letter, ok := "", false
	var flag []bool
	if sym.Choose("lettered", 2) == 1 {
		c := sym.Byte("letter", "\x00 09@ABCDEFGHIJKLMNOPQRSTUVWXYZ[`abcdefghijklmnopqrstuvwxyz{\x7f")
		letter = string([]byte{c})
		for i := 0; i < len(bands); i++ {
			ok = sym.Or(ok, c == bands[i], c == bands[i]+'a'-'A')
		}
	}
	if sym.Choose("flagged", 2) == 1 {
		flag = []bool{sym.Choose("north", 2) == 1}
	}
	_, _, err := geo.ToLatLon(e, n, zone, letter, flag...)
	ok = sym.And(sym.Or(ok, letter == ""), (letter != "") != (len(flag) > 0))
	in := sym.And(e >= 100000, e < 1000000, n >= 0, n <= 10000000, zone >= 1, zone <= 60)
	sym.Assert(sym.Iff(err == nil, sym.And(ok, in)), "conversion from UTM accepts exactly values in range with a letter or a flag")
}

// away is a latitude north of the equator clear of the zone exceptions.
func away() float64 {
	if sym.Choose("high", 2) == 1 {
		return sym.F("lat", 65, 71, -10)
	}
	return sym.F("lat", 0.125, 55, -10)
}

// someZone is one of a few zones; the conversions use the zone only for its central meridian.
func someZone() int { return []int{31, 1, 60, 17}[sym.Choose("zone", sym.Bound("zones", 3, 4))] }

// Mirroring in the equator.
//
//sym:mode=real merge=off time=30
func C25_Equator() {
	lat := away()
	zone := someZone()
	lon := float64(zone*6-183) + sym.F("d", -2.9375, 2.9375, -10)
	e1, n1, z1, _, err1 := geo.FromLatLon(lat, lon, false)
	e2, n2, z2, _, err2 := geo.FromLatLon(-lat, lon, false)
	sym.Assert(err1 == nil && err2 == nil, "both positions are converted")
	sym.Assert(sym.And(z1 == z2, z1 == zone), "both positions are in the zone")
	sym.Assert(closeTo(e1, e2, 1e-3), "mirrored in the equator the easting is the same")
	sym.Assert(closeTo(n1, 10000000-n2, 1e-3), "mirrored in the equator the northing is the complement")
}

// Mirroring in the central meridian.
//
//sym:mode=real merge=off time=30
func C25_Meridian() {
	lat := away()
	if sym.Choose("south", 2) == 1 {
		lat = -lat
	}
	zone := someZone()
	mid := float64(zone*6 - 183)
	d := sym.F("d", 0.0625, 2.9375, -10)
	e1, n1, z1, _, err1 := geo.FromLatLon(lat, mid+d, false)
	e2, n2, z2, _, err2 := geo.FromLatLon(lat, mid-d, false)
	sym.Assert(err1 == nil && err2 == nil, "both positions are converted")
	sym.Assert(sym.And(z1 == z2, z1 == zone), "both positions are in the zone")
	sym.Assert(closeTo(e1, 1000000-e2, 1e-3), "mirrored in the central meridian the easting is the complement")
	sym.Assert(closeTo(n1, n2, 1e-3), "mirrored in the central meridian the northing is the same")
}

// The central meridian.
//
//sym:mode=real merge=off time=30
func C25_Central() {
	lat := sym.F("lat", -80, 71, -10)
	zone := someZone()
	e0, _, z, _, err := geo.FromLatLon(lat, float64(zone*6-183), false)
	sym.Assert(err == nil, "the position is converted")
	sym.Assert(sym.Or(z == zone, sym.And(lat >= 56, lat <= 64)), "the position is in its zone")
	sym.Assert(sym.Or(z != zone, e0 == 500000), "on the central meridian the easting is 500000")
}

// The inverse conversion has the same symmetries.
//
//sym:mode=real merge=off time=30
func C25_Inverse() {
	zone := someZone()
	d := sym.F("d", 0, 399999, -4)
	n := sym.F("northing", 0, 9200000, -4)
	lat, lon, err := geo.ToLatLon(500000+d, n, zone, "", true)
	lat2, lon2, err2 := geo.ToLatLon(500000+d, 10000000-n, zone, "", false)
	lat3, lon3, err3 := geo.ToLatLon(500000-d, n, zone, "", true)
	sym.Assert(err == nil && err2 == nil && err3 == nil, "all are converted")
	mid := float64(zone*6 - 183)
	sym.Assert(closeTo(lon, lon2, 1e-7), "mirrored in the equator the longitude is the same")
	sym.Assert(closeTo(lat, -lat2, 1e-7), "mirrored in the equator the latitude is the opposite")
	sym.Assert(closeTo(lon-mid, mid-lon3, 1e-7), "mirrored in the central meridian the longitude is the opposite")
	sym.Assert(closeTo(lat, lat3, 1e-7), "mirrored in the central meridian the latitude is the same")
}

// Letter and flag say the same.
//
//sym:mode=ord merge=off time=30
func C25_Letter() {
	zone := 31
	e := sym.Real("easting", 100000, 999999)
	n := sym.Real("northing", 0, 10000000)
	i := sym.Choose("letter", len(bands))
	l := bands[i : i+1]
	if sym.Choose("small", 2) == 1 {
		l = string([]byte{bands[i] + 'a' - 'A'})
	}
	lat, lon, err := geo.ToLatLon(e, n, zone, l)
	lat2, lon2, err2 := geo.ToLatLon(e, n, zone, "", i >= 10)
	sym.Assert(err == nil && err2 == nil, "both are converted")
	sym.Assert(sym.Or(lat == lat2, sym.And(lat != lat, lat2 != lat2)), "the letter and the flag of its hemisphere give the same latitude")
	sym.Assert(sym.Or(lon == lon2, sym.And(lon != lon, lon2 != lon2)), "the letter and the flag of its hemisphere give the same longitude")
}
