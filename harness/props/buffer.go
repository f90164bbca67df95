package props

import (
	"math"

	"harness/sym"

	geo "github.com/hzw456/go-geo"
)

// round asserts that the buffer is the regular polygon with 24 corners at distance r from c.
func round(b geo.Polygon, c geo.Point, r, eps float64) {
	sym.Assert(len(b) == 1, "a buffer has one ring")
	sym.Assert(len(b[0]) == 25, "the ring of a buffer has 24 corners")
	sym.Assert(same(b[0][0], b[0][24]), "the ring of a buffer is closed")
	for i := 0; i < 24; i++ {
		s, k := math.Sincos(float64(i) * math.Pi / 12)
		sym.Assert(closeTo(b[0][i].X, c.X+r*k, eps), "the corners of a buffer are at equal angles and at distance r (x)")
		sym.Assert(closeTo(b[0][i].Y, c.Y+r*s, eps), "the corners of a buffer are at equal angles and at distance r (y)")
	}
}

// A buffer of some radius.
//
//sym:mode=real merge=off time=30
func C29_Buffer() {
	c := gp(1<<20, -10)
	r := sym.F("r", 1.0/(1<<10), 1<<20, -10)
	round(c.Buffer(r), c, r, 1e-6)
}

// A buffer with a radius below the tolerance of coordinates.
//
//sym:mode=real merge=off time=30
func C29_Small() {
	c := gp(1, -10)
	r := sym.F("r", 1.0/(1<<34), 1.0/(1<<10), -40)
	round(c.Buffer(r), c, r, 1e-14)
}

// A buffer with a large radius.
//
//sym:mode=real merge=off time=30
func C29_Large() {
	c := gp(1<<20, -10)
	r := sym.F("r", 1<<20, 1<<40, 0)
	round(c.Buffer(r), c, r, 1)
}

// A buffer of width zero is the point, one of negative width nothing.
//
//sym:mode=ord merge=off time=30
func C29_None() {
	c := ap()
	r := sym.Any("r")
	sym.Assume(r < 0)
	sym.Assert(len(c.Buffer(r)) == 0, "a buffer of negative width is empty")
}

// The point is inside its buffer, which runs counter-clockwise.
//
//sym:mode=real merge=off feas=0.1 inc=0.1 time=30
func C29_Inside() {
	c := gp(1<<10, -4)
	r := sym.F("r", 1, 1<<10, -4)
	b := c.Buffer(r)
	for i := 1; i < len(b[0]); i++ {
		sym.Assert(cross(c, b[0][i-1], b[0][i]) > 0, "the point is to the left of every edge of its buffer")
	}
}
