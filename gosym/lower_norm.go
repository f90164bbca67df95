package main

// Polynomial normal forms of integer expressions. Two expressions with the same normal form share one node, and
// comparisons are decided on (and shared through) the normal form of the difference.

import (
	"encoding/binary"
	"math/big"
	"sort"
)

const maxMonos = 600

type monomial struct {
	c  *big.Int
	at []*Node // sorted by id
}

type polynomial map[string]monomial // nil: too large

func monoKey(at []*Node) string {
	b := make([]byte, 4*len(at))
	for i, n := range at {
		binary.BigEndian.PutUint32(b[4*i:], uint32(n.id))
	}
	return string(b)
}

func (l *polyLow) polyOf(x NX) polynomial {
	if x.isC() {
		if x.lo.Sign() == 0 {
			return polynomial{}
		}
		return polynomial{"": {x.lo, nil}}
	}
	if p, ok := l.polys[x.n]; ok {
		return p
	}
	l.bound(x)
	at := []*Node{x.n}
	return polynomial{monoKey(at): {one(), at}}
}

// bound records the known bounds of an atom.
func (l *polyLow) bound(x NX) {
	if b, ok := l.abounds[x.n]; ok {
		lo, hi := b.lo, b.hi
		if x.lo.Cmp(lo) > 0 {
			lo = x.lo
		}
		if x.hi.Cmp(hi) < 0 {
			hi = x.hi
		}
		if bitsFor(lo, hi) == b.w() || !l.bv {
			l.abounds[x.n] = NX{x.n, lo, hi}
		}
		return
	}
	l.abounds[x.n] = x
}

func (p polynomial) addMono(k string, m monomial, s int64) {
	c := m.c
	if s < 0 {
		c = new(big.Int).Neg(c)
	}
	if o, ok := p[k]; ok {
		c = new(big.Int).Add(o.c, c)
		if c.Sign() == 0 {
			delete(p, k)
			return
		}
	}
	p[k] = monomial{c, m.at}
}

func polyAdd(a, b polynomial, s int64) polynomial {
	if a == nil || b == nil || len(a)+len(b) > 2*maxMonos {
		return nil
	}
	r := make(polynomial, len(a)+len(b))
	for k, m := range a {
		r[k] = m
	}
	for k, m := range b {
		r.addMono(k, m, s)
	}
	if len(r) > maxMonos {
		return nil
	}
	return r
}

func polyMul(a, b polynomial) polynomial {
	if a == nil || b == nil || len(a)*len(b) > 4*maxMonos {
		return nil
	}
	r := polynomial{}
	for _, m := range a {
		for _, n := range b {
			at := make([]*Node, 0, len(m.at)+len(n.at))
			i, j := 0, 0
			for i < len(m.at) || j < len(n.at) {
				if j == len(n.at) || i < len(m.at) && m.at[i].id <= n.at[j].id {
					at = append(at, m.at[i])
					i++
				} else {
					at = append(at, n.at[j])
					j++
				}
			}
			for i := 0; i+1 < len(at); i++ {
				if at[i].unit && at[i] == at[i+1] {
					at = append(at[:i], at[i+2:]...) // the square of a sign is 1
					i--
				}
			}
			if len(at) > 40 {
				return nil
			}
			r.addMono(monoKey(at), monomial{new(big.Int).Mul(m.c, n.c), at}, 1)
		}
	}
	if len(r) > maxMonos {
		return nil
	}
	return r
}

func (p polynomial) keys() []string {
	ks := make([]string, 0, len(p))
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (p polynomial) text() string {
	var b []byte
	for _, k := range p.keys() {
		b = append(b, byte(len(k)/4))
		b = append(b, k...)
		b = append(b, p[k].c.String()...)
		b = append(b, ';')
	}
	return string(b)
}

// bounds of the polynomial by interval arithmetic on its monomials.
func (l *polyLow) polyBounds(p polynomial) (*big.Int, *big.Int) {
	lo, hi := new(big.Int), new(big.Int)
	for _, m := range p {
		a, b := one(), one()
		for i := 0; i < len(m.at); {
			j := i
			for j < len(m.at) && m.at[j] == m.at[i] {
				j++
			}
			x := l.abounds[m.at[i]]
			e := int64(j - i)
			pl, ph := new(big.Int).Exp(x.lo, bi(e), nil), new(big.Int).Exp(x.hi, bi(e), nil)
			if pl.Cmp(ph) > 0 {
				pl, ph = ph, pl
			}
			if e%2 == 0 && x.lo.Sign() < 0 && x.hi.Sign() > 0 {
				pl = new(big.Int)
			}
			a, b = mulIv(a, b, pl, ph)
			i = j
		}
		a, b = mulIv(a, b, m.c, m.c)
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	return lo, hi
}

func mulIv(a, b, c, d *big.Int) (*big.Int, *big.Int) {
	var lo, hi *big.Int
	for _, p := range []*big.Int{a, b} {
		for _, q := range []*big.Int{c, d} {
			v := new(big.Int).Mul(p, q)
			if lo == nil || v.Cmp(lo) < 0 {
				lo = v
			}
			if hi == nil || v.Cmp(hi) > 0 {
				hi = v
			}
		}
	}
	return lo, hi
}

// norm returns the expression for p, preferring one that exists; build makes it with the given bounds.
func (l *polyLow) norm(p polynomial, lo, hi *big.Int, build func(lo, hi *big.Int) NX) NX {
	if p == nil {
		r := build(lo, hi)
		if r.n != nil {
			if _, ok := l.polys[r.n]; !ok {
				if _, ok := l.abounds[r.n]; !ok {
					l.abounds[r.n] = r
				}
			}
		}
		return r
	}
	if len(p) == 0 {
		return l.ci(0)
	}
	if m, ok := p[""]; ok && len(p) == 1 {
		return l.cst(m.c)
	}
	if len(p) == 1 {
		for _, m := range p {
			if len(m.at) == 1 && m.c.IsInt64() && m.c.Int64() == 1 {
				return l.abounds[m.at[0]]
			}
		}
	}
	k := p.text()
	if x, ok := l.byPoly[k]; ok {
		return x
	}
	a, b := l.polyBounds(p)
	if a.Cmp(lo) < 0 {
		a = lo
	}
	if b.Cmp(hi) > 0 {
		b = hi
	}
	r := build(a, b)
	if r.n == nil {
		return r
	}
	if _, ok := l.abounds[r.n]; !ok {
		if _, ok := l.polys[r.n]; !ok {
			l.polys[r.n] = p
		}
	}
	l.byPoly[k] = r
	return r
}

type signNodes struct{ neg, zero *Node }

// sign gives the nodes for d < 0 and d == 0, where d = a - b.
func (l *polyLow) sign(a, b NX) (neg, zero *Node) {
	d := polyAdd(l.polyOf(a), l.polyOf(b), -1)
	if d == nil {
		return l.rel("<", "bvslt", a, b), l.rel("=", "=", a, b)
	}
	if len(d) == 0 {
		return l.boolC(false), l.boolC(true)
	}
	if m, ok := d[""]; ok && len(d) == 1 {
		return l.boolC(m.c.Sign() < 0), l.boolC(false)
	}
	lo, hi := l.polyBounds(d)
	if lo.Sign() > 0 {
		return l.boolC(false), l.boolC(false)
	}
	if hi.Sign() < 0 {
		return l.boolC(true), l.boolC(false)
	}
	// canonical: divided by the content, first non-constant coefficient positive
	ks := d.keys()
	var g *big.Int
	for _, k := range ks {
		c := new(big.Int).Abs(d[k].c)
		if g == nil {
			g = c
		} else {
			g = new(big.Int).GCD(nil, nil, g, c)
		}
	}
	flip := false
	for _, k := range ks {
		if k != "" {
			flip = d[k].c.Sign() < 0
			break
		}
	}
	q := make(polynomial, len(d))
	for k, m := range d {
		c := new(big.Int).Quo(m.c, g)
		if flip {
			c.Neg(c)
		}
		q[k] = monomial{c, m.at}
	}
	key := q.text()
	s, ok := l.signs[key]
	if !ok {
		s = l.mkSign(q, a, b, flip)
		l.signs[key] = s
		l.signInfo[s.neg] = signInfo{q, false}
		l.signInfo[s.zero] = signInfo{q, true}
	}
	if !flip {
		return s.neg, s.zero
	}
	return l.bop("not", l.bop("or", s.neg, s.zero)), s.zero
}

// muls estimates the cost of an expression by its products of unknowns.
func (l *polyLow) muls(n *Node, seen map[*Node]bool) int {
	if seen[n] || len(seen) > 200 {
		return 0
	}
	seen[n] = true
	p, ok := l.polys[n]
	if !ok {
		return 0 // an atom
	}
	_ = p
	r := 0
	if len(n.deps) == 2 && (len(n.expr) > 6 && (n.expr[:6] == "(bvmul" || n.expr[:2] == "(*")) {
		r = 1
	}
	for _, d := range n.deps {
		r += l.muls(d, seen)
	}
	return r
}

// mkSign builds the comparisons of the canonical q with zero; a and b are the original sides (swapped if flip).
func (l *polyLow) mkSign(q polynomial, a, b NX, flip bool) signNodes {
	if flip {
		a, b = b, a
	}
	cost := 0
	seen := map[*Node]bool{}
	for _, x := range []NX{a, b} {
		if x.n != nil {
			cost += l.muls(x.n, seen)
		}
	}
	qc := 0
	for _, m := range q {
		if len(m.at) > 1 {
			qc += len(m.at) - 1
		}
	}
	if cost <= qc {
		return signNodes{l.rel("<", "bvslt", a, b), l.rel("=", "=", a, b)}
	}
	// positive and negative parts on either side
	pos, neg := l.ci(0), l.ci(0)
	for _, k := range q.keys() {
		m := q[k]
		t := l.cst(new(big.Int).Abs(m.c))
		if len(m.at) > 0 {
			e := l.abounds[m.at[0]]
			for _, n := range m.at[1:] {
				e = l.mul(e, l.abounds[n])
			}
			t = l.mul(e, t)
		}
		if m.c.Sign() > 0 {
			pos = l.add(pos, t)
		} else {
			neg = l.add(neg, t)
		}
	}
	return signNodes{l.rel("<", "bvslt", pos, neg), l.rel("=", "=", pos, neg)}
}

// alias notes that y is another node for the value of x.
func (l *polyLow) alias(x, y NX) NX {
	if p := l.polyOf(x); p != nil {
		if _, ok := l.polys[y.n]; !ok {
			if _, ok := l.abounds[y.n]; !ok {
				l.polys[y.n] = p
			}
		}
	}
	return y
}
