package main

// Linear relaxation of bit-vector queries. Every monomial over the unknowns becomes a real unknown of its own, with
// facts that hold for products of integers; the sign tests on polynomials become linear. An unsatisfiable relaxation
// proves the original unsatisfiable. In the nra variant the monomials are real products.

import (
	"fmt"
	"math/big"
	"strings"
)

type signInfo struct {
	q    polynomial
	zero bool
}
type relInfo struct {
	op   string
	a, b NX
}
type iteInfo struct {
	g    *Node
	a, b NX
}
type prodInfo struct{ a, b, p polynomial }

type relaxer struct {
	l     *polyLow
	g     *Graph
	nra   bool
	tw    map[*Node]*Node
	atoms map[*Node]*Node
	monos map[string]*Node
	lins  map[string]*Node
	nprod int
	pairs [][2]*Node
	seenP map[[2]*Node]int
	deg2  [][]*Node
	eqd   map[[2]string]bool
	prods map[string][]prodInfo
}

func newRelaxer(l *polyLow, nra bool) *relaxer {
	return &relaxer{l: l, g: NewGraph(), nra: nra, tw: map[*Node]*Node{}, atoms: map[*Node]*Node{}, monos: map[string]*Node{}, lins: map[string]*Node{}, prods: map[string][]prodInfo{},
		seenP: map[[2]*Node]int{}, eqd: map[[2]string]bool{}}
}

func rint(v *big.Int) string { return smtInt(v, true) }

// lin gives the node for the value of p.
func (r *relaxer) lin(p polynomial) *Node {
	k := p.text()
	if n, ok := r.lins[k]; ok {
		return n
	}
	var parts []string
	var deps []*Node
	for _, mk := range p.keys() {
		m := p[mk]
		if len(m.at) == 0 {
			parts = append(parts, rint(m.c))
			continue
		}
		n := r.mono(m.at)
		deps = append(deps, n)
		if m.c.IsInt64() && m.c.Int64() == 1 {
			parts = append(parts, n.name)
		} else {
			parts = append(parts, fmt.Sprintf("(* %s %s)", rint(m.c), n.name))
		}
	}
	var e string
	switch len(parts) {
	case 0:
		e = "0.0"
	case 1:
		e = parts[0]
	default:
		e = "(+ " + strings.Join(parts, " ") + ")"
	}
	n := r.g.mk("Real", e, deps...)
	r.lins[k] = n
	return n
}

func (r *relaxer) b(format string, deps ...*Node) *Node {
	as := make([]interface{}, len(deps))
	for i, d := range deps {
		as[i] = d.name
	}
	return r.g.mk("Bool", fmt.Sprintf(format, as...), deps...)
}

func (r *relaxer) mono(at []*Node) *Node {
	k := monoKey(at)
	if n, ok := r.monos[k]; ok {
		return n
	}
	l := r.l
	one := big.NewInt(1)
	if len(at) == 1 {
		a := at[0]
		n := r.g.con(fmt.Sprintf("a%d", a.id), "Real")
		r.monos[k] = n
		x := l.abounds[a]
		n.aux = append(n.aux, r.b(fmt.Sprintf("(and (<= %s %%s) (<= %%s %s))", rint(x.lo), rint(x.hi)), n, n))
		if it, ok := l.iteInfo[a]; ok {
			if pa, pb := l.polyOf(it.a), l.polyOf(it.b); pa != nil && pb != nil {
				r.iteFact(n, it.g, pa, pb)
			}
		}
		for _, f := range a.aux {
			n.aux = append(n.aux, r.twin(f))
		}
		return n
	}
	var n *Node
	// an ite among the atoms: distribute
	for i, a := range at {
		it, ok := l.iteInfo[a]
		if !ok || r.nra {
			continue
		}
		rest := make([]*Node, 0, len(at)-1)
		rest = append(append(rest, at[:i]...), at[i+1:]...)
		rp := polynomial{monoKey(rest): {one, rest}}
		pa, pb := polyMul(rp, l.polyOf(it.a)), polyMul(rp, l.polyOf(it.b))
		if pa == nil || pb == nil {
			continue
		}
		n = r.g.con(fmt.Sprintf("m%d", len(r.monos)), "Real")
		r.monos[k] = n
		r.iteFact(n, it.g, pa, pb)
		return n
	}
	last := at[len(at)-1]
	p := r.mono(at[:len(at)-1])
	q := r.mono(at[len(at)-1:])
	if r.nra {
		n = r.g.mk("Real", fmt.Sprintf("(* %s %s)", p.name, q.name), p, q)
		r.monos[k] = n
		return n
	}
	n = r.g.con(fmt.Sprintf("m%d", len(r.monos)), "Real")
	r.monos[k] = n
	plo, phi := l.polyBounds(polynomial{"": {one, at[:len(at)-1]}})
	x := l.abounds[last]
	r.prodFact(n, p, q, n, plo, phi, x.lo, x.hi, len(at) == 2 && at[0] == at[1])
	if len(at) == 2 {
		r.deg2 = append(r.deg2, at)
	}
	for _, pi := range r.prods[k] {
		r.addProd(n, pi)
	}
	return n
}

func (r *relaxer) addProd(n *Node, pi prodInfo) {
	alo, ahi := r.l.polyBounds(pi.a)
	blo, bhi := r.l.polyBounds(pi.b)
	r.prodFact(n, r.lin(pi.a), r.lin(pi.b), r.lin(pi.p), alo, ahi, blo, bhi, pi.a.text() == pi.b.text())
}

func (r *relaxer) iteFact(n, g *Node, pa, pb polynomial) {
	t := r.twin(g)
	a, b := r.lin(pa), r.lin(pb)
	n.aux = append(n.aux, r.b("(=> %s (= %s %s))", t, n, a), r.b("(or %s (= %s %s))", t, n, b))
}

// prodFact attaches facts on p = a*b to n.
func (r *relaxer) prodFact(n, a, b, p *Node, alo, ahi, blo, bhi *big.Int, square bool) {
	mc := func(op string, u, v *big.Int) *Node {
		// p op u*b + v*a - u*v
		return r.g.mk("Bool", fmt.Sprintf("(%s %s (- (+ (* %s %s) (* %s %s)) %s))", op, p.name, rint(u), b.name, rint(v), a.name, rint(new(big.Int).Mul(u, v))), p, a, b)
	}
	n.aux = append(n.aux, mc(">=", alo, blo), mc(">=", ahi, bhi), mc("<=", alo, bhi), mc("<=", ahi, blo))
	if square {
		n.aux = append(n.aux, r.b("(>= %s 0.0)", p), r.b("(>= %s %s)", p, a), r.b("(>= %s (- %s))", p, a))
		return
	}
	n.aux = append(n.aux,
		r.b("(=> (= %s 0.0) (= %s 0.0))", a, p), r.b("(=> (= %s 0.0) (= %s 0.0))", b, p),
		r.b("(=> (and (>= %s 1.0) (>= %s 1.0)) (>= %s (- (+ %s %s) 1.0)))", a, b, p, a, b),
		r.b("(=> (and (<= %s (- 1.0)) (<= %s (- 1.0))) (>= %s (- (- (- %s) %s) 1.0)))", a, b, p, a, b),
		r.b("(=> (and (>= %s 1.0) (<= %s (- 1.0))) (<= %s (+ (- %s %s) 1.0)))", a, b, p, b, a),
		r.b("(=> (and (<= %s (- 1.0)) (>= %s 1.0)) (<= %s (+ (- %s %s) 1.0)))", a, b, p, a, b))
}

// pair notes a comparison of two unknowns.
func (r *relaxer) pair(q polynomial) {
	if len(q) != 2 || r.nra {
		return
	}
	var x, y *Node
	for _, m := range q {
		if len(m.at) != 1 || !m.c.IsInt64() {
			return
		}
		switch m.c.Int64() {
		case 1:
			x = m.at[0]
		case -1:
			y = m.at[0]
		}
	}
	if x == nil || y == nil {
		return
	}
	k := [2]*Node{x, y}
	if _, ok := r.seenP[k]; !ok {
		r.seenP[k] = 0
		r.pairs = append(r.pairs, k)
	}
}

// congruence adds x = y => x*z = y*z for compared unknowns x, y.
func (r *relaxer) congruence() {
	for n := -1; n != len(r.deg2); {
		n = len(r.deg2)
		r.congruence1()
	}
}

func (r *relaxer) congruence1() {
	paired := map[*Node]bool{}
	for _, p := range r.pairs {
		paired[p[0]], paired[p[1]] = true, true
	}
	for _, p := range r.pairs {
		from := r.seenP[p]
		r.seenP[p] = len(r.deg2)
		for _, at := range r.deg2[from:] {
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if at[i] != p[j] {
						continue
					}
					z, y := at[1-i], p[1-j]
					o := []*Node{y, z}
					if o[0].id > o[1].id {
						o[0], o[1] = o[1], o[0]
					}
					k, k2 := monoKey(at), monoKey(o)
					n2, ok := r.monos[k2]
					if r.eqd[[2]string{k, k2}] {
						continue
					}
					if !ok {
						if !paired[z] || len(r.deg2) > 300 {
							continue
						}
						n2 = r.mono(o)
					}
					r.eqd[[2]string{k, k2}], r.eqd[[2]string{k2, k}] = true, true
					n := r.monos[k]
					if n.hasAx {
						if n2.hasAx {
							continue
						}
						n, n2 = n2, n
					}
					n.aux = append(n.aux, r.b("(=> (= %s %s) (= %s %s))", r.mono(p[:1]), r.mono(p[1:]), n, n2))
				}
			}
		}
	}
}

// sync takes over products recorded since.
func (r *relaxer) sync() {
	if r.nra {
		return
	}
	for ; r.nprod < len(r.l.prods); r.nprod++ {
		pi := r.l.prods[r.nprod]
		ks := pi.p.keys()
		best := ""
		for _, k := range ks {
			if len(k) > 4 {
				best = k
			}
		}
		if best == "" {
			continue
		}
		if n, ok := r.monos[best]; ok {
			if !n.hasAx {
				r.addProd(n, pi)
			}
			continue
		}
		r.prods[best] = append(r.prods[best], pi)
	}
}

func (r *relaxer) twin(n *Node) *Node {
	if t, ok := r.tw[n]; ok {
		return t
	}
	t := r.twin1(n)
	r.tw[n] = t
	return t
}

func (r *relaxer) twin1(n *Node) *Node {
	l := r.l
	if s, ok := l.signInfo[n]; ok {
		e := r.lin(s.q)
		r.pair(s.q)
		var t *Node
		if s.zero {
			t = r.b("(= %s 0.0)", e)
		} else {
			t = r.b("(<= %s (- 1.0))", e)
		}
		if len(e.aux) == 0 {
			lo, hi := l.polyBounds(s.q)
			e.aux = append(e.aux, r.b("(or (<= %s (- 1.0)) (= %s 0.0) (>= %s 1.0))", e, e, e),
				r.b(fmt.Sprintf("(and (<= %s %%s) (<= %%s %s))", rint(lo), rint(hi)), e, e))
		}
		return t
	}
	if q, ok := l.relInfo[n]; ok {
		pa, pb := l.polyOf(q.a), l.polyOf(q.b)
		if pa != nil && pb != nil {
			return r.b("("+q.op+" %s %s)", r.lin(pa), r.lin(pb))
		}
	}
	if n.decl == "" && n.sort == "Bool" {
		if n.expr == "true" || n.expr == "false" {
			return r.g.mk("Bool", n.expr)
		}
		ok := len(n.deps) > 0
		parts := []string{}
		for _, d := range n.deps {
			ok = ok && d.sort == "Bool"
			parts = append(parts, d.name)
		}
		if i := strings.IndexByte(n.expr, ' '); ok && i > 0 && n.expr == n.expr[:i]+" "+strings.Join(parts, " ")+")" {
			op := n.expr[1:i]
			switch op {
			case "and", "or", "not", "=>", "=", "ite", "xor":
				nd := make([]*Node, len(n.deps))
				for j, d := range n.deps {
					nd[j] = r.twin(d)
				}
				return r.b("("+op+strings.Repeat(" %s", len(nd))+")", nd...)
			}
		}
	}
	t := r.g.con(fmt.Sprintf("b%d", n.id), "Bool")
	r.tw[n] = t
	if n.decl != "" {
		for _, a := range n.aux {
			t.aux = append(t.aux, r.twin(a))
		}
	}
	return t
}

// twins translates a query, with the facts of all unknowns it mentions.
func (r *relaxer) twins(ns []*Node) []*Node {
	r.sync()
	var out []*Node
	for _, n := range ns {
		out = append(out, r.twin(n))
	}
	r.congruence()
	return out
}

// input is the unknown that stands for an input, nil if none does so far.
func (r *relaxer) input(t *Term) *Node {
	if t.sort == SFloat && !gridVar(t) {
		return nil
	}
	n := r.l.Var(t)
	if t.sort == SBool {
		return r.tw[n]
	}
	return r.monos[monoKey([]*Node{n})]
}
