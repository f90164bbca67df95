package main

// Path exploration: decisions, speculative merging of branches, assertion queries.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Model struct {
	vals map[string]uint64
	memo map[int32]evalRes
	seed int
}

type pcEnt struct {
	t     *Term
	model *Model
	id    int32
	known []int32 // ids made known by this entry
}

type feasKey struct {
	pc   int32
	cond int32
}
type feasRes struct {
	r Res
	m *Model
}

type workItem struct {
	prefix []byte
	model  map[string]uint64
}

// Exec is one worker's interpreter.
type Exec struct {
	c         *Ctx
	low       Lowerer
	prog      *ssa.Program
	globals   map[*ssa.Global]Ptr
	inited    map[*ssa.Package]bool
	fis       map[*ssa.Function]*FnInfo
	journal   []undoRec
	steps     int64
	absMemo   map[string][]float64
	stepLimit int64
	depth     int
	curFn     *ssa.Function
	rtErrType types.Type
	spec      int
	allocs    []allocRange
	pc        []pcEnt
	base      *Model
	known     map[int32]bool
	pcIDs     map[[2]int32]int32
	feasC     map[feasKey]feasRes
	assertC   map[feasKey]Res
	solver    *Solver
	pool      []*Model
	poolAt    int
	rel       *relaxer
	relSolver *Solver
	solver2   *Solver
	prefix    []byte
	pos       int
	log       []byte
	item      *workItem
	mergeFail map[*ssa.If]int
	again     bool // a merge is being repeated
	names     map[string]int
	inputs    []string
	obs       []string
	reached   bool
	nobs      int
	tokN      int
	run       *Run
	fns       map[*ssa.Function]bool
	concIn    map[string]uint64 // concrete mode: inputs
	conc      bool
	clock     int64
	rnd       *rand.Rand
	ghashes   map[string]ghash
	s2covers  []s2cover
	ncand     int
}

type allocRange struct {
	lo, hi uintptr
}

// Run is the shared state of one harness run.
type Run struct {
	concTime   atomic.Int64 // spent concretising
	blind    atomic.Int64 // paths that could not be followed and were tried
	h          *Harness
	mode       Mode
	tier       string
	seed       int64
	deadline   time.Time
	mu         sync.Mutex
	queue      []workItem
	active     int
	cond       *sync.Cond
	stop       atomic.Bool
	paths      int64
	endReasons map[string]int
	asserts    map[string]*assertStat
	violations []*Violation
	unconf     map[string]int
	notes      map[string]bool
	assume     map[string]bool
	fns        map[string]bool
	bounds     map[string]string
	steps      int64
	merges     int64
	forks      int64
	witness    map[string]uint64 // inputs of a completed path
	witObs     []string
	witOK      string
	stubs      map[string]bool
	samples    []map[string]interface{}
	loader     *Loader
	maxPaths   int64
	validated  int
	mismatch   int
	concBad    bool
	left       int
	wall       time.Duration
	done       atomic.Bool
}

type assertStat struct {
	proved, trivial, unknown, violated int64
}

type Violation struct {
	Msg     string
	Inputs  map[string]uint64
	Kind    string
	Replay  string
	Harness string
}

func (x *Exec) note(s string) {
	x.run.mu.Lock()
	x.run.notes[s] = true
	x.run.mu.Unlock()
}
func (x *Exec) assumption(s string) {
	x.run.mu.Lock()
	x.run.assume[s] = true
	x.run.mu.Unlock()
}
func (x *Exec) stub(s string) {
	x.run.mu.Lock()
	x.run.stubs[s] = true
	x.run.mu.Unlock()
}

func (x *Exec) fnSeen(fn *ssa.Function) { x.fns[fn] = true }

func (x *Exec) inScope(p *ssa.Package) bool {
	return strings.HasPrefix(p.Pkg.Path(), "github.com/hzw456/go-geo") || strings.HasPrefix(p.Pkg.Path(), "harness")
}

// ---------- path condition

func (x *Exec) pcID() int32 {
	if len(x.pc) == 0 {
		return 0
	}
	return x.pc[len(x.pc)-1].id
}

func (x *Exec) topModel() *Model {
	if len(x.pc) == 0 {
		return x.base
	}
	return x.pc[len(x.pc)-1].model
}

func (x *Exec) push(t *Term, m *Model) {
	k := [2]int32{x.pcID(), t.id}
	id, ok := x.pcIDs[k]
	if !ok {
		id = int32(len(x.pcIDs) + 1)
		x.pcIDs[k] = id
	}
	if m == nil {
		if tm := x.topModel(); tm != nil {
			if v, ok := x.evalBool(t, tm); ok && v {
				m = tm
			}
		}
	}
	e := pcEnt{t: t, model: m, id: id}
	x.learn(t, true, &e)
	x.pc = append(x.pc, e)
}

func (x *Exec) learn(t *Term, v bool, e *pcEnt) {
	if _, ok := x.known[t.id]; ok {
		return
	}
	x.known[t.id] = v
	e.known = append(e.known, t.id)
	if t.op == ONot {
		x.learn(t.a[0], !v, e)
		return
	}
	if v && t.op == OAnd {
		x.learn(t.a[0], true, e)
		x.learn(t.a[1], true, e)
	}
}

func (x *Exec) popTo(n int) {
	for i := len(x.pc) - 1; i >= n; i-- {
		for _, id := range x.pc[i].known {
			delete(x.known, id)
		}
	}
	x.pc = x.pc[:n]
}

func (x *Exec) isKnown(t *Term) (bool, bool) {
	if v, ok := x.known[t.id]; ok {
		return v, true
	}
	if t.op == ONot {
		if v, ok := x.known[t.a[0].id]; ok {
			return !v, true
		}
	}
	if t.op == OAnd {
		a, oka := x.isKnown(t.a[0])
		b, okb := x.isKnown(t.a[1])
		if oka && !a || okb && !b {
			return false, true
		}
		if oka && okb {
			return true, true
		}
	}
	if t.op == ONot && t.a[0].op == OAnd {
		v, ok := x.isKnown(t.a[0])
		return !v, ok
	}
	return false, false
}

func (x *Exec) pcNodes() []*Node {
	r := make([]*Node, len(x.pc))
	for i, e := range x.pc {
		r[i] = x.low.Bool(e.t)
	}
	return r
}

func (x *Exec) varNodes() ([]*Node, []*Term) {
	var ns []*Node
	var ts []*Term
	for _, n := range x.inputs {
		t := x.c.vars[n]
		if t == nil || t.op != OVar {
			continue
		}
		ns = append(ns, x.low.Var(t))
		ts = append(ts, t)
	}
	return ns, ts
}

func (x *Exec) parseModel(vals map[string]string, ns []*Node, ts []*Term) *Model {
	if vals == nil {
		return nil
	}
	m := &Model{vals: map[string]uint64{}, memo: map[int32]evalRes{}}
	for i, n := range ns {
		v, ok := x.low.ParseVar(ts[i], vals[n.name])
		if !ok {
			return nil
		}
		m.vals[ts[i].name] = clampVar(ts[i], v)
	}
	return m
}

// clampVar moves the value of an input outside the query's cone (so unconstrained there) into its domain.
func clampVar(t *Term, v uint64) uint64 {
	switch t.sort {
	case SInt:
		if s := sext(v, t.w); s < t.ilo || s > t.ihi {
			return uint64(min(max(s, t.ilo), t.ihi)) & mask(t.w)
		}
	case SFloat:
		f := bitsF(v)
		if gridVar(t) {
			lo, hi := gridRange(t)
			u := math.Ldexp(1, t.grid)
			if !(f >= float64(lo)*u) {
				return fBits(float64(lo) * u)
			}
			if f > float64(hi)*u {
				return fBits(float64(hi) * u)
			}
			return v
		}
		if !(f >= t.lo) {
			return fBits(t.lo)
		}
		if f > t.hi {
			return fBits(t.hi)
		}
	}
	return v
}

func (x *Exec) modelHolds(m *Model, extra *Term) bool {
	if m == nil {
		return false
	}
	for _, e := range x.pc {
		if v, ok := x.evalBool(e.t, m); !ok || !v {
			return false
		}
	}
	if extra != nil {
		if v, ok := x.evalBool(extra, m); !ok || !v {
			return false
		}
	}
	return true
}

// sat asks whether cond is possible on the current path.
func (x *Exec) sat(cond *Term) (Res, *Model) {
	if v, ok := x.isKnown(cond); ok {
		if v {
			return Sat, x.topModel()
		}
		return Unsat, nil
	}
	if m := x.topModel(); m != nil {
		if v, ok := x.evalBool(cond, m); ok && v {
			return Sat, m
		}
	}
	k := feasKey{x.pcID(), cond.id}
	if r, ok := x.feasC[k]; ok {
		return r.r, r.m
	}
	if x.run.stop.Load() {
		panic(pathEnd{"stopped"})
	}
	if time.Now().After(x.run.deadline) {
		panic(pathEnd{"deadline"})
	}
	if m := x.guessed(cond); m != nil {
		x.feasC[k] = feasRes{Sat, m}
		return Sat, m
	}
	pcs, cn := x.pcNodes(), x.low.Bool(cond)
	if r, m := x.relaxed(pcs, cn, cond, x.run.h.feasTimeout); r != Unknown {
		x.found(m)
		x.feasC[k] = feasRes{r, m}
		return r, m
	}
	ns, ts := x.varNodes()
	r, vals := x.solver.Check(pcs, cn, ns, x.run.h.feasTimeout)
	var m *Model
	if r == Sat {
		m = x.parseModel(vals, ns, ts)
		if !x.modelHolds(m, cond) {
			m = nil
		}
		x.found(m)
	}
	x.feasC[k] = feasRes{r, m}
	return r, m
}

// relaxed decides by the linear relaxation: Unsat if that is excluded, Sat if its solution, rounded, is a real one.
func (x *Exec) relaxed(pcs []*Node, n *Node, cond *Term, d time.Duration) (Res, *Model) {
	l, ok := x.low.(*polyLow)
	if !ok || !l.bv {
		return Unknown, nil
	}
	if x.rel == nil {
		x.rel = newRelaxer(l, false)
		x.relSolver = &Solver{cmd: []string{"z3-new", "-in", "-smt2"}, logic: "QF_LRA"}
	}
	t := x.rel.twins(append(append([]*Node(nil), pcs...), n))
	var vars []*Node
	var ts []*Term
	for _, name := range x.inputs {
		v := x.c.vars[name]
		if v == nil || v.op != OVar {
			continue
		}
		if rn := x.rel.input(v); rn != nil {
			vars, ts = append(vars, rn), append(ts, v)
		}
	}
	r, vals := x.relSolver.Check(t[:len(pcs)], t[len(pcs)], vars, d)
	if r != Unsat && dumpDir != "" && d > time.Second {
		dumpScript(";relaxed " + r.String() + "\n" + script("QF_LRA", t, nil))
	}
	if r != Sat || vals == nil {
		if r == Sat {
			r = Unknown
		}
		return r, nil
	}
	for _, off := range []float64{0.5, 0, 0.999} {
		m := &Model{vals: map[string]uint64{}, memo: map[int32]evalRes{}, seed: 1}
		if tm := x.topModel(); tm != nil {
			for k, v := range tm.vals {
				m.vals[k] = v
			}
			m.seed = tm.seed
		}
		whole := true
		for i, v := range vars {
			if ts[i].sort == SBool {
				m.vals[ts[i].name] = b2u(vals[v.name] == "true")
				continue
			}
			q := parseRat(vals[v.name])
			if q == nil {
				return Unknown, nil
			}
			whole = whole && q.IsInt()
			f, _ := q.Float64()
			f = math.Floor(f + off)
			if ts[i].sort == SInt {
				m.vals[ts[i].name] = uint64(int64(f)) & mask(ts[i].w)
			} else {
				if gridVar(ts[i]) {
					f = math.Ldexp(f, ts[i].grid)
				}
				m.vals[ts[i].name] = fBits(f + 0)
			}
			m.vals[ts[i].name] = clampVar(ts[i], m.vals[ts[i].name])
		}
		if x.modelHolds(m, cond) {
			return Sat, m
		}
		if whole {
			break
		}
	}
	return Unknown, nil
}

// decide returns the truth of cond on this path, forking if both are possible.
func (x *Exec) decide(cond *Term) bool {
	if cond.isConst() {
		return cond.isTrue()
	}
	if v, ok := x.isKnown(cond); ok {
		return v
	}
	if x.conc {
		v, ok := x.evalBool(cond, x.base)
		if !ok {
			unsup("concrete evaluation")
		}
		return v
	}
	if x.spec > 0 {
		rt, _ := x.sat(cond)
		if rt == Unsat {
			return false
		}
		rf, _ := x.sat(x.c.Not(cond))
		if rf == Unsat {
			return true
		}
		panic(abortSpec{"fork"})
	}
	if x.pos < len(x.prefix) {
		d := x.prefix[x.pos]
		x.pos++
		x.log = append(x.log, d)
		return x.applyDecision(d, cond)
	}
	return x.fork(cond)
}

func (x *Exec) applyDecision(d byte, cond *Term) bool {
	var v bool
	switch d {
	case 'T':
		x.push(cond, nil)
		v = true
	case 'F':
		x.push(x.c.Not(cond), nil)
	case 't':
		v = true
	case 'f':
	default:
		panic(engineErr{"replay divergence"})
	}
	if x.pos == len(x.prefix) && x.item != nil && x.item.model != nil {
		m := &Model{vals: x.item.model, memo: map[int32]evalRes{}}
		if x.modelHolds(m, nil) {
			if len(x.pc) > 0 {
				x.pc[len(x.pc)-1].model = m
			} else {
				x.base = m
			}
		}
	}
	return v
}

// fork decides cond afresh, queueing the other side.
func (x *Exec) fork(cond *Term) bool {
	nc := x.c.Not(cond)
	rt, mt := x.sat(cond)
	if rt == Unsat {
		x.log = append(x.log, 'f')
		x.prefixExtend()
		return false
	}
	rf, mf := x.sat(nc)
	if rf == Unsat {
		x.log = append(x.log, 't')
		x.prefixExtend()
		return true
	}
	// follow the side the current model takes
	first := true
	if tm := x.topModel(); tm != nil {
		if v, ok := x.evalBool(cond, tm); ok {
			first = v
		}
	}
	atomic.AddInt64(&x.run.forks, 1)
	other := byte('F')
	om := mf
	if !first {
		other, om = 'T', mt
	}
	it := workItem{prefix: append(append([]byte(nil), x.log...), other)}
	if om != nil {
		it.model = om.vals
	}
	x.run.add(it)
	if first {
		x.log = append(x.log, 'T')
		x.push(cond, mt)
	} else {
		x.log = append(x.log, 'F')
		x.push(nc, mf)
	}
	x.prefixExtend()
	return first
}

func (x *Exec) prefixExtend() { x.pos = len(x.log); x.prefix = x.log }

func (r *Run) add(it workItem) {
	r.mu.Lock()
	r.queue = append(r.queue, it)
	r.mu.Unlock()
	r.cond.Signal()
}

type outcome struct {
	merged bool
	taken  bool
	join   *ssa.BasicBlock
	phis   []Value
}

func (x *Exec) branch(fr *Frame, in *ssa.If, cond *Term) outcome {
	if v, ok := x.isKnown(cond); ok {
		return outcome{taken: v}
	}
	if x.conc {
		return outcome{taken: x.decide(cond)}
	}
	inf := fr.fi.ifs[in]
	if x.spec == 0 && x.pos < len(x.prefix) {
		d := x.prefix[x.pos]
		x.pos++
		x.log = append(x.log, d)
		if d == 'M' {
			x.again = true
			o, ok, why := x.tryMerge(fr, in, cond)
			x.again = false
			if !ok {
				panic(engineErr{"replay divergence in a merge: " + why})
			}
			if x.pos == len(x.prefix) && x.item != nil && x.item.model != nil {
				m := &Model{vals: x.item.model, memo: map[int32]evalRes{}}
				if x.modelHolds(m, nil) && len(x.pc) > 0 {
					x.pc[len(x.pc)-1].model = m
				}
			}
			return o
		}
		return outcome{taken: x.applyDecision(d, cond)}
	}
	can := x.run.h.merge && inf.mergeable && x.spec < 400
	if can && (inf.appends && !x.again && x.mergeFail[in] > 0 || x.spec == 0 && x.mergeFail[in] >= 3) {
		can = false
	}
	if can && inf.simple {
		if o, ok, _ := x.tryMerge(fr, in, cond); ok {
			if x.spec == 0 {
				x.log = append(x.log, 'M')
				x.prefixExtend()
			}
			return o
		}
		can = false
	}
	rt, _ := x.sat(cond)
	rf := Sat
	if rt != Unsat {
		rf, _ = x.sat(x.c.Not(cond))
	}
	if rt == Unsat || rf == Unsat {
		if x.spec == 0 {
			if rt == Unsat {
				x.log = append(x.log, 'f')
			} else {
				x.log = append(x.log, 't')
			}
			x.prefixExtend()
		}
		return outcome{taken: rt != Unsat}
	}
	if can {
		o, ok, why := x.tryMerge(fr, in, cond)
		if ok {
			x.mergeFail[in] = 0
			if x.spec == 0 {
				x.log = append(x.log, 'M')
				x.prefixExtend()
				atomic.AddInt64(&x.run.merges, 1)
			}
			return o
		}
		if inf.appends {
			x.mergeFail[in]++
		}
		if x.spec == 0 {
			x.mergeFail[in]++
		}
		dbg2("no merge(%d) at %s in %s: %s", x.spec, x.prog.Fset.Position(in.Cond.Pos()), fr.fn, why)
	}
	if x.spec > 0 {
		panic(abortSpec{"fork at " + x.prog.Fset.Position(in.Cond.Pos()).String()})
	}
	return outcome{taken: x.fork(cond)}
}

type sideRes struct {
	env    []Value
	phis   []Value
	result Value
	writes map[*Value]Value
	order  []*Value
}

func (x *Exec) runSide(fr *Frame, succ, prev *ssa.BasicBlock, stop stopAt, cond *Term, a0 int) (s *sideRes, why string) {
	j0, p0, d0, fn0, st0 := len(x.journal), len(x.pc), x.depth, x.curFn, x.spec
	env0 := append([]Value(nil), fr.env...)
	res0 := fr.result
	restore := func() {
		x.undoTo(j0)
		x.popTo(p0)
		x.depth, x.curFn = d0, fn0
		x.spec = st0
		copy(fr.env, env0)
		fr.result = res0
	}
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		restore()
		s = nil
		switch e := r.(type) {
		case abortSpec:
			why = e.why
		case goPanic:
			why = "panic: " + e.msg
		case pathEnd:
			if e.reason == "deadline" || e.reason == "stopped" {
				panic(r)
			}
			why = e.reason
		case Unsupported:
			why = e.msg
		default:
			panic(r)
		}
	}()
	x.spec++
	x.push(cond, nil)
	end := x.run_(fr, succ, prev, stop)
	x.spec--
	s = &sideRes{writes: map[*Value]Value{}}
	for _, r := range x.journal[j0:] {
		if r.f != nil {
			restore()
			return nil, "map or iterator update"
		}
		if _, ok := s.writes[r.p]; !ok {
			s.writes[r.p] = *r.p
			s.order = append(s.order, r.p)
		}
	}
	s.phis = end.phis
	s.result = fr.result
	s.env = append([]Value(nil), fr.env...)
	restore()
	return s, ""
}

func (x *Exec) run_(fr *Frame, b, prev *ssa.BasicBlock, stop stopAt) runEnd {
	return x.run1(fr, b, prev, stop)
}

func (x *Exec) tryMerge(fr *Frame, in *ssa.If, cond *Term) (o outcome, ok bool, why string) {
	blk := in.Block()
	join := fr.fi.ipdom[blk.Index]
	stop := stopAt{block: join, exit: join == nil}
	a0 := len(x.allocs)
	st, why := x.runSide(fr, blk.Succs[0], blk, stop, cond, a0)
	if st == nil {
		if x.spec == 0 {
			x.allocs = x.allocs[:0]
		}
		return o, false, why
	}
	sf, why := x.runSide(fr, blk.Succs[1], blk, stop, x.c.Not(cond), a0)
	if sf == nil {
		if x.spec == 0 {
			x.allocs = x.allocs[:0]
		}
		return o, false, why
	}
	fresh := x.allocs[a0:]
	isFresh := func(p *Value) bool {
		q := addrOf(p)
		for _, r := range fresh {
			if q >= r.lo && q < r.hi {
				return true
			}
		}
		return false
	}
	type wr struct {
		p *Value
		v Value
	}
	var ws []wr
	for _, p := range append(append([]*Value(nil), st.order...), sf.order...) {
		if isFresh(p) {
			continue
		}
		va, ina := st.writes[p]
		vb, inb := sf.writes[p]
		if !ina {
			va = *p
		}
		if !inb {
			vb = *p
		}
		v, k := x.merge(cond, va, vb)
		if !k {
			return o, false, fmt.Sprintf("stores of %T and %T", va, vb)
		}
		ws = append(ws, wr{p, v})
	}
	if join == nil {
		v, k := x.merge(cond, st.result, sf.result)
		if !k {
			return o, false, "results cannot be merged"
		}
		fr.result = v
	} else {
		for i := range st.phis {
			v, k := x.merge(cond, st.phis[i], sf.phis[i])
			if !k {
				// the phi may be dead
				return o, false, fmt.Sprintf("phi of %T and %T", st.phis[i], sf.phis[i])
			}
			o.phis = append(o.phis, v)
		}
		nenv := make([]Value, len(fr.env))
		for k := range fr.env {
			a, b := st.env[k], sf.env[k]
			if a == nil && b == nil {
				continue
			}
			if !fr.fi.liveAt(k, join) {
				nenv[k] = a
				continue
			}
			if a == nil || b == nil {
				if a == nil {
					a = b
				}
				nenv[k] = a // not yet defined on the other side, so defined again before use
				continue
			}
			v, kk := x.merge(cond, a, b)
			if !kk {
				return o, false, fmt.Sprintf("register of %T and %T", a, b)
			}
			nenv[k] = v
		}
		copy(fr.env, nenv)
	}
	for _, w := range ws {
		x.setSlot(w.p, w.v)
	}
	if x.spec == 0 {
		x.allocs = x.allocs[:0]
	}
	o.merged = true
	o.join = join
	if o.phis == nil {
		o.phis = []Value{}
	}
	return o, true, ""
}

// ---------- assertions

func (x *Exec) stat(msg string) *assertStat {
	s := x.run.asserts[msg]
	if s == nil {
		s = &assertStat{}
		x.run.asserts[msg] = s
	}
	return s
}

func (x *Exec) assert(cond *Term, msg string) {
	x.reached = true
	if x.conc {
		if v, ok := x.evalBool(cond, x.base); ok {
			x.obs = append(x.obs, fmt.Sprintf("assert %s %v", msg, v))
			if !v {
				panic(pathEnd{"assertion failed: " + msg})
			}
			return
		}
		unsup("concrete evaluation of an assertion")
	}
	if cond.isTrue() {
		x.run.mu.Lock()
		x.stat(msg).trivial++
		x.run.mu.Unlock()
		return
	}
	neg := x.c.Not(cond)
	k := feasKey{x.pcID(), neg.id}
	if _, ok := x.assertC[k]; ok {
		return
	}
	r := x.query(neg, msg, "assert")
	x.assertC[k] = r
	if r == Sat {
		panic(pathEnd{"violated"})
	}
}

// query looks for a counterexample to the current path plus neg.
func (x *Exec) query(neg *Term, msg, kind string) Res {
	record := func(f func(*assertStat)) {
		x.run.mu.Lock()
		f(x.stat(msg))
		x.run.mu.Unlock()
	}
	if v, ok := x.isKnown(neg); ok && !v {
		record(func(s *assertStat) { s.proved++ })
		return Unsat
	}
	if m := x.topModel(); m != nil {
		if v, ok := x.evalBool(neg, m); ok && v {
			if x.candidate(m.vals, msg, kind) {
				record(func(s *assertStat) { s.violated++ })
				return Sat
			}
		}
	}
	blocked := []*Node{}
	var first *Model
	for try := 0; try < 4; try++ {
		res, m, exact := x.solveAssert(neg, blocked)
		if first == nil {
			first = m
		}
		switch res {
		case Unsat:
			if try == 0 {
				record(func(s *assertStat) { s.proved++ })
				return Unsat
			}
			// only unconfirmed models exist
			if x.concretise(neg, first, msg, kind) {
				record(func(s *assertStat) { s.violated++ })
				return Sat
			}
			record(func(s *assertStat) { s.unknown++ })
			x.unconfirmed(msg)
			return Unknown
		case Unknown:
			if x.concretise(neg, first, msg, kind) {
				record(func(s *assertStat) { s.violated++ })
				return Sat
			}
			record(func(s *assertStat) { s.unknown++ })
			return Unknown
		}
		if m != nil {
			if x.candidate(m.vals, msg, kind) {
				record(func(s *assertStat) { s.violated++ })
				return Sat
			}
			dbg("unconfirmed counterexample of %s: %q %s (exact=%v) neg=%s", x.run.h.Name, msg, fmtInputs(x, m.vals), exact, neg.str(7))
			b := x.blockNode(m)
			if b == nil {
				break
			}
			blocked = append(blocked, b)
		} else {
			break
		}
	}
	if x.concretise(neg, first, msg, kind) {
		record(func(s *assertStat) { s.violated++ })
		return Sat
	}
	record(func(s *assertStat) { s.unknown++ })
	x.unconfirmed(msg)
	return Unknown
}

func fmtInputs(x *Exec, vals map[string]uint64) string {
	var b strings.Builder
	for _, n := range x.inputs {
		t := x.c.vars[n]
		if t == nil {
			continue
		}
		fmt.Fprintf(&b, "%s=%s ", n, fmtVal(t, vals[n]))
	}
	return b.String()
}

func (x *Exec) unconfirmed(msg string) {
	x.run.mu.Lock()
	x.run.unconf[msg]++
	x.run.mu.Unlock()
}

func (x *Exec) blockNode(m *Model) *Node {
	acc := x.c.True
	for _, n := range x.inputs {
		t := x.c.vars[n]
		if t == nil {
			continue
		}
		var e *Term
		switch t.sort {
		case SBool:
			e = t
			if m.vals[n] == 0 {
				e = x.c.Not(t)
			}
		case SInt:
			e = x.c.IEq(t, x.c.Int(m.vals[n], t.w))
		case SFloat:
			e = x.c.FEq(t, x.c.F(bitsF(m.vals[n])))
		}
		acc = x.c.And(acc, e)
	}
	if acc.isTrue() {
		return nil
	}
	return x.low.Bool(x.c.Not(acc))
}

func (x *Exec) solveAssert(neg *Term, blocked []*Node) (Res, *Model, bool) {
	if x.run.stop.Load() {
		panic(pathEnd{"stopped"})
	}
	left := time.Until(x.run.deadline)
	if left <= 0 {
		panic(pathEnd{"deadline"})
	}
	ns, ts := x.varNodes()
	pcs := x.pcNodes()
	nn := x.low.Bool(neg)
	var r Res
	var vals map[string]string
	if len(blocked) == 0 {
		switch r, m := x.relaxed(pcs, nn, neg, minDur(5*time.Second, left)); r {
		case Unsat:
			return Unsat, nil, true
		case Sat:
			return Sat, m, false
		}
	}
	if len(blocked) == 0 && x.run.h.incTimeout > 0 {
		r, vals = x.solver.Check(pcs, nn, ns, minDur(x.run.h.incTimeout, left))
	}
	if r == Unknown {
		as := append(append([]*Node(nil), pcs...), blocked...)
		as = append(as, nn)
		left = time.Until(x.run.deadline)
		if left <= 0 {
			panic(pathEnd{"deadline"})
		}
		r, vals, _ = oneShot(x.low.Backends(), x.low.Logic(), as, ns, minDur(x.run.h.assertTimeout, left))
	}
	if r != Sat {
		return r, nil, false
	}
	m := x.parseModel(vals, ns, ts)
	if m == nil {
		dbg("no model parsed: %v", vals)
	}
	return r, m, x.modelHolds(m, neg)
}

func minDur(a, b time.Duration) time.Duration {
	if a < b {
		return a
	}
	return b
}

// candidate replays inputs against the real build and records a violation if it reproduces.
func (x *Exec) candidate(vals map[string]uint64, msg, kind string) bool {
	ins := map[string]uint64{}
	for _, n := range x.inputs {
		v, ok := vals[n]
		if t := x.c.vars[n]; !ok && t != nil {
			v = clampVar(t, v)
		}
		ins[n] = v
	}
	rep := x.run.loader.replay(x.run.h, ins, x.c, x.run.tier)
	if rep.Status == "fail" || rep.Status == "panic" || rep.Status == "hang" {
		v := &Violation{Msg: msg, Inputs: ins, Kind: kind, Harness: x.run.h.Name}
		if rep.Msg != "" {
			v.Msg = rep.Msg
		}
		x.run.mu.Lock()
		if len(x.run.violations) == 0 {
			x.run.violations = append(x.run.violations, v)
		}
		x.run.mu.Unlock()
		x.run.stop.Store(true)
		x.run.cond.Broadcast()
		return true
	}
	dbg("replay of %s: %s %s", x.run.h.Name, rep.Status, rep.Msg)
	return false
}

// ---------- one path

func (x *Exec) runPath(it workItem) {
	x.item = &it
	x.prefix, x.pos = it.prefix, 0
	x.log = x.log[:0:0]
	x.popTo(0)
	x.base = nil
	if len(it.prefix) == 0 && it.model != nil {
		x.base = &Model{vals: it.model, memo: map[int32]evalRes{}}
	}
	x.names = map[string]int{}
	x.inputs = nil
	x.obs = nil
	x.reached = false
	x.steps, x.depth, x.spec, x.tokN, x.clock = 0, 0, 0, 0, 0
	x.curFn = nil
	x.ghashes = nil
	x.s2covers = nil
	x.allocs = x.allocs[:0]
	j0 := len(x.journal)
	reason := "complete"
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch e := r.(type) {
			case pathEnd:
				reason = e.reason
				if e.reason == "step limit" || e.reason == "call depth limit" {
					x.spec = 0
					x.hang(e.reason)
				}
			case goPanic:
				reason = "panic"
				x.spec = 0
				x.panicPath(e)
			case Unsupported:
				reason = "unsupported: " + e.msg
				if x.curFn != nil {
					reason += " in " + x.curFn.String()
				}
				x.spec = 0
				x.unfollowed(reason)
			case engineErr:
				reason = "engine: " + e.msg
			case abortSpec:
				reason = "engine: stray abort " + e.why
			default:
				if os.Getenv("GOSYM_PANIC") != "" {
					panic(r)
				}
				reason = fmt.Sprintf("engine: %v", r)
				if x.curFn != nil {
					reason += " in " + x.curFn.String()
				}
			}
		}()
		x.callFn(x.run.h.Fn, nil, nil, nil)
	}()
	x.undoTo(j0)
	atomic.AddInt64(&x.run.paths, 1)
	atomic.AddInt64(&x.run.steps, x.steps)
	var wit *Model
	x.run.mu.Lock()
	need := reason == "complete" && x.reached && x.run.witness == nil && !x.conc
	x.run.mu.Unlock()
	if need {
		wit = x.topModel()
		if wit == nil && !x.run.stop.Load() {
			ns, ts := x.varNodes()
			if r, vals := x.solver.Check(x.pcNodes(), nil, ns, x.run.h.feasTimeout); r == Sat {
				if m := x.parseModel(vals, ns, ts); m != nil && x.modelHolds(m, nil) {
					wit = m
				}
			}
		}
	}
	x.run.mu.Lock()
	if need && x.run.witness == nil {
		if m := wit; m != nil {
			x.run.witness = map[string]uint64{}
			for _, n := range x.inputs {
				v, ok := m.vals[n]
				if t := x.c.vars[n]; !ok && t != nil {
					v = clampVar(t, 0) // an input no condition mentions
				}
				x.run.witness[n] = v
			}
		}
	}
	x.run.endReasons[reason]++
	x.run.mu.Unlock()
}

// panicPath handles a Go panic that reaches the harness.
func (x *Exec) panicPath(e goPanic) {
	if x.conc {
		x.obs = append(x.obs, "panic")
		return
	}
	msg := "panic: " + e.msg
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok && (pe.reason == "deadline" || pe.reason == "stopped") {
					return
				}
				panic(r)
			}
		}()
		x.query(x.c.True, msg+" in "+e.where, "panic")
	}()
}

// unfollowed replays inputs of a path that could not be encoded to its end: nothing is shown, but a violation may be found.
func (x *Exec) unfollowed(why string) {
	if x.conc || x.run.blind.Add(1) > 12 || x.run.stop.Load() {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			dbg("unfollowed path: %v", r)
		}
	}()
	if m := x.topModel(); m != nil && x.candidate(m.vals, why, "path") {
		return
	}
	x.concretise(x.c.True, x.topModel(), why, "path")
}

func (x *Exec) hang(why string) {
	if x.conc {
		return
	}
	if m := x.topModel(); m != nil {
		x.candidate(m.vals, why, "hang")
	}
}

// ---------- scheduling

// slots bounds the paths followed at a time over all harnesses.
var slots = make(chan struct{}, 9)

func (r *Run) worker(x *Exec) {
	for {
		r.mu.Lock()
		for len(r.queue) == 0 && r.active > 0 && !r.stop.Load() && time.Now().Before(r.deadline) {
			r.cond.Wait()
		}
		if len(r.queue) == 0 || r.stop.Load() || time.Now().After(r.deadline) {
			r.mu.Unlock()
			r.cond.Broadcast()
			return
		}
		it := r.queue[len(r.queue)-1]
		r.queue = r.queue[:len(r.queue)-1]
		r.active++
		r.mu.Unlock()
		slots <- struct{}{}
		x.runPath(it)
		<-slots
		r.mu.Lock()
		r.active--
		if r.maxPaths > 0 && atomic.LoadInt64(&r.paths) > r.maxPaths {
			r.notes["path limit reached"] = true
			r.stop.Store(true)
		}
		r.mu.Unlock()
		r.cond.Broadcast()
		if len(x.c.tab) > 3_000_000 {
			x.reset()
		}
	}
}

// reset drops the worker's term tables.
func (x *Exec) reset() {
	if x.solver != nil && x.solver.proc != nil {
		x.solver.kill()
	}
	x.killRel()
	x.init()
}

func (x *Exec) killRel() {
	if x.relSolver != nil && x.relSolver.proc != nil {
		x.relSolver.kill()
	}
	x.rel, x.relSolver = nil, nil
	x.pool = nil
}

func (x *Exec) init() {
	x.c = NewCtx(x.run.mode)
	x.low = newLowerer(x.c, x.run)
	x.globals = map[*ssa.Global]Ptr{}
	x.inited = map[*ssa.Package]bool{}
	x.fis = map[*ssa.Function]*FnInfo{}
	x.known = map[int32]bool{}
	x.pcIDs = map[[2]int32]int32{}
	x.feasC = map[feasKey]feasRes{}
	x.assertC = map[feasKey]Res{}
	if x.mergeFail == nil {
		x.mergeFail = map[*ssa.If]int{}
	}
	if x.fns == nil {
		x.fns = map[*ssa.Function]bool{}
	}
	x.pc = nil
	x.journal = nil
	x.solver = &Solver{cmd: x.low.Incremental(), logic: x.low.IncLogic()}
}

func (r *Run) newExec() *Exec {
	x := &Exec{run: r, prog: r.loader.prog, stepLimit: r.h.stepLimit, rtErrType: r.loader.rtErr}
	x.init()
	return x
}

func (r *Run) explore(workers int) {
	r.cond = sync.NewCond(&r.mu)
	r.queue = []workItem{{}}
	var wg sync.WaitGroup
	tick := time.NewTicker(200 * time.Millisecond)
	done := make(chan struct{})
	go func() {
		for {
			select {
			case <-tick.C:
				r.cond.Broadcast()
			case <-done:
				return
			}
		}
	}()
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := r.newExec()
			r.worker(x)
			x.killRel()
			if x.solver.proc != nil {
				x.solver.kill()
			}
			r.mu.Lock()
			for f := range x.fns {
				r.fns[f.String()] = true
			}
			r.mu.Unlock()
		}()
	}
	wg.Wait()
	close(done)
	tick.Stop()
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = json.Marshal
