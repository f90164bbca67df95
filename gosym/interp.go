package main

// Symbolic interpreter over go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type goPanic struct {
	v     Value // the panic value (Iface)
	msg   string
	where string
}

type pathEnd struct{ reason string } // assume false, infeasible, limits
type abortSpec struct{ why string }  // leave a speculative region and fork instead
type engineErr struct{ msg string }

// FnInfo caches per-function tables.
type FnInfo struct {
	idx     map[ssa.Value]int
	n       int
	ipdom   []*ssa.BasicBlock // by block index; nil: function exit
	hasPD   []bool
	ifs     map[*ssa.If]*ifInfo
	usedIn  []map[int]bool // register index -> blocks using it
	defIn   []int
	succs   [][]int
	live    map[[2]int]bool
	consts  map[*ssa.Const]Value
	covered []bool
}

type ifInfo struct {
	mergeable bool
	appends   bool
	simple    bool
}

type Frame struct {
	fn     *ssa.Function
	fi     *FnInfo
	env    []Value
	free   []Value
	defers []func()
	panicv *goPanic // being handled by deferred calls
	recov  bool
	result Value
	caller *Frame
}

type stopAt struct {
	block *ssa.BasicBlock
	exit  bool // stop at function return
}

var fiMu sync.Mutex

func (x *Exec) info(fn *ssa.Function) *FnInfo {
	if fi, ok := x.fis[fn]; ok {
		return fi
	}
	fi := buildInfo(fn)
	x.fis[fn] = fi
	return fi
}

func buildInfo(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{idx: map[ssa.Value]int{}, ifs: map[*ssa.If]*ifInfo{}, consts: map[*ssa.Const]Value{}}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.covered = make([]bool, len(fn.Blocks))
	fi.postdom(fn)
	fi.liveInfo(fn)
	for _, b := range fn.Blocks {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			fi.ifs[i] = fi.classify(fn, b)
		}
	}
	return fi
}

func endsInPanic(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

func (fi *FnInfo) postdom(fn *ssa.Function) {
	n := len(fn.Blocks)
	// sets as bit slices over n+1 (exit = n)
	full := func() []bool {
		r := make([]bool, n+1)
		for i := range r {
			r[i] = true
		}
		return r
	}
	pd := make([][]bool, n+1)
	for i := 0; i < n; i++ {
		pd[i] = full()
	}
	pd[n] = make([]bool, n+1)
	pd[n][n] = true
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if endsInPanic(b) {
				continue // post-dominated by everything
			}
			var acc []bool
			meet := func(s []bool) {
				if acc == nil {
					acc = append([]bool(nil), s...)
					return
				}
				for k := range acc {
					acc[k] = acc[k] && s[k]
				}
			}
			if len(b.Succs) == 0 {
				meet(pd[n])
			}
			for _, s := range b.Succs {
				meet(pd[s.Index])
			}
			acc[i] = true
			for k := range acc {
				if acc[k] != pd[i][k] {
					pd[i] = acc
					changed = true
					break
				}
			}
		}
	}
	fi.ipdom = make([]*ssa.BasicBlock, n)
	fi.hasPD = make([]bool, n)
	for i := 0; i < n; i++ {
		// the immediate post-dominator is the strict post-dominator post-dominated by all the others
		cnt := func(k int) int {
			if k == n {
				return 1
			}
			c := 0
			for _, v := range pd[k] {
				if v {
					c++
				}
			}
			return c
		}
		best, bc := -1, -1
		for k := 0; k <= n; k++ {
			if k == i || !pd[i][k] {
				continue
			}
			if k < n && endsInPanic(fn.Blocks[k]) {
				continue
			}
			if c := cnt(k); c > bc {
				best, bc = k, c
			}
		}
		if best >= 0 {
			fi.hasPD[i] = true
			if best < n {
				fi.ipdom[i] = fn.Blocks[best]
			}
		}
	}
}

func (fi *FnInfo) liveInfo(fn *ssa.Function) {
	n := len(fn.Blocks)
	fi.usedIn = make([]map[int]bool, fi.n)
	use := func(v ssa.Value, b int) {
		if k, ok := fi.idx[v]; ok {
			if fi.usedIn[k] == nil {
				fi.usedIn[k] = map[int]bool{}
			}
			fi.usedIn[k][b] = true
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				for i, e := range p.Edges {
					use(e, b.Preds[i].Index)
				}
				continue
			}
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if o != nil && *o != nil {
					use(*o, b.Index)
				}
			}
		}
	}
	fi.defIn = make([]int, fi.n)
	for i := range fi.defIn {
		fi.defIn[i] = -1
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.defIn[fi.idx[v]] = b.Index
			}
		}
	}
	fi.succs = make([][]int, n)
	for i, b := range fn.Blocks {
		for _, s := range b.Succs {
			fi.succs[i] = append(fi.succs[i], s.Index)
		}
	}
	fi.live = map[[2]int]bool{}
}

// liveAt reports whether register k may be used in block b or later without being defined again.
func (fi *FnInfo) liveAt(k int, b *ssa.BasicBlock) bool {
	key := [2]int{k, b.Index}
	if v, ok := fi.live[key]; ok {
		return v
	}
	seen := make([]bool, len(fi.succs))
	st := []int{b.Index}
	r := false
	for len(st) > 0 && !r {
		i := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[i] || i == fi.defIn[k] {
			continue
		}
		seen[i] = true
		r = fi.usedIn[k][i]
		st = append(st, fi.succs[i]...)
	}
	fi.live[key] = r
	return r
}

func (fi *FnInfo) classify(fn *ssa.Function, b *ssa.BasicBlock) *ifInfo {
	inf := &ifInfo{}
	if !fi.hasPD[b.Index] {
		return inf
	}
	stop := fi.ipdom[b.Index]
	inf.mergeable, inf.simple = true, stop != nil
	seen := map[*ssa.BasicBlock]bool{}
	var st []*ssa.BasicBlock
	for _, s := range b.Succs {
		if s != stop {
			st = append(st, s)
		}
	}
	ninstr := 0
	for len(st) > 0 {
		k := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[k] {
			continue
		}
		seen[k] = true
		if k == b {
			inf.simple = false
		}
		for _, in := range k.Instrs {
			ninstr++
			switch in := in.(type) {
			case *ssa.BinOp:
				if in.Op == token.QUO || in.Op == token.REM {
					inf.simple = false
				}
			case *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.Convert, *ssa.ChangeType, *ssa.Field, *ssa.FieldAddr, *ssa.Extract, *ssa.DebugRef:
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					inf.mergeable = false
				}
			case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MapUpdate:
				inf.mergeable = false
			case *ssa.RunDefers:
				inf.mergeable = false
			case *ssa.Call:
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					inf.appends = true // lengths differ if it is reached
				}
				inf.simple = false
			default:
				inf.simple = false
			}
		}
		for _, s := range k.Succs {
			if s != stop && !seen[s] {
				st = append(st, s)
			}
		}
	}
	if ninstr > 40 {
		inf.simple = false
	}
	return inf
}

// ---------- evaluation

func (x *Exec) rtPanic(msg string) {
	panic(goPanic{v: Iface{x.rtErrType, S(msg)}, msg: "runtime error: " + msg, where: x.where()})
}

func (x *Exec) where() string {
	if x.curFn != nil {
		return x.curFn.String()
	}
	return ""
}

func (x *Exec) get(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(fr, v)
	case *ssa.Global:
		return x.global(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.free[i]
			}
		}
	case *ssa.Builtin:
		return &Closure{name: "builtin:" + v.Name()}
	}
	k, ok := fr.fi.idx[v]
	if !ok {
		unsup("value %v (%T)", v, v)
	}
	return fr.env[k]
}

func (x *Exec) set(fr *Frame, v ssa.Value, r Value) { fr.env[fr.fi.idx[v]] = r }

func (x *Exec) constVal(fr *Frame, k *ssa.Const) Value {
	if v, ok := fr.fi.consts[k]; ok {
		return copyVal(v)
	}
	v := x.constVal1(k)
	fr.fi.consts[k] = v
	return copyVal(v)
}

func (x *Exec) constVal1(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	if w, signed, ok := intType(t); ok {
		if signed {
			return x.c.Int(uint64(k.Int64()), w)
		}
		return x.c.Int(k.Uint64(), w)
	}
	switch {
	case isBool(t):
		return x.c.Bool(constant.BoolVal(k.Value))
	case isFloat(t):
		f := k.Float64()
		if b := under(t).(*types.Basic); b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return x.c.F(f)
	case isString(t):
		if k.Value.Kind() == constant.String {
			return S(constant.StringVal(k.Value))
		}
		return S(string(rune(k.Int64())))
	}
	if _, ok := under(t).(*types.Interface); ok {
		unsup("interface constant %v", k)
	}
	unsup("constant %v of type %v", k, t)
	return nil
}

func (x *Exec) global(g *ssa.Global) Ptr {
	if p, ok := x.globals[g]; ok {
		x.ensureInit(g.Pkg)
		return p
	}
	p := new(Value)
	*p = x.zero(g.Type().(*types.Pointer).Elem())
	x.globals[g] = p
	x.ensureInit(g.Pkg)
	return p
}

func (x *Exec) ensureInit(pkg *ssa.Package) {
	if pkg == nil || x.inited[pkg] {
		return
	}
	x.inited[pkg] = true
	pkg.Build()
	f := pkg.Func("init")
	if f == nil {
		return
	}
	saved := x.journal
	x.journal = nil
	savedSpec := x.spec
	x.spec = 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					x.note("package " + pkg.Pkg.Path() + " is only partly initialised: " + u.msg)
					return
				}
				panic(r)
			}
		}()
		x.callFn(f, nil, nil, nil)
	}()
	x.journal = saved
	x.spec = savedSpec
}

// call a closure value
func (x *Exec) callClosure(c *Closure, args []Value, caller *Frame) Value {
	if c == nil {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.native != nil {
		return c.native(x, args)
	}
	if c.fn == nil {
		unsup("call of %s", c.name)
	}
	return x.callFn(c.fn, args, c.env, caller)
}

func (x *Exec) callFn(fn *ssa.Function, args []Value, free []Value, caller *Frame) Value {
	if fn.Synthetic == "package initializer" && fn.Pkg != nil {
		if caller != nil && caller.fn.Synthetic == "package initializer" {
			// imported packages are initialised on first use
			if !x.inScope(fn.Pkg) {
				return Tuple(nil)
			}
			x.ensureInit(fn.Pkg)
			return Tuple(nil)
		}
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		if m, ok := models[o.String()]; ok {
			return m(x, fn, args)
		}
	}
	if m, ok := models[name]; ok {
		return m(x, fn, args)
	}
	if v, ok := x.abstractCall(fn, args); ok {
		return v
	}
	return x.callBody1(fn, args, free, caller)
}

// callBody runs the body of a plain function.
func (x *Exec) callBody(fn *ssa.Function, args []Value) Value {
	return x.callBody1(fn, args, nil, nil)
}

func (x *Exec) callBody1(fn *ssa.Function, args []Value, free []Value, caller *Frame) Value {
	name := fn.String()
	if len(fn.Blocks) == 0 && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", name)
	}
	x.depth++
	if x.depth > 600 {
		x.depth = 0
		panic(pathEnd{"call depth limit"})
	}
	fi := x.info(fn)
	fr := &Frame{fn: fn, fi: fi, env: make([]Value, fi.n), free: free, caller: caller}
	for i := range fn.Params {
		fr.env[i] = args[i]
	}
	x.fnSeen(fn)
	prevFn := x.curFn
	x.curFn = fn
	d := x.depth
	r := x.runFrame(fr)
	x.depth = d - 1
	x.curFn = prevFn
	return r
}

// runFrame runs a function body with deferred calls and recover.
func (x *Exec) runFrame(fr *Frame) Value {
	hasDefer := false
	for _, b := range fr.fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				hasDefer = true
			}
		}
	}
	if !hasDefer {
		x.run1(fr, fr.fn.Blocks[0], nil, stopAt{})
		return fr.result
	}
	d := x.depth
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			gp, ok := r.(goPanic)
			if !ok {
				panic(r)
			}
			x.depth = d
			x.curFn = fr.fn
			fr.panicv = &gp
			x.runDefers(fr)
			if fr.panicv != nil {
				panic(*fr.panicv)
			}
			// recovered: return the named results
			if fr.fn.Recover != nil {
				x.run1(fr, fr.fn.Recover, nil, stopAt{})
			} else {
				fr.result = x.resultZero(fr.fn)
			}
		}()
		x.run1(fr, fr.fn.Blocks[0], nil, stopAt{})
	}()
	return fr.result
}

func (x *Exec) resultZero(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return Tuple(nil)
	case 1:
		return x.zero(rs.At(0).Type())
	}
	return x.zero(rs)
}

func (x *Exec) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		f := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if gp, ok := r.(goPanic); ok {
						fr.panicv = &gp
						return
					}
					panic(r)
				}
			}()
			f()
		}()
	}
}

type runEnd struct {
	stopped bool    // reached the stop block
	phis    []Value // values of its phis
}

func (x *Exec) phiVals(fr *Frame, b, prev *ssa.BasicBlock) []Value {
	var r []Value
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
		}
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, x.get(fr, p.Edges[pi]))
	}
	return r
}

// run executes blocks from b until the stop block is about to be entered or the function returns.
func (x *Exec) run1(fr *Frame, b, prev *ssa.BasicBlock, stop stopAt) runEnd {
	var pending []Value // phi values of b computed by a merge
	havePending := false
	for {
		if stop.block != nil && b == stop.block {
			if havePending {
				return runEnd{true, pending}
			}
			return runEnd{true, x.phiVals(fr, b, prev)}
		}
		fr.fi.covered[b.Index] = true
		var phis []Value
		if havePending {
			phis = pending
			havePending = false
		} else if prev != nil {
			phis = x.phiVals(fr, b, prev)
		}
		np := 0
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			fr.env[fr.fi.idx[p]] = phis[np]
			np++
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[np:] {
			x.steps++
			if x.steps > x.stepLimit {
				panic(pathEnd{"step limit"})
			}
			switch in := in.(type) {
			case *ssa.If:
				c := x.get(fr, in.Cond).(*Term)
				if c.isConst() {
					if c.isTrue() {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
					break
				}
				o := x.branch(fr, in, c)
				if o.merged {
					if o.join == nil { // both sides returned
						return runEnd{}
					}
					next = o.join
					pending, havePending = o.phis, true
				} else if o.taken {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					fr.result = Tuple(nil)
				case 1:
					fr.result = copyVal(x.get(fr, in.Results[0]))
				default:
					t := make(Tuple, len(in.Results))
					for i, r := range in.Results {
						t[i] = copyVal(x.get(fr, r))
					}
					fr.result = t
				}
				return runEnd{}
			case *ssa.Panic:
				v := x.get(fr, in.X)
				panic(goPanic{v: v, msg: x.describe(v), where: fr.fn.String()})
			default:
				x.instr(fr, in)
			}
		}
		prev = b
		b = next
	}
}

func (x *Exec) describe(v Value) string {
	switch v := v.(type) {
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return x.describe(v.v)
	case Str:
		return v.s
	case *Term:
		return v.String()
	}
	return fmt.Sprintf("%T", v)
}

func deref(x *Exec, v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok {
		unsup("dereference of %T", v)
	}
	if p == nil {
		x.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (x *Exec) instr(fr *Frame, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		p := new(Value)
		*p = x.zero(in.Type().Underlying().(*types.Pointer).Elem())
		x.freshSlot(p)
		x.set(fr, in, p)
	case *ssa.UnOp:
		x.set(fr, in, x.unop(fr, in))
	case *ssa.BinOp:
		x.set(fr, in, x.binop(in.Op, in.X.Type(), x.get(fr, in.X), x.get(fr, in.Y), in.Y.Type()))
	case *ssa.Call:
		x.set(fr, in, x.doCall(fr, &in.Call, in))
	case *ssa.ChangeInterface:
		x.set(fr, in, x.get(fr, in.X))
	case *ssa.ChangeType:
		x.set(fr, in, x.get(fr, in.X))
	case *ssa.Convert:
		x.set(fr, in, x.convert(in.X.Type(), in.Type(), x.get(fr, in.X)))
	case *ssa.MakeInterface:
		x.set(fr, in, Iface{in.X.Type(), copyVal(x.get(fr, in.X))})
	case *ssa.Extract:
		x.set(fr, in, x.get(fr, in.Tuple).(Tuple)[in.Index])
	case *ssa.Field:
		x.set(fr, in, copyVal(x.get(fr, in.X).(StructV)[in.Field]))
	case *ssa.FieldAddr:
		p := deref(x, x.get(fr, in.X))
		s, ok := (*p).(StructV)
		if !ok {
			unsup("field of %T", *p)
		}
		x.set(fr, in, Ptr(&s[in.Field]))
	case *ssa.IndexAddr:
		x.set(fr, in, x.indexAddr(fr, in))
	case *ssa.Index:
		v := x.get(fr, in.X)
		it := x.get(fr, in.Index).(*Term)
		switch v := v.(type) {
		case ArrayV:
			i := x.index(it, len(v), in.Index.Type())
			x.set(fr, in, copyVal(v[i]))
		case Str:
			i := x.index(it, len(v.s), in.Index.Type())
			x.set(fr, in, x.strByte(v, i))
		default:
			unsup("index of %T", v)
		}
	case *ssa.Lookup:
		v := x.get(fr, in.X)
		if s, ok := v.(Str); ok {
			i := x.index(x.get(fr, in.Index).(*Term), len(s.s), in.Index.Type())
			x.set(fr, in, x.strByte(s, i))
			return
		}
		m, _ := v.(*MapV)
		e := x.mapFind(m, x.get(fr, in.Index))
		mt := under(in.X.Type()).(*types.Map)
		var r Value
		if e != nil {
			r = copyVal(e.v)
		} else {
			r = x.zero(mt.Elem())
		}
		if in.CommaOk {
			x.set(fr, in, Tuple{r, x.c.Bool(e != nil)})
		} else {
			x.set(fr, in, r)
		}
	case *ssa.MakeMap:
		x.set(fr, in, &MapV{})
	case *ssa.MapUpdate:
		m := x.get(fr, in.Map).(*MapV)
		if m == nil {
			panic(goPanic{v: Iface{x.rtErrType, S("assignment to entry in nil map")}, msg: "assignment to entry in nil map", where: fr.fn.String()})
		}
		x.mapSet(m, x.get(fr, in.Key), x.get(fr, in.Value))
	case *ssa.MakeSlice:
		n := x.concrete(x.get(fr, in.Len).(*Term))
		cp := x.concrete(x.get(fr, in.Cap).(*Term))
		if n < 0 || n > 1<<20 {
			x.rtPanic("makeslice: len out of range")
		}
		if cp < n || cp > 1<<20 {
			x.rtPanic("makeslice: cap out of range")
		}
		a := make([]Value, n, cp)
		et := under(in.Type()).(*types.Slice).Elem()
		full := a[:cp]
		for i := range full {
			full[i] = x.zero(et)
		}
		x.freshRange(full)
		x.set(fr, in, Slice{a})
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for i, b := range in.Bindings {
			env[i] = x.get(fr, b)
		}
		x.set(fr, in, &Closure{fn: in.Fn.(*ssa.Function), env: env})
	case *ssa.Slice:
		x.set(fr, in, x.sliceOp(fr, in))
	case *ssa.SliceToArrayPointer:
		s := x.get(fr, in.X).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s.a) < n {
			x.rtPanic("cannot convert slice to array: length out of range")
		}
		unsup("slice to array pointer")
	case *ssa.Store:
		p := deref(x, x.get(fr, in.Addr))
		x.store(p, x.get(fr, in.Val))
	case *ssa.TypeAssert:
		x.set(fr, in, x.typeAssert(in, x.get(fr, in.X)))
	case *ssa.Range:
		v := x.get(fr, in.X)
		switch v := v.(type) {
		case Str:
			x.set(fr, in, &Native{"strrange", &strRange{s: v}})
		case *MapV:
			it := &mapRange{}
			if v != nil {
				it.m = v
				it.ents = append(it.ents, v.ents...)
			}
			x.set(fr, in, &Native{"maprange", it})
		default:
			unsup("range over %T", v)
		}
	case *ssa.Next:
		x.set(fr, in, x.next(in, x.get(fr, in.Iter).(*Native)))
	case *ssa.Defer:
		fv, args := x.prepCall(fr, &in.Call)
		n := len(fr.defers)
		_ = n
		fr.defers = append(fr.defers, func() { x.invoke(fr, fv, args, &in.Call) })
	case *ssa.RunDefers:
		x.runDefers(fr)
		if fr.panicv != nil {
			gp := *fr.panicv
			panic(gp)
		}
	default:
		unsup("instruction %T in %s", in, fr.fn)
	}
}

type strRange struct {
	s Str
	i int
}
type mapRange struct {
	m    *MapV
	ents []*mapEntry
	i    int
}

func (x *Exec) next(in *ssa.Next, n *Native) Value {
	switch it := n.v.(type) {
	case *strRange:
		if it.i >= len(it.s.s) {
			return Tuple{x.c.False, x.c.I64(0), x.c.Int(0, 32)}
		}
		i := it.i
		old := it.i
		x.journal = append(x.journal, undoRec{f: func() { it.i = old }})
		if a := it.s.annAt(i); a.sym != nil {
			it.i++
			return Tuple{x.c.True, x.c.I64(int64(i)), x.c.IConv(a.sym, 32, false)}
		}
		for j, r := range it.s.s[i:] {
			if j > 0 {
				break
			}
			it.i = i + len(string(r))
			if r == 0xfffd && it.s.s[i] != 0xef {
				it.i = i + 1
			}
			if a := it.s.annAt(i); a.tok != nil {
				return Tuple{x.c.True, x.c.I64(int64(i)), TokByte{it.s.s[i], a.tok, a.off}}
			}
			return Tuple{x.c.True, x.c.I64(int64(i)), x.c.Int(uint64(r), 32)}
		}
	case *mapRange:
		old := it.i
		x.journal = append(x.journal, undoRec{f: func() { it.i = old }})
		for it.i < len(it.ents) && it.ents[it.i].dead {
			it.i++
		}
		if it.i >= len(it.ents) {
			return Tuple{x.c.False, nil, nil}
		}
		e := it.ents[it.i]
		it.i++
		return Tuple{x.c.True, copyVal(e.k), copyVal(e.v)}
	}
	unsup("next on %s", n.kind)
	return nil
}

// strByte returns byte i of s.
func (x *Exec) strByte(s Str, i int) Value {
	a := s.annAt(i)
	if a.sym != nil {
		return a.sym
	}
	if a.tok != nil {
		return TokByte{s.s[i], a.tok, a.off}
	}
	return x.c.Int(uint64(s.s[i]), 8)
}

func (x *Exec) mapFind(m *MapV, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	if i, ok := k.(Iface); ok && i.t != nil && !hashable(i) {
		x.rtPanic("hash of unhashable type")
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if x.decide(x.equal(e.k, k)) {
			return e
		}
	}
	return nil
}

func hashable(i Iface) bool { return types.Comparable(i.t) }

func (x *Exec) mapSet(m *MapV, k, v Value) {
	if e := x.mapFind(m, k); e != nil {
		x.store(&e.v, v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: copyVal(v)}
	old := m.ents
	x.journal = append(x.journal, undoRec{f: func() { m.ents = old }})
	m.ents = append(append([]*mapEntry(nil), old...), e)
}

func (x *Exec) mapDelete(m *MapV, k Value) {
	if e := x.mapFind(m, k); e != nil {
		old := m.ents
		var n []*mapEntry
		for _, q := range old {
			if q != e {
				n = append(n, q)
			}
		}
		x.journal = append(x.journal, undoRec{f: func() { m.ents = old; e.dead = false }})
		m.ents = n
		e.dead = true
	}
}

// index checks bounds and returns a concrete index.
func (x *Exec) index(t *Term, n int, it types.Type) int {
	_, signed, _ := intType(it)
	t = x.c.IConv(t, 64, signed)
	if t.isConst() {
		i := t.sval()
		if i < 0 || i >= int64(n) {
			x.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	ok := x.c.And(x.c.ILe(x.c.I64(0), t, true), x.c.ILt(t, x.c.I64(int64(n)), true))
	if !x.decide(ok) {
		x.rtPanic(fmt.Sprintf("index out of range [?] with length %d", n))
	}
	for i := 0; i < n-1; i++ {
		if int64(i) < t.ilo || int64(i) > t.ihi {
			continue
		}
		if x.decide(x.c.IEq(t, x.c.I64(int64(i)))) {
			return i
		}
	}
	return n - 1
}

// concrete forks until t has a single value.
func (x *Exec) concrete(t *Term) int64 {
	if t.isConst() {
		return t.sval()
	}
	if t.ihi-t.ilo >= 0 && t.ihi-t.ilo <= 256 {
		for v := t.ilo; v < t.ihi; v++ {
			if x.decide(x.c.IEq(t, x.c.Int(uint64(v), t.w))) {
				return v
			}
		}
		return t.ihi
	}
	// probe values near zero
	for v := int64(-1); v <= 64; v++ {
		if x.decide(x.c.IEq(t, x.c.Int(uint64(v), t.w))) {
			return v
		}
	}
	unsup("symbolic integer with a wide range used as a concrete value")
	return 0
}

func (x *Exec) indexAddr(fr *Frame, in *ssa.IndexAddr) Value {
	v := x.get(fr, in.X)
	it := x.get(fr, in.Index)
	t, ok := it.(*Term)
	if !ok {
		unsup("index %T", it)
	}
	switch v := v.(type) {
	case Slice:
		i := x.index(t, len(v.a), in.Index.Type())
		return Ptr(&v.a[i])
	case Ptr:
		p := deref(x, v)
		a, ok := (*p).(ArrayV)
		if !ok {
			unsup("index address of %T", *p)
		}
		i := x.index(t, len(a), in.Index.Type())
		return Ptr(&a[i])
	}
	unsup("index address of %T", v)
	return nil
}

func (x *Exec) sliceOp(fr *Frame, in *ssa.Slice) Value {
	v := x.get(fr, in.X)
	lo, hi, mx := int64(0), int64(-1), int64(-1)
	if in.Low != nil {
		lo = x.concrete(x.get(fr, in.Low).(*Term))
	}
	if in.High != nil {
		hi = x.concrete(x.get(fr, in.High).(*Term))
	}
	if in.Max != nil {
		mx = x.concrete(x.get(fr, in.Max).(*Term))
	}
	bad := func() { x.rtPanic("slice bounds out of range") }
	switch v := v.(type) {
	case Str:
		if in.High == nil {
			hi = int64(len(v.s))
		}
		if hi < 0 || hi > int64(len(v.s)) || lo < 0 || lo > hi {
			bad()
		}
		return v.sub(int(lo), int(hi))
	case Slice:
		cp := int64(cap(v.a))
		if in.High == nil {
			hi = int64(len(v.a))
		}
		if in.Max == nil {
			mx = cp
		}
		if mx < 0 || mx > cp || hi < 0 || hi > mx || lo < 0 || lo > hi {
			bad()
		}
		if v.a == nil {
			return Slice{}
		}
		return Slice{v.a[lo:hi:mx]}
	case Ptr:
		p := deref(x, v)
		a := []Value((*p).(ArrayV))
		cp := int64(len(a))
		if in.High == nil {
			hi = cp
		}
		if in.Max == nil {
			mx = cp
		}
		if mx < 0 || mx > cp || hi < 0 || hi > mx || lo < 0 || lo > hi {
			bad()
		}
		return Slice{a[lo:hi:mx]}
	}
	unsup("slice of %T", v)
	return nil
}

func (x *Exec) typeAssert(in *ssa.TypeAssert, v Value) Value {
	i := v.(Iface)
	ok := false
	if i.t != nil {
		if it, isI := under(in.AssertedType).(*types.Interface); isI {
			ok = types.Implements(i.t, it)
		} else {
			ok = types.Identical(i.t, in.AssertedType)
		}
	}
	if !ok {
		if in.CommaOk {
			return Tuple{x.zero(in.AssertedType), x.c.False}
		}
		got := "nil"
		if i.t != nil {
			got = i.t.String()
		}
		panic(goPanic{v: Iface{x.rtErrType, S("interface conversion")}, msg: fmt.Sprintf("interface conversion: interface is %s, not %s", got, in.AssertedType), where: x.where()})
	}
	var r Value = i
	if _, isI := under(in.AssertedType).(*types.Interface); !isI {
		r = copyVal(i.v)
	}
	if in.CommaOk {
		return Tuple{r, x.c.True}
	}
	return r
}

// freshSlot and freshRange record locations created while speculating: they need no merging.
func (x *Exec) freshSlot(p *Value) {
	if x.spec == 0 {
		return
	}
	a := addrOf(p)
	x.allocs = append(x.allocs, allocRange{a, a + unsafe.Sizeof(*p)})
	x.freshVal(*p)
}

func (x *Exec) freshRange(a []Value) {
	if x.spec == 0 || len(a) == 0 {
		return
	}
	p := addrOf(&a[0])
	x.allocs = append(x.allocs, allocRange{p, p + uintptr(len(a))*unsafe.Sizeof(a[0])})
	for _, v := range a {
		x.freshVal(v)
	}
}

func (x *Exec) freshVal(v Value) {
	switch v := v.(type) {
	case StructV:
		x.freshRange(v)
	case ArrayV:
		x.freshRange(v)
	}
}

func (x *Exec) unop(fr *Frame, in *ssa.UnOp) Value {
	v := x.get(fr, in.X)
	switch in.Op {
	case token.MUL:
		return load(*deref(x, v))
	case token.NOT:
		return x.c.Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.sort == SFloat {
			return x.c.FNeg(t)
		}
		return x.c.INeg(t)
	case token.XOR:
		return x.c.IInv(v.(*Term))
	}
	unsup("unary %v", in.Op)
	return nil
}

func (x *Exec) toTerm(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case TokByte:
		return x.c.Int(uint64(v.c), 8)
	}
	unsup("scalar expected, got %T", v)
	return nil
}

func (x *Exec) binop(op token.Token, t types.Type, a, b Value, bt types.Type) Value {
	c := x.c
	switch op {
	case token.EQL:
		return x.equal(a, b)
	case token.NEQ:
		return c.Not(x.equal(a, b))
	}
	if isString(t) {
		sa, sb := a.(Str), b.(Str)
		switch op {
		case token.ADD:
			return catStr(sa, sb)
		}
		if sa.ann == nil && sb.ann == nil {
			switch op {
			case token.LSS:
				return c.Bool(sa.s < sb.s)
			case token.LEQ:
				return c.Bool(sa.s <= sb.s)
			case token.GTR:
				return c.Bool(sa.s > sb.s)
			case token.GEQ:
				return c.Bool(sa.s >= sb.s)
			}
		}
		unsup("string comparison")
	}
	_, aTok := a.(TokByte)
	_, bTok := b.(TokByte)
	if aTok || bTok {
		// comparisons of a formatted digit are decided on the representative text
		a, b = x.tokTerm(a, b)
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsup("operator %v on %T", op, a)
	}
	if ta.sort == SFloat {
		f32 := under(t).(*types.Basic).Kind() == types.Float32
		if f32 && !(ta.isConst() && tb.isConst()) {
			unsup("float32 arithmetic")
		}
		switch op {
		case token.ADD:
			return x.fbin(OFAdd, ta, tb)
		case token.SUB:
			return x.fbin(OFSub, ta, tb)
		case token.MUL:
			return x.fbin(OFMul, ta, tb)
		case token.QUO:
			return x.fdiv(ta, tb)
		case token.LSS:
			return c.FLt(ta, tb)
		case token.LEQ:
			return c.FLe(ta, tb)
		case token.GTR:
			return c.FLt(tb, ta)
		case token.GEQ:
			return c.FLe(tb, ta)
		}
		unsup("float operator %v", op)
	}
	_, signed, _ := intType(t)
	switch op {
	case token.ADD:
		return c.IBin(OIAdd, ta, tb)
	case token.SUB:
		return c.IBin(OISub, ta, tb)
	case token.MUL:
		return c.IBin(OIMul, ta, tb)
	case token.QUO, token.REM:
		if x.decide(c.IEq(tb, c.Int(0, tb.w))) {
			x.rtPanic("integer divide by zero")
		}
		o := map[bool]map[token.Token]Op{true: {token.QUO: OISDiv, token.REM: OISRem}, false: {token.QUO: OIUDiv, token.REM: OIURem}}[signed][op]
		return c.IBin(o, ta, tb)
	case token.AND:
		return c.IBin(OIAnd, ta, tb)
	case token.OR:
		return c.IBin(OIOr, ta, tb)
	case token.XOR:
		return c.IBin(OIXor, ta, tb)
	case token.AND_NOT:
		return c.IBin(OIAnd, ta, c.IInv(tb))
	case token.SHL, token.SHR:
		_, bs, _ := intType(bt)
		if bs && x.decide(c.ILt(tb, c.Int(0, tb.w), true)) {
			x.rtPanic("negative shift amount")
		}
		// bring the count to the width of the operand, saturating
		if tb.w > ta.w {
			big := c.ILt(c.Int(uint64(ta.w), tb.w), tb, false)
			tb = c.Ite(big, c.Int(uint64(ta.w), ta.w), c.IConv(tb, ta.w, false))
		} else {
			tb = c.IConv(tb, ta.w, false)
		}
		if op == token.SHL {
			return c.IBin(OIShl, ta, tb)
		}
		if signed {
			return c.IBin(OIAshr, ta, tb)
		}
		return c.IBin(OILshr, ta, tb)
	case token.LSS:
		return c.ILt(ta, tb, signed)
	case token.LEQ:
		return c.ILe(ta, tb, signed)
	case token.GTR:
		return c.ILt(tb, ta, signed)
	case token.GEQ:
		return c.ILe(tb, ta, signed)
	}
	unsup("operator %v", op)
	return nil
}

func (x *Exec) tokTerm(a, b Value) (Value, Value) {
	f := func(v, o Value) Value {
		if t, ok := v.(TokByte); ok {
			w := uint8(8)
			if ot, ok := o.(*Term); ok {
				w = ot.w
			}
			x.assumption("text scans that inspect single digits of a formatted number see a representative text of its class (sign, fraction, exponent)")
			return x.c.Int(uint64(t.c), w)
		}
		return v
	}
	return f(a, b), f(b, a)
}

func (x *Exec) fbin(op Op, a, b *Term) *Term { return x.c.FBin(op, a, b) }

// fdiv forks on a zero denominator where the lowering has no infinities.
func (x *Exec) fdiv(a, b *Term) *Term {
	c := x.c
	if !c.mode.poly() || (a.isConst() && b.isConst()) {
		return c.FBin(OFDiv, a, b)
	}
	if b.isConst() && b.fv == b.fv && b.fv != 0 {
		return c.FBin(OFDiv, a, b)
	}
	if b.fin && (b.lo > 0 || b.hi < 0) {
		return c.FBin(OFDiv, a, b)
	}
	if b.fin && x.decide(c.FEq(b, c.F(0))) {
		// the sign of the zero is not tracked: it is taken as positive
		x.assumption("a zero divisor is taken as +0 (signed zeros are not tracked in this lowering)")
		if a.isConst() {
			return c.F(a.fv / math.Abs(0))
		}
		if x.decide(c.FEq(a, c.F(0))) {
			return c.F(math.NaN())
		}
		if x.decide(c.FLt(c.F(0), a)) {
			return c.F(math.Inf(1))
		}
		return c.F(math.Inf(-1))
	}
	return c.FBin(OFDiv, a, b)
}

// equal is Go's ==.
func (x *Exec) equal(a, b Value) *Term {
	c := x.c
	switch av := a.(type) {
	case *Term:
		if _, ok := b.(TokByte); ok {
			a, b = x.tokTerm(a, b)
		}
		bv, ok := b.(*Term)
		if !ok {
			unsup("== of %T and %T", a, b)
		}
		switch av.sort {
		case SBool:
			return c.BEq(av, bv)
		case SInt:
			return c.IEq(av, bv)
		}
		return c.FEq(av, bv)
	case TokByte:
		if bt, ok := b.(TokByte); ok && bt.tok == av.tok && bt.off == av.off {
			return c.True
		}
		p, q := x.tokTerm(a, b)
		return x.equal(p, q)
	case Str:
		return x.strEq(av, b.(Str))
	case Ptr:
		bp, ok := b.(Ptr)
		return c.Bool(ok && av == bp)
	case Slice:
		bs := b.(Slice)
		return c.Bool(av.a == nil && bs.a == nil)
	case *MapV:
		bm, _ := b.(*MapV)
		return c.Bool(av == bm)
	case *Closure:
		bc, _ := b.(*Closure)
		return c.Bool(av == bc)
	case *Native:
		bn, _ := b.(*Native)
		return c.Bool(av == bn)
	case Iface:
		bi, ok := b.(Iface)
		if !ok {
			unsup("== of interface and %T", b)
		}
		if av.t == nil || bi.t == nil {
			return c.Bool(av.t == nil && bi.t == nil)
		}
		if !types.Identical(av.t, bi.t) {
			return c.False
		}
		if !types.Comparable(av.t) {
			x.rtPanic("comparing uncomparable type " + av.t.String())
		}
		return x.equal(av.v, bi.v)
	case StructV:
		bv := b.(StructV)
		r := c.True
		for i := range av {
			r = c.And(r, x.equal(av[i], bv[i]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case ArrayV:
		bv := b.(ArrayV)
		r := c.True
		for i := range av {
			r = c.And(r, x.equal(av[i], bv[i]))
		}
		return r
	}
	unsup("== of %T", a)
	return nil
}

// strEq compares two strings.
func (x *Exec) strEq(a, b Str) *Term {
	c := x.c
	if a.ann == nil && b.ann == nil {
		return c.Bool(a.s == b.s)
	}
	r := c.True
	i, j := 0, 0
	for i < len(a.s) && j < len(b.s) {
		aa, ba := a.annAt(i), b.annAt(j)
		if aa.tok != nil && aa.off == 0 && ba.tok != nil && ba.off == 0 {
			if aa.tok != ba.tok {
				if !(aa.tok.exact && ba.tok.exact && aa.tok.fmt == ba.tok.fmt && aa.tok.prec == ba.tok.prec) {
					unsup("comparison of rounded formatted numbers")
				}
				r = c.And(r, x.fbitsEq(aa.tok.x, ba.tok.x))
			}
			i += len(aa.tok.text)
			j += len(ba.tok.text)
			continue
		}
		if aa.tok != nil || ba.tok != nil {
			// a formatted number against fixed text: only the class is known
			if a.s[i] != b.s[j] {
				o := a.s[i]
				if aa.tok != nil {
					o = b.s[j]
				}
				if o < '0' || o > '9' {
					return c.False
				}
			}
			unsup("comparison of a formatted number with fixed text")
		}
		r = c.And(r, c.IEq(x.byteTerm(a, i), x.byteTerm(b, j)))
		if r.isFalse() {
			return r
		}
		i++
		j++
	}
	if i != len(a.s) || j != len(b.s) {
		return c.False
	}
	return r
}

func (x *Exec) byteTerm(s Str, i int) *Term {
	if a := s.annAt(i); a.sym != nil {
		return a.sym
	}
	return x.c.Int(uint64(s.s[i]), 8)
}

// fbitsEq: same bits, up to the sign of zero where it is not tracked.
func (x *Exec) fbitsEq(a, b *Term) *Term { return x.c.FEq(a, b) }

func (x *Exec) convert(from, to types.Type, v Value) Value {
	c := x.c
	if tb, ok := v.(TokByte); ok {
		if w, _, ok := intType(to); ok && w >= 8 {
			return tb
		}
		if isString(to) {
			unsup("string of a digit byte")
		}
		v = c.Int(uint64(tb.c), 8)
	}
	if fw, fs, ok := intType(from); ok {
		_ = fw
		t := v.(*Term)
		if w, _, ok := intType(to); ok {
			return c.IConv(t, w, fs)
		}
		if isFloat(to) {
			return c.I2F(t, fs)
		}
		if isString(to) {
			if t.isConst() {
				return S(string(rune(t.sval())))
			}
			if t.ilo >= 0 && t.ihi < 128 {
				b := c.IConv(t, 8, false)
				return Str{s: string(byte(t.ilo)), ann: []SAnn{{sym: b}}}
			}
			unsup("string from symbolic rune")
		}
	}
	if isFloat(from) {
		t := v.(*Term)
		if w, signed, ok := intType(to); ok {
			if !t.isConst() && !t.fin {
				unsup("conversion of a possibly infinite float to int")
			}
			if t.isConst() && (t.fv != t.fv || math.Abs(t.fv) > 9e18) {
				if t.fv != t.fv || math.IsInf(t.fv, 0) || math.Abs(t.fv) >= 1<<63 {
					return c.Int(1<<63, w)
				}
			}
			return c.F2I(t, w, signed)
		}
		if isFloat(to) {
			fb, tb := under(from).(*types.Basic).Kind(), under(to).(*types.Basic).Kind()
			if fb == tb || fb == types.Float32 {
				return t
			}
			if tb == types.Float32 {
				if t.isConst() {
					return c.F(float64(float32(t.fv)))
				}
				unsup("float32 conversion")
			}
			return t
		}
	}
	if isString(from) {
		s := v.(Str)
		if isString(to) {
			return s
		}
		if sl, ok := under(to).(*types.Slice); ok {
			w, _, _ := intType(sl.Elem())
			if w == 8 {
				a := make([]Value, len(s.s))
				for i := range a {
					a[i] = x.strByte(s, i)
				}
				return Slice{a}
			}
			a := []Value{}
			if s.ann != nil {
				for i := range s.s {
					b := x.strByte(s, i)
					if t, ok := b.(*Term); ok {
						b = c.IConv(t, 32, false)
					}
					a = append(a, b)
				}
			} else {
				for _, r := range s.s {
					a = append(a, c.Int(uint64(r), 32))
				}
			}
			return Slice{a}
		}
	}
	if sl, ok := under(from).(*types.Slice); ok && isString(to) {
		w, _, _ := intType(sl.Elem())
		return x.bytesToStr(v.(Slice).a, w)
	}
	if _, ok := under(to).(*types.Pointer); ok {
		return v
	}
	if b, ok := under(to).(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	unsup("conversion %v to %v", from, to)
	return nil
}

func (x *Exec) bytesToStr(a []Value, w uint8) Str {
	buf := make([]byte, 0, len(a))
	var ann []SAnn
	put := func(b byte, an SAnn) {
		if an.tok != nil || an.sym != nil {
			if ann == nil {
				ann = make([]SAnn, len(buf), len(a))
			}
		}
		buf = append(buf, b)
		if ann != nil {
			ann = append(ann, an)
		}
	}
	for _, e := range a {
		switch e := e.(type) {
		case TokByte:
			put(e.c, SAnn{tok: e.tok, off: e.off})
		case *Term:
			if e.isConst() {
				if w == 32 {
					for _, q := range []byte(string(rune(e.sval()))) {
						put(q, SAnn{})
					}
				} else {
					put(byte(e.iv), SAnn{})
				}
			} else {
				put(byte(e.ilo), SAnn{sym: x.c.IConv(e, 8, false)})
			}
		default:
			unsup("bytes to string of %T", e)
		}
	}
	return Str{s: string(buf), ann: ann}
}

// ---------- calls

func (x *Exec) prepCall(fr *Frame, call *ssa.CallCommon) (Value, []Value) {
	var args []Value
	var fv Value
	if call.IsInvoke() {
		recv := x.get(fr, call.Value)
		i, ok := recv.(Iface)
		if !ok {
			unsup("invoke on %T", recv)
		}
		if i.t == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
		}
		if _, ok := i.v.(*Native); ok || i.t == x.rtErrType {
			fv = &Closure{name: "nativemethod:" + call.Method.Name(), native: nativeMethod(call.Method.Name())}
		} else {
			m := x.prog.LookupMethod(i.t, call.Method.Pkg(), call.Method.Name())
			if m == nil {
				unsup("method %s of %v", call.Method.Name(), i.t)
			}
			fv = &Closure{fn: m}
		}
		args = append(args, copyVal(i.v))
	} else {
		fv = x.get(fr, call.Value)
	}
	for _, a := range call.Args {
		args = append(args, copyVal(x.get(fr, a)))
	}
	return fv, args
}

func nativeMethod(name string) func(x *Exec, args []Value) Value {
	return func(x *Exec, args []Value) Value {
		switch v := args[0].(type) {
		case Str: // runtime error
			if name == "Error" {
				return catStr(S("runtime error: "), v)
			}
		case *Native:
			if name == "Error" {
				if s, ok := v.v.(Str); ok {
					return s
				}
				return S("error")
			}
		}
		unsup("method %s of a native value", name)
		return nil
	}
}

func (x *Exec) doCall(fr *Frame, call *ssa.CallCommon, site *ssa.Call) Value {
	fv, args := x.prepCall(fr, call)
	return x.invoke(fr, fv, args, call)
}

func (x *Exec) invoke(fr *Frame, fv Value, args []Value, call *ssa.CallCommon) Value {
	c := fv.(*Closure)
	if c != nil && c.fn == nil && c.native == nil {
		return x.builtin(fr, c.name[len("builtin:"):], args, call)
	}
	return x.callClosure(c, args, fr)
}

func (x *Exec) builtin(fr *Frame, name string, args []Value, call *ssa.CallCommon) Value {
	c := x.c
	switch name {
	case "len":
		switch v := args[0].(type) {
		case Str:
			return c.I64(int64(len(v.s)))
		case Slice:
			return c.I64(int64(len(v.a)))
		case ArrayV:
			return c.I64(int64(len(v)))
		case *MapV:
			if v == nil {
				return c.I64(0)
			}
			return c.I64(int64(len(v.ents)))
		case Ptr:
			if a, ok := (*deref(x, v)).(ArrayV); ok {
				return c.I64(int64(len(a)))
			}
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return c.I64(int64(cap(v.a)))
		case ArrayV:
			return c.I64(int64(len(v)))
		}
	case "append":
		dst := args[0].(Slice)
		var src []Value
		switch v := args[1].(type) {
		case Slice:
			src = v.a
		case Str:
			for i := range v.s {
				src = append(src, x.strByte(v, i))
			}
		default:
			unsup("append of %T", v)
		}
		return x.appendSlice(dst, src, under(call.Args[0].Type()).(*types.Slice).Elem())
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch v := args[1].(type) {
		case Slice:
			src = v.a
		case Str:
			for i := range v.s {
				src = append(src, x.strByte(v, i))
			}
		}
		n := min(len(dst.a), len(src))
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			x.store(&dst.a[i], tmp[i])
		}
		return c.I64(int64(n))
	case "delete":
		m, _ := args[0].(*MapV)
		if m != nil {
			x.mapDelete(m, args[1])
		}
		return Tuple(nil)
	case "min", "max":
		r := args[0]
		for _, b := range args[1:] {
			switch rv := r.(type) {
			case *Term:
				bv := b.(*Term)
				if rv.sort == SFloat {
					r = x.minmax(name == "min", rv, bv)
				} else {
					_, signed, _ := intType(call.Args[0].Type())
					lt := c.ILt(rv, bv, signed)
					if name == "max" {
						lt = c.ILt(bv, rv, signed)
					}
					r = c.Ite(lt, rv, bv)
				}
			default:
				unsup("%s of %T", name, r)
			}
		}
		return r
	case "clear":
		switch v := args[0].(type) {
		case *MapV:
			if v != nil {
				old := v.ents
				x.journal = append(x.journal, undoRec{f: func() { v.ents = old }})
				v.ents = nil
			}
		case Slice:
			for i := range v.a {
				x.store(&v.a[i], x.zero(under(call.Args[0].Type()).(*types.Slice).Elem()))
			}
		}
		return Tuple(nil)
	case "print", "println":
		return Tuple(nil)
	case "recover":
		// recover is effective when called by a deferred function of a panicking frame
		for f := fr.caller; f != nil; f = f.caller {
			if f.panicv != nil {
				v := f.panicv.v
				f.panicv = nil
				return v
			}
			break
		}
		return Iface{}
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		if p == nil {
			x.rtPanic("value method called using nil pointer")
		}
		return p
	case "new":
	}
	unsup("builtin %s", name)
	return nil
}

// appendSlice mirrors the runtime: in place while capacity lasts, otherwise a new array whose capacity
// is the one the real runtime gives to an element type of the same size and pointer-ness.
func (x *Exec) appendSlice(dst Slice, src []Value, et types.Type) Slice {
	if len(src) == 0 {
		return dst
	}
	n := len(dst.a)
	tmp := make([]Value, len(src))
	for i := range src {
		tmp[i] = copyVal(src[i])
	}
	if n+len(src) <= cap(dst.a) {
		r := dst.a[:n+len(src)]
		for i, v := range tmp {
			x.store(&r[n+i], v)
		}
		return Slice{r}
	}
	cp := growCap(n, cap(dst.a), len(src), et)
	if cp < n+len(src) {
		cp = n + len(src)
	}
	r := make([]Value, n+len(src), cp)
	for i := range dst.a {
		r[i] = copyVal(dst.a[i])
	}
	copy(r[n:], tmp)
	full := r[:cp]
	for i := n + len(src); i < cp; i++ {
		full[i] = x.zero(et)
	}
	x.freshRange(full)
	return Slice{r}
}

var growMu sync.Mutex
var growCache = map[[5]int]int{}

func growCap(l, cp, add int, et types.Type) int {
	size := int(sizes.Sizeof(et))
	ptr := 0
	if hasPtr(et) {
		ptr = 1
	}
	key := [5]int{l, cp, add, size, ptr}
	growMu.Lock()
	defer growMu.Unlock()
	if v, ok := growCache[key]; ok {
		return v
	}
	var rt reflect.Type
	if ptr == 1 && size%8 == 0 {
		rt = reflect.ArrayOf(size/8, reflect.TypeOf(unsafe.Pointer(nil)))
	} else {
		rt = reflect.ArrayOf(size, reflect.TypeOf(byte(0)))
	}
	s := reflect.MakeSlice(reflect.SliceOf(rt), l, cp)
	t := reflect.MakeSlice(reflect.SliceOf(rt), add, add)
	v := reflect.AppendSlice(s, t).Cap()
	growCache[key] = v
	return v
}

var sizes = types.SizesFor("gc", "amd64")

func hasPtr(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0 || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtr(u.Elem())
	}
	return true
}
