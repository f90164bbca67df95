package main

// Model of encoding/json over interpreter values. Text is annotated, so numbers keep their exact symbolic value.

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type jsonErr struct{ s string }

func (x *Exec) jsonIface(name string) *types.Interface {
	p := x.prog.ImportedPackage("encoding/json")
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Object().Type().Underlying().(*types.Interface)
}

func (x *Exec) implements(t types.Type, i *types.Interface) bool {
	return i != nil && types.Implements(t, i)
}

type jfield struct {
	name      string
	idx       int
	omitempty bool
}

var _ = reflect.StructTag("")

func jsonFields(st *types.Struct) []jfield {
	var r []jfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := reflect.StructTag(st.Tag(i)).Get("json")
		if f.Embedded() {
			if tag == "-" {
				continue
			}
			if tag == "" {
				unsup("embedded field in JSON")
			}
		}
		if !f.Exported() || tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		jf := jfield{name: f.Name(), idx: i}
		if parts[0] != "" {
			jf.name = parts[0]
		}
		for _, o := range parts[1:] {
			switch o {
			case "omitempty":
				jf.omitempty = true
			case "string", "omitzero":
				unsup("json tag option %s", o)
			}
		}
		r = append(r, jf)
	}
	return r
}

func (x *Exec) jsonEmpty(v Value, t types.Type) bool {
	switch v := v.(type) {
	case *Term:
		switch v.sort {
		case SBool:
			return !x.decide(v)
		case SInt:
			return x.decide(x.c.IEq(v, x.c.Int(0, v.w)))
		}
		return x.decide(x.c.FEq(v, x.c.F(0)))
	case Str:
		return len(v.s) == 0
	case Slice:
		return len(v.a) == 0
	case *MapV:
		return v == nil || len(v.ents) == 0
	case Ptr:
		return v == nil
	case Iface:
		return v.t == nil
	case ArrayV:
		return len(v) == 0
	}
	return false
}

func (x *Exec) jsonEnc(v Value, t types.Type, addr Ptr) Str {
	mi := x.jsonIface("Marshaler")
	callM := func(rt types.Type, recv Value) Str {
		m := x.prog.LookupMethod(rt, nil, "MarshalJSON")
		res := x.callFn(m, []Value{recv}, nil, nil).(Tuple)
		if e := res[1].(Iface); e.t != nil {
			panic(jsonErr{"json: error calling MarshalJSON"})
		}
		s := x.bytesToStr(res[0].(Slice).a, 8)
		return x.jsonCompact(s)
	}
	if _, isI := under(t).(*types.Interface); !isI {
		if p, isP := v.(Ptr); isP && p == nil {
			return S("null")
		}
		if x.implements(t, mi) {
			return callM(t, copyVal(v))
		}
		if addr != nil && x.implements(types.NewPointer(t), mi) {
			return callM(types.NewPointer(t), addr)
		}
		if te := x.textIface("TextMarshaler"); te != nil && x.implements(t, te) {
			unsup("TextMarshaler")
		}
	}
	switch u := under(t).(type) {
	case *types.Basic:
		tm, _ := v.(*Term)
		switch {
		case u.Info()&types.IsBoolean != 0:
			if x.decide(tm) {
				return S("true")
			}
			return S("false")
		case u.Info()&types.IsFloat != 0:
			if !tm.fin {
				if tm.isConst() || x.decide(x.c.Or(x.c.FIsNaN(tm), x.c.FIsInf(tm))) {
					panic(jsonErr{"json: unsupported value"})
				}
			}
			if tm.isConst() {
				b, err := json.Marshal(tm.fv)
				if err != nil {
					panic(jsonErr{err.Error()})
				}
				return S(string(b))
			}
			return x.formatFloat(tm, 'J', -1, 64)
		case u.Info()&types.IsInteger != 0:
			_, signed, _ := intType(t)
			k := x.concrete(tm)
			if signed {
				return S(strconv.FormatInt(k, 10))
			}
			return S(strconv.FormatUint(uint64(k), 10))
		case u.Info()&types.IsString != 0:
			return x.jsonString(v.(Str))
		}
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return S("null")
		}
		return x.jsonEnc(i.v, i.t, nil)
	case *types.Pointer:
		p := v.(Ptr)
		if p == nil {
			return S("null")
		}
		return x.jsonEnc(*p, u.Elem(), p)
	case *types.Struct:
		sv := v.(StructV)
		r := S("{")
		first := true
		for _, f := range jsonFields(u) {
			fv := sv[f.idx]
			if f.omitempty && x.jsonEmpty(fv, u.Field(f.idx).Type()) {
				continue
			}
			if !first {
				r = catStr(r, S(","))
			}
			first = false
			var a Ptr
			if addr != nil {
				a = &sv[f.idx]
			}
			r = catStr(catStr(catStr(r, x.jsonString(S(f.name))), S(":")), x.jsonEnc(fv, u.Field(f.idx).Type(), a))
		}
		return catStr(r, S("}"))
	case *types.Map:
		m, _ := v.(*MapV)
		if m == nil {
			return S("null")
		}
		if !isString(u.Key()) {
			unsup("JSON map key type %v", u.Key())
		}
		ents := append([]*mapEntry(nil), m.ents...)
		keys := map[*mapEntry]string{}
		for _, e := range ents {
			keys[e] = x.concreteStr(e.k.(Str))
		}
		sort.Slice(ents, func(i, j int) bool { return keys[ents[i]] < keys[ents[j]] })
		r := S("{")
		for i, e := range ents {
			if i > 0 {
				r = catStr(r, S(","))
			}
			r = catStr(catStr(catStr(r, x.jsonString(S(keys[e]))), S(":")), x.jsonEnc(e.v, u.Elem(), nil))
		}
		return catStr(r, S("}"))
	case *types.Slice:
		sl := v.(Slice)
		if sl.a == nil {
			return S("null")
		}
		if w, _, ok := intType(u.Elem()); ok && w == 8 {
			unsup("JSON of a byte slice")
		}
		r := S("[")
		for i := range sl.a {
			if i > 0 {
				r = catStr(r, S(","))
			}
			r = catStr(r, x.jsonEnc(sl.a[i], u.Elem(), &sl.a[i]))
		}
		return catStr(r, S("]"))
	case *types.Array:
		av := v.(ArrayV)
		r := S("[")
		for i := range av {
			if i > 0 {
				r = catStr(r, S(","))
			}
			r = catStr(r, x.jsonEnc(av[i], u.Elem(), nil))
		}
		return catStr(r, S("]"))
	case *types.Signature, *types.Chan:
		panic(jsonErr{"json: unsupported type"})
	}
	unsup("JSON of %v", t)
	return Str{}
}

func (x *Exec) textIface(name string) *types.Interface {
	p := x.prog.ImportedPackage("encoding")
	if p == nil {
		return nil
	}
	return p.Type(name).Object().Type().Underlying().(*types.Interface)
}

func (x *Exec) jsonString(s Str) Str {
	if s.ann == nil {
		b, _ := json.Marshal(s.s)
		return S(string(b))
	}
	r := S("\"")
	for i := 0; i < len(s.s); i++ {
		a := s.annAt(i)
		if a.sym != nil {
			if x.inSet(s, i, func(b byte) bool { return b >= 0x20 && b < 0x7f && strings.IndexByte("\"\\<>&", b) < 0 }) {
				r = catStr(r, s.sub(i, i+1))
				continue
			}
			b := x.concreteByte(a.sym)
			q, _ := json.Marshal(string([]byte{b}))
			r = catStr(r, S(string(q[1:len(q)-1])))
			continue
		}
		if a.tok != nil {
			r = catStr(r, s.sub(i, i+1))
			continue
		}
		_, w := utf8.DecodeRuneInString(s.s[i:])
		q, _ := json.Marshal(s.s[i : i+w])
		r = catStr(r, S(string(q[1:len(q)-1])))
		i += w - 1
	}
	return catStr(r, S("\""))
}

// jsonCompact drops blanks outside strings.
func (x *Exec) jsonCompact(s Str) Str {
	if !strings.ContainsAny(s.s, " \t\r\n") {
		return s
	}
	var r Str
	in := false
	p := 0
	for i := 0; i < len(s.s); i++ {
		if s.annAt(i).tok != nil || s.annAt(i).sym != nil {
			continue
		}
		ch := s.s[i]
		if in {
			if ch == '\\' {
				i++
			} else if ch == '"' {
				in = false
			}
			continue
		}
		if ch == '"' {
			in = true
		}
		if ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n' {
			r = catStr(r, s.sub(p, i))
			p = i + 1
		}
	}
	return catStr(r, s.sub(p, len(s.s)))
}

// ---------- decoding

type jval struct {
	kind byte // n t f 0(number) s a o
	num  Str
	str  Str
	arr  []jval
	keys []Str
}

type jparser struct {
	x *Exec
	s Str
	i int
}

func (p *jparser) fail() { panic(jsonErr{"invalid character or unexpected end of JSON input"}) }
func (p *jparser) is(f func(b byte) bool) bool {
	return p.i < len(p.s.s) && p.x.inSet(p.s, p.i, f)
}
func (p *jparser) ch(c byte) bool { return p.i < len(p.s.s) && p.x.chIs(p.s, p.i, c) }
func (p *jparser) ws() {
	for p.is(func(b byte) bool { return b == ' ' || b == '\t' || b == '\r' || b == '\n' }) {
		p.i++
	}
}
func (p *jparser) lit(w string) {
	for j := range w {
		if !p.ch(w[j]) {
			p.fail()
		}
		p.i++
	}
}

func (p *jparser) value() jval {
	p.ws()
	if p.i >= len(p.s.s) {
		p.fail()
	}
	digit := func(b byte) bool { return b >= '0' && b <= '9' }
	switch {
	case p.ch('{'):
		p.i++
		v := jval{kind: 'o'}
		p.ws()
		if p.ch('}') {
			p.i++
			return v
		}
		for {
			p.ws()
			if !p.ch('"') {
				p.fail()
			}
			v.keys = append(v.keys, p.str())
			p.ws()
			if !p.ch(':') {
				p.fail()
			}
			p.i++
			v.arr = append(v.arr, p.value())
			p.ws()
			if p.ch(',') {
				p.i++
				continue
			}
			if p.ch('}') {
				p.i++
				return v
			}
			p.fail()
		}
	case p.ch('['):
		p.i++
		v := jval{kind: 'a'}
		p.ws()
		if p.ch(']') {
			p.i++
			return v
		}
		for {
			v.arr = append(v.arr, p.value())
			p.ws()
			if p.ch(',') {
				p.i++
				continue
			}
			if p.ch(']') {
				p.i++
				return v
			}
			p.fail()
		}
	case p.ch('"'):
		return jval{kind: 's', str: p.str()}
	case p.ch('t'):
		p.lit("true")
		return jval{kind: 't'}
	case p.ch('f'):
		p.lit("false")
		return jval{kind: 'f'}
	case p.ch('n'):
		p.lit("null")
		return jval{kind: 'n'}
	}
	st := p.i
	if p.ch('-') {
		p.i++
	}
	if p.ch('0') && p.s.annAt(p.i).tok == nil {
		p.i++
	} else if p.is(digit) {
		for p.is(digit) {
			p.i++
		}
	} else {
		p.fail()
	}
	if p.ch('.') {
		p.i++
		if !p.is(digit) {
			p.fail()
		}
		for p.is(digit) {
			p.i++
		}
	}
	if p.is(func(b byte) bool { return b == 'e' || b == 'E' }) {
		p.i++
		if p.is(func(b byte) bool { return b == '+' || b == '-' }) {
			p.i++
		}
		if !p.is(digit) {
			p.fail()
		}
		for p.is(digit) {
			p.i++
		}
	}
	return jval{kind: '0', num: p.s.sub(st, p.i)}
}

func (p *jparser) str() Str {
	st := p.i
	p.i++
	esc := false
	for {
		if p.i >= len(p.s.s) {
			p.fail()
		}
		if p.ch('"') {
			p.i++
			break
		}
		if p.ch('\\') {
			esc = true
			p.i++
			if p.i >= len(p.s.s) {
				p.fail()
			}
		} else if p.is(func(b byte) bool { return b < 0x20 }) {
			p.fail()
		}
		p.i++
	}
	raw := p.s.sub(st+1, p.i-1)
	if !esc {
		if raw.ann == nil && !utf8.ValidString(raw.s) {
			var out string
			json.Unmarshal([]byte("\""+raw.s+"\""), &out)
			return S(out)
		}
		return raw
	}
	var out string
	if err := json.Unmarshal([]byte("\""+p.x.concreteStr(raw)+"\""), &out); err != nil {
		p.fail()
	}
	return S(out)
}

var emptyIface = types.NewInterfaceType(nil, nil).Complete()
var anyMap = types.NewMap(types.Typ[types.String], emptyIface)
var anySlice = types.NewSlice(emptyIface)

// generic decodes into interface{}.
func (x *Exec) jsonGeneric(v jval) Iface {
	switch v.kind {
	case 'n':
		return Iface{}
	case 't':
		return Iface{types.Typ[types.Bool], x.c.True}
	case 'f':
		return Iface{types.Typ[types.Bool], x.c.False}
	case 's':
		return Iface{types.Typ[types.String], v.str}
	case '0':
		r := x.parseFloat(v.num, 64).(Tuple)
		if r[1].(Iface).t != nil {
			panic(jsonErr{"json: cannot unmarshal number"})
		}
		return Iface{types.Typ[types.Float64], r[0]}
	case 'a':
		a := make([]Value, len(v.arr))
		for i := range a {
			a[i] = x.jsonGeneric(v.arr[i])
		}
		return Iface{anySlice, Slice{a}}
	case 'o':
		m := &MapV{}
		for i := range v.keys {
			x.mapSet(m, v.keys[i], x.jsonGeneric(v.arr[i]))
		}
		return Iface{anyMap, m}
	}
	panic("kind")
}

func (x *Exec) jsonRaw(v jval) Str {
	switch v.kind {
	case 'n':
		return S("null")
	case 't':
		return S("true")
	case 'f':
		return S("false")
	case 's':
		return x.jsonString(v.str)
	case '0':
		return v.num
	case 'a':
		r := S("[")
		for i, e := range v.arr {
			if i > 0 {
				r = catStr(r, S(","))
			}
			r = catStr(r, x.jsonRaw(e))
		}
		return catStr(r, S("]"))
	}
	r := S("{")
	for i, e := range v.arr {
		if i > 0 {
			r = catStr(r, S(","))
		}
		r = catStr(catStr(catStr(r, x.jsonString(v.keys[i])), S(":")), x.jsonRaw(e))
	}
	return catStr(r, S("}"))
}

// jsonDec stores v at p; a type mismatch is remembered and decoding goes on.
func (x *Exec) jsonDec(v jval, t types.Type, p Ptr, saved *string) {
	ui := x.jsonIface("Unmarshaler")
	mismatch := func() {
		if *saved == "" {
			*saved = "json: cannot unmarshal value into Go value of type " + t.String()
		}
	}
	if v.kind == 'n' {
		switch under(t).(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Slice:
			x.store(p, x.zero(t))
			return
		}
	}
	if _, isP := under(t).(*types.Pointer); !isP && x.implements(types.NewPointer(t), ui) {
		m := x.prog.LookupMethod(types.NewPointer(t), nil, "UnmarshalJSON")
		res := x.callFn(m, []Value{p, x.toBytes(x.jsonRaw(v))}, nil, nil).(Iface)
		if res.t != nil {
			panic(jsonErr{"error from UnmarshalJSON"})
		}
		return
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		q, _ := (*p).(Ptr)
		if q == nil {
			q = new(Value)
			*q = x.zero(u.Elem())
			x.store(p, q)
		}
		x.jsonDec(v, u.Elem(), q, saved)
		return
	case *types.Interface:
		if u.NumMethods() > 0 {
			mismatch()
			return
		}
		x.store(p, x.jsonGeneric(v))
		return
	case *types.Struct:
		if v.kind == 'n' {
			return
		}
		if v.kind != 'o' {
			mismatch()
			return
		}
		fs := jsonFields(u)
		sv := (*p).(StructV)
		for i, k := range v.keys {
			key := x.concreteStr(k)
			fi := -1
			for _, f := range fs {
				if f.name == key {
					fi = f.idx
					break
				}
			}
			if fi < 0 {
				for _, f := range fs {
					if strings.EqualFold(f.name, key) {
						fi = f.idx
						break
					}
				}
			}
			if fi >= 0 {
				x.jsonDec(v.arr[i], u.Field(fi).Type(), &sv[fi], saved)
			}
		}
		return
	case *types.Slice:
		if w, _, ok := intType(u.Elem()); ok && w == 8 && v.kind == 's' {
			unsup("JSON byte slice")
		}
		if v.kind != 'a' {
			mismatch()
			return
		}
		a := make([]Value, len(v.arr))
		old := (*p).(Slice)
		for i := range a {
			a[i] = x.zero(u.Elem())
			if i < len(old.a) && false {
				a[i] = copyVal(old.a[i])
			}
			x.jsonDec(v.arr[i], u.Elem(), &a[i], saved)
		}
		x.store(p, Slice{a})
		return
	case *types.Array:
		if v.kind != 'a' {
			mismatch()
			return
		}
		av := (*p).(ArrayV)
		for i := range av {
			if i < len(v.arr) {
				x.jsonDec(v.arr[i], u.Elem(), &av[i], saved)
			} else {
				x.store(&av[i], x.zero(u.Elem()))
			}
		}
		return
	case *types.Map:
		if v.kind != 'o' {
			mismatch()
			return
		}
		m, _ := (*p).(*MapV)
		if m == nil {
			m = &MapV{}
			x.store(p, m)
		}
		for i, k := range v.keys {
			tmp := new(Value)
			*tmp = x.zero(u.Elem())
			x.jsonDec(v.arr[i], u.Elem(), tmp, saved)
			x.mapSet(m, k, *tmp)
		}
		return
	case *types.Basic:
		if v.kind == 'n' {
			return
		}
		switch {
		case u.Info()&types.IsBoolean != 0 && (v.kind == 't' || v.kind == 'f'):
			x.store(p, x.c.Bool(v.kind == 't'))
			return
		case u.Info()&types.IsString != 0 && v.kind == 's':
			x.store(p, v.str)
			return
		case u.Info()&types.IsFloat != 0 && v.kind == '0':
			r := x.parseFloat(v.num, 64).(Tuple)
			if r[1].(Iface).t != nil {
				mismatch()
				return
			}
			x.store(p, r[0])
			return
		case u.Info()&types.IsInteger != 0 && v.kind == '0':
			if wholeTok(v.num) != nil {
				unsup("symbolic number into an integer")
			}
			w, signed, _ := intType(t)
			s := x.concreteStr(v.num)
			if signed {
				n, err := strconv.ParseInt(s, 10, int(w))
				if err != nil {
					mismatch()
					return
				}
				x.store(p, x.c.Int(uint64(n), w))
			} else {
				n, err := strconv.ParseUint(s, 10, int(w))
				if err != nil {
					mismatch()
					return
				}
				x.store(p, x.c.Int(n, w))
			}
			return
		}
		mismatch()
		return
	}
	unsup("JSON into %v", t)
}

func init() {
	guard := func(x *Exec, f func()) (e Iface) {
		d, fn := x.depth, x.curFn
		defer func() {
			if r := recover(); r != nil {
				if je, ok := r.(jsonErr); ok {
					x.depth, x.curFn = d, fn
					e = x.errVal(S(je.s))
					return
				}
				panic(r)
			}
		}()
		f()
		return Iface{}
	}
	const stub = "encoding/json: modelled (struct tags, omitempty, Marshaler/Unmarshaler, generic values, sorted map keys)"
	models["encoding/json.Marshal"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		x.stub(stub)
		var s Str
		e := guard(x, func() { s = x.jsonEnc(a[0], emptyIface, nil) })
		if e.t != nil {
			return Tuple{Slice{}, e}
		}
		return Tuple{x.toBytes(s), Iface{}}
	}
	models["encoding/json.Unmarshal"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		x.stub(stub)
		i := a[1].(Iface)
		pt, ok := (types.Type)(nil), false
		if i.t != nil {
			pt = under(i.t)
			_, ok = pt.(*types.Pointer)
		}
		if !ok {
			return x.errVal(S("json: Unmarshal(non-pointer)"))
		}
		p := i.v.(Ptr)
		if p == nil {
			return x.errVal(S("json: Unmarshal(nil)"))
		}
		saved := ""
		e := guard(x, func() {
			jp := &jparser{x: x, s: x.bytesArg(a[0])}
			v := jp.value()
			jp.ws()
			if jp.i < len(jp.s.s) {
				jp.fail()
			}
			x.jsonDec(v, pt.(*types.Pointer).Elem(), p, &saved)
		})
		if e.t != nil {
			return e
		}
		if saved != "" {
			return x.errVal(S(saved))
		}
		return Iface{}
	}
	models["encoding/json.Valid"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		e := guard(x, func() {
			jp := &jparser{x: x, s: x.bytesArg(a[0])}
			jp.value()
			jp.ws()
			if jp.i < len(jp.s.s) {
				jp.fail()
			}
		})
		return x.c.Bool(e.t == nil)
	}
	_ = fmt.Sprint
}
