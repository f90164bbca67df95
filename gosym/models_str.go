package main

// Models of strings, bytes, strconv, fmt, errors and regexp. Strings carry annotations: bytes that belong to a
// formatted number (FTok) and symbolic bytes.

import (
	"fmt"
	"go/types"
	"math"
	"regexp/syntax"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// chIs reports whether byte i of s is ch, forking if it is symbolic.
func (x *Exec) chIs(s Str, i int, ch byte) bool {
	a := s.annAt(i)
	if a.sym != nil {
		return x.decide(x.c.IEq(a.sym, x.c.Int(uint64(ch), 8)))
	}
	if a.tok != nil && ch >= '0' && ch <= '9' {
		x.digitNote()
	}
	return s.s[i] == ch
}

func (x *Exec) digitNote() {
	x.assumption("text scans that inspect single digits of a formatted number see a representative text of its class (sign, fraction, exponent)")
}

// hasAt reports whether sub occurs at i.
func (x *Exec) hasAt(s Str, i int, sub Str) bool {
	if i < 0 || i+len(sub.s) > len(s.s) {
		return false
	}
	if sub.ann != nil || s.ann != nil {
		if sub.ann != nil {
			return x.decide(x.strEq(s.sub(i, i+len(sub.s)), sub))
		}
		for j := range sub.s {
			if !x.chIs(s, i+j, sub.s[j]) {
				return false
			}
		}
		return true
	}
	return s.s[i:i+len(sub.s)] == sub.s
}

func (x *Exec) indexStr(s, sub Str, from int) int {
	for i := from; i+len(sub.s) <= len(s.s); i++ {
		if x.hasAt(s, i, sub) {
			return i
		}
	}
	return -1
}

// inSet reports whether byte i satisfies f.
func (x *Exec) inSet(s Str, i int, f func(b byte) bool) bool {
	a := s.annAt(i)
	if a.sym != nil {
		if a.sym.isConst() {
			return f(byte(a.sym.iv))
		}
		cond := x.c.False
		for b := 0; b < 128; b++ {
			if f(byte(b)) {
				cond = x.c.Or(cond, x.c.IEq(a.sym, x.c.Int(uint64(b), 8)))
			}
		}
		return x.decide(cond)
	}
	if a.tok != nil && s.s[i] >= '0' && s.s[i] <= '9' {
		n := 0
		for d := byte('0'); d <= '9'; d++ {
			if f(d) {
				n++
			}
		}
		if n != 0 && n != 10 {
			x.digitNote()
		}
	}
	return f(s.s[i])
}

func cutset(cs Str) func(b byte) bool {
	if cs.ann != nil {
		unsup("symbolic cutset")
	}
	return func(b byte) bool { return strings.IndexByte(cs.s, b) >= 0 }
}

func isSpace(b byte) bool { return b == ' ' || b >= 9 && b <= 13 }

func (x *Exec) trim(s Str, f func(b byte) bool, left, right bool) Str {
	i, j := 0, len(s.s)
	if left {
		for i < j && x.inSet(s, i, f) {
			i++
		}
	}
	if right {
		for j > i && x.inSet(s, j-1, f) {
			j--
		}
	}
	return s.sub(i, j)
}

func (x *Exec) split(s, sep Str, n int) Slice {
	if n == 0 {
		return Slice{}
	}
	r := []Value{}
	if len(sep.s) == 0 {
		for i := range s.s {
			if n > 0 && len(r) == n-1 {
				r = append(r, s.sub(i, len(s.s)))
				break
			}
			r = append(r, s.sub(i, i+1))
		}
		return Slice{r}
	}
	p := 0
	for n < 0 || len(r) < n-1 {
		i := x.indexStr(s, sep, p)
		if i < 0 {
			break
		}
		r = append(r, s.sub(p, i))
		p = i + len(sep.s)
	}
	r = append(r, s.sub(p, len(s.s)))
	return Slice{r}
}

func (x *Exec) fields(s Str, f func(b byte) bool) Slice {
	r := []Value{}
	st := -1
	for i := range s.s {
		if x.inSet(s, i, f) {
			if st >= 0 {
				r = append(r, s.sub(st, i))
				st = -1
			}
		} else if st < 0 {
			st = i
		}
	}
	if st >= 0 {
		r = append(r, s.sub(st, len(s.s)))
	}
	return Slice{r}
}

func (x *Exec) replace(s, old, nw Str, n int) Str {
	if len(old.s) == 0 {
		unsup("strings.Replace of the empty string")
	}
	var r Str
	p := 0
	for n != 0 {
		i := x.indexStr(s, old, p)
		if i < 0 {
			break
		}
		r = catStr(catStr(r, s.sub(p, i)), nw)
		p = i + len(old.s)
		n--
	}
	if p == 0 {
		return s
	}
	return catStr(r, s.sub(p, len(s.s)))
}

func (x *Exec) caseMap(s Str, upper bool) Str {
	f := unicode.ToLower
	if upper {
		f = unicode.ToUpper
	}
	if s.ann == nil {
		return S(strings.Map(f, s.s))
	}
	c := x.c
	r := Str{s: strings.Map(f, s.s), ann: append([]SAnn(nil), s.ann...)}
	if len(r.s) != len(s.s) {
		unsup("case mapping")
	}
	for i, a := range s.ann {
		if a.tok != nil && r.s[i] != s.s[i] {
			// an exponent letter: the text of the number changes but not its value
			continue
		}
		if a.sym != nil {
			lo, hi, d := uint64('A'), uint64('Z'), uint64(32)
			if upper {
				lo, hi, d = 'a', 'z', 256-32
			}
			in := c.And(c.ILe(c.Int(lo, 8), a.sym, false), c.ILe(a.sym, c.Int(hi, 8), false))
			r.ann[i].sym = c.Ite(in, c.IBin(OIAdd, a.sym, c.Int(d, 8)), a.sym)
		}
	}
	return r
}

func strSlice(v Value) []Str {
	var r []Str
	for _, e := range v.(Slice).a {
		r = append(r, e.(Str))
	}
	return r
}

func (x *Exec) errVal(s Str) Iface {
	p := x.prog.ImportedPackage("errors")
	if p == nil {
		unsup("package errors is not loaded")
	}
	t := p.Type("errorString").Object().Type()
	v := Value(StructV{s})
	return Iface{types.NewPointer(t), Ptr(&v)}
}

func sModel(name string, f func(x *Exec, a []Value) Value) {
	models["strings."+name] = func(x *Exec, _ *ssa.Function, a []Value) Value { return f(x, a) }
}

func (x *Exec) bytesArg(v Value) Str { return x.bytesToStr(v.(Slice).a, 8) }

func (x *Exec) toBytes(s Str) Slice {
	a := make([]Value, len(s.s))
	for i := range a {
		a[i] = x.strByte(s, i)
	}
	return Slice{a}
}

func init() {
	st := func(v Value) Str { return v.(Str) }
	sModel("Join", func(x *Exec, a []Value) Value {
		var r Str
		for i, e := range strSlice(a[0]) {
			if i > 0 {
				r = catStr(r, st(a[1]))
			}
			r = catStr(r, e)
		}
		return r
	})
	sModel("Split", func(x *Exec, a []Value) Value { return x.split(st(a[0]), st(a[1]), -1) })
	sModel("SplitN", func(x *Exec, a []Value) Value { return x.split(st(a[0]), st(a[1]), int(conInt(a[2]))) })
	sModel("Fields", func(x *Exec, a []Value) Value { return x.fields(st(a[0]), isSpace) })
	sModel("FieldsFunc", func(x *Exec, a []Value) Value {
		s, f := st(a[0]), a[1].(*Closure)
		r := []Value{}
		start := -1
		for i := range s.s {
			var ch Value = x.strByte(s, i)
			if t, ok := ch.(*Term); ok {
				ch = x.c.IConv(t, 32, false)
			}
			if x.decide(x.callClosure(f, []Value{ch}, nil).(*Term)) {
				if start >= 0 {
					r = append(r, s.sub(start, i))
					start = -1
				}
			} else if start < 0 {
				start = i
			}
		}
		if start >= 0 {
			r = append(r, s.sub(start, len(s.s)))
		}
		return Slice{r}
	})
	sModel("Trim", func(x *Exec, a []Value) Value { return x.trim(st(a[0]), cutset(st(a[1])), true, true) })
	sModel("TrimLeft", func(x *Exec, a []Value) Value { return x.trim(st(a[0]), cutset(st(a[1])), true, false) })
	sModel("TrimRight", func(x *Exec, a []Value) Value { return x.trim(st(a[0]), cutset(st(a[1])), false, true) })
	sModel("TrimSpace", func(x *Exec, a []Value) Value { return x.trim(st(a[0]), isSpace, true, true) })
	sModel("TrimPrefix", func(x *Exec, a []Value) Value {
		if x.hasAt(st(a[0]), 0, st(a[1])) {
			return st(a[0]).sub(len(st(a[1]).s), len(st(a[0]).s))
		}
		return a[0]
	})
	sModel("TrimSuffix", func(x *Exec, a []Value) Value {
		k := len(st(a[0]).s) - len(st(a[1]).s)
		if x.hasAt(st(a[0]), k, st(a[1])) {
			return st(a[0]).sub(0, k)
		}
		return a[0]
	})
	sModel("Replace", func(x *Exec, a []Value) Value {
		return x.replace(st(a[0]), st(a[1]), st(a[2]), int(conInt(a[3])))
	})
	sModel("ReplaceAll", func(x *Exec, a []Value) Value { return x.replace(st(a[0]), st(a[1]), st(a[2]), -1) })
	sModel("ToUpper", func(x *Exec, a []Value) Value { return x.caseMap(st(a[0]), true) })
	sModel("ToLower", func(x *Exec, a []Value) Value { return x.caseMap(st(a[0]), false) })
	sModel("Contains", func(x *Exec, a []Value) Value { return x.c.Bool(x.indexStr(st(a[0]), st(a[1]), 0) >= 0) })
	sModel("Index", func(x *Exec, a []Value) Value { return x.c.I64(int64(x.indexStr(st(a[0]), st(a[1]), 0))) })
	sModel("IndexByte", func(x *Exec, a []Value) Value {
		b := conInt(a[1])
		return x.c.I64(int64(x.indexStr(st(a[0]), S(string([]byte{byte(b)})), 0)))
	})
	// the first byte of an ASCII text equal to a rune that may be symbolic
	indexRune := func(x *Exec, a []Value) int {
		s := st(a[0])
		r, ok := a[1].(*Term)
		if !ok || r.isConst() {
			return x.indexStr(s, S(string(rune(conInt(a[1])))), 0)
		}
		for i := range s.s {
			b, ok := x.strByte(s, i).(*Term)
			if !ok || b.isConst() && b.iv >= 0x80 {
				unsup("text searched for a symbolic character")
			}
			if x.decide(x.c.IEq(x.c.IConv(b, 32, false), r)) {
				return i
			}
		}
		return -1
	}
	sModel("IndexRune", func(x *Exec, a []Value) Value { return x.c.I64(int64(indexRune(x, a))) })
	sModel("ContainsRune", func(x *Exec, a []Value) Value { return x.c.Bool(indexRune(x, a) >= 0) })
	sModel("IndexAny", func(x *Exec, a []Value) Value {
		for i := range st(a[0]).s {
			if x.inSet(st(a[0]), i, cutset(st(a[1]))) {
				return x.c.I64(int64(i))
			}
		}
		return x.c.I64(-1)
	})
	sModel("ContainsAny", func(x *Exec, a []Value) Value {
		for i := range st(a[0]).s {
			if x.inSet(st(a[0]), i, cutset(st(a[1]))) {
				return x.c.True
			}
		}
		return x.c.False
	})
	sModel("LastIndex", func(x *Exec, a []Value) Value {
		for i := len(st(a[0]).s) - len(st(a[1]).s); i >= 0; i-- {
			if x.hasAt(st(a[0]), i, st(a[1])) {
				return x.c.I64(int64(i))
			}
		}
		return x.c.I64(-1)
	})
	sModel("HasPrefix", func(x *Exec, a []Value) Value { return x.c.Bool(x.hasAt(st(a[0]), 0, st(a[1]))) })
	sModel("HasSuffix", func(x *Exec, a []Value) Value {
		return x.c.Bool(x.hasAt(st(a[0]), len(st(a[0]).s)-len(st(a[1]).s), st(a[1])))
	})
	sModel("Count", func(x *Exec, a []Value) Value {
		n, p := 0, 0
		for {
			i := x.indexStr(st(a[0]), st(a[1]), p)
			if i < 0 || len(st(a[1]).s) == 0 {
				return x.c.I64(int64(n))
			}
			n++
			p = i + len(st(a[1]).s)
		}
	})
	sModel("Repeat", func(x *Exec, a []Value) Value {
		n := conInt(a[1])
		if n < 0 {
			panic(goPanic{msg: "strings: negative Repeat count", where: x.where()})
		}
		var r Str
		for i := int64(0); i < n; i++ {
			r = catStr(r, st(a[0]))
		}
		return r
	})
	sModel("EqualFold", func(x *Exec, a []Value) Value {
		if st(a[0]).ann == nil && st(a[1]).ann == nil {
			return x.c.Bool(strings.EqualFold(st(a[0]).s, st(a[1]).s))
		}
		return x.strEq(x.caseMap(st(a[0]), false), x.caseMap(st(a[1]), false))
	})
	models["strings.Map"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		f, s := a[0].(*Closure), st(a[1])
		var out []Value
		for i := range s.s {
			b := x.strByte(s, i)
			if t, ok := b.(*Term); ok {
				r := x.callClosure(f, []Value{x.c.IConv(t, 32, false)}, nil).(*Term)
				if x.decide(x.c.ILt(r, x.c.Int(0, 32), true)) {
					continue
				}
				out = append(out, x.c.IConv(r, 8, false))
				continue
			}
			tb := b.(TokByte)
			r := x.toTerm(x.callClosure(f, []Value{x.c.Int(uint64(tb.c), 32)}, nil))
			if !r.isConst() || r.iv != uint64(tb.c) {
				unsup("strings.Map over a formatted number")
			}
			out = append(out, tb)
		}
		return x.bytesToStr(out, 8)
	}
	models["(*strings.Builder).copyCheck"] = func(x *Exec, _ *ssa.Function, a []Value) Value { return unit() }
	models["(*strings.Builder).String"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		s := (*deref(x, a[0])).(StructV)
		for _, f := range s {
			if sl, ok := f.(Slice); ok {
				return x.bytesToStr(sl.a, 8)
			}
		}
		unsup("strings.Builder")
		return nil
	}
	models["(*strings.Builder).Grow"] = func(x *Exec, _ *ssa.Function, a []Value) Value { return unit() }
	models["bytes.Contains"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.c.Bool(x.indexStr(x.bytesArg(a[0]), x.bytesArg(a[1]), 0) >= 0)
	}
	models["bytes.Equal"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.strEq(x.bytesArg(a[0]), x.bytesArg(a[1]))
	}
	models["bytes.TrimSpace"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.toBytes(x.trim(x.bytesArg(a[0]), isSpace, true, true))
	}
	models["bytes.HasPrefix"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.c.Bool(x.hasAt(x.bytesArg(a[0]), 0, x.bytesArg(a[1])))
	}

	// ----- strconv
	models["strconv.FormatFloat"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.formatFloat(a[0].(*Term), byte(conInt(a[1])), int(conInt(a[2])), int(conInt(a[3])))
	}
	models["strconv.AppendFloat"] = func(x *Exec, fn *ssa.Function, a []Value) Value {
		s := x.formatFloat(a[1].(*Term), byte(conInt(a[2])), int(conInt(a[3])), int(conInt(a[4])))
		return x.appendSlice(a[0].(Slice), x.toBytes(s).a, types.Typ[types.Byte])
	}
	models["strconv.ParseFloat"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		return x.parseFloat(a[0].(Str), int(conInt(a[1])))
	}
	models["strconv.Itoa"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		return S(strconv.FormatInt(x.concrete(a[0].(*Term)), 10))
	}
	models["strconv.FormatInt"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		return S(strconv.FormatInt(x.concrete(a[0].(*Term)), int(conInt(a[1]))))
	}
	models["strconv.Atoi"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		s := x.concreteStr(a[0].(Str))
		n, err := strconv.Atoi(s)
		return x.numRes(x.c.I64(int64(n)), err)
	}
	models["strconv.ParseInt"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		n, err := strconv.ParseInt(x.concreteStr(a[0].(Str)), int(conInt(a[1])), int(conInt(a[2])))
		return x.numRes(x.c.I64(n), err)
	}
	models["strconv.Quote"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		return S(strconv.Quote(x.concreteStr(a[0].(Str))))
	}

	// ----- fmt, errors
	spr := func(strict bool) func(x *Exec, a []Value) Str {
		return func(x *Exec, a []Value) Str { return x.sprintf(a[0].(Str), a[1].(Slice).a, strict) }
	}
	models["fmt.Sprintf"] = func(x *Exec, _ *ssa.Function, a []Value) Value { return spr(true)(x, a) }
	models["fmt.Errorf"] = func(x *Exec, _ *ssa.Function, a []Value) Value { return x.errVal(spr(false)(x, a)) }
	models["fmt.Sprint"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		var r Str
		prevStr := true
		for i, v := range a[0].(Slice).a {
			_, isS := v.(Iface).v.(Str)
			if i > 0 && !isS && !prevStr {
				r = catStr(r, S(" "))
			}
			prevStr = isS
			r = catStr(r, x.fmtArg('v', -1, v.(Iface), true))
		}
		return r
	}
	models["fmt.Sprintln"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		var r Str
		for i, v := range a[0].(Slice).a {
			if i > 0 {
				r = catStr(r, S(" "))
			}
			r = catStr(r, x.fmtArg('v', -1, v.(Iface), true))
		}
		return catStr(r, S("\n"))
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print"} {
		isLog := strings.HasPrefix(n, "log")
		models[n] = func(x *Exec, _ *ssa.Function, a []Value) Value {
			if isLog {
				return unit()
			}
			return Tuple{x.c.I64(0), Iface{}}
		}
	}

	// ----- regexp
	reObj := func(x *Exec, s Str) Value {
		if s.ann != nil {
			unsup("symbolic regular expression")
		}
		re, err := syntax.Parse(s.s, syntax.Perl)
		if err != nil {
			return nil
		}
		ncap := re.MaxCap()
		prog, err := syntax.Compile(re.Simplify())
		if err != nil {
			return nil
		}
		v := Value(&Native{"regexp", &rx{prog: prog, ncap: ncap + 1, src: s.s}})
		return Ptr(&v)
	}
	models["regexp.MustCompile"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		r := reObj(x, a[0].(Str))
		if r == nil {
			panic(goPanic{msg: "regexp: Compile: bad expression", where: x.where()})
		}
		return r
	}
	models["regexp.Compile"] = func(x *Exec, _ *ssa.Function, a []Value) Value {
		r := reObj(x, a[0].(Str))
		if r == nil {
			return Tuple{Ptr(nil), x.errVal(S("error parsing regexp"))}
		}
		return Tuple{r, Iface{}}
	}
	rm := func(name string, f func(x *Exec, re *rx, a []Value) Value) {
		models["(*regexp.Regexp)."+name] = func(x *Exec, _ *ssa.Function, a []Value) Value {
			n, ok := (*deref(x, a[0])).(*Native)
			if !ok {
				unsup("regexp value")
			}
			return f(x, n.v.(*rx), a[1:])
		}
	}
	groups := func(s Str, m []int) Slice {
		r := make([]Value, len(m)/2)
		for i := range r {
			if m[2*i] >= 0 {
				r[i] = s.sub(m[2*i], m[2*i+1])
			} else {
				r[i] = Str{}
			}
		}
		return Slice{r}
	}
	ints := func(x *Exec, m []int) Slice {
		r := make([]Value, len(m))
		for i := range r {
			r[i] = x.c.I64(int64(m[i]))
		}
		return Slice{r}
	}
	rm("FindStringSubmatch", func(x *Exec, re *rx, a []Value) Value {
		if m := re.match(x, st(a[0]), 0); m != nil {
			return groups(st(a[0]), m)
		}
		return Slice{}
	})
	rm("FindString", func(x *Exec, re *rx, a []Value) Value {
		if m := re.match(x, st(a[0]), 0); m != nil {
			return st(a[0]).sub(m[0], m[1])
		}
		return Str{}
	})
	rm("FindStringIndex", func(x *Exec, re *rx, a []Value) Value {
		if m := re.match(x, st(a[0]), 0); m != nil {
			return ints(x, m[:2])
		}
		return Slice{}
	})
	rm("FindStringSubmatchIndex", func(x *Exec, re *rx, a []Value) Value {
		if m := re.match(x, st(a[0]), 0); m != nil {
			return ints(x, m)
		}
		return Slice{}
	})
	rm("MatchString", func(x *Exec, re *rx, a []Value) Value { return x.c.Bool(re.match(x, st(a[0]), 0) != nil) })
	all := func(f func(x *Exec, s Str, m []int) Value) func(x *Exec, re *rx, a []Value) Value {
		return func(x *Exec, re *rx, a []Value) Value {
			var r []Value
			for _, m := range re.all(x, st(a[0]), int(conInt(a[1]))) {
				r = append(r, f(x, st(a[0]), m))
			}
			return Slice{r}
		}
	}
	rm("FindAllString", all(func(x *Exec, s Str, m []int) Value { return s.sub(m[0], m[1]) }))
	rm("FindAllStringSubmatch", all(func(x *Exec, s Str, m []int) Value { return groups(s, m) }))
	rm("FindAllStringIndex", all(func(x *Exec, s Str, m []int) Value { return ints(x, m[:2]) }))
	rm("FindAllStringSubmatchIndex", all(func(x *Exec, s Str, m []int) Value { return ints(x, m) }))
	rm("NumSubexp", func(x *Exec, re *rx, a []Value) Value { return x.c.I64(int64(re.ncap - 1)) })
	rm("String", func(x *Exec, re *rx, a []Value) Value { return S(re.src) })
	repl := func(lit bool) func(x *Exec, re *rx, a []Value) Value {
		return func(x *Exec, re *rx, a []Value) Value {
			s, t := st(a[0]), st(a[1])
			var r Str
			p := 0
			for _, m := range re.all(x, s, -1) {
				r = catStr(r, s.sub(p, m[0]))
				if lit || !strings.Contains(t.s, "$") {
					r = catStr(r, t)
				} else {
					for i := 0; i < len(t.s); i++ {
						if t.s[i] == '$' && i+1 < len(t.s) && t.s[i+1] >= '0' && t.s[i+1] <= '9' && (i+2 == len(t.s) || !isWord(t.s[i+2])) {
							k := int(t.s[i+1] - '0')
							if 2*k < len(m) && m[2*k] >= 0 {
								r = catStr(r, s.sub(m[2*k], m[2*k+1]))
							}
							i++
							continue
						}
						if t.s[i] == '$' && i+3 < len(t.s) && t.s[i+1] == '{' && t.s[i+3] == '}' {
							k := int(t.s[i+2] - '0')
							if 2*k < len(m) && m[2*k] >= 0 {
								r = catStr(r, s.sub(m[2*k], m[2*k+1]))
							}
							i += 3
							continue
						}
						if t.s[i] == '$' {
							unsup("replacement template")
						}
						r = catStr(r, t.sub(i, i+1))
					}
				}
				p = m[1]
			}
			return catStr(r, s.sub(p, len(s.s)))
		}
	}
	rm("ReplaceAllString", repl(false))
	rm("ReplaceAllLiteralString", repl(true))
	rm("Split", func(x *Exec, re *rx, a []Value) Value {
		s := st(a[0])
		n := int(conInt(a[1]))
		if n == 0 {
			return Slice{}
		}
		r := []Value{}
		beg, end := 0, 0
		for _, m := range re.all(x, s, n) {
			if n > 0 && len(r) == n-1 {
				break
			}
			end = m[0]
			if m[1] != 0 {
				r = append(r, s.sub(beg, end))
			}
			beg = m[1]
		}
		if end != len(s.s) {
			r = append(r, s.sub(beg, len(s.s)))
		}
		return Slice{r}
	})
}

func isWord(b byte) bool {
	return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

func (x *Exec) numRes(v Value, err error) Value {
	if err != nil {
		return Tuple{v, x.errVal(S(err.Error()))}
	}
	return Tuple{v, Iface{}}
}

// concreteStr forks until every byte of s is known.
func (x *Exec) concreteStr(s Str) string {
	if s.ann == nil {
		return s.s
	}
	b := []byte(s.s)
	for i, a := range s.ann {
		if a.tok != nil {
			unsup("formatted number used as plain text")
		}
		if a.sym != nil {
			b[i] = x.concreteByte(a.sym)
		}
	}
	return string(b)
}

func (x *Exec) concreteByte(t *Term) byte {
	if t.isConst() {
		return byte(t.iv)
	}
	m := x.topModel()
	if m != nil { // the byte of the current model first
		if r := x.eval(t, m); r.ok && x.decide(x.c.IEq(t, x.c.Int(r.u, 8))) {
			return byte(r.u)
		}
	}
	for b := 0; b < 256; b++ {
		if x.decide(x.c.IEq(t, x.c.Int(uint64(b), 8))) {
			return byte(b)
		}
	}
	panic(pathEnd{"infeasible"})
}

// ---------- numbers in text

func shortest(f float64, fm byte, prec int) string { return strconv.FormatFloat(f, fm, prec, 64) }

// formatFloat makes the text of a float. The text of a symbolic number is a representative of its class.
func (x *Exec) formatFloat(t *Term, fm byte, prec, bits int) Str {
	c := x.c
	if t.isConst() {
		return S(strconv.FormatFloat(t.fv, fm, prec, bits))
	}
	if !t.fin {
		if x.decide(c.FIsNaN(t)) {
			return S("NaN")
		}
		if x.decide(c.FIsInf(t)) {
			if x.decide(c.FLt(c.F(0), t)) {
				return S("+Inf")
			}
			return S("-Inf")
		}
	}
	x.noSpec("number formatting")
	exact := prec < 0 && bits == 64
	v := t
	if bits == 32 {
		v = c.UF("round32", math.Max(t.lo-math.Abs(t.lo)*1e-7, -math.MaxFloat64), math.Min(t.hi+math.Abs(t.hi)*1e-7, math.MaxFloat64), t)
	}
	neg := x.decide(c.FLt(t, c.F(0)))
	mag := "1"
	switch {
	case fm == 'f' || fm == 'F':
		if prec < 0 {
			if !x.isInteger(t) {
				mag = "1.5"
			}
		} else {
			if prec > 0 {
				mag = "1." + strings.Repeat("5", prec)
			}
			if bits == 64 {
				if !(prec == 0) || true {
					v = x.roundDec(t, prec)
				}
			}
			exact = bits == 64
		}
	case fm == 'g' || fm == 'G' || fm == 'e' || fm == 'E' || fm == 'J' || fm == 'v':
		// 'J': encoding/json, 'v': fmt's %v; exponent form outside [lo, hi)
		lo, hi := 1e-4, 1e21
		if fm == 'J' {
			lo = 1e-6
		}
		ex := fm == 'e' || fm == 'E'
		if !ex {
			abs := c.FAbs(t)
			if fm == 'g' || fm == 'G' {
				hi = 1e21
				if prec >= 0 {
					hi = math.Pow10(max(prec, 1))
				}
			}
			ex = x.decide(c.Or(c.And(c.FLt(abs, c.F(lo)), c.Not(c.FEq(t, c.F(0)))), c.FLe(c.F(hi), abs)))
			if ex && (fm == 'g' || fm == 'G') {
				fm = fm - 'g' + 'e'
			}
		}
		if ex {
			e := "e"
			if fm == 'E' || fm == 'G' {
				e = "E"
			}
			if x.decide(c.FLt(c.FAbs(t), c.F(1))) {
				mag = "1.5" + e + "-07"
			} else {
				mag = "1.5" + e + "+21"
			}
		} else if !x.isInteger(t) {
			mag = "1.5"
		}
		if prec >= 0 {
			exact = false
			v = c.UF(fmt.Sprintf("prec_%c%d", fm, prec), t.lo-math.Abs(t.lo)*0.5, t.hi+math.Abs(t.hi)*0.5, t)
		}
	default:
		unsup("float format %c", fm)
	}
	if neg {
		mag = "-" + mag
	}
	x.tokN++
	tok := &FTok{x: v, fmt: fm, prec: prec, text: mag, id: x.tokN, exact: exact}
	r := Str{s: mag, ann: make([]SAnn, len(mag))}
	for i := range r.ann {
		r.ann[i] = SAnn{tok: tok, off: int32(i)}
	}
	x.stub("strconv.FormatFloat/ParseFloat: shortest formatting of a finite double parses back to the same double (documented contract); the text has the right sign, fraction and exponent form, its digits are abstract")
	return r
}

func (x *Exec) isInteger(t *Term) bool {
	if t.grid >= 0 {
		return true
	}
	if t.fin && (t.lo > 0 && t.hi < 1 || t.hi < 0 && t.lo > -1) {
		return false
	}
	if x.c.mode == MOrd || x.c.mode == MReal {
		x.assumption("formatted numbers without a grid are taken as non-integers")
		return false
	}
	return x.decide(x.c.FEq(x.c.FUn(OFTrunc, t), t))
}

// roundDec is the value of the decimal with prec digits after the point.
func (x *Exec) roundDec(t *Term, prec int) *Term {
	c := x.c
	if !c.mode.poly() || c.mode == MOrd {
		return c.UF(fmt.Sprintf("round10_%d", prec), t.lo-math.Pow10(-prec), t.hi+math.Pow10(-prec), t)
	}
	if prec > 15 {
		return c.UF(fmt.Sprintf("round10_%d", prec), t.lo-math.Pow10(-prec), t.hi+math.Pow10(-prec), t)
	}
	k := c.F(math.Pow10(prec))
	s := c.FBin(OFMul, c.FAbs(t), k)
	r := c.FBin(OFDiv, c.FUn(OFFloor, c.FBin(OFAdd, s, c.F(0.5))), k)
	return c.Ite(c.FLt(t, c.F(0)), c.FNeg(r), r)
}

func init() {
	for p := 0; p < 20; p++ {
		p := p
		ufNative[fmt.Sprintf("round10_%d", p)] = func(a []float64) float64 {
			f, _ := strconv.ParseFloat(strconv.FormatFloat(a[0], 'f', p, 64), 64)
			return f
		}
		for _, fm := range []byte("gGeE") {
			fm := fm
			ufNative[fmt.Sprintf("prec_%c%d", fm, p)] = func(a []float64) float64 {
				f, _ := strconv.ParseFloat(strconv.FormatFloat(a[0], fm, p, 64), 64)
				return f
			}
		}
	}
	ufNative["round32"] = func(a []float64) float64 {
		f, _ := strconv.ParseFloat(strconv.FormatFloat(a[0], 'g', -1, 32), 64)
		return f
	}
	ufNative["f32"] = func(a []float64) float64 { return float64(float32(a[0])) }
}

// wholeTok returns the token covering exactly s.
func wholeTok(s Str) *FTok {
	if s.ann == nil || len(s.s) == 0 {
		return nil
	}
	t := s.ann[0].tok
	if t == nil || len(t.text) != len(s.s) {
		return nil
	}
	for i, a := range s.ann {
		if a.tok != t || int(a.off) != i {
			return nil
		}
	}
	return t
}

func (x *Exec) parseFloat(s Str, bits int) Value {
	if t := wholeTok(s); t != nil {
		v := t.x
		if bits == 32 {
			v = x.c.UF("f32", math.Max(v.lo-math.Abs(v.lo)*1e-7, -math.MaxFloat64), math.Min(v.hi+math.Abs(v.hi)*1e-7, math.MaxFloat64), v)
		}
		return Tuple{v, Iface{}}
	}
	tok := false
	for _, a := range s.ann {
		if a.tok != nil {
			tok = true
		}
	}
	if tok {
		for i, a := range s.ann {
			if a.sym != nil && !a.sym.isConst() {
				x.concreteByte(a.sym)
				_ = i
			}
		}
		b := []byte(s.s)
		for i, a := range s.ann {
			if a.sym != nil {
				b[i] = x.concreteByte(a.sym)
			}
		}
		if _, err := strconv.ParseFloat(string(b), bits); err != nil {
			return Tuple{x.c.F(0), x.errVal(S("strconv.ParseFloat: invalid syntax"))}
		}
		// part of a number, or a number with more digits around it
		t := s.ann[0].tok
		if t != nil && s.ann[0].off == 0 {
			rest := true
			for i, a := range s.ann {
				if a.tok != t || int(a.off) != i {
					rest = false
				}
			}
			if rest && len(s.s) < len(t.text) {
				// the text of the number is cut: some other number
				lo, hi := -maxabs(t.x), maxabs(t.x)
				return Tuple{x.c.UF("cut", lo, hi, t.x), Iface{}}
			}
		}
		if len(s.s) > 0 && s.s[0] == '+' {
			if q := wholeTok(s.sub(1, len(s.s))); q != nil {
				return Tuple{q.x, Iface{}}
			}
		}
		if len(s.s) > 0 && s.s[0] == '-' && s.ann[0].tok == nil {
			if q := wholeTok(s.sub(1, len(s.s))); q != nil {
				return Tuple{x.c.FNeg(q.x), Iface{}}
			}
		}
		unsup("parsing a number assembled from parts")
	}
	f, err := strconv.ParseFloat(x.concreteStr(s), bits)
	return x.numRes(x.c.F(f), err)
}

// ---------- formatting

func (x *Exec) sprintf(f Str, args []Value, strict bool) Str {
	if f.ann != nil {
		unsup("symbolic format")
	}
	var r Str
	n := 0
	s := f.s
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			r = catStr(r, S(s[i:j]))
			i = j - 1
			continue
		}
		i++
		prec := -1
		flags := ""
		for i < len(s) && strings.IndexByte("+-# 0", s[i]) >= 0 {
			flags += s[i : i+1]
			i++
		}
		w := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			w = w*10 + int(s[i]-'0')
			i++
		}
		if i < len(s) && s[i] == '.' {
			i++
			prec = 0
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				prec = prec*10 + int(s[i]-'0')
				i++
			}
		}
		if i >= len(s) {
			return catStr(r, S("%!(NOVERB)"))
		}
		if s[i] == '%' {
			r = catStr(r, S("%"))
			continue
		}
		if n >= len(args) {
			r = catStr(r, S("%!"+string(s[i])+"(MISSING)"))
			continue
		}
		a := args[n].(Iface)
		n++
		if (w > 0 || flags != "") && strict {
			if x.concretePlain(a) {
				r = catStr(r, S(fmt.Sprintf("%"+flags+map[bool]string{true: strconv.Itoa(w)}[w > 0]+map[bool]string{true: "." + strconv.Itoa(max(prec, 0))}[prec >= 0]+string(s[i]), x.plain(a))))
				continue
			}
			unsup("format with width or flags")
		}
		r = catStr(r, x.fmtArg(s[i], prec, a, strict))
	}
	return r
}

func (x *Exec) concretePlain(a Iface) bool {
	switch v := a.v.(type) {
	case *Term:
		return v.isConst()
	case Str:
		return v.ann == nil
	}
	return false
}

func (x *Exec) plain(a Iface) interface{} {
	switch v := a.v.(type) {
	case *Term:
		switch v.sort {
		case SBool:
			return v.isTrue()
		case SFloat:
			return v.fv
		}
		return v.sval()
	case Str:
		return v.s
	}
	return nil
}

func (x *Exec) fmtArg(verb byte, prec int, a Iface, strict bool) Str {
	if a.t == nil {
		return S("<nil>")
	}
	switch v := a.v.(type) {
	case *Term:
		switch v.sort {
		case SFloat:
			switch verb {
			case 'v':
				return x.formatFloat(v, 'g', -1, 64)
			case 'f', 'F':
				if prec < 0 {
					prec = 6
				}
				return x.formatFloat(v, 'f', prec, 64)
			case 'g', 'G', 'e', 'E':
				if prec < 0 && (verb == 'e' || verb == 'E') {
					prec = 6
				}
				return x.formatFloat(v, verb, prec, 64)
			}
		case SBool:
			if x.decide(v) {
				return S("true")
			}
			return S("false")
		case SInt:
			if v.isConst() || strict {
				if !v.isConst() {
					v = x.c.I64(x.concrete(v))
				}
				if _, signed, ok := intType(a.t); ok && !signed {
					return S(fmt.Sprintf("%"+string(verb), v.iv))
				}
				return S(fmt.Sprintf("%"+string(verb), v.sval()))
			}
		}
	case Str:
		if verb == 's' || verb == 'v' {
			if !strict || v.ann != nil || true {
				return v
			}
		}
		if verb == 'q' && v.ann == nil {
			return S(strconv.Quote(v.s))
		}
	}
	if verb == 'T' {
		return S(types.TypeString(a.t, func(p *types.Package) string { return p.Name() }))
	}
	if verb == 'v' || verb == 's' {
		if sel := x.prog.MethodSets.MethodSet(a.t).Lookup(nil, "Error"); sel != nil && strict {
			return x.callFn(x.prog.MethodValue(sel), []Value{copyVal(a.v)}, nil, nil).(Str)
		}
		if sel := x.prog.MethodSets.MethodSet(a.t).Lookup(nil, "String"); sel != nil && strict {
			return x.callFn(x.prog.MethodValue(sel), []Value{copyVal(a.v)}, nil, nil).(Str)
		}
		if sl, ok := a.v.(Slice); ok && strict {
			if st, ok := under(a.t).(*types.Slice); ok {
				if w, _, ok := intType(st.Elem()); ok && w == 8 && verb == 's' {
					return x.bytesToStr(sl.a, 8)
				}
				r := S("[")
				for i, e := range sl.a {
					if i > 0 {
						r = catStr(r, S(" "))
					}
					ei, ok := e.(Iface)
					if !ok {
						ei = Iface{st.Elem(), e}
					}
					r = catStr(r, x.fmtArg(verb, prec, ei, strict))
				}
				return catStr(r, S("]"))
			}
		}
		if sv, ok := a.v.(StructV); ok && strict {
			stt := under(a.t).(*types.Struct)
			r := S("{")
			for i, e := range sv {
				if i > 0 {
					r = catStr(r, S(" "))
				}
				ei, ok := e.(Iface)
				if !ok {
					ei = Iface{stt.Field(i).Type(), e}
				}
				r = catStr(r, x.fmtArg(verb, prec, ei, strict))
			}
			return catStr(r, S("}"))
		}
	}
	if strict {
		unsup("formatting %v with %%%c", a.t, verb)
	}
	return S("?")
}

// ---------- regular expressions (leftmost-first backtracking over the compiled program)

type rx struct {
	prog *syntax.Prog
	ncap int
	src  string
}

type rxRun struct {
	x    *Exec
	p    *syntax.Prog
	s    Str
	seen map[int]bool
	caps []int
}

func (r *rx) match(x *Exec, s Str, from int) []int {
	for i := from; i <= len(s.s); i++ {
		if s.annAt2(i).tok == nil && s.annAt2(i).sym == nil && i > 0 && i < len(s.s) && s.s[i]&0xc0 == 0x80 {
			continue // inside a UTF-8 sequence
		}
		m := &rxRun{x: x, p: r.prog, s: s, seen: map[int]bool{}, caps: make([]int, 2*r.ncap)}
		for k := range m.caps {
			m.caps[k] = -1
		}
		m.caps[0] = i
		if m.run(r.prog.Start, i) {
			return m.caps
		}
		if r.prog.Inst[r.prog.Start].Op == syntax.InstEmptyWidth && syntax.EmptyOp(r.prog.Inst[r.prog.Start].Arg)&syntax.EmptyBeginText != 0 {
			break
		}
	}
	return nil
}

func (s Str) annAt2(i int) SAnn {
	if s.ann == nil || i >= len(s.ann) {
		return SAnn{}
	}
	return s.ann[i]
}

func (r *rx) all(x *Exec, s Str, n int) [][]int {
	var out [][]int
	pos, prevEnd := 0, -1
	for (n < 0 || len(out) < n) && pos <= len(s.s) {
		m := r.match(x, s, pos)
		if m == nil {
			break
		}
		accept := true
		if m[1] == pos {
			if m[0] == prevEnd {
				accept = false
			}
			if pos < len(s.s) {
				pos++
			} else {
				pos = len(s.s) + 1
			}
		} else {
			pos = m[1]
		}
		prevEnd = m[1]
		if accept {
			out = append(out, m)
		}
	}
	return out
}

func (m *rxRun) run(pc, pos int) bool {
	for {
		key := pc*(len(m.s.s)+1) + pos
		if m.seen[key] {
			return false
		}
		m.seen[key] = true
		m.x.steps++
		if m.x.steps > m.x.stepLimit {
			panic(pathEnd{"step limit"})
		}
		in := &m.p.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
			return false
		case syntax.InstMatch:
			m.caps[1] = pos
			return true
		case syntax.InstAlt, syntax.InstAltMatch:
			if m.run(int(in.Out), pos) {
				return true
			}
			pc = int(in.Arg)
		case syntax.InstNop:
			pc = int(in.Out)
		case syntax.InstCapture:
			k := int(in.Arg)
			if k < len(m.caps) {
				old := m.caps[k]
				m.caps[k] = pos
				if m.run(int(in.Out), pos) {
					return true
				}
				m.caps[k] = old
				return false
			}
			pc = int(in.Out)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(in.Arg)
			ok := true
			s := m.s
			for _, f := range []struct {
				o syntax.EmptyOp
				t func() bool
			}{
				{syntax.EmptyBeginText, func() bool { return pos == 0 }},
				{syntax.EmptyEndText, func() bool { return pos == len(s.s) }},
				{syntax.EmptyBeginLine, func() bool { return pos == 0 || m.x.chIs(s, pos-1, '\n') }},
				{syntax.EmptyEndLine, func() bool { return pos == len(s.s) || m.x.chIs(s, pos, '\n') }},
				{syntax.EmptyWordBoundary, func() bool { return m.wordB(pos) }},
				{syntax.EmptyNoWordBoundary, func() bool { return !m.wordB(pos) }},
			} {
				if op&f.o != 0 && ok {
					ok = f.t()
				}
			}
			if !ok {
				return false
			}
			pc = int(in.Out)
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if pos >= len(m.s.s) {
				return false
			}
			a := m.s.annAt(pos)
			if a.sym == nil && a.tok == nil && m.s.s[pos] >= 0x80 {
				r, w := utf8.DecodeRuneInString(m.s.s[pos:])
				if !in.MatchRune(r) {
					return false
				}
				pos += w
			} else {
				if !m.x.inSet(m.s, pos, func(b byte) bool { return in.MatchRune(rune(b)) }) {
					return false
				}
				pos++
			}
			pc = int(in.Out)
		default:
			unsup("regexp instruction")
		}
	}
}

func (m *rxRun) wordB(pos int) bool {
	a := pos > 0 && m.x.inSet(m.s, pos-1, isWord)
	b := pos < len(m.s.s) && m.x.inSet(m.s, pos, isWord)
	return a != b
}
