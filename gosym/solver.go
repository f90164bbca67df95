package main

// SMT-LIB2 back end: node graph, incremental solver processes and one-shot portfolio queries.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Node is an SMT expression with a name. aux are facts that must be asserted wherever the node is used.
type Node struct {
	unit  bool // 1 or -1
	id    int32
	name  string
	sort  string
	expr  string // "" for declared constants; "fun ..." handled by decl
	decl  string // declaration text for constants and functions
	deps  []*Node
	aux   []*Node
	auxed []*Node // transitive aux, computed on demand
	hasAx bool
}

type Graph struct {
	tab  map[string]*Node
	all  int32
	defs map[string]bool
}

func NewGraph() *Graph { return &Graph{tab: map[string]*Node{}} }

func (g *Graph) mk(sort, expr string, deps ...*Node) *Node {
	key := sort + "|" + expr
	if n, ok := g.tab[key]; ok {
		return n
	}
	n := &Node{id: g.all, sort: sort, expr: expr, deps: deps}
	g.all++
	n.name = fmt.Sprintf("n%d", n.id)
	g.tab[key] = n
	return n
}

// con declares a constant.
func (g *Graph) con(name, sort string) *Node {
	key := "con|" + name
	if n, ok := g.tab[key]; ok {
		return n
	}
	n := &Node{id: g.all, sort: sort, name: "|" + name + "|", decl: fmt.Sprintf("(declare-const |%s| %s)", name, sort)}
	g.all++
	g.tab[key] = n
	return n
}

// raw declares something else (a function).
func (g *Graph) raw(name, decl string) *Node {
	key := "raw|" + name
	if n, ok := g.tab[key]; ok {
		return n
	}
	n := &Node{id: g.all, name: name, decl: decl}
	g.all++
	g.tab[key] = n
	return n
}

// collect appends, in dependency order, the nodes reachable from n (not through aux) not in seen.
func collect(n *Node, seen map[*Node]bool, out *[]*Node) {
	if seen[n] {
		return
	}
	type fr struct {
		n *Node
		i int
	}
	st := []fr{{n, 0}}
	seen[n] = true
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.n.deps) {
			d := f.n.deps[f.i]
			f.i++
			if !seen[d] {
				seen[d] = true
				st = append(st, fr{d, 0})
			}
			continue
		}
		*out = append(*out, f.n)
		st = st[:len(st)-1]
	}
}

// auxOf returns all facts needed by n, transitively.
func auxOf(n *Node) []*Node {
	if n.hasAx {
		return n.auxed
	}
	seen := map[*Node]bool{}
	var order []*Node
	collect(n, seen, &order)
	inRes := map[*Node]bool{}
	var res []*Node
	for i := 0; i < len(order); i++ {
		for _, a := range order[i].aux {
			if !inRes[a] {
				inRes[a] = true
				res = append(res, a)
				collect(a, seen, &order)
			}
		}
	}
	n.auxed, n.hasAx = res, true
	return res
}

func (n *Node) define() string {
	if n.decl != "" {
		return n.decl
	}
	return fmt.Sprintf("(define-fun %s () %s %s)", n.name, n.sort, n.expr)
}

type Res int

const (
	Unknown Res = iota
	Sat
	Unsat
)

func (r Res) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type SolverStats struct {
	checks, oneshots, unknowns int64
	nanos                      int64
}

var stats SolverStats

// Solver is one incremental solver process.
type Solver struct {
	cmd     []string
	proc    *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	emitted map[*Node]bool
	levels  []level
	auxOn   map[*Node]int
	logic   string
	count   int
	dead    bool
	lines   chan string
	trace   *strings.Builder
}

type level struct {
	n   *Node
	aux []*Node
}

func (s *Solver) start() error {
	s.proc = exec.Command(s.cmd[0], s.cmd[1:]...)
	in, err := s.proc.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.proc.StdoutPipe()
	if err != nil {
		return err
	}
	s.proc.Stderr = nil
	if err := s.proc.Start(); err != nil {
		return err
	}
	trackProc(s.proc, true)
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<20)
	s.emitted, s.auxOn, s.levels, s.dead, s.count = map[*Node]bool{}, map[*Node]int{}, nil, false, 0
	lines := make(chan string, 64)
	s.lines = lines
	rd := s.out
	go func() {
		for {
			l, err := rd.ReadString('\n')
			if l != "" {
				lines <- strings.TrimRight(l, "\n")
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	s.send("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if s.logic != "" {
		s.send("(set-logic " + s.logic + ")\n")
	}
	return nil
}

var procMu sync.Mutex
var procs = map[*exec.Cmd]bool{}

func trackProc(c *exec.Cmd, on bool) {
	procMu.Lock()
	defer procMu.Unlock()
	if on {
		procs[c] = true
	} else {
		delete(procs, c)
	}
}

func killAll() {
	procMu.Lock()
	defer procMu.Unlock()
	for c := range procs {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
}

func (s *Solver) kill() {
	if s.proc != nil && s.proc.Process != nil {
		s.in.Close()
		s.proc.Process.Kill()
		go func(p *exec.Cmd, l chan string) {
			for range l {
			}
			p.Wait()
			trackProc(p, false)
		}(s.proc, s.lines)
	}
	s.proc = nil
	s.dead = true
}

func (s *Solver) send(t string) {
	io.WriteString(s.in, t)
}

func (s *Solver) emit(b *strings.Builder, n *Node) {
	var order []*Node
	collectNew(n, s.emitted, &order)
	for _, k := range order {
		b.WriteString(k.define())
		b.WriteByte('\n')
	}
}

func collectNew(n *Node, seen map[*Node]bool, out *[]*Node) { collect(n, seen, out) }

func (s *Solver) assertNode(b *strings.Builder, n *Node) level {
	lv := level{n: n}
	for _, a := range auxOf(n) {
		if s.auxOn[a] == 0 {
			s.emit(b, a)
			fmt.Fprintf(b, "(assert %s)\n", a.name)
			lv.aux = append(lv.aux, a)
		}
		if s.auxOn[a] == 0 {
			s.auxOn[a] = 1
		}
	}
	s.emit(b, n)
	fmt.Fprintf(b, "(assert %s)\n", n.name)
	return lv
}

func (s *Solver) popTo(b *strings.Builder, k int) {
	if d := len(s.levels) - k; d > 0 {
		fmt.Fprintf(b, "(pop %d)\n", d)
		for _, l := range s.levels[k:] {
			for _, a := range l.aux {
				delete(s.auxOn, a)
			}
		}
		s.levels = s.levels[:k]
	}
}

// Check decides pcs and extra; on sat the values of vars are returned as SMT text.
func (s *Solver) Check(pcs []*Node, extra *Node, vars []*Node, timeout time.Duration) (Res, map[string]string) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&stats.nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&stats.checks, 1)
	if s.proc == nil || s.count > 20000 {
		if s.proc != nil {
			s.kill()
		}
		if err := s.start(); err != nil {
			return Unknown, nil
		}
	}
	s.count++
	var b strings.Builder
	k := 0
	for k < len(s.levels) && k < len(pcs) && s.levels[k].n == pcs[k] {
		k++
	}
	s.popTo(&b, k)
	for _, n := range pcs[k:] {
		b.WriteString("(push 1)\n")
		s.levels = append(s.levels, s.assertNode(&b, n))
	}
	base := len(s.levels)
	if extra != nil {
		b.WriteString("(push 1)\n")
		s.levels = append(s.levels, s.assertNode(&b, extra))
	}
	for _, v := range vars {
		s.emit(&b, v)
	}
	fmt.Fprintf(&b, "(set-option :timeout %d)\n(check-sat)\n", timeout.Milliseconds())
	s.send(b.String())
	line, ok := s.readLine(timeout + 3*time.Second)
	if !ok {
		s.kill()
		atomic.AddInt64(&stats.unknowns, 1)
		return Unknown, nil
	}
	res := Unknown
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
	default:
		dbg("solver said %q", line)
		s.kill()
		atomic.AddInt64(&stats.unknowns, 1)
		return Unknown, nil
	}
	var vals map[string]string
	if res == Sat && len(vars) > 0 {
		vals = s.values(vars)
		if s.proc == nil {
			return res, vals
		}
	}
	if res == Unknown {
		atomic.AddInt64(&stats.unknowns, 1)
	}
	b.Reset()
	s.popTo(&b, base)
	if b.Len() > 0 {
		s.send(b.String())
	}
	return res, vals
}

func (s *Solver) readLine(d time.Duration) (string, bool) {
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case l, ok := <-s.lines:
		return l, ok
	case <-tm.C:
		return "", false
	}
}

func (s *Solver) values(vars []*Node) map[string]string {
	var b strings.Builder
	b.WriteString("(get-value (")
	for _, v := range vars {
		b.WriteString(v.name + " ")
	}
	b.WriteString("))\n")
	s.send(b.String())
	txt := ""
	for {
		l, ok := s.readLine(5 * time.Second)
		if !ok {
			s.kill()
			return nil
		}
		txt += l + "\n"
		if balanced(txt) {
			break
		}
	}
	return parseValues(txt, vars)
}

func balanced(t string) bool {
	d, bar := 0, false
	any := false
	for _, r := range t {
		switch {
		case r == '|':
			bar = !bar
		case bar:
		case r == '(':
			d++
			any = true
		case r == ')':
			d--
		}
	}
	return any && d <= 0
}

// parseValues reads ((name value) ...).
func parseValues(t string, vars []*Node) map[string]string {
	if strings.Contains(t, "(error") {
		return nil
	}
	r := map[string]string{}
	toks := sexpr(t)
	if len(toks) == 0 {
		return nil
	}
	l, ok := toks[0].([]interface{})
	if !ok || len(l) != len(vars) {
		return nil
	}
	for i, e := range l {
		p, ok := e.([]interface{})
		if !ok || len(p) != 2 {
			return nil
		}
		r[vars[i].name] = sexprStr(p[1])
	}
	return r
}

func sexprStr(e interface{}) string {
	switch e := e.(type) {
	case string:
		return e
	case []interface{}:
		p := make([]string, len(e))
		for i := range e {
			p[i] = sexprStr(e[i])
		}
		return "(" + strings.Join(p, " ") + ")"
	}
	return ""
}

func sexpr(t string) []interface{} {
	var stack [][]interface{}
	var cur []interface{}
	i := 0
	for i < len(t) {
		switch ch := t[i]; {
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case ch == '(':
			stack = append(stack, cur)
			cur = nil
			i++
		case ch == ')':
			if len(stack) == 0 {
				return cur
			}
			p := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if cur == nil {
				cur = []interface{}{}
			}
			cur = append(p, cur)
			i++
		case ch == '|':
			j := strings.IndexByte(t[i+1:], '|')
			if j < 0 {
				return cur
			}
			cur = append(cur, t[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(t) && !strings.ContainsRune(" \n\t\r()", rune(t[j])) {
				j++
			}
			cur = append(cur, t[i:j])
			i = j
		}
	}
	return cur
}

// ---------- one-shot portfolio

type backend struct {
	name string
	args func(ms int64) []string
}

var backends = map[string]backend{
	"z3n": {"z3-new", func(ms int64) []string { return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)} }},
	"z3":  {"z3", func(ms int64) []string { return []string{"z3", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)} }},
	"cvc5": {"cvc5", func(ms int64) []string {
		return []string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", ms), "-"}
	}},
	"cvc5bv": {"cvc5", func(ms int64) []string {
		return []string{"cvc5", "--lang=smt2", "--produce-models", "--bitblast=eager", "--bv-sat-solver=cadical", fmt.Sprintf("--tlimit=%d", ms), "-"}
	}},
}

func script(logic string, asserts []*Node, vars []*Node) string {
	var b strings.Builder
	b.WriteString("(set-option :produce-models true)\n(set-logic " + logic + ")\n")
	seen := map[*Node]bool{}
	done := map[*Node]bool{}
	var as []*Node
	add := func(n *Node) {
		if !done[n] {
			done[n] = true
			as = append(as, n)
		}
	}
	for _, n := range asserts {
		for _, a := range auxOf(n) {
			add(a)
		}
		add(n)
	}
	var order []*Node
	for _, n := range as {
		collect(n, seen, &order)
	}
	for _, v := range vars {
		collect(v, seen, &order)
	}
	for _, n := range order {
		b.WriteString(n.define())
		b.WriteByte('\n')
	}
	for _, n := range as {
		fmt.Fprintf(&b, "(assert %s)\n", n.name)
	}
	b.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		b.WriteString("(get-value (")
		for _, v := range vars {
			b.WriteString(v.name + " ")
		}
		b.WriteString("))\n")
	}
	return b.String()
}

// oneShot races back ends on a script.
func oneShot(names []string, logic string, asserts, vars []*Node, timeout time.Duration) (Res, map[string]string, string) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&stats.nanos, int64(time.Since(t0))) }()
	atomic.AddInt64(&stats.oneshots, 1)
	txt := script(logic, asserts, vars)
	if dumpDir != "" {
		dumpScript(txt)
	}
	type ans struct {
		r    Res
		vals map[string]string
		who  string
	}
	ch := make(chan ans, len(names))
	var cmds []*exec.Cmd
	for _, nm := range names {
		be := backends[nm]
		args := be.args(timeout.Milliseconds())
		cmd := exec.Command(args[0], args[1:]...)
		cmd.Stdin = strings.NewReader(txt)
		var out strings.Builder
		cmd.Stdout = &out
		if err := cmd.Start(); err != nil {
			ch <- ans{Unknown, nil, nm}
			continue
		}
		trackProc(cmd, true)
		cmds = append(cmds, cmd)
		go func(nm string) {
			cmd.Wait()
			trackProc(cmd, false)
			o := strings.TrimSpace(out.String())
			a := ans{Unknown, nil, nm}
			switch {
			case strings.HasPrefix(o, "unsat"):
				a.r = Unsat
			case strings.HasPrefix(o, "sat"):
				a.r = Sat
				a.vals = parseValues(o[3:], vars)
			}
			if strings.Contains(o, "(error") && a.r != Unsat {
				dbg("one-shot %s: %.300s", nm, o)
				if a.r == Sat && a.vals == nil {
					a.r = Unknown
				}
			}
			if i := strings.Index(o, "(error"); i >= 0 && a.r == Unsat && !strings.HasPrefix(o, "unsat") {
				a.r = Unknown
			}
			ch <- a
		}(nm)
	}
	res := ans{}
	tm := time.NewTimer(timeout + 5*time.Second)
	defer tm.Stop()
loop:
	for i := 0; i < len(names); i++ {
		select {
		case a := <-ch:
			if a.r != Unknown {
				res = a
				break loop
			}
		case <-tm.C:
			break loop
		}
	}
	for _, c := range cmds {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	if res.r == Unknown {
		atomic.AddInt64(&stats.unknowns, 1)
	}
	return res.r, res.vals, res.who
}
