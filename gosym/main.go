package main

// gosym: bounded symbolic checking of Go code. Usage: gosym -prop C01 [-tier quick|thorough] [-only NAME]

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/types"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	debugLevel, _ = strconv.Atoi(os.Getenv("GOSYM_DEBUG"))
	dumpDir       = os.Getenv("GOSYM_DUMP")
	dumpN         int64
)

func dbg(f string, a ...interface{}) {
	if debugLevel >= 1 {
		fmt.Fprintf(os.Stderr, "# "+f+"\n", a...)
	}
}
func dbg2(f string, a ...interface{}) {
	if debugLevel >= 2 {
		fmt.Fprintf(os.Stderr, "## "+f+"\n", a...)
	}
}
func dumpScript(t string) {
	n := atomic.AddInt64(&dumpN, 1)
	os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("q%05d.smt2", n)), []byte(t), 0o644)
}

type Harness struct {
	Name, Prop, Doc string
	Fn              *ssa.Function
	mode            Mode
	merge           bool
	feasTimeout     time.Duration
	incTimeout      time.Duration
	assertTimeout   time.Duration
	stepLimit       int64
	sqrtBits        int
	ufBits          int
	maxPaths        int64
	time, ttime     time.Duration
	finding         bool
	thorough        bool // only in the thorough tier
	validate        int
	abstract        map[string]string // functions taken as uninterpreted
}

type Loader struct {
	prog    *ssa.Program
	rtErr   types.Type
	root    string // /verif
	work    string
	binOnce sync.Once
	binErr  error
	bin     string
	all     []*Harness
	hpkg    *packages.Package
	replays int64
}

var modeNames = map[string]Mode{"fp": MFP, "bv": MBV, "real": MReal, "int": MInt, "ord": MOrd}

func (l *Loader) load() error {
	dir := filepath.Join(l.root, "harness")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./props")
	if err != nil {
		return err
	}
	if packages.PrintErrors(pkgs) > 0 {
		return fmt.Errorf("the harness does not load")
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	l.prog = prog
	l.hpkg = pkgs[0]
	if p := prog.ImportedPackage("runtime"); p != nil {
		if t := p.Type("errorString"); t != nil {
			l.rtErr = t.Object().Type()
		}
	}
	sp := prog.Package(pkgs[0].Types)
	for _, f := range pkgs[0].Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Type.Params.NumFields() > 0 {
				continue
			}
			m := harnessName.FindStringSubmatch(fd.Name.Name)
			if m == nil {
				continue
			}
			h := &Harness{Name: fd.Name.Name, Prop: m[1], Fn: sp.Func(fd.Name.Name), mode: MBV, merge: true,
				feasTimeout: 300 * time.Millisecond, incTimeout: 1500 * time.Millisecond, assertTimeout: 20 * time.Second, stepLimit: 3_000_000,
				sqrtBits: 20, ufBits: 20, maxPaths: 200000, time: 20 * time.Second, validate: 6}
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					if s, ok := strings.CutPrefix(t, "sym:"); ok {
						if err := h.directives(s); err != nil {
							return fmt.Errorf("%s: %v", h.Name, err)
						}
						continue
					}
					h.Doc += strings.TrimSpace(t) + " "
				}
			}
			if h.ttime == 0 {
				h.ttime = 5 * h.time
			}
			l.all = append(l.all, h)
		}
	}
	sort.Slice(l.all, func(i, j int) bool { return l.all[i].Name < l.all[j].Name })
	return nil
}

var harnessName = regexp.MustCompile(`^(C\d\d)_`)

func (h *Harness) directives(s string) error {
	for _, f := range strings.Fields(s) {
		k, v, _ := strings.Cut(f, "=")
		secs := func() time.Duration {
			x, _ := strconv.ParseFloat(v, 64)
			return time.Duration(x * float64(time.Second))
		}
		n, _ := strconv.Atoi(v)
		switch k {
		case "mode":
			m, ok := modeNames[v]
			if !ok {
				return fmt.Errorf("mode %s", v)
			}
			h.mode = m
		case "merge":
			h.merge = v != "off"
		case "time":
			h.time = secs()
		case "ttime":
			h.ttime = secs()
		case "feas":
			h.feasTimeout = secs()
		case "inc":
			h.incTimeout = secs()
		case "assert":
			h.assertTimeout = secs()
		case "steps":
			h.stepLimit = int64(n)
		case "sqrtbits":
			h.sqrtBits = n
		case "ufbits":
			h.ufBits = n
		case "paths":
			h.maxPaths = int64(n)
		case "finding":
			h.finding = true
		case "thorough":
			h.thorough = true
		case "abstract":
			h.abstract = map[string]string{}
			for _, n := range strings.Split(v, ",") {
				n, contract, _ := strings.Cut(n, ":")
				if contract == "" {
					contract = "plain"
				}
				h.abstract[n] = contract
			}
		case "validate":
			h.validate = n
		default:
			return fmt.Errorf("directive %s", k)
		}
	}
	return nil
}

// ---------- native replay

func (l *Loader) buildReplay() (string, error) {
	l.binOnce.Do(func() {
		var b strings.Builder
		b.WriteString("package main\n\nimport \"harness/props\"\n\nvar registry = map[string]func(){\n")
		for _, h := range l.all {
			fmt.Fprintf(&b, "\t%q: props.%s,\n", h.Name, h.Name)
		}
		b.WriteString("}\n")
		reg := filepath.Join(l.work, "registry.go")
		os.WriteFile(reg, []byte(b.String()), 0o644)
		ov, _ := json.Marshal(map[string]map[string]string{"Replace": {filepath.Join(l.root, "harness/cmd/replay/registry.go"): reg}})
		ovf := filepath.Join(l.work, "overlay.json")
		os.WriteFile(ovf, ov, 0o644)
		l.bin = filepath.Join(l.work, "replay")
		cmd := exec.Command("go", "build", "-o", l.bin, "-overlay", ovf, "./cmd/replay")
		cmd.Dir = filepath.Join(l.root, "harness")
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off")
		out, err := cmd.CombinedOutput()
		if err != nil {
			l.binErr = fmt.Errorf("building the replay binary: %v\n%s", err, out)
		}
	})
	return l.bin, l.binErr
}

type repResult struct {
	Status string
	Msg    string
	Obs    []string
}

func (l *Loader) replay(h *Harness, ins map[string]uint64, c *Ctx, tier string) repResult {
	bin, err := l.buildReplay()
	if err != nil {
		dbg("%v", err)
		return repResult{Status: "error", Msg: err.Error()}
	}
	atomic.AddInt64(&l.replays, 1)
	in, _ := json.Marshal(ins)
	ctx, cancel := context.WithTimeout(context.Background(), 15*time.Second)
	defer cancel()
	// a runaway loop may allocate without end
	cmd := exec.CommandContext(ctx, "/bin/bash", "-c", `ulimit -v 8000000; exec "$0" "$@"`, bin, h.Name, tier)
	cmd.Stdin = strings.NewReader(string(in))
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB")
	out, _ := cmd.Output()
	if ctx.Err() != nil {
		return repResult{Status: "hang", Msg: "no answer within 15 s"}
	}
	var r repResult
	s := string(out)
	if i := strings.LastIndex(s, "\x01"); i >= 0 {
		json.Unmarshal([]byte(s[i+1:]), &r)
	} else {
		r.Status = "error"
		r.Msg = "no result"
		if strings.Contains(s, "stack overflow") {
			r.Status = "panic"
		}
		if ee := cmd.ProcessState; ee != nil && ee.ExitCode() == 2 {
			r.Status, r.Msg = "panic", "the process died (fatal runtime error)"
		}
	}
	return r
}

// ---------- running

func newRun(l *Loader, h *Harness, mode Mode, tier string, seed int64) *Run {
	r := &Run{h: h, mode: mode, tier: tier, seed: seed, loader: l, endReasons: map[string]int{}, asserts: map[string]*assertStat{}, unconf: map[string]int{},
		notes: map[string]bool{}, assume: map[string]bool{}, fns: map[string]bool{}, bounds: map[string]string{}, stubs: map[string]bool{}}
	r.cond = sync.NewCond(&r.mu)
	return r
}

// validateRun executes the harness concretely in the interpreter and natively and compares.
func (r *Run) validate(n int) {
	cr := newRun(r.loader, r.h, MFP, r.tier, r.seed)
	cr.deadline = time.Now().Add(20 * time.Second)
	bad := 0
	assumed := 0
	for i := 0; i < n+20 && r.validated < n && !r.stop.Load(); i++ {
		x := cr.newExec()
		x.conc = true
		x.rnd = rand.New(rand.NewSource(r.seed*1000003 + int64(i)*7919 + int64(len(r.h.Name))))
		x.concIn = map[string]uint64{}
		before := len(cr.endReasons)
		_ = before
		cr.endReasons = map[string]int{}
		x.base = &Model{vals: map[string]uint64{}, memo: map[int32]evalRes{}}
		x.runConc()
		reason := ""
		for k := range cr.endReasons {
			reason = k
		}
		if strings.HasPrefix(reason, "unsupported") || strings.HasPrefix(reason, "engine") {
			r.notes["validation: "+reason] = true
			continue
		}
		if reason == "assumption" {
			assumed++
			if assumed > n {
				continue
			}
		}
		rep := r.loader.replay(r.h, x.concIn, nil, r.tier)
		st := rep.Status
		want := "ok"
		switch {
		case reason == "assumption":
			want = "assume"
		case reason == "panic":
			want = "panic"
		case strings.HasPrefix(reason, "assertion failed"):
			want = "fail"
		case reason == "step limit" || reason == "call depth limit":
			continue
		}
		if st != want || strings.Join(rep.Obs, "|") != strings.Join(filterObs(x.obs), "|") {
			bad++
			r.notes[fmt.Sprintf("validation mismatch on %v: interpreter %s %v, native %s %s %v", x.concIn, want, x.obs, st, rep.Msg, rep.Obs)] = true
			dbg("validation mismatch of %s on %v: interpreter %s %v, native %s %s %v", r.h.Name, x.concIn, want, x.obs, st, rep.Msg, rep.Obs)
		} else if want == "ok" {
			r.validated++
		}
		if (want == "fail" || want == "panic") && st == want {
			r.concBad = true // the sampled input breaks the property; the solver run has to find it as well
		}
	}
	r.mismatch += bad
}

func filterObs(o []string) []string {
	var r []string
	for _, s := range o {
		if s != "panic" {
			r = append(r, s)
		}
	}
	return r
}

func (x *Exec) runConc() {
	x.item = nil
	b := x.base
	x.runPath(workItem{model: map[string]uint64{}})
	_ = b
}

func (l *Loader) runHarness(h *Harness, tier string, seed int64, workers int, deadline time.Time, stop *atomic.Bool) *Run {
	r := newRun(l, h, h.mode, tier, seed)
	r.maxPaths = h.maxPaths
	d := h.time
	if tier == "thorough" {
		d = h.ttime
		r.maxPaths *= 10
	}
	t0 := time.Now()
	r.deadline = t0.Add(d)
	if r.deadline.After(deadline) {
		r.deadline = deadline
	}
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			if stop.Load() {
				r.stop.Store(true)
				return
			}
			if r.stop.Load() || r.done.Load() {
				return
			}
		}
	}()
	r.explore(workers)
	r.left = len(r.queue)
	if r.witness != nil && len(r.violations) == 0 {
		rep := l.replay(h, r.witness, nil, tier)
		r.witOK = rep.Status
		if rep.Status != "ok" {
			r.notes["witness replay: "+rep.Status+" "+rep.Msg] = true
			if rep.Status == "fail" || rep.Status == "panic" {
				r.violations = append(r.violations, &Violation{Msg: rep.Msg, Inputs: r.witness, Kind: "witness", Harness: h.Name})
			}
		}
	}
	if len(r.violations) == 0 && !stop.Load() {
		r.validate(h.validate)
	}
	r.done.Store(true)
	r.wall = time.Since(t0)
	return r
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := flag.String("only", "", "run only harnesses whose name contains this")
	root := flag.String("root", "/verif", "directory of the framework")
	list := flag.Bool("list", false, "list harnesses")
	budget := flag.Int("budget", 0, "seconds for the whole check")
	replayFile := flag.String("replay", "", "replay a violation file against the real build")
	flag.Parse()
	if *tier == "" {
		*tier = "quick"
	}
	if *budget == 0 {
		*budget = 240
		if *tier == "thorough" {
			*budget = 780
		}
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.ParseInt(s, 10, 64)
	}
	t0 := time.Now()
	work, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	l := &Loader{root: *root, work: work}
	code := 2
	defer func() {
		killAll()
		os.RemoveAll(work)
		os.Exit(code)
	}()
	if err := l.load(); err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		return
	}
	dbg("loaded in %v", time.Since(t0))
	if *list {
		for _, h := range l.all {
			fmt.Println(h.Name, h.mode, h.time)
		}
		code = 0
		return
	}
	if *replayFile != "" {
		code = l.replayFile(*replayFile)
		return
	}
	var hs []*Harness
	for _, h := range l.all {
		if h.Prop == *prop && (*only == "" || strings.Contains(h.Name, *only)) && (!h.thorough || *tier == "thorough" || *only != "") {
			hs = append(hs, h)
		}
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "gosym: no harness for", *prop)
		return
	}
	go l.buildReplay()
	known := loadFindings(filepath.Join(*root, "known_findings.txt"))
	deadline := t0.Add(time.Duration(*budget) * time.Second)
	conc := min(len(hs), 4)
	workers := 6
	var stop atomic.Bool
	runs := make([]*Run, len(hs))
	sem := make(chan struct{}, conc)
	var wg sync.WaitGroup
	for i, h := range hs {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if stop.Load() {
				return
			}
			r := l.runHarness(h, *tier, seed, workers, deadline, &stop)
			runs[i] = r
			report(r)
			if len(r.violations) > 0 && !(h.finding && known[h.Name] != "") {
				stop.Store(true)
			}
		}()
	}
	wg.Wait()
	code = 0
	nviol := 0
	for _, r := range runs {
		if r == nil {
			continue
		}
		for _, v := range r.violations {
			if k := known[r.h.Name]; r.h.finding && k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.h.Prop, k)
				break
			}
			nviol++
			p := l.writeReplay(r, v, *tier)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.h.Prop, p)
			fmt.Printf("  %s: %s\n", r.h.Name, v.Msg)
			fmt.Printf("  inputs: %s\n", pretty(r, v))
			code = 1
		}
	}
	if err := l.evidence(*prop, *tier, seed, runs, hs, nviol, time.Since(t0)); err != nil {
		fmt.Fprintln(os.Stderr, "gosym: evidence:", err)
		code = 2
	}
}

func pretty(r *Run, v *Violation) string {
	var ks []string
	for k := range v.Inputs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%s ", k, r.fmtIn(k, v.Inputs[k]))
	}
	return b.String()
}

// fmtIn shows an input: floats are recognised by their declared domain.
func (r *Run) fmtIn(k string, u uint64) string {
	b := r.bounds[baseName(k)]
	if strings.HasPrefix(b, "[") {
		return strconv.FormatFloat(bitsF(u), 'g', -1, 64)
	}
	if strings.HasPrefix(b, "any byte") {
		return strconv.QuoteRune(rune(u & 127))
	}
	return strconv.FormatInt(int64(u), 10)
}

type replayDoc struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Tier     string            `json:"tier"`
	What     string            `json:"what"`
	Kind     string            `json:"kind"`
	Inputs   map[string]uint64 `json:"inputs"`
	Readable string            `json:"readable"`
	How      string            `json:"how"`
}

func (l *Loader) writeReplay(r *Run, v *Violation, tier string) string {
	dir := filepath.Join(l.root, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, r.h.Name+".json")
	d := replayDoc{r.h.Prop, r.h.Name, tier, v.Msg, v.Kind, v.Inputs, pretty(r, v), "/verif/check -replay " + p}
	b, _ := json.MarshalIndent(d, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

func (l *Loader) replayFile(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var d replayDoc
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, h := range l.all {
		if h.Name == d.Harness {
			r := l.replay(h, d.Inputs, nil, d.Tier)
			fmt.Println(r.Status, r.Msg)
			if r.Status == "ok" || r.Status == "assume" {
				return 0
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", d.Property, p)
			return 1
		}
	}
	return 2
}

// loadFindings maps harness names to descriptions of known findings.
func loadFindings(p string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(p)
	if err != nil {
		return r
	}
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		s, ok := strings.CutPrefix(ln, "finding:")
		if !ok {
			continue
		}
		f := strings.Fields(s)
		if len(f) < 3 {
			continue
		}
		h := strings.TrimPrefix(f[1], "harness=")
		r[h] = strings.Join(f[2:], " ")
	}
	return r
}

func report(r *Run) {
	if debugLevel == 0 {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	fmt.Fprintf(os.Stderr, "== %s: %.1fs paths=%d left=%d steps=%d merges=%d forks=%d validated=%d mismatch=%d witness=%s viol=%d\n", r.h.Name, r.wall.Seconds(), r.paths, r.left, r.steps, r.merges, r.forks, r.validated, r.mismatch, r.witOK, len(r.violations))
	for k, v := range r.endReasons {
		fmt.Fprintf(os.Stderr, "   end %s: %d\n", k, v)
	}
	for k, v := range r.asserts {
		fmt.Fprintf(os.Stderr, "   assert %q: %+v unconf=%d\n", k, *v, r.unconf[k])
	}
	for k := range r.notes {
		fmt.Fprintf(os.Stderr, "   note %s\n", k)
	}
	for _, v := range r.violations {
		fmt.Fprintf(os.Stderr, "   VIOLATION %s: %s\n", v.Msg, pretty(r, v))
	}
}
