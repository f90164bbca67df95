package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type harnessEv struct {
	Harness     string                 `json:"harness"`
	What        string                 `json:"what,omitempty"`
	Lowering    string                 `json:"lowering"`
	Complete    bool                   `json:"complete_within_bounds"`
	Paths       int64                  `json:"paths"`
	Open        int                    `json:"paths_left_open"`
	Merges      int64                  `json:"branches_merged"`
	Instrs      int64                  `json:"instructions"`
	Ends        map[string]int         `json:"path_ends"`
	Assertions  map[string]interface{} `json:"assertions"`
	Bounds      map[string]string      `json:"inputs_and_bounds"`
	Witness     string                 `json:"witness_replay"`
	Validated   int                    `json:"concrete_runs_compared"`
	Mismatches  int                    `json:"concrete_runs_disagreeing"`
	Notes       []string               `json:"notes,omitempty"`
	Seconds     float64                `json:"seconds"`
	Violations  int                    `json:"violations"`
	Known       bool                   `json:"known_finding_harness,omitempty"`
	StepLimit   int64                  `json:"unwinding_limit_instructions_per_path"`
	Unconfirmed map[string]int         `json:"unconfirmed,omitempty"`
}

func (l *Loader) evidence(prop, tier string, seed int64, runs []*Run, hs []*Harness, nviol int, wall time.Duration) error {
	var paths, steps int64
	var validated int
	fns := map[string]bool{}
	assume := map[string]bool{}
	stubs := map[string]bool{}
	var hev []harnessEv
	var samples []map[string]interface{}
	var proved, trivial, unknown, violated int64
	for i, r := range runs {
		if r == nil {
			hev = append(hev, harnessEv{Harness: hs[i].Name, Notes: []string{"not run: an earlier harness reported a violation"}})
			continue
		}
		e := harnessEv{Harness: r.h.Name, What: strings.TrimSpace(r.h.Doc), Lowering: r.mode.String(), Paths: r.paths, Open: r.left, Merges: r.merges, Instrs: r.steps,
			Ends: r.endReasons, Assertions: map[string]interface{}{}, Bounds: r.bounds, Witness: r.witOK, Validated: r.validated, Mismatches: r.mismatch,
			Notes: sortedKeys(r.notes), Seconds: r.wall.Seconds(), Violations: len(r.violations), Known: r.h.finding, StepLimit: r.h.stepLimit, Unconfirmed: r.unconf}
		e.Complete = r.left == 0 && len(r.violations) == 0
		for k := range r.endReasons {
			if k != "complete" && k != "assumption" && k != "panic" && k != "infeasible" {
				e.Complete = false
			}
		}
		var u int64
		for k, s := range r.asserts {
			e.Assertions[k] = map[string]int64{"proved_by_solver": s.proved, "decided_by_rewriting": s.trivial, "unknown": s.unknown, "violated": s.violated}
			proved += s.proved
			trivial += s.trivial
			unknown += s.unknown
			violated += s.violated
			u += s.unknown
		}
		if u > 0 {
			e.Complete = false
		}
		paths += r.paths
		steps += r.steps
		validated += r.validated
		if r.witOK == "ok" {
			validated++
		}
		for k := range r.fns {
			fns[k] = true
		}
		for k := range r.assume {
			assume[k] = true
		}
		for k := range r.stubs {
			stubs[k] = true
		}
		if r.witness != nil && len(samples) < 8 {
			s := map[string]interface{}{"harness": r.h.Name, "kind": "inputs of a completed path, replayed natively: " + r.witOK}
			in := map[string]string{}
			for k, v := range r.witness {
				in[k] = r.fmtIn(k, v)
			}
			s["inputs"] = in
			samples = append(samples, s)
		}
		for _, v := range r.violations {
			s := map[string]interface{}{"harness": r.h.Name, "kind": "violation: " + v.Msg, "inputs": pretty(r, v)}
			samples = append(samples, s)
		}
		hev = append(hev, e)
	}
	if samples == nil {
		samples = []map[string]interface{}{{"kind": "none: no path completed"}}
	}
	var repo, other []string
	for f := range fns {
		if strings.Contains(f, "hzw456/go-geo") {
			repo = append(repo, strings.ReplaceAll(f, "github.com/hzw456/", ""))
		} else if !strings.Contains(f, "harness/") {
			other = append(other, f)
		}
	}
	sort.Strings(repo)
	sort.Strings(other)
	ass := sortedKeys(assume)
	for _, s := range sortedKeys(stubs) {
		ass = append(ass, "stub: "+s)
	}
	ass = append(ass, "bounded: only inputs within inputs_and_bounds of each harness are covered; unknown solver answers and open paths are outside the claim",
		"counterexamples are replayed against the native build before they are reported")
	doc := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": ass,
		"coverage": map[string]interface{}{
			"states":                          paths,
			"transitions":                     steps,
			"traces_validated_against_impl":   validated,
			"samples":                         samples,
			"explanation":                     "states: symbolic paths (each stands for every input that follows it); transitions: SSA instructions interpreted; traces: path witnesses and random concrete runs that gave the same result natively and in the interpreter",
			"functions_encoded":               repo,
			"library_functions_encoded":       other,
			"assertions_proved_by_solver":     proved,
			"assertions_decided_by_rewriting": trivial,
			"assertions_unknown":              unknown,
			"assertions_violated":             violated,
			"solver_queries_incremental":      atomic.LoadInt64(&stats.checks),
			"solver_queries_portfolio":        atomic.LoadInt64(&stats.oneshots),
			"solver_unknown":                  atomic.LoadInt64(&stats.unknowns),
			"solver_seconds":                  float64(atomic.LoadInt64(&stats.nanos)) / 1e9,
			"native_replays":                  atomic.LoadInt64(&l.replays),
			"harnesses":                       hev,
		},
	}
	b, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(l.root, "evidence")
	os.MkdirAll(dir, 0o755)
	return os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)
}

var _ = fmt.Sprint
