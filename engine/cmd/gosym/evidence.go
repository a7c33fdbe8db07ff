package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/engine/sym"
)

func parse(fset *token.FileSet, path string) (*ast.File, error) {
	return parser.ParseFile(fset, path, nil, 0)
}

type evidence struct {
	id, tier     string
	ck           Check
	load, wall   time.Duration
	replays      int
	reproduced   int
	known        []string
	violations   []string
	unreproduced []string
	runs         []map[string]interface{}
	states       int
	transitions  int64
	validated    int
	mismatched   int
	funcs        map[string]bool
	queries      int
	solver       float64
	samples      []interface{}
	complete     bool
	paths        int
	asserts      int
}

func newEvidence(id, tier string, ck Check) *evidence {
	return &evidence{id: id, tier: tier, ck: ck, funcs: map[string]bool{}, complete: true}
}

func (e *evidence) add(r Run, pm map[string]int, res *sym.Result, ok, bad, total int) {
	e.states += res.States
	e.transitions += res.Steps
	e.validated += ok
	e.mismatched += bad
	e.queries += res.Solver.Queries
	e.solver += res.Solver.Time.Seconds()
	e.paths += res.Paths
	e.asserts += res.Asserts
	e.complete = e.complete && res.Complete
	var fs []string
	for f := range res.FuncsUT {
		e.funcs[f] = true
		fs = append(fs, f)
	}
	sort.Strings(fs)
	miss := []string{}
	for _, c := range r.Covers {
		if res.Covers[c] == 0 {
			miss = append(miss, c)
		}
	}
	m := map[string]interface{}{
		"harness": r.Fn, "bounds": r.Bounds, "parameters": pm, "complete_within_bounds": res.Complete,
		"paths": res.Paths, "path_ends": res.Ended, "paths_left_unexplored": res.Left,
		"assertions_checked": res.Asserts, "assertions_discharged_by_solver": res.Discharged, "assertions_folded_to_true": res.ConstAssert,
		"assertion_labels_reached": res.Reached, "branches_decided": res.Branches, "branches_forked": res.Forks,
		"solver": map[string]interface{}{"queries": res.Solver.Queries, "sat": res.Solver.Sat, "unsat": res.Solver.Unsat,
			"unknown": res.Solver.Unknown, "retried_with_other_solver": res.Solver.Fallback, "seconds": round(res.Solver.Time.Seconds()),
			"longest_query_s": round(res.Solver.Max.Seconds()), "cross_checked_with_cvc5": res.Solver.CrossChecked,
			"cross_check_disagreements": res.Solver.CrossDisagree},
		"instructions_executed": res.Steps, "max_decisions_on_a_path": res.MaxDecs, "max_symbolic_inputs_on_a_path": res.MaxVars,
		"max_scheduling_choices_on_a_path": res.Scheds, "functions_encoded": fs,
		"witnesses_reached": res.Covers, "witnesses_missing": miss,
		"reduced_bounds":    merge(res.Unsup, res.Incompl),
		"native_validation": map[string]int{"path_models_run": total, "agree": ok, "differ": bad},
		"wall_s":            round(res.Wall.Seconds()),
	}
	e.runs = append(e.runs, m)
	for i, s := range res.Samples {
		if i == 3 {
			break
		}
		in := map[string]uint64{}
		for j, x := range s.Inputs {
			if j < 40 {
				in[x.Name] = x.Val
			}
		}
		e.samples = append(e.samples, map[string]interface{}{"harness": r.Fn, "path_model": in, "witnesses": s.Covers})
	}
}

func merge(a, b map[string]int) map[string]int {
	m := map[string]int{}
	for k, v := range a {
		m["unsupported: "+k] += v
	}
	for k, v := range b {
		m[k] += v
	}
	return m
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

func (e *evidence) write(path string) error {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fs []string
	for f := range e.funcs {
		fs = append(fs, strings.ReplaceAll(f, "github.com/waj334/tinygo-mqtt/", ""))
	}
	sort.Strings(fs)
	bounds := []string{}
	for _, r := range e.ck.Runs {
		if r.Bounds != "" {
			bounds = append(bounds, r.Fn+": "+r.Bounds)
		}
	}
	sort.Strings(e.known)
	cov := map[string]interface{}{
		"states": e.states, "transitions": e.transitions, "traces_validated_against_impl": e.validated,
		"samples": e.samples, "technique": "solver-based symbolic execution of the Go SSA of /repo, regenerated on this run",
		"paths": e.paths, "assertions": e.asserts, "queries_discharged": e.queries, "solver_seconds": round(e.solver),
		"functions_encoded": fs, "complete_within_bounds": e.complete, "harnesses": e.runs, "bounds": bounds,
		"outside_the_claim": e.ck.Outside, "stubs_and_models": e.ck.Stubs,
		"counterexamples_replayed": e.replays, "counterexamples_reproduced": e.reproduced,
		"counterexamples_not_reproduced": e.unreproduced, "path_models_differing_from_compiled_code": e.mismatched,
		"known_findings": e.known, "violations": e.violations, "load_s": round(e.load.Seconds()),
	}
	m := map[string]interface{}{"property": e.id, "tier": e.tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": round(e.wall.Seconds())}
	b, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		return fmt.Errorf("evidence: %v", err)
	}
	return nil
}
