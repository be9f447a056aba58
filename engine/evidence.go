package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func newEvidence(p, t string, seed int64) *Evidence {
	return &Evidence{Property: p, Tier: t, Seed: seed, Level: "model_checking", Coverage: map[string]any{}}
}

func (e *Evidence) fill(x *Explorer, p *Program, jobs []*Job, paths, asserts, aSolver, validated int64, ncases int, cases []*Case,
	incompl map[string]int64, unconf, mism, reach []string, nd int, cross string, tLoad, tExp, budget time.Duration) {
	c := e.Coverage
	c["states"] = x.nforks + int64(len(jobs))
	c["states_meaning"] = "symbolic states: one per harness plus one per fork at a feasible branch"
	c["transitions"] = x.nSteps
	c["transitions_meaning"] = "SSA instructions of the real code and the harness executed symbolically"
	c["paths_completed"] = paths
	c["traces_validated_against_impl"] = validated
	c["traces_compared"] = ncases
	c["assertions_evaluated"] = asserts
	c["assertions_with_symbolic_operands"] = aSolver
	c["solver"] = strings.Join(solverCmd, " ")
	c["solver_queries"] = stats.queries
	c["solver_sat"] = stats.sat
	c["solver_unsat"] = stats.unsat
	c["solver_unknown"] = stats.unknown
	c["solver_cache_hits"] = stats.cacheHits
	c["solver_seconds"] = float64(stats.nanos) / 1e9
	c["domain_decisions_confirmed_by_solver"] = nd
	if cross != "" {
		c["second_solver_cross_check"] = cross
	}
	var fns []string
	p.usedFns.Range(func(k, _ any) bool {
		n := k.(string)
		if !strings.HasPrefix(n, zzvPath) && !strings.Contains(n, ".Z"+e.Property+"_") {
			fns = append(fns, strings.ReplaceAll(n, modPath, "goast"))
		}
		return true
	})
	sort.Strings(fns)
	c["functions_encoded"] = fns
	var js []string
	for _, j := range jobs {
		js = append(js, fmt.Sprintf("%s: paths=%d ended=%v", j.Name, j.paths, j.ended))
	}
	c["harnesses"] = js
	c["witnesses_reached"] = reach
	c["exhaustive_within_bounds"] = x.timedOut == 0 && len(incompl) == 0 && e.Violations == 0
	if x.timedOut != 0 {
		c["reduced_bound"] = fmt.Sprintf("exploration stopped at %v", budget)
	}
	if len(incompl) > 0 {
		c["paths_not_decided"] = incompl
	}
	if len(unconf) > 0 {
		c["unconfirmed_counterexamples"] = unconf
	}
	if len(mism) > 0 {
		c["concordance_mismatches"] = mism
	}
	var sm []any
	for i, k := range cases {
		if i >= 8 {
			break
		}
		sm = append(sm, map[string]any{"job": k.Job, "values": k.Vals, "observations": k.Obs})
	}
	c["samples"] = sm
	c["load_seconds"] = tLoad.Seconds()
	c["explore_seconds"] = tExp.Seconds()
	b, err := os.ReadFile(filepath.Join(*verif, "bounds.json"))
	if err == nil {
		var m map[string]any
		if json.Unmarshal(b, &m) == nil {
			if v, ok := m[e.Property]; ok {
				c["bounds"] = v
			}
			if as, ok := m["assumptions"].([]any); ok {
				for _, a := range as {
					e.Assumptions = append(e.Assumptions, fmt.Sprint(a))
				}
			}
		}
	}
}

func (e *Evidence) write() {
	dir := filepath.Join(*verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(e, "", " ")
	os.WriteFile(filepath.Join(dir, e.Property+".json"), b, 0o644)
}

// confirmPruned has the solver confirm every branch that was cut because the
// domain of a variable and the branch's value set were disjoint.
func confirmPruned() (int, int) {
	prunedMu.Lock()
	defer prunedMu.Unlock()
	if len(pruned) == 0 {
		return 0, 0
	}
	s, err := newSolver(solverCmd)
	if err != nil {
		return 0, 0
	}
	defer s.close()
	vs := map[uint8]*Term{}
	var batch []*Term
	bad, n := 0, 0
	flush := func() {
		if len(batch) == 0 {
			return
		}
		var sb strings.Builder
		r, _ := s.checkRaw(batch)
		if r == Sat {
			bad += len(batch)
		}
		_ = sb
		batch = batch[:0]
	}
	for k := range pruned {
		v, ok := vs[k.w]
		if !ok {
			v = mkVar("dom", k.w)
			vs[k.w] = v
		}
		a, b := mkInSet(v, k.dom), mkInSet(v, k.set)
		if a.isConst() && b.isConst() {
			continue
		}
		batch = append(batch, intern(Term{op: OAnd, a: a, b: b}))
		n++
		if len(batch) >= 200 {
			flush()
		}
	}
	flush()
	return n, bad
}

// checkRaw checks the disjunction of ts, built without simplification.
func (s *Solver) checkRaw(ts []*Term) (Result, error) {
	d := ts[0]
	for _, t := range ts[1:] {
		d = intern(Term{op: OOr, a: d, b: t})
	}
	r, _ := s.check([]*Term{d}, nil)
	return r, nil
}

func crossCheck() string {
	qlogMu.Lock()
	qs := append([]qrec(nil), qlog...)
	qlogMu.Unlock()
	if len(qs) > 3000 {
		step := len(qs) / 3000
		var t []qrec
		for i := 0; i < len(qs); i += step + 1 {
			t = append(t, qs[i])
		}
		qs = t
	}
	out := []string{}
	for _, cmd := range [][]string{{"cvc5", "--incremental", "--lang", "smt2", "--tlimit-per", "10000"}, {"/usr/bin/z3", "-in", "-smt2"}} {
		s, err := newSolver(cmd)
		if err != nil {
			continue
		}
		agree, dis, unk := 0, 0, 0
		t0 := time.Now()
		for _, q := range qs {
			if time.Since(t0) > 120*time.Second {
				break
			}
			r, _ := s.check(q.cs, nil)
			switch {
			case r == Unknown:
				unk++
			case r == q.res:
				agree++
			default:
				dis++
			}
		}
		s.close()
		out = append(out, fmt.Sprintf("%s: %d agree, %d disagree, %d unknown", cmd[0], agree, dis, unk))
	}
	return strings.Join(out, "; ")
}
