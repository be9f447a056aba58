package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Finding struct {
	Property string   `json:"property"`
	Job      string   `json:"job"`
	Label    string   `json:"label"`
	What     string   `json:"what"`
	Vals     []uint64 `json:"vals,omitempty"`
	Obs      string   `json:"obs,omitempty"` // an observation line identifying the failing input
}

type KnownFile struct {
	Findings []Finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

var (
	repo  = flag.String("repo", "/repo", "repository")
	verif = flag.String("verif", "/verif", "verification directory")
	prop  = flag.String("prop", "", "property id")
	tier  = flag.String("tier", "", "quick or thorough (default $VERIF_TIER)")
	only  = flag.String("job", "", "run only jobs whose name contains this")
	file  = flag.String("replay", "", "replay a recorded case natively")
	prof  = flag.String("cpuprofile", "", "")
	verb  = flag.Bool("v", false, "verbose")
	budg  = flag.Int("budget", 0, "seconds of exploration")
	smp   = flag.Bool("samples", false, "print samples")
)

var raceProps = map[string]bool{"C09": true}

func main() {
	flag.Parse()
	os.Exit(run())
}

func run() int {
	t0 := time.Now()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(14 << 30)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	ti := 0
	if *tier == "thorough" {
		ti = 1
	} else {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	ov, names, err := buildOverlay(*repo, *verif, *prop)
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	if *file != "" {
		return replayFile(ov, tmp, ti)
	}
	type nb struct {
		n   *Native
		err error
	}
	nch := make(chan nb, 1)
	go func() {
		n, err := buildNative(*repo, ov, tmp, false)
		nch <- nb{n, err}
	}()
	rch := make(chan nb, 1)
	if raceProps[*prop] {
		go func() {
			n, err := buildNative(*repo, ov, mk(tmp, "race"), true)
			rch <- nb{n, err}
		}()
	}
	p, err := loadProgram(*repo, ov, ti)
	if err != nil {
		fmt.Println("error: cannot encode the current source:", err)
		return 2
	}
	var jobs []*Job
	for _, n := range names {
		if *only != "" && !strings.Contains(n, *only) {
			continue
		}
		jobs = append(jobs, newJob(p.root.Func(n), n))
	}
	if len(jobs) == 0 {
		fmt.Println("error: no harness for", *prop)
		return 2
	}
	tLoad := time.Since(t0)
	nr := <-nch
	if nr.err != nil {
		fmt.Println("error:", nr.err)
		return 2
	}
	native := nr.n
	var race *Native
	if raceProps[*prop] {
		rr := <-rch
		race = rr.n
		if rr.err != nil {
			fmt.Println("note: race build failed:", rr.err)
		}
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	known := loadKnown()
	budget := 240 * time.Second
	if ti == 1 {
		budget = 1500 * time.Second
	}
	if *budg > 0 {
		budget = time.Duration(*budg) * time.Second
	}
	x := &Explorer{prog: p, merge: true, maxDepth: 100_000, maxSteps: 120_000_000, nworkers: runtime.NumCPU(),
		deadline: time.Now().Add(budget), maxSamp: 40, seed: seed}
	if ti == 1 {
		x.maxSamp = 200
	}
	type hit struct {
		j    *Job
		c    *Case
		r    NRes
		kind string
	}
	var confirmed []hit
	var knownHits []string
	knownSeen := map[string]bool{}
	var unconf []string
	vch := make(chan hit, 4096)
	done := make(chan bool)
	x.onViol = func(j *Job, c *Case) {
		select {
		case vch <- hit{j: j, c: c}:
		default:
		}
	}
	go func() {
		per := map[string]int{}
		for h := range vch {
			key := h.j.Name + "|" + h.c.Label
			if per[key] >= 4 && len(confirmed) > 0 {
				continue
			}
			per[key]++
			r, how := confirm(native, race, h.c, ti)
			if how == "" {
				unconf = append(unconf, fmt.Sprintf("%s: %s (native run: %s %s)", h.j.Name, h.c.Label, r.Status, r.Label))
				if *verb {
					fmt.Println("unconfirmed:", h.j.Name, h.c.Label, r, h.c.Vals)
				}
				continue
			}
			if k := matchKnown(known, h.j, h.c, r); k != nil {
				if !knownSeen[k.What] {
					knownSeen[k.What] = true
					knownHits = append(knownHits, k.What)
				}
				continue
			}
			h.r = r
			h.kind = how
			confirmed = append(confirmed, h)
			if !*verb {
				x.halt()
			}
		}
		close(done)
	}()
	if err := x.Explore(jobs); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	close(vch)
	<-done
	tExp := time.Since(t0) - tLoad

	// violation already confirmed
	ev := newEvidence(*prop, *tier, seed)
	rc := 0
	for i, h := range confirmed {
		if i >= 5 {
			break
		}
		path := writeReplay(h.j, h.c, h.r, i)
		fmt.Printf("violated: %s: %s; native run of the real code: %s %s\n", h.j.Name, h.c.Label, h.r.Status, h.r.Label)
		for _, o := range h.r.Obs {
			fmt.Println("  ", o)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		rc = 1
	}
	for _, k := range knownHits {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
	}
	// concordance: sampled paths re-run natively, all observations compared
	var cases []*Case
	for _, j := range jobs {
		cases = append(cases, j.samples...)
	}
	rnd := rand.New(rand.NewSource(seed))
	rnd.Shuffle(len(cases), func(i, k int) { cases[i], cases[k] = cases[k], cases[i] })
	validated, mism := 0, []string{}
	res, err := native.Run(cases, ti, 20*time.Second)
	if err != nil {
		fmt.Println("note: native run:", err)
	}
	for i, r := range res {
		c := cases[i]
		if r.Status == "ok" && eqStrs(r.Obs, c.Obs) {
			validated++
			continue
		}
		mism = append(mism, fmt.Sprintf("%s vals=%v native=%s %s %v symbolic=%v", c.Job, c.Vals, r.Status, r.Label, r.Obs, c.Obs))
		// the native run itself broke the property: that is a finding in its own right
		if rc == 0 && (r.Status == "assert" || r.Status == "panic" || r.Status == "crash" || r.Status == "hang") {
			cc := *c
			cc.Label = r.Label
			if matchKnown(known, jobOf(jobs, c.Job), &cc, r) != nil {
				continue
			}
			r2, how := confirm(native, race, &cc, ti)
			if how != "" {
				path := writeReplay(jobOf(jobs, c.Job), &cc, r2, i)
				ev.Violations++
				fmt.Printf("violated (found while re-running a solver-chosen path natively): %s: %s %s\n", c.Job, r2.Status, r2.Label)
				fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
				rc = 1
			}
		}
	}
	// inputs of paths that could not be followed: their native runs can still break the property
	var stuck []*Case
	for _, j := range jobs {
		stuck = append(stuck, j.stuck...)
	}
	if rc == 0 && len(stuck) > 0 {
		res, err := native.Run(stuck, ti, 20*time.Second)
		if err != nil {
			fmt.Println("note: native run:", err)
		}
		for i, r := range res {
			c := *stuck[i]
			if r.Status == "ok" || r.Status == "assume" || r.Status == "desync" {
				continue
			}
			c.Label = r.Label
			if matchKnown(known, jobOf(jobs, c.Job), &c, r) != nil {
				continue
			}
			if r2, how := confirm(native, race, &c, ti); how != "" {
				path := writeReplay(jobOf(jobs, c.Job), &c, r2, i)
				fmt.Printf("violated (native run of a solver-chosen input whose path the engine could not follow): %s: %s %s\n", c.Job, r2.Status, r2.Label)
				fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
				ev.Violations++
				rc = 1
				break
			}
		}
		ev.Coverage["undecided_paths_run_natively"] = len(res)
	}
	if *smp {
		for _, c := range cases {
			fmt.Println(c.Job, c.Vals, c.Obs)
		}
	}
	// the domain decisions taken without a query are confirmed by the solver now
	nd, bad := confirmPruned()
	if bad > 0 {
		fmt.Println("error: solver disagrees with", bad, "domain decisions")
		return 2
	}
	cross := ""
	if ti == 1 {
		cross = crossCheck()
	}
	incompl := map[string]int64{}
	var incTotal, paths, asserts, aSolver, unk int64
	vac := []string{}
	var reach []string
	for _, j := range jobs {
		for k, v := range j.incompl {
			incompl[j.Name+": "+k] += v
			incTotal += v
		}
		paths += j.paths
		asserts += j.asserts
		aSolver += j.aSolver
		unk += j.unknown
		if len(j.reached) == 0 {
			vac = append(vac, j.Name)
		}
		var ks []string
		for k, v := range j.reached {
			ks = append(ks, fmt.Sprintf("%s.%s=%d", j.Name, k, v))
		}
		sort.Strings(ks)
		reach = append(reach, ks...)
	}
	if x.timedOut != 0 && rc == 0 {
		fmt.Printf("note: reduced bound: exploration stopped at the %v budget; the verdict covers only the paths explored\n", budget)
	}
	for k, v := range incompl {
		fmt.Printf("note: reduced bound: %d path(s) not decided: %s\n", v, k)
	}
	for _, u := range unconf {
		fmt.Println("note: counterexample of the encoding not reproduced natively (not reported):", u)
	}
	for i, m := range mism {
		if i < 5 {
			fmt.Println("note: concordance mismatch:", m)
		}
	}
	if rc == 0 && x.timedOut == 0 {
		for _, v := range vac {
			fmt.Println("note: vacuous harness (no witness reached):", v)
		}
	}
	ev.fill(x, p, jobs, paths, asserts, aSolver, int64(validated), len(cases), cases, incompl, unconf, mism, reach, nd, cross, tLoad, tExp, budget)
	ev.Violations += len(confirmed)
	ev.WallS = time.Since(t0).Seconds()
	ev.write()
	fmt.Printf("%s %s: jobs=%d paths=%d forks=%d steps=%d asserts=%d (symbolic %d) queries=%d (sat %d unsat %d unknown %d, cached %d) domain=%d solver=%.1fs native=%d/%d load=%.1fs explore=%.1fs incomplete=%d\n",
		*prop, *tier, len(jobs), paths, x.nforks, atomic.LoadInt64(&x.nSteps), asserts, aSolver, stats.queries, stats.sat, stats.unsat, stats.unknown, stats.cacheHits, nd,
		float64(stats.nanos)/1e9, validated, len(cases), tLoad.Seconds(), tExp.Seconds(), incTotal)
	if *verb {
		for _, j := range jobs {
			fmt.Println("  ", j.Name, "paths", j.paths, "ended", j.ended, "asserts", j.asserts, "reached", j.reached)
		}
		solverErrs.Range(func(k, _ any) bool { fmt.Println("   solver said:", k); return true })
		for _, n := range p.initNotes {
			fmt.Println("   init:", n)
		}
	}
	return rc
}

func mk(dir, sub string) string {
	d := filepath.Join(dir, sub)
	os.MkdirAll(d, 0o755)
	return d
}

func jobOf(js []*Job, n string) *Job {
	for _, j := range js {
		if j.Name == n {
			return j
		}
	}
	return nil
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// confirm replays a counterexample against the native build.
func confirm(n, race *Native, c *Case, tier int) (NRes, string) {
	var last NRes
	for try := 0; try < 3; try++ {
		rs, err := n.Run([]*Case{c}, tier, 10*time.Second)
		if err != nil || len(rs) == 0 {
			return NRes{Status: "error"}, ""
		}
		last = rs[0]
		switch last.Status {
		case "assert", "panic", "crash", "hang":
			return last, last.Status
		}
	}
	// order- or schedule-dependent counterexamples need many native runs
	var many []*Case
	for i := 0; i < 200; i++ {
		many = append(many, c)
	}
	if rs, err := n.Run(many, tier, 10*time.Second); err == nil {
		for _, r := range rs {
			switch r.Status {
			case "assert", "panic", "crash", "hang":
				return r, r.Status
			}
		}
	}
	if race != nil {
		if rs, err := race.Run(many[:20], tier, 20*time.Second); err == nil {
			for _, r := range rs {
				if r.Status == "race" || r.Status == "crash" || r.Status == "assert" {
					return r, r.Status
				}
			}
		}
	}
	return last, ""
}

func loadKnown() *KnownFile {
	k := &KnownFile{}
	b, err := os.ReadFile(filepath.Join(*verif, "known_findings.json"))
	if err == nil {
		json.Unmarshal(b, k)
	}
	return k
}

func matchKnown(k *KnownFile, j *Job, c *Case, r NRes) *Finding {
	for i := range k.Findings {
		f := &k.Findings[i]
		if f.Property != *prop || (f.Job != "" && f.Job != j.Name) || (f.Label != "" && f.Label != r.Label) {
			continue
		}
		if f.Obs != "" {
			ok := false
			for _, o := range r.Obs {
				if o == f.Obs {
					ok = true
				}
			}
			if !ok {
				continue
			}
		} else if len(f.Vals) > 0 {
			if fmt.Sprint(f.Vals) != fmt.Sprint(c.Vals) {
				continue
			}
		} else {
			continue
		}
		return f
	}
	return nil
}

type replayDoc struct {
	Property string   `json:"property"`
	Job      string   `json:"job"`
	Label    string   `json:"label"`
	Vals     []uint64 `json:"vals"`
	Pad      bool     `json:"pad,omitempty"`
	Tier     string   `json:"tier"`
	Native   NRes     `json:"native"`
	How      string   `json:"how"`
}

func writeReplay(j *Job, c *Case, r NRes, i int) string {
	dir := filepath.Join(*verif, "evidence")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("replay_%s_%d.json", *prop, i))
	d := replayDoc{*prop, c.Job, c.Label, c.Vals, c.Pad, *tier, r, fmt.Sprintf("/verif/check.sh %s %s -replay %s", *prop, *tier, path)}
	b, _ := json.MarshalIndent(d, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func replayFile(ov Overlay, tmp string, ti int) int {
	b, err := os.ReadFile(*file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var d replayDoc
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Println(err)
		return 2
	}
	n, err := buildNative(*repo, ov, tmp, false)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var race *Native
	if raceProps[*prop] {
		race, _ = buildNative(*repo, ov, mk(tmp, "race"), true)
	}
	r, how := confirm(n, race, &Case{Job: d.Job, Vals: d.Vals, Pad: d.Pad}, ti)
	fmt.Println("native:", r.Status, r.Label)
	for _, o := range r.Obs {
		fmt.Println("  ", o)
	}
	if how != "" {
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.Property, *file)
		return 1
	}
	return 0
}
