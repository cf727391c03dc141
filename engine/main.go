package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type checkSpec struct {
	Pkgs        []string `json:"pkgs"`
	Prefix      string   `json:"prefix"` // harness functions start with this (default H_)
	QuickS      float64  `json:"quick_s"`
	ThoroughS   float64  `json:"thorough_s"`
	Outside     string   `json:"outside"`
	Assumptions []string `json:"assumptions"`
	Generate    bool     `json:"generate"` // run the generators that harness packages ask for
	Twolevel    string   `json:"two_level"`
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Match    string `json:"match"` // substring of the assertion message
	What     string `json:"what"`
}

var commonAssumptions = []string{
	"goroutines started by the code run to completion at their start (no interleavings are explored)",
	"fmt, reflect, encoding/json.Marshal, sync, sync/atomic and os are executed by hand-written models of the engine (their behaviour on sampled paths is compared with native runs)",
	"the Go type system, go/ssa and z3 are trusted; every reported counterexample is re-run natively against the compiled repository first",
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym run|dbg ...")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	switch os.Args[1] {
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

type hresult struct {
	fn        harnessFn
	ex        *Explorer
	wall      float64
	budget    float64
	confirmed []confirmed
	unconf    []string
	validated int
	mismatch  []string
	incompl   []string
	budgetEnd bool
}

type confirmed struct {
	Msg    string
	Vals   map[string]uint64
	Native string
	Tier   int
}

func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	check := fs.String("check", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("only", "", "run only harnesses whose name contains this")
	budget := fs.Float64("budget", 0, "exploration seconds (overrides)")
	verbose := fs.Bool("v", false, "")
	workers := fs.Int("workers", 8, "")
	noReplay := fs.Bool("noreplay", false, "")
	solver := fs.String("z3", "z3-new", "")
	prof := fs.String("prof", "", "")
	noEvidence := fs.Bool("noevidence", false, "")
	maxPaths := fs.Int64("maxpaths", 0, "")
	fs.Parse(args)
	if n := runtime.NumCPU(); *workers > n {
		*workers = n
	}
	start := time.Now()
	var checks map[string]checkSpec
	b, err := os.ReadFile(filepath.Join(*verif, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &checks)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "checks.json:", err)
		return 2
	}
	spec, okk := checks[*check]
	if !okk {
		fmt.Fprintln(os.Stderr, "no such check", *check)
		return 2
	}
	tierN := 0
	total := spec.QuickS
	if total == 0 {
		total = 150
	}
	if *tier == "thorough" {
		tierN = 1
		total = spec.ThoroughS
		if total == 0 {
			total = 600
		}
	}
	if *budget > 0 {
		total = *budget
	}
	harnessDir := filepath.Join(*verif, "harness")
	var pkgs []string
	for _, p := range spec.Pkgs {
		pkgs = append(pkgs, repoMod+"/"+p)
	}
	outputBad := func(msg string) int {
		dir := filepath.Join(*verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		pth := filepath.Join(dir, *check+"-generated.txt")
		os.WriteFile(pth, []byte(msg), 0o644)
		if len(msg) > 3000 {
			msg = msg[:3000] + "..."
		}
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *check, pth)
		return 1
	}
	if spec.Generate {
		tmp, err := os.MkdirTemp("", "gosym-gen-")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		defer os.RemoveAll(tmp)
		failure, err := runGenerators(*repo, harnessDir, tmp)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if failure != "" {
			return outputBad("the generator fails on types it supports:\n" + failure)
		}
	}
	// runtime is needed for its error types; vload for the loader model when a harness uses it
	prog, spkgs, err := loadProgram(*repo, harnessDir, append(append([]string{}, pkgs...), "runtime", "errors", "strconv", "fmt"))
	if bad, ok := err.(badGenerated); ok {
		return outputBad(bad.msg)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	loadS := time.Since(start).Seconds()
	want := map[string]bool{}
	for _, p := range pkgs {
		want[p] = true
	}
	prefix := spec.Prefix
	if prefix == "" {
		prefix = "H_"
	}
	var fns []harnessFn
	ssaOf := map[string]*ssa.Function{}
	for _, sp := range spkgs {
		if sp == nil || !want[sp.Pkg.Path()] {
			continue
		}
		type pf struct {
			f   *ssa.Function
			pos int
		}
		var list []pf
		for name, mem := range sp.Members {
			f, ok := mem.(*ssa.Function)
			if !ok || !strings.HasPrefix(name, prefix) {
				continue
			}
			if *only != "" && !strings.Contains(name, *only) {
				continue
			}
			list = append(list, pf{f, int(f.Pos())})
		}
		sort.Slice(list, func(i, j int) bool { return list[i].pos < list[j].pos })
		for _, x := range list {
			doc := ""
			if fd, ok := x.f.Syntax().(*ast.FuncDecl); ok && fd.Doc != nil {
				doc = strings.Join(strings.Fields(fd.Doc.Text()), " ")
			}
			h := harnessFn{pkg: sp.Pkg.Path(), fn: x.f.Name(), doc: doc, setup: sp.Func("Setup") != nil}
			for _, n := range setupNames(x.f.Name()) {
				if sp.Func(n) != nil {
					h.setups = append(h.setups, n)
				}
			}
			fns = append(fns, h)
			ssaOf[h.pkg+"."+h.fn] = x.f
		}
	}
	if len(fns) == 0 {
		fmt.Fprintln(os.Stderr, "no harnesses")
		return 2
	}
	var rp *replayer
	if !*noReplay {
		rp = startReplayer(*repo, harnessDir, fns)
		defer rp.close()
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var results []*hresult
	deadlineAll := time.Now().Add(time.Duration(total * float64(time.Second)))
	broken := false
	for i, h := range fns {
		remaining := time.Until(deadlineAll).Seconds()
		share := remaining / float64(len(fns)-i) * 2
		if share > remaining {
			share = remaining
		}
		if share < 5 {
			share = 5
		}
		if i == len(fns)-1 && remaining > share {
			share = remaining
		}
		ex := &Explorer{p: prog, harness: ssaOf[h.pkg+"."+h.fn], name: h.fn, tier: tierN, workers: *workers, solverBin: *solver,
			timeoutMs: 10000, maxSteps: 40_000_000, verbose: *verbose, MaxSamples: 24, maxPaths: *maxPaths}
		if tierN == 1 {
			ex.timeoutMs, ex.maxSteps, ex.MaxSamples = 60000, 200_000_000, 64
		}
		st := time.Now()
		ex.deadline = st.Add(time.Duration(share * float64(time.Second)))
		ex.Run()
		r := &hresult{fn: h, ex: ex, wall: time.Since(st).Seconds(), budget: share}
		results = append(results, r)
		if len(ex.engineErrs) > 0 {
			broken = true
			for _, e := range ex.engineErrs {
				fmt.Fprintf(os.Stderr, "%s: ENGINE ERROR %s\n", h.fn, e)
			}
		}
		if rp != nil {
			if err := judge(rp, r, tierN); err != nil {
				fmt.Fprintln(os.Stderr, "replay:", err)
				return 2
			}
		}
		report(r, *verbose)
	}
	_ = broken
	code := finish(*check, *tier, spec, results, *verif, start, loadS, rp, *noEvidence)
	return code
}

// judge replays findings, incomplete paths and sampled paths natively.
func judge(rp *replayer, r *hresult, tier int) error {
	ex := r.ex
	var jobs []replayJob
	type ref struct {
		kind string
		msg  string
		f    Finding
	}
	var refs []ref
	name := r.fn.pkg + "." + r.fn.fn
	var keys []string
	for k := range ex.Findings {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		for _, f := range ex.Findings[k] {
			jobs = append(jobs, replayJob{Fn: name, Vals: valsOf(f), Tier: tier, Repeat: 400, LimitMs: 20000})
			refs = append(refs, ref{"finding", k, f})
		}
	}
	for _, f := range ex.AbortEx {
		jobs = append(jobs, replayJob{Fn: name, Vals: valsOf(f), Tier: tier, Repeat: 3, LimitMs: 20000})
		refs = append(refs, ref{"abort", f.Kind + ": " + f.Msg, f})
	}
	for _, f := range ex.Samples {
		jobs = append(jobs, replayJob{Fn: name, Vals: valsOf(f), Tier: tier, Repeat: 1, LimitMs: 20000})
		refs = append(refs, ref{"sample", "", f})
	}
	res, err := rp.run(jobs)
	if err != nil {
		return err
	}
	confirmedMsg := map[string]bool{}
	for i, rr := range res {
		rf := refs[i]
		bad := rr.Kind == "assert" || rr.Kind == "panic" || rr.Kind == "crash" || rr.Kind == "timeout"
		if rr.Kind == "missing" {
			return fmt.Errorf("harness %s missing natively", name)
		}
		if bad {
			msg := rr.Kind + ": " + rr.Msg
			if rr.Kind == "assert" {
				msg = rr.Msg
			}
			if j := strings.Index(msg, "\n"); j > 0 && rr.Kind == "panic" {
				msg = msg[:j]
			}
			if len(r.confirmed) < 40 {
				r.confirmed = append(r.confirmed, confirmed{Msg: msg, Vals: jobs[i].Vals, Native: rr.Msg, Tier: tier})
			}
			if rf.kind == "finding" {
				confirmedMsg[rf.msg] = true
			}
			continue
		}
		switch rf.kind {
		case "sample":
			if rr.Kind == "ok" {
				if strings.Join(rr.Obs, "\x00") == strings.Join(rf.f.Obs, "\x00") {
					r.validated++
				} else {
					r.mismatch = append(r.mismatch, fmt.Sprintf("%s: engine %q native %q", showVals(jobs[i].Vals), rf.f.Obs, rr.Obs))
				}
			} else {
				r.mismatch = append(r.mismatch, fmt.Sprintf("%s: native outcome %s %s", showVals(jobs[i].Vals), rr.Kind, rr.Msg))
			}
		case "abort":
			r.incompl = append(r.incompl, fmt.Sprintf("%s [%s]", rf.msg, showVals(jobs[i].Vals)))
		}
	}
	for i := range res {
		if refs[i].kind == "finding" && !confirmedMsg[refs[i].msg] {
			confirmedMsg[refs[i].msg] = true
			r.unconf = append(r.unconf, fmt.Sprintf("%s [%s] native: %s", refs[i].msg, showVals(jobs[i].Vals), res[i].Kind))
		}
	}
	return nil
}

func report(r *hresult, verbose bool) {
	ex := r.ex
	fmt.Printf("%-34s paths=%d infeasible=%d asserts=%d queries=%d unsat=%d unknown=%d solver=%.1fs wall=%.1fs validated=%d",
		r.fn.fn, ex.Paths, ex.Infeasible, ex.Asserts, ex.Queries, ex.Unsat, ex.UnknownN, ex.SolverTime.Seconds(), r.wall, r.validated)
	if ex.stopped {
		fmt.Printf(" STOPPED(%s)", ex.stopWhy)
	}
	fmt.Println()
	if verbose {
		fmt.Printf("    reach=%v notes=%v maxdecs=%d steps=%d domain=%d cache=%d audits=%d/%d\n", ex.Reach, ex.Notes, ex.MaxDecs, ex.Steps, ex.DomDecided, ex.CacheHits, ex.AuditOK, ex.Audits)
	}
	for k, v := range ex.Aborts {
		if len(k) > 600 {
			k = k[:600]
		}
		fmt.Printf("    incomplete x%d: %s\n", v, k)
	}
	for k, fs := range ex.Findings {
		fmt.Printf("    candidate: %s  [%s]\n", k, showVals(valsOf(fs[0])))
	}
	for _, u := range r.unconf {
		fmt.Printf("    not reproduced natively: %s\n", u)
	}
	for i, u := range r.mismatch {
		if i < 5 {
			fmt.Printf("    VALIDATION MISMATCH: %s\n", u)
		}
	}
}

func finish(check, tier string, spec checkSpec, results []*hresult, verif string, start time.Time, loadS float64, rp *replayer, noEv bool) int {
	var known []knownFinding
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		var kf struct {
			Findings []knownFinding `json:"findings"`
		}
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			return 2
		}
		known = kf.Findings
	}
	violations := 0
	knownSeen := map[string]bool{}
	replayDir := filepath.Join(verif, "evidence", "replay")
	var detail []map[string]any
	var samples []any
	covered := map[string]bool{}
	var domain, audits, cacheHits, paths, queries, unsat, sat, unknown, asserts, validated, incomplete, mism, infeasible int
	var steps int64
	var solverS float64
	exhaustive := true
	for _, r := range results {
		ex := r.ex
		reported := map[string]bool{}
		for _, c := range r.confirmed {
			isKnown := false
			for _, k := range known {
				if k.Property == check && (k.Harness == "" || k.Harness == r.fn.fn) && k.Match != "" && strings.Contains(c.Msg, k.Match) {
					isKnown = true
					if !knownSeen[k.What] {
						knownSeen[k.What] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", check, k.What)
					}
				}
			}
			if isKnown || reported[c.Msg] {
				continue
			}
			reported[c.Msg] = true
			os.MkdirAll(replayDir, 0o755)
			violations++
			pth := filepath.Join(replayDir, fmt.Sprintf("%s-%s-%d.json", check, r.fn.fn, violations))
			b, _ := json.MarshalIndent(map[string]any{"property": check, "harness": r.fn.pkg + "." + r.fn.fn, "message": c.Msg,
				"values": c.Vals, "readable": showVals(c.Vals), "native": c.Native, "tier": c.Tier}, "", " ")
			os.WriteFile(pth, b, 0o644)
			fmt.Printf("    counterexample in %s: %s\n      %s\n", r.fn.fn, c.Msg, showVals(c.Vals))
			fmt.Printf("VIOLATION property=%s replay=%s\n", check, pth)
		}
		reach := map[string]int{}
		for k, v := range ex.Reach {
			reach[k] = v
		}
		aborts := map[string]int{}
		for k, v := range ex.Aborts {
			if len(k) > 300 {
				k = k[:300]
			}
			aborts[k] = v
			incomplete += v
		}
		done := !ex.stopped && len(ex.Aborts) == 0 && ex.UnknownN == 0
		exhaustive = exhaustive && done
		detail = append(detail, map[string]any{"harness": r.fn.fn, "bounds": r.fn.doc, "paths": ex.Paths, "infeasible": ex.Infeasible,
			"asserts_decided": ex.Asserts, "queries": ex.Queries, "unsat": ex.Unsat, "sat": ex.SatN, "unknown": ex.UnknownN,
			"solver_s": round(ex.SolverTime.Seconds()), "wall_s": round(r.wall), "reach": reach, "incomplete_paths": aborts,
			"decided_by_byte_domains": ex.DomDecided, "of_these_put_to_solver": ex.Audits, "agreed": ex.AuditOK, "answered_from_cache": ex.CacheHits,
			"exhausted_bound": done, "stopped": ex.stopWhy, "validated_natively": r.validated, "validation_mismatches": len(r.mismatch),
			"counterexamples_not_reproduced": r.unconf, "max_decisions": ex.MaxDecs})
		paths += int(ex.Paths - ex.Infeasible)
		infeasible += int(ex.Infeasible)
		queries += ex.Queries
		domain += ex.DomDecided
		audits += ex.Audits
		cacheHits += ex.CacheHits
		unsat += ex.Unsat
		sat += ex.SatN
		unknown += ex.UnknownN
		asserts += ex.Asserts
		validated += r.validated
		mism += len(r.mismatch)
		steps += ex.Steps
		solverS += ex.SolverTime.Seconds()
		for k := range ex.Covered {
			covered[k] = true
		}
		for i, s := range ex.Samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": r.fn.fn, "values": showVals(valsOf(s)), "observed": s.Obs})
			}
		}
	}
	if !noEv {
		fnsEnc := sortedKeys(covered)
		cov := map[string]any{
			"states": paths, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":         exhaustive,
			"meaning":            "states = feasible symbolic paths explored to the end (each stands for every input satisfying its path condition); transitions = SSA blocks/instructions executed symbolically; traces = sampled paths whose model was run natively with equal outcome and observations",
			"infeasible_paths":   infeasible,
			"asserts_decided":    asserts,
			"queries_discharged": queries, "queries_unsat": unsat, "queries_sat": sat, "queries_unknown": unknown,
			"decided_by_byte_domains": domain, "of_these_put_to_solver": audits, "answered_from_cache": cacheHits,
			"solver_s": round(solverS), "load_s": round(loadS), "functions_encoded": fnsEnc, "functions_encoded_count": len(fnsEnc),
			"harnesses": detail, "incomplete_paths": incomplete, "validation_mismatches": mism, "outside_the_claim": spec.Outside,
		}
		ev := map[string]any{"property": check, "tier": tier, "seed": seed(), "level": "model_checking", "coverage": cov,
			"assumptions": append(append([]string{}, spec.Assumptions...), commonAssumptions...), "wall_s": round(time.Since(start).Seconds()), "violations": violations}
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verif, "evidence", check+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: paths=%d queries=%d (unsat %d, unknown %d) solver=%.1fs load=%.1fs wall=%.1fs validated=%d mismatches=%d incomplete=%d exhaustive=%v violations=%d\n",
		check, tier, paths, queries, unsat, unknown, solverS, loadS, time.Since(start).Seconds(), validated, mism, incomplete, exhaustive, violations)
	if violations > 0 {
		return 1
	}
	return 0
}

func seed() int {
	n := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }
