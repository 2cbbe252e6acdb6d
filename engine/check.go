package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// P are harness parameters.
type P map[string]int

// RunSpec is one bounded exploration of a harness.
type RunSpec struct {
	H        string
	P        P
	Inst     bool   // instrumented source, controlled schedules
	Preempt  int    // preemption bound
	Sched    int    // bound on non-default choices at blocking points
	CPU      int    // runtime.NumCPU seen by the code
	Tags     string // build tags
	Secs     int    // time cap
	Steps    int64
	Thorough bool // only in the thorough tier
	What     string
	Covers   []string // reachability witnesses that must be reached
	Samples  int
}

type CheckSpec struct {
	ID      string
	Runs    []RunSpec
	Outside []string // what lies outside the bounds
	Assume  []string
}

type finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Harness  string `json:"harness,omitempty"`
	Match    string `json:"match,omitempty"` // substring of the failure
	Where    string `json:"where,omitempty"` // substring of the call stack
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadFindings() []finding {
	var fs []finding
	data, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var doc struct {
		Findings []finding `json:"findings"`
	}
	if json.Unmarshal(data, &doc) == nil {
		fs = doc.Findings
	}
	return fs
}

func matchFinding(fs []finding, id, harness, msg, where string) *finding {
	for i := range fs {
		f := &fs[i]
		if f.Status != "known" || f.Property != id || f.Match == "" {
			continue
		}
		if f.Harness != "" && f.Harness != harness {
			continue
		}
		if strings.Contains(msg, f.Match) && (f.Where == "" || strings.Contains(where, f.Where)) {
			return f
		}
	}
	return nil
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tier := fs.String("tier", "", "quick or thorough")
	only := fs.String("only", "", "only runs whose description contains this")
	fs.Parse(args)
	if fs.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: symgo check [-tier quick|thorough] ID")
		return 2
	}
	id := fs.Arg(0)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	spec := findSpec(id)
	if spec == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		return 2
	}
	t0 := time.Now()
	budget := 620 * time.Second
	if *tier == "thorough" {
		budget = 3 * time.Hour
	}
	if s, err := strconv.Atoi(os.Getenv("VV_BUDGET")); err == nil {
		budget = time.Duration(s) * time.Second
	}
	deadline := t0.Add(budget)
	scratch, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)

	known := loadFindings()
	builds := map[string]*Build{}
	var nativeErr []string
	getBuild := func(r *RunSpec) *Build {
		k := fmt.Sprintf("%s|%v", r.Tags, r.Inst)
		b := builds[k]
		if b == nil {
			b = prepare(r.Tags, r.Inst)
			b.key = fmt.Sprintf("b%d", len(builds))
			builds[k] = b
			if b.err == nil {
				ch := make(chan *nativeBin, 1)
				b.nativeCh = ch
				go func() { ch <- buildNative(scratch, b.key, b.overlay, b.tags) }()
			}
		}
		return b
	}
	solvers := newSolvers(workers(), *tier == "thorough" && os.Getenv("VV_XCHECK") != "0")
	defer func() {
		for _, s := range solvers {
			s.close()
		}
	}()

	type viol struct {
		c     *Case
		text  string
		tags  string
		known *finding
	}
	var viols []viol
	var unrepro []string
	var reduced []string
	var runsOut []map[string]interface{}
	var samples []interface{}
	var paths, forks, done, killed, instrs, asserts, decisions, switches int64
	var validated, valTotal, mismatches int
	funcs := map[string]bool{}
	allComplete := true
	covers := map[string]int{}
	failedRuns := 0

	for ri := range spec.Runs {
		r := &spec.Runs[ri]
		if r.Thorough && *tier != "thorough" {
			continue
		}
		if *only != "" && !strings.Contains(r.H+" "+r.What, *only) {
			continue
		}
		name := r.H
		if r.What != "" {
			name += " (" + r.What + ")"
		}
		if failedRuns >= 2 || (failedRuns > 0 && *tier != "thorough" && time.Since(t0) > 4*time.Minute) {
			reduced = append(reduced, name+": not run, the property is violated already")
			allComplete = false
			continue
		}
		if time.Until(deadline) < 5*time.Second {
			reduced = append(reduced, name+": not run, time budget used up")
			allComplete = false
			continue
		}
		b := getBuild(r)
		if b.err != nil {
			// the instrumented variant may fail where the plain one works
			if !r.Inst || strings.Contains(b.err.Error(), "go list") {
				fmt.Fprintf(os.Stderr, "%s: cannot load the current tree: %v\n", name, b.err)
			}
			reduced = append(reduced, fmt.Sprintf("%s: not run: %v", name, b.err))
			allComplete = false
			continue
		}
		fn := b.harness(r.H)
		if fn == nil {
			reduced = append(reduced, fmt.Sprintf("%s: not run: the harness does not compile against the current source (%s)", name, strings.Join(b.dropped, "; ")))
			allComplete = false
			continue
		}
		secs := r.Secs
		if secs == 0 {
			secs = 200
		}
		if *tier == "thorough" {
			secs *= 12
		}
		dl := time.Now().Add(time.Duration(secs) * time.Second)
		if dl.After(deadline) {
			dl = deadline
		}
		cfg := &RunCfg{MaxSteps: r.Steps, SchedChoice: r.Sched, Preempt: r.Preempt, NumCPU: r.CPU, Params: map[string]int{},
			Deadline: dl, Samples: r.Samples, Seed: seed, Inst: r.Inst}
		for k, v := range r.P {
			cfg.Params[k] = v
		}
		if cfg.MaxSteps == 0 {
			cfg.MaxSteps = 20e6
		}
		if cfg.NumCPU == 0 {
			cfg.NumCPU = 2
		}
		if cfg.Samples == 0 {
			cfg.Samples = 8
		}
		cfg.Known = func(msg, where string) bool { return matchFinding(known, id, r.H, msg, where) != nil }
		before := SS
		res := b.loaded.sh.explore(fn, cfg, solvers)
		nb := b.nativeBin()
		if nb.err != nil {
			nativeErr = append(nativeErr, nb.err.Error())
		}
		// Confirm the counterexamples natively; one confirmed case for every
		// kind of failure is enough, and the time spent is limited.
		replayEnd := time.Now().Add(100 * time.Second)
		if *tier == "thorough" {
			replayEnd = time.Now().Add(10 * time.Minute)
		}
		confirmed := map[string]bool{}
		fresh := 0
		for _, c := range res.Violations {
			kf := matchFinding(known, id, r.H, c.Expect, c.Where)
			key := stripDigits(c.Expect)
			if kf != nil {
				key = "known " + kf.What
			}
			if confirmed[key] || (fresh > 0 && kf == nil && *tier != "thorough") {
				continue
			}
			if time.Now().After(replayEnd) {
				unrepro = append(unrepro, fmt.Sprintf("%s: %s at %s (not replayed for time)", name, c.Expect, c.Where))
				allComplete = false
				continue
			}
			text := nb.replay(c)
			if text == "" {
				unrepro = append(unrepro, fmt.Sprintf("%s: %s at %s (did not reproduce natively, not reported)", name, c.Expect, c.Where))
				allComplete = false
				continue
			}
			confirmed[key] = true
			if kf == nil {
				fresh++
			}
			viols = append(viols, viol{c, text, r.Tags, kf})
		}
		if fresh > 0 {
			failedRuns++
		}
		ok, bad := nb.validate(res.Samples)
		validated += ok
		valTotal += len(res.Samples)
		for _, m := range bad {
			mismatches++
			reduced = append(reduced, name+": engine and native run disagree: "+m)
		}
		if !res.Complete {
			allComplete = false
			for k, n := range res.Unsup {
				reduced = append(reduced, fmt.Sprintf("%s: %d paths ended: unsupported: %s", name, n, k))
			}
			for k, n := range res.Limits {
				reduced = append(reduced, fmt.Sprintf("%s: %d paths cut: %s", name, n, k))
			}
			if len(res.Violations) == 0 && len(res.Unsup) == 0 && len(res.Limits) == 0 {
				reduced = append(reduced, fmt.Sprintf("%s: not exhausted in %.0f s", name, res.Wall.Seconds()))
			}
		}
		for k, n := range cfg.notes {
			reduced = append(reduced, fmt.Sprintf("%s: %d times: %s", name, n, k))
		}
		for _, c := range r.Covers {
			if res.Covers[c] == 0 && len(res.Violations) == 0 {
				reduced = append(reduced, fmt.Sprintf("%s: reachability witness %q not reached", name, c))
			}
		}
		for c, n := range res.Covers {
			covers[r.H+"/"+c] += n
		}
		if len(res.Samples) > 0 {
			c := res.Samples[0]
			samples = append(samples, map[string]interface{}{"harness": c.Harness, "params": c.Params, "nd": clip(c.ND), "switches": c.Switches, "outs": clipS(c.Outs)})
		}
		paths += res.Paths
		done += res.Done
		killed += res.Killed
		forks += res.Stats.forks
		instrs += res.Stats.instrs
		asserts += res.Asserts
		decisions += res.Stats.decisions
		switches += res.Switches
		b.loaded.sh.used.Range(func(k, v interface{}) bool {
			if n := k.(string); strings.Contains(n, "jayloop/") && !strings.Contains(n, ".vv") {
				funcs[strings.Replace(n, "github.com/jayloop/", "", -1)] = true
			}
			return true
		})
		ro := map[string]interface{}{
			"harness": r.H, "what": r.What, "params": r.P, "exhaustive": res.Complete, "paths": res.Paths, "completed_paths": res.Done,
			"infeasible_by_assumption": res.Killed, "merged_with_equal_state": res.Merged, "assertions_decided": res.Asserts, "solver_queries": SS.Queries - before.Queries,
			"wall_s": round2(res.Wall.Seconds()), "violations": res.ViolCount, "covers": res.Covers,
		}
		if r.Inst {
			ro["preemption_bound"] = r.Preempt
			ro["rounds"] = res.Rounds
			ro["conflicting_locations"] = res.Conflicts
		}
		if r.Tags != "" {
			ro["tags"] = r.Tags
		}
		runsOut = append(runsOut, ro)
		fmt.Printf("%-60s paths %d asserts %d complete %v %.1fs viol %d\n", name, res.Paths, res.Asserts, res.Complete, res.Wall.Seconds(), res.ViolCount)
	}

	// report
	exit := 0
	nviol := 0
	seen := map[string]bool{}
	seenKnown := map[string]bool{}
	os.MkdirAll(filepath.Join(verifDir, "replays"), 0o755)
	for _, v := range viols {
		if v.known != nil {
			if !seenKnown[v.known.What] {
				seenKnown[v.known.What] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, v.known.What)
			}
			continue
		}
		key := v.c.Harness + stripDigits(v.text)
		if seen[key] {
			continue
		}
		seen[key] = true
		nviol++
		f := filepath.Join(verifDir, "replays", fmt.Sprintf("%s-%d.json", id, nviol))
		js, _ := json.MarshalIndent(map[string]interface{}{"property": id, "case": v.c, "tags": v.tags, "native": v.text, "how": "symgo replay " + f}, "", " ")
		os.WriteFile(f, js, 0o644)
		fmt.Printf("  %s: %s\n    at %s\n    native: %s\n", v.c.Harness, v.c.Expect, v.c.Where, v.text)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
		exit = 1
	}
	for _, l := range unrepro {
		fmt.Println("note:", l)
	}
	for _, l := range reduced {
		fmt.Println("reduced:", l)
	}
	for _, l := range nativeErr {
		fmt.Println("native build:", l)
	}
	if len(nativeErr) > 0 && len(viols) == 0 && exit == 0 && len(unrepro) > 0 {
		fmt.Println("note: violations could not be confirmed natively")
	}
	var fl []string
	for f := range funcs {
		if !strings.Contains(f, "vvH_") {
			fl = append(fl, f)
		}
	}
	sort.Strings(fl)
	var bounds []string
	for i := range spec.Runs {
		r := &spec.Runs[i]
		if r.What != "" && (!r.Thorough || *tier == "thorough") {
			bounds = append(bounds, fmt.Sprintf("%s %v: %s", r.H, map[string]int(r.P), r.What))
		}
	}
	outside := append([]string{"larger trees, longer keys, more operations, threads, preemptions and allocators than the bounds say", "weak memory behaviour, failing memory allocation, runs longer than the step limits"}, spec.Outside...)
	if len(samples) > 12 {
		samples = samples[:12]
	}
	if samples == nil {
		samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": id, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states":                        paths + forks,
			"transitions":                   instrs,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"exhaustive":                    allComplete,
			"symbolic_paths":                paths,
			"completed_paths":               done,
			"assertions_decided":            asserts,
			"branch_decisions":              decisions,
			"context_switches":              switches,
			"traces_compared":               valTotal,
			"trace_mismatches":              mismatches,
			"functions_encoded":             fl,
			"bounds":                        bounds,
			"outside_the_bounds":            outside,
			"runs":                          runsOut,
			"reduced":                       reduced,
			"unreproduced":                  unrepro,
			"reachability_witnesses":        covers,
			"solver": map[string]interface{}{
				"solver": solverCmd, "queries": SS.Queries, "sat": SS.Sat, "unsat": SS.Unsat, "unknown": SS.Unknown,
				"byte_domain_decisions": domainDecided, "decided_by_simplification": simplified,
				"simplifications_confirmed_by_solver": map[string]int64{"paths": certPaths, "claims": certClaims, "paths_not_confirmed_for_time": certSkipped, "contradicted": certBad}, "cache_hits": SS.CacheHits, "model_hits": SS.ModelHits, "errors": SS.Errors, "seconds": round2(float64(SS.Nanos) / 1e9),
				"models_repaired": modelRepairs, "cross_checked": SS.XChecked, "cross_check_disagreements": SS.XDisagree,
			},
		},
		"assumptions": append(append([]string{}, commonAssumptions...), spec.Assume...),
		"wall_s":      round2(time.Since(t0).Seconds()),
		"violations":  nviol,
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), append(js, '\n'), 0o644)
	fmt.Printf("%s %s: %d runs, %d paths, %d assertions, %d solver queries (%.1f s), %d/%d traces validated, exhaustive %v, %.1f s\n", id, *tier, len(runsOut), paths, asserts, SS.Queries, float64(SS.Nanos)/1e9, validated, valTotal, allComplete, time.Since(t0).Seconds())
	if len(runsOut) == 0 && exit == 0 {
		fmt.Fprintln(os.Stderr, "nothing could be checked")
		for _, b := range builds {
			if b.err != nil {
				return 2
			}
		}
	}
	return exit
}

func clip(v []uint64) []uint64 {
	if len(v) > 60 {
		return v[:60]
	}
	return v
}

func clipS(v []string) []string {
	if len(v) > 40 {
		return v[:40]
	}
	return v
}

func round2(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

func cmdReplay(args []string) int {
	data, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var doc struct {
		Property string `json:"property"`
		Case     *Case  `json:"case"`
		Tags     string `json:"tags"`
	}
	if err := json.Unmarshal(data, &doc); err != nil {
		fmt.Println(err)
		return 2
	}
	b := prepare(doc.Tags, doc.Case.Inst)
	if b.err != nil {
		fmt.Println(b.err)
		return 2
	}
	scratch, _ := os.MkdirTemp("", "symgo")
	defer os.RemoveAll(scratch)
	nb := buildNative(scratch, "n", b.overlay, b.tags)
	if nb.err != nil {
		fmt.Println(nb.err)
		return 2
	}
	text := nb.replay(doc.Case)
	if text != "" {
		fmt.Println(text)
		fmt.Printf("VIOLATION property=%s replay=%s\n", doc.Property, args[0])
		return 1
	}
	fmt.Println("held")
	return 0
}
