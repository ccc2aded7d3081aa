package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

type HarnessReport struct {
	Name        string           `json:"harness"`
	Doc         string           `json:"decides,omitempty"`
	Mode        string           `json:"mode"`
	Bounds      map[string]int64 `json:"bounds"`
	Paths       int64            `json:"paths_started"`
	Complete    int64            `json:"paths_complete"`
	SleepEnd    int64            `json:"paths_redundant"`
	AssumeEnd   int64            `json:"paths_outside_assumptions"`
	Exhaustive  bool             `json:"exhaustive_within_bounds"`
	StopReason  string           `json:"stopped_because,omitempty"`
	Unsupported map[string]int   `json:"paths_not_decided,omitempty"`
	UnknownBr   int64            `json:"solver_unknown"`
	Asserts     int64            `json:"assertions_refuted_by_solver"`
	AssertsC    int64            `json:"assertions_constant_on_path"`
	Decisions   int64            `json:"decisions"`
	SchedDecs   int64            `json:"schedule_decisions"`
	Steps       int64            `json:"ssa_instructions"`
	MaxPC       int              `json:"max_path_condition"`
	Covers      map[string]int64 `json:"covers"`
	Vacuous     []string         `json:"covers_not_reached,omitempty"`
	AssertKeys  map[string]int64 `json:"assertions"`
	Queries     int64            `json:"solver_queries"`
	Sat         int64            `json:"sat"`
	Unsat       int64            `json:"unsat"`
	SolverS     float64          `json:"solver_s"`
	MaxQueryS   float64          `json:"max_query_s"`
	SolverErrs  int64            `json:"solver_errors,omitempty"`
	Approx      map[string]int   `json:"approximations,omitempty"`
	WallS       float64          `json:"wall_s"`
	Validated   int              `json:"paths_replayed_natively"`
	Mismatch    []string         `json:"native_disagreements,omitempty"`
	Violations  []*Violation     `json:"violations,omitempty"`
	Unconfirmed []*Violation     `json:"unconfirmed,omitempty"`
	samples     []*PathSample
	h           *Harness
}

var noSleep bool

var (
	fRepo    = flag.String("repo", "/repo", "repository")
	fVerif   = flag.String("verif", "", "verif directory")
	fProp    = flag.String("prop", "", "property id")
	fTier    = flag.String("tier", "", "quick or thorough")
	fOnly    = flag.String("only", "", "run only this harness function")
	fTime    = flag.Int("time", 0, "override time budget per harness (s)")
	fWorkers = flag.Int("workers", 0, "workers")
	fReplay  = flag.String("replay", "", "replay a violation file")
	fVerbose = flag.Bool("v", false, "verbose")
	fNoNat   = flag.Bool("nonative", false, "skip native replays")
	fNoEv    = flag.Bool("noevidence", false, "do not write evidence")
	fFull    = flag.Int("full", -1, "enumerate all schedules up to this many preemptions (engine validation)")
	fOut     = flag.String("outcomes", "", "write the set of observed outcomes to this file")
	fNoSleep = flag.Bool("nosleep", false, "DPOR without sleep sets")
	fSolver  = flag.String("solver", "", "solver binary")
)

func main() {
	flag.Parse()
	if *fVerif == "" {
		exe, _ := os.Executable()
		*fVerif = filepath.Dir(filepath.Dir(exe))
	}
	if *fTier == "" {
		*fTier = os.Getenv("VERIF_TIER")
	}
	if *fTier != "thorough" {
		*fTier = "quick"
	}
	noSleep = *fNoSleep
	if *fSolver != "" {
		solverBin = *fSolver
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	setEnv()
	os.Exit(check(*fProp, *fTier, seed))
}

func setEnv() {
	def := map[string]string{
		"HOME": "/root", "GOENV": "off", "GOWORK": "off", "GO111MODULE": "on", "GOPATH": "/root/go",
		"GOMODCACHE": "/root/go/pkg/mod", "GOCACHE": "/root/.cache/go-build", "GOPROXY": "off", "GOSUMDB": "off",
		"GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod",
	}
	for k, v := range def {
		os.Setenv(k, v)
	}
	os.Unsetenv("GOROOT")
}

func check(prop, tier string, seed int64) int {
	start := time.Now()
	hdir := filepath.Join(*fVerif, "harness")
	ld, err := load(*fRepo, hdir, prop, tier, *fOnly)
	if err != nil {
		fmt.Printf("INCONCLUSIVE property=%s the harness could not be built against the current tree: %v\n", prop, err)
		if !*fNoEv {
			writeEvidence(prop, tier, seed, nil, nil, time.Since(start), []string{"harness not built: " + err.Error()})
		}
		return 0
	}
	loadS := time.Since(start)
	if *fVerbose {
		fmt.Printf("loaded in %.1fs, %d harnesses\n", loadS.Seconds(), len(ld.Harnesses))
	}
	nw := *fWorkers
	if nw == 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	known := loadKnown(filepath.Join(*fVerif, "known_findings.txt"), prop)
	var reps []*HarnessReport
	fns := map[string]bool{}
	for _, h := range ld.Harnesses {
		r := runHarness(ld, h, tier, seed, nw, fns)
		reps = append(reps, r)
		if *fVerbose {
			printReport(r)
		}
	}
	// native validation and confirmation
	if !*fNoNat {
		nativePass(ld, reps)
	}
	exit := 0
	var notes []string
	for _, d := range ld.Dropped {
		notes = append(notes, "harness file left out, it does not fit the current code: "+d)
	}
	nv := 0
	for _, r := range reps {
		var conf []*Violation
		for _, v := range r.Violations {
			if r.h.Native && !*fNoNat && v.Native != "confirmed" {
				r.Unconfirmed = append(r.Unconfirmed, v)
				fmt.Printf("UNCONFIRMED property=%s harness=%s %s (native replay: %s)\n", prop, r.Name, firstLine(v.Key), firstLine(v.Native))
				continue
			}
			conf = append(conf, v)
		}
		r.Violations = conf
		seen := map[string]bool{}
		for _, v := range conf {
			if seen[v.Key] {
				continue
			}
			seen[v.Key] = true
			if k := matchKnown(known, v); k != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
				continue
			}
			nv++
			p := filepath.Join(*fVerif, "evidence", "replay", fmt.Sprintf("%s-%d.json", prop, nv))
			writeJSON(p, v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			fmt.Printf("  harness %s: %s\n", r.Name, strings.ReplaceAll(v.Msg, "\n", "\n    "))
			if v.Native != "" {
				fmt.Printf("  native replay: %s\n", firstLine(v.Native))
			}
			exit = 1
		}
		if len(r.Mismatch) > 0 {
			fmt.Printf("NOTE property=%s harness=%s %d native disagreement(s): %s\n", prop, r.Name, len(r.Mismatch), firstLine(r.Mismatch[0]))
		}
		for _, c := range r.Vacuous {
			fmt.Printf("NOTE property=%s harness=%s cover %q not reached\n", prop, r.Name, c)
		}
		und := map[string]int{}
		for k, n := range r.Unsupported {
			und[firstLine(k)] += n
		}
		for _, k := range sortedKeys(und) {
			fmt.Printf("NOTE property=%s harness=%s not decided (%d): %s\n", prop, r.Name, und[k], k)
		}
		if (r.h.Mode == "dpor" || r.h.Preempt > 0) && r.SchedDecs == 0 && r.Complete > 0 {
			fmt.Printf("NOTE property=%s harness=%s explored no schedule choices\n", prop, r.Name)
		}
		if r.StopReason != "" {
			fmt.Printf("NOTE property=%s harness=%s stopped: %s\n", prop, r.Name, r.StopReason)
		}
	}
	if !*fNoEv {
		notes = append(notes, fmt.Sprintf("load and type-check from source: %.1fs", loadS.Seconds()))
		writeEvidence(prop, tier, seed, reps, fns, time.Since(start), notes)
	}
	var paths, asserts, queries int64
	for _, r := range reps {
		paths += r.Complete
		asserts += r.Asserts
		queries += r.Queries
	}
	fmt.Printf("DONE property=%s tier=%s harnesses=%d paths=%d assertions=%d queries=%d functions=%d wall=%.1fs exit=%d\n", prop, tier, len(reps), paths, asserts, queries, len(fns), time.Since(start).Seconds(), exit)
	return exit
}

func runHarness(ld *Loaded, h *Harness, tier string, seed int64, nw int, fns map[string]bool) *HarnessReport {
	t0 := time.Now()
	ts := h.TimeS
	if *fTime > 0 {
		ts = *fTime
	}
	if *fFull >= 0 {
		h.Mode, h.Preempt = "pb", *fFull
	}
	ex := NewExplorer(ld.P, h, ld.Fns[h], tier, seed, nw, t0.Add(time.Duration(ts)*time.Second))
	timer := time.AfterFunc(time.Duration(ts)*time.Second, func() { ex.stopWithLocked("time budget exhausted") })
	ex.Run()
	timer.Stop()
	r := &HarnessReport{Name: h.Name, Doc: h.Doc, Mode: h.Mode, Bounds: map[string]int64{}, Paths: ex.Paths, Complete: ex.Complete, AssumeEnd: ex.AssumeEnd,
		StopReason: ex.reason, Unsupported: ex.Unsupp, UnknownBr: ex.UnknownBr, Asserts: ex.Asserts, AssertsC: ex.AssertsC, Decisions: ex.Decisions,
		SchedDecs: ex.SchedDecs, SleepEnd: ex.SleepEnd, Steps: ex.Steps, MaxPC: ex.MaxPC, Covers: ex.Covers, AssertKeys: ex.AssertKeys, Approx: ex.Approx, Violations: ex.Violations, samples: ex.samples, h: h}
	for k, v := range h.P {
		r.Bounds[k] = v
	}
	for k, v := range h.Opts {
		r.Bounds[k] = v
	}
	if h.Mode != "seq" {
		r.Bounds["preemptions"] = int64(h.Preempt)
		if h.Mode == "dpor" {
			r.Bounds["preemptions"] = -1
		}
	}
	if *fOut != "" {
		os.WriteFile(*fOut, []byte(strings.Join(sortedKeys(ex.Outcomes), "\n")+"\n"), 0o644)
	}
	for _, w := range ex.workers {
		r.Queries += int64(w.sol.Queries)
		r.Sat += int64(w.sol.NSat)
		r.Unsat += int64(w.sol.NUnsat)
		r.SolverS += w.sol.Time.Seconds()
		r.SolverErrs += int64(len(w.sol.Errors))
		if s := w.sol.MaxQuery.Seconds(); s > r.MaxQueryS {
			r.MaxQueryS = s
		}
		for c := range w.fns {
			fns[c.name] = true
		}
		if len(w.sol.Errors) > 0 {
			r.Unsupported["solver error: "+firstLine(w.sol.Errors[0])]++
		}
	}
	for _, c := range h.Covers {
		if ex.Covers[c] == 0 {
			r.Vacuous = append(r.Vacuous, c)
		}
	}
	r.Exhaustive = ex.reason == "" && len(ex.Unsupp) == 0 && ex.UnknownBr == 0
	r.WallS = time.Since(t0).Seconds()
	return r
}

func (ex *Explorer) stopWithLocked(s string) {
	ex.mu.Lock()
	ex.stopWith(s)
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

func printReport(r *HarnessReport) {
	fmt.Printf("== %s mode=%s %v\n   paths %d complete %d assume-end %d redundant %d exhaustive=%v %s\n   asserts solver=%d const=%d decisions=%d sched=%d steps=%d queries=%d (sat %d unsat %d) solver %.1fs max %.2fs unknown=%d wall %.1fs\n",
		r.Name, r.Mode, r.Bounds, r.Paths, r.Complete, r.AssumeEnd, r.SleepEnd, r.Exhaustive, r.StopReason, r.Asserts, r.AssertsC, r.Decisions, r.SchedDecs, r.Steps, r.Queries, r.Sat, r.Unsat, r.SolverS, r.MaxQueryS, r.UnknownBr, r.WallS)
	fmt.Printf("   covers %v missing %v\n", r.Covers, r.Vacuous)
	for _, k := range sortedKeys(r.AssertKeys) {
		fmt.Printf("   assert %6d %s\n", r.AssertKeys[k], k)
	}
	for _, k := range sortedKeys(r.Unsupported) {
		fmt.Printf("   UNSUPPORTED x%d %s\n", r.Unsupported[k], strings.ReplaceAll(k, "\n", "\n      "))
	}
	if len(r.Approx) > 0 {
		fmt.Printf("   approximations %v\n", r.Approx)
	}
	for _, v := range r.Violations {
		fmt.Printf("   VIO %s\n      inputs %s\n", strings.ReplaceAll(v.Msg, "\n", "\n      "), inputsStr(v.Inputs))
		if len(v.Trace) > 0 {
			fmt.Printf("      trace %s\n", strings.Join(v.Trace, " | "))
		}
		for _, o := range v.Observe {
			fmt.Printf("      obs %s\n", o)
		}
	}
}

func inputsStr(in []NamedVal) string {
	var s []string
	for _, v := range in {
		if v.Kind == "int" {
			s = append(s, fmt.Sprintf("%s=%d", v.Name, int64(v.Val)))
		} else if v.Kind == "byte" && v.Val >= 32 && v.Val < 127 {
			s = append(s, fmt.Sprintf("%s=%q", v.Name, rune(v.Val)))
		} else {
			s = append(s, fmt.Sprintf("%s=%d", v.Name, v.Val))
		}
	}
	return strings.Join(s, " ")
}

type knownFinding struct{ prop, match, text string }

// loadKnown reads "known: property=<id> match=<regexp-free substring> :: <text>" lines.
func loadKnown(path, prop string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+prop+" ")
		i := strings.Index(rest, " :: ")
		if i < 0 || !strings.HasPrefix(rest, "match=") {
			continue
		}
		r = append(r, knownFinding{prop, strings.TrimPrefix(rest[:i], "match="), rest[i+4:]})
	}
	return r
}

func matchKnown(ks []knownFinding, v *Violation) string {
	for _, k := range ks {
		if strings.Contains(v.Harness+" "+v.Key, k.match) {
			return k.text
		}
	}
	return ""
}

func writeEvidence(prop, tier string, seed int64, reps []*HarnessReport, fns map[string]bool, wall time.Duration, notes []string) {
	var states, trans, val, q int64
	var solver float64
	var samples []any
	exh := len(reps) > 0
	viol := 0
	bounds := map[string]any{}
	var assertsS, assertsC int64
	for _, r := range reps {
		states += r.Complete
		trans += r.Decisions
		val += int64(r.Validated)
		q += r.Queries
		solver += r.SolverS
		assertsS += r.Asserts
		assertsC += r.AssertsC
		exh = exh && r.Exhaustive
		viol += len(r.Violations)
		bounds[r.Name] = r.Bounds
		for i, s := range r.samples {
			if i < 2 && s != nil {
				samples = append(samples, map[string]any{"harness": r.Name, "inputs": inputsStr(s.Inputs), "observed": s.Observe, "covers": s.Covers})
			}
		}
	}
	var fl []string
	for f := range fns {
		if !strings.Contains(f, "/zzverif/") {
			fl = append(fl, f)
		}
	}
	sort.Strings(fl)
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples,
		"exhaustive":        exh,
		"explanation":       "states = complete symbolic paths (each stands for every input value satisfying its path condition), transitions = branch/choice/schedule decisions taken by the solver-driven exploration; traces_validated_against_impl = complete paths whose solver model was executed on the natively compiled code with identical observations",
		"functions_encoded": fl, "bounds": bounds,
		"solver":            solverBin, "solver_queries": q, "solver_s": solver,
		"assertions_refuted_by_solver": assertsS, "assertions_constant_on_path": assertsC,
		"harnesses": reps, "notes": notes,
	}
	if samples == nil {
		cov["samples"] = []any{}
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": []string{
			"bounds as listed per harness; behaviour outside them is not covered",
			"go/ssa lowering, the gosym interpreter and its models of sync, time, protobuf clone/equal, fmt and math/rand (validated on this run by native replay of sampled paths)",
			"the solver's verdicts",
		}}
	if err := writeJSON(filepath.Join(*fVerif, "evidence", prop+".json"), ev); err != nil {
		fmt.Println("evidence:", err)
	}
}
