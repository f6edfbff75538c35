package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// quickCap is the time within which a quick check has to answer (its budgets are cut when needed), in seconds.
const quickCap = 600

// harnessDecl is one entry point: a function Cxx_Name of a harness package.
type harnessDecl struct {
	Pkg, Fn string
	Doc     string
	Opts    map[string]string // from "verif:" lines of the comment
}

// findHarnesses lists the entry points whose name starts with prefix.
func findHarnesses(verif, prefix string) ([]harnessDecl, error) {
	var r []harnessDecl
	hs, _ := filepath.Glob(filepath.Join(verif, "harness", "h*"))
	sort.Strings(hs)
	for _, h := range hs {
		for _, f := range goFiles(h) {
			af, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, prefix) {
					continue
				}
				hd := harnessDecl{Pkg: filepath.Base(h), Fn: fd.Name.Name, Opts: map[string]string{}}
				if fd.Doc != nil {
					var doc []string
					for _, c := range fd.Doc.List {
						l := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
						if strings.HasPrefix(l, "verif:") {
							for _, kv := range strings.Fields(strings.TrimPrefix(l, "verif:")) {
								k, v, _ := strings.Cut(kv, "=")
								hd.Opts[k] = v
							}
							continue
						}
						doc = append(doc, l)
					}
					hd.Doc = strings.Join(doc, " ")
				}
				r = append(r, hd)
			}
		}
	}
	return r, nil
}

// finding is an entry of known_findings.json.
type finding struct {
	Status   string `json:"status"` // known, fixed
	Property string `json:"property"`
	Harness  string `json:"harness,omitempty"`
	Label    string `json:"label,omitempty"`
	Where    string `json:"where,omitempty"` // substring of the location: the call site that fails
	Inputs   string `json:"inputs,omitempty"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func (f *finding) match(hd harnessDecl, v Violation) bool {
	if f.Status != "known" || f.Harness != "" && f.Harness != hd.Fn || f.Label != v.Label {
		return false
	}
	if f.Where != "" && !strings.Contains(v.Where+" "+v.Msg, f.Where) {
		return false
	}
	if f.Inputs != "" {
		for _, kv := range strings.Fields(f.Inputs) {
			k, val, _ := strings.Cut(kv, "=")
			n, err := strconv.ParseUint(val, 0, 64)
			if err != nil || v.Inputs[k] != n {
				return false
			}
		}
	}
	return true
}

type harnessReport struct {
	Harness     string         `json:"harness"`
	Bounds      string         `json:"bounds"`
	Decided     bool           `json:"all_paths_within_bounds_decided"`
	Paths       int            `json:"paths"`
	Infeasible  int            `json:"infeasible_paths"`
	Undecided   map[string]int `json:"undecided_paths,omitempty"`
	Decisions   int            `json:"decisions"`
	Asserts     int            `json:"assertion_instances"`
	Discharged  int            `json:"assertions_discharged_by_solver"`
	Trivial     int            `json:"assertions_true_by_term_simplification"`
	Queries     int            `json:"solver_queries"`
	Sat         int            `json:"sat"`
	Unsat       int            `json:"unsat"`
	Unknown     int            `json:"unknown"`
	SolverS     float64        `json:"solver_s"`
	MaxQueryS   float64        `json:"slowest_query_s"`
	WallS       float64        `json:"wall_s"`
	Labels      []string       `json:"assertions_reached"`
	Covers      map[string]int `json:"reachability_witnesses"`
	Merges      int            `json:"joined_calls"`
	Conform     int            `json:"paths_replayed_natively"`
	Mismatch    []string       `json:"native_mismatches,omitempty"`
	Rewrites    int            `json:"term_rewrites"`
	Certified   int            `json:"term_rewrites_proved_by_solver"`
	CertQueries int            `json:"term_rewrite_queries"`
	CrossAgree  int            `json:"second_solver_agrees,omitempty"`
	CrossOther  int            `json:"second_solver_no_answer,omitempty"`
	CrossDiffer int            `json:"second_solver_disagrees,omitempty"`
	Races       int            `json:"-"`
}

type nativeCase struct {
	Fn     string            `json:"fn"`
	Inputs map[string]uint64 `json:"inputs"`
}

type nativeResult struct {
	Failed []string `json:"failed"`
	Panic  string   `json:"panic"`
	Obs    []string `json:"obs"`
	Covers []string `json:"covers"`
	End    bool     `json:"end"`
}

func main() {
	id := flag.String("id", "", "property id, or a prefix of harness names")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	seed := flag.Int("seed", 1, "")
	only := flag.String("harness", "", "only this harness")
	verbose := flag.Bool("v", false, "")
	solver := flag.String("solver", "z3-new", "z3-new, z3 or cvc5")
	nworkers := flag.Int("j", runtime.NumCPU(), "")
	noNative := flag.Bool("nonative", false, "")
	noMerge := flag.Bool("nomerge", false, "")
	prof := flag.String("prof", "", "")
	replay := flag.String("replay", "", "replay this violation file against the compiled code")
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(maxMemory / 8 * 7)
	if *replay != "" {
		os.Exit(runReplay(*replay, *repo, *verif))
	}
	stop := func() {}
	if *prof != "" {
		stop = startProf(*prof)
	}
	code := run(*id, *tier, *repo, *verif, *seed, *only, *verbose, *solver, *nworkers, *noNative, *noMerge)
	stop()
	os.Exit(code)
}

// runReplay runs the inputs of a violation file against the compiled code only.
func runReplay(path, repo, verif string) int {
	var r struct {
		Property, Harness, Package, Label string
		Inputs                            map[string]uint64
		History                           []map[string]uint64
		Thorough                          bool
	}
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	hs, err := findHarnesses(verif, r.Harness)
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	var sel []harnessDecl
	for _, h := range hs {
		if h.Fn == r.Harness && h.Pkg == r.Package {
			sel = append(sel, h)
		}
	}
	if len(sel) == 0 {
		fmt.Println("ERROR no harness", r.Harness)
		return 2
	}
	w, err := newWorkspace(repo, verif)
	if w != nil {
		defer w.close()
	}
	var bin string
	if err == nil {
		bin, err = w.buildReplay([]string{r.Package}, sel, false)
	}
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	ok, how := w.confirm(bin, []string{r.Package}, sel, sel[0], Violation{Label: r.Label, Inputs: r.Inputs, Warm: r.History}, r.Thorough)
	fmt.Println(r.Harness, r.Label, r.Inputs, "->", how)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
		return 1
	}
	return 0
}

func run(id, tier, repo, verif string, seed int, only string, verbose bool, solver string, nworkers int, noNative, noMerge bool) int {
	t0 := time.Now()
	thorough := tier == "thorough"
	hs, err := findHarnesses(verif, id+"_")
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	if only != "" {
		var r []harnessDecl
		for _, h := range hs {
			if h.Fn == only {
				r = append(r, h)
			}
		}
		hs = r
	}
	if !thorough {
		var r []harnessDecl
		for _, h := range hs {
			if _, ok := h.Opts["thoroughonly"]; !ok || only != "" {
				r = append(r, h)
			}
		}
		hs = r
	}
	if len(hs) == 0 {
		fmt.Println("ERROR no harness for", id)
		return 2
	}
	pk := map[string]bool{}
	var names []string
	for _, h := range hs {
		if !pk[h.Pkg] {
			pk[h.Pkg] = true
			names = append(names, h.Pkg)
		}
	}
	sort.Strings(names)
	w, err := newWorkspace(repo, verif)
	if w != nil {
		defer w.close()
	}
	if err != nil {
		fmt.Println("ERROR preparing:", err)
		return 2
	}
	// native replay binary, built while the program is loaded
	var bin string
	var binErr error
	var bwg sync.WaitGroup
	bwg.Add(1)
	go func() {
		defer bwg.Done()
		if !noNative {
			bin, binErr = w.buildReplay(names, hs, false)
		}
	}()
	e, err := load(w, names)
	if err != nil {
		bwg.Wait()
		fmt.Println("ERROR loading:", err)
		return 2
	}
	e.thorough, e.verbose, e.solver = thorough, verbose, solver
	e.merge = !noMerge
	loadS := time.Since(t0).Seconds()
	bwg.Wait()
	if binErr != nil {
		fmt.Println("ERROR building the native replay:", binErr)
		return 2
	}
	if verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs, native build %.1fs\n", loadS, time.Since(t0).Seconds())
	}
	var known []finding
	if b, err := os.ReadFile(filepath.Join(verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &known); err != nil {
			fmt.Println("ERROR known_findings.json:", err)
			return 2
		}
	}
	e.workers = make([]*Interp, nworkers)
	var wg sync.WaitGroup
	initErr := make([]string, nworkers)
	for i := range e.workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					if u, ok := p.(unsupportedErr); ok {
						p = u.what
					}
					initErr[i] = fmt.Sprint(p)
					if verbose {
						initErr[i] += string(debug.Stack())
					}
				}
			}()
			e.workers[i] = newInterp(e)
		}()
	}
	wg.Wait()
	for _, s := range initErr {
		if s != "" {
			fmt.Println("ERROR initialising packages:", s)
			return 2
		}
	}
	e.maxSamples = 160
	e.certTime = 2 * time.Second
	if thorough {
		e.certTime = 30 * time.Second
		e.maxSamples = 1000
	}

	funcs := map[string]int{}
	var reports []harnessReport
	var samples []interface{}
	var tot harnessReport
	nviol, nknown := 0, 0
	knownSeen := map[string]bool{}
	decidedSomething := false
	exit := 0
	for _, hd := range hs {
		fn := e.harness(hd.Pkg, hd.Fn)
		if fn == nil {
			fmt.Println("ERROR no function", hd.Fn)
			return 2
		}
		budget := optF(hd.Opts, "budget", 60)
		if thorough {
			budget = optF(hd.Opts, "tbudget", budget*10)
		}
		if !thorough { // the whole check answers within its time, whatever single harnesses are given
			if left := quickCap - time.Since(t0).Seconds(); budget > left {
				budget = math.Max(left, 5)
			}
		}
		e.keepLogic = thorough
		e.merge = !noMerge
		if _, ok := hd.Opts["nomerge"]; ok {
			e.merge = false
		}
		_, e.mapOrder = hd.Opts["maporder"]
		e.stepLimit = int(optF(hd.Opts, "steps", 40e6))
		e.maxWorkers = int(optF(hd.Opts, "workers", 0))
		e.maxConc = int(optF(hd.Opts, "maxconc", 300))
		res := e.Explore(fn, time.Duration(budget*float64(time.Second)))
		var warm *Result
		if res.Dirty > 0 && len(res.Violations) == 0 {
			for _, c := range res.Warm {
				e.warm = append(e.warm, c.inputs)
			}
			warm = e.Explore(fn, time.Duration(budget*float64(time.Second)))
			e.warm = nil
			for _, in := range e.workers {
				in.reset()
			}
			res.add(warm)
			if verbose {
				fmt.Fprintf(os.Stderr, "  %d paths leave something behind; explored after %d of %v\n", res.Dirty, len(warm.Warmed), res.Warm)
			}
		}
		for f, n := range res.Funcs {
			funcs[f] += n
		}
		rep := harnessReport{Harness: hd.Fn, Bounds: hd.Doc, Paths: res.Paths, Infeasible: res.Infeasible, Undecided: res.Undecided,
			Decisions: res.Decisions, Asserts: res.Asserts, Discharged: res.Discharged, Trivial: res.Trivial, Queries: res.Queries,
			Sat: res.NSat, Unsat: res.NUnsat, Unknown: res.NUnk, SolverS: round(res.SolveTime.Seconds()), MaxQueryS: round(res.MaxQuery.Seconds()),
			WallS: round(res.Wall.Seconds()), Labels: sortedKeys(res.Labels), Covers: res.Covers, Merges: res.Merges}
		if !res.Complete {
			rep.Undecided["time budget used up before all paths were explored"]++
		}
		if len(res.Violations) == 0 && res.Complete {
			for _, c := range e.witnesses(fn) {
				if res.Covers[c] == 0 {
					rep.Undecided["vacuous: no path reaches the witness "+strconv.Quote(c)]++
				}
			}
		}
		rep.Decided = len(rep.Undecided) == 0 && len(res.SolverErrs) == 0
		rep.Rewrites, rep.Certified, rep.CertQueries = res.Rewrites, res.Certified, res.CertQ
		rep.SolverS = round(res.SolveTime.Seconds() + res.CertTime.Seconds())
		if len(res.BadRewrite) > 0 {
			rep.Decided = false
			rep.Undecided["solver refutes a rewrite of the engine: "+res.BadRewrite[0]] = len(res.BadRewrite)
		}
		for _, s := range res.SolverErrs {
			rep.Undecided["solver: "+s]++
		}
		if res.Asserts > 0 || res.Paths > 0 {
			decidedSomething = true
		}
		// violations, replayed against the real code
		sort.SliceStable(res.Violations, func(i, j int) bool { return res.Violations[i].Label < res.Violations[j].Label })
		reported := map[string]bool{}
		for _, v := range res.Violations {
			var kf *finding
			for i := range known {
				if known[i].Property == id && known[i].match(hd, v) {
					kf = &known[i]
					break
				}
			}
			if kf != nil {
				if !knownSeen[kf.What] {
					knownSeen[kf.What] = true
					nknown++
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kf.What)
				}
				continue
			}
			if reported[v.Label] {
				continue
			}
			ok, how := true, "not replayed"
			if !noNative {
				ok, how = w.confirm(bin, names, hs, hd, v, thorough)
			}
			if !ok {
				rep.Mismatch = append(rep.Mismatch, fmt.Sprintf("counterexample to %q does not reproduce natively (%s): %s at %s, inputs %v", v.Label, how, v.Msg, v.Where, v.Inputs))
				fmt.Printf("UNCONFIRMED property=%s harness=%s label=%q %s at %s (%s) inputs=%v\n", id, hd.Fn, v.Label, v.Msg, v.Where, how, v.Inputs)
				continue
			}
			reported[v.Label] = true
			path := filepath.Join(verif, "evidence", fmt.Sprintf("%s.%s.%s.json", id, hd.Fn, slug(v.Label)))
			writeJSON(path, map[string]interface{}{"property": id, "harness": hd.Fn, "package": hd.Pkg, "label": v.Label, "message": v.Msg, "where": v.Where,
				"inputs": v.Inputs, "history": v.Warm, "native": how, "thorough": thorough,
				"replay": fmt.Sprintf("bash %s/check.sh %s -replay %s", verif, id, path)})
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  %s: %q %s\n  at %s\n  inputs %v\n  native: %s\n", hd.Fn, v.Label, v.Msg, v.Where, v.Inputs, how)
			nviol++
			exit = 1
		}
		// sampled paths, replayed natively: observations must agree
		if !noNative && len(res.Samples) > 0 {
			n, bad := w.conform(bin, hd, res.Samples, thorough, res.Dirty > 0, nil)
			if warm != nil {
				n2, bad2 := w.conform(bin, hd, warm.Samples, thorough, true, warm.Warmed)
				n, bad = n+n2, append(bad, bad2...)
			}
			rep.Conform = n
			rep.Mismatch = append(rep.Mismatch, bad...)
			for i, s := range bad {
				if i < 3 {
					fmt.Printf("NATIVE-MISMATCH property=%s harness=%s %s\n", id, hd.Fn, s)
				}
			}
		}
		for i, s := range res.Samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]interface{}{"harness": hd.Fn, "inputs": s.Inputs, "observed": s.Obs, "covers": s.Covers})
		}
		if thorough && len(res.Logic) > 0 {
			rep.CrossAgree, rep.CrossOther, rep.CrossDiffer = crossCheck(res.Logic, w.dir)
			if rep.CrossDiffer > 0 {
				rep.Decided = false
				rep.Undecided["second solver disagrees"] = rep.CrossDiffer
			}
		}
		reports = append(reports, rep)
		tot.Paths += rep.Paths
		tot.Decisions += rep.Decisions
		tot.Queries += rep.Queries
		tot.Rewrites += rep.Rewrites
		tot.Certified += rep.Certified
		tot.CertQueries += rep.CertQueries
		tot.SolverS += rep.SolverS
		tot.Asserts += rep.Asserts
		tot.Discharged += rep.Discharged
		tot.Conform += rep.Conform
		state := "decided"
		if !rep.Decided {
			state = fmt.Sprintf("PARTIAL %v", rep.Undecided)
		}
		fmt.Printf("%s %s: %d paths, %d assertion instances, %d queries (%.1fs solver), %.1fs, native %d: %s\n", id, hd.Fn, rep.Paths, rep.Asserts, rep.Queries, rep.SolverS, rep.WallS, rep.Conform, state)
		if verbose {
			fmt.Fprintf(os.Stderr, "  labels %v covers %v merges %d trivial %d discharged %d maxq %.2f steps %d rewrites %d proved %d (%d queries, %.1fs)\n", rep.Labels, rep.Covers, rep.Merges, rep.Trivial, rep.Discharged, rep.MaxQueryS, res.Steps, rep.Rewrites, rep.Certified, rep.CertQueries, res.CertTime.Seconds())
		}
	}
	for _, in := range e.workers {
		in.sol.Close()
	}
	if samples == nil {
		samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states":                        tot.Paths,
			"transitions":                   tot.Decisions,
			"traces_validated_against_impl": tot.Conform,
			"samples":                       samples,
			"rule":                          "a state is one symbolic path (a set of inputs driving the code the same way) explored to its end; a transition is one branch, split or schedule decision on the way; a trace validated is a path whose model was run through the natively compiled code with equal observations",
			"obligations":                   tot.Asserts,
			"discharged":                    tot.Discharged,
			"queries":                       tot.Queries + tot.CertQueries,
			"term_rewrites":                 tot.Rewrites,
			"term_rewrites_proved":          tot.Certified,
			"solver":                        solver,
			"solver_s":                      round(tot.SolverS),
			"functions_encoded":             sortedKeys(funcs),
			"harnesses":                     reports,
			"known_findings_reported":       nknown,
		},
		"assumptions": []string{
			"bounds are those stated per harness; nothing is claimed outside them",
			"the Go compiler and runtime agree with go/ssa semantics as interpreted here (sampled paths are replayed natively)",
			"github.com/amarin/logging and github.com/amarin/libxml, which cannot be fetched here, are stood in for by /verif/shim",
			"os, net/http, compress/bzip2 and readline are stood in for by in-memory packages under /verif/harness/v",
		},
		"wall_s":     round(time.Since(t0).Seconds()),
		"violations": nviol,
	}
	if only == "" {
		writeJSON(filepath.Join(verif, "evidence", id+".json"), ev)
	}
	if exit == 0 && !decidedSomething {
		fmt.Println("ERROR nothing was decided")
		return 2
	}
	return exit
}

func optF(m map[string]string, k string, d float64) float64 {
	if s, ok := m[k]; ok {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			return f
		}
	}
	return d
}

func round(f float64) float64 { return float64(int(f*1000)) / 1000 }

var slugRE = regexp.MustCompile(`[^A-Za-z0-9]+`)

func slug(s string) string { return strings.Trim(slugRE.ReplaceAllString(s, "-"), "-") }

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		_ = os.MkdirAll(filepath.Dir(path), 0o755)
		err = os.WriteFile(path, append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Println("ERROR writing", path, err)
	}
}

// ---- native replay ----

// buildReplay compiles the same harnesses with the Go compiler into a program that runs given inputs.
func (w *workspace) buildReplay(names []string, hs []harnessDecl, race bool) (string, error) {
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + envMod + "/sym\"\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q\n", gomod+"/"+harnessDir+"/"+n)
	}
	sb.WriteString(")\n\nfunc main() {\n\tsym.Main(map[string]func(){\n")
	for _, h := range hs {
		fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", h.Fn, h.Pkg, h.Fn)
	}
	sb.WriteString("\t})\n}\n")
	tag := "replay"
	if race {
		tag = "replayrace"
	}
	src := filepath.Join(w.dir, tag+"_main.go")
	if err := os.WriteFile(src, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	ov := map[string]string{}
	for k, v := range w.overlay {
		ov[k] = v
	}
	ov[filepath.Join(w.repo, harnessDir, "zz"+tag, "main.go")] = src
	js, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(w.dir, tag+"_overlay.json")
	if err := os.WriteFile(ovf, js, 0o644); err != nil {
		return "", err
	}
	// a module file of its own: -mod=mod may rewrite it
	mf := filepath.Join(w.dir, tag+".mod")
	b, _ := os.ReadFile(w.modfile)
	_ = os.WriteFile(mf, b, 0o644)
	b, _ = os.ReadFile(filepath.Join(w.dir, "go.sum"))
	_ = os.WriteFile(filepath.Join(w.dir, tag+".sum"), b, 0o644)
	bin := filepath.Join(w.dir, tag)
	args := []string{"build", "-overlay", ovf, "-modfile", mf, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "./"+harnessDir+"/zz"+tag)...)
	cmd.Dir = w.repo
	cmd.Env = goEnv()
	if !race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=0")
	} else {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

// native runs cases; results are in order, missing ones after a crash.
func (w *workspace) native(bin string, cases []nativeCase, thorough bool, timeout time.Duration, env ...string) ([]nativeResult, string, error) {
	f, err := os.CreateTemp(w.dir, "cases")
	if err != nil {
		return nil, "", err
	}
	js, _ := json.Marshal(map[string]interface{}{"thorough": thorough, "cases": cases})
	_, _ = f.Write(js)
	f.Close()
	outf := f.Name() + ".out"
	cmd := exec.Command("/bin/sh", "-c", "ulimit -v 24000000 2>/dev/null; exec \"$0\" \"$@\"", bin, f.Name(), outf)
	if strings.HasSuffix(bin, "race") {
		cmd = exec.Command(bin, f.Name(), outf)
	}
	cmd.Dir = "/" // as in the stand-in for os
	cmd.Env = append(append(os.Environ(), "GOMEMLIMIT=20GiB"), env...)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(timeout):
		_ = cmd.Process.Kill()
		<-done
		err = fmt.Errorf("timeout")
	}
	b, _ := os.ReadFile(outf)
	var rs []nativeResult
	for _, l := range bytes.Split(b, []byte("\n")) {
		var r nativeResult
		if len(l) > 0 && json.Unmarshal(l, &r) == nil {
			rs = append(rs, r)
		}
	}
	s := buf.String()
	if len(s) > 4000 {
		s = s[:4000]
	}
	return rs, s, err
}

// confirm replays a counterexample against the compiled code.
func (w *workspace) confirm(bin string, names []string, hs []harnessDecl, hd harnessDecl, v Violation, thorough bool) (bool, string) {
	var c []nativeCase
	for _, h := range v.Warm {
		c = append(c, nativeCase{hd.Fn, h})
	}
	c = append(c, nativeCase{hd.Fn, v.Inputs})
	judge := func(rs []nativeResult, out string, err error) (bool, string) {
		for _, r := range rs {
			switch {
			case !r.End:
			case r.Panic != "":
				return true, "panic: " + r.Panic
			case len(r.Failed) > 0:
				return true, "failed: " + strings.Join(r.Failed, "; ")
			}
		}
		if strings.Contains(out, "WARNING: DATA RACE") {
			return true, "race detector: data race"
		}
		if err != nil && err.Error() == "timeout" {
			return v.Label == "deadlock" || v.Label == "terminates", "does not end (timeout)"
		}
		if err != nil {
			i := strings.Index(out, "fatal error")
			if i < 0 {
				i = strings.Index(out, "panic:")
			}
			if i >= 0 {
				l, _, _ := strings.Cut(out[i:], "\n")
				return true, "crash: " + l
			}
			return false, "native run ended with " + err.Error() + ": " + out
		}
		return false, "native run passed"
	}
	rs, out, err := w.native(bin, c, thorough, 20*time.Second)
	ok, how := judge(rs, out, err)
	if ok {
		return ok, how
	}
	if _, order := hd.Opts["maporder"]; order {
		many := make([]nativeCase, 300)
		for i := range many {
			many[i] = c[0]
		}
		rs, _, _ := w.native(bin, many, thorough, 90*time.Second)
		for _, r := range rs {
			if r.Panic != "" || len(r.Failed) > 0 {
				return true, "under some order of a map: " + r.Panic + strings.Join(r.Failed, "; ")
			}
		}
		how += fmt.Sprintf("; %d repetitions passed", len(rs))
	}
	if _, conc := hd.Opts["concurrent"]; conc || v.Label == "data race" || v.Label == "deadlock" {
		rb, err := w.buildReplay(names, hs, true)
		if err != nil {
			return false, "race build: " + err.Error()
		}
		many := make([]nativeCase, 300)
		for i := range many {
			many[i] = c[0]
		}
		rs, out, err := w.native(rb, many, thorough, 90*time.Second, "GORACE=halt_on_error=1")
		for _, r := range rs {
			if r.Panic != "" || len(r.Failed) > 0 {
				return true, "under some schedule: " + r.Panic + strings.Join(r.Failed, "; ")
			}
		}
		if ok, h := judge(nil, out, err); ok {
			return ok, h
		}
		how += fmt.Sprintf("; %d repetitions under the race detector passed", len(rs))
	}
	return false, how
}

// conform runs sampled paths natively and compares observations.
//
// Where paths leave something behind, each sample has a process of its own, beginning with the history.
func (w *workspace) conform(bin string, hd harnessDecl, ss []sample, thorough, alone bool, history []map[string]uint64) (int, []string) {
	if _, ok := hd.Opts["noconform"]; ok {
		return 0, nil
	}
	if alone {
		return w.conformAlone(bin, hd, ss, thorough, history)
	}
	cs := make([]nativeCase, len(ss))
	for i, s := range ss {
		cs[i] = nativeCase{hd.Fn, s.Inputs}
	}
	rs, out, err := w.native(bin, cs, thorough, 120*time.Second)
	return compare(ss, rs, out, err)
}

func (w *workspace) conformAlone(bin string, hd harnessDecl, ss []sample, thorough bool, history []map[string]uint64) (n int, bad []string) {
	if len(ss) > 40 {
		ss = ss[:40]
	}
	var cs []nativeCase
	for _, h := range history {
		cs = append(cs, nativeCase{hd.Fn, h})
	}
	for _, s := range ss {
		rs, out, err := w.native(bin, append(cs[:len(cs):len(cs)], nativeCase{hd.Fn, s.Inputs}), thorough, 120*time.Second)
		if len(rs) > 0 && len(rs) <= len(cs) {
			rs = nil // ended before
		} else if len(rs) > 0 {
			rs = rs[len(cs):]
		}
		k, b := compare([]sample{s}, rs, out, err)
		n, bad = n+k, append(bad, b...)
	}
	return n, bad
}

func compare(ss []sample, rs []nativeResult, out string, err error) (int, []string) {
	n := 0
	var bad []string
	for i, s := range ss {
		if i >= len(rs) {
			bad = append(bad, fmt.Sprintf("native run stopped at sample %d: %v %s inputs %v", i, err, out, s.Inputs))
			break
		}
		r := rs[i]
		if r.Panic != "" || len(r.Failed) > 0 {
			bad = append(bad, fmt.Sprintf("native run failed (%s %v) where the encoding holds: inputs %v", r.Panic, r.Failed, s.Inputs))
			continue
		}
		if strings.Join(r.Obs, "\n") != strings.Join(s.Obs, "\n") {
			bad = append(bad, fmt.Sprintf("observations differ: native %q, encoding %q, inputs %v", r.Obs, s.Obs, s.Inputs))
			continue
		}
		if strings.Join(r.Covers, ",") != strings.Join(s.Covers, ",") {
			bad = append(bad, fmt.Sprintf("covers differ: native %v, encoding %v, inputs %v", r.Covers, s.Covers, s.Inputs))
			continue
		}
		n++
	}
	return n, bad
}

// crossCheck puts sampled obligations to a second solver.
func crossCheck(qs []string, dir string) (agree, other, differ int) {
	sem := make(chan bool, runtime.NumCPU())
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i, q := range qs {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			f := filepath.Join(dir, fmt.Sprintf("q%d.smt2", i))
			_ = os.WriteFile(f, []byte(q), 0o644)
			out, _ := exec.Command("cvc5", "--tlimit=20000", f).CombinedOutput()
			os.Remove(f)
			mu.Lock()
			defer mu.Unlock()
			switch strings.TrimSpace(string(out)) {
			case "unsat":
				agree++
			case "sat":
				differ++
			default:
				other++
			}
		}()
	}
	wg.Wait()
	return
}
