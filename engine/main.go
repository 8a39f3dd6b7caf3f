package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	harnessMod = "verifharness"
	harnessPkg = harnessMod + "/h"
	symPkg     = harnessMod + "/sym"
	repoMod    = "github.com/jtcaraball/goexpdt"
)

type ReplayInput struct {
	Name string  `json:"n"`
	Vals []int64 `json:"v"`
}

type ReplayCase struct {
	Harness  string        `json:"harness"`
	Thorough bool          `json:"thorough"`
	Inputs   []ReplayInput `json:"inputs"`
	Obs      []string      `json:"-"`
}

type ReplayResult struct {
	Status string   `json:"status"` // ok, fail, panic, diverged, timeout, killed
	Label  string   `json:"label"`
	Detail string   `json:"detail"`
	Obs    []string `json:"obs"`
}

func (e *Engine) isMine(path string) bool {
	return path == repoMod || strings.HasPrefix(path, repoMod+"/") || strings.HasPrefix(path, harnessMod+"/")
}

func main() {
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("harness", "", "regexp of harness names")
	workers := flag.Int("workers", 0, "parallel workers")
	verbose := flag.Bool("v", false, "verbose")
	budget := flag.Int("budget", 0, "seconds")
	list := flag.Bool("list", false, "list harnesses")
	root := flag.String("root", "/verif", "root of the machinery")
	prof := flag.String("prof", "", "file for a CPU profile")
	flag.Parse()
	if *workers == 0 {
		*workers = runtime.NumCPU()
		if *workers > 8 {
			*workers = 8
		}
	}
	if *prof != "" {
		f, err := os.Create(*prof)
		if err != nil {
			panic(err)
		}
		pprof.StartCPUProfile(f)
	}
	code := runCheck(*root, *prop, *tier, *only, *workers, *budget, *verbose, *list)
	pprof.StopCPUProfile()
	os.Exit(code)
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

func load(root string) (*Program, []*ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: filepath.Join(root, "harness"), Env: goEnv()}
	ps, err := packages.Load(cfg, harnessPkg)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, repo: repoMod, sizes: types.SizesFor("gc", "amd64")}
	// Initialisation order: dependencies first.
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if seen[t] {
			return
		}
		seen[t] = true
		imps := append([]*types.Package(nil), t.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			visit(i)
		}
		path := t.Path()
		if path == repoMod || strings.HasPrefix(path, repoMod+"/") || strings.HasPrefix(path, harnessMod+"/") {
			if sp := prog.Package(t); sp != nil {
				order = append(order, sp)
			}
		}
	}
	visit(pkgs[0].Pkg)
	return p, order, nil
}

type replayer struct {
	bin  string
	root string
}

func buildReplay(root string) (*replayer, error) {
	dir, err := os.MkdirTemp("", "symgo-replay")
	if err != nil {
		return nil, err
	}
	bin := filepath.Join(dir, "replay")
	cmd := exec.Command("go", "build", "-o", bin, "./cmd/replay")
	cmd.Dir = filepath.Join(root, "harness")
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("building the replay binary: %v\n%s", err, out)
	}
	return &replayer{bin: bin, root: root}, nil
}

func (r *replayer) close() { os.RemoveAll(filepath.Dir(r.bin)) }

// run replays cases natively, each in order; a crash ends the batch.
func (r *replayer) run(cases []*ReplayCase, perCase time.Duration) ([]ReplayResult, error) {
	var in bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, c := range cases {
		enc.Encode(c)
	}
	scratch, err := os.MkdirTemp("", "symgo-scratch")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(scratch)
	cmd := exec.Command(r.bin, strconv.Itoa(int(perCase/time.Millisecond)), scratch)
	cmd.Stdin = &in
	var out, stderr bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &stderr
	runErr := cmd.Run()
	var res []ReplayResult
	sc := bufio.NewScanner(&out)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		l := sc.Bytes()
		if len(l) == 0 || l[0] != '{' {
			continue
		}
		var x ReplayResult
		if err := json.Unmarshal(l, &x); err != nil {
			continue
		}
		res = append(res, x)
	}
	if runErr != nil && len(res) < len(cases) {
		d := stderr.String()
		if len(d) > 400 {
			d = d[:400]
		}
		res = append(res, ReplayResult{Status: "crash", Detail: d})
	}
	return res, nil
}

func (e *Engine) fmtObs(w *Worker, o obsRec, memo map[*Expr]uint64) string {
	m := w.path.model
	var f func(v value) string
	f = func(v value) string {
		switch v := v.(type) {
		case int64, *Expr, bool:
			return strconv.FormatInt(w.evalInt(v, m, memo), 10)
		case string:
			return strconv.Quote(v)
		case *symstr:
			b := make([]byte, len(v.b))
			for i, x := range v.b {
				b[i] = byte(w.evalInt(x, m, memo))
			}
			return strconv.Quote(string(b))
		case slicev:
			var s []string
			for _, x := range v {
				s = append(s, f(x))
			}
			return "[" + strings.Join(s, " ") + "]"
		}
		return fmt.Sprintf("%T", v)
	}
	return o.name + "=" + f(o.v)
}

// sampleTrace keeps some completed paths for the comparison with the native
// execution.
func (e *Engine) sampleTrace(w *Worker, n int) {
	p := w.path
	h := p.h
	h.mu.Lock()
	hp := h.paths
	h.mu.Unlock()
	e.mu.Lock()
	e.rng = e.rng*6364136223846793005 + 1442695040888963407
	take := hp <= 6 || (e.rng>>33)%uint64(hp) < 4 && hp < 20000
	if len(e.traces) > 400 {
		take = false
	}
	e.mu.Unlock()
	if !take {
		return
	}
	c := &ReplayCase{Harness: h.name, Thorough: e.thorough, Inputs: w.inputsUnder(p.model)}
	memo := map[*Expr]uint64{}
	for _, o := range p.obs {
		c.Obs = append(c.Obs, e.fmtObs(w, o, memo))
	}
	e.mu.Lock()
	e.traces = append(e.traces, c)
	e.mu.Unlock()
}

var harnessRe = regexp.MustCompile(`^(C\d\d)_`)

func collectCovers(fn *ssa.Function, out map[string]bool) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if f := c.Call.StaticCallee(); f != nil && f.String() == symPkg+".Cover" {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						out[constValue(k).(string)] = true
					}
				}
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		collectCovers(a, out)
	}
}

func runCheck(root, prop, tier, only string, workers, budget int, verbose, list bool) int {
	t0 := time.Now()
	seed := 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.Atoi(s)
	}
	thorough := tier == "thorough"
	if budget == 0 {
		budget = 420
		if thorough {
			budget = 3000
		}
	}
	p, order, err := load(root)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	tLoad := time.Since(t0)
	hp := p.prog.ImportedPackage(harnessPkg)
	var hs []*Harness
	re := regexp.MustCompile(only)
	for name, m := range hp.Members {
		fn, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		mm := harnessRe.FindStringSubmatch(name)
		if mm == nil || prop != "" && mm[1] != prop || !re.MatchString(name) {
			continue
		}
		h := &Harness{name: name, fn: fn, property: mm[1], covers: map[string]int{}, wantCov: map[string]bool{}, bounds: map[string]int{}}
		collectCovers(fn, h.wantCov)
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	if list {
		for _, h := range hs {
			fmt.Println(h.name)
		}
		return 0
	}
	if len(hs) == 0 {
		fmt.Println("ERROR: no harness for", prop)
		return 2
	}
	rep, err := buildReplay(root)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	defer rep.close()
	z3 := "z3-new"
	if _, err := exec.LookPath(z3); err != nil {
		z3 = "z3"
	}
	known := loadKnown(filepath.Join(root, "KNOWN_FINDINGS.txt"), prop)
	e := &Engine{p: p, property: prop, thorough: thorough, workers: workers, z3: []string{z3, "-in", "-smt2"}, qtimeout: 120000, known: map[string]int{}, funcs: map[string]bool{}, initOrd: order, rng: uint64(seed)*7919 + 13, verbose: verbose}
	e.deadline = t0.Add(time.Duration(budget) * time.Second)
	rt := p.prog.ImportedPackage("runtime")
	if rt != nil {
		if o := rt.Pkg.Scope().Lookup("plainError"); o != nil {
			e.rtErr = o.Type()
		}
	}
	if e.rtErr == nil {
		e.rtErr = types.NewNamed(types.NewTypeName(token.NoPos, nil, "runtimeError", nil), types.Typ[types.String], nil)
	}
	replayed := 0
	var found []string
	e.onViol = func(v *Violation) (bool, bool, error) {
		// Replay natively before believing anything.
		c := &ReplayCase{Harness: v.Harness, Thorough: thorough, Inputs: v.Inputs}
		to := 20 * time.Second
		res, err := rep.run([]*ReplayCase{c}, to)
		if err != nil {
			return false, false, err
		}
		replayed++
		st := ReplayResult{Status: "none"}
		if len(res) > 0 {
			st = res[0]
		}
		ok := false
		switch v.Kind {
		case "steps":
			ok = st.Status == "timeout" || st.Status == "crash" || st.Status == "fail" || st.Status == "panic"
		case "stackoverflow":
			ok = st.Status == "crash" || st.Status == "timeout" || st.Status == "panic"
		case "panic":
			ok = st.Status == "panic" || st.Status == "crash" || st.Status == "fail"
		default:
			ok = st.Status == "fail" || st.Status == "panic" || st.Status == "crash"
		}
		if !ok && v.Kind == "steps" && st.Status == "ok" {
			// It does end; the path is too long to follow.
			e.nUndecided++
			return true, true, nil
		}
		if !ok {
			return false, false, fmt.Errorf("counterexample does not replay: %s (%s): native %s %s %s inputs %v", v.Sig, v.Kind, st.Status, st.Label, st.Detail, inputStr(v.Inputs))
		}
		v.Detail = st.Status + ": " + st.Label + " " + st.Detail
		if d, is := known[v.Sig]; is {
			if e.known[v.Sig] == 0 {
				found = append(found, d)
			}
			return true, true, nil
		}
		return true, false, nil
	}
	e.run(hs)
	tRun := time.Since(t0)
	for _, h := range hs {
		e.stats.Asserts += 0
		if verbose {
			fmt.Printf("  %-40s paths %6d  decisions %8d  equivs %6d  steps %d covers %v bounds %v\n", h.name, h.paths, h.decs, h.equivs, h.steps, h.covers, h.bounds)
		}
	}
	if e.err == nil && e.viol == nil && len(e.noReplay) > 0 {
		e.err = e.noReplay[0]
	}
	if e.err != nil {
		fmt.Println("ERROR:", e.err)
		if e.errStack != "" {
			fmt.Println(e.errStack)
		}
		return 2
	}
	sort.Strings(found)
	for _, d := range found {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, d)
	}
	// Compare sampled paths with the native execution.
	validated := 0
	if e.viol == nil && len(e.traces) > 0 {
		res, err := rep.run(e.traces, 20*time.Second)
		if err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
		for i, c := range e.traces {
			if i >= len(res) {
				fmt.Printf("ERROR: no native result for a sampled path of %s\n", c.Harness)
				return 2
			}
			r := res[i]
			if r.Status == "timeout" {
				// The native stand-in for an ideal solver may be too slow.
				continue
			}
			// A path that goes on after a known finding fails natively there.
			if r.Status != "ok" && r.Status != "fail" || r.Status == "fail" && len(e.known) == 0 {
				fmt.Printf("ERROR: sampled path of %s: native execution differs: %s %s %s inputs %v\n", c.Harness, r.Status, r.Label, r.Detail, inputStr(c.Inputs))
				return 2
			}
			if r.Status == "ok" {
				if strings.Join(r.Obs, "\n") != strings.Join(c.Obs, "\n") {
					k := 0
					for k < len(r.Obs) && k < len(c.Obs) && r.Obs[k] == c.Obs[k] {
						k++
					}
					a, b := "", ""
					if k < len(r.Obs) {
						a = r.Obs[k]
					}
					if k < len(c.Obs) {
						b = c.Obs[k]
					}
					fmt.Printf("ERROR: sampled path of %s: observations differ:\n native %s\n engine %s\n inputs %v\n", c.Harness, a, b, inputStr(c.Inputs))
					return 2
				}
				validated++
			}
		}
	}
	code := 0
	nv := 0
	if e.viol != nil {
		v := e.viol
		dir := filepath.Join(root, "replays")
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, v.Harness+".json")
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "signature": v.Sig, "native": v.Detail, "case": &ReplayCase{Harness: v.Harness, Thorough: thorough, Inputs: v.Inputs}}, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Printf("counterexample: %s\n  native: %s\n  inputs: %s\n", v.Sig, v.Detail, inputStr(v.Inputs))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		code = 1
		nv = 1
	} else if !e.timedOut && e.nUndecided == 0 {
		for _, h := range hs {
			if h.paths == 0 {
				fmt.Println("ERROR: harness not run:", h.name)
				return 2
			}
			// A situation may not arise in the code as it is now written, but
			// a harness that meets none of its situations decides nothing.
			none := len(h.wantCov) > 0
			for c := range h.wantCov {
				if h.covers[c] == 0 {
					fmt.Printf("note: %s never reaches %q\n", h.name, c)
				} else {
					none = false
				}
			}
			if none {
				fmt.Printf("ERROR: vacuous: %s\n", h.name)
				return 2
			}
		}
	}
	writeEvidence(root, prop, tier, seed, e, hs, validated, replayed, nv, len(found), tLoad, tRun, t0)
	s := e.stats
	fmt.Printf("%s %s: %d harnesses, %d paths, %d decisions, %d asserts, %d equivalences, %d queries (%d sat, %d unsat), solver %.1fs, %d paths validated natively, timeout=%v, undecided %d, %.1fs\n",
		prop, tier, len(hs), s.Paths, s.Decisions, s.Asserts, s.Equivs, s.Queries, s.QSat, s.QUnsat, s.SolverTime.Seconds(), validated, e.timedOut, e.nUndecided, time.Since(t0).Seconds())
	return code
}

func inputStr(in []ReplayInput) string {
	var s []string
	for _, x := range in {
		if len(x.Vals) == 1 {
			s = append(s, fmt.Sprintf("%s=%d", x.Name, x.Vals[0]))
		} else {
			s = append(s, fmt.Sprintf("%s=%v", x.Name, x.Vals))
		}
	}
	return strings.Join(s, " ")
}

func loadKnown(file, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: ")
		parts := strings.SplitN(l, " :: ", 3)
		if len(parts) != 3 || parts[0] != "property="+prop {
			continue
		}
		out[strings.TrimSpace(parts[1])] = strings.TrimSpace(parts[1]) + ": " + strings.TrimSpace(parts[2])
	}
	return out
}

func writeEvidence(root, prop, tier string, seed int, e *Engine, hs []*Harness, validated, replayed, nv, nknown int, tLoad, tRun time.Duration, t0 time.Time) {
	var fns []string
	for f := range e.funcs {
		fns = append(fns, strings.ReplaceAll(f, repoMod+"/", ""))
	}
	sort.Strings(fns)
	per := map[string]any{}
	var incomplete []string
	for _, h := range hs {
		per[h.name] = map[string]any{"paths": h.paths, "decisions": h.decs, "equivalences": h.equivs, "instructions": h.steps, "bounds": h.bounds, "reached": h.covers}
	}
	if e.timedOut {
		incomplete = append(incomplete, "time budget used up: the exploration is a reduced bound")
	}
	if e.nUndecided > 0 {
		incomplete = append(incomplete, fmt.Sprintf("paths the solver did not decide: %d", e.nUndecided))
	}
	var samples []string
	for i, c := range e.traces {
		if i%(1+len(e.traces)/8) == 0 {
			samples = append(samples, c.Harness+": "+inputStr(c.Inputs))
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no path completed")
	}
	s := e.stats
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        s.Paths,
			"transitions":                   s.Decisions,
			"traces_validated_against_impl": validated,
			"samples":                       samples,
			"exhaustive":                    !e.timedOut && e.nUndecided == 0 && nv == 0,
			"explanation":                   "states: symbolic paths of the harness through the real code (each stands for all input values satisfying its path condition); transitions: branch decisions taken on them; every assertion and formula equivalence on a path is decided by the SMT solver for all values.",
			"functions_encoded":             fns,
			"harnesses":                     per,
			"assertions":                    s.Asserts,
			"equivalences":                  s.Equivs,
			"forks":                         s.Forks,
			"infeasible_or_assumed_away":    s.Killed,
			"queries":                       s.Queries,
			"queries_sat":                   s.QSat,
			"queries_unsat":                 s.QUnsat,
			"queries_unknown":               s.QUnknown,
			"quantifier_iterations":         s.CegarIter,
			"solver_s":                      s.SolverTime.Seconds(),
			"instructions":                  s.Steps,
			"counterexamples_replayed":      replayed,
			"known_findings_hit":            nknown,
			"load_s":                        tLoad.Seconds(),
			"incomplete":                    incomplete,
		},
		"assumptions": []string{
			"bounds as listed per harness; inputs outside them are not covered",
			"trusted: go/ssa construction, the interpreter and its models of fmt, os, os/exec, sync, bytealg (validated by replaying sampled paths natively), the SMT solver z3",
			"map iteration follows insertion order; Close errors are not injected",
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": nv,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), b, 0o644)
}
