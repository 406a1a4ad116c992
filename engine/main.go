package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// HarnessCfg configures one harness function.
type HarnessCfg struct {
	Func          string            `json:"func"`
	Pkg           string            `json:"pkg"`   // relative to the module dir, e.g. "app"
	Files         []string          `json:"files"` // harness files under harness/<module>/<pkg>/
	Unwind        int               `json:"unwind"`
	Paths         int64             `json:"paths"`
	Seconds       int               `json:"seconds"`
	TSeconds      int               `json:"tseconds"` // thorough tier
	Reach         []string          `json:"reach"`
	Repeat        int               `json:"repeat"` // native replays per counterexample
	Bounds        string            `json:"bounds"`
	NoReplayPanic bool              `json:"no_replay_panic"`
	SkipValidate  bool              `json:"skip_validate"`
	Override      map[string]string `json:"override"` // functions replaced by model functions
}

// CheckCfg configures one property check.
type CheckCfg struct {
	Module      string   `json:"module"` // shuttermint or shlib
	Models      []string `json:"models"` // model packages overlaid for symbolic execution only
	modfile     string
	Rewrite     []string     `json:"rewrite"` // packages whose os import is redirected
	Harness     []HarnessCfg `json:"harness"`
	Assumptions []string     `json:"assumptions"`
	Level       string       `json:"level"`
}

var root = "/verif"
var repo = "/repo"

func main() {
	prop := flag.String("prop", "", "property id")
	only := flag.String("func", "", "run only this harness")
	tierF := flag.String("tier", "", "tier")
	prof := flag.String("cpuprofile", "", "")
	noNative := flag.Bool("nonative", false, "skip native replay")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(14 << 30)
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		root = r
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if r := os.Getenv("VERIF_DEV_REPO"); r != "" {
		repo = r // development only
	}
	tier := os.Getenv("VERIF_TIER")
	if *tierF != "" {
		tier = *tierF
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	code := runCheck(*prop, *only, tier, seed, *workers, !*noNative)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func readCfg() (map[string]*CheckCfg, error) {
	data, err := os.ReadFile(filepath.Join(root, "checks.json"))
	if err != nil {
		return nil, err
	}
	var m map[string]*CheckCfg
	err = json.Unmarshal(data, &m)
	return m, err
}

type harnessResult struct {
	cfg       HarnessCfg
	eng       *Engine
	wall      float64
	exhausted bool
}

func moduleDir(m string) string { return filepath.Join(repo, m) }

func modulePath(m string) string { return "github.com/shutter-network/shutter/" + m }

// buildOverlay maps harness files and verifsym into the module.
func buildOverlay(cfg *CheckCfg, tmp string) (sym map[string][]byte, native map[string]string, err error) {
	sym = map[string][]byte{}
	native = map[string]string{}
	dir := moduleDir(cfg.Module)
	add := func(dst, src string) error {
		b, err := os.ReadFile(src)
		if err != nil {
			return err
		}
		b = []byte(strings.ReplaceAll(string(b), "VERIFMODULE", modulePath(cfg.Module)))
		sym[dst] = b
		f := filepath.Join(tmp, strings.ReplaceAll(strings.TrimPrefix(dst, "/"), "/", "__"))
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return err
		}
		native[dst] = f
		return nil
	}
	if err = add(filepath.Join(dir, "verifsym", "sym.go"), filepath.Join(root, "verifsym", "sym.go")); err != nil {
		return
	}
	for _, d := range cfg.Rewrite {
		if strings.HasPrefix(d, "pkg:") {
			fs, _ := filepath.Glob(filepath.Join(root, strings.TrimPrefix(d, "pkg:"), "*.go"))
			for _, f := range fs {
				if err = add(filepath.Join(dir, strings.TrimPrefix(d, "pkg:"), filepath.Base(f)), f); err != nil {
					return
				}
			}
			continue
		}
		if strings.HasPrefix(d, "js:") {
			if err = rewriteJS(cfg, strings.TrimPrefix(d, "js:"), tmp, sym, native); err != nil {
				return
			}
			continue
		}
		if err = rewriteOS(cfg, d, tmp, sym, native); err != nil {
			return
		}
	}
	seen := map[string]bool{}
	for _, h := range cfg.Harness {
		for _, f := range h.Files {
			src := filepath.Join(root, "harness", cfg.Module, h.Pkg, f)
			dst := filepath.Join(dir, h.Pkg, "zz_verif_"+strings.TrimSuffix(f, ".go")+"_h.go")
			if seen[dst] {
				continue
			}
			seen[dst] = true
			if err = add(dst, src); err != nil {
				return
			}
		}
	}
	for _, m := range cfg.Models {
		if err = addModel(cfg, m, tmp, sym); err != nil {
			return
		}
	}
	return
}

// addModel replaces an external package by its model (symbolic execution only).
// models/<name>/PACKAGE holds the module and the directory of the package in it. The module is
// redirected to a symbolic link (go does not allow overlays in the module cache itself).
func addModel(cfg *CheckCfg, m, tmp string, sym map[string][]byte) error {
	md := filepath.Join(root, "models", m)
	b, err := os.ReadFile(filepath.Join(md, "PACKAGE"))
	if err != nil {
		return err
	}
	f := strings.Fields(string(b))
	mod := f[0]
	link := filepath.Join(tmp, "mod_"+strings.ReplaceAll(mod, "/", "_"))
	mf := filepath.Join(tmp, "go.mod")
	if _, err := os.Lstat(link); err != nil {
		cmd := exec.Command(goBin+"/go", "list", "-m", "-f", "{{.Dir}}", mod)
		cmd.Dir = moduleDir(cfg.Module)
		cmd.Env = goEnv()
		out, err := cmd.Output()
		if err != nil {
			return fmt.Errorf("module %s: %v", mod, err)
		}
		if err := os.Symlink(strings.TrimSpace(string(out)), link); err != nil {
			return err
		}
		for _, n := range []string{"go.mod", "go.sum"} {
			dst := filepath.Join(tmp, n)
			if _, err := os.Stat(dst); err == nil {
				continue
			}
			d, err := os.ReadFile(filepath.Join(moduleDir(cfg.Module), n))
			if err != nil {
				return err
			}
			if err := os.WriteFile(dst, d, 0o644); err != nil {
				return err
			}
		}
		d, _ := os.ReadFile(mf)
		if err := os.WriteFile(mf, append(d, []byte("\nreplace "+mod+" => "+link+"\n")...), 0o644); err != nil {
			return err
		}
	}
	cfg.modfile = mf
	dir := filepath.Join(link, f[1])
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	pkgName := ""
	srcs, _ := filepath.Glob(filepath.Join(md, "*.go"))
	for _, s := range srcs {
		d, err := os.ReadFile(s)
		if err != nil {
			return err
		}
		for _, l := range strings.Split(string(d), "\n") {
			if strings.HasPrefix(l, "package ") {
				pkgName = strings.Fields(l)[1]
				break
			}
		}
		sym[filepath.Join(dir, "zz_model_"+filepath.Base(s))] = d
	}
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			sym[filepath.Join(dir, e.Name())] = []byte("package " + pkgName + "\n")
		}
		switch filepath.Ext(e.Name()) {
		case ".c", ".S", ".s":
			sym[filepath.Join(dir, e.Name())] = []byte("//go:build ignore\n\n")
		}
	}
	return nil
}

func runCheck(prop, only, tier string, seed, workers int, doNative bool) int {
	t0 := time.Now()
	cfgs, err := readCfg()
	if err != nil {
		fmt.Println("config error:", err)
		return 3
	}
	cfg := cfgs[prop]
	if cfg == nil {
		fmt.Println("no such property", prop)
		return 3
	}
	tmp, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer os.RemoveAll(tmp)

	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking"}
	finish := func(cov map[string]any, nviol int) {
		ev["coverage"] = cov
		ev["wall_s"] = time.Since(t0).Seconds()
		ev["violations"] = nviol
		ev["assumptions"] = cfg.Assumptions
		os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0o644)
	}
	inconclusive := func(why string) int {
		fmt.Println("INCONCLUSIVE:", why)
		finish(map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{}, "inconclusive": why}, 0)
		return 0
	}

	symOv, natOv, err := buildOverlay(cfg, tmp)
	if err != nil {
		return inconclusive("overlay: " + err.Error())
	}
	pkgset := map[string]bool{}
	var pats []string
	for _, h := range cfg.Harness {
		if !pkgset[h.Pkg] {
			pkgset[h.Pkg] = true
			pats = append(pats, "./"+h.Pkg)
		}
	}
	prog, err := loadProgram(moduleDir(cfg.Module), pats, symOv, cfg.modfile)
	if err != nil {
		return inconclusive("load: " + err.Error())
	}
	loadT := time.Since(t0).Seconds()
	fmt.Printf("%s: loaded in %.1fs\n", prop, loadT)

	sols := make([]*solver, workers)
	for i := range sols {
		sols[i] = newSolver("z3", "-in", "-smt2")
	}
	defer func() {
		for _, s := range sols {
			s.close()
		}
	}()

	// native test binary is built while the exploration runs
	var nat *nativeRunner
	var natErr error
	var natWG sync.WaitGroup
	if doNative {
		natWG.Add(1)
		go func() {
			defer natWG.Done()
			nat, natErr = buildNative(cfg, natOv, tmp)
		}()
	}

	var results []*harnessResult
	for _, h := range cfg.Harness {
		if only != "" && h.Func != only {
			continue
		}
		sp := prog.byPath[modulePath(cfg.Module)+"/"+h.Pkg]
		if sp == nil {
			return inconclusive("package missing " + h.Pkg)
		}
		fn := sp.Func(h.Func)
		if fn == nil {
			return inconclusive("harness missing " + h.Func)
		}
		secs := h.Seconds
		if secs == 0 {
			secs = 60
		}
		if tier == "thorough" {
			if h.TSeconds > 0 {
				secs = h.TSeconds
			} else {
				secs *= 5
			}
		}
		unwind := h.Unwind
		if unwind == 0 {
			unwind = 64
		}
		paths := h.Paths
		if paths == 0 {
			paths = 2000000
		}
		e := &Engine{prog: prog, harness: fn, name: h.Func, maxSteps: 20000000, maxUnwind: unwind, maxAlloc: 4096, maxPaths: paths,
			deadline: time.Now().Add(time.Duration(secs) * time.Second), sampleN: 12, rng: rand.New(rand.NewSource(int64(seed) + 1))}
		if tier == "thorough" {
			e.tier = 1
		}
		e.override = map[string]*ssa.Function{}
		for from, to := range h.Override {
			i := strings.LastIndex(to, ".")
			if sp := prog.byPath[to[:i]]; sp != nil && sp.Func(to[i+1:]) != nil {
				e.override[from] = sp.Func(to[i+1:])
			} else {
				return inconclusive("override missing " + to)
			}
		}
		hs := time.Now()
		e.run(workers, sols)
		r := &harnessResult{cfg: h, eng: e, wall: time.Since(hs).Seconds()}
		r.exhausted = !e.timedOut.Load() && len(e.unsup) == 0 && len(e.bounds) == 0 && !e.stop
		results = append(results, r)
		fmt.Printf("  %s: %d paths, %d decisions, %d forced, %d steps, %d candidate violations, %.1fs exhausted=%v\n", h.Func, e.paths.Load(), e.decisions.Load(), e.forced.Load(), e.stepsTotal.Load(), len(e.viol), r.wall, r.exhausted)
		for k, n := range e.unsup {
			fmt.Printf("    unsupported x%d: %s\n", n, k)
		}
		for k, n := range e.bounds {
			fmt.Printf("    bound x%d: %s\n", n, k)
		}
		var rl []string
		for k, n := range e.reached {
			rl = append(rl, fmt.Sprintf("%s=%d", k, n))
		}
		sort.Strings(rl)
		fmt.Printf("    reached: %s\n", strings.Join(rl, " "))
		for _, w := range h.Reach {
			if e.reached[w] == 0 {
				fmt.Printf("    VACUITY: %s not reached\n", w)
			}
		}
		for _, v := range e.viol {
			logf("    candidate: %s %s at %s inputs %s", v.Label, v.Msg, v.Where, short(fmt.Sprint(v.Inputs)))
		}
	}
	natWG.Wait()

	// ---- native replay and validation ----
	type key struct{ h, l string }
	confirmed := map[key]*Violation{}
	var order []key
	spurious := 0
	validated, diverged := 0, 0
	var divs []string
	natNote := ""
	if doNative && natErr != nil {
		natNote = natErr.Error()
		fmt.Println("native build failed:", natNote)
	}
	if doNative && natErr == nil {
		var cases []nativeCase
		type ref struct {
			r *harnessResult
			v *Violation
			s *PathSample
		}
		var refs []ref
		for _, r := range results {
			rep := r.cfg.Repeat
			if rep == 0 {
				rep = 1
			}
			for _, v := range r.eng.viol {
				cases = append(cases, nativeCase{ID: len(cases), Harness: r.cfg.Func, Pkg: r.cfg.Pkg, Inputs: v.Inputs, Repeat: rep, Tier: r.eng.tier})
				refs = append(refs, ref{r: r, v: v})
			}
			if !r.cfg.SkipValidate {
				for i := range r.eng.samples {
					s := &r.eng.samples[i]
					cases = append(cases, nativeCase{ID: len(cases), Harness: r.cfg.Func, Pkg: r.cfg.Pkg, Inputs: s.Inputs, Repeat: 1, Tier: r.eng.tier})
					refs = append(refs, ref{r: r, s: s})
				}
			}
		}
		outs := nat.run(cases, tmp)
		for i, c := range cases {
			res, ok := outs[c.ID]
			rf := refs[i]
			if rf.v != nil {
				if !ok {
					// the process died: exit or crash while replaying
					res = nativeResult{End: "panic", Label: "no-panic", Msg: "replay process died"}
				}
				if res.End == "fail" || res.End == "panic" {
					k := key{rf.r.cfg.Func, res.Label}
					if confirmed[k] == nil {
						v := *rf.v
						v.Label = res.Label
						if res.Msg != "" {
							v.Msg = res.Msg
						}
						confirmed[k] = &v
						order = append(order, k)
					}
				} else {
					spurious++
					fmt.Printf("    not reproduced: %s %s (%s) native end=%s\n", rf.v.Label, rf.v.Msg, rf.v.Where, res.End)
					logf("      inputs %s native trace %s engine %s", short(fmt.Sprint(rf.v.Inputs)), short(fmt.Sprint(res.Trace)), short(fmt.Sprint(rf.v.Trace)))
				}
				continue
			}
			if !ok {
				diverged++
				divs = append(divs, "no native result for "+rf.r.cfg.Func)
				continue
			}
			if res.End == "fail" || res.End == "panic" {
				// a sampled path violates natively: a real violation on a concrete input
				k := key{rf.r.cfg.Func, res.Label}
				if confirmed[k] == nil {
					confirmed[k] = &Violation{Harness: rf.r.cfg.Func, Label: res.Label, Msg: "sampled path fails natively: " + res.Msg, Inputs: rf.s.Inputs, Trace: res.Trace}
					order = append(order, k)
				}
				diverged++
				continue
			}
			if res.End == "ok" && strings.Join(res.Trace, "\n") == strings.Join(rf.s.Trace, "\n") {
				validated++
			} else {
				diverged++
				if len(divs) < 5 {
					divs = append(divs, fmt.Sprintf("%s: engine %v native(%s) %v inputs %v", rf.r.cfg.Func, rf.s.Trace, res.End, res.Trace, rf.s.Inputs))
				}
			}
		}
	}
	for _, d := range divs {
		fmt.Println("  DIVERGENCE", short(d))
	}

	// ---- known findings ----
	known := readKnown(prop)
	nviol := 0
	var knownSeen []string
	for _, k := range order {
		v := confirmed[k]
		if d, ok := known[k.h+"/"+k.l]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, d)
			knownSeen = append(knownSeen, d)
			continue
		}
		nviol++
		rp := filepath.Join(root, "replay")
		os.MkdirAll(rp, 0o755)
		path := filepath.Join(rp, fmt.Sprintf("%s_%s_%s.json", prop, k.h, sanitize(k.l)))
		b, _ := json.MarshalIndent(map[string]any{"property": prop, "harness": v.Harness, "label": v.Label, "message": v.Msg, "where": v.Where, "inputs": v.Inputs, "trace": v.Trace, "tier": tier}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  harness %s: %s: %s (%s)\n", v.Harness, v.Label, v.Msg, v.Where)
	}

	// ---- evidence ----
	var states, trans, steps int64
	fns := map[string]bool{}
	var hs []map[string]any
	var samples []any
	allEx := true
	for _, r := range results {
		e := r.eng
		states += e.paths.Load() + e.decisions.Load()
		trans += e.decisions.Load() + e.forced.Load()
		steps += e.stepsTotal.Load()
		for f := range e.fns {
			if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/shutter-network/shutter/") && !strings.HasSuffix(f.Pkg.Pkg.Path(), "verifsym") {
				pos := prog.prog.Fset.Position(f.Pos())
				if !strings.Contains(pos.Filename, "zz_verif") {
					fns[f.String()] = true
				}
			}
		}
		var missing []string
		for _, w := range r.cfg.Reach {
			if e.reached[w] == 0 {
				missing = append(missing, w)
			}
		}
		if !r.exhausted || len(missing) > 0 {
			allEx = false
		}
		for i, s := range e.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": r.cfg.Func, "inputs": s.Inputs, "trace": s.Trace})
			}
		}
		hs = append(hs, map[string]any{"harness": r.cfg.Func, "bounds": r.cfg.Bounds, "unwind": e.maxUnwind, "paths": e.paths.Load(), "paths_cut_by_assumptions": e.assumeEnded.Load(),
			"decisions": e.decisions.Load(), "implied_branches": e.forced.Load(), "instructions": e.stepsTotal.Load(), "asserts_checked": e.asserts, "reached": e.reached,
			"reach_missing": missing, "unsupported": e.unsup, "bounds_hit": e.bounds, "solver_unknown": e.unknowns.Load(), "exhausted_within_bounds": r.exhausted, "wall_s": r.wall})
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples, "exhaustive": allEx,
		"explanation":       "states = explored symbolic paths plus branch points decided; transitions = branch decisions (each settled by an SMT query unless already implied); traces_validated_against_impl = sampled paths whose solver model was run through the compiled code with an identical trace",
		"functions_encoded": fl, "harnesses": hs, "queries": stats.Queries.Load(), "queries_sat": stats.Sat.Load(), "queries_unsat": stats.Unsat.Load(), "queries_unknown": stats.Unknown.Load(), "field_queries": stats.Field.Load(), "field_queries_decided_by_elimination": stats.FieldDecided.Load(), "query_cache_hits": stats.CacheHits.Load(),
		"solver_s": float64(stats.SolverNS.Load()) / 1e9, "ssa_blocks_instructions_executed": steps, "load_s": loadT, "traces_diverged": diverged, "candidates_not_reproduced": spurious, "known_findings_seen": knownSeen}
	if natNote != "" {
		cov["native_build_error"] = natNote
	}
	if len(divs) > 0 {
		cov["divergences"] = divs
	}
	finish(cov, nviol)
	fmt.Printf("%s: %d paths/branch points, %d queries (%.1fs solver), %d traces validated, %d diverged, %d violations, exhaustive=%v, %.1fs\n", prop, states, stats.Queries.Load(), float64(stats.SolverNS.Load())/1e9, validated, diverged, nviol, allEx, time.Since(t0).Seconds())
	if nviol > 0 {
		return 1
	}
	return 0
}

func short(s string) string {
	if len(s) > 900 && os.Getenv("VERIF_LONG") == "" {
		return s[:900] + "..."
	}
	return s
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if (r >= 'a' && r <= 'z') || (r >= 'A' && r <= 'Z') || (r >= '0' && r <= '9') || r == '-' {
			return r
		}
		return '_'
	}, s)
}

// readKnown parses known_findings.txt: "finding: property=<id> harness=<func> label=<label> <text>".
func readKnown(prop string) map[string]string {
	m := map[string]string{}
	f, err := os.Open(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return m
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		fs := strings.Fields(l)
		if len(fs) < 5 {
			continue
		}
		h := strings.TrimPrefix(fs[2], "harness=")
		lab := strings.TrimPrefix(fs[3], "label=")
		m[h+"/"+lab] = strings.Join(fs[4:], " ")
	}
	return m
}

// ---- native ----

type nativeCase struct {
	ID      int               `json:"id"`
	Harness string            `json:"harness"`
	Pkg     string            `json:"-"`
	Inputs  map[string]string `json:"inputs"`
	Repeat  int               `json:"repeat"`
	Tier    int               `json:"tier"`
}

type nativeResult struct {
	ID    int      `json:"id"`
	End   string   `json:"end"`
	Label string   `json:"label"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace"`
}

type nativeRunner struct{ bins map[string]string }

func buildNative(cfg *CheckCfg, natOv map[string]string, tmp string) (*nativeRunner, error) {
	dir := moduleDir(cfg.Module)
	byPkg := map[string][]string{}
	for _, h := range cfg.Harness {
		byPkg[h.Pkg] = append(byPkg[h.Pkg], h.Func)
	}
	ov := map[string]string{}
	for k, v := range natOv {
		ov[k] = v
	}
	n := &nativeRunner{bins: map[string]string{}}
	for pkg, fns := range byPkg {
		name := ""
		ents, _ := filepath.Glob(filepath.Join(dir, pkg, "*.go"))
		for k, v := range natOv { // packages made up by the overlay
			if filepath.Dir(k) == filepath.Join(dir, pkg) {
				ents = append(ents, v)
			}
		}
		for _, f := range ents {
			if strings.HasSuffix(f, "_test.go") {
				// existing tests are blanked: they are not needed for a replay
				continue
			}
			d, _ := os.ReadFile(f)
			for _, l := range strings.Split(string(d), "\n") {
				if strings.HasPrefix(l, "package ") {
					name = strings.Fields(l)[1]
					break
				}
			}
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"os\"\n\t\"testing\"\n\n\t\"%s/verifsym\"\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\treg := map[string]func(){\n", name, modulePath(cfg.Module))
		for _, f := range fns {
			fmt.Fprintf(&sb, "\t\t%q: %s,\n", f, f)
		}
		sb.WriteString("\t}\n\tif err := verifsym.RunCases(reg, os.Getenv(\"VERIF_CASES\"), os.Getenv(\"VERIF_OUT\")); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n")
		tf := filepath.Join(tmp, strings.ReplaceAll(pkg, "/", "_")+"_run_test.go")
		if err := os.WriteFile(tf, []byte(sb.String()), 0o644); err != nil {
			return nil, err
		}
		ov[filepath.Join(dir, pkg, "zz_verif_run_test.go")] = tf
		tests, _ := filepath.Glob(filepath.Join(dir, pkg, "*_test.go"))
		for _, t := range tests {
			ov[t] = "" // hide
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(tmp, "overlay.json")
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return nil, err
	}
	for pkg := range byPkg {
		bin := filepath.Join(tmp, strings.ReplaceAll(pkg, "/", "_")+".test")
		cmd := exec.Command(goBin+"/go", "test", "-c", "-vet=off", "-overlay", of, "-o", bin, "./"+pkg)
		cmd.Dir = dir
		cmd.Env = goEnv()
		out, err := cmd.CombinedOutput()
		if err != nil {
			return nil, fmt.Errorf("%v: %s", err, out)
		}
		n.bins[pkg] = bin
	}
	return n, nil
}

func (n *nativeRunner) run(cases []nativeCase, tmp string) map[int]nativeResult {
	res := map[int]nativeResult{}
	byPkg := map[string][]nativeCase{}
	for _, c := range cases {
		byPkg[c.Pkg] = append(byPkg[c.Pkg], c)
	}
	for pkg, cs := range byPkg {
		rest := cs
		for round := 0; len(rest) > 0 && round < 50; round++ {
			in := filepath.Join(tmp, "cases.json")
			out := filepath.Join(tmp, "out.json")
			os.Remove(out)
			b, _ := json.Marshal(rest)
			os.WriteFile(in, b, 0o644)
			scratch, _ := os.MkdirTemp(tmp, "run")
			cmd := exec.Command(n.bins[pkg], "-test.run", "^TestVerifReplay$", "-test.timeout", "300s")
			cmd.Dir = scratch
			cmd.Env = append(goEnv(), "VERIF_CASES="+in, "VERIF_OUT="+out)
			o, err := cmd.CombinedOutput()
			if err != nil {
				tail := string(o)
				if len(tail) > 2000 {
					tail = tail[len(tail)-2000:]
				}
				logf("native run: %v: %s", err, tail)
			}
			f, e := os.Open(out)
			got := 0
			if e == nil {
				dec := json.NewDecoder(bufio.NewReader(f))
				for {
					var r nativeResult
					if dec.Decode(&r) != nil {
						break
					}
					res[r.ID] = r
					got++
				}
				f.Close()
			}
			if got >= len(rest) {
				break
			}
			// the case after the last result killed the process; skip it
			rest = rest[got+1:]
		}
	}
	return res
}

var _ = ssa.NaiveForm
