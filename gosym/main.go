package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Known is one line of known_findings.jsonl.
type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Kind     string `json:"kind"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

func (k *Known) matches(prop string, v *Violation) bool {
	return k.Status == "known" && k.Property == prop && k.Harness == v.Harness && k.Kind == v.Kind && k.Msg == v.Msg
}

func loadKnown(path string) []*Known {
	raw, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []*Known
	for _, l := range strings.Split(string(raw), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] != '{' {
			continue
		}
		k := &Known{}
		if err := json.Unmarshal([]byte(l), k); err != nil {
			fmt.Fprintln(os.Stderr, "known findings:", err)
			continue
		}
		out = append(out, k)
	}
	return out
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

var harnessDecl = regexp.MustCompile(`(?m)^func (C\d\d_\w+)\(\)`)

// scanHarnesses maps package directories to the harnesses they declare.
func scanHarnesses(root string) map[string][]string {
	out := map[string][]string{}
	dirs, _ := filepath.Glob(filepath.Join(root, "harness", "h*"))
	for _, d := range dirs {
		files, _ := filepath.Glob(filepath.Join(d, "*.go"))
		for _, f := range files {
			raw, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			for _, m := range harnessDecl.FindAllStringSubmatch(string(raw), -1) {
				out[filepath.Base(d)] = append(out[filepath.Base(d)], m[1])
			}
		}
	}
	for _, l := range out {
		sort.Strings(l)
	}
	return out
}

func cmdGen(root string) error {
	hs := scanHarnesses(root)
	var pk []string
	for p := range hs {
		pk = append(pk, p)
	}
	sort.Strings(pk)
	var b bytes.Buffer
	b.WriteString("// Code generated by gosym gen. DO NOT EDIT.\n\npackage main\n\nimport (\n")
	for _, p := range pk {
		fmt.Fprintf(&b, "\t%q\n", harnessMod+"/"+p)
	}
	b.WriteString(")\n\nvar harnesses = map[string]func(){\n")
	for _, p := range pk {
		for _, h := range hs[p] {
			fmt.Fprintf(&b, "\t%q: %s.%s,\n", h, p, h)
		}
	}
	b.WriteString("}\n")
	return os.WriteFile(filepath.Join(root, "harness", "replay", "registry.go"), b.Bytes(), 0644)
}

// native builds and runs the harnesses as ordinary compiled Go code.
type native struct {
	bin     string
	err     error
	scratch string
	n       int
}

func buildNative(root, scratch string) *native {
	nt := &native{scratch: scratch, bin: filepath.Join(scratch, "replay")}
	cmd := exec.Command("go", "build", "-o", nt.bin, "./replay")
	cmd.Dir = filepath.Join(root, "harness")
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		nt.err = fmt.Errorf("%v: %s", err, out)
	}
	return nt
}

type nativeResult struct {
	obs        []string
	violations []string
	ended      string // ok, assume, panic, fatal, timeout
	out        string
}

func (nt *native) run(h string, in []InputVal, tier string) *nativeResult {
	nt.n++
	dir := filepath.Join(nt.scratch, fmt.Sprintf("run%d", nt.n))
	tmp := filepath.Join(dir, "a", "b", "tmp")
	os.MkdirAll(tmp, 0755)
	defer os.RemoveAll(dir)
	raw, _ := json.Marshal(map[string]interface{}{"harness": h, "inputs": in, "tier": tier})
	f := filepath.Join(dir, "in.json")
	os.WriteFile(f, raw, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, nt.bin, h, f)
	cmd.Dir = dir
	cmd.Env = []string{"TMPDIR=" + tmp, "PCP_CONF=/nonexistent", "HOME=" + dir, "PATH=/usr/bin:/bin", "GOTRACEBACK=single"}
	out, err := cmd.CombinedOutput()
	r := &nativeResult{out: string(out), ended: "ok"}
	if len(r.out) > 4000 {
		r.out = r.out[:4000]
	}
	for _, l := range strings.Split(string(out), "\n") {
		if s, ok := strings.CutPrefix(l, "SYM-OBS "); ok {
			r.obs = append(r.obs, s)
		}
		if s, ok := strings.CutPrefix(l, "SYM-VIOLATION "); ok {
			r.violations = append(r.violations, s)
		}
	}
	if ctx.Err() != nil {
		r.ended = "timeout"
	} else if err != nil {
		code := -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		switch code {
		case 1:
			r.ended = "violation"
		case 3:
			r.ended = "assume"
		default:
			r.ended = "crash"
		}
	}
	return r
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: gosym check -prop Cnn [-tier quick|thorough] | run -h harness | replay FILE | gen")
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "", "quick or thorough")
	only := fs.String("h", "", "only this harness (comma separated list)")
	verbose := fs.Bool("v", false, "print every path")
	workers := fs.Int("j", 0, "workers")
	limit := fs.Int("limit", 0, "time limit in seconds")
	noNative := fs.Bool("nonative", false, "skip native replay")
	fs.Parse(os.Args[2:])
	root := verifDir()
	switch os.Args[1] {
	case "gen":
		if err := cmdGen(root); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	case "check", "run":
		os.Exit(cmdCheck(root, *prop, *tier, *only, *verbose, *workers, *limit, *noNative, os.Args[1] == "run"))
	case "replay":
		if fs.NArg() != 1 {
			usage()
		}
		os.Exit(cmdReplay(root, fs.Arg(0), *verbose))
	default:
		usage()
	}
}

func pkgPatterns(root string, match func(string) bool) []string {
	pats := []string{"./sym", "./model"}
	for p, l := range scanHarnesses(root) {
		for _, h := range l {
			if match(h) {
				pats = append(pats, "./"+p)
				break
			}
		}
	}
	sort.Strings(pats)
	return pats
}

func cmdCheck(root, prop, tier, only string, verbose bool, workers, limit int, noNative, debug bool) int {
	t0 := time.Now()
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	if workers == 0 {
		workers = runtime.NumCPU()
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	match := func(h string) bool {
		if only != "" {
			for _, o := range strings.Split(only, ",") {
				if o == h {
					return true
				}
			}
			return false
		}
		return strings.HasPrefix(h, prop+"_")
	}
	ld, err := Load(filepath.Join(root, "harness"), pkgPatterns(root, match))
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		return 2
	}
	loadT := time.Since(t0)
	var hs []string
	for h := range ld.harnesses {
		if match(h) {
			hs = append(hs, h)
		}
	}
	sort.Strings(hs)
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "ERROR: no harness for", prop, only)
		return 2
	}
	if limit == 0 {
		limit = 700
		if tier == "quick" {
			limit = 600
		} else if s := os.Getenv("VERIF_THOROUGH_LIMIT"); s != "" {
			limit, _ = strconv.Atoi(s)
		}
	}
	cfg := Config{tier: tier, workers: workers, solverMS: 20000, maxSteps: 20_000_000, maxConc: 600, deadline: t0.Add(time.Duration(limit) * time.Second), verbose: verbose, maxSamples: 40}
	known := loadKnown(filepath.Join(root, "known_findings.jsonl"))
	ex := &Explorer{ld: ld, cfg: cfg, stats: newStats(), viol: map[string]*Violation{}, nviol: map[string]int{}, hdone: map[string]time.Duration{}, hpath: map[string]int{}}
	ex.isKnown = func(v *Violation) bool {
		for _, k := range known {
			if k.matches(prop, v) {
				return true
			}
		}
		return false
	}
	ex.Run(hs)
	exploreT := time.Since(t0) - loadT
	scratch, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	var nt *native
	if !noNative {
		nt = buildNative(root, scratch)
		if nt.err != nil {
			fmt.Fprintln(os.Stderr, "ERROR: building the native harnesses:", nt.err)
			return 2
		}
	}
	rep := &report{Unconfirmed: []string{}}
	var confirmed []*Violation
	for _, v := range ex.violations() {
		v.Property = prop
		if ok, why := ex.confirm(v, nt); ok {
			v.Confirmed = why
			confirmed = append(confirmed, v)
		} else {
			rep.Unconfirmed = append(rep.Unconfirmed, v.key()+": "+why)
			fmt.Fprintf(os.Stderr, "unconfirmed candidate (not reported): %s: %s\n", v.key(), why)
			if debug {
				b, _ := json.MarshalIndent(v, "", " ")
				fmt.Fprintln(os.Stderr, string(b))
			}
		}
	}
	// replay sampled paths against the compiled code
	if nt != nil {
		for _, s := range ex.stats.samples {
			if time.Now().After(cfg.deadline.Add(60 * time.Second)) {
				break
			}
			if !s.nativeOK {
				continue
			}
			r := nt.run(s.Harness, s.Inputs, tier)
			if r.ended == "violation" && len(r.violations) > 0 {
				kind, msg, _ := strings.Cut(r.violations[0], "|")
				v := &Violation{Harness: s.Harness, Kind: kind, Msg: msg, Where: "compiled code", Inputs: s.Inputs, NativeOK: true, Property: prop, Tier: tier, Confirmed: "compiled code"}
				dup := false
				for _, c := range confirmed {
					dup = dup || c.key() == v.key()
				}
				if !dup {
					confirmed = append(confirmed, v)
				}
				continue
			}
			if r.ended == "ok" && strings.Join(r.obs, "\n") == strings.Join(s.Observes, "\n") {
				rep.validated++
			} else {
				rep.mismatch = append(rep.mismatch, fmt.Sprintf("%s: ended %s, executor %v, compiled code %v", s.Harness, r.ended, s.Observes, r.obs))
				if debug {
					fmt.Fprintln(os.Stderr, r.out)
				}
			}
		}
	}
	for _, m := range rep.mismatch {
		fmt.Fprintln(os.Stderr, "WARNING: executor and compiled code differ:", m)
	}
	st := ex.stats
	code := 0
	nv := 0
	seenKnown := map[string]bool{}
	for i, v := range confirmed {
		isKnown := false
		for _, k := range known {
			if k.matches(prop, v) {
				isKnown = true
				if !seenKnown[k.What] {
					seenKnown[k.What] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				}
				break
			}
		}
		if isKnown {
			continue
		}
		nv++
		code = 1
		if debug {
			b, _ := json.MarshalIndent(v, "", " ")
			fmt.Println(string(b))
			continue
		}
		os.MkdirAll(filepath.Join(root, "replays"), 0755)
		path := filepath.Join("replays", fmt.Sprintf("%s-%d.json", prop, i))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(filepath.Join(root, path), b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		fmt.Printf("  %s: %s: %s (at %s; confirmed by %s)\n", v.Harness, v.Kind, v.Msg, v.Where, v.Confirmed)
	}
	nodec := 0
	for _, h := range hs {
		if st.done[h] == 0 {
			nodec++
			fmt.Fprintf(os.Stderr, "WARNING: %s completed no path\n", h)
		}
	}
	if !debug {
		ev := ex.evidence(prop, tier, seed, hs, rep, nv, time.Since(t0), loadT, exploreT)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(root, "evidence"), 0755)
		os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0644)
	}
	fmt.Printf("%s %s: %d harnesses, %d paths (%d infeasible, %d pruned, %d cut, %d unsupported), %d assertions, %d queries (%d sat, %d unsat, %d unknown) %.1fs solver, %d native runs agree, %d differ, %.1fs\n",
		prop, tier, len(hs), st.paths, st.infeasible, st.pruned, st.cutPaths, st.unsupPaths, st.asserts, st.queries, st.sat, st.unsat, st.unk, st.solverTime.Seconds(), rep.validated, len(rep.mismatch), time.Since(t0).Seconds())
	if st.incomplete {
		fmt.Println("  exploration stopped at the time limit")
	}
	for _, k := range sortedKeys(st.unsups) {
		fmt.Printf("  unsupported x%d: %s\n", st.unsups[k], k)
	}
	for _, k := range sortedKeys(st.cuts) {
		fmt.Printf("  cut x%d: %s\n", st.cuts[k], k)
	}
	if st.assertUnknown > 0 || st.unknownBranches > 0 {
		fmt.Printf("  no verdict: %d assertions, %d branches\n", st.assertUnknown, st.unknownBranches)
	}
	if debug {
		for _, h := range hs {
			fmt.Printf("  %s: %d paths %.1fs\n", h, ex.hpath[h], ex.hdone[h].Seconds())
		}
		for _, k := range sortedKeys(st.reach) {
			fmt.Printf("  reached %s x%d\n", k, st.reach[k])
		}
		fmt.Printf("  load %.1fs explore %.1fs max steps %d\n", loadT.Seconds(), exploreT.Seconds(), st.maxPathSteps)
	}
	if code == 0 && nodec == len(hs) {
		fmt.Fprintln(os.Stderr, "ERROR: nothing was decided")
		return 2
	}
	return code
}

func sortedKeys(m map[string]int) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type report struct {
	validated   int
	mismatch    []string
	Unconfirmed []string
}

// confirm replays a counterexample: with the executor on fixed inputs and,
// when the outcome is a function of the inputs alone, with the compiled code.
func (ex *Explorer) confirm(v *Violation, nt *native) (bool, string) {
	c := ex.Concrete(v)
	if c == nil {
		return false, "the concrete execution does not violate it"
	}
	how := "concrete re-execution of the recorded schedule"
	if len(v.Trace) == 0 {
		how = "concrete re-execution"
	}
	if v.NativeOK && nt != nil && v.Kind != "race" {
		// with several goroutines the outcome may still depend on the
		// schedule or the iteration order of a map: try repeatedly
		ended := ""
		for i := 0; i < 40; i++ {
			r := nt.run(v.Harness, v.Inputs, v.Tier)
			switch r.ended {
			case "violation", "crash", "timeout":
				return true, "compiled code"
			}
			ended = r.ended
			if !v.Multi {
				break
			}
		}
		return false, "the compiled code ends with " + ended
	}
	return true, how
}

func cmdReplay(root, file string, verbose bool) int {
	raw, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	v := &Violation{}
	if err := json.Unmarshal(raw, v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ld, err := Load(filepath.Join(root, "harness"), pkgPatterns(root, func(h string) bool { return h == v.Harness }))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ex := &Explorer{ld: ld, cfg: Config{tier: v.Tier, workers: 1, solverMS: 20000, maxSteps: 20_000_000, maxConc: 600, verbose: verbose}, stats: newStats()}
	for _, in := range v.Inputs {
		fmt.Printf("input %s = %s (%s)\n", in.Name, in.Val, in.Kind)
	}
	for _, l := range v.Trace {
		fmt.Println("step", l)
	}
	c := ex.Concrete(v)
	if c == nil {
		fmt.Println("not reproduced")
		return 0
	}
	fmt.Printf("reproduced: %s: %s at %s\n", c.Kind, c.Msg, c.Where)
	if v.NativeOK {
		scratch, err := os.MkdirTemp("", "gosym")
		if err == nil {
			defer os.RemoveAll(scratch)
			if nt := buildNative(root, scratch); nt.err == nil {
				r := nt.run(v.Harness, v.Inputs, v.Tier)
				fmt.Printf("compiled code: %s\n%s", r.ended, r.out)
			}
		}
	}
	return 1
}

func (ex *Explorer) docs(hs []string) map[string]string {
	out := map[string]string{}
	for _, h := range hs {
		fn := ex.ld.harnesses[h]
		if fd, ok := fn.Syntax().(*ast.FuncDecl); ok && fd.Doc != nil {
			out[h] = strings.Join(strings.Fields(fd.Doc.Text()), " ")
		} else {
			out[h] = ""
		}
	}
	return out
}

func (ex *Explorer) evidence(prop, tier string, seed int, hs []string, rep *report, nv int, wall, load, explore time.Duration) map[string]interface{} {
	st := ex.stats
	var fns []string
	for k := range st.covered {
		if strings.Contains(k, "github.com/performancecopilot/speed") {
			fns = append(fns, strings.ReplaceAll(k, "github.com/performancecopilot/speed/v4", "speed"))
		}
	}
	sort.Strings(fns)
	samples := []interface{}{}
	for _, s := range st.samples {
		if len(samples) >= 6 {
			break
		}
		in := s.Inputs
		if len(in) > 12 {
			in = in[:12]
		}
		var short []InputVal
		for _, i := range in {
			if len(i.Val) > 80 {
				i.Val = i.Val[:80] + "..."
			}
			short = append(short, i)
		}
		ob := []string{}
		for i, o := range s.Observes {
			if i >= 6 {
				break
			}
			if len(o) > 160 {
				o = o[:160] + "..."
			}
			ob = append(ob, o)
		}
		samples = append(samples, map[string]interface{}{"harness": s.Harness, "inputs": short, "observed": ob})
	}
	if len(samples) == 0 {
		for _, h := range hs {
			samples = append(samples, map[string]interface{}{"harness": h, "paths": ex.hpath[h], "note": "paths of this harness depend on the schedule, faults, crash points or clock; replayed by the executor only"})
			if len(samples) >= 4 {
				break
			}
		}
	}
	perH := map[string]interface{}{}
	for _, h := range hs {
		perH[h] = map[string]interface{}{"paths": st.done[h], "cpu_s": round2(ex.hdone[h].Seconds())}
	}
	exhaustive := !st.incomplete && st.unsupPaths == 0 && st.cutPaths == 0 && st.assertUnknown == 0 && st.unknownBranches == 0
	cov := map[string]interface{}{
		"states":                          st.paths,
		"transitions":                     st.steps,
		"traces_validated_against_impl":   rep.validated,
		"samples":                         samples,
		"exhaustive":                      exhaustive,
		"states_meaning":                  "complete symbolic paths; each stands for every input satisfying its path condition",
		"transitions_meaning":             "SSA instructions executed symbolically over all paths",
		"functions_encoded":               fns,
		"functions_encoded_count":         len(fns),
		"harness_bounds":                  ex.docs(hs),
		"harnesses":                       perH,
		"assertions_checked":              st.asserts,
		"assertions_constant_folded":      st.assertsTrivial,
		"assertions_without_verdict":      st.assertUnknown,
		"branches_without_verdict":        st.unknownBranches,
		"infeasible_paths":                st.infeasible,
		"partial_order_pruned_paths":      st.pruned,
		"schedules_explored":              st.schedules,
		"crash_points_covered":            st.crashPoints,
		"paths_cut_at_a_bound":            st.cutPaths,
		"cuts":                            st.cuts,
		"paths_unsupported":               st.unsupPaths,
		"unsupported":                     st.unsups,
		"reached":                         st.reach,
		"solver":                          "z3-new (QF_ABV plus FP), one process per worker",
		"queries":                         st.queries,
		"queries_sat":                     st.sat,
		"queries_unsat":                   st.unsat,
		"queries_unknown":                 st.unk,
		"solver_time_s":                   round2(st.solverTime.Seconds()),
		"encode_s":                        round2(load.Seconds()),
		"explore_s":                       round2(explore.Seconds()),
		"stopped_at_time_limit":           st.incomplete,
		"native_mismatches":               rep.mismatch,
		"unconfirmed_counterexamples":     rep.Unconfirmed,
		"counterexamples_replayed_before": "a counterexample is reported only after a concrete re-execution, and a run of the compiled code where its outcome depends on inputs alone",
	}
	return map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "wall_s": round2(wall.Seconds()), "violations": nv,
		"assumptions": []string{
			"the executor's semantics of Go SSA (golang.org/x/tools/go/ssa), sampled against the compiled code on every run",
			"the models in /verif/harness/model of the file system, mmap, fmt, sort and encoding/binary",
			"z3's answers",
			"the bounds written in harness_bounds",
		},
	}
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }
