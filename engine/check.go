package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harnessCfg struct {
	Pkg       string   `json:"pkg"`
	Func      string   `json:"func"`
	Files     []string `json:"files"`
	Quick     int      `json:"quick_s"`
	Thorough  int      `json:"thorough_s"`
	Reach     []string `json:"reach"`
	Bounds    string   `json:"bounds"`
	MapOrder  bool     `json:"maporder"`
	DecOpaque bool     `json:"decopaque"`
	FmtInts   bool     `json:"fmtints"`
	Only      string   `json:"only"` // "thorough": skip in quick
	NoSamples bool     `json:"nosamples"`
	Splits    int      `json:"-"`
}

type checkCfg struct {
	ID          string       `json:"id"`
	Title       string       `json:"title"`
	Harnesses   []harnessCfg `json:"harnesses"`
	Assumptions []string     `json:"assumptions"`
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Fixed    string `json:"fixed"` // informative: "fixed: property=<id> <commit> <what failed>"
}

type caseJ struct {
	Harness string            `json:"harness"`
	Inputs  map[string]string `json:"inputs"`
}

type resultJ struct {
	Harness string   `json:"harness"`
	Failed  []string `json:"failed"`
	Panic   string   `json:"panic"`
	Assume  bool     `json:"assume_failed"`
	Obs     []string `json:"obs"`
	Missing []string `json:"missing"`
}

const modPath = "github.com/initia-labs/minievm"

type checker struct {
	repo, verif string
	cfg         checkCfg
	tier        string
	tmp         string
	bin         string
	binErr      string
	hs          []harnessCfg
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

// buildNative links the harnesses of the check against the real code.
func (c *checker) buildNative() {
	if c.bin != "" || c.binErr != "" {
		return
	}
	rep := map[string]string{}
	add := func(rel string) { rep[filepath.Join(c.repo, rel)] = filepath.Join(c.verif, "harness", rel) }
	add("internal/verifrt/rt.go")
	imports := map[string]string{}
	var body strings.Builder
	for _, h := range c.hs {
		for _, f := range h.Files {
			add(f)
		}
		al, ok := imports[h.Pkg]
		if !ok {
			al = fmt.Sprintf("p%d", len(imports))
			imports[h.Pkg] = al
		}
		fmt.Fprintf(&body, "\t\t%q: %s.%s,\n", h.Func, al, h.Func)
	}
	var src strings.Builder
	src.WriteString("package main\n\nimport (\n\trt \"" + modPath + "/internal/verifrt\"\n")
	for _, p := range sortedKeys(imports) {
		fmt.Fprintf(&src, "\t%s %q\n", imports[p], modPath+"/"+p)
	}
	src.WriteString(")\n\nfunc main() {\n\trt.RunAll(map[string]func(){\n" + body.String() + "\t})\n}\n")
	mainFile := filepath.Join(c.tmp, "main.go")
	must(os.WriteFile(mainFile, []byte(src.String()), 0o644))
	rep[filepath.Join(c.repo, "internal/verifmain/main.go")] = mainFile
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovFile := filepath.Join(c.tmp, "overlay.json")
	must(os.WriteFile(ovFile, ov, 0o644))
	bin := filepath.Join(c.tmp, "replay")
	ctx, cancel := context.WithTimeout(context.Background(), 600*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "build", "-overlay", ovFile, "-tags", "ledger test_ledger_mock", "-o", bin, "./internal/verifmain")
	cmd.Dir = c.repo
	cmd.Env = append(goEnv(), "CGO_ENABLED=1")
	out, err := cmd.CombinedOutput()
	if err != nil {
		c.binErr = fmt.Sprintf("%v: %s", err, tail(string(out), 2000))
		return
	}
	c.bin = bin
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// native runs the cases one process each (a crash must not hide the others).
func (c *checker) native(cs []caseJ, timeout time.Duration) ([]*resultJ, []string) {
	res := make([]*resultJ, len(cs))
	errs := make([]string, len(cs))
	sem := make(chan bool, runtime.NumCPU())
	done := make(chan bool)
	for i := range cs {
		go func(i int) {
			sem <- true
			defer func() { <-sem; done <- true }()
			in := filepath.Join(c.tmp, fmt.Sprintf("case%d.json", i))
			outf := filepath.Join(c.tmp, fmt.Sprintf("res%d.json", i))
			b, _ := json.Marshal([]caseJ{cs[i]})
			os.WriteFile(in, b, 0o644)
			os.Remove(outf)
			ctx, cancel := context.WithTimeout(context.Background(), timeout)
			defer cancel()
			cmd := exec.CommandContext(ctx, c.bin)
			cmd.Dir = c.tmp
			home := filepath.Join(c.tmp, fmt.Sprintf("home%d", i))
			os.MkdirAll(home, 0o755)
			cmd.Env = []string{"HOME=" + home, "TMPDIR=" + c.tmp, "PATH=/usr/bin:/bin", "VERIF_CASES=" + in, "VERIF_RESULTS=" + outf, "VERIF_BOUND_TIER=" + c.tier}
			o, err := cmd.CombinedOutput()
			if d, e := os.ReadFile(outf); e == nil {
				var r []resultJ
				if json.Unmarshal(d, &r) == nil && len(r) == 1 {
					res[i] = &r[0]
					return
				}
			}
			errs[i] = fmt.Sprintf("%v %s", err, tail(string(o), 1500))
			if ctx.Err() != nil {
				errs[i] = "timeout " + errs[i]
			}
		}(i)
	}
	for range cs {
		<-done
	}
	return res, errs
}

func cmdCheck(args []string) {
	t0 := time.Now()
	if len(args) < 1 {
		fatal("check <ID>")
	}
	id := args[0]
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	tierF := fs.String("tier", "", "")
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("only", "", "harness function")
	verb := fs.Bool("v", false, "")
	fs.Parse(args[1:])
	tier := *tierF
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &checker{repo: *repo, verif: *verif, tier: tier}
	b, err := os.ReadFile(filepath.Join(*verif, "checks", id+".json"))
	must(err)
	must(json.Unmarshal(b, &c.cfg))
	c.tmp, err = os.MkdirTemp("", "verif-"+id+"-")
	must(err)
	defer os.RemoveAll(c.tmp)
	code := c.run(t0, tier, seed, *only, *verb)
	os.RemoveAll(c.tmp)
	os.Exit(code)
}

type harnessReport struct {
	Harness     string         `json:"harness"`
	Package     string         `json:"package"`
	Bounds      string         `json:"bounds"`
	Paths       int            `json:"paths"`
	Ends        map[string]int `json:"path_ends"`
	Exhausted   bool           `json:"all_paths_within_bounds_explored"`
	Queries     int64          `json:"solver_queries"`
	Sat         int64          `json:"sat"`
	Unsat       int64          `json:"unsat"`
	Unknown     int64          `json:"unknown"`
	SolverS     float64        `json:"solver_s"`
	WallS       float64        `json:"wall_s"`
	Obligations map[string]int `json:"assertions_reached"`
	Reached     map[string]int `json:"witness_labels_reached"`
	Vacuous     []string       `json:"witness_labels_missed,omitempty"`
	FnsRepo     []string       `json:"repo_functions_encoded"`
	FnsOther    int            `json:"dependency_functions_encoded"`
	Instrs      int            `json:"ssa_instructions_encoded"`
	Intrinsics  []string       `json:"modelled_functions"`
	Undecided   map[string]int `json:"undecided,omitempty"`
	Validated   int            `json:"path_models_run_natively"`
	ValMismatch []string       `json:"native_disagreements,omitempty"`
	SolverErr   int64          `json:"solver_errors,omitempty"`
	Error       string         `json:"error,omitempty"`
}

func (c *checker) run(t0 time.Time, tier string, seed int, only string, verb bool) int {
	overall := t0.Add(780 * time.Second)
	if tier == "thorough" {
		overall = t0.Add(4 * time.Hour)
	}
	if err := os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755); err != nil {
		fatal("%v", err)
	}
	var known []knownFinding
	if b, err := os.ReadFile(filepath.Join(c.verif, "known_findings.json")); err == nil {
		must(json.Unmarshal(b, &known))
	}
	ov := map[string][]byte{}
	pats := map[string]bool{}
	for _, h := range c.cfg.Harnesses {
		if only != "" && h.Func != only || h.Only == "thorough" && tier != "thorough" {
			continue
		}
		c.hs = append(c.hs, h)
		addHarness(ov, c.repo, filepath.Join(c.verif, "harness"), h.Files)
		pats["./"+h.Pkg] = true
	}
	pr, pkgs, errs, err := load(c.repo, ov, sortedKeys(pats))
	if err != nil {
		fatal("load: %v", err)
	}
	fmt.Printf("%s: loaded %d harness packages in %.1fs (tier %s)\n", c.cfg.ID, len(pkgs), time.Since(t0).Seconds(), tier)
	bad := map[string]string{}
	for _, e := range errs {
		for f := range ov {
			if strings.Contains(e, f) {
				bad[f] = e
			}
		}
		fmt.Println("source error:", e)
	}
	type job struct {
		h  harnessCfg
		x  *Explorer
		rp *harnessReport
	}
	var jobs []*job
	okCount := 0
	totalBudget := 0
	for _, h := range c.hs {
		totalBudget += h.budget(tier)
	}
	for _, h := range c.hs {
		rp := &harnessReport{Harness: h.Func, Package: h.Pkg, Bounds: h.Bounds}
		j := &job{h: h, rp: rp}
		jobs = append(jobs, j)
		for _, f := range h.Files {
			if e := bad[filepath.Join(c.repo, f)]; e != "" {
				rp.Error = "harness does not fit the tree: " + e
			}
		}
		sp := pkgs[modPath+"/"+h.Pkg]
		var f *ssa.Function
		if sp != nil && rp.Error == "" {
			pr.mu.Lock()
			sp.Build()
			f = sp.Func(h.Func)
			pr.mu.Unlock()
		}
		if f == nil {
			if rp.Error == "" {
				rp.Error = "no harness function"
			}
			fmt.Printf("  %s: %s\n", h.Func, rp.Error)
			continue
		}
		pr.mu.Lock()
		fn := pr.fnOf(f)
		pr.mu.Unlock()
		cfg := defaultCfg()
		cfg.Time = time.Duration(h.budget(tier)) * time.Second
		if left := time.Until(overall); left < cfg.Time {
			cfg.Time = left
		}
		cfg.PathTime = cfg.Time
		cfg.Thorough = tier == "thorough"
		cfg.MapOrder, cfg.DecOpaque, cfg.FmtInts = h.MapOrder, h.DecOpaque, h.FmtInts
		cfg.Samples = 6
		if h.NoSamples {
			cfg.Samples = 0
		}
		hs0 := time.Now()
		x := NewExplorer(pr, fn, h.Func, cfg)
		x.Run()
		j.x = x
		okCount++
		rp.fill(x, pr, h)
		rp.WallS = time.Since(hs0).Seconds()
		if verb {
			x.report(os.Stdout, true)
		} else {
			fmt.Printf("  %s: paths %d ends %v exhausted %v queries %d (unknown %d) %.1fs\n", h.Func, x.Paths, x.Ends, x.Exhausted, x.solver.Queries, x.solver.Unknown, rp.WallS)
		}
		if x.Crash != "" {
			fmt.Println("  engine crash:", firstLine(x.Crash))
		}
	}
	if okCount == 0 {
		fatal("no harness of %s fits this tree", c.cfg.ID)
	}
	// drop harnesses that do not build from the native binary
	var hs []harnessCfg
	for _, j := range jobs {
		if j.x != nil {
			hs = append(hs, j.h)
		}
	}
	c.hs = hs
	type vref struct {
		j *job
		v Violation
	}
	var cases []caseJ
	var vrefs []vref
	for _, j := range jobs {
		if j.x == nil {
			continue
		}
		for _, v := range j.x.Violations {
			vrefs = append(vrefs, vref{j, v})
			cases = append(cases, caseJ{j.h.Func, v.Inputs})
		}
	}
	nv := len(cases)
	type sref struct {
		j *job
		s Sample
	}
	var srefs []sref
	for _, j := range jobs {
		if j.x == nil {
			continue
		}
		for _, s := range j.x.Samples {
			srefs = append(srefs, sref{j, s})
			cases = append(cases, caseJ{j.h.Func, s.Inputs})
		}
	}
	var out []string
	code := 0
	nviol := 0
	var unrep []string
	if len(cases) > 0 {
		c.buildNative()
	}
	if c.binErr != "" {
		fmt.Println("  native build failed:", c.binErr)
	}
	reported := map[string]bool{}
	knownSeen := map[string]bool{}
	var replays []map[string]any
	if c.bin != "" {
		res, nerr := c.native(cases, 120*time.Second)
		report := func(h, label string, in map[string]string, r *resultJ, at string) {
			for _, k := range known {
				if k.Fixed == "" && k.Property == c.cfg.ID && k.Harness == h && k.Label == label {
					if !knownSeen[k.Label+k.Harness] {
						knownSeen[k.Label+k.Harness] = true
						out = append(out, fmt.Sprintf("KNOWN-FINDING: property=%s %s", c.cfg.ID, k.What))
					}
					return
				}
			}
			nviol++
			if reported[h+label] {
				return
			}
			reported[h+label] = true
			p := filepath.Join(c.verif, "evidence", fmt.Sprintf("%s-replay-%d.json", c.cfg.ID, len(reported)))
			d := map[string]any{"property": c.cfg.ID, "harness": h, "assertion": label, "inputs": in, "at": at, "native": r,
				"how": "inputs found by the solver; the harness was compiled against the real code and failed on them natively"}
			jb, _ := json.MarshalIndent(d, "", " ")
			os.WriteFile(p, jb, 0o644)
			replays = append(replays, d)
			out = append(out, fmt.Sprintf("  %s: %s\n    at %s", h, label, at))
			out = append(out, fmt.Sprintf("VIOLATION property=%s replay=%s", c.cfg.ID, p))
			code = 1
		}
		for i, v := range vrefs {
			r := res[i]
			if r == nil {
				if v.v.Panic && strings.Contains(nerr[i], "fatal error") {
					report(v.j.h.Func, v.v.Label, v.v.Inputs, &resultJ{Panic: nerr[i]}, v.v.At)
				} else {
					unrep = append(unrep, v.j.h.Func+": "+v.v.Label+" (native run failed: "+nerr[i]+")")
				}
				continue
			}
			hit := false
			for _, f := range r.Failed {
				if f == v.v.Label {
					hit = true
				}
			}
			if v.v.Panic && r.Panic != "" && r.Panic != "no such harness" {
				hit = true
			}
			if !hit && len(r.Failed) > 0 {
				// another assertion of the same harness fails on the real code
				report(v.j.h.Func, r.Failed[0], v.v.Inputs, r, v.v.At)
				continue
			}
			if !hit {
				unrep = append(unrep, fmt.Sprintf("%s: %s (native: assume_failed=%v panic=%q missing=%v)", v.j.h.Func, v.v.Label, r.Assume, r.Panic, r.Missing))
				continue
			}
			label := v.v.Label
			report(v.j.h.Func, label, v.v.Inputs, r, v.v.At)
		}
		for i, s := range srefs {
			r := res[nv+i]
			rp := s.j.rp
			if r == nil {
				rp.ValMismatch = append(rp.ValMismatch, "native run failed: "+nerr[nv+i])
				continue
			}
			if r.Panic != "" || len(r.Failed) > 0 {
				if r.Assume {
					continue
				}
				rp.ValMismatch = append(rp.ValMismatch, fmt.Sprintf("native failed=%v panic=%q", r.Failed, r.Panic))
				lab := "panic"
				if len(r.Failed) > 0 {
					lab = r.Failed[0]
				}
				if len(r.Failed) > 0 {
					report(s.j.h.Func, lab, s.s.Inputs, r, "path model executed natively")
				}
				continue
			}
			if r.Assume {
				rp.ValMismatch = append(rp.ValMismatch, "native run rejected the assumptions of a path model")
				continue
			}
			if strings.Join(r.Obs, "\n") != strings.Join(s.s.Obs, "\n") {
				rp.ValMismatch = append(rp.ValMismatch, fmt.Sprintf("observations differ: engine %v native %v", s.s.Obs, r.Obs))
				continue
			}
			rp.Validated++
		}
	} else {
		for _, v := range vrefs {
			unrep = append(unrep, v.j.h.Func+": "+v.v.Label+" (no native build)")
		}
	}
	// evidence
	ev := map[string]any{"property": c.cfg.ID, "tier": tier, "seed": seed, "level": "other", "violations": nviol}
	var hrs []*harnessReport
	var q, sat, unsat, unk, oblig int64
	var solv float64
	paths, val, fnsTotal := 0, 0, map[string]bool{}
	exh := true
	for _, j := range jobs {
		hrs = append(hrs, j.rp)
		q, sat, unsat, unk = q+j.rp.Queries, sat+j.rp.Sat, unsat+j.rp.Unsat, unk+j.rp.Unknown
		solv += j.rp.SolverS
		paths += j.rp.Paths
		val += j.rp.Validated
		for _, n := range j.rp.Obligations {
			oblig += int64(n)
		}
		for _, f := range j.rp.FnsRepo {
			fnsTotal[f] = true
		}
		exh = exh && j.rp.Exhausted && j.rp.Error == "" && len(j.rp.Vacuous) == 0
		if len(j.rp.Vacuous) > 0 {
			fmt.Printf("  %s: witness labels not reached: %v\n", j.rp.Harness, j.rp.Vacuous)
		}
		for _, mm := range j.rp.ValMismatch {
			fmt.Printf("  %s: native disagreement: %s\n", j.rp.Harness, mm)
		}
	}
	for _, u := range unrep {
		fmt.Println("  not reproduced natively (not reported):", u)
	}
	sort.Strings(unrep)
	ev["coverage"] = map[string]any{
		"explanation": "The functions listed per harness are executed symbolically from the SSA form of /repo's current source; every assertion is decided by the SMT solver for all values of the symbolic inputs on each explored path. " +
			"all_paths_within_bounds_explored says whether every feasible path within the stated bounds was covered; undecided paths and unknown solver answers are counted and are outside the result.",
		"harnesses": hrs, "paths": paths, "solver_queries": q, "solver_sat": sat, "solver_unsat": unsat, "solver_unknown": unk, "solver_s": round2(solv),
		"assertions_checked": oblig, "repo_functions_encoded": len(fnsTotal), "path_models_validated_natively": val, "exhaustive": exh,
		"counterexamples_not_reproduced": unrep, "replays": replays,
	}
	ev["assumptions"] = append([]string{}, c.cfg.Assumptions...)
	ev["wall_s"] = round2(time.Since(t0).Seconds())
	jb, _ := json.MarshalIndent(ev, "", " ")
	must(os.WriteFile(filepath.Join(c.verif, "evidence", c.cfg.ID+".json"), append(jb, '\n'), 0o644))
	for _, o := range out {
		fmt.Println(o)
	}
	fmt.Printf("%s: %d paths, %d assertions, %d queries, exhaustive=%v, %.1fs, exit %d\n", c.cfg.ID, paths, oblig, q, exh, time.Since(t0).Seconds(), code)
	return code
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }
func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (h *harnessCfg) budget(tier string) int {
	q := h.Quick
	if q == 0 {
		q = 60
	}
	if tier == "thorough" {
		if h.Thorough > 0 {
			return h.Thorough
		}
		return q * 10
	}
	return q
}

func (rp *harnessReport) fill(x *Explorer, pr *Prog, h harnessCfg) {
	rp.Paths, rp.Ends, rp.Exhausted = x.Paths, x.Ends, x.Exhausted
	rp.Queries, rp.Sat, rp.Unsat, rp.Unknown = int64(x.solver.Queries), int64(x.solver.Sat), int64(x.solver.Unsat), int64(x.solver.Unknown)
	rp.SolverErr = int64(x.solver.Errors)
	rp.SolverS = round2(x.solver.Time.Seconds())
	rp.Obligations, rp.Reached = x.Obligations, x.Reached
	for _, l := range h.Reach {
		if x.Reached[l] == 0 {
			rp.Vacuous = append(rp.Vacuous, l)
		}
	}
	for f, n := range x.Encoded {
		rp.Instrs += n
		if strings.Contains(f, modPath) {
			s := strings.ReplaceAll(f, modPath+"/", "")
			if strings.Contains(s, "internal/verif") || strings.Contains(s, ".ZV_") || strings.Contains(s, ".zv") || strings.Contains(s, ".init") {
				continue
			}
			rp.FnsRepo = append(rp.FnsRepo, s)
		} else {
			rp.FnsOther++
		}
	}
	sort.Strings(rp.FnsRepo)
	for f := range x.IntrUsed {
		if !strings.Contains(f, "internal/verifrt") {
			rp.Intrinsics = append(rp.Intrinsics, strings.ReplaceAll(f, modPath+"/", ""))
		}
	}
	sort.Strings(rp.Intrinsics)
	rp.Undecided = map[string]int{}
	for k, n := range x.Reasons {
		if !strings.HasPrefix(k, "panic: ") {
			rp.Undecided[k] = n
		}
	}
	for k, n := range x.Unknowns {
		rp.Undecided["solver unknown: "+k] = n
	}
	for _, k := range []string{"unsupported", "budget", "incomplete"} {
		if x.Ends[k] > 0 {
			rp.Exhausted = false
		}
	}
	if rp.Unknown > 0 && len(x.Unknowns) > 0 {
		rp.Exhausted = false
	}
}

func selftest() {}
