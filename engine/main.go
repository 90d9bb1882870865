package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"))
	os.Unsetenv("GOROOT")
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo run|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	case "selftest":
		selftest()
	}
}

func defaultCfg() Config {
	return Config{MaxSteps: 200_000_000, MaxDecisions: 4000, MaxConcretize: 300, Time: 60 * time.Second, PathTime: 60 * time.Second, Workers: runtime.NumCPU(),
		SolverTime: 10 * time.Second, FallbackTime: 20 * time.Second, AfterViol: 20 * time.Second}
}

// cmdRun: developer entry point
func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	pkg := fs.String("pkg", "", "package dir relative to the repo")
	fn := fs.String("f", "", "harness functions, comma separated")
	files := fs.String("files", "", "harness files (relative to harness dir), comma separated")
	hd := fs.String("harness", "/verif/harness", "")
	tm := fs.Int("t", 60, "seconds")
	w := fs.Int("w", runtime.NumCPU(), "workers")
	verb := fs.Bool("v", false, "")
	th := fs.Bool("thorough", false, "")
	mo := fs.Bool("maporder", false, "")
	mp := fs.Int("paths", 0, "")
	deco := fs.Bool("decopaque", false, "")
	fi := fs.Bool("fmtints", false, "")
	prof := fs.String("prof", "", "")
	inits := fs.Bool("inits", false, "")
	fs.BoolVar(&debugInit, "debuginit", false, "")
	fs.Parse(args)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	ov := map[string][]byte{}
	addHarness(ov, *repo, *hd, strings.Split(*files, ","))
	t0 := time.Now()
	pr, pkgs, errs, err := load(*repo, ov, []string{"./" + *pkg})
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	for _, e := range errs {
		fmt.Println("error:", e)
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	for _, sp := range pkgs {
		for _, name := range strings.Split(*fn, ",") {
			pr.mu.Lock()
			sp.Build()
			f := sp.Func(name)
			if f == nil {
				fmt.Println("no function", name)
				os.Exit(2)
			}
			h := pr.fnOf(f)
			pr.mu.Unlock()
			cfg := defaultCfg()
			cfg.Time = time.Duration(*tm) * time.Second
			cfg.PathTime = cfg.Time
			cfg.Workers, cfg.Verbose, cfg.Thorough, cfg.MapOrder, cfg.MaxPaths = *w, *verb, *th, *mo, *mp
			cfg.DecOpaque, cfg.FmtInts = *deco, *fi
			x := NewExplorer(pr, h, name, cfg)
			x.Run()
			x.report(os.Stdout, *verb)
			if *inits {
				for _, k := range sortedKeys(x.InitFails) {
					fmt.Println("INIT", k, "->", x.InitFails[k])
				}
			}
		}
	}
}

func addHarness(ov map[string][]byte, repo, hd string, files []string) {
	add := func(rel string) {
		b, err := os.ReadFile(filepath.Join(hd, rel))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		ov[filepath.Join(repo, rel)] = b
	}
	add("internal/verifrt/rt.go")
	for _, f := range files {
		if f != "" {
			add(f)
		}
	}
}

func (x *Explorer) report(w *os.File, verb bool) {
	fmt.Fprintf(w, "== %s: paths %d ends %v exhausted %v time %.1fs maxdec %d\n", x.name, x.Paths, x.Ends, x.Exhausted, time.Since(x.start).Seconds(), x.maxDec)
	fmt.Fprintf(w, "   queries %d sat %d unsat %d unknown %d fallback %d errors %d solver %.1fs\n", x.solver.Queries, x.solver.Sat, x.solver.Unsat, x.solver.Unknown, x.solver.Fallback, x.solver.Errors, x.solver.Time.Seconds())
	for _, k := range sortedKeys(x.Obligations) {
		fmt.Fprintf(w, "   assert %-50s %d\n", k, x.Obligations[k])
	}
	for _, k := range sortedKeys(x.Reached) {
		fmt.Fprintf(w, "   reach  %-50s %d\n", k, x.Reached[k])
	}
	for _, k := range sortedKeys(x.Reasons) {
		fmt.Fprintf(w, "   END x%d %s\n", x.Reasons[k], k)
	}
	for _, k := range sortedKeys(x.Unknowns) {
		fmt.Fprintf(w, "   UNKNOWN x%d %s\n", x.Unknowns[k], k)
	}
	for _, v := range x.Violations {
		fmt.Fprintf(w, "   VIOL %s @ %s\n", v.Label, v.At)
		for _, k := range sortedKeys(v.Inputs) {
			fmt.Fprintf(w, "        %s = %s\n", k, v.Inputs[k])
		}
	}
	if x.Crash != "" {
		fmt.Fprintln(w, "CRASH", x.Crash)
	}
	if verb {
		for _, s := range x.topForks(25) {
			fmt.Fprintln(w, "   fork", s)
		}
		var n int
		for _, c := range x.Encoded {
			n += c
		}
		fmt.Fprintf(w, "   encoded %d functions %d instrs, %d intrinsics\n", len(x.Encoded), n, len(x.IntrUsed))
		ks := sortedKeys(x.IntrUsed)
		sort.Strings(ks)
		fmt.Fprintln(w, "   intr:", strings.Join(ks, " "))
	}
}
