package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		if strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GO") || strings.HasPrefix(e, "CGO_") {
			continue
		}
		out = append(out, e)
	}
	path := os.Getenv("PATH")
	out = append(out, "PATH=/opt/veriftools/go1.23.12/bin:"+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+goCache(), "GOSUMDB=off", "GONOSUMDB=*")
	return out
}

func goCache() string {
	if c := os.Getenv("GOCACHE"); c != "" {
		return c
	}
	return "/root/.cache/go-build"
}

func load(repo string, overlay map[string][]byte, patterns []string) (*Prog, map[string]*ssa.Package, []string, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo, Env: append(goEnv(), "CGO_ENABLED=0"), Overlay: overlay,
		BuildFlags: []string{"-tags=ledger test_ledger_mock"},
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, nil, nil, err
	}
	var errs []string
	var sizes types.Sizes
	prog := ssa.NewProgram(pkgs[0].Fset, ssa.InstantiateGenerics)
	seen := map[*packages.Package]bool{}
	var create func(p *packages.Package)
	create = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports {
			create(q)
		}
		if p.Types == nil {
			return
		}
		if p.TypesSizes != nil {
			sizes = p.TypesSizes
		}
		files := p.Syntax
		if p.IllTyped && len(p.Errors) > 0 {
			if strings.Contains(p.PkgPath, "initia-labs/minievm") {
				for _, e := range p.Errors {
					errs = append(errs, e.Error())
				}
			}
		}
		if p.IllTyped {
			files = stripBad(p)
		}
		prog.CreatePackage(p.Types, files, p.TypesInfo, true)
	}
	for _, p := range pkgs {
		create(p)
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	pr := &Prog{prog: prog, fset: prog.Fset, fns: map[*ssa.Function]*Fn{}, impls: map[[2]any]bool{}, sizes: sizes, msets: map[string]*Fn{}, skipInit: map[string]bool{}}
	out := map[string]*ssa.Package{}
	for _, p := range pkgs {
		if p.Types != nil {
			out[p.PkgPath] = prog.Package(p.Types)
		}
	}
	return pr, out, errs, nil
}

// stripBad drops the function bodies in which the type checker recorded errors.
func stripBad(p *packages.Package) []*ast.File {
	bad := map[string]bool{}
	for _, e := range p.TypeErrors {
		pos := e.Fset.Position(e.Pos)
		bad[fmt.Sprintf("%s:%d", pos.Filename, pos.Line)] = true
	}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			s, e := p.Fset.Position(fd.Body.Pos()), p.Fset.Position(fd.Body.End())
			for l := s.Line; l <= e.Line; l++ {
				if bad[fmt.Sprintf("%s:%d", s.Filename, l)] {
					fd.Body = nil
					break
				}
			}
		}
	}
	return p.Syntax
}
