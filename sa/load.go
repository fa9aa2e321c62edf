package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir = "/repo"
	tmpDir  string
)

type Program struct {
	prog  *ssa.Program
	pkgs  []*packages.Package
	byID  map[string]*ssa.Package
	files int
}

var prg *Program

// loadProgram type-checks the working tree of the repository together with the
// reference model (an overlay, nothing is written to the repository).
func loadProgram(overlay map[string][]byte, patterns ...string) (*Program, error) {
	modfile := filepath.Join(tmpDir, "go.mod")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repoDir, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmpDir, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: overlay,
		BuildFlags: []string{"-modfile=" + modfile, "-mod=mod"},
		Env:        append(os.Environ(), "GOFLAGS=-buildvcs=false", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: pkgs, byID: map[string]*ssa.Package{}}
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		if sp := prog.Package(q.Types); sp != nil {
			p.byID[q.PkgPath] = sp
		}
		if strings.HasPrefix(q.PkgPath, repoModule) {
			p.files += len(q.GoFiles)
		}
	})
	return p, nil
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.byID[pkg]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		t := sp.Type(name[:i])
		if t == nil {
			return nil
		}
		for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			if sel := p.prog.MethodSets.MethodSet(ty).Lookup(sp.Pkg, name[i+1:]); sel != nil {
				if m := p.prog.MethodValue(sel); m != nil {
					return m
				}
			}
		}
		return nil
	}
	return sp.Func(name)
}

const (
	pkgCompare = repoModule + "/pkg/compare"
	pkgLinter  = repoModule + "/pkg/linter"
	pkgUtils   = repoModule + "/utils"
	pkgCmd     = repoModule + "/cmd"
	pkgAst     = "github.com/vektah/gqlparser/v2/ast"
)

// functions of the schema library that stay symbolic
var keepAst = map[string]bool{
	"(*github.com/vektah/gqlparser/v2/ast.Type).Name":    true,
	"(*github.com/vektah/gqlparser/v2/ast.Type).String":  true,
	"(*github.com/vektah/gqlparser/v2/ast.Value).String": true,
}

func inlineFn(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if strings.HasPrefix(p, repoModule) {
		return true
	}
	switch p {
	case pkgAst:
		return !keepAst[fn.String()]
	case "slices", "maps", "cmp", "iter":
		return true
	case "strings":
		switch fn.Name() {
		case "ContainsFunc", "IndexFunc", "indexFunc":
			return true
		}
	}
	return false
}

func newEvaluator(p *Program) *Evaluator {
	e := &Evaluator{prog: p.prog, globals: newState(), rec: map[string]*recInfo{}, recActive: map[*ssa.Function]*recInfo{}, inline: inlineFn,
		inited: map[*ssa.Package]bool{}, funcs: map[*ssa.Function]bool{}}
	e.cut = cutFn
	return e
}
