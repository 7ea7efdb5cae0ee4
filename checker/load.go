package main

import (
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the analysed program: the current source of /repo, type-checked and in SSA form.
type World struct {
	Root    string
	ModPath string
	Pkgs    []*packages.Package
	Prog    *ssa.Program
	Repo    map[*ssa.Package]bool // packages of the repository itself
	Interp  map[string]bool       // std packages whose bodies may be inlined
	ByPath  map[string]*ssa.Package
	NFuncs  int
	Globals []*ssa.Package // repo packages in init order
}

var interpretableStd = []string{
	"slices", "maps", "cmp", "iter", "errors", "sort", "container/list", "unicode/utf8", "strings", "bytes", "math/bits", "container/heap", "path", "internal/stringslite", "internal/bytealg", "unicode",
}

func repoRoot() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func loadWorld() (*World, error) {
	root := repoRoot()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: root, Fset: token.NewFileSet(), Tests: false}
	cfg.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check of %s failed: %s", root, strings.Join(errs, "; "))
	}
	w := &World{Root: root, Pkgs: pkgs, Repo: map[*ssa.Package]bool{}, Interp: map[string]bool{}, ByPath: map[string]*ssa.Package{}}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	w.Prog = prog
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	for _, p := range pkgs {
		if p.Module != nil && w.ModPath == "" {
			w.ModPath = p.Module.Path
		}
		sp := prog.Package(p.Types)
		if sp == nil {
			continue
		}
		sp.Build()
		w.Repo[sp] = true
		w.ByPath[p.PkgPath] = sp
	}
	for _, s := range interpretableStd {
		w.Interp[s] = true
	}
	for _, sp := range prog.AllPackages() {
		if w.Interp[sp.Pkg.Path()] || sp.Pkg.Path() == "fmt" {
			sp.Build()
		}
		if _, ok := w.ByPath[sp.Pkg.Path()]; !ok {
			w.ByPath[sp.Pkg.Path()] = sp
		}
	}
	// init order: dependencies first
	seen := map[string]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p.PkgPath] {
			return
		}
		seen[p.PkgPath] = true
		var keys []string
		for k := range p.Imports {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			visit(p.Imports[k])
		}
		if sp := w.ByPath[p.PkgPath]; sp != nil && w.Repo[sp] {
			w.Globals = append(w.Globals, sp)
		}
	}
	for _, p := range pkgs {
		visit(p)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && w.Repo[fn.Pkg] {
			w.NFuncs++
		}
	}
	return w, nil
}

// pkgSuffix finds the repo package whose import path ends with suffix.
func (w *World) pkg(suffix string) *ssa.Package {
	for _, sp := range w.Globals {
		if sp.Pkg.Path() == w.ModPath+"/"+suffix || (suffix == "" && sp.Pkg.Path() == w.ModPath) {
			return sp
		}
	}
	return nil
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := w.Prog.Fset.Position(p)
	f := q.Filename
	if rel, err := filepath.Rel(w.Root, f); err == nil && !strings.HasPrefix(rel, "..") {
		f = rel
	} else {
		f = filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
