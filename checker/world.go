package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	headers map[*ssa.Function][]string // of benchmark records

	root   string
	mod    string
	fset   *token.FileSet
	pkgs   map[string]*packages.Package // plain packages by path
	tests  []*packages.Package
	prog   *ssa.Program
	main   []*packages.Package
	inmod  map[string]bool
	allTop []*packages.Package
}

func loadWorld(root string, tests bool) (*World, error) {
	w := &World{root: root, pkgs: map[string]*packages.Package{}, inmod: map[string]bool{}}
	cfg := &packages.Config{
		Mode:  packages.LoadAllSyntax | packages.NeedModule,
		Dir:   root,
		Tests: tests,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages in %s", root)
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	w.fset = ps[0].Fset
	w.allTop = ps
	for _, p := range ps {
		if p.Module != nil && w.mod == "" {
			w.mod = p.Module.Path
		}
	}
	if w.mod == "" {
		return nil, fmt.Errorf("no module found")
	}
	for _, p := range ps {
		if strings.HasSuffix(p.ID, ".test") {
			continue
		}
		if strings.Contains(p.ID, " [") {
			w.tests = append(w.tests, p)
			continue
		}
		w.pkgs[p.PkgPath] = p
		w.main = append(w.main, p)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w.prog = prog
	return w, nil
}

func (w *World) isRepo(path string) bool {
	return path == w.mod || strings.HasPrefix(path, w.mod+"/")
}

func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.fset.Position(p)
	rel, err := filepath.Rel(w.root, q.Filename)
	if err != nil || strings.HasPrefix(rel, "..") {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func (w *World) pkg(rel string) *packages.Package { return w.pkgs[w.mod+"/"+rel] }

func (w *World) ssaPkg(rel string) *ssa.Package {
	p := w.pkg(rel)
	if p == nil {
		return nil
	}
	return w.prog.Package(p.Types)
}

// fn finds a package-level function; name is "F" or "(T).M" / "(*T).M".
func (w *World) fn(rel, name string) *ssa.Function {
	sp := w.ssaPkg(rel)
	if sp == nil {
		return nil
	}
	if !strings.Contains(name, ".") {
		return sp.Func(name)
	}
	tn, mn, _ := strings.Cut(strings.Trim(name, "("), ").")
	ptr := strings.HasPrefix(tn, "*")
	tn = strings.TrimPrefix(tn, "*")
	o := sp.Pkg.Scope().Lookup(tn)
	if o == nil {
		return nil
	}
	var t types.Type = o.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	ms := types.NewMethodSet(t)
	s := ms.Lookup(sp.Pkg, mn)
	if s == nil {
		return nil
	}
	return w.prog.MethodValue(s)
}

// method finds a method on type T of package rel by value or pointer receiver.
func (w *World) method(rel, tn, mn string) *ssa.Function {
	if f := w.fn(rel, "(*"+tn+")."+mn); f != nil {
		return f
	}
	return w.fn(rel, "("+tn+")."+mn)
}

// repoFuncs lists every function with a body declared in the repository (plain packages), including literals.
func (w *World) repoFuncs() []*ssa.Function {
	all := ssautil.AllFunctions(w.prog)
	var out []*ssa.Function
	plain := map[*types.Package]bool{}
	for _, p := range w.main {
		plain[p.Types] = true
	}
	for f := range all {
		if f.Blocks == nil {
			continue
		}
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Pkg == nil || !plain[root.Pkg.Pkg] {
			continue
		}
		if f.Synthetic != "" && f.Name() != "init" {
			continue
		}
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// allFuncs lists every function of the program, test packages included when loaded.
func (w *World) allFuncs() (out []*ssa.Function) {
	for f := range ssautil.AllFunctions(w.prog) {
		out = append(out, f)
	}
	return
}

func (w *World) named(rel, name string) types.Type {
	p := w.pkg(rel)
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (w *World) fileOf(p token.Pos) *ast.File {
	for _, pk := range w.main {
		for _, f := range pk.Syntax {
			if f.FileStart <= p && p <= f.FileEnd {
				return f
			}
		}
	}
	return nil
}
