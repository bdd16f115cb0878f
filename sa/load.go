package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	modPath   = "github.com/go-ego/gse"
	cedarPath = "github.com/vcaesar/cedar"
)

var debugFn string

// World is the type-checked program and its SSA form.
type World struct {
	Repo  string
	Fset  *token.FileSet
	Pkgs  map[string]*packages.Package
	Prog  *ssa.Program
	SSA   map[string]*ssa.Package
	Funcs []*ssa.Function // every source function of the repository, sorted
	Cedar []*ssa.Function
}

// Ctx is one run of one check.
type Ctx struct {
	*World
	R *Report
}

func load(repo string) (*World, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadSyntax | packages.NeedModule,
		Dir:        repo,
		BuildFlags: []string{"-tags=ne", "-mod=mod"},
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local",
			"GO111MODULE=on", "GOWORK=off", "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, "./...", cedarPath)
	if err != nil {
		return nil, err
	}
	w := &World{Repo: repo, Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors)
		}
		w.Pkgs[p.PkgPath] = p
		w.Fset = p.Fset
	}
	if w.Pkgs[modPath] == nil || w.Pkgs[cedarPath] == nil {
		return nil, fmt.Errorf("package %s or %s not loaded", modPath, cedarPath)
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	w.Prog = prog
	for i, p := range ps {
		w.SSA[p.PkgPath] = sp[i]
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil || fn.Pkg == nil {
			continue
		}
		switch {
		case fn.Pkg.Pkg.Path() == cedarPath:
			w.Cedar = append(w.Cedar, fn)
		case strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath):
			w.Funcs = append(w.Funcs, fn)
		}
	}
	less := func(s []*ssa.Function) {
		sort.Slice(s, func(i, j int) bool {
			if a, b := s[i].RelString(nil), s[j].RelString(nil); a != b {
				return a < b
			}
			return s[i].Pos() < s[j].Pos()
		})
	}
	less(w.Funcs)
	less(w.Cedar)
	return w, nil
}

// Lib reports whether fn belongs to the library packages (not examples, tools, data).
func (w *World) Lib(fn *ssa.Function) bool {
	if fn == nil || fn.Pkg == nil {
		return false
	}
	return libPath(fn.Pkg.Pkg.Path())
}

func libPath(p string) bool {
	if p == modPath {
		return true
	}
	return strings.HasPrefix(p, modPath+"/hmm")
}

func (w *World) InRepo(fn *ssa.Function) bool {
	return fn != nil && fn.Pkg != nil && (fn.Pkg.Pkg.Path() == modPath || strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath+"/"))
}

// Pos formats a position relative to the repository.
func (w *World) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.Fset.Position(p)
	f, err := filepath.Rel(w.Repo, q.Filename)
	if err != nil {
		f = q.Filename
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// Func finds a package-level function.
func (w *World) Func(pkg, name string) *ssa.Function {
	if p := w.SSA[pkg]; p != nil {
		return p.Func(name)
	}
	return nil
}

// Method finds a method of a named type (value or pointer receiver).
func (w *World) Method(pkg, typ, name string) *ssa.Function {
	p := w.SSA[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(typ)
	if t == nil {
		return nil
	}
	for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		sel := w.Prog.MethodSets.MethodSet(T).Lookup(p.Pkg, name)
		if sel != nil {
			if f := w.Prog.MethodValue(sel); f != nil && f.Synthetic == "" {
				return f
			}
		}
	}
	return nil
}

// Named returns the named type of a package.
func (w *World) Named(pkg, name string) *types.Named {
	p := w.Pkgs[pkg]
	if p == nil || p.Types == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func short(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	s := fn.RelString(nil)
	return strings.ReplaceAll(s, modPath, "gse")
}

// exported API: exported functions and methods of exported or unexported types.
func isAPI(fn *ssa.Function) bool {
	return fn.Parent() == nil && ast.IsExported(fn.Name()) && fn.Synthetic == ""
}
