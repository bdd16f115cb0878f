package main

import (
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// C25: the build with embedded dictionaries and the build without them offer the same package interface.

func init() { register("C25", checkVariants) }

type worldImporter struct {
	m   map[string]*types.Package
	src types.Importer
}

func (wi *worldImporter) Import(path string) (*types.Package, error) {
	if p := wi.m[path]; p != nil {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return wi.src.Import(path)
}

func fileTags(src []byte, f *ast.File) constraint.Expr {
	var plus constraint.Expr
	for _, cg := range f.Comments {
		if cg.Pos() >= f.Package {
			break
		}
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) {
				if e, err := constraint.Parse(c.Text); err == nil {
					return e
				}
			}
			if constraint.IsPlusBuild(c.Text) {
				if e, err := constraint.Parse(c.Text); err == nil {
					if plus == nil {
						plus = e
					} else {
						plus = &constraint.AndExpr{X: plus, Y: e}
					}
				}
			}
		}
	}
	return plus
}

func collectTags(e constraint.Expr, out map[string]bool) {
	switch e := e.(type) {
	case *constraint.TagExpr:
		out[e.Tag] = true
	case *constraint.NotExpr:
		collectTags(e.X, out)
	case *constraint.AndExpr:
		collectTags(e.X, out)
		collectTags(e.Y, out)
	case *constraint.OrExpr:
		collectTags(e.X, out)
		collectTags(e.Y, out)
	}
}

func checkVariants(c *Ctx) {
	c.R.Rule = "every library package whose files carry build tags is type-checked once per setting of the user-defined tags; " +
		"each setting must type-check, and must declare the same exported names with the same types (including method sets)"
	imp := &worldImporter{m: map[string]*types.Package{}}
	for _, p := range c.Pkgs {
		if p.Types == nil {
			continue
		}
		imp.m[p.PkgPath] = p.Types
		for path, q := range p.Imports {
			if q.Types != nil && q.Types.Complete() {
				imp.m[path] = q.Types
			}
		}
	}
	imp.src = importer.ForCompiler(token.NewFileSet(), "source", nil)
	var paths []string
	for p := range c.Pkgs {
		if libPath(p) {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	for _, path := range paths {
		dir := filepath.Join(c.Repo, strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/"))
		ents, err := os.ReadDir(dir)
		if err != nil {
			c.R.Fail("variant", path, dir, err.Error())
			continue
		}
		fset := token.NewFileSet()
		type file struct {
			f *ast.File
			e constraint.Expr
		}
		var files []file
		tags := map[string]bool{}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			fn := filepath.Join(dir, e.Name())
			src, err := os.ReadFile(fn)
			if err != nil {
				continue
			}
			f, err := parser.ParseFile(fset, fn, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				c.R.Fail("variant", path, fn, err.Error())
				continue
			}
			ex := fileTags(src, f)
			if ex != nil {
				collectTags(ex, tags)
			}
			files = append(files, file{f, ex})
		}
		var user []string
		for t := range tags {
			if strings.HasPrefix(t, "go1") || t == "ignore" || isSysTag(t) {
				continue
			}
			user = append(user, t)
		}
		sort.Strings(user)
		if len(user) > 4 {
			c.R.Fail("variant", path, dir, fmt.Sprintf("too many build tags: %v", user))
			continue
		}
		var ref map[string]string
		refName := ""
		for m := 0; m < 1<<len(user); m++ {
			set := map[string]bool{}
			var on []string
			for i, t := range user {
				if m>>i&1 == 1 {
					set[t] = true
					on = append(on, t)
				}
			}
			name := path + " [" + strings.Join(on, ",") + "]"
			var sel []*ast.File
			for _, f := range files {
				if f.e == nil || f.e.Eval(func(t string) bool {
					if strings.HasPrefix(t, "go1") {
						return true
					}
					if isSysTag(t) {
						return t == "linux" || t == "amd64" || t == "unix" || t == "gc"
					}
					return set[t]
				}) {
					sel = append(sel, f.f)
				}
			}
			if len(sel) == 0 {
				c.R.Fail("variant", name, dir, "no file is built with these tags")
				continue
			}
			var errs []string
			conf := types.Config{Importer: imp, Error: func(err error) { errs = append(errs, err.Error()) }}
			pkg, _ := conf.Check(path, fset, sel, nil)
			if !c.R.Check(len(errs) == 0, "variant-type-checks", name, dir, strings.Join(errs, "; ")) {
				continue
			}
			api := apiOf(pkg)
			c.R.Unit("exported objects", len(api))
			if ref == nil {
				ref, refName = api, name
				c.R.OK("variant-api", name, dir)
				continue
			}
			var diff []string
			for k, v := range ref {
				if w, ok := api[k]; !ok {
					diff = append(diff, fmt.Sprintf("%s is declared in %s only", k, refName))
				} else if w != v {
					diff = append(diff, fmt.Sprintf("%s is %s in %s but %s here", k, v, refName, w))
				}
			}
			for k := range api {
				if _, ok := ref[k]; !ok {
					diff = append(diff, fmt.Sprintf("%s is missing in %s", k, refName))
				}
			}
			sort.Strings(diff)
			c.R.Check(len(diff) == 0, "variant-api", name, dir, strings.Join(diff, "; "))
		}
		if len(user) > 0 {
			c.R.OK("tagged-package", path, dir)
		}
	}
	c.R.AtLeast("tagged-package", 1)
}

func isSysTag(t string) bool {
	switch t {
	case "linux", "windows", "darwin", "freebsd", "unix", "amd64", "arm64", "386", "arm", "cgo", "race", "gc", "gccgo", "js", "wasm":
		return true
	}
	return false
}

func apiOf(pkg *types.Package) map[string]string {
	out := map[string]string{}
	q := func(p *types.Package) string { return p.Path() }
	for _, n := range pkg.Scope().Names() {
		if !ast.IsExported(n) {
			continue
		}
		o := pkg.Scope().Lookup(n)
		s := fmt.Sprintf("%T %s", o, types.TypeString(o.Type(), q))
		if tn, ok := o.(*types.TypeName); ok {
			s += " = " + types.TypeString(tn.Type().Underlying(), q)
			ms := types.NewMethodSet(types.NewPointer(tn.Type()))
			var l []string
			for i := 0; i < ms.Len(); i++ {
				if m := ms.At(i).Obj(); m.Exported() {
					l = append(l, m.Name()+types.TypeString(m.Type(), q))
				}
			}
			sort.Strings(l)
			s += " " + strings.Join(l, ";")
		}
		out[n] = s
	}
	return out
}
