package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// libFuncs are the source functions of the library packages.
func (w *World) libFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range w.Funcs {
		if w.Lib(fn) && fn.Synthetic == "" && !strings.HasSuffix(w.Fset.Position(fn.Pos()).Filename, "_test.go") {
			out = append(out, fn)
		}
	}
	return out
}

// callers counts the static call sites of every function in the library.
func (w *World) callers() map[*ssa.Function][]ssa.CallInstruction {
	m := map[*ssa.Function][]ssa.CallInstruction{}
	for _, fn := range w.libFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						m[g] = append(m[g], c)
					}
				}
			}
		}
	}
	return m
}

// roots are the functions that are evaluated on their own: those with loops, which are never inlined,
// those that call themselves, and those nobody calls.
func (w *World) roots() []*ssa.Function {
	cs := w.callers()
	var out []*ssa.Function
	for _, fn := range w.libFuncs() {
		if fn.Parent() != nil {
			continue
		}
		if hasLoop(fn) || len(cs[fn]) == 0 || isAPI(fn) {
			out = append(out, fn)
		}
	}
	return out
}

// reach is every library function reachable from fn by static calls and closures.
func (w *World) reach(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		if !w.InRepo(f) && f.Synthetic == "" {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					walk(c.Common().StaticCallee())
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	return seen
}

func namedOf(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func isNamed(t types.Type, pkg, name string) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func litStrings(ls []Lit) string {
	var out []string
	for _, l := range ls {
		out = append(out, l.String())
	}
	return strings.Join(out, " && ")
}

// expanded is fn and every function that is expanded into it (functions without loops, transitively).
func (w *World) expanded(fn *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || f != fn && !inlinable(f) {
			return
		}
		if !w.InRepo(f) && f.Synthetic == "" {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					walk(c.Common().StaticCallee())
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	return seen
}

func isCedar(t *T, method string) bool {
	return t.op == "call" && callName(t.s) == "(*"+cedarPath+".Cedar)."+method
}

// errNil: what the path knows about an error value being nil.
func (st *St) errNil(e *T) (isNil, known bool) {
	return st.truth(st.x.arith("==", e, st.x.tt.nilT(), nil))
}

// comp is the i-th result of a call.
func (x *E3) comp(c *T, i int) *T { return x.tt.mk("ext", fmtInt(i), nil, c) }

func fmtInt(i int) string { return string(appendInt(nil, int64(i))) }

func clip(s string) string {
	if len(s) > 500 {
		return s[:500] + "…"
	}
	return s
}

// isFieldOf: t is the address of field f of a struct of the named type.
func isFieldOf(t *T, pkg, typ, f string) bool {
	return t.op == "&field" && t.s == f && isNamed(t.a[0].typ, pkg, typ)
}

// isLoadOf: t is the value of field f of a struct of the named type.
func isLoadOf(t *T, pkg, typ, f string) bool {
	return t.op == "load" && isFieldOf(t.a[0], pkg, typ, f)
}
