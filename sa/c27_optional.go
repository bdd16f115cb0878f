package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C27", checkOptional) }

// optKey is a parameter that holds optional arguments.
type optKey struct {
	fn *ssa.Function
	i  int
}

func checkOptional(c *Ctx) {
	c.R.Rule = "Every function with a variadic parameter, and every function such a parameter is handed to, is evaluated path by path; at every access by index or slice expression to the parameter, the conditions on the path must imply, by linear arithmetic, that the index is within its length."
	x := newE3(c.World)
	done := map[optKey]bool{}
	runs := map[*ssa.Function]map[*T]bool{}
	var work []optKey
	add := func(k optKey) {
		if !done[k] {
			done[k] = true
			work = append(work, k)
		}
	}
	for _, fn := range c.libFuncs() {
		if fn.Parent() == nil && isAPI(fn) && fn.Signature.Variadic() {
			add(optKey{fn, len(fn.Params) - 1})
			c.R.Unit("exported functions with optional arguments", 1)
		}
	}
	sites := map[ssa.Instruction]bool{}
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		fn := k.fn
		opt := x.tt.mk("param", fmt.Sprintf("%s@%s#%d", fn.Params[k.i].Name(), short(fn), k.i), fn.Params[k.i].Type())
		if runs[fn] == nil {
			runs[fn] = map[*T]bool{}
		}
		runs[fn][opt] = true
		c.R.Unit("parameters", 1)
		ov := x.Run(fn, &Hooks{
			Index: func(st *St, in ssa.Instruction, base, idx *T) {
				if rootOf(base) != opt {
					return
				}
				sites[in] = true
				ok := st.le(x.tt.int(0), idx) && st.ltI(idx, x.lenOf(base))
				c.R.Check(ok, "optional-argument-is-there", short(in.Parent()), c.Pos(in.Pos()),
					"the optional argument "+fn.Params[k.i].Name()+" is read at "+idx.String()+" although it may have been left out; the path: "+clip(litStrings(st.lits)))
			},
			Slice: func(st *St, in *ssa.Slice, base, lo, hi *T) {
				if rootOf(base) != opt {
					return
				}
				sites[in] = true
				n := x.lenOf(base)
				if hi.isNil() {
					hi = n
				}
				if lo.isNil() {
					lo = x.tt.int(0)
				}
				ok := st.le(x.tt.int(0), lo) && st.le(lo, hi) && st.le(hi, n)
				c.R.Check(ok, "optional-argument-is-there", short(in.Parent()), c.Pos(in.Pos()),
					"a part of the optional arguments "+fn.Params[k.i].Name()+" is taken that may not be there; the path: "+clip(litStrings(st.lits)))
			},
			Event: func(st *St, e *Ev) {
				if e.kind != "call" {
					return
				}
				ci, ok := e.in.(ssa.CallInstruction)
				if !ok {
					return
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Blocks == nil || !c.InRepo(g) {
					return
				}
				for j, a := range e.args {
					if rootOf(a) == opt && j < len(g.Params) {
						if _, ok := g.Params[j].Type().Underlying().(*types.Slice); ok {
							add(optKey{g, j})
						}
					}
				}
			},
		})
		if ov {
			c.R.Fail("too-many-paths", short(fn), c.Pos(fn.Pos()), "the function has too many paths to decide")
		}
		c.R.Unit("paths", x.Paths)
		x.Paths = 0
	}
	c.R.Unit("sites", len(sites))
	c.R.AtLeast("optional-argument-is-there", 5)
}
