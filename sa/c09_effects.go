package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C09", checkQueriesReadOnly)
	register("C10", checkArgsUntouched)
	register("C11", checkIsolation)
}

// mutators are the operations documented to change the segmenter, dictionary or model they are called on.
var mutatorPrefixes = []string{"Load", "Add", "ReAdd", "Remove", "Empty", "Init", "Calc", "Read", "With", "New"}

// outputs documents the parameters that are output buffers or are consumed by contract.
var outputs = map[string]map[int]string{
	"(*gse.Dictionary).LookupTokens": {2: "the caller provides the result buffer"},
	"(*gse.Segmenter).Reader":        {1: "reading advances the reader"},
	"(*gse.Segmenter).ReadN":         {1: "reading advances the reader"},
}

func isMutator(fn *ssa.Function) bool {
	for _, p := range mutatorPrefixes {
		if strings.HasPrefix(fn.Name(), p) {
			return true
		}
	}
	return fn.Name() == "HMMCutMod" // documented to install the model it is given
}

// sort.Interface methods act on their receiver by contract.
func isSortMethod(fn *ssa.Function) bool {
	if fn.Signature.Recv() == nil {
		return false
	}
	switch fn.Name() {
	case "Len", "Less", "Swap":
		return true
	}
	return false
}

func apiFuncs(c *Ctx) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.Funcs {
		if c.Lib(fn) && isAPI(fn) && !isSortMethod(fn) {
			out = append(out, fn)
		}
	}
	return out
}

func where(c *Ctx, w Witness) string {
	s := c.Pos(w.Pos)
	if len(w.Chain) > 0 {
		s += " through " + strings.Join(w.Chain, " -> ")
	}
	return s
}

func originName(fn *ssa.Function, o Origin) string {
	if o.k == oParam {
		if fn.Signature.Recv() != nil {
			if o.i == 0 {
				return "its receiver"
			}
		}
		if o.i < len(fn.Params) {
			return "argument " + fn.Params[o.i].Name()
		}
	}
	return o.String()
}

func sortedOrigins(m map[Origin]Witness) []Origin {
	var out []Origin
	for o := range m {
		out = append(out, o)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].k != out[j].k {
			return out[i].k < out[j].k
		}
		if out[i].i != out[j].i {
			return out[i].i < out[j].i
		}
		if out[i].k == oGlobal && out[i].g != out[j].g {
			return out[i].g.Name() < out[j].g.Name()
		}
		return out[i].d < out[j].d
	})
	return out
}

func checkQueriesReadOnly(c *Ctx) {
	c.R.Rule = "interprocedural effect analysis over the SSA form of every library function and the trie: an exported operation that is not a documented mutator " +
		"(Load*/Add*/ReAdd*/Remove*/Empty*/Init/Calc*/Read*/With*/New*/HMMCutMod) must have no write effect on memory reached from its receiver or from a package variable; " +
		"concurrent queries then share memory that none of them writes"
	e := runE2(c.World)
	n := 0
	for _, fn := range apiFuncs(c) {
		if isMutator(fn) {
			continue
		}
		n++
		sum := e.sum(fn)
		bad := ""
		for _, o := range sortedOrigins(sum.writes) {
			w := sum.writes[o]
			switch {
			case o.k == oGlobal, o.k == oUnknown, o.k == oParam && o.i == 0 && fn.Signature.Recv() != nil:
				bad = fmt.Sprintf("%s %s at %s", w.What, originName(fn, o), where(c, w))
			}
			if bad != "" {
				break
			}
		}
		c.R.Check(bad == "", "query-writes-nothing-shared", short(fn), c.Pos(fn.Pos()), bad)
	}
	c.R.Unit("functions summarised", len(e.st))
	c.R.Unit("query operations", n)
	c.R.AtLeast("query-writes-nothing-shared", 60)
}

func checkArgsUntouched(c *Ctx) {
	c.R.Rule = "interprocedural effect analysis: no exported operation writes (stores, appends in place, copies into, sorts, deletes) memory reached from its non-receiver arguments, " +
		"except documented output parameters; and no operation keeps a caller's map or slice inside the instance where a later operation would write it"
	e := runE2(c.World)
	n := 0
	for _, fn := range apiFuncs(c) {
		n++
		sum := e.sum(fn)
		name := short(fn)
		bad := ""
		for _, o := range sortedOrigins(sum.writes) {
			w := sum.writes[o]
			if o.k == oUnknown {
				bad = fmt.Sprintf("%s at %s", w.What, where(c, w))
			}
			if o.k != oParam || (o.i == 0 && fn.Signature.Recv() != nil) {
				continue
			}
			if o.i < len(fn.Params) {
				if _, ok := outputs[name][o.i]; ok {
					continue
				}
				// a pointer to one of the library's own mutable types is an object to operate on, not data
			}
			bad = fmt.Sprintf("%s %s at %s", w.What, originName(fn, o), where(c, w))
			break
		}
		c.R.Check(bad == "", "argument-not-written", name, c.Pos(fn.Pos()), bad)
		// retention
		for f, w := range sum.flows {
			if f.src.k != oParam || (f.src.i == 0 && fn.Signature.Recv() != nil) || f.src.i >= len(fn.Params) {
				continue
			}
			t := fn.Params[f.src.i].Type()
			if retentionOK(t, f.src.d) {
				continue
			}
			c.R.Check(fn.Name() == "LoadModel" || fn.Name() == "HMMCutMod", "argument-not-retained", name+" "+fn.Params[f.src.i].Name(), c.Pos(fn.Pos()),
				fmt.Sprintf("keeps memory of %s in %s at %s", originName(fn, f.src), originName(fn, f.dst), where(c, w)))
		}
	}
	c.R.Unit("functions summarised", len(e.st))
	c.R.Unit("operations", n)
	c.R.AtLeast("argument-not-written", 80)
}

// retentionOK: values of the library's own types are handed over by contract (a dictionary token, a segmenter).
func retentionOK(t types.Type, d int) bool {
	for {
		switch u := t.(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			if d == 0 {
				return false
			}
			t = u.Elem()
			continue
		}
		break
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && ast.IsExported(n.Obj().Name()) {
		if _, ok := n.Underlying().(*types.Struct); ok {
			return true
		}
	}
	return immutableRef(t)
}

func checkIsolation(c *Ctx) {
	c.R.Rule = "interprocedural effect and escape analysis: no exported operation writes memory reached from a package variable, and none stores or returns a reference " +
		"to a package-level map, slice or pointer (other than immutable tables) into an instance that could later write it"
	e := runE2(c.World)
	n := 0
	for _, fn := range apiFuncs(c) {
		n++
		sum := e.sum(fn)
		name := short(fn)
		found := false
		for _, o := range sortedOrigins(sum.writes) {
			if o.k != oGlobal {
				continue
			}
			w := sum.writes[o]
			found = true
			c.R.Fail("no-write-to-package-state", globalName(o), where(c, w), fmt.Sprintf("%s %s %s", name, w.What, o))
		}
		if !found {
			c.R.OK("no-write-to-package-state", name, c.Pos(fn.Pos()))
		}
		for f, w := range sum.flows {
			if f.src.k == oGlobal && f.dst.k != oGlobal && !immutableGlobal(f.src) {
				c.R.Fail("no-shared-package-state", name+" "+globalName(f.src), where(c, w),
					fmt.Sprintf("keeps a reference to %s in %s", f.src, originName(fn, f.dst)))
			}
		}
		for i := range sum.alias {
			if i >= fn.Signature.Results().Len() || immutableRef(fn.Signature.Results().At(i).Type()) {
				continue
			}
			for o := range sum.alias[i] {
				if o.k == oGlobal && !immutableGlobal(o) {
					c.R.Fail("no-shared-package-state", name+" "+globalName(o), c.Pos(fn.Pos()), "returns a reference to "+o.String())
				}
			}
			for o := range sum.contains[i] {
				if o.k == oGlobal && !immutableGlobal(o) {
					c.R.Fail("no-shared-package-state", name+" "+globalName(o), c.Pos(fn.Pos()), "returns an object that shares "+o.String())
				}
			}
		}
	}
	c.R.Unit("functions summarised", len(e.st))
	c.R.Unit("operations", n)
	c.R.AtLeast("no-write-to-package-state", 80)
}

func globalName(o Origin) string {
	if o.g == nil {
		return "?"
	}
	return strings.ReplaceAll(o.g.RelString(nil), modPath, "gse")
}

func immutableGlobal(o Origin) bool {
	if o.g == nil {
		return false
	}
	t := o.g.Type().(*types.Pointer).Elem()
	if immutableRef(t) {
		return true
	}
	if o.g.Pkg != nil && !strings.HasPrefix(o.g.Pkg.Pkg.Path(), modPath) && o.g.Pkg.Pkg.Path() != cedarPath {
		return true // the standard library
	}
	return !hasRefs(t)
}
