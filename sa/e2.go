package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// E2: interprocedural effects. For every function: which memory, named by where it comes from
// (a parameter, a captured variable, a package variable, or fresh), it may read, write, retain and return.

type okind byte

const (
	oParam okind = iota
	oFree
	oGlobal
	oFresh
	oUnknown
)

// Origin names memory by its root. Reach is transitive: everything reachable from the root has that origin.
type Origin struct {
	k okind
	d int // 0: the memory addressed directly, 1: what is reached by following references from it
	i int
	g *ssa.Global
	s any // fresh site
}

func (o Origin) String() string {
	switch o.k {
	case oParam:
		return fmt.Sprintf("parameter %d", o.i)
	case oFree:
		return fmt.Sprintf("captured variable %d", o.i)
	case oGlobal:
		return "package variable " + strings.ReplaceAll(o.g.RelString(nil), modPath, "gse")
	case oFresh:
		return "fresh memory"
	}
	return "unknown memory"
}

type OSet map[Origin]bool

func (s OSet) addAll(t OSet) bool {
	ch := false
	for o := range t {
		if !s[o] {
			s[o] = true
			ch = true
		}
	}
	return ch
}

// Witness says where an effect happens.
type Witness struct {
	Pos   token.Pos
	What  string
	Chain []string
}

type flow struct{ dst, src Origin }

type called struct {
	param int
	free  bool
	args  string
}

// Summary of one function.
type Summary struct {
	fn       *ssa.Function
	writes   map[Origin]Witness
	reads    map[Origin]Witness
	flows    map[flow]Witness
	alias    []OSet // results that may be the memory itself
	contains []OSet // results that are fresh but hold references
	fresh    []bool
	// function values received and called: index -> origins of the arguments
	calls map[Origin]OSet
}

type fnState struct {
	sum      *Summary
	pts      map[ssa.Value]OSet
	contents map[Origin]OSet
}

// E2 is the whole analysis.
type E2 struct {
	w  *World
	st map[*ssa.Function]*fnState
	// calls with no body and no model
	Unmodelled map[string]bool
	changed    bool
	impls      map[string][]*ssa.Function
}

func hasRefs(t types.Type) bool { return hasRefs1(t, map[types.Type]bool{}) }

func hasRefs1(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs1(u.Field(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs1(u.Elem(), seen)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRefs1(u.At(i).Type(), seen) {
				return true
			}
		}
		return false
	case *types.Interface:
		return !types.Identical(t, types.Universe.Lookup("error").Type())
	}
	return true
}

// immutable reference types: sharing them is harmless.
func immutableRef(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != nil {
			switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
			case "regexp.Regexp", "unicode.RangeTable":
				return true
			}
		}
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return true
	}
	return false
}

func runE2(w *World) *E2 {
	e := &E2{w: w, st: map[*ssa.Function]*fnState{}, Unmodelled: map[string]bool{}}
	var all []*ssa.Function
	all = append(all, w.Funcs...)
	all = append(all, w.Cedar...)
	for _, fn := range all {
		e.get(fn)
	}
	for it := 0; it < 60; it++ {
		e.changed = false
		var fns []*ssa.Function
		for fn := range e.st {
			fns = append(fns, fn)
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].RelString(nil) < fns[j].RelString(nil) })
		for _, fn := range fns {
			e.function(fn)
		}
		if !e.changed {
			return e
		}
	}
	panic("effect analysis did not stabilise")
}

func (e *E2) get(fn *ssa.Function) *fnState {
	if s := e.st[fn]; s != nil {
		return s
	}
	n := fn.Signature.Results().Len()
	s := &fnState{
		sum: &Summary{fn: fn, writes: map[Origin]Witness{}, reads: map[Origin]Witness{}, flows: map[flow]Witness{},
			alias: make([]OSet, n), contains: make([]OSet, n), fresh: make([]bool, n), calls: map[Origin]OSet{}},
		pts: map[ssa.Value]OSet{}, contents: map[Origin]OSet{},
	}
	for i := 0; i < n; i++ {
		s.sum.alias[i], s.sum.contains[i] = OSet{}, OSet{}
	}
	for i, p := range fn.Params {
		if hasRefs(p.Type()) {
			s.pts[p] = OSet{Origin{k: oParam, i: i}: true}
		}
	}
	for i, p := range fn.FreeVars {
		s.pts[p] = OSet{Origin{k: oFree, i: i}: true}
	}
	e.st[fn] = s
	e.changed = true
	return s
}

func (e *E2) sum(fn *ssa.Function) *Summary {
	if s := e.st[fn]; s != nil {
		return s.sum
	}
	return nil
}

func (s *fnState) of(v ssa.Value) OSet {
	switch v := v.(type) {
	case *ssa.Global:
		return OSet{Origin{k: oGlobal, g: v}: true}
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return nil
	}
	return s.pts[v]
}

func (e *E2) addTo(s *fnState, v ssa.Value, o OSet) {
	if len(o) == 0 || !hasRefs(v.Type()) {
		return
	}
	m := s.pts[v]
	if m == nil {
		m = OSet{}
		s.pts[v] = m
	}
	if m.addAll(o) {
		e.changed = true
	}
}

func (e *E2) store(s *fnState, addr OSet, val OSet, w Witness) {
	for a := range addr {
		switch a.k {
		case oFresh:
			m := s.contents[a]
			if m == nil {
				m = OSet{}
				s.contents[a] = m
			}
			if m.addAll(val) {
				e.changed = true
			}
		default:
			for v := range e.deep(s, val) {
				if v.k == oFresh || v == a {
					continue
				}
				f := flow{a, v}
				if _, ok := s.sum.flows[f]; !ok {
					s.sum.flows[f] = w
					e.changed = true
				}
			}
		}
	}
}

// deep is everything reachable from a set, with the fresh sites expanded.
func (e *E2) deep(s *fnState, o OSet) OSet {
	out := OSet{}
	var walk func(x Origin)
	walk = func(x Origin) {
		if out[x] {
			return
		}
		out[x] = true
		if x.k == oFresh {
			for y := range s.contents[x] {
				walk(y)
			}
		}
	}
	for x := range o {
		walk(x)
	}
	return out
}

// load is what a read through these addresses may yield.
func (e *E2) load(s *fnState, addr OSet) OSet {
	out := OSet{}
	for a := range addr {
		if a.k == oFresh {
			out.addAll(s.contents[a])
		} else {
			a.d = 1
			out[a] = true
		}
	}
	return out
}

// below is everything reachable from a set by at least one load.
func (e *E2) below(s *fnState, o OSet) OSet { return e.deep(s, e.load(s, o)) }

func (e *E2) effect(m map[Origin]Witness, o OSet, w Witness) {
	for a := range o {
		if a.k == oFresh {
			continue
		}
		if _, ok := m[a]; !ok {
			m[a] = w
			e.changed = true
		}
	}
}

func (e *E2) write(s *fnState, addr OSet, pos token.Pos, what string) {
	e.effect(s.sum.writes, addr, Witness{Pos: pos, What: what})
}

func (e *E2) read(s *fnState, addr OSet, pos token.Pos, what string) {
	e.effect(s.sum.reads, addr, Witness{Pos: pos, What: what})
}

func fresh(site any) OSet { return OSet{Origin{k: oFresh, s: site}: true} }

func (e *E2) function(fn *ssa.Function) {
	s := e.get(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			e.instr(s, in)
		}
	}
}

func (e *E2) instr(s *fnState, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		e.addTo(s, in, fresh(in))
	case *ssa.MakeSlice:
		e.addTo(s, in, fresh(in))
	case *ssa.MakeMap:
		e.addTo(s, in, fresh(in))
	case *ssa.MakeChan:
		e.addTo(s, in, fresh(in))
	case *ssa.MakeClosure:
		e.addTo(s, in, fresh(in))
		for _, b := range in.Bindings {
			e.store(s, fresh(in), s.of(b), Witness{})
		}
	case *ssa.MakeInterface:
		e.addTo(s, in, s.of(in.X))
	case *ssa.ChangeInterface:
		e.addTo(s, in, s.of(in.X))
	case *ssa.ChangeType:
		e.addTo(s, in, s.of(in.X))
	case *ssa.MultiConvert:
		e.addTo(s, in, s.of(in.X))
	case *ssa.Convert:
		// string <-> []byte, []rune: always a copy
		if _, ok := in.Type().Underlying().(*types.Slice); ok {
			e.addTo(s, in, fresh(in))
		} else {
			e.addTo(s, in, s.of(in.X))
		}
		e.read(s, s.of(in.X), in.Pos(), "reads")
	case *ssa.SliceToArrayPointer:
		e.addTo(s, in, s.of(in.X))
	case *ssa.TypeAssert:
		e.addTo(s, in, s.of(in.X))
	case *ssa.Phi:
		for _, x := range in.Edges {
			e.addTo(s, in, s.of(x))
		}
	case *ssa.Slice:
		e.addTo(s, in, s.of(in.X))
	case *ssa.FieldAddr:
		e.addTo(s, in, s.of(in.X))
	case *ssa.IndexAddr:
		e.addTo(s, in, s.of(in.X))
	case *ssa.Field:
		e.addTo(s, in, s.of(in.X))
	case *ssa.Index:
		e.addTo(s, in, s.of(in.X))
		if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
			e.read(s, s.of(in.X), in.Pos(), "reads")
		}
	case *ssa.Lookup:
		e.read(s, s.of(in.X), in.Pos(), "reads")
		e.addTo(s, in, e.load(s, s.of(in.X)))
	case *ssa.Range:
		e.read(s, s.of(in.X), in.Pos(), "reads")
		e.addTo(s, in, s.of(in.X))
	case *ssa.Next:
		if !in.IsString {
			e.addTo(s, in, e.load(s, s.of(in.Iter)))
		}
	case *ssa.Extract:
		if call, ok := in.Tuple.(*ssa.Call); ok {
			e.addTo(s, in, e.tupleOf(s, call, in.Index))
		} else {
			e.addTo(s, in, s.of(in.Tuple))
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			e.read(s, s.of(in.X), in.Pos(), "reads")
			e.addTo(s, in, e.load(s, s.of(in.X)))
		case token.ARROW:
			e.addTo(s, in, e.load(s, s.of(in.X)))
		}
	case *ssa.Store:
		e.write(s, s.of(in.Addr), in.Pos(), "writes")
		e.store(s, s.of(in.Addr), s.of(in.Val), Witness{Pos: in.Pos()})
	case *ssa.MapUpdate:
		e.write(s, s.of(in.Map), in.Pos(), "writes")
		e.store(s, s.of(in.Map), s.of(in.Value), Witness{Pos: in.Pos()})
		e.store(s, s.of(in.Map), s.of(in.Key), Witness{Pos: in.Pos()})
	case *ssa.Send:
		e.store(s, s.of(in.Chan), s.of(in.X), Witness{Pos: in.Pos()})
	case *ssa.Return:
		for i, r := range in.Results {
			for o := range s.of(r) {
				if o.k == oFresh {
					if !s.sum.fresh[i] {
						s.sum.fresh[i] = true
						e.changed = true
					}
					for d := range e.deep(s, OSet{o: true}) {
						if d.k != oFresh && !s.sum.contains[i][d] {
							s.sum.contains[i][d] = true
							e.changed = true
						}
					}
				} else if !s.sum.alias[i][o] {
					s.sum.alias[i][o] = true
					e.changed = true
				}
			}
		}
	case *ssa.Call:
		e.call(s, in, in.Common(), in)
	case *ssa.Defer:
		e.call(s, in, in.Common(), nil)
	case *ssa.Go:
		e.call(s, in, in.Common(), nil)
	}
}

type tupleKey struct {
	c *ssa.Call
	i int
}

// results of multi-value calls are kept per call and index.
func (e *E2) tupleOf(s *fnState, c *ssa.Call, i int) OSet {
	return s.contents[Origin{k: oFresh, s: tupleKey{c, i}}]
}

func (e *E2) result(s *fnState, call *ssa.Call, i, n int, o OSet) {
	if call == nil || len(o) == 0 {
		return
	}
	if n == 1 {
		e.addTo(s, call, o)
		return
	}
	k := Origin{k: oFresh, s: tupleKey{call, i}}
	m := s.contents[k]
	if m == nil {
		m = OSet{}
		s.contents[k] = m
	}
	if m.addAll(o) {
		e.changed = true
	}
}

// funcsOf resolves a function value to functions with the origins of their captured variables.
type target struct {
	fn   *ssa.Function
	free []OSet
}

func (e *E2) funcsOf(s *fnState, v ssa.Value, seen map[ssa.Value]bool) (ts []target, params []Origin, ok bool) {
	if seen[v] {
		return nil, nil, true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Function:
		return []target{{fn: v}}, nil, true
	case *ssa.MakeClosure:
		t := target{fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			t.free = append(t.free, s.of(b))
		}
		return []target{t}, nil, true
	case *ssa.Phi:
		ok = true
		for _, x := range v.Edges {
			a, b, o := e.funcsOf(s, x, seen)
			ts, params = append(ts, a...), append(params, b...)
			ok = ok && o
		}
		return ts, params, ok
	case *ssa.ChangeType:
		return e.funcsOf(s, v.X, seen)
	case *ssa.MakeInterface:
		return e.funcsOf(s, v.X, seen)
	case *ssa.Const:
		return nil, nil, true
	case *ssa.Call:
		return e.funcsFrom(s, v, 0, seen)
	case *ssa.Extract:
		if call, isCall := v.Tuple.(*ssa.Call); isCall {
			return e.funcsFrom(s, call, v.Index, seen)
		}
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return nil, []Origin{{k: oParam, i: i}}, true
			}
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch a := v.X.(type) {
			case *ssa.Alloc:
				ok = true
				for _, r := range *a.Referrers() {
					if st, isSt := r.(*ssa.Store); isSt && st.Addr == ssa.Value(a) {
						x, y, o := e.funcsOf(s, st.Val, seen)
						ts, params = append(ts, x...), append(params, y...)
						ok = ok && o
					}
				}
				return ts, params, ok
			case *ssa.FreeVar:
				// a captured function variable: find the stores in the enclosing function
				if ws := cellStores(a); ws != nil {
					ok = true
					for _, st := range ws {
						x, _, o := e.funcsOf(e.get(st.Parent()), st.Val, seen)
						for _, t := range x {
							ts = append(ts, target{fn: t.fn})
						}
						ok = ok && o
					}
					return ts, nil, ok
				}
			}
		}
	}
	return nil, nil, false
}

// funcsFrom: the functions a call returns.
func (e *E2) funcsFrom(s *fnState, call *ssa.Call, k int, seen map[ssa.Value]bool) (ts []target, params []Origin, ok bool) {
	g := call.Call.StaticCallee()
	if g == nil || g.Blocks == nil || call.Call.IsInvoke() || len(g.FreeVars) > 0 {
		return nil, nil, false
	}
	args := call.Call.Args
	gs := e.get(g)
	own := map[ssa.Value]bool{}
	for v := range seen {
		if c, isCall := v.(*ssa.Call); isCall {
			own[c] = true
		}
	}
	own[call] = true
	for _, b := range g.Blocks {
		r, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !isRet || k >= len(r.Results) {
			continue
		}
		xs, ps, o := e.funcsOf(gs, r.Results[k], own)
		if !o {
			return nil, nil, false
		}
		for _, t := range xs {
			n := target{fn: t.fn}
			for _, f := range t.free {
				m := OSet{}
				for o := range f {
					switch {
					case o.k != oParam:
						m[o] = true
					case o.i >= len(args):
						m[Origin{k: oUnknown}] = true
					case o.d == 0:
						m.addAll(s.of(args[o.i]))
					default:
						m.addAll(e.below(s, s.of(args[o.i])))
					}
				}
				n.free = append(n.free, m)
			}
			ts = append(ts, n)
		}
		for _, p := range ps {
			if p.k != oParam || p.i >= len(args) {
				return nil, nil, false
			}
			xs, qs, o := e.funcsOf(s, args[p.i], seen)
			if !o {
				return nil, nil, false
			}
			ts, params = append(ts, xs...), append(params, qs...)
		}
	}
	return ts, params, true
}

// cellStores finds the stores to the variable a closure captured.
func cellStores(fv *ssa.FreeVar) []*ssa.Store {
	fn := fv.Parent()
	idx := -1
	for i, f := range fn.FreeVars {
		if f == fv {
			idx = i
		}
	}
	var out []*ssa.Store
	if fn.Parent() == nil || idx < 0 {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
				if refs := mc.Bindings[idx].Referrers(); refs != nil {
					for _, r := range *refs {
						if st, ok := r.(*ssa.Store); ok && st.Addr == mc.Bindings[idx] {
							out = append(out, st)
						}
					}
				}
			}
		}
	}
	return out
}

func (e *E2) call(s *fnState, site ssa.Instruction, c *ssa.CallCommon, call *ssa.Call) {
	pos := c.Pos()
	if b, ok := c.Value.(*ssa.Builtin); ok {
		e.builtin(s, b, c, call)
		return
	}
	args := make([]OSet, 0, len(c.Args)+1)
	var argv []ssa.Value
	if c.IsInvoke() {
		args = append(args, s.of(c.Value))
		argv = append(argv, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, s.of(a))
		argv = append(argv, a)
	}
	if c.IsInvoke() {
		impls := e.implementations(c)
		for _, f := range impls {
			e.apply(s, site, call, target{fn: f}, args, argv, pos)
		}
		if len(impls) == 0 {
			e.extern(s, site, call, nil, c, args, argv, pos)
		}
		return
	}
	ts, params, ok := e.funcsOf(s, c.Value, map[ssa.Value]bool{})
	for _, p := range params {
		m := s.sum.calls[p]
		if m == nil {
			m = OSet{}
			s.sum.calls[p] = m
			e.changed = true
		}
		for _, a := range args {
			for o := range e.deep(s, a) {
				if o.k != oFresh && !m[o] {
					m[o] = true
					e.changed = true
				}
			}
		}
	}
	if !ok {
		e.Unmodelled["dynamic call in "+short(s.sum.fn)] = true
		e.write(s, OSet{Origin{k: oUnknown}: true}, pos, "calls an unknown function")
		return
	}
	for _, t := range ts {
		e.apply(s, site, call, t, args, argv, pos)
	}
}

func (e *E2) implementations(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, sp := range e.w.SSA {
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.IsInterface(T) || !types.Implements(T, it) {
					continue
				}
				sel := e.w.Prog.MethodSets.MethodSet(T).Lookup(c.Method.Pkg(), c.Method.Name())
				if sel == nil {
					continue
				}
				if f := e.w.Prog.MethodValue(sel); f != nil && f.Blocks != nil {
					out = append(out, f)
				}
			}
		}
	}
	return out
}

func (e *E2) apply(s *fnState, site ssa.Instruction, call *ssa.Call, t target, args []OSet, argv []ssa.Value, pos token.Pos) {
	fn := t.fn
	if fn.Blocks == nil {
		e.extern(s, site, call, fn, nil, args, argv, pos)
		return
	}
	if o := fn.Origin(); o != nil && o != fn && fn.Blocks == nil {
		fn = o
	}
	cs := e.get(fn).sum
	sub := func(o Origin) OSet {
		var base OSet
		switch o.k {
		case oParam:
			if o.i >= len(args) {
				return nil
			}
			base = args[o.i]
		case oFree:
			if o.i >= len(t.free) {
				return OSet{Origin{k: oUnknown}: true}
			}
			base = t.free[o.i]
		default:
			return OSet{o: true}
		}
		if o.d == 0 {
			return base
		}
		return e.below(s, base)
	}
	subDeep := sub
	name := short(fn)
	for o, w := range cs.writes {
		ch := append([]string{name}, w.Chain...)
		if len(ch) > 8 {
			ch = ch[:8]
		}
		e.effect(s.sum.writes, subDeep(o), Witness{Pos: w.Pos, What: w.What, Chain: ch})
	}
	for o, w := range cs.reads {
		ch := append([]string{name}, w.Chain...)
		if len(ch) > 8 {
			ch = ch[:8]
		}
		e.effect(s.sum.reads, subDeep(o), Witness{Pos: w.Pos, What: w.What, Chain: ch})
	}
	for f, w := range cs.flows {
		e.store(s, sub(f.dst), sub(f.src), w)
	}
	n := len(cs.alias)
	for i := 0; i < n; i++ {
		out := OSet{}
		for o := range cs.alias[i] {
			out.addAll(sub(o))
		}
		if cs.fresh[i] {
			k := Origin{k: oFresh, s: tupleKey2{site, i, fn}}
			out[k] = true
			for o := range cs.contains[i] {
				m := s.contents[k]
				if m == nil {
					m = OSet{}
					s.contents[k] = m
				}
				if m.addAll(sub(o)) {
					e.changed = true
				}
			}
		}
		e.result(s, call, i, n, out)
	}
	// function values handed to the callee, which calls them
	for p, as := range cs.calls {
		if p.k != oParam || p.i >= len(argv) {
			continue
		}
		ts, ps, ok := e.funcsOf(s, argv[p.i], map[ssa.Value]bool{})
		if !ok {
			e.Unmodelled["dynamic call in "+short(s.sum.fn)] = true
			e.write(s, OSet{Origin{k: oUnknown}: true}, pos, "calls an unknown function")
		}
		all := OSet{}
		for a := range as {
			all.addAll(subDeep(a))
		}
		for _, q := range ps {
			m := s.sum.calls[q]
			if m == nil {
				m = OSet{}
				s.sum.calls[q] = m
				e.changed = true
			}
			for o := range all {
				if o.k != oFresh && !m[o] {
					m[o] = true
					e.changed = true
				}
			}
		}
		for _, t2 := range ts {
			var a2 []OSet
			for range t2.fn.Params {
				a2 = append(a2, all)
			}
			e.apply(s, site, nil, t2, a2, nil, pos)
		}
	}
}

type tupleKey2 struct {
	site ssa.Instruction
	i    int
	fn   *ssa.Function
}

func (e *E2) builtin(s *fnState, b *ssa.Builtin, c *ssa.CallCommon, call *ssa.Call) {
	pos := c.Pos()
	switch b.Name() {
	case "append":
		base := s.of(c.Args[0])
		e.write(s, base, pos, "appends in place to")
		out := OSet{}
		out.addAll(base)
		f := fresh(call)
		if call != nil {
			out.addAll(f)
			e.addTo(s, call, out)
			e.store(s, f, e.load(s, base), Witness{Pos: pos})
		}
		if len(c.Args) > 1 {
			src := s.of(c.Args[1])
			e.read(s, src, pos, "reads")
			v := e.load(s, src)
			if call != nil {
				e.store(s, f, v, Witness{Pos: pos})
			}
			e.store(s, base, v, Witness{Pos: pos})
		}
	case "copy":
		e.write(s, s.of(c.Args[0]), pos, "copies into")
		e.read(s, s.of(c.Args[1]), pos, "reads")
		e.store(s, s.of(c.Args[0]), e.load(s, s.of(c.Args[1])), Witness{Pos: pos})
	case "delete", "clear":
		e.write(s, s.of(c.Args[0]), pos, "deletes from")
	case "len", "cap":
		if _, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			e.read(s, s.of(c.Args[0]), pos, "reads")
		}
	case "ssa:wrapnilchk":
		if call != nil {
			e.addTo(s, call, s.of(c.Args[0]))
		}
	}
}

// extern models functions without a body: the standard library.
func (e *E2) extern(s *fnState, site ssa.Instruction, call *ssa.Call, fn *ssa.Function, c *ssa.CallCommon, args []OSet, argv []ssa.Value, pos token.Pos) {
	path, name, recv, sig := "", "", "", (*types.Signature)(nil)
	if fn != nil {
		sig = fn.Signature
		name = fn.Name()
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			path = o.Pkg().Path()
		} else if fn.Pkg != nil {
			path = fn.Pkg.Pkg.Path()
		}
		if r := sig.Recv(); r != nil {
			t := r.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok {
				recv = n.Obj().Name()
			}
		}
	} else {
		sig = c.Method.Type().(*types.Signature)
		name = c.Method.Name()
		recv = "interface"
		if c.Method.Pkg() != nil {
			path = c.Method.Pkg().Path()
		}
	}
	wr, rets := stdModel(path, recv, name, sig, len(args))
	full := path + "." + name
	if recv != "" {
		full = path + "." + recv + "." + name
	}
	for i, a := range args {
		d := e.deep(s, a)
		e.effect(s.sum.reads, d, Witness{Pos: pos, What: "reads (" + full + ")"})
		if wr(i) {
			wd := a
			if deepWriter(path) {
				wd = d
			}
			e.effect(s.sum.writes, wd, Witness{Pos: pos, What: "writes (" + full + ")"})
			// anything may be stored in it, but byte buffers copy what they are given
			if path != "bytes" && path != "strings" && path != "sort" && path != "strconv" && path != "unicode/utf8" {
				for j, b := range args {
					if j != i {
						e.store(s, a, b, Witness{Pos: pos})
					}
				}
			}
		}
	}
	// callbacks run
	for _, v := range argv {
		u := v.Type().Underlying()
		if mi, ok := v.(*ssa.MakeInterface); ok {
			u = mi.X.Type().Underlying()
			if path == "sort" {
				e.sortCallbacks(s, site, mi, pos)
			}
		}
		if _, ok := u.(*types.Signature); ok {
			ts, ps, ok := e.funcsOf(s, v, map[ssa.Value]bool{})
			if !ok {
				e.Unmodelled["callback in "+short(s.sum.fn)] = true
			}
			_ = ps
			all := OSet{}
			for _, a := range args {
				all.addAll(e.deep(s, a))
			}
			for _, t := range ts {
				var a2 []OSet
				for range t.fn.Params {
					a2 = append(a2, all)
				}
				if t.fn.Signature.Params().Len() > 0 && strings.HasPrefix(path, "net/http") {
					a2 = nil // handlers run later with arguments of the server
				}
				e.apply(s, site, nil, t, a2, nil, pos)
			}
		}
	}
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		if !hasRefs(sig.Results().At(i).Type()) {
			continue
		}
		k := Origin{k: oFresh, s: tupleKey2{site, i, fn}}
		out := OSet{k: true}
		if rets {
			for _, a := range args {
				out.addAll(a)
				m := s.contents[k]
				if m == nil {
					m = OSet{}
					s.contents[k] = m
				}
				if m.addAll(a) {
					e.changed = true
				}
			}
		}
		e.result(s, call, i, n, out)
	}
}

func (e *E2) sortCallbacks(s *fnState, site ssa.Instruction, mi *ssa.MakeInterface, pos token.Pos) {
	for _, m := range []string{"Len", "Less", "Swap"} {
		ms := e.w.Prog.MethodSets.MethodSet(mi.X.Type())
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == m {
				if f := e.w.Prog.MethodValue(ms.At(i)); f != nil && f.Blocks != nil {
					e.apply(s, site, nil, target{fn: f}, []OSet{s.of(mi.X), nil, nil}, nil, pos)
				}
			}
		}
	}
}

// deepWriter: packages whose writes reach beyond the memory they are handed directly.
func deepWriter(path string) bool {
	switch path {
	case "bytes", "strings", "sort", "slices", "maps", "strconv", "unicode/utf8", "fmt":
		return false
	}
	return true
}

// stdModel: which arguments a library function writes, and whether its results may alias its arguments.
func stdModel(path, recv, name string, sig *types.Signature, n int) (func(int) bool, bool) {
	none := func(int) bool { return false }
	first := func(i int) bool { return i == 0 }
	all := func(int) bool { return true }
	aliasing := false
	for i := 0; i < sig.Results().Len(); i++ {
		if hasRefs(sig.Results().At(i).Type()) {
			aliasing = true
		}
	}
	switch path {
	case "strings", "unicode", "unicode/utf8", "math", "strconv", "path", "path/filepath", "errors", "runtime",
		"log", "time", "math/bits", "cmp", "iter", "unicode/utf16", "html", "net/url", "flag":
		if recv == "Builder" || (recv == "Reader" && path == "strings") {
			return first, false
		}
		if path == "strconv" && strings.HasPrefix(name, "Append") || path == "unicode/utf8" && (name == "EncodeRune" || name == "AppendRune") {
			return first, true
		}
		return none, false
	case "log/slog":
		return none, false
	case "sync", "sync/atomic":
		return none, false
	case "regexp":
		// results never alias mutable memory, except byte-slice searches
		return none, aliasing && strings.HasPrefix(name, "Find") && !strings.Contains(name, "Index") && !strings.Contains(name, "String")
	case "bytes":
		if recv == "Buffer" || recv == "Reader" {
			return first, aliasing
		}
		return none, aliasing
	case "fmt":
		if strings.HasPrefix(name, "Fscan") || strings.HasPrefix(name, "Sscan") || strings.HasPrefix(name, "Scan") {
			return all, false
		}
		if strings.HasPrefix(name, "Fprint") {
			return first, false
		}
		return none, false
	case "sort":
		switch {
		case recv == "StringSlice" || recv == "Float64Slice" || recv == "IntSlice":
			if name == "Sort" || name == "Swap" {
				return first, false
			}
			return none, false
		case name == "Sort" || name == "Stable" || name == "Slice" || name == "SliceStable" || name == "Strings" ||
			name == "Ints" || name == "Float64s":
			return first, false
		}
		return none, aliasing
	case "slices":
		switch {
		case strings.HasPrefix(name, "Sort") && name != "Sorted" && !strings.HasPrefix(name, "Sorted"),
			name == "Reverse", strings.HasPrefix(name, "Delete"), name == "Insert", name == "Replace",
			strings.HasPrefix(name, "Compact"), name == "AppendSeq":
			return first, true
		}
		if name == "Clone" || name == "Concat" || name == "Collect" || strings.HasPrefix(name, "Sorted") {
			return none, false
		}
		return none, aliasing
	case "maps":
		switch name {
		case "Copy", "DeleteFunc", "Insert":
			return first, false
		case "Clone":
			return none, false
		}
		return none, aliasing
	case "os":
		return none, false
	case "encoding/json":
		if name == "Unmarshal" {
			return all, false
		}
		return none, false
	case "io":
		return first, aliasing
	case "net/http":
		return none, true
	case "embed":
		return none, false
	}
	if recv != "" {
		return first, aliasing
	}
	return none, aliasing
}
