package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// recs remembers what lists are built of and where loop variables come from.
type recs struct {
	nils map[string]*T // the nil list of each type
	x    *E3
	elem map[*T][]map[string]*T // list -> elements by field ("" for the element itself)
	phi  map[*T][]*T
}

func newRecs(x *E3) *recs {
	return &recs{x: x, elem: map[*T][]map[string]*T{}, phi: map[*T][]*T{}, nils: map[string]*T{}}
}

// base is the list that an append chain starts from.
func (r *recs) base(t *T) *T {
	typ := t.typ
	for {
		switch {
		case t.op == "append", t.op == "slice" && t.a[0].op != "alloc":
			t = t.a[0]
		default:
			if t.isNil() && typ != nil {
				k := typ.Underlying().String()
				if r.nils[k] == nil {
					r.nils[k] = &T{op: "nil", typ: typ}
				}
				return r.nils[k]
			}
			return t
		}
	}
}

func (r *recs) event(st *St, e *Ev) {
	if e.kind != "append" {
		return
	}
	es, ok := r.x.explicit(st, e.args[1])
	if !ok {
		es = []*T{nil}
	}
	b := r.base(e.args[0])
	if b.op == "nil" && len(es) > 0 && es[0] != nil && es[0].typ != nil {
		b = r.base(&T{op: "nil", typ: types.NewSlice(es[0].typ)})
	}
	for _, t := range es {
		r.elem[b] = append(r.elem[b], r.fields(st, t))
	}
}

func (r *recs) fields(st *St, t *T) map[string]*T {
	m := map[string]*T{}
	if t == nil || t.typ == nil {
		return m
	}
	m[""] = t
	if s := structOf(t.typ); s != nil {
		if p, ok := t.typ.Underlying().(*types.Pointer); ok {
			for i := 0; i < s.NumFields(); i++ {
				m[s.Field(i).Name()] = r.x.loadT(st, r.x.fieldAddr(t, p.Elem(), i), s.Field(i).Type())
			}
		} else {
			for i := 0; i < s.NumFields(); i++ {
				m[s.Field(i).Name()] = r.x.fieldOf(t, i, t.typ)
			}
		}
	}
	return m
}

func (r *recs) back(st *St, l *LoopI, next []*T) {
	for i, s := range l.syms {
		r.phi[s] = append(r.phi[s], l.init[i], next[i])
	}
}

// field: t is a field (or all) of an element of a list.
func (r *recs) field(t *T) (list *T, f string, ok bool) {
	switch t.op {
	case "load":
		a := t.a[0]
		if a.op == "&field" {
			if p := a.a[0]; p.op == "load" && p.a[0].op == "&index" { // pointer
				return r.base(p.a[0].a[0]), a.s, true
			} else if p.op == "&index" {
				return r.base(p.a[0]), a.s, true
			}
		}
		if a.op == "&index" {
			return r.base(a.a[0]), "", true
		}
	case "field":
		if l, _, ok := r.field(t.a[0]); ok {
			return l, t.s, true
		}
	}
	return nil, "", false
}

// sources are the terms a value can stem from.
func (r *recs) sources(t *T) []*T {
	seen := map[*T]bool{}
	var out []*T
	var walk func(t *T)
	var walkList func(l *T, f string, miss *T) bool
	walk = func(t *T) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if o := r.phi[t]; o != nil {
			for _, u := range o {
				walk(u)
			}
			return
		}
		// a field of a record carried around a loop
		if p, f := fieldOfRec(t); p != nil && r.phi[p] != nil {
			done := map[*T]bool{}
			var rec func(p *T)
			rec = func(p *T) {
				if done[p] {
					return
				}
				done[p] = true
				if os := r.phi[p]; os != nil {
					for _, o := range os {
						rec(o)
					}
					return
				}
				if l, _, ok := r.field(p); ok {
					walkList(l, f, t)
					return
				}
				out = append(out, t)
			}
			rec(p)
			return
		}
		if l, f, ok := r.field(t); ok {
			if walkList(l, f, nil) {
				return
			}
		}
		out = append(out, t)
	}
	walkList = func(l *T, f string, miss *T) bool {
		{
			t := miss
			var es []map[string]*T
			bs := []*T{l}
			sl := map[*T]bool{}
			for len(bs) > 0 {
				b := bs[0]
				bs = bs[1:]
				if sl[b] {
					continue
				}
				sl[b] = true
				es = append(es, r.elem[b]...)
				for _, o := range r.phi[b] {
					if o.isNil() && b.typ != nil {
						o = &T{op: "nil", typ: b.typ}
					}
					bs = append(bs, r.base(o))
				}
			}
			if len(es) == 0 {
				if t != nil {
					out = append(out, t)
				}
				return false
			}
			for _, e := range es {
				if e[f] == nil {
					if t == nil {
						return false
					}
					out = append(out, t)
					return true
				}
				walk(e[f])
			}
			return true
		}
	}
	walk(t)
	return out
}

// fieldOfRec: t is field f of the record p (or of the record that p points to).
func fieldOfRec(t *T) (*T, string) {
	switch {
	case t.op == "load" && t.a[0].op == "&field":
		return t.a[0].a[0], t.a[0].s
	case t.op == "field":
		return t.a[0], t.s
	}
	return nil, ""
}

// fills is a loop that puts one entry per element of a list into a map.
type fills struct {
	l    *LoopI
	m    *T
	ok   bool
	list *T // whose elements are the keys
	idx  lin
	n    int
}

// one: every path of the iteration sets one entry, for the element of the list at the counter.
func (f *fills) add(st *St, l *LoopI, next []*T, sets []*Ev, list *T) string {
	x := st.x
	if len(sets) != 1 {
		return fmt.Sprintf("an iteration writes %d entries", len(sets))
	}
	m, k := sets[0].args[0], sets[0].args[1]
	if f.n > 0 && f.m != m {
		return "different maps are filled"
	}
	f.l, f.m = l, m
	f.n++
	if k.op != "load" || k.a[0].op != "&index" || k.a[0].a[0] != list {
		return "the key " + clip(k.String()) + " is not an element of the states"
	}
	i := x.lin(k.a[0].a[1])
	for j, s := range l.syms {
		if i.k[s] != 1 || len(i.k) != 1 {
			continue
		}
		in := x.lin(l.init[j]).addk(linC(i.c), 1)
		d := x.lin(next[j]).addk(x.lin(s), -1)
		if len(in.k) == 0 && in.c == 0 && len(d.k) == 0 && d.c == 1 {
			f.idx = i
			return ""
		}
	}
	return "the states are not visited one after the other from the first"
}

func isTagLists(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	s, ok := m.Elem().Underlying().(*types.Slice)
	return ok && isUnitOr16(s.Elem()) && isUnitOr16(m.Key())
}

func isUnitOr16(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// constLists evaluates a table map[K][]K of constants that package initialisation fills.
func (c *Ctx) constLists(pkg, global string) (map[int64][]int64, string) {
	p := c.Pkgs[pkg]
	if p == nil {
		return nil, "no package"
	}
	out := map[int64][]int64{}
	n := 0
	for _, fn := range c.Funcs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !tableOf(mu.Map, global) {
					continue
				}
				if fn.Signature.Recv() != nil || fn.Name() != "init" && !isInitN(fn) {
					return nil, "it is written outside of the initialisation, in " + short(fn)
				}
				k, ok := constInt(mu.Key)
				if !ok {
					return nil, "a key is not a constant"
				}
				vs, ok := constSlice(mu.Value)
				if !ok {
					return nil, "an entry is not a list of constants"
				}
				out[k] = vs
				n++
			}
		}
	}
	if n != len(out) {
		return nil, "an entry is written twice"
	}
	return out, ""
}

func isInitN(fn *ssa.Function) bool {
	n := fn.Name()
	return len(n) > 5 && n[:5] == "init#"
}

// tableOf: v is the map in a package variable, or a new map that is put there.
func tableOf(v ssa.Value, global string) bool {
	isG := func(g ssa.Value) bool {
		x, ok := g.(*ssa.Global)
		return ok && x.Name() == global
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		return v.Op == token.MUL && isG(v.X)
	case *ssa.MakeMap:
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && isG(s.Addr) {
				return true
			}
		}
	}
	return false
}

func constInt(v ssa.Value) (int64, bool) {
	if cv, ok := v.(*ssa.Convert); ok {
		return constInt(cv.X)
	}
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(k.Value)
}

// constSlice: a slice literal of constants.
func constSlice(v ssa.Value) ([]int64, bool) {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	a, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	at, ok := derefType(a.Type()).Underlying().(*types.Array)
	if !ok {
		return nil, false
	}
	out := make([]int64, at.Len())
	for _, r := range *a.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			if r != s {
				return nil, false
			}
			continue
		}
		i, ok := constInt(ia.Index)
		if !ok {
			return nil, false
		}
		for _, r2 := range *ia.Referrers() {
			st, ok := r2.(*ssa.Store)
			if !ok {
				return nil, false
			}
			n, ok := constInt(st.Val)
			if !ok {
				return nil, false
			}
			out[i] = n
		}
	}
	return out, true
}

// legalPrev: which tags may stand before a tag.
var legalPrev = map[int64]string{'B': "ES", 'S': "ES", 'M': "BM", 'E': "BM"}

// checkViterbi decides that Viterbi gives one tag per character and only allowed successions.
func (c *Ctx) checkViterbi(vit *ssa.Function) {
	const rule = "tags-are-a-path"
	name := short(vit)
	pos := c.Pos(vit.Pos())
	prev, why := c.constLists(modPath+"/hmm", "prevStatus")
	if prev == nil {
		c.R.Fail("allowed-successions", "prevStatus", pos, "the table can not be evaluated: "+why)
		return
	}
	for _, k := range []int64{'B', 'M', 'E', 'S'} {
		ok, msg := len(prev[k]) > 0, "no tag may stand before it"
		for _, p := range prev[k] {
			if !containsRune(legalPrev[k], p) {
				ok, msg = false, fmt.Sprintf("%c is allowed before %c", rune(p), rune(k))
			}
		}
		c.R.Check(ok, "allowed-successions", "prevStatus["+string(rune(k))+"]", pos, msg)
	}
	x := newE3(c.World)
	obs, states := x.paramT(vit, 0), x.paramT(vit, 1)
	rc := newRecs(x)
	fl := map[string]*fills{}
	bad := map[string]bool{}
	fail := func(in token.Pos, msg string) {
		if !bad[msg] {
			bad[msg] = true
			c.R.Fail(rule, name, c.Pos(in), msg)
		}
	}
	// before: the tags that can stand before y when s is chosen
	legal := func(st *St, s, y *T) string {
		for _, o := range rc.sources(s) {
			if o.op == "load" && o.a[0].op == "&index" {
				l := o.a[0].a[0]
				if l.op == "ext" {
					l = l.a[0]
				}
				if l.op == "lookup" && l.a[0].op == "load" && l.a[0].a[0].op == "global" && l.a[0].a[0].s == modPath+"/hmm.prevStatus" && l.a[1] == y {
					continue
				}
				if l.op == "lookup" && l.a[0].op == "global" && l.a[0].s == modPath+"/hmm.prevStatus" && l.a[1] == y {
					continue
				}
			}
			return "the tag before " + clip(y.String()) + " can be " + clip(o.String()) + ", which is not from the table of allowed successions for it"
		}
		return ""
	}
	var mapPhi *T // the paths found so far
	var mapLoop *LoopI
	pass := 0
	setsIn := func(tr []*Ev) []*Ev {
		var o []*Ev
		for _, e := range tr {
			if e.kind == "mapset" && e.args[0].typ != nil && isTagLists(e.args[0].typ) {
				o = append(o, e)
			}
		}
		return o
	}
	h := &Hooks{Inline: expandAll()}
	h.Event = func(st *St, e *Ev) {
		rc.event(st, e)
	}
	h.Loop = func(st *St, l *LoopI) {
		for i, p := range l.phis {
			if isTagLists(p.Type()) {
				mapPhi, mapLoop = l.syms[i], l
				if pass == 2 {
					f := (*fills)(nil)
					for _, g := range fl {
						if g.m == l.init[i] {
							f = g
						}
					}
					if f == nil || !f.ok {
						fail(vit.Pos(), "the paths of the first character are not set for every state")
					} else if !st.le(x.lenOf(states), linTerm(x, f)) {
						fail(vit.Pos(), "the first loop may leave out states")
					}
				}
			}
		}
	}
	value := func(st *St, e *Ev) {
		k, v := e.args[1], e.args[2]
		if es, ok := x.explicit(st, v); ok {
			if len(es) != 1 || es[0] != k {
				fail(e.in.Pos(), "the path of the first character is not its own tag")
			}
			return
		}
		p := freshExtend(st, v, k)
		if p == nil {
			fail(e.in.Pos(), "the path "+clip(v.String())+" is not a fresh copy of a shorter one with the tag at the end")
			return
		}
		if p.op == "ext" {
			p = p.a[0]
		}
		if p.op != "lookup" || p.a[0] != mapPhi {
			fail(e.in.Pos(), "the shorter path "+clip(p.String())+" is not one of those found for the character before")
			return
		}
		if w := legal(st, p.a[1], k); w != "" {
			fail(e.in.Pos(), w)
		}
	}
	h.Back = func(st *St, l *LoopI, next []*T) {
		rc.back(st, l, next)
		if pass == 0 {
			return
		}
		sets := setsIn(st.trace[l.nt:])
		for _, e := range sets {
			value(st, e)
		}
		if len(sets) > 0 || fl[l.id] != nil {
			f := fl[l.id]
			if f == nil {
				f = &fills{ok: true}
				fl[l.id] = f
			}
			if w := f.add(st, l, next, sets, states); w != "" {
				f.ok = false
				fail(loopPos(l), w)
			}
		}
		for i, s := range l.syms {
			if s != mapPhi || pass < 2 {
				continue
			}
			n := next[i]
			var f *fills
			for _, g := range fl {
				if g.m == n {
					f = g
				}
			}
			if n.op != "mkmap" && n.op != "alloc" || !st.madeSince(n, l) || f == nil || !f.ok {
				fail(loopPos(l), "the paths of the next character are not a map filled in this iteration")
			} else if !st.le(x.lenOf(states), linTerm(x, f)) {
				fail(loopPos(l), "the inner loop may leave out states")
			}
		}
	}
	h.Ret = func(st *St, res []*T) {
		if pass < 2 {
			return
		}
		if st.eqI(x.lenOf(obs), x.tt.int(0)) {
			c.R.Check(st.eqI(x.lenOf(res[1]), x.tt.int(0)), rule, name, pos, "there are tags without characters")
			return
		}
		p := res[1]
		if p.op == "ext" {
			p = p.a[0]
		}
		if p.op != "lookup" || mapPhi == nil || p.a[0] != mapPhi {
			fail(vit.Pos(), "the result "+clip(p.String())+" is not one of the paths found")
			return
		}
		for _, s := range rc.sources(p.a[1]) {
			if n, ok := s.intVal(); ok && legalPrev[n] != "" {
				continue
			}
			if s.op == "load" && s.a[0].op == "&index" {
				if s.a[0].a[0] == states {
					continue
				}
				if es, ok := x.explicit(st, s.a[0].a[0]); ok && len(es) > 0 {
					all := true
					for _, e := range es {
						n, ok := e.intVal()
						all = all && ok && legalPrev[n] != ""
					}
					if all {
						continue
					}
				}
			}
			fail(vit.Pos(), "the last tag can be "+clip(s.String())+", which is not one of the states")
		}
		// one step per character
		ok := false
		for i, s := range mapLoop.syms {
			if !isInt(s.typ) {
				continue
			}
			n, isC := mapLoop.init[i].intVal()
			if !isC {
				continue
			}
			one := true
			for j, u := range rc.phi[s] {
				if j%2 == 1 {
					d := x.lin(u).addk(x.lin(s), -1)
					one = one && len(d.k) == 0 && d.c == 1
				}
			}
			v := x.lin(s)
			v.c += 1 - n
			d := x.lin(x.lenOf(obs)).addk(v, -1)
			if one && st.proves(linC(0).addk(d, -1)) {
				ok = true
				c.stepExact(x, mapLoop, s, 1-n, obs, fail)
			}
		}
		if !ok {
			fail(vit.Pos(), "there may be fewer tags than characters")
		}
		c.R.Check(ok, rule, name, pos, "there may be fewer tags than characters")
	}
	for pass = 0; pass < 3; pass++ {
		if x.Run(vit, h) {
			c.R.Fail("analysed", name, pos, "too many paths")
			return
		}
	}
	if mapPhi == nil {
		c.R.Fail(rule, name, pos, "no loop carries the paths from character to character")
	}
	c.R.AtLeast(rule, 1)
	c.insideOf(vit)
}

// insideOf: what is indexed by characters stays inside.
func (c *Ctx) insideOf(fn *ssa.Function) {
	x := newE3(c.World)
	q := newE4(c, x, fn, E4Cfg{Inline: expandAll()})
	q.bounds("stays-inside", short(fn))
	all := q.cfg.Hooks.Index
	q.cfg.Hooks.Index = func(st *St, in ssa.Instruction, b, i *T) {
		if b.op == "param" || b.op == "mkslice" {
			all(st, in, b, i)
		}
	}
	slices := q.cfg.Hooks.Slice
	q.cfg.Hooks.Slice = func(st *St, in *ssa.Slice, b, lo, hi *T) {
		if b.op == "param" || b.op == "mkslice" {
			slices(st, in, b, lo, hi)
		}
	}
	if !q.Run() {
		c.R.Fail("analysed", short(fn), c.Pos(fn.Pos()), "too many paths")
	} else {
		q.ends("ends")
	}
}

// stepExact: the loop that goes from character to character goes on only while there is one.
func (c *Ctx) stepExact(x *E3, l *LoopI, s *T, off int64, obs *T, fail func(token.Pos, string)) {
	ok := false
	h := &Hooks{Inline: expandAll()}
	h.Back = func(st *St, l2 *LoopI, next []*T) {
		if l2.id != l.id {
			return
		}
		v := x.lin(s)
		v.c += off + 1
		ok = st.proves(x.lin(x.lenOf(obs)).addk(v, -1))
		if !ok {
			fail(loopPos(l), "there may be more tags than characters")
		}
	}
	x.Run(l.fn, h)
}

func linTerm(x *E3, f *fills) *T {
	for t := range f.idx.k {
		return x.arith("+", t, x.tt.int(f.idx.c), types.Typ[types.Int])
	}
	return x.tt.int(f.idx.c)
}

// freshExtend: v is a new list with the elements of another one and k at its end.
func freshExtend(st *St, v, k *T) *T {
	x := st.x
	copied := func(f *T) *T {
		for _, e := range st.trace {
			if e.kind == "call" && e.name == "builtin:copy" && e.args[0] == f {
				return e.args[1]
			}
		}
		return nil
	}
	if v.op == "append" {
		es, ok := x.explicit(st, v.a[1])
		if !ok || len(es) != 1 || es[0] != k {
			return nil
		}
		f := v.a[0]
		if f.op == "append" && (f.a[0].isNil() || f.a[0].op == "mkslice" && x.lenOf(f.a[0]) == x.tt.int(0) || f.a[0].op == "list" && len(f.a[0].a) == 0) {
			return f.a[1]
		}
		if f.op == "call" && (callName(f.s) == "slices.Clone" || callName(f.s) == "bytes.Clone") {
			return f.a[0]
		}
		if p := copied(f); f.op == "mkslice" && p != nil && st.eqI(x.lenOf(f), x.lenOf(p)) {
			return p
		}
		return nil
	}
	if v.op == "mkslice" {
		p := copied(v)
		if p == nil || !st.eqI(x.lenOf(v), x.arith("+", x.lenOf(p), x.tt.int(1), types.Typ[types.Int])) {
			return nil
		}
		for _, e := range st.trace {
			if e.kind == "store" && e.args[0].op == "&index" && e.args[0].a[0] == v && st.eqI(e.args[0].a[1], x.lenOf(p)) && e.args[1] == k {
				return p
			}
		}
	}
	return nil
}

func containsRune(s string, r int64) bool {
	for _, x := range s {
		if int64(x) == r {
			return true
		}
	}
	return false
}

// madeSince: the object was allocated in the iteration of the loop.
func (st *St) madeSince(t *T, l *LoopI) bool {
	return st.madeInLoop(t)
}
