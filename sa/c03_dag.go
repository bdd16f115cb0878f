package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C03", checkDAG) }

// mapSum is what is known about a function that makes a map over the positions of a text.
type mapSum struct {
	busy, done, ok bool
	pi             int
	why            string
	obls           *Report
}

// graphKind: 1 a map from positions to lists of positions, 2 a map from positions to routes, 0 neither.
func graphKind(fn *ssa.Function) (kind, pi int) {
	pi = -1
	if fn == nil || fn.Blocks == nil || fn.Signature.Results().Len() != 1 {
		return 0, -1
	}
	m, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Map)
	if !ok || !isInt(m.Key()) {
		return 0, -1
	}
	for i, p := range fn.Params {
		if isRunes(p.Type()) {
			if pi >= 0 {
				return 0, -1
			}
			pi = i
		}
	}
	if pi < 0 {
		return 0, -1
	}
	if s, ok := m.Elem().Underlying().(*types.Slice); ok && isInt(s.Elem()) {
		return 1, pi
	}
	if intField(m.Elem()) >= 0 {
		return 2, pi
	}
	return 0, -1
}

// intField is the only integer field of a struct.
func intField(t types.Type) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	r := -1
	for i := 0; i < s.NumFields(); i++ {
		if isInt(s.Field(i).Type()) {
			if r >= 0 {
				return -1
			}
			r = i
		}
	}
	return r
}

// sums is attached to a keeper.
type sums struct {
	k    *keeper
	memo map[*ssa.Function]*mapSum
}

func newSums(k *keeper) *sums { return &sums{k: k, memo: map[*ssa.Function]*mapSum{}} }

// entry: t is the entry of a map made by a summarised function, for key K and text R.
func (s *sums) entry(q *E4, t *T, want int) (key, text *T) {
	if t.op == "ext" {
		t = t.a[0]
	}
	if t.op != "lookup" {
		return nil, nil
	}
	f, call, i := s.k.callOf(t.a[0])
	if f == nil || i >= 0 {
		return nil, nil
	}
	kind, pi := graphKind(f)
	if kind != want || q.dirty[call] {
		return nil, nil
	}
	if m := s.sum(f); !m.ok {
		return nil, nil
	}
	return t.a[1], call.a[pi]
}

// facts: elements of the graph and steps of the routes lie between their position and the end of the text.
func (s *sums) facts(q *E4, st *St, t *T) []lin {
	x := q.x
	v := lin{map[*T]int64{t: 1}, 0}
	within := func(key, text *T) []lin {
		n := x.lenOf(text)
		if !st.le(x.tt.int(0), key) || !st.ltI(key, n) {
			return nil
		}
		hi := x.lin(n).addk(v, -1)
		hi.c--
		return []lin{v.addk(x.lin(key), -1), hi}
	}
	switch {
	case t.op == "len":
		if key, text := s.entry(q, t.a[0], 1); key != nil && st.le(x.tt.int(0), key) && st.ltI(key, x.lenOf(text)) {
			r := v.clone()
			r.c--
			return []lin{r}
		}
	case t.op == "load" && t.a[0].op == "&index":
		if key, text := s.entry(q, t.a[0].a[0], 1); key != nil {
			return within(key, text)
		}
	case t.op == "field" || t.op == "lookup":
		b := t
		if t.op == "field" {
			b = t.a[0]
		}
		if key, text := s.entry(q, b, 2); key != nil {
			return within(key, text)
		}
	}
	return nil
}

// counters: loops whose counter visits every position of the text; key is the position.
type posLoop struct {
	l   *LoopI
	key *T
	off int64
	v   int
	up  bool
}

// sum analyses a function that makes a graph or routes.
func (s *sums) sum(fn *ssa.Function) *mapSum {
	if m := s.memo[fn]; m != nil {
		return m
	}
	m := &mapSum{busy: true}
	s.memo[fn] = m
	kind, pi := graphKind(fn)
	if kind == 0 {
		m.done, m.why = true, "shape"
		return m
	}
	m.pi = pi
	c := s.k.c
	name := short(fn)
	saved := c.R
	c.R = &Report{}
	defer func() { c.R = saved; m.busy, m.done = false, true }()
	x := newE3(c.World)
	text := x.paramT(fn, pi)
	n := x.lenOf(text)
	q := newE4(c, x, fn, E4Cfg{})
	s.config(q)
	rule := map[int]string{1: "edges-stay-inside", 2: "routes-stay-inside"}[kind]
	all := true
	check := func(ok bool, rule, pos, msg string) {
		if !ok && all {
			m.why = msg
		}
		all = all && ok
		c.R.Check(ok, rule, name, pos, msg)
	}
	el := func(t types.Type) types.Type { return t.Underlying().(*types.Map).Elem() }
	rt := fn.Signature.Results().At(0).Type()
	same := func(t *T) bool { return t.typ != nil && types.Identical(t.typ.Underlying(), rt.Underlying()) }
	// what was appended to a list: for which positions the elements are inside
	lists := map[*T]map[*T]bool{}
	base := func(t *T) *T {
		for t.op == "append" {
			t = t.a[0]
		}
		return t
	}
	syms := func(st *St) []*T {
		var o []*T
		for f := st.fr; f != nil; f = f.up {
			for _, l := range f.loops {
				for _, y := range l.syms {
					if isInt(y.typ) {
						o = append(o, y)
					}
				}
			}
		}
		return o
	}
	inside := func(st *St, e, k *T) bool { return st.le(k, e) && st.ltI(e, n) }
	covered := map[string]*posLoop{} // by loop
	full := map[string]string{}      // loop -> why not
	present := func(st *St, mp, k *T) bool {
		v, has := x.lookup(st, mp, k, rt.Underlying().(*types.Map))
		if kind == 1 {
			return st.le(x.tt.int(1), x.lenOf(v))
		}
		b, known := st.truth(has)
		if !known {
			if bv, ok := has.boolVal(); ok {
				return bv
			}
		}
		return known && b
	}
	// loops that leave an entry for a key in every iteration
	keys := map[*T]bool{}
	inner := map[string]bool{}
	ran := func(st *St, from int, mp, k *T) bool {
		for _, e := range st.trace[from:] {
			if e.kind != "exit" || !inner[fmt.Sprintf("%s/%d/%d", e.loop.id, mp.id, k.id)] {
				continue
			}
			// it ran at least once
			for i, y := range e.loop.syms {
				if isInt(y.typ) && (st.ltI(e.loop.init[i], y) || st.ltI(y, e.loop.init[i])) {
					return true
				}
			}
		}
		return false
	}
	h := &q.cfg.Hooks
	var result *T
	pass := 0
	h.Event = func(st *St, e *Ev) {
		if e.kind == "append" && kind == 1 {
			b := base(e.args[0])
			es, ok := x.explicit(st, e.args[1])
			if lists[b] == nil {
				lists[b] = map[*T]bool{}
				for _, y := range syms(st) {
					lists[b][y] = true
				}
			}
			for y := range lists[b] {
				if !ok {
					delete(lists[b], y)
				}
				for _, t := range es {
					if !inside(st, t, y) {
						delete(lists[b], y)
						break
					}
				}
			}
		}
		if e.kind != "mapset" || !same(e.args[0]) {
			return
		}
		k, v := e.args[1], e.args[2]
		keys[k] = true
		pos := c.Pos(e.in.Pos())
		if st.le(n, k) {
			return // behind the end
		}
		if kind == 2 {
			i := x.fieldOf(v, intField(el(rt)), el(rt))
			check(inside(st, i, k), rule, pos, "the route from "+clip(k.String())+" leads to "+clip(i.String())+", which may be before it or behind the end; the path: "+clip(litStrings(st.lits)))
			return
		}
		b := base(v)
		for u := v; u.op == "append"; u = u.a[0] {
			es, ok := x.explicit(st, u.a[1])
			if !ok {
				check(false, rule, pos, "edges that are not listed are added")
				return
			}
			for _, t := range es {
				check(inside(st, t, k), rule, pos, "an edge from "+clip(k.String())+" leads to "+clip(t.String())+", which may be before it or behind the end; the path: "+clip(litStrings(st.lits)))
			}
		}
		switch {
		case b.isNil(), b.op == "list" && len(b.a) == 0, b.op == "mkslice" && st.eqI(x.lenOf(b), x.tt.int(0)):
		case b.op == "slice":
			es, ok := x.explicit(st, b)
			if !ok && st.eqI(x.lenOf(b), x.tt.int(0)) {
				return
			}
			for _, t := range es {
				ok = ok && inside(st, t, k)
			}
			check(ok, rule, pos, "the edges "+clip(b.String())+" may be outside of the text")
		case b.op == "lookup" && b.a[1] == k, b.op == "ext" && b.a[0].op == "lookup" && b.a[0].a[1] == k:
		case b.op == "phi":
			check(lists[b] != nil && lists[b][k], rule, pos, "the edges collected in "+clip(b.String())+" may be outside of the text")
		default:
			check(false, rule, pos, "the edges are "+clip(b.String()))
		}
	}
	h.Back = func(st *St, l *LoopI, next []*T) {
		if pass > 0 {
			for _, mp := range maps(st, rt) {
				for k := range keys {
					id := fmt.Sprintf("%s/%d/%d", l.id, mp.id, k.id)
					p := present(st, mp, k)
					if old, ok := inner[id]; !ok {
						inner[id] = p
					} else {
						inner[id] = old && p
					}
				}
			}
		}
		for j, y := range l.syms {
			if !isInt(y.typ) {
				continue
			}
			d := x.lin(next[j]).addk(x.lin(y), -1)
			if len(d.k) != 0 || d.c != 1 && d.c != -1 {
				continue
			}
			// first position
			f := linC(0)
			if d.c < 0 {
				f = x.lin(n)
				f.c--
			}
			o := f.addk(x.lin(l.init[j]), -1)
			if len(o.k) != 0 {
				continue
			}
			key := x.arith("+", y, x.tt.int(o.c), types.Typ[types.Int])
			id := fmt.Sprintf("%s/%d", l.id, j)
			covered[id] = &posLoop{l, key, o.c, j, d.c > 0}
			for _, mp := range maps(st, rt) {
				k := fmt.Sprintf("%s/%d", id, mp.id)
				if present(st, mp, key) || ran(st, l.nt, mp, key) {
					if _, ok := full[k]; !ok {
						full[k] = ""
					}
				} else {
					full[k] = litStrings(st.lits[l.nl:])
				}
			}
		}
	}
	h.Ret = func(st *St, res []*T) {
		if pass < 2 {
			return
		}
		if st.le(n, x.tt.int(0)) {
			return
		}
		result = res[0]
		why := "no loop sets an entry for every position"
		ok := false
		for _, id := range sortedKeys(covered) {
			p := covered[id]
			w, known := full[fmt.Sprintf("%s/%d", id, result.id)]
			if !known {
				continue
			}
			if w != "" {
				why = "an iteration may leave no entry: " + clip(w)
				continue
			}
			if p.up && st.le(n, p.key) || !p.up && st.ltI(p.key, x.tt.int(0)) {
				ok = true
			} else if !ok {
				why = "the loop may stop before the last position"
			}
		}
		check(ok, "every-position-has-one", c.Pos(fn.Pos()), why)
	}
	q.bounds("stays-inside", name)
	q.passes = 2
	q.again = func() { pass++; full = map[string]string{} }
	if !q.Run() {
		m.why = "too many paths"
		c.R.Fail("analysed", name, c.Pos(fn.Pos()), m.why)
		all = false
	} else {
		q.ends("ends")
	}
	m.ok = all
	m.obls = c.R
	return m
}

// maps made by the function that have the type of its result.
func maps(st *St, rt types.Type) []*T {
	seen := map[*T]bool{}
	var o []*T
	for f := st.fr; f != nil; f = f.up {
		for _, t := range f.env {
			if !seen[t] && t.typ != nil && (t.op == "mkmap" || t.op == "alloc") && types.Identical(t.typ.Underlying(), rt.Underlying()) {
				seen[t] = true
				o = append(o, t)
			}
		}
	}
	return o
}

func (s *sums) config(q *E4) {
	k := s.k
	oldIn, oldF := q.cfg.Inline, q.cfg.Facts
	q.cfg.Inline = func(st *St, f *ssa.Function) bool {
		if kind, _ := graphKind(f); kind != 0 || readsTrie(f) {
			return false
		}
		if oldIn != nil {
			return oldIn(st, f)
		}
		return expandAll()(st, f)
	}
	q.cfg.Facts = func(st *St, t *T) []lin {
		var o []lin
		if oldF != nil {
			o = oldF(st, t)
		}
		return append(o, s.facts(q, st, t)...)
	}
	_ = k
}

// readsTrie: the function looks words up itself.
func readsTrie(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && strings.Contains(g.RelString(nil), cedarPath) {
					return true
				}
			}
		}
	}
	return false
}

func (s *sums) report() {
	for _, fn := range s.k.c.libFuncs() {
		if m := s.memo[fn]; m != nil && m.obls != nil {
			s.k.c.R.Obls = append(s.k.c.R.Obls, m.obls.Obls...)
			s.k.c.R.Unit("functions", 1)
		}
	}
}

// lowered: the goals for functions that lower-case the text when ToLower is on.
func lowered(q *E4, st *St, text *T) (exact, low []seq) {
	exact = []seq{q.whole(text)}
	on, known := false, false
	for _, l := range st.lits {
		if l.t.op == "load" && l.t.a[0].op == "global" && l.t.a[0].s == toLowerFlag {
			on, known = l.pol, true
		}
	}
	if known && !on {
		low = append(low, q.whole(text))
	}
	if known && on {
		for _, e := range st.trace {
			if e.kind == "call" && (e.name == "strings.ToLower" || e.name == "bytes.ToLower") && stripUnits(e.args[0]) == text {
				low = append(low, q.whole(e.res))
			}
		}
	}
	low = append(low, q.whole(q.lowT(text)))
	return exact, low
}

// lowT stands for the text, lower-cased when ToLower is on.
func (q *E4) lowT(text *T) *T {
	return q.x.tt.mk("low", "", types.Typ[types.String], stripUnits(text))
}

func checkDAG(c *Ctx) {
	c.R.Rule = "Cut, CutDAG, CutDAGNoHMM and what they call are evaluated path by path with inferred loop invariants: on every return the words joined together must be the text (the lower-cased text when ToLower is on). The word graph and the routes are summarised first: every edge and every route from a position must lead to a position between it and the end of the text, every position must have at least one edge and a route when the functions that make them return; the cutting loops use only that. Every index and slice must be inside, every loop must make some quantity smaller; the HMM part is decided as in C04."
	c.R.Assume = append(c.R.Assume, "The text is valid UTF-8.", "package regexp returns matches inside of the text with begin <= end.", "strings.ToLower is the lower-cased text meant.")
	k := newKeeper(c)
	s := newSums(k)
	tags := hmmTags(k)
	k.setup = func(q *E4, fn *ssa.Function) {
		tags(q, fn)
		s.config(q)
	}
	k.low = true
	k.prep = func(q *E4, fn *ssa.Function, st *St) {
		if fn.Signature.Variadic() && short(fn) == "(*gse.Segmenter).Cut" {
			p := q.x.paramT(fn, len(fn.Params)-1)
			l := q.x.lin(q.x.lenOf(p))
			l.c--
			st.facts = append(st.facts, l)
		}
	}
	var anchors []*ssa.Function
	for _, n := range []string{"Cut", "CutDAG", "CutDAGNoHMM"} {
		fn := c.Method(modPath, "Segmenter", n)
		if fn == nil {
			c.R.Fail("anchor", n, "", "not found")
			continue
		}
		anchors = append(anchors, fn)
		k.keeps(fn)
	}
	if vit := c.Func(modPath+"/hmm", "Viterbi"); vit != nil {
		c.checkViterbi(vit)
	}
	s.report()
	k.report(anchors...)
	c.R.AtLeast("pieces-joined-are-the-text", 3)
}
