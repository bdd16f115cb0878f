package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C06", checkSearch) }

func checkSearch(c *Ctx) {
	c.R.Rule = "CutSearch, with the helpers it calls, is evaluated path by path with inferred loop invariants: every text added to a result list must be a word of the accurate cut (of the same text, with the same hmm argument) or a contiguous part of such a word that, on this path, the dictionary was asked for and answered that it holds with a frequency above zero; on every return the words added, joined, must be all words of the accurate cut in order, and they must have been added to the list returned. CutAll: every text added must be text[k:j+1] of the text (lower-cased when ToLower is on) with j an element of the graph's edges of k. The functions that make the graph: every edge added from k to j must be k itself or the path must know that the dictionary holds text[k:j+1] with a frequency above zero."
	c.R.Assume = append(c.R.Assume, "Without the hmm argument CutSearch is Slice in search mode, decided by C21 and C08.", "Texts are valid UTF-8.")
	if fn := c.Method(modPath, "Segmenter", "CutSearch"); fn != nil {
		c.searchMode(fn)
	} else {
		c.R.Fail("anchor", "CutSearch", "", "not found")
	}
	if fn := c.Method(modPath, "Segmenter", "CutAll"); fn != nil {
		c.fullMode(fn)
	} else {
		c.R.Fail("anchor", "CutAll", "", "not found")
	}
	n := 0
	for _, fn := range c.libFuncs() {
		if kind, pi := graphKind(fn); kind == 1 {
			n++
			c.edges(fn, pi)
		}
	}
	c.R.Check(n > 0, "anchor", "graph", "", "no function makes the word graph")
	c.R.AtLeast("a-word-or-a-known-part", 2)
	c.R.AtLeast("an-edge-of-the-graph", 1)
	c.R.AtLeast("an-edge-is-a-known-word", 1)
}

func isFind(t *T) bool {
	if t.op != "call" {
		return false
	}
	n := callName(t.s)
	return strings.HasPrefix(n, "(*"+modPath+".") && strings.HasSuffix(n, ").Find") || n == "(*"+modPath+".Dictionary).Value" || n == "(*"+modPath+"/hmm/pos.Dict).Freq"
}

// above: the path knows that the quantity is above zero.
func above(st *St, v *T) bool {
	val := func(t *T) (float64, bool) {
		if f, ok := t.floatVal(); ok {
			return f, true
		}
		n, ok := t.intVal()
		return float64(n), ok
	}
	for _, l := range st.lits {
		if len(l.t.a) != 2 || l.t.op != "<" && l.t.op != "<=" {
			continue
		}
		a, b := l.t.a[0], l.t.a[1]
		switch {
		case b == v && l.pol:
			if k, ok := val(a); ok && (k > 0 || k == 0 && l.t.op == "<") {
				return true
			}
		case a == v && !l.pol:
			if k, ok := val(b); ok && (k > 0 || k == 0 && l.t.op == "<=") {
				return true
			}
		}
	}
	return false
}

// known: the path knows that the dictionary holds the text with a frequency above zero.
func (q *E4) known(st *St, s seq) bool {
	for _, l := range st.lits {
		call, i := l.t.ext()
		if call == nil || i != 2 || !l.pol || !isFind(call) || len(call.a) < 2 {
			continue
		}
		if above(st, q.x.comp(call, 0)) && q.Same(st, q.flat(st, call.a[1]), s) {
			return true
		}
		for k := range q.x.tt.m {
			// the first result may carry a type
			u := q.x.tt.m[k]
			if cc, j := u.ext(); cc == call && j == 0 && above(st, u) && q.Same(st, q.flat(st, call.a[1]), s) {
				return true
			}
		}
	}
	return false
}

// listRoot is the list a list was made from by adding to it.
func listRoot(st *St, t *T) *T {
	for n := 0; n < 50; n++ {
		switch t.op {
		case "append":
			t = t.a[0]
			continue
		case "slice":
			if t.a[0].op != "alloc" {
				t = t.a[0]
				continue
			}
		case "phi":
			up := (*T)(nil)
			for f := st.fr; f != nil && up == nil; f = f.up {
				for _, l := range f.loops {
					for i, y := range l.syms {
						if y == t {
							up = l.init[i]
						}
					}
				}
			}
			if up == nil {
				for _, e := range st.trace {
					if e.loop == nil {
						continue
					}
					for i, y := range e.loop.syms {
						if y == t {
							up = e.loop.init[i]
						}
					}
				}
			}
			if up != nil && !up.isNil() && !(up.op == "const") {
				t = up
				continue
			}
		}
		return t
	}
	return t
}

func isStrings(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

func (c *Ctx) searchMode(fn *ssa.Function) {
	name, pos := short(fn), c.Pos(fn.Pos())
	x := newE3(c.World)
	q := newE4(c, x, fn, E4Cfg{})
	var text, hmm *T
	for i, p := range fn.Params {
		if isString(p.Type()) {
			text = x.paramT(fn, i)
		}
		if s, ok := p.Type().Underlying().(*types.Slice); ok && isBool(s.Elem()) {
			hmm = x.paramT(fn, i)
		}
	}
	if text == nil || hmm == nil {
		c.R.Fail("anchor", name, pos, "takes no text or no hmm argument")
		return
	}
	direct := map[*ssa.Function]bool{}
	for _, f := range c.libFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil {
						if kind, _ := graphKind(g); kind != 0 {
							direct[f] = true
						}
					}
				}
			}
		}
	}
	all := expandAll()
	q.cfg.Inline = func(st *St, f *ssa.Function) bool {
		if isAPI(f) || direct[f] || readsTrie(f) {
			return false
		}
		return all(st, f)
	}
	// the accurate cut
	cut := func(st *St, t *T) string {
		if t.op != "call" || len(t.a) < 2 {
			return "not a cut"
		}
		n := callName(t.s)
		if !strings.HasPrefix(n, "(*"+modPath+".Segmenter).") || !strings.Contains(strings.ToLower(n), "cut") || !isStrings(t.typ) {
			return "not a cut"
		}
		if stripUnits(t.a[1]) != text {
			return "the cut is not of the text given"
		}
		if strings.HasSuffix(n, ".Cut") {
			if len(t.a) < 3 {
				return "the cut does not take the hmm argument"
			}
			h := t.a[2]
			if h == hmm {
				return ""
			}
			if h.op == "list" && len(h.a) == 1 {
				e := h.a[0]
				if e.op == "load" && e.a[0].op == "&index" && e.a[0].a[0] == hmm && isZero(e.a[0].a[1]) {
					return ""
				}
				if v, ok := e.boolVal(); ok {
					for _, l := range st.lits {
						if l.t.op == "load" && l.t.a[0].op == "&index" && l.t.a[0].a[0] == hmm && isZero(l.t.a[0].a[1]) && l.pol == v {
							return ""
						}
					}
				}
			}
			return "the cut does not get the hmm argument"
		}
		for _, l := range st.lits {
			if l.t.op == "load" && l.t.a[0].op == "&index" && l.t.a[0].a[0] == hmm && isZero(l.t.a[0].a[1]) {
				low := strings.ToLower(n)
				if l.pol == !strings.HasSuffix(low, "nohmm") {
					return ""
				}
			}
		}
		return "the cut does not depend on the hmm argument"
	}
	isSlice := func(t *T) bool {
		return t.op == "call" && callName(t.s) == "(*"+modPath+".Segmenter).Slice" && len(t.a) > 1 && stripUnits(t.a[1]) == text
	}
	// word: the text is a word of a cut; part: a part of one
	cls := func(st *St, t *T) (word, part seq, ws *T) {
		s := q.norm(st, q.flat(st, t))
		if len(s) != 1 || s[0].base == nil {
			return nil, nil, nil
		}
		b := s[0].base
		whole := false
		if b.op == "conv" && isRunes(b.typ) {
			whole = q.eqL(st, s[0].lo, linC(0)) && q.eqL(st, s[0].hi, x.lin(x.lenOf(b)))
			b = stripUnits(b.a[0])
			if f := q.flat(st, b); len(f) == 1 {
				b = f[0].base
				if !whole {
					return nil, s, b
				}
				return f, nil, b
			}
			return nil, nil, nil
		}
		if isStrings(b.typ) {
			one := s[0].lo.clone()
			one.c++
			if q.eqL(st, one, s[0].hi) {
				return s, nil, b
			}
			return nil, nil, nil
		}
		if f := q.flat(st, b); len(f) == 1 && f[0].base != nil && isStrings(f[0].base.typ) {
			return nil, s, f[0].base
		}
		return nil, nil, nil
	}
	const kw = "B:words"
	q.cfg.Prep = func(st *St) {
		st.data[kw] = seq(nil)
	}
	wordTo, moved := map[*T]bool{}, map[*T]bool{}
	q.cfg.Event = func(st *St, e *Ev) {
		if e.kind == "append" && isStrings(e.res.typ) {
			if es, ok := x.explicit(st, e.args[1]); ok {
				for _, t := range es {
					if w, _, _ := cls(st, t); w != nil {
						o, _ := st.data[kw].(seq)
						st.data[kw] = append(append(seq(nil), o...), w...)
					}
				}
			}
		}
	}
	results := map[*T]bool{}
	var cutBy *T
	q.cfg.Hooks.Event = func(st *St, e *Ev) {
		path := "; the path: " + clip(litStrings(st.lits))
		if e.kind == "store" && e.args[0].op == "&index" && isStrings(e.args[0].a[0].typ) && rootOf(e.args[0]).op != "alloc" {
			c.R.Fail("words-stay-as-they-are", name, c.Pos(e.in.Pos()), "a text in a list is replaced"+path)
		}
		if e.kind != "append" || !isStrings(e.res.typ) {
			return
		}
		es, ok := x.explicit(st, e.args[1])
		if !ok {
			if cut(st, e.args[1]) == "" {
				c.R.Fail("a-word-or-a-known-part", name, c.Pos(e.in.Pos()), "the words are added as a whole"+path)
			}
			moved[listRoot(st, e.args[1])] = true
			return
		}
		for _, t := range es {
			w, p, ws := cls(st, t)
			why := ""
			switch {
			case w != nil:
				why = cut(st, ws)
				wordTo[listRoot(st, e.args[0])] = true
				cutBy = ws
			case p != nil:
				why = cut(st, ws)
				if why == "" && !q.known(st, p) {
					why = "nothing says that the dictionary holds " + clip(p.String()) + " with a frequency above zero"
				}
			default:
				why = clip(t.String()) + " is neither a word of the cut nor a part of one"
			}
			c.R.Check(why == "", "a-word-or-a-known-part", name, c.Pos(e.in.Pos()), why+path)
		}
	}
	q.cfg.Hooks.Ret = func(st *St, res []*T) {
		if isSlice(res[0]) {
			return
		}
		path := "; the path: " + clip(litStrings(st.lits))
		w, _ := st.data[kw].(seq)
		var ws *T
		for _, e := range st.trace {
			if e.kind == "call" && e.res != nil && cut(st, e.res) == "" {
				ws = e.res
			}
		}
		if ws == nil {
			c.R.Fail("every-word-once", name, pos, "no accurate cut of the text is made"+path)
			return
		}
		c.R.Check(q.Same(st, w, q.whole(ws)), "every-word-once", name, pos, "the words added are "+clip(q.norm(st, w).String())+", not those of the cut"+path)
		results[listRoot(st, res[0])] = true
	}
	if !q.Run() {
		c.R.Fail("analysed", name, pos, "too many paths")
		return
	}
	_ = cutBy
	for r := range wordTo {
		c.R.Check(results[r] && !moved[r], "words-are-in-the-result", name, pos, "words are added to "+clip(r.String())+", which is not the list returned")
	}
	c.R.Unit("functions", 1)
	c.R.Unit("paths", x.Paths)
}

func (c *Ctx) fullMode(fn *ssa.Function) {
	name, pos := short(fn), c.Pos(fn.Pos())
	x := newE3(c.World)
	k := newKeeper(c)
	s := newSums(k)
	q := newE4(c, x, fn, E4Cfg{})
	s.config(q)
	var text *T
	for i, p := range fn.Params {
		if isString(p.Type()) {
			text = x.paramT(fn, i)
		}
	}
	if text == nil {
		c.R.Fail("anchor", name, pos, "takes no text")
		return
	}
	// the text, lower-cased when ToLower is on
	ofText := func(st *St, b *T) bool {
		for b.op == "conv" {
			b = b.a[0]
		}
		if b == text {
			return true
		}
		if b.op == "call" && (callName(b.s) == "strings.ToLower" || callName(b.s) == "bytes.ToLower") {
			a := b.a[0]
			for a.op == "conv" {
				a = a.a[0]
			}
			if a == text {
				for _, l := range st.lits {
					if l.t.op == "load" && l.t.a[0].op == "global" && l.t.a[0].s == toLowerFlag && l.pol {
						return true
					}
				}
			}
		}
		return false
	}
	q.cfg.Hooks.Event = func(st *St, e *Ev) {
		if e.kind != "append" || !isStrings(e.res.typ) {
			return
		}
		path := "; the path: " + clip(litStrings(st.lits))
		es, ok := x.explicit(st, e.args[1])
		if !ok {
			if listRoot(st, e.args[1]).op == "call" {
				c.R.Fail("an-edge-of-the-graph", name, c.Pos(e.in.Pos()), "texts that are not listed are added"+path)
			}
			return
		}
		for _, t := range es {
			why := clip(t.String()) + " is not a part of the text that an edge of the graph spans"
			f := q.norm(st, q.flat(st, t))
			if len(f) == 1 && f[0].base != nil && isRunes(f[0].base.typ) && ofText(st, f[0].base) {
				hi := f[0].hi.clone()
				hi.c--
				for j, m := range hi.k {
					if m != 1 || len(hi.k) != 1 || hi.c != 0 || j.op != "load" || j.a[0].op != "&index" {
						continue
					}
					key, of := edgesOf(k, q, j.a[0].a[0])
					if key == nil {
						why = "the end of the part is not an edge of the graph"
						continue
					}
					switch {
					case of != f[0].base && !(of.op == "conv" && f[0].base.op == "conv" && of.a[0] == f[0].base.a[0]):
						why = "the graph is of another text"
					case !q.eqL(st, x.lin(key), f[0].lo):
						why = "the edge starts at " + clip(key.String()) + ", the part at " + clip(linString(f[0].lo))
					default:
						why = ""
					}
				}
			}
			c.R.Check(why == "", "an-edge-of-the-graph", name, c.Pos(e.in.Pos()), why+path)
		}
	}
	if !q.Run() {
		c.R.Fail("analysed", name, pos, "too many paths")
		return
	}
	c.R.Unit("functions", 1)
	c.R.Unit("paths", x.Paths)
}

// edgesOf: the edges a graph of a text holds for a position.
func edgesOf(k *keeper, q *E4, t *T) (key, text *T) {
	if t.op == "ext" {
		t = t.a[0]
	}
	if t.op != "lookup" {
		return nil, nil
	}
	f, call, i := k.callOf(t.a[0])
	if f == nil || i >= 0 || q.dirty[call] {
		return nil, nil
	}
	kind, pi := graphKind(f)
	if kind != 1 {
		return nil, nil
	}
	return t.a[1], call.a[pi]
}

// edges: what a function that makes the graph adds as edges.
func (c *Ctx) edges(fn *ssa.Function, pi int) {
	name, pos := short(fn), c.Pos(fn.Pos())
	x := newE3(c.World)
	text := x.paramT(fn, pi)
	q := newE4(c, x, fn, E4Cfg{Offs: true})
	all := expandAll()
	q.cfg.Inline = func(st *St, f *ssa.Function) bool {
		if isAPI(f) || readsTrie(f) {
			return false
		}
		return all(st, f)
	}
	el := fn.Signature.Results().At(0).Type().Underlying().(*types.Map).Elem()
	ints := func(t types.Type) bool { return t != nil && types.Identical(t.Underlying(), el.Underlying()) }
	// edges added to a list, with what is known of the text they span
	type added struct {
		t    *T
		pos  string
		lo   []lin // starts of texts the dictionary holds that end there
		path string
	}
	lists := map[*T][]added{}
	held := func(st *St, t *T) []lin {
		var o []lin
		e := x.lin(t)
		e.c++
		for _, l := range st.lits {
			call, i := l.t.ext()
			if call == nil || i != 2 || !l.pol || !isFind(call) || len(call.a) < 2 {
				continue
			}
			ok := above(st, x.comp(call, 0))
			for k := range x.tt.m {
				if u := x.tt.m[k]; !ok {
					if cc, j := u.ext(); cc == call && j == 0 && above(st, u) {
						ok = true
					}
				}
			}
			if !ok {
				continue
			}
			f := q.flat(st, call.a[1])
			// one part of the text that ends there
			for _, y := range append(q.starts(st), t) {
				if q.Same(st, f, seq{{base: text, lo: x.lin(y), hi: e}}) {
					o = append(o, x.lin(y))
				}
			}
		}
		return o
	}
	q.cfg.Hooks.Event = func(st *St, e *Ev) {
		path := clip(litStrings(st.lits))
		if e.kind == "append" && ints(e.res.typ) {
			b := listRoot(st, e.args[0])
			es, ok := x.explicit(st, e.args[1])
			if !ok {
				lists[b] = append(lists[b], added{nil, c.Pos(e.in.Pos()), nil, path})
				return
			}
			for _, t := range es {
				lists[b] = append(lists[b], added{t, c.Pos(e.in.Pos()), held(st, t), path})
			}
		}
		if e.kind != "mapset" || e.args[0].typ == nil || !types.Identical(e.args[0].typ.Underlying(), fn.Signature.Results().At(0).Type().Underlying()) {
			return
		}
		k, v := e.args[1], e.args[2]
		okEdge := func(a added) string {
			if a.t == nil {
				return "edges that are not listed are added"
			}
			if st.eqI(a.t, k) {
				return ""
			}
			for _, lo := range a.lo {
				if q.eqL(st, lo, x.lin(k)) {
					return ""
				}
			}
			return "nothing says that the dictionary holds the text from " + clip(k.String()) + " to " + clip(a.t.String()) + " with a frequency above zero; the path: " + a.path
		}
		b := listRoot(st, v)
		if es, ok := x.explicit(st, v); ok && (v.op == "list" || v.op == "slice") {
			for _, t := range es {
				why := okEdge(added{t, "", held(st, t), path})
				c.R.Check(why == "", "an-edge-is-a-known-word", name, c.Pos(e.in.Pos()), why)
			}
			return
		}
		for u := v; u.op == "append"; u = u.a[0] {
			es, ok := x.explicit(st, u.a[1])
			if !ok {
				c.R.Fail("an-edge-is-a-known-word", name, c.Pos(e.in.Pos()), "edges that are not listed are added")
				continue
			}
			for _, t := range es {
				why := okEdge(added{t, "", held(st, t), path})
				c.R.Check(why == "", "an-edge-is-a-known-word", name, c.Pos(e.in.Pos()), why)
			}
		}
		if b.op == "lookup" || b.op == "ext" {
			return // what is there already was checked when it was set
		}
		for _, a := range lists[b] {
			if v.op == "append" && v.contains(a.t) {
				continue
			}
			why := okEdge(a)
			c.R.Check(why == "", "an-edge-is-a-known-word", name, a.pos, why)
		}
	}
	if !q.Run() {
		c.R.Fail("analysed", name, pos, "too many paths")
		return
	}
	c.R.Unit("functions", 1)
	c.R.Unit("paths", x.Paths)
}

// starts: the integer variables of the loops being run.
func (q *E4) starts(st *St) []*T {
	var o []*T
	for f := st.fr; f != nil; f = f.up {
		for _, l := range f.loops {
			for _, y := range l.syms {
				if isInt(y.typ) {
					o = append(o, y, q.x.arith("+", y, q.x.tt.int(1), types.Typ[types.Int]))
				}
			}
		}
	}
	return o
}
