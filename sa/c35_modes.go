package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C35", checkModes) }

type modes struct {
	c    *Ctx
	byN  map[string]*ssa.Function
	memo map[string]bool
}

// named: the function of a call event.
func (m *modes) named(e *Ev) *ssa.Function {
	if e.kind != "call" && e.kind != "enter" {
		return nil
	}
	return m.byN[e.name]
}

// uses: the function, or one it calls, satisfies the condition.
func (m *modes) uses(fn *ssa.Function, kind string) bool {
	k := kind + " " + fn.RelString(nil)
	if v, ok := m.memo[k]; ok {
		return v
	}
	r := false
	for g := range m.c.reach(fn) {
		switch kind {
		case "hmm":
			r = r || strings.Contains(g.Name(), "iterbi") && g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath+"/hmm")
		case "words":
			r = r || g.Name() == "SplitTextToWords"
		}
	}
	m.memo[k] = r
	return r
}

func isBools(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isBool(s.Elem())
}

func isRegs(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	p, ok := s.Elem().(*types.Pointer)
	return ok && isNamed(p.Elem(), "regexp", "Regexp")
}

// modeParam: the parameter that switches the mode of cutting.
func modeParam(fn *ssa.Function) int {
	text := false
	for i, p := range fn.Params {
		t := p.Type()
		if isBytesOrString(t) || isSegs(t) || isTexts(t) {
			text = true
		}
		if text && (isBools(t) || isBool(t)) {
			return i
		}
	}
	return -1
}

func isSegs(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), modPath, "Segment")
}

func isTexts(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), modPath, "Text")
}

// asked: what the caller asked for: 1 on, -1 off, 0 not known; none: nothing.
func (st *St) modeOf(p *T) (v tri, none bool) {
	x := st.x
	if isBool(p.typ) {
		return lit(st, func(t *T) bool { return t == p }), false
	}
	if st.le(x.lenOf(p), x.tt.int(0)) {
		return 0, true
	}
	return lit(st, func(t *T) bool { return firstOf(t, p) }), false
}

// firstOf: the first element of the list.
func firstOf(t, p *T) bool {
	return t.op == "load" && t.a[0].op == "&index" && t.a[0].a[0] == p && isZero(t.a[0].a[1])
}

// given: what a callee is given: the list itself, nothing, or a value.
func (m *modes) given(st *St, a, p *T) (v tri, same, none bool) {
	x := st.x
	if a == p {
		return 0, true, false
	}
	if a.typ != nil && isBools(a.typ) || a.op == "list" || a.isNil() || a.op == "slice" {
		ts, ok := x.explicit(st, a)
		if !ok {
			return 0, false, false
		}
		if len(ts) == 0 {
			return -1, false, true
		}
		a = ts[0]
	}
	if b, ok := a.boolVal(); ok && (b || !m.single(st)) {
		return polTri(b), false, false
	}
	if a == p || firstOf(a, p) && !st.le(x.lenOf(p), x.tt.int(0)) {
		return 0, true, false
	}
	// a single word is not cut
	if b, ok := a.boolVal(); ok && !b && m.single(st) {
		return 0, true, false
	}
	// more than one word
	if a.op == "<" && a.a[1].op == "len" && isWordList(a.a[1].a[0]) {
		if n, ok := a.a[0].intVal(); ok && n == 1 {
			return 1, false, false
		}
	}
	return lit(st, func(t *T) bool { return t == a }), false, false
}

func isWordList(t *T) bool {
	return strings.HasSuffix(callName(t.s), ".SplitTextToWords") || strings.HasSuffix(callName(t.s), ").SplitTextToWords")
}

// single: the text is a single word, or none.
func (m *modes) single(st *St) bool {
	r := false
	for _, l := range st.lits {
		l.t.has(func(t *T) bool {
			r = r || t.op == "len" && isWordList(t.a[0]) && st.le(t, st.x.tt.int(1))
			return r
		})
	}
	return r
}

func checkModes(c *Ctx) {
	c.R.Rule = "Every function that takes a mode of cutting (an optional or plain flag after a text, words or segments) is evaluated path by path: what it gives to a function that takes such a mode is what it was given itself, or, if nothing was given, nothing or the value documented for it. On every path of Cut, of CutDAG and its relatives and of the tagger, the functions that cut use the hidden Markov model exactly if it was asked for, and the words of the shortest path exactly if no mode was given. A run of characters is cut with the model exactly if it is no word of the dictionary. Expressions are handed on unchanged; the second one finds what is cut and the first one what is not, and the default expressions are used only where none was given. The four tables of a model are stored each in its place."
	c.R.Assume = append(c.R.Assume, "Package regexp is as documented.")
	m := &modes{c: c, byN: map[string]*ssa.Function{}, memo: map[string]bool{}}
	for _, fn := range c.libFuncs() {
		m.byN[fn.RelString(nil)] = fn
	}
	plain := func(st *St, g *ssa.Function) bool { return !isAPI(g) && inlinable(g) }
	for _, fn := range c.libFuncs() {
		if fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		m.handed(fn, plain)
		m.regs(fn, plain)
		m.unknown(fn, plain)
	}
	m.cutters(plain)
	m.expressions(plain)
	m.model(plain)
	c.R.AtLeast("mode-is-handed-on", 12)
	c.R.AtLeast("mode-is-used", 4)
	c.R.AtLeast("expressions-are-handed-on", 3)
	c.R.AtLeast("the-expression-given", 2)
	c.R.AtLeast("unknown-runs", 2)
	c.R.AtLeast("the-model-given", 2)
}

// handed: a function gives on the mode it was given.
func (m *modes) handed(fn *ssa.Function, inl func(*St, *ssa.Function) bool) {
	const rule = "mode-is-handed-on"
	i := modeParam(fn)
	if i < 0 || fn.Name() == "Analyze" || fn.Name() == "CutUrl" {
		return
	}
	c := m.c
	hands := false
	for g := range c.reach(fn) {
		if g != fn && modeParam(g) >= 0 {
			hands = true
		}
	}
	if !hands {
		return
	}
	x := newE3(c.World)
	p := x.paramT(fn, i)
	name := short(fn)
	x.Run(fn, &Hooks{Inline: inl, Event: func(st *St, e *Ev) {
		g := m.named(e)
		if e.kind != "call" || g == nil {
			return
		}
		j := modeParam(g)
		if j < 0 || j >= len(e.args) {
			return
		}
		asked, none := st.modeOf(p)
		if none {
			asked = -1
			if fn.Name() == "CutSearch" {
				asked = 1
			}
		}
		v, same, _ := m.given(st, e.args[j], p)
		ok := same && !(none && fn.Name() == "CutSearch") || !same && v != 0 && v == asked
		if m.c.callsOther(fn, g) {
			ok = true
		}
		c.R.Check(ok, rule, name, c.Pos(e.in.Pos()), "the mode given to "+short(g)+" is not the one that was asked for: "+clip(e.args[j].String())+"; the path: "+clip(litStrings(st.lits)))
	}})
	c.R.Unit("paths", x.Paths)
}

// callsOther: the flag of the called function means something else.
func (c *Ctx) callsOther(fn, g *ssa.Function) bool {
	return (g.Name() == "CutUrl") != (fn.Name() == "CutUrls")
}

// cutters: the functions that cut are those of the mode.
func (m *modes) cutters(inl func(*St, *ssa.Function) bool) {
	const rule = "mode-is-used"
	c := m.c
	type want struct{ hmm, words tri }
	check := func(fn *ssa.Function, ret types.Type, mode func(st *St) (w want, known bool)) {
		if fn == nil {
			return
		}
		x := newE3(c.World)
		name := short(fn)
		n := 0
		x.Run(fn, &Hooks{Inline: inl, Event: func(st *St, e *Ev) {
			g := m.named(e)
			if e.kind != "call" || g == nil || g.Signature.Results().Len() != 1 || !types.Identical(g.Signature.Results().At(0).Type(), ret) {
				return
			}
			if strings.HasSuffix(g.Pkg.Pkg.Path(), "/util") || !takesText(g) {
				return
			}
			n++
			w, known := mode(st)
			where := "; the path: " + clip(litStrings(st.lits))
			if !known {
				c.R.Fail(rule, name, c.Pos(e.in.Pos()), "the text is cut before the mode is known"+where)
				return
			}
			if w.hmm != 0 {
				c.R.Check(m.uses(g, "hmm") == (w.hmm == 1), rule, name, c.Pos(e.in.Pos()), short(g)+" uses the model although it was not asked for, or does not although it was"+where)
			}
			if w.words != 0 {
				c.R.Check(m.uses(g, "words") == (w.words == 1), rule, name, c.Pos(e.in.Pos()), short(g)+" is not the way of cutting that was asked for"+where)
			}
		}})
		if n == 0 {
			c.R.Fail(rule, name, c.Pos(fn.Pos()), "no function that cuts is called")
		}
		c.R.Unit("paths", x.Paths)
	}
	strs := types.NewSlice(types.Typ[types.String])
	byParam := func(fn *ssa.Function, words bool) func(st *St) (want, bool) {
		return func(st *St) (want, bool) {
			i := modeParam(fn)
			if i < 0 {
				return want{}, false
			}
			v, none := st.modeOf(st.x.paramT(fn, i))
			switch {
			case none && words:
				return want{-1, 1}, true
			case none:
				return want{-1, 0}, true
			case v == 0:
				return want{}, false
			}
			w := want{hmm: v}
			if words {
				w.words = -1
			}
			return w, true
		}
	}
	fixed := func(w want) func(st *St) (want, bool) { return func(*St) (want, bool) { return w, true } }
	if fn := c.Method(modPath, "Segmenter", "Cut"); fn != nil {
		check(fn, strs, byParam(fn, true))
	} else {
		c.R.Fail("anchor", "Cut", "", "not found")
	}
	check(c.Method(modPath, "Segmenter", "CutDAG"), strs, fixed(want{1, -1}))
	check(c.Method(modPath, "Segmenter", "CutDAGNoHMM"), strs, fixed(want{-1, -1}))
	check(c.Method(modPath, "Segmenter", "CutAll"), strs, fixed(want{-1, -1}))
	if fn := c.Method(modPath+"/hmm/pos", "Segmenter", "Cut"); fn != nil {
		check(fn, fn.Signature.Results().At(0).Type(), byParam(fn, false))
	}
}

// cutsHMM: a function that always cuts text with the model.
func (m *modes) cutsHMM(g *ssa.Function) bool {
	return takesText(g) && m.uses(g, "hmm") && modeParam(g) < 0
}

func takesText(g *ssa.Function) bool {
	for i, p := range g.Params {
		if (i > 0 || g.Signature.Recv() == nil) && isString(p.Type()) {
			return true
		}
	}
	return false
}

// regs: expressions are handed on.
func (m *modes) regs(fn *ssa.Function, inl func(*St, *ssa.Function) bool) {
	n := len(fn.Params)
	if n == 0 || !isRegs(fn.Params[n-1].Type()) || !fn.Signature.Variadic() {
		return
	}
	c := m.c
	x := newE3(c.World)
	p := x.paramT(fn, n-1)
	x.Run(fn, &Hooks{Inline: inl, Event: func(st *St, e *Ev) {
		g := m.named(e)
		if e.kind != "call" || g == nil {
			return
		}
		k := len(g.Params)
		if k == 0 || k > len(e.args) || !isRegs(g.Params[k-1].Type()) {
			return
		}
		a := e.args[k-1]
		ok := a == p || emptyT(x, a) && st.le(x.lenOf(p), x.tt.int(0))
		c.R.Check(ok, "expressions-are-handed-on", short(fn), c.Pos(e.in.Pos()), "the expressions given to "+short(g)+" are not those that were asked for: "+clip(a.String()))
	}})
	c.R.Unit("paths", x.Paths)
}

// unknown: runs of characters are cut with the model exactly if they are no word.
func (m *modes) unknown(fn *ssa.Function, inl func(*St, *ssa.Function) bool) {
	const rule = "unknown-runs"
	c := m.c
	asks, cuts := false, false
	for g := range c.expanded(fn) {
		if g != fn && (isAPI(g) || hasLoop(g)) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					h := ci.Common().StaticCallee()
					if h == nil || !c.InRepo(h) {
						continue
					}
					asks = asks || h.Name() == "Find" || h.Name() == "Freq"
					cuts = cuts || m.cutsHMM(h) && h != g
				}
			}
		}
	}
	if !asks || !cuts {
		return
	}
	// what the path knows about the text being a word
	isWord := func(st *St, s *T) tri {
		found := func(t *T, i int) bool {
			cl, k := t.ext()
			if cl == nil || k != i || cl.op != "call" {
				return false
			}
			n := callName(cl.s)
			if !strings.HasSuffix(n, ").Find") && !strings.HasSuffix(n, ").Freq") {
				return false
			}
			a := stripConv(cl.a[len(cl.a)-1])
			return a == stripConv(s)
		}
		ok := lit(st, func(t *T) bool { return found(t, 2) })
		zero := lit(st, func(t *T) bool {
			if t.op != "==" || len(t.a) != 2 || !found(t.a[0], 0) {
				return false
			}
			f, isf := t.a[1].floatVal()
			return isf && f == 0
		})
		if zero == 0 {
			// 0 < v
			if p := lit(st, func(t *T) bool {
				if t.op != "<" || len(t.a) != 2 || !found(t.a[1], 0) {
					return false
				}
				f, isf := t.a[0].floatVal()
				return isf && f == 0
			}); p != 0 {
				zero = -p
			}
		}
		return allOf(ok, zero.not())
	}
	// decided here: whether what is cut with the model is a word is asked
	related := false
	y := newE3(c.World)
	y.Run(fn, &Hooks{Inline: inl, Event: func(st *St, e *Ev) {
		g := m.named(e)
		if g == nil || e.kind != "call" || !m.cutsHMM(g) {
			return
		}
		for i, p := range g.Params {
			if isString(p.Type()) && i < len(e.args) {
				s := stripConv(e.args[i])
				for _, o := range st.trace {
					if o.kind == "call" && (strings.HasSuffix(o.name, ").Find") || strings.HasSuffix(o.name, ").Freq")) && len(o.args) > 0 {
						related = related || stripConv(o.args[len(o.args)-1]) == s
					}
				}
				return
			}
		}
	}})
	if !related {
		return
	}
	x := newE3(c.World)
	name, pos := short(fn), c.Pos(fn.Pos())
	cut := func(st *St, from int) map[*T]bool {
		r := map[*T]bool{}
		for _, e := range st.trace[from:] {
			if g := m.named(e); g != nil && e.kind == "call" && m.cutsHMM(g) {
				for _, a := range e.args {
					r[stripConv(a)] = true
				}
			}
		}
		return r
	}
	done := func(st *St, lits []Lit, from int) {
		got := cut(st, from)
		for _, l := range lits {
			l.t.has(func(t *T) bool {
				cl, k := t.ext()
				if cl == nil || k != 2 || cl.op != "call" {
					return false
				}
				n := callName(cl.s)
				if !strings.HasSuffix(n, ").Find") && !strings.HasSuffix(n, ").Freq") {
					return false
				}
				s := stripConv(cl.a[len(cl.a)-1])
				if w := isWord(st, s); w == -1 {
					c.R.Check(got[s], rule, name, pos, "a run of characters that is no word is not cut with the model; the path: "+clip(litStrings(lits)))
				}
				return false
			})
		}
	}
	x.Run(fn, &Hooks{
		Inline: inl,
		Event: func(st *St, e *Ev) {
			g := m.named(e)
			if g == nil || e.kind != "call" || !m.cutsHMM(g) {
				return
			}
			for i, p := range g.Params {
				if !isString(p.Type()) || i >= len(e.args) {
					continue
				}
				c.R.Check(isWord(st, e.args[i]) == -1, rule, name, c.Pos(e.in.Pos()), "a run of characters is cut with the model although it may be a word; the path: "+clip(litStrings(st.lits)))
				break
			}
		},
		Back: func(st *St, l *LoopI, next []*T) { done(st, st.lits[l.nl:], l.nt) },
		Ret:  func(st *St, res []*T) { done(st, st.lits, 0) },
	})
	c.R.Unit("paths", x.Paths)
}

// expressions: hmm.Cut uses the expressions it was given, each for its purpose.
func (m *modes) expressions(inl func(*St, *ssa.Function) bool) {
	const rule = "the-expression-given"
	c := m.c
	fn := c.Func(modPath+"/hmm", "Cut")
	if fn == nil {
		c.R.Fail("anchor", "hmm.Cut", "", "not found")
		return
	}
	x := newE3(c.World)
	regs := x.paramT(fn, len(fn.Params)-1)
	name := short(fn)
	globals := map[int]map[string]bool{0: {}, 1: {}}
	// purpose k: the expression is regs[k] if there is one, and otherwise a default
	right := func(st *St, r *T, k int64) bool {
		if r.op == "load" && r.a[0].op == "&index" && r.a[0].a[0] == regs {
			n, ok := r.a[0].a[1].intVal()
			return ok && n == k
		}
		if r.op == "load" && r.a[0].op == "global" || r.op == "global" || strings.HasPrefix(r.String(), "gse/hmm.") {
			globals[int(k)][r.String()] = true
			return st.le(x.lenOf(regs), x.tt.int(k))
		}
		return false
	}
	// found: the expression whose match the piece of text is
	found := func(piece *T) *T {
		if piece.op != "slice" || piece.a[1].isNil() && piece.a[2].isNil() {
			return nil
		}
		for _, b := range piece.a[1:3] {
			if b.op == "load" && b.a[0].op == "&index" && b.a[0].a[0].isCall("(*regexp.Regexp).FindStringIndex") {
				n, ok := b.a[0].a[1].intVal()
				if ok && n == 1 {
					return b.a[0].a[0].a[0]
				}
			}
		}
		return nil
	}
	isCut := func(e *Ev) bool {
		g := m.named(e)
		return g != nil && e.kind == "call" && m.uses(g, "hmm")
	}
	n := 0
	x.Run(fn, &Hooks{Inline: inl, Event: func(st *St, e *Ev) {
		if isCut(e) {
			for _, a := range e.args {
				if r := found(stripConv(a)); r != nil {
					n++
					c.R.Check(right(st, r, 1), rule, name, c.Pos(e.in.Pos()), "what is cut is not what the second expression finds, or the default if none was given: "+clip(r.String())+"; the path: "+clip(litStrings(st.lits)))
				}
			}
		}
		if e.kind == "append" && e.args[1].op == "list" {
			for _, a := range e.args[1].a {
				if r := found(a); r != nil {
					n++
					c.R.Check(right(st, r, 0), rule, name, c.Pos(e.in.Pos()), "what is not cut is not what the first expression finds, or the default if none was given: "+clip(r.String())+"; the path: "+clip(litStrings(st.lits)))
				}
			}
		}
	}})
	for g := range globals[0] {
		c.R.Check(!globals[1][g], rule, name, c.Pos(fn.Pos()), "one default expression serves both purposes")
	}
	c.R.Unit("paths", x.Paths)
}

// model: the tables of a model are stored each in its place.
func (m *modes) model(inl func(*St, *ssa.Function) bool) {
	const rule = "the-model-given"
	c := m.c
	fn := c.Func(modPath+"/hmm", "LoadModel")
	if fn == nil {
		c.R.Fail("anchor", "hmm.LoadModel", "", "not found")
		return
	}
	x := newE3(c.World)
	prob := x.paramT(fn, 0)
	name := short(fn)
	order := "BEMS"
	// loops that store all of them
	all := map[string]bool{}
	x.Run(fn, &Hooks{Inline: inl, Back: func(st *St, l *LoopI, next []*T) {
		for _, e := range st.trace[l.nt:] {
			if e.kind != "mapset" || e.name == "delete" || !isGlobalMap(e.args[0]) {
				continue
			}
			k, v := e.args[1], e.args[2]
			if k.op != "load" || k.a[0].op != "&index" || v.op != "load" || v.a[0].op != "&index" || v.a[0].a[0] != prob {
				continue
			}
			d := x.lin(k.a[0].a[1]).addk(x.lin(v.a[0].a[1]), -1)
			ts, ok := x.explicit(st, k.a[0].a[0])
			if !ok || len(d.k) != 0 || d.c != 0 || !onlyHeaderLeaves(l) {
				continue
			}
			s := ""
			for _, t := range ts {
				if n, ok := t.intVal(); ok {
					s += string(rune(n))
				}
			}
			if s == order && st.le(x.tt.int(4), x.lenOf(prob)) {
				all[l.id] = true
			}
		}
	}})
	x.Run(fn, &Hooks{Inline: inl, Ret: func(st *St, res []*T) {
		last := map[string]*T{}
		for _, e := range st.trace {
			if e.kind == "exit" && all[e.loop.id] {
				for i, r := range order {
					last[string(r)] = x.elemOf(prob, i)
				}
			}
			if m.named(e) != nil && e.kind == "call" {
				// it may store other tables
				last = map[string]*T{}
			}
			if e.kind != "mapset" || e.name == "delete" || !isGlobalMap(e.args[0]) {
				continue
			}
			k, ok := e.args[1].intVal()
			if !ok {
				continue
			}
			last[string(rune(k))] = e.args[2]
		}
		four := !st.le(x.lenOf(prob), x.tt.int(3))
		ok := true
		for i, r := range order {
			v := last[string(r)]
			if v == nil {
				ok = ok && !four
				continue
			}
			isG := v.op == "load" && v.a[0].op == "&index" && v.a[0].a[0] == prob
			if isG {
				n, isc := v.a[0].a[1].intVal()
				ok = ok && isc && int(n) == i && four
			} else {
				ok = ok && !four
			}
		}
		c.R.Check(ok, rule, name, c.Pos(fn.Pos()), "the tables that were given are not stored as B, E, M and S; the path: "+clip(litStrings(st.lits)))
	}})
	// callers hand them on
	for _, g := range c.libFuncs() {
		if g == fn || !isAPI(g) || len(g.Params) == 0 || !types.Identical(g.Params[len(g.Params)-1].Type(), fn.Params[0].Type()) {
			continue
		}
		y := newE3(c.World)
		p := y.paramT(g, len(g.Params)-1)
		y.Run(g, &Hooks{Inline: inl, Ret: func(st *St, res []*T) {
			loads, cutFirst := 0, false
			ok := true
			for _, e := range st.trace {
				h := m.named(e)
				if h == nil || e.kind != "call" {
					continue
				}
				if m.uses(h, "hmm") && loads == 0 {
					cutFirst = true
				}
				k := len(h.Params)
				if k > 0 && k <= len(e.args) && types.Identical(h.Params[k-1].Type(), fn.Params[0].Type()) {
					loads++
					ok = ok && e.args[k-1] == p
				}
			}
			c.R.Check(ok && loads == 1 && !cutFirst, rule, short(g), c.Pos(g.Pos()), "the model is not loaded as it was given, once, before the text is cut")
		}})
	}
}

func isGlobalMap(t *T) bool {
	return t.op == "load" && t.a[0].op == "global" || t.op == "global" || strings.HasPrefix(t.String(), "gse/hmm.")
}

// onlyHeaderLeaves: the loop is left at its head only.
func onlyHeaderLeaves(l *LoopI) bool {
	for b := range l.body {
		for _, s := range b.Succs {
			if !l.body[s] && b != l.hdr {
				return false
			}
		}
	}
	return true
}

// elemOf: an element of a list.
func (x *E3) elemOf(l *T, i int) *T {
	el := l.typ.Underlying().(*types.Slice).Elem()
	return x.tt.mk("load", "", el, x.indexAddr(l, x.tt.int(int64(i)), types.NewPointer(el)))
}
