package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C23", checkKeywords) }

func checkKeywords(c *Ctx) {
	c.R.Rule = "Every exported function that returns a list of weighted keywords is evaluated path by path, unexported functions and their loops included. What it returns is a list, or the part of a list from its beginning, that was sorted last by an order that compares weights first, the greater first, and texts among equal weights, and has not been written since. Where the limit is at least one, the result is not longer than the limit, and it is the whole list or exactly as long as the limit; where it is not, ExtractTags returns nothing and TextRank the whole list. The list gets exactly one element in each turn of a loop over all keys of a map, and its text is the key, so no keyword occurs twice and none is left out. Every list of keywords is sliced within its bounds."
	c.R.Assume = append(c.R.Assume, "sort.Sort and sort.Slice sort.", "No weight is NaN (the rank is divided by a positive number).", "Panics other than by the limit are not looked for here.")
	n := 0
	names := map[string]int{}
	var fns []*ssa.Function
	for _, fn := range c.libFuncs() {
		if !isAPI(fn) || fn.Signature.Results().Len() != 1 || !isSegments(fn.Signature.Results().At(0).Type()) {
			continue
		}
		k := -1
		for i, p := range fn.Params {
			if isInt(p.Type()) {
				k = i
			}
		}
		if k < 0 {
			continue
		}
		names[fn.RelString(nil)] = k
		fns = append(fns, fn)
	}
	for _, fn := range fns {
		n++
		c.keywords(fn, names)
	}
	c.R.Unit("functions", n)
	c.R.AtLeast("sorted", 3)
	c.R.AtLeast("within-the-limit", 3)
	c.R.AtLeast("each-once", 2)
	c.R.AtLeast("limit-inside", 2)
}

func isSegments(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n := namedOf(s.Elem())
	return n != nil && n.Obj().Name() == "Segment" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/hmm/segment"
}

// turn is one way through the body of a loop.
type turn struct {
	sym, init, to *T // a variable, before and after
	l             *LoopI
	next          []*T
	lits          []Lit
	trace         []*Ev
}

func (c *Ctx) keywords(fn *ssa.Function, api map[string]int) {
	x := newE3(c.World)
	name, pos := short(fn), c.Pos(fn.Pos())
	var closed []string
	for n := range api {
		closed = append(closed, n)
	}
	inline := expandAll(closed...)
	turns := map[*T][]turn{}
	byLoop := map[string][]turn{}
	vars := map[*T]types.Type{}
	h := &Hooks{Inline: inline, Back: func(st *St, l *LoopI, next []*T) {
		tn := turn{l: l, next: next, lits: append([]Lit(nil), st.lits[l.nl:]...), trace: append([]*Ev(nil), st.trace[l.nt:]...)}
		byLoop[l.id] = append(byLoop[l.id], tn)
		for i, y := range l.syms {
			tn.sym, tn.init, tn.to = y, l.init[i], next[i]
			turns[y] = append(turns[y], tn)
		}
		for _, a := range sortedTerms(vars) {
			tn.sym, _ = st.data["head:"+l.id+a.String()].(*T)
			tn.init = nil
			for _, e := range st.trace[:l.nt] {
				if e.kind == "store" && e.args[0] == a {
					tn.init = e.args[1]
				}
			}
			tn.to = x.loadT(st, a, vars[a])
			if tn.sym != nil && tn.init != nil {
				turns[tn.sym] = append(turns[tn.sym], tn)
			}
		}
	}}
	h.Loop = func(st *St, l *LoopI) {
		for a, t := range vars {
			st.data["head:"+l.id+a.String()] = x.loadT(st, a, t)
		}
	}
	h.Event = func(st *St, e *Ev) {
		if e.kind == "store" && e.args[0].op == "alloc" && e.args[1].typ != nil {
			if _, ok := e.args[1].typ.Underlying().(*types.Slice); ok {
				vars[e.args[0]] = e.args[1].typ
			}
		}
	}
	// first: the variables and the loops; what they do is needed where the function returns
	for i := 0; i < 2; i++ {
		turns = map[*T][]turn{}
		byLoop = map[string][]turn{}
		if x.RunWith(fn, h, nil) {
			c.R.Fail("analysed", name, pos, "too many paths")
			return
		}
	}
	h = &Hooks{Inline: inline}
	h.Slice = func(st *St, in *ssa.Slice, base, lo, hi *T) {
		if !isSegments(in.Type()) {
			return
		}
		if lo == nil || lo.isNil() {
			lo = x.tt.int(0)
		}
		if hi == nil || hi.isNil() {
			hi = x.lenOf(base)
		}
		ok := st.proves(x.lin(lo)) && st.proves(x.lin(hi).addk(x.lin(lo), -1)) && st.proves(x.lin(x.lenOf(base)).addk(x.lin(hi), -1))
		c.R.Check(ok, "limit-inside", name, c.Pos(in.Pos()), "the limit may be negative or larger than the number of keywords: "+clip(base.String())+"["+lo.String()+":"+hi.String()+"] on the path "+clip(litStrings(st.lits)))
	}
	h.Ret = func(st *St, res []*T) {
		r := res[0]
		k := x.paramT(fn, api[fn.RelString(nil)])
		// another of the functions decides
		if r.op == "call" {
			if i, ok := api[callName(r.s)]; ok && i < len(r.a) && r.a[i] == k {
				for _, rule := range []string{"sorted", "within-the-limit"} {
					c.R.Check(true, rule, name, pos, "")
				}
				return
			}
		}
		one := x.lin(k).addk(linC(1), -1)  // k >= 1
		none := linC(0).addk(x.lin(k), -1) // k <= 0
		unlimited := isNamed(derefType(fn.Params[0].Type()), modPath+"/hmm/idf", "TextRanker")
		if r.isNil() || isZero(x.lenOf(r)) || emptyList(x, st, r) {
			ok := st.proves(none) && !unlimited
			for _, p := range fn.Params {
				if isString(p.Type()) && !ok {
					t := st.fr.env[p]
					ok = st.proves(linC(0).addk(x.lin(x.lenOf(t)), -1))
				}
			}
			c.R.Check(ok, "complete", name, pos, "nothing is returned although there may be keywords: "+clip(litStrings(st.lits)))
			return
		}
		// the list and how much of it
		list := r
		for list.op == "slice" || list.op == "slice3" {
			if len(list.a) > 1 && list.a[1] != nil && !list.a[1].isNil() && !isZero(list.a[1]) {
				c.R.Fail("sorted", name, pos, "what is returned does not begin with the first keyword: "+clip(r.String()))
				return
			}
			list = list.a[0]
		}
		whole := list == r || st.eqL(x.lin(x.lenOf(r)), x.lin(x.lenOf(list)))
		if !whole {
			c.R.Check(st.proves(x.lin(x.lenOf(r)).addk(x.lin(k), -1), one), "complete", name, pos, "fewer keywords than asked for are returned although there are more: "+clip(r.String())+" on the path "+clip(litStrings(st.lits)))
		}
		if unlimited {
			c.R.Check(whole || st.proves(x.lin(x.lenOf(r)).addk(x.lin(x.lenOf(list)), -1), none), "no-limit", name, pos, "keywords are left out although there is no limit: "+clip(r.String())+" on the path "+clip(litStrings(st.lits)))
		} else {
			c.R.Check(st.proves(linC(0).addk(x.lin(x.lenOf(r)), -1), none), "within-the-limit", name, pos, "keywords are returned although none was asked for: "+clip(r.String())+" on the path "+clip(litStrings(st.lits)))
		}
		c.R.Check(st.proves(x.lin(k).addk(x.lin(x.lenOf(r)), -1), one), "within-the-limit", name, pos, "more keywords than asked for may be returned: "+clip(r.String())+" on the path "+clip(litStrings(st.lits)))
		// sorted
		why := "the list is not sorted"
		for i := len(st.trace) - 1; i >= 0; i-- {
			e := st.trace[i]
			w := c.touches(x, e, list)
			if e.kind == "exit" {
				for _, tn := range byLoop[e.loop.id] {
					for _, e := range tn.trace {
						if w == "" {
							w = c.touches(x, e, list)
						}
					}
				}
			}
			if w != "" {
				why = w
				break
			}
			if e.kind != "call" || len(e.args) == 0 || !strings.HasPrefix(e.name, "sort.") || e.name == "sort.Reverse" {
				continue
			}
			a, _ := sortArg(e.args[0])
			if a != list && !(a.op == "slice" && a.a[0] == list && fullSlice(x, a)) {
				if a.has(func(t *T) bool { return t == list }) {
					why = "only a part of the list is sorted"
					break
				}
				continue
			}
			why = c.byWeight(x, fn, e)
			break
		}
		c.R.Check(why == "", "sorted", name, pos, why+"; on the path "+clip(litStrings(st.lits)))
		// each once
		why = c.onePerKey(x, st, list, turns, byLoop, nil)
		c.R.Check(why == "", "each-once", name, pos, why)
	}
	if x.RunWith(fn, h, nil) {
		c.R.Fail("analysed", name, pos, "too many paths")
	}
}

func emptyList(x *E3, st *St, t *T) bool {
	es, ok := x.explicit(st, t)
	return ok && len(es) == 0
}

// sortArg is the list that is sorted.
func sortArg(a *T) (list *T, reversed bool) {
	a = unwrap(a)
	for a.op == "call" && callName(a.s) == "sort.Reverse" {
		a = unwrap(a.a[0])
		reversed = !reversed
	}
	return a, reversed
}

// touches: the list is written.
func (c *Ctx) touches(x *E3, e *Ev, list *T) string {
	in := func(t *T) bool { return t == list }
	switch e.kind {
	case "store":
		a := e.args[0]
		for a.op == "&field" {
			a = a.a[0]
		}
		if a.op == "&index" && a.a[0].has(in) {
			return "the list is written after it was sorted"
		}
	case "call":
		if strings.HasPrefix(e.name, "sort.") {
			return ""
		}
		if e.name == "builtin:copy" && e.args[0].has(in) {
			return "the list is written after it was sorted"
		}
		if strings.HasPrefix(e.name, "builtin:") {
			return ""
		}
		for _, a := range e.args {
			if !unwrapHas(a, list) {
				continue
			}
			cl, ok := e.in.(ssa.CallInstruction)
			if ok {
				if ms := x.callMods(cl.Common().StaticCallee(), e.name, cl.Common()); len(ms.mod) == 0 {
					continue
				}
			}
			return "the list is handed to " + e.name + " after it was sorted"
		}
	}
	return ""
}

func unwrapHas(t, list *T) bool {
	t = unwrap(t)
	for t.op == "slice" {
		t = t.a[0]
	}
	return t == list
}

// byWeight: why a sort does not put the greatest weights first and leaves no choice.
func (c *Ctx) byWeight(x *E3, fn *ssa.Function, e *Ev) string {
	_, rev := sortArg(e.args[0])
	less := c.lessOf(x, fn, e)
	if less == nil {
		return "the order of the sort is not known"
	}
	keys, _, why := c.orderOf(less)
	if why != "" {
		return why
	}
	dir := -1
	if rev {
		dir = 1
	}
	switch {
	case keys[0].what != ".Weight":
		return "the keywords are not sorted by weight"
	case keys[0].dir != dir:
		return "the smallest weights come first"
	case len(keys) < 2 || keys[1].what != ".Text":
		return "keywords of the same weight are not sorted by text"
	}
	return ""
}

// lessOf finds the comparison of a sort.
func (c *Ctx) lessOf(x *E3, fn *ssa.Function, e *Ev) *ssa.Function {
	switch e.name {
	case "sort.Sort", "sort.Stable":
		cl, ok := e.in.(ssa.CallInstruction)
		if !ok {
			return nil
		}
		v := cl.Common().Args[0]
		for {
			switch y := v.(type) {
			case *ssa.MakeInterface:
				v = y.X
				continue
			case *ssa.ChangeInterface:
				v = y.X
				continue
			case *ssa.Call:
				if f := y.Call.StaticCallee(); f != nil && f.RelString(nil) == "sort.Reverse" {
					v = y.Call.Args[0]
					continue
				}
			}
			break
		}
		n := namedOf(v.Type())
		if n == nil || n.Obj().Pkg() == nil {
			return nil
		}
		return c.Method(n.Obj().Pkg().Path(), n.Obj().Name(), "Less")
	case "sort.Slice", "sort.SliceStable":
		if len(e.args) > 1 {
			t := e.args[1]
			if f := x.fns[t]; f != nil {
				return f
			}
			fs := ssaClosures(fn)
			if e.fn != nil {
				for f := range ssaClosures(e.fn) {
					fs[f] = true
				}
			}
			for f := range fs {
				if t.op == "closure" && t.s == f.RelString(nil) {
					return f
				}
			}
		}
	}
	return nil
}

// onePerKey: why the list does not have exactly one element for each key of a map. With text nil the elements are keywords with the key as text, otherwise the keys themselves.
func (c *Ctx) onePerKey(x *E3, st *St, list *T, turns map[*T][]turn, byLoop map[string][]turn, keys *T) string {
	part := func(el *T) *T {
		if keys != nil {
			return el
		}
		if el.op == "struct" && len(el.a) > 0 {
			return el.a[0]
		}
		return x.fieldOf(el, 0, el.typ)
	}
	// where is the text from
	source := func(t *T, tn turn) (site string, why string) {
		if t.op == "itkey" {
			return t.s, ""
		}
		if keys == nil && t.op == "load" && t.a[0].op == "&index" {
			// a list of the keys
			v := x.lin(t.a[0].a[1])
			for i, y := range tn.l.syms {
				in, ok := tn.l.init[i].intVal()
				nx := x.lin(tn.next[i]).addk(x.lin(y), -1)
				if len(v.k) == 1 && v.k[y] == 1 && ok && in+v.c == 0 && len(nx.k) == 0 && nx.c == 1 {
					l := t.a[0].a[0]
					if w := c.onePerKey(x, st, l, turns, byLoop, l); w != "" {
						return "", w
					}
					// all of it
					for _, lt := range st.lits {
						if !lt.pol && inBoundsLit(x, lt, y, v.c, l) {
							return "list:" + l.String(), ""
						}
					}
					return "", "the loop may end before all keys were seen"
				}
			}
		}
		return "", "the text of a keyword is not the key of the map: " + clip(t.String())
	}
	done := func(site string, tn turn) string {
		if strings.HasPrefix(site, "list:") {
			return ""
		}
		own := false
		for _, lt := range tn.lits {
			own = own || lt.t.op == "itok" && lt.t.s == site && lt.pol
		}
		if !own {
			return "the key is not that of the turn of the loop"
		}
		for _, lt := range st.lits {
			if lt.t.op == "itok" && lt.t.s == site && !lt.pol {
				return ""
			}
		}
		return "the loop may end before all keys were seen"
	}
	// appended to
	if ts := turns[list]; len(ts) > 0 {
		for _, tn := range ts {
			if in := tn.init; !in.isNil() && !isZero(x.lenOf(in)) && !emptyList(x, st, in) {
				return "the list is not empty at first: " + clip(in.String())
			}
			n := tn.to
			if n.op != "append" || n.a[0] != list || n.a[1].op != "list" || len(n.a[1].a) != 1 {
				return "not every turn of the loop adds one element to the list: " + clip(n.String()) + " on the path " + clip(litStrings(tn.lits))
			}
			s, why := source(part(n.a[1].a[0]), tn)
			if why == "" {
				why = done(s, tn)
			}
			if why != "" {
				return why
			}
		}
		return ""
	}
	// filled in
	if list.op == "mkslice" {
		for _, id := range sortedKeys(byLoop) {
			fits := false
			for _, tn := range byLoop[id] {
				var at, v *T
				n := 0
				for _, e := range tn.trace {
					if e.kind == "store" && e.args[0].op == "&index" && e.args[0].a[0] == list {
						at, v = e.args[0].a[1], e.args[1]
						n++
					}
				}
				if n == 0 {
					if fits {
						return "not every turn of the loop adds one element to the list"
					}
					continue
				}
				fits = true
				if n != 1 {
					return "more than one element is stored in one turn"
				}
				s, why := source(part(v), tn)
				if why == "" {
					why = done(s, tn)
				}
				if why != "" {
					return why
				}
				cnt := false
				a := x.lin(at)
				for i, y := range tn.l.syms {
					in, ok := tn.l.init[i].intVal()
					nx := x.lin(tn.next[i]).addk(x.lin(y), -1)
					if len(a.k) == 1 && a.k[y] == 1 && ok && in+a.c == 0 && len(nx.k) == 0 && nx.c == 1 {
						cnt = true
					}
				}
				if !cnt {
					return "the elements are not stored one after the other"
				}
				// as long as the map has keys
				m := (*T)(nil)
				part(v).has(func(t *T) bool {
					if t.op == "itkey" && len(t.a) > 0 && len(t.a[0].a) > 0 {
						m = t.a[0].a[0]
					}
					return false
				})
				if m == nil {
					if p := part(v); p.op == "load" && p.a[0].op == "&index" {
						m = p.a[0].a[0]
					}
				}
				if m == nil || !st.eqL(x.lin(x.lenOf(list)), x.lin(x.lenOf(m))) {
					return "the list is not made as long as the map has keys"
				}
			}
			if fits {
				return ""
			}
		}
	}
	return "it is not known how the list is made: " + clip(list.String())
}
