package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C22", checkFilters) }

// tri is a truth value on a path: 1 true, -1 false, 0 not known.
type tri int

func (a tri) not() tri { return -a }

func allOf(ts ...tri) tri {
	r := tri(1)
	for _, t := range ts {
		if t < r {
			r = t
		}
	}
	return r
}

func anyOf(ts ...tri) tri {
	r := tri(-1)
	for _, t := range ts {
		if t > r {
			r = t
		}
	}
	return r
}

// flt is the analysis of a filter: a loop that walks a list or a text and keeps some of it.
type flt struct {
	c    *Ctx
	x    *E3
	fn   *ssa.Function
	memo map[string]bool // loops that show that no element satisfies the condition
	pass int

	lists map[string]*T // the list a loop with a constant bound walks
}

// elem: an element of what is walked; of a list (at an index) or of a text (a character).
type elem struct {
	list *T
	i    lin
	it   *T // the iterator over a text
}

// is: the term is the element, or field f of it.
func (f *flt) is(e elem, t *T, field string) bool {
	if t.op == "struct" && field == "" {
		s := structOf(t.typ)
		if s == nil || s.NumFields() != len(t.a) {
			return false
		}
		for i := range t.a {
			if !f.is(e, t.a[i], s.Field(i).Name()) {
				return false
			}
		}
		return len(t.a) > 0
	}
	if e.it != nil {
		return field == "" && t.op == "itval" && t.a[0] == e.it
	}
	if t.op != "load" {
		return false
	}
	a := t.a[0]
	if field != "" {
		if a.op != "&field" || a.s != field {
			return false
		}
		a = a.a[0]
	}
	if a.op != "&index" || a.a[0] != e.list {
		return false
	}
	d := f.x.lin(a.a[1]).addk(e.i, -1)
	return len(d.k) == 0 && d.c == 0
}

// text of an element, under an optional function.
func (f *flt) text(e elem, field string, fns ...string) func(*T) bool {
	return func(t *T) bool {
		for _, n := range fns {
			if !t.isCall(n) {
				return false
			}
			t = t.a[len(t.a)-1]
		}
		return f.is(e, t, field)
	}
}

func lit(st *St, p func(t *T) bool) tri {
	for _, l := range st.lits {
		if p(l.t) {
			if l.pol {
				return 1
			}
			return -1
		}
	}
	return 0
}

func isStopAtom(s func(*T) bool) func(*T) bool {
	return func(t *T) bool {
		return t.op == "has" && t.a[0].op == "load" && t.a[0].a[0].op == "&field" && t.a[0].a[0].s == "StopWordMap" && s(t.a[1])
	}
}

func isNotStop(t *T) bool {
	return t.op == "load" && t.a[0].op == "&field" && t.a[0].s == "NotStop"
}

// full: the text is not empty.
func full(st *St, s func(*T) bool) tri {
	for _, l := range st.lits {
		t := l.t
		if t.op == "==" && len(t.a) == 2 {
			for i := range t.a {
				u, v := t.a[i], t.a[1-i]
				if u.op == "len" {
					if n, ok := v.intVal(); ok && n == 0 && s(stripConv(u.a[0])) {
						return polTri(!l.pol)
					}
				}
				if w, ok := v.strVal(); ok && w == "" && s(u) {
					return polTri(!l.pol)
				}
			}
		}
		if t.op == "<" && len(t.a) == 2 {
			if n, ok := t.a[0].intVal(); ok && t.a[1].op == "len" && s(stripConv(t.a[1].a[0])) {
				if n >= 0 && l.pol {
					return 1
				}
				if n == 0 && !l.pol {
					return -1
				}
			}
			if n, ok := t.a[1].intVal(); ok && t.a[0].op == "len" && s(stripConv(t.a[0].a[0])) {
				if n == 1 && l.pol {
					return -1
				}
				if n >= 1 && !l.pol {
					return 1
				}
			}
		}
	}
	return 0
}

func polTri(b bool) tri {
	if b {
		return 1
	}
	return -1
}

func stripConv(t *T) *T {
	for t.op == "conv" && isSeq(t.typ) && t.a[0].typ != nil && isSeq(t.a[0].typ) {
		t = t.a[0]
	}
	return t
}

// none of the unicode tests holds for the character.
func noneOf(st *St, r func(*T) bool, fns ...string) tri {
	res := tri(1)
	for _, n := range fns {
		l := lit(st, func(t *T) bool { return t.isCall("unicode."+n) && r(t.a[len(t.a)-1]) })
		if l == 1 {
			return -1
		}
		if l == 0 {
			res = 0
		}
	}
	return res
}

// char k of a text.
func charOf(s func(*T) bool, k func(*T) bool) func(*T) bool {
	return func(t *T) bool {
		if t.op == "itval" {
			return k == nil && s(rangeText(t.a[0]))
		}
		if t.op != "load" || t.a[0].op != "&index" {
			return false
		}
		b := t.a[0].a[0]
		return b.op == "conv" && s(stripConv(b)) && (k == nil || k(t.a[0].a[1]))
	}
}

func rangeText(it *T) *T {
	if len(it.a) > 0 {
		return stripConv(it.a[0])
	}
	return it
}

func isZero(t *T) bool { n, ok := t.intVal(); return ok && n == 0 }

// firstGood: the text is not empty and its first character is neither space nor punctuation.
func firstGood(st *St, s func(*T) bool) tri {
	return allOf(full(st, s), noneOf(st, charOf(s, isZero), "IsSpace", "IsPunct"))
}

// someGood: some character of the text is neither space nor punctuation.
func (f *flt) someGood(st *St, s func(*T) bool) tri {
	if full(st, s) == -1 {
		return -1
	}
	seen := map[*T]bool{}
	first := tri(0)
	for _, l := range st.lits {
		if !strings.HasPrefix(callName(l.t.s), "unicode.") || l.t.op != "call" {
			continue
		}
		r := l.t.a[len(l.t.a)-1]
		if !charOf(s, nil)(r) || seen[r] {
			continue
		}
		seen[r] = true
		g := noneOf(st, func(t *T) bool { return t == r }, "IsSpace", "IsPunct")
		if g == 1 {
			return 1
		}
		if charOf(s, isZero)(r) {
			first = g
		}
	}
	if first == -1 && f.short(st, s) {
		return -1
	}
	// a loop that looked at every character
	for _, e := range st.trace {
		if e.kind != "exit" || f.memo["not all "+e.loop.id] {
			continue
		}
		if el, ok := f.walks(st, e.loop); ok && f.exhausted(st, e.loop) && f.memo["seen "+e.loop.id] {
			if el.it != nil && s(rangeText(el.it)) || el.list != nil && el.list.op == "conv" && s(stripConv(el.list)) {
				return -1
			}
		}
	}
	return 0
}

// short: the text has at most one character.
func (f *flt) short(st *St, s func(*T) bool) bool {
	for _, l := range st.lits {
		t := l.t
		if t.op == "<" && len(t.a) == 2 {
			if n, ok := t.a[0].intVal(); ok && n <= 1 && !l.pol && t.a[1].op == "len" && s(stripConv(t.a[1].a[0])) {
				return true
			}
			if n, ok := t.a[1].intVal(); ok && n <= 2 && l.pol && t.a[0].op == "len" && s(stripConv(t.a[0].a[0])) {
				return true
			}
		}
		if t.op == "==" && l.pol {
			for i := range t.a {
				if n, ok := t.a[i].intVal(); ok && n <= 1 && t.a[1-i].op == "len" && s(stripConv(t.a[1-i].a[0])) {
					return true
				}
			}
		}
	}
	return false
}

// walks: the loop walks a list or a text from the start, one element after the other; the current element.
func (f *flt) walks(st *St, l *LoopI) (elem, bool) {
	for _, in := range l.hdr.Instrs {
		if n, ok := in.(*ssa.Next); ok && n.IsString {
			it := f.x.val(st, n.Iter)
			return elem{it: it}, true
		}
	}
	x := f.x
	for i, p := range l.phis {
		if !isInt(p.Type()) || f.memo["jumps "+l.id+"/"+p.Name()] {
			continue
		}
		n, ok := l.init[i].intVal()
		if !ok {
			continue
		}
		cur := x.lin(l.syms[i])
		cur.c -= n
		for _, lt := range st.lits {
			t := lt.t
			if b := f.lists[l.id]; b != nil && t.op == "<" && t.a[1] == x.lenOf(b) && t.a[1].isConst() {
				if d := x.lin(t.a[0]).addk(cur, -1); len(d.k) == 0 && d.c == 0 {
					return elem{list: b, i: cur}, true
				}
			}
			if (t.op == "<" || t.op == "==") && len(t.a) == 2 {
				for j := range t.a {
					if t.a[j].op != "len" || t.op == "<" && j == 0 {
						continue
					}
					if d := x.lin(t.a[1-j]).addk(cur, -1); len(d.k) == 0 && d.c == 0 {
						return elem{list: t.a[j].a[0], i: cur}, true
					}
				}
			}
		}
	}
	return elem{}, false
}

// exhausted: the path left the loop because there was nothing more.
func (f *flt) exhausted(st *St, l *LoopI) bool {
	e, ok := f.walks(st, l)
	if !ok {
		return false
	}
	if e.it != nil {
		return lit(st, func(t *T) bool { return t.op == "itok" && t.a[0] == e.it }) == -1
	}
	return st.proves(e.i.addk(f.x.lin(f.x.lenOf(e.list)), -1))
}

// steps notes the counters of a loop that do not go up by one, and loops that ask something about every element.
func (f *flt) steps(st *St, l *LoopI, next []*T, bad func(st *St, e elem) bool) {
	x := f.x
	for i, p := range l.phis {
		if !isInt(p.Type()) {
			continue
		}
		if d := x.lin(next[i]).addk(x.lin(l.syms[i]), -1); len(d.k) != 0 || d.c != 1 {
			f.memo["jumps "+l.id+"/"+p.Name()] = true
		}
	}
	f.memo["seen "+l.id] = true
	f.bounded(st, l)
	e, ok := f.walks(st, l)
	if !ok || bad == nil || !bad(st, e) {
		f.memo["not all "+l.id] = true
	}
}

// bounded notes the list of known length that the loop indexes with its counter.
func (f *flt) bounded(st *St, l *LoopI) {
	x := f.x
	if f.lists == nil {
		f.lists = map[string]*T{}
	}
	note := func(t *T) bool {
		if t.op == "load" && t.a[0].op == "&index" && x.lenOf(t.a[0].a[0]).isConst() {
			d := x.lin(t.a[0].a[1])
			for i := range l.phis {
				if n, isc := l.init[i].intVal(); isc && isInt(l.phis[i].Type()) {
					if e := d.addk(x.lin(l.syms[i]), -1); len(e.k) == 0 && e.c == -n {
						f.lists[l.id] = t.a[0].a[0]
					}
				}
			}
		}
		return false
	}
	for _, e := range st.trace[l.nt:] {
		for _, a := range e.args {
			a.has(note)
		}
	}
	for _, lt := range st.lits[l.nl:] {
		lt.t.has(note)
	}
}

// acc is the accumulator of a loop: a list or text that grows.
type acc struct {
	l    *LoopI
	i    int    // the variable
	key  string // or the builder
	init *T
}

// grown: what an iteration adds to an accumulator.
func grown(next, sym *T) (added []*T, ok bool) {
	switch {
	case next == sym:
		return nil, true
	case next.op == "append":
		a, ok := grown(next.a[0], sym)
		if !ok || next.a[1].op != "list" {
			return nil, false
		}
		return append(a, next.a[1].a...), true
	case next.op == "cat":
		a, ok := grown(next.a[0], sym)
		return append(a, next.a[1]), ok
	}
	return nil, false
}

func emptyT(x *E3, t *T) bool {
	if t == nil || t.isNil() || t.op == "mkslice" && isZero(x.lenOf(t)) || t.op == "list" && len(t.a) == 0 || t.op == "slice" && isZero(x.lenOf(t)) {
		return true
	}
	s, ok := t.strVal()
	return ok && s == ""
}

type keepSpec struct {
	field string // the field of an element that is the text
	keep  func(f *flt, st *St, e elem, s func(*T) bool) tri
	out   func(f *flt, e elem, t *T) bool // what is kept; nil: the element
	why   string
	// of the list that is walked; nil: the parameter
	list func(f *flt, t *T) bool
	// what is added for an element, when it is not the element alone: why it is wrong, or ""
	adds func(f *flt, st *St, e elem, added []*T) string
	// a result that needs no pass here
	done func(f *flt, st *St, r *T) bool
}

// filter decides a function with one pass.
func (c *Ctx) filter(fn *ssa.Function, sp keepSpec) {
	f := &flt{c: c, fn: fn, memo: map[string]bool{}}
	name := short(fn)
	var param *T
	listOK := func(e elem) bool {
		l := e.list
		if e.it != nil {
			l = rangeText(e.it)
		}
		if sp.list != nil {
			return sp.list(f, l)
		}
		return param != nil && stripConv(l) == param
	}
	type out struct {
		ok  bool
		msg string
	}
	outs := map[string]*out{} // loop/acc
	good := map[string]bool{} // "loop id/phi" that is a filter
	acting := map[string]bool{}
	whole := 0
	for f.pass = 0; f.pass < 3; f.pass++ {
		x := newE3(c.World)
		f.x = x
		outs = map[string]*out{}
		acting = map[string]bool{}
		for i, p := range fn.Params {
			if i > 0 || fn.Signature.Recv() == nil {
				if isSeq(p.Type()) || isList(p.Type()) {
					param = x.paramT(fn, i)
					break
				}
			}
		}
		note := func(id string, ok bool, msg string) {
			o := outs[id]
			if o == nil {
				o = &out{ok: true}
				outs[id] = o
			}
			if !ok && o.ok {
				o.ok, o.msg = false, msg
			}
		}
		last := f.pass == 2
		decided := 0
		h := &Hooks{Inline: func(st *St, g *ssa.Function) bool {
			return short(g) != "gse.FilterSymbol" && short(g) != "(*gse.Segmenter).PosTrim" && short(g) != "(*gse.Segmenter).Cut"
		}}
		h.Back = func(st *St, l *LoopI, next []*T) {
			f.steps(st, l, next, func(st *St, e elem) bool {
				return noneOf(st, func(t *T) bool { return f.is(e, t, "") }, "IsSpace", "IsPunct") == -1
			})
			e, walks := f.walks(st, l)
			check := func(id string, added []*T, ok bool) {
				if !ok {
					note(id, false, "more than the element is added, or the result does not only grow")
					return
				}
				if !walks || !listOK(e) {
					note(id, false, "the loop does not walk the list from the start, one element after the other")
					return
				}
				if sp.adds != nil {
					why := sp.adds(f, st, e, flatten(added))
					note(id, why == "", why+"; the path: "+clip(litStrings(st.lits[l.nl:])))
					if last {
						decided++
					}
					return
				}
				s := f.text(e, sp.field)
				k := sp.keep(f, st, e, s)
				where := "; the path: " + clip(litStrings(st.lits[l.nl:]))
				switch {
				case len(added) == 0:
					note(id, k == -1, "an element is dropped that is to be kept: "+sp.why+where)
				case len(added) > 1:
					note(id, false, "an element is added more than once"+where)
				default:
					isIt := f.is(e, added[0], "")
					if sp.out != nil {
						isIt = sp.out(f, e, added[0])
					}
					note(id, k == 1, "an element is kept that is to be dropped: "+sp.why+where)
					note(id, isIt, "what is kept is not the element"+where)
				}
				if last {
					decided++
				}
			}
			for i := range l.phis {
				if next[i] == l.syms[i] && !good[l.id+"/"+fmtInt(i)] {
					continue
				}
				if !isSeq(l.phis[i].Type()) && !isList(l.phis[i].Type()) {
					continue
				}
				a, ok := grown(next[i], l.syms[i])
				id := l.id + "/" + fmtInt(i)
				good[id] = true
				check(id, a, ok)
			}
			// builders
			keys := map[string][]*T{}
			for _, ev := range st.trace[l.nt:] {
				if ev.kind == "call" && builderWrite(ev.name) && len(ev.args) == 2 {
					if k := builderKey(ev.args[0]); k != "" {
						keys[k] = append(keys[k], ev.args[1])
						good[l.id+"/"+k] = true
					}
				}
			}
			for id := range good {
				if k := strings.TrimPrefix(id, l.id+"/"); k != id && strings.HasPrefix(k, "B:") {
					check(id, keys[k], true)
				}
			}
		}
		h.Ret = func(st *St, res []*T) {
			r := res[0]
			if !last {
				return
			}
			if sp.done != nil && sp.done(f, st, r) {
				whole++
				c.R.OK("every-element-is-looked-at", name, c.Pos(fn.Pos()))
				return
			}
			for _, e := range st.trace {
				if e.kind != "loop" {
					continue
				}
				l := e.loop
				for i := range l.phis {
					id := l.id + "/" + fmtInt(i)
					if r == l.syms[i] && good[id] {
						acting[id] = true
						c.R.Check(f.exhausted(st, l), "every-element-is-looked-at", name, c.Pos(fn.Pos()), "the pass may stop before the last element")
						c.R.Check(emptyT(x, l.init[i]), "nothing-is-added", name, c.Pos(fn.Pos()), "the result does not start empty")
						return
					}
				}
				if r.op == "call" || r.op == "built" {
					m := callName(r.s)
					if strings.HasSuffix(m, ").String") && len(r.a) == 1 && builderKey(r.a[0]) != "" {
						k := builderKey(r.a[0])
						id := l.id + "/" + k
						if good[id] {
							n := 0
							for _, ev := range st.trace {
								if ev.kind == "call" && builderWrite(ev.name) && builderKey(ev.args[0]) == k {
									n++
								}
							}
							acting[id] = true
							c.R.Check(f.exhausted(st, l), "every-element-is-looked-at", name, c.Pos(fn.Pos()), "the pass may stop before the last element")
							c.R.Check(n == 0, "nothing-is-added", name, c.Pos(fn.Pos()), "something is written before or after the pass")
							return
						}
					}
				}
			}
			if emptyT(x, r) && param != nil && st.proves(linC(0).addk(x.lin(x.lenOf(param)), -1)) {
				c.R.OK("every-element-is-looked-at", name, c.Pos(fn.Pos()))
				return
			}
			c.R.Fail("every-element-is-looked-at", name, c.Pos(fn.Pos()), "the result is not what the pass kept: "+clip(r.String()))
		}
		if x.Run(fn, h) {
			c.R.Fail("analysed", name, c.Pos(fn.Pos()), "too many paths")
			return
		}
		c.R.Unit("paths", x.Paths)
	}
	if len(acting) == 0 && whole == 0 {
		c.R.Fail("kept-and-dropped", name, c.Pos(fn.Pos()), "no pass over the list found")
	}
	for id := range acting {
		o := outs[id]
		if o == nil {
			c.R.Fail("kept-and-dropped", name, c.Pos(fn.Pos()), "nothing is ever kept")
			continue
		}
		c.R.Check(o.ok, "kept-and-dropped", name, c.Pos(fn.Pos()), o.msg)
	}
}

func isList(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// tagFilter decides TrimWithPos: one pass for every tag, each over what the one before kept.
func (c *Ctx) tagFilter(fn *ssa.Function) {
	name := short(fn)
	f := &flt{c: c, fn: fn, memo: map[string]bool{}}
	type inner struct {
		ok  bool
		msg string
	}
	var list, tags int = -1, -1
	for i, p := range fn.Params {
		switch {
		case i == 0 && fn.Signature.Recv() != nil:
		case isTextList(p.Type()) && textField(p.Type().Underlying().(*types.Slice).Elem()) < 0 && tags < 0:
			tags = i
		case isList(p.Type()) && list < 0:
			list = i
		}
	}
	if list < 0 || tags < 0 {
		c.R.Fail("anchor", name, c.Pos(fn.Pos()), "no list or no tags")
		return
	}
	inn := map[string]*inner{}
	outr := map[string]*inner{}
	note := func(m map[string]*inner, id string, ok bool, msg string) {
		if m[id] == nil {
			m[id] = &inner{ok: true}
		}
		if !ok && m[id].ok {
			*m[id] = inner{false, msg}
		}
	}
	acting := map[string]bool{}
	nkeep := map[string]bool{}
	for f.pass = 0; f.pass < 2; f.pass++ {
		last := f.pass == 1
		x := newE3(c.World)
		f.x = x
		se0, pos := x.paramT(fn, list), x.paramT(fn, tags)
		inn, outr = map[string]*inner{}, map[string]*inner{}
		tagLit := func(st *St, e elem, h elem) tri {
			return lit(st, func(t *T) bool {
				return t.op == "==" && len(t.a) == 2 && (f.is(e, t.a[0], "Pos") && f.is(h, t.a[1], "") || f.is(e, t.a[1], "Pos") && f.is(h, t.a[0], ""))
			})
		}
		// hasTag: the tag of the element is (not) one of the tags
		hasTag := func(st *St, e elem) tri {
			for _, ev := range st.trace {
				if ev.kind != "loop" {
					continue
				}
				if h, ok := f.walks(st, ev.loop); ok && h.list == pos {
					if tagLit(st, e, h) == 1 {
						return 1
					}
					if f.exhausted(st, ev.loop) && f.memo["seen "+ev.loop.id] && !f.memo["not all "+ev.loop.id] {
						return -1
					}
				}
			}
			return 0
		}
		h := &Hooks{Inline: func(st *St, g *ssa.Function) bool { return true }}
		h.Back = func(st *St, l *LoopI, next []*T) {
			f.steps(st, l, next, func(st *St, h elem) bool {
				if h.list != pos || l.outer == nil {
					return false
				}
				e, ok := f.walks(st, l.outer)
				return ok && tagLit(st, e, h) == -1
			})
			e, ok := f.walks(st, l)
			if !ok {
				return
			}
			for i := range l.phis {
				if !types.Identical(l.phis[i].Type(), fn.Params[list].Type()) {
					continue
				}
				id := l.id + "/" + fmtInt(i)
				if e.list != pos {
					// a pass over a list
					a, ok := grown(next[i], l.syms[i])
					k := tri(0)
					if l.outer != nil {
						if h, ok := f.walks(st, l.outer); ok && h.list == pos {
							k = tagLit(st, e, h)
						} else {
							k = hasTag(st, e)
						}
					} else {
						k = hasTag(st, e)
					}
					where := "; the path: " + clip(litStrings(st.lits[l.nl:]))
					switch {
					case !ok:
						note(inn, id, false, "the result does not only grow"+where)
					case len(a) == 0:
						note(inn, id, k == 1, "an element is dropped that is to be kept"+where)
					case len(a) == 1:
						nkeep[id] = true
						note(inn, id, k == -1, "an element is kept that is to be dropped"+where)
						note(inn, id, f.is(e, a[0], ""), "what is kept is not the element"+where)
					default:
						note(inn, id, false, "an element is added more than once"+where)
					}
					continue
				}
				if next[i] == l.syms[i] && !acting[id] {
					continue
				}
				// the next tag: the result is that of a pass over the result so far
				acting[id] = true
				good, msg := false, "the result after a tag is not that of a pass over all that is left"
				for _, ev := range st.trace[l.nt:] {
					if ev.kind != "loop" {
						continue
					}
					in := ev.loop
					le, ok := f.walks(st, in)
					if !ok || le.list == pos || !f.exhausted(st, in) {
						continue
					}
					for j := range in.phis {
						if in.syms[j] != next[i] {
							continue
						}
						iid := in.id + "/" + fmtInt(j)
						note(outr, id+">"+iid, true, "")
						switch {
						case le.list == l.syms[i] && emptyT(x, in.init[j]):
							good = l.init[i] == se0 || st.proves(e.i.addk(linC(1), -1))
							msg = "the first pass does not start from the list"
						case st.proves(linC(0).addk(e.i, -1)) && (emptyT(x, in.init[j]) || in.init[j] == l.syms[i] && emptyT(x, l.init[i])):
							good = le.list == se0
							for m := range l.phis {
								if le.list == l.syms[m] && l.init[m] == se0 {
									good = true
								}
							}
							msg = "the first pass is not one over the list"
						}
					}
				}
				note(outr, id, good, msg+"; the path: "+clip(litStrings(st.lits[l.nl:])))
			}
		}
		h.Ret = func(st *St, res []*T) {
			if !last {
				return
			}
			r := res[0]
			none := st.proves(linC(0).addk(x.lin(x.lenOf(pos)), -1))
			if r == se0 {
				c.R.Check(none, "every-element-is-looked-at", name, c.Pos(fn.Pos()), "the list is returned as it is although tags are given")
				return
			}
			for _, e := range st.trace {
				if e.kind != "loop" {
					continue
				}
				l := e.loop
				w, ok := f.walks(st, l)
				if !ok {
					continue
				}
				for i := range l.phis {
					id := l.id + "/" + fmtInt(i)
					if r != l.syms[i] {
						continue
					}
					c.R.Check(f.exhausted(st, l), "every-element-is-looked-at", name, c.Pos(fn.Pos()), "the pass may stop before the last tag or element")
					if w.list == pos {
						o := outr[id]
						if o == nil {
							o = &inner{false, "no pass for a tag"}
						}
						c.R.Check(o.ok, "kept-and-dropped", name, c.Pos(fn.Pos()), o.msg)
						// with tags there is at least one pass
						c.R.Check(l.init[i] == se0 || st.proves(linC(-1).addk(x.lin(x.lenOf(pos)), 1)), "every-element-is-looked-at", name, c.Pos(fn.Pos()), "without tags the list is not returned")
						n := 0
						for k := range outr {
							if strings.HasPrefix(k, id+">") {
								n++
								iid := strings.TrimPrefix(k, id+">")
								io := inn[iid]
								if io == nil {
									io = &inner{false, "nothing is ever kept"}
								}
								c.R.Check(io.ok && nkeep[iid], "kept-and-dropped", name, c.Pos(fn.Pos()), io.msg)
							}
						}
						if n == 0 {
							c.R.Fail("kept-and-dropped", name, c.Pos(fn.Pos()), "no pass over the list found")
						}
						return
					}
					o := inn[id]
					if o == nil || w.list != se0 {
						o = &inner{false, "no pass over the list"}
					}
					c.R.Check(o.ok && nkeep[id], "kept-and-dropped", name, c.Pos(fn.Pos()), o.msg)
					c.R.Check(emptyT(x, l.init[i]), "nothing-is-added", name, c.Pos(fn.Pos()), "the result does not start empty")
					return
				}
			}
			c.R.Fail("every-element-is-looked-at", name, c.Pos(fn.Pos()), "the result is not what the passes kept: "+clip(r.String()))
		}
		if x.Run(fn, h) {
			c.R.Fail("analysed", name, c.Pos(fn.Pos()), "too many paths")
			return
		}
		c.R.Unit("paths", x.Paths)
	}
}

// composed decides that a function returns one call of another function with the result of a third.
func (c *Ctx) composed(fn *ssa.Function, closed map[string]bool, want func(x *E3, st *St, r *T) bool, what string) {
	if fn == nil {
		return
	}
	x := newE3(c.World)
	name := short(fn)
	n := 0
	if x.Run(fn, &Hooks{
		Inline: func(st *St, g *ssa.Function) bool { return !closed[short(g)] },
		Ret: func(st *St, res []*T) {
			n++
			c.R.Check(want(x, st, res[0]), "filtered-as-said", name, c.Pos(fn.Pos()), "the result must be "+what+", it is "+clip(res[0].String()))
		},
	}) {
		c.R.Fail("analysed", name, c.Pos(fn.Pos()), "too many paths")
	}
	if n == 0 {
		c.R.Fail("filtered-as-said", name, c.Pos(fn.Pos()), "it never returns")
	}
}

func checkFilters(c *Ctx) {
	c.R.Rule = "Every filter is evaluated path by path. Its pass must walk the list (or text) from the first element to the last, one after the other, and its result must be exactly what the pass kept. On every path through an iteration the element must be dropped when the path shows that the filter's condition fails and kept when the path shows that it holds; a path that shows neither is a violation. The passes of TrimWithPos must each run over what the one before kept. The composed methods must return the filter of the right words."
	c.R.Assume = append(c.R.Assume, "package unicode classifies characters as documented.")
	fsym := modPath + ".FilterSymbol"
	sym := func(s func(*T) bool) func(*T) bool {
		return func(t *T) bool { return t.isCall(fsym) && s(t.a[0]) }
	}
	stop := func(st *St, s func(*T) bool) tri {
		return anyOf(lit(st, isNotStop), lit(st, isStopAtom(s)).not())
	}
	do := func(pkg, typ, m string, sp keepSpec) {
		var fn *ssa.Function
		if typ != "" {
			fn = c.Method(pkg, typ, m)
		} else {
			fn = c.Func(pkg, m)
		}
		if fn == nil {
			c.R.Fail("anchor", m, "", "not found")
			return
		}
		c.filter(fn, sp)
	}
	noSym := func(field string, stops bool) func(f *flt, st *St, e elem, s func(*T) bool) tri {
		return func(f *flt, st *St, e elem, s func(*T) bool) tri {
			r := full(st, sym(s))
			if stops {
				r = allOf(r, stop(st, sym(s)))
			}
			return r
		}
	}
	gse, pos := modPath, modPath+"/hmm/pos"
	do(gse, "Segmenter", "TrimPunct", keepSpec{keep: func(f *flt, st *St, e elem, s func(*T) bool) tri { return f.someGood(st, s) },
		why: "a word is kept if it has a character that is neither space nor punctuation"})
	do(gse, "Segmenter", "TrimPosPunct", keepSpec{field: "Text", keep: func(f *flt, st *St, e elem, s func(*T) bool) tri {
		return allOf(stop(st, s), firstGood(st, s))
	}, why: "a word is kept if it is no stop word (or these are ignored) and starts with neither space nor punctuation"})
	do(gse, "Segmenter", "Stop", keepSpec{keep: func(f *flt, st *St, e elem, s func(*T) bool) tri {
		return allOf(lit(st, isStopAtom(s)).not(), full(st, s))
	}, why: "a word is kept if it is no stop word and not empty"})
	do(gse, "Segmenter", "Trim", keepSpec{keep: noSym("", true), out: func(f *flt, e elem, t *T) bool { return sym(f.text(e, ""))(t) },
		why: "what is left of a word without its symbols is kept if it is not empty and no stop word (or these are ignored)"})
	do(gse, "Segmenter", "TrimSymbol", keepSpec{keep: noSym("", false), out: func(f *flt, e elem, t *T) bool { return sym(f.text(e, ""))(t) },
		why: "what is left of a word without its symbols is kept if it is not empty"})
	do(gse, "Segmenter", "TrimPos", keepSpec{field: "Text", keep: noSym("Text", true),
		why: "a word is kept if what is left of it without its symbols is not empty and no stop word (or these are ignored)"})
	do(pos, "Segmenter", "Trim", keepSpec{field: "Text", keep: noSym("Text", true),
		why: "a word is kept if what is left of it without its symbols is not empty and no stop word (or these are ignored)"})
	do(pos, "Segmenter", "TrimPunct", keepSpec{field: "Text", keep: func(f *flt, st *St, e elem, s func(*T) bool) tri { return firstGood(st, s) },
		why: "a word is kept if it starts with neither space nor punctuation"})
	str := func(f *flt, e elem, t *T) bool { return t.op == "conv" && f.is(e, t.a[0], "") || f.is(e, t, "") }
	do(gse, "", "FilterSymbol", keepSpec{keep: func(f *flt, st *St, e elem, s func(*T) bool) tri {
		return noneOf(st, func(t *T) bool { return f.is(e, t, "") }, "IsSymbol", "IsSpace", "IsPunct")
	}, out: str, why: "a character is kept if it is no symbol, space or punctuation"})
	do(gse, "", "Range", keepSpec{keep: func(f *flt, st *St, e elem, s func(*T) bool) tri { return 1 }, out: str, why: "every character is kept"})
	do(gse, "Segmenter", "PosTrimArr", keepSpec{field: "Text", keep: func(f *flt, st *St, e elem, s func(*T) bool) tri { return 1 },
		out:  func(f *flt, e elem, t *T) bool { return f.is(e, t, "Text") },
		list: func(f *flt, t *T) bool { return t.isCall("(*" + modPath + ".Segmenter).PosTrim") },
		why:  "the text of every word is kept"})
	for _, p := range []string{gse, pos} {
		if fn := c.Method(p, "Segmenter", "TrimWithPos"); fn != nil {
			c.tagFilter(fn)
		} else {
			c.R.Fail("anchor", p+" TrimWithPos", "", "not found")
		}
	}
	// stop words
	if fn := c.Method(gse, "Segmenter", "IsStop"); fn != nil {
		x := newE3(c.World)
		x.Run(fn, &Hooks{Ret: func(st *St, res []*T) {
			s := x.paramT(fn, 1)
			ok := isStopAtom(func(t *T) bool { return t == s })
			v, known := res[0].boolVal()
			l := lit(st, ok)
			c.R.Check(ok(res[0]) || known && l == polTri(v), "stop-words-are-those-of-the-list", short(fn), c.Pos(fn.Pos()), "the answer is not whether the word is in the list: "+clip(res[0].String()))
		}})
	} else {
		c.R.Fail("anchor", "IsStop", "", "not found")
	}
	m := func(n string) string { return "(*" + modPath + ".Segmenter)." + n }
	g := func(n string) string { return modPath + "." + n }
	closed := map[string]bool{}
	for _, n := range []string{"Stop", "Cut", "Trim", "TrimPos", "TrimWithPos", "Pos", "TrimSymbol", "CutStr", "PosTrim", "PosTrimArr"} {
		closed["(*gse.Segmenter)."+n] = true
	}
	arg := func(t *T, i int) *T {
		if i < len(t.a) {
			return t.a[i]
		}
		return t
	}
	fnOf := func(n string) *ssa.Function {
		fn := c.Method(gse, "Segmenter", n)
		if fn == nil {
			c.R.Fail("anchor", n, "", "not found")
		}
		return fn
	}
	for _, q := range [][2]string{{"CutStop", "Stop"}, {"CutTrim", "Trim"}} {
		fn := fnOf(q[0])
		q := q
		c.composed(fn, closed, func(x *E3, st *St, r *T) bool {
			w := arg(r, 1)
			return r.isCall(m(q[1])) && w.isCall(m("Cut")) && arg(w, 1) == x.paramT(fn, 1) && arg(w, 2) == x.paramT(fn, 2)
		}, q[1]+" of the words of Cut with the same arguments")
	}
	for _, n := range []string{"FilterHtml", "SplitNums"} {
		closed["gse."+n] = true
	}
	words := func(x *E3, fn *ssa.Function, w *T, pre func(t *T) bool) bool {
		return w.isCall(m("Cut")) && pre(arg(w, 1))
	}
	strOf := func(x *E3, fn *ssa.Function) func(t *T) bool {
		return func(t *T) bool { return t == x.paramT(fn, 1) }
	}
	html := func(x *E3, fn *ssa.Function, r *T) bool {
		w := arg(r, 1)
		return r.isCall(m("TrimSymbol")) && arg(w, 2) == x.paramT(fn, 2) && words(x, fn, w, func(t *T) bool {
			return t.isCall(g("FilterHtml")) && strOf(x, fn)(arg(t, 0))
		})
	}
	url := func(x *E3, fn *ssa.Function, st *St, r *T) bool {
		w := arg(r, 1)
		split := st.proves(linC(0).addk(x.lin(x.lenOf(x.paramT(fn, 2))), -1))
		return r.isCall(m("TrimSymbol")) && words(x, fn, w, func(t *T) bool {
			return split && t.isCall(g("SplitNums")) && strOf(x, fn)(arg(t, 0)) || !split && strOf(x, fn)(t)
		})
	}
	joined := func(r *T) (*T, bool) {
		if r.isCall("strings.Join") && len(r.a) == 2 {
			s, ok := r.a[1].strVal()
			return r.a[0], ok && s == " "
		}
		if !r.isCall(m("CutStr")) {
			return nil, false
		}
		l := arg(r, 2)
		if l.isNil() {
			return arg(r, 1), true
		}
		if l.op == "list" && len(l.a) == 1 {
			s, ok := l.a[0].strVal()
			return arg(r, 1), ok && s == " "
		}
		return nil, false
	}
	if fn := fnOf("CutTrimHtml"); fn != nil {
		c.composed(fn, closed, func(x *E3, st *St, r *T) bool { return html(x, fn, r) }, "TrimSymbol of the words of Cut of the text without tags")
	}
	if fn := fnOf("CutTrimHtmls"); fn != nil {
		c.composed(fn, closed, func(x *E3, st *St, r *T) bool { w, ok := joined(r); return ok && html(x, fn, w) }, "the words of CutTrimHtml joined by a space")
	}
	if fn := fnOf("CutUrl"); fn != nil {
		c.composed(fn, closed, func(x *E3, st *St, r *T) bool { return url(x, fn, st, r) }, "TrimSymbol of the words of Cut of the text, split at numbers unless an argument is given")
	}
	if fn := fnOf("CutUrls"); fn != nil {
		c.composed(fn, closed, func(x *E3, st *St, r *T) bool { w, ok := joined(r); return ok && url(x, fn, st, w) }, "the words of CutUrl joined by a space")
	}
	if fn := fnOf("PosTrimStr"); fn != nil {
		c.composed(fn, closed, func(x *E3, st *St, r *T) bool {
			w, ok := joined(r)
			return ok && w.isCall(m("PosTrimArr")) && len(w.a) == 4 && w.a[1] == x.paramT(fn, 1) && w.a[2] == x.paramT(fn, 2) && w.a[3] == x.paramT(fn, 3)
		}, "the words of PosTrimArr joined by a space")
	}
	pt := fnOf("PosTrim")
	c.composed(pt, closed, func(x *E3, st *St, r *T) bool {
		w := arg(r, 1)
		p := arg(w, 1)
		return r.isCall(m("TrimPos")) && w.isCall(m("TrimWithPos")) && arg(w, 2) == x.paramT(pt, 3) && p.isCall(m("Pos")) && arg(p, 1) == x.paramT(pt, 1) && modeArg(x, arg(p, 2), x.paramT(pt, 2))
	}, "TrimPos of TrimWithPos of Pos with the same arguments")
	c.R.AtLeast("kept-and-dropped", 12)
	c.R.AtLeast("filtered-as-said", 8)
}

// modeArg: a list with one element.
func modeArg(x *E3, l, v *T) bool {
	return l.op == "list" && len(l.a) == 1 && l.a[0] == v
}
