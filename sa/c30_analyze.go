package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C30", checkAnalyze) }

func isLastIndex(t *T) bool { return t.isCall("bytes.LastIndex") || t.isCall("strings.LastIndex") }

// found: the path knows that the search found something.
func (st *St) found(t *T) (v, known bool) {
	for _, l := range st.lits {
		u := l.t
		if len(u.a) != 2 {
			continue
		}
		n, isc := u.a[1].intVal()
		m, isc0 := u.a[0].intVal()
		switch {
		case u.op == "==" && u.a[0] == t && isc && n == -1, u.op == "==" && u.a[1] == t && isc0 && m == -1:
			return !l.pol, true
		case u.op == "<" && u.a[0] == t && isc && n == 0:
			return !l.pol, true
		case u.op == "<" && u.a[1] == t && isc0 && m == -1:
			return l.pol, true
		case u.op == "<=" && u.a[1] == t && isc0 && m == 0:
			return l.pol, true
		case u.op == "<=" && u.a[0] == t && isc && n == -1:
			return !l.pol, true
		}
	}
	return false, false
}

// part: a first part of a text.
func part(t *T) (text, hi *T) {
	t = stripConv(t)
	if t.op == "slice" && (t.a[1].isNil() || isZero(t.a[1])) {
		return stripConv(t.a[0]), t.a[2]
	}
	return t, nil
}

func checkAnalyze(c *Ctx) {
	c.R.Rule = "FindAllOccs is evaluated path by path with inferred loop invariants: the searches are walked one after the other, what is listed for one is what the search from the end found in what is before the one found last, starting with all of the text and ending when nothing is found; every index is inside and every loop has a quantity that shrinks. Analyze is evaluated the same way: each segment gives one entry with its index, its text and what the dictionary has for it; without a text the entry starts where the one before it ends, the first at 0; with a text it starts at the next occurrence of the segment, counted per segment, as long as there is one; and its length is that of the segment, in characters only when asked for."
	c.R.Assume = append(c.R.Assume, "bytes.LastIndex is as documented.", "The length of a text fits in an int.")
	fo := c.Func(modPath, "FindAllOccs")
	if fo == nil {
		c.R.Fail("anchor", "FindAllOccs", "", "not found")
	} else {
		c.occurrences(fo)
	}
	an := c.Method(modPath, "Segmenter", "Analyze")
	if an == nil {
		c.R.Fail("anchor", "Analyze", "", "not found")
	} else {
		c.analyze(an)
	}
	c.R.AtLeast("occurrences-are-listed", 1)
	c.R.AtLeast("entries-describe-the-segments", 1)
}

// searchFacts: where the occurrences found lie.
func (c *Ctx) searchFacts(x *E3) func(st *St, t *T) []lin {
	return func(st *St, t *T) []lin {
		if t.op == "phi" && isInt(t.typ) {
			if v, known := st.found(t); known && v {
				for _, l := range st.facts {
					if len(l.k) == 1 && l.k[t] == 1 && l.c == 1 {
						return []lin{{map[*T]int64{t: 1}, 0}}
					}
				}
			}
			return nil
		}
		if !isLastIndex(t) && !t.isCall("bytes.Index") && !t.isCall("strings.Index") {
			return nil
		}
		if v, known := st.found(t); known && v {
			return []lin{x.lin(t), x.lin(x.lenOf(t.a[0])).addk(x.lin(x.lenOf(t.a[1])), -1).addk(x.lin(t), -1)}
		}
		// not found is before everything, so is what is not empty in a text that has room for it
		out := []lin{{map[*T]int64{t: 1}, 1}}
		hi := x.lin(x.lenOf(t.a[0])).addk(x.lin(t), -1)
		if full(st, func(u *T) bool { return u == stripConv(t.a[1]) }) == 1 {
			hi.c--
		}
		return append(out, hi)
	}
}

func (c *Ctx) occurrences(fn *ssa.Function) {
	name, pos := short(fn), c.Pos(fn.Pos())
	const rule = "occurrences-are-listed"
	x := newE3(c.World)
	f := &flt{c: c, x: x, fn: fn, memo: map[string]bool{}}
	var data, searches *T
	for i, p := range fn.Params {
		switch {
		case isBytesOrString(p.Type()):
			data = x.paramT(fn, i)
		case isTextList(p.Type()):
			searches = x.paramT(fn, i)
		}
	}
	if data == nil || searches == nil {
		c.R.Fail("anchor", name, pos, "takes no text or no searches")
		return
	}
	q := newE4(c, x, fn, E4Cfg{})
	q.cfg.Inline = expandAll()
	q.cfg.Facts = c.searchFacts(x)
	q.bounds("stays-inside", name)
	// the search that is looked for
	cur := func(st *St) (elem, *LoopI) {
		for fr := st.fr; fr != nil; fr = fr.up {
			for i := len(fr.loops) - 1; i >= 0; i-- {
				if e, ok := f.walks(st, fr.loops[i]); ok && e.list == searches {
					return e, fr.loops[i]
				}
			}
		}
		return elem{}, nil
	}
	loopVar := func(st *St, t *T) (*LoopI, int) {
		for fr := st.fr; fr != nil; fr = fr.up {
			for _, l := range fr.loops {
				for i, s := range l.syms {
					if s == t {
						return l, i
					}
				}
			}
		}
		for _, e := range st.trace {
			if e.kind == "loop" {
				for i, s := range e.loop.syms {
					if s == t {
						return e.loop, i
					}
				}
			}
		}
		return nil, 0
	}
	// call: a search in a first part of the text, for the current search
	search := func(st *St, e elem, r *T) (txt, hi *T, ok bool) {
		if !isLastIndex(r) || !f.is(e, stripConv(r.a[1]), "") {
			return
		}
		txt, hi = part(r.a[0])
		return txt, hi, true
	}
	// whole: the text searched is all of it
	whole := func(st *St, e elem, r *T) bool {
		t, hi, ok := search(st, e, r)
		return ok && t == data && (hi == nil || hi.isNil() || st.eqI(hi, x.lenOf(data)))
	}
	// sat: the occurrence before the one that the variable holds is looked for; why not
	type chainV struct {
		l *LoopI
		i int
	}
	good := map[string]bool{}
	bad := map[string]string{}
	note := func(id string, why string) {
		if why == "" {
			good[id] = true
		} else if bad[id] == "" {
			bad[id] = why
		}
	}
	// match: the term is an occurrence; the variable that says how far the search went
	match := func(st *St, e elem, t *T) (v chainV, ok bool) {
		if l, i := loopVar(st, t); l != nil && isInt(t.typ) { // the variable is the occurrence itself
			return chainV{l, i}, true
		}
		txt, hi, ok := search(st, e, t)
		if !ok {
			return
		}
		if hi == nil || hi.isNil() {
			l, i := loopVar(st, txt)
			return chainV{l, i}, l != nil
		}
		l, i := loopVar(st, hi)
		return chainV{l, i}, l != nil && txt == data
	}
	id := func(v chainV) string { return v.l.id + "/" + fmtInt(v.i) }
	used := map[string]bool{}
	// spread: what a loop found, all at once
	spread := func(st *St, t *T) bool {
		if t.op != "phi" {
			return false
		}
		l, i := loopVar(st, t)
		return l != nil && emptyT(x, l.init[i])
	}
	// soFar: nothing, or what is recorded for the search
	soFar := func(ev *Ev, t *T) bool {
		return emptyT(x, t) || t.op == "lookup" && t.a[0] == ev.args[0] && t.a[1] == ev.args[1]
	}
	q.cfg.Hooks.Event = func(st *St, ev *Ev) {
		if ev.in == nil {
			return
		}
		at := c.Pos(ev.in.Pos())
		switch ev.kind {
		case "append":
			if s, ok := ev.in.(ssa.Value); !ok || !isIntList(s.Type()) {
				return
			}
			e, l := cur(st)
			if spread(st, ev.args[1]) {
				return
			}
			if l == nil || ev.args[1].op != "list" {
				c.R.Fail(rule, name, at, "positions are listed outside of the walk over the searches")
				return
			}
			for _, p := range ev.args[1].a {
				v, ok := match(st, e, p)
				k, kn := st.found(p)
				switch {
				case !ok:
					c.R.Fail(rule, name, at, "what is listed is not what the search for the last occurrence gives: "+clip(p.String()))
				case !kn || !k:
					c.R.Fail(rule, name, at, "a position is listed although nothing may have been found")
				default:
					used[id(v)] = true
				}
			}
		case "mapset":
			e, l := cur(st)
			v := ev.args[2]
			ok := l != nil && f.is(e, ev.args[1], "")
			c.R.Check(ok, rule, name, at, "the positions are not recorded for the search they are of")
			switch {
			case v.op == "append" && soFar(ev, v.a[0]):
			case v.op == "phi":
				ll, i := loopVar(st, v)
				c.R.Check(ll != nil && soFar(ev, ll.init[i]), rule, name, at, "the list does not start empty")
			default:
				c.R.Fail(rule, name, at, "the list recorded is not the positions found: "+clip(v.String()))
			}
		}
	}
	q.cfg.Hooks.Back = func(st *St, l *LoopI, next []*T) {
		f.steps(st, l, next, nil)
		at := c.Pos(l.fn.Pos())
		e, ol := cur(st)
		if ol == nil {
			return
		}
		if ol == l {
			// one search is done
			if full(st, f.text(e, "")) == -1 {
				return
			}
			ended := false
			for _, li := range st.lits[l.nl:] {
				for i, t := range li.t.a {
					// nothing is left to search in
					if li.t.op == "<" && i == 1 && !li.pol && isZero(li.t.a[0]) || li.t.op == "==" && li.pol && isZero(li.t.a[1-i]) {
						if ll, j := loopVar(st, t); ll != nil && ll != l {
							ended = true
							used[ll.id+"/"+fmtInt(j)] = true
						}
					}
					if k, kn := st.found(t); kn && !k {
						if v, ok := match(st, e, t); ok {
							ended = true
							used[id(v)] = true
						}
					}
				}
			}
			c.R.Check(ended, rule, name, at, "the search may end before nothing more is found; the path: "+clip(litStrings(st.lits[l.nl:])))
			return
		}
		// one more occurrence of the search
		var apps []*T
		for _, ev := range st.trace[l.nt:] {
			if ev.kind == "append" && ev.args[1].op == "list" {
				if s, ok := ev.in.(ssa.Value); ok && isIntList(s.Type()) {
					apps = append(apps, ev.args[1].a...)
				}
			}
		}
		for i := range l.phis {
			me := l.id + "/" + fmtInt(i)
			sym, nx := l.syms[i], next[i]
			why := "each search must find one more occurrence before the last one found; the path: " + clip(litStrings(st.lits[l.nl:]))
			switch {
			case isInt(sym.typ):
				// how far, or the occurrence itself
				if t, hi, ok := search(st, e, nx); ok && t == data && hi == sym {
					if len(apps) == 1 && apps[0] == nx && st.eqI(l.init[i], x.lenOf(data)) {
						why = ""
					}
					if len(apps) == 1 && apps[0] == sym && whole(st, e, l.init[i]) {
						why = ""
					}
				}
				note(me, why)
			case isBytesOrString(sym.typ):
				t, hi := part(nx)
				if hi != nil && t == sym && stripConv(l.init[i]) == data && len(apps) == 1 && apps[0] == hi {
					if t2, h2, ok := search(st, e, hi); ok && t2 == sym && (h2 == nil || h2.isNil()) {
						why = ""
					}
				}
				note(me, why)
			}
		}
	}
	q.cfg.Hooks.Ret = func(st *St, res []*T) {
		r := res[0]
		if n := x.lin(x.lenOf(searches)); st.proves(linC(0).addk(n, -1)) {
			c.R.OK(rule, name, pos)
			return
		}
		done := false
		for _, e := range st.trace {
			if e.kind == "exit" {
				if w, ok := f.walks(st, e.loop); ok && w.list == searches && f.exhausted(st, e.loop) {
					done = true
				}
			}
		}
		c.R.Check(r.op == "mkmap" || r.op == "alloc" || isFreshRoot(rootOf(r)), rule, name, pos, "the result is not a fresh map: "+clip(r.String()))
		c.R.Check(done, rule, name, pos, "not every search may be looked for; the path: "+clip(litStrings(st.lits)))
	}
	q.passes = 2
	q.again = func() {
		used = map[string]bool{}
		for k := range good {
			delete(good, k)
		}
		for k := range bad {
			delete(bad, k)
		}
	}
	if !q.Run() {
		c.R.Fail("analysed", name, pos, "too many paths")
		return
	}
	q.ends("ends")
	if len(used) == 0 {
		c.R.Fail(rule, name, pos, "no position is ever listed")
	}
	for k := range used {
		c.R.Check(bad[k] == "" && good[k], rule, name, pos, bad[k])
	}
	c.R.Unit("functions", 1)
	c.R.Unit("paths", x.Paths)
}

func isIntList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isInt(s.Elem())
}

func (c *Ctx) analyze(fn *ssa.Function) {
	name, pos := short(fn), c.Pos(fn.Pos())
	const rule = "entries-describe-the-segments"
	x := newE3(c.World)
	f := &flt{c: c, x: x, fn: fn, memo: map[string]bool{}}
	var segs, txt, by *T
	for i, p := range fn.Params {
		switch {
		case i == 0:
		case isString(p.Type()):
			txt = x.paramT(fn, i)
		case isTextList(p.Type()):
			segs = x.paramT(fn, i)
		case isList(p.Type()):
			by = x.paramT(fn, i)
		}
	}
	if segs == nil || txt == nil || by == nil {
		c.R.Fail("anchor", name, pos, "takes no segments, no text or no option")
		return
	}
	find, occs := "(*"+modPath+".Segmenter).Find", modPath+".FindAllOccs"
	q := newE4(c, x, fn, E4Cfg{ListLen: true})
	q.cfg.Inline = expandAll(find, occs)
	own := func(m *T) bool {
		return isFreshRoot(m) && m.typ != nil && isMapType(m.typ)
	}
	counts := func(t *T) bool {
		if t.op != "lookup" || !own(t.a[0]) {
			return false
		}
		return isInt(t.typ)
	}
	q.cfg.Facts = func(st *St, t *T) []lin {
		if counts(t) {
			return []lin{{map[*T]int64{t: 1}, 0}}
		}
		return nil
	}
	q.bounds("stays-inside", name)
	// text: the text given, lower-cased or not
	text := func(t *T) bool {
		t = stripConv(t)
		return t == txt || t.isCall("strings.ToLower") && t.a[0] == txt
	}
	// given: there is a text
	given := func(st *St) (r tri, impossible bool) {
		say := func(v tri) {
			if r != 0 && r != v {
				impossible = true // a text is as empty as its lower-cased form
			}
			r = v
		}
		for _, l := range st.lits {
			t := l.t
			if t.op == "==" && t.a[0].op == "len" && text(t.a[0].a[0]) && isZero(t.a[1]) {
				say(polTri(!l.pol))
			}
			if t.op == "<" && isZero(t.a[0]) && t.a[1].op == "len" && text(t.a[1].a[0]) {
				say(polTri(l.pol))
			}
			if t.op == "==" {
				for i := range t.a {
					if s, ok := t.a[i].strVal(); ok && s == "" && text(t.a[1-i]) {
						say(polTri(!l.pol))
					}
				}
			}
		}
		return
	}
	inChars := func(st *St) tri {
		n := x.lin(x.lenOf(by))
		switch {
		case st.proves(n.addk(linC(1), -1)):
			return 1
		case st.proves(linC(0).addk(n, -1)):
			return -1
		}
		return 0
	}
	// is: the term is the current segment
	is := func(st *St, e elem, t *T) bool {
		if f.is(e, t, "") {
			return true
		}
		return t.op == "load" && t.a[0].op == "&index" && t.a[0].a[0] == segs && st.proves(x.lin(t.a[0].a[1]).addk(e.i, -1)) && st.proves(e.i.addk(x.lin(t.a[0].a[1]), -1))
	}
	// length: d is the length of the segment; in characters
	length := func(st *St, e elem, d lin) (chars, ok bool) {
		if len(d.k) != 1 || d.c != 0 {
			return
		}
		for t, k := range d.k {
			switch {
			case k != 1:
			case t.isCall("unicode/utf8.RuneCountInString") || t.isCall("unicode/utf8.RuneCount"):
				return true, is(st, e, stripConv(t.a[0]))
			case t.op == "len" && t.a[0].op == "conv" && isRuneSlice(t.a[0].typ):
				return true, is(st, e, stripConv(t.a[0].a[0]))
			case t.op == "len":
				return false, is(st, e, stripConv(t.a[0]))
			}
		}
		return
	}
	listOf := func(t *T) bool {
		return t.typ != nil && isList(t.typ) && isNamed(t.typ.Underlying().(*types.Slice).Elem(), modPath, "AnalyzeToken")
	}
	field := func(n string) int {
		s := structOf(c.Named(modPath, "AnalyzeToken"))
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if s.Field(i).Name() == n {
				return i
			}
		}
		return -1
	}
	for _, n := range []string{"Start", "End", "Position", "Text", "Freq", "Pos"} {
		if field(n) < 0 {
			c.R.Fail("anchor", "AnalyzeToken."+n, "", "not found")
			return
		}
	}
	acting := map[string]bool{}
	back := func(st *St, l *LoopI, next []*T) {
		f.steps(st, l, next, nil)
		e, ok := f.walks(st, l)
		if !ok || e.list != segs {
			return
		}
		at := c.Pos(l.fn.Pos())
		where := "; the path: " + clip(litStrings(st.lits[l.nl:]))
		no := func(s string) { c.R.Fail(rule, name, at, s+where) }
		// the entry of this iteration
		var ent, list *T
		idx := e.i
		for i := range l.phis {
			if !listOf(l.syms[i]) {
				continue
			}
			add, ok := grown(next[i], l.syms[i])
			if !ok || len(add) != 1 {
				no("a segment does not give one entry")
				return
			}
			if !emptyT(x, l.init[i]) {
				no("the list of entries does not start empty")
				return
			}
			ent, list = add[0], l.syms[i]
			acting[l.id+"/"+fmtInt(i)] = true
		}
		if ent == nil {
			for _, ev := range st.trace[l.nt:] {
				if ev.kind == "store" {
					a := ev.args[0]
					for a.op == "&field" {
						a = a.a[0]
					}
					if a.op == "&index" && listOf(a.a[0]) && a.a[0].op == "mkslice" {
						if d := x.lin(a.a[1]).addk(idx, -1); len(d.k) != 0 || d.c != 0 {
							no("an entry is written that is not the one of the segment")
							return
						}
						ent, list = x.loadT(st, a, elemType(a.a[0])), a.a[0]
					}
				}
			}
			if ent == nil {
				no("a segment gives no entry")
				return
			}
			acting[list.String()] = true
		}
		if ent.op != "struct" {
			no("the entry is not built here")
			return
		}
		fld := func(n string) *T { return ent.a[field(n)] }
		if d := x.lin(fld("Position")).addk(idx, -1); len(d.k) != 0 || d.c != 0 {
			no("the position of the entry is not the index of the segment")
			return
		}
		if !is(st, e, fld("Text")) {
			no("the text of the entry is not the segment")
			return
		}
		for i, n := range []string{"Freq", "Pos"} {
			cl, k := fld(n).ext()
			if cl == nil || k != i || !cl.isCall(find) || !is(st, e, cl.a[1]) {
				no(n + " of the entry is not what the dictionary has for the segment: " + clip(fld(n).String()))
				return
			}
		}
		S, E := fld("Start"), fld("End")
		g, impossible := given(st)
		if impossible {
			return
		}
		if g == 0 {
			no("whether there is a text is not looked at")
			return
		}
		first := map[*T]*T{} // loop variables in the first iteration
		for i, s := range l.syms {
			first[s] = l.init[i]
		}
		sizeOK := func(d lin) string {
			chars, ok := length(st, e, d)
			switch {
			case !ok:
				return "the entry does not end one segment after its start"
			case chars && (g == 1 || inChars(st) != 1):
				return "the length is counted in characters although bytes are asked for"
			case !chars && g == -1 && inChars(st) != -1:
				return "the length is counted in bytes although characters may be asked for"
			}
			return ""
		}
		lenOf := func(S, E *T) lin { return x.lin(E).addk(x.lin(S), -1) }
		isFirst := st.proves(linC(0).addk(idx, -1))
		isLater := st.proves(idx.addk(linC(1), -1))
		if g == 1 {
			if why := sizeOK(lenOf(S, E)); why != "" {
				no(why)
				return
			}
			if why := c.nextOcc(st, x, l, S, func(t *T) bool { return is(st, e, t) }, func(t *T) bool {
				return t.isCall(occs) && text(t.a[0]) && t.a[1] == segs
			}); why != "" {
				no(why)
				return
			}
			c.R.OK(rule, name, at)
			return
		}
		if !isLater {
			s0, e0 := x.subst(S, first), x.subst(E, first)
			if n, ok := s0.intVal(); !ok || n != 0 {
				no("without a text the first entry does not start at 0: " + clip(s0.String()))
				return
			}
			sub := *st
			sub.facts = append(append([]lin{}, st.facts...), linC(0).addk(idx, -1), idx)
			old := st.facts
			st.facts = sub.facts
			why := sizeOK(lenOf(s0, e0))
			st.facts = old
			if why != "" {
				no(why)
				return
			}
		}
		if !isFirst {
			// where the one before ended
			prev := false
			if S.op == "load" && S.a[0].op == "&field" && S.a[0].s == "End" && S.a[0].a[0].op == "&index" && S.a[0].a[0].a[0] == list {
				i := x.lin(S.a[0].a[0].a[1])
				n := x.lin(x.lenOf(list))
				if list.op == "mkslice" {
					n = idx
				}
				d := n.addk(i, -1)
				prev = len(d.k) == 0 && d.c == 1 || st.proves(d.addk(linC(1), -1)) && st.proves(linC(1).addk(d, -1))
			}
			for i, s := range l.syms {
				if s == S && !f.memo["not the end "+l.id+"/"+fmtInt(i)] {
					prev = true
				}
			}
			if !prev {
				no("without a text an entry does not start where the one before it ends: " + clip(S.String()))
				return
			}
			if why := sizeOK(lenOf(S, E)); why != "" {
				no(why)
				return
			}
		}
		c.R.OK(rule, name, at)
		// the end of the one before
	}
	ends := func(st *St, l *LoopI, next []*T) {
		var E *T
		for i := range l.phis {
			if listOf(l.syms[i]) {
				if add, ok := grown(next[i], l.syms[i]); ok && len(add) == 1 && add[0].op == "struct" {
					E = add[0].a[field("End")]
				}
			}
		}
		if E == nil {
			for _, ev := range st.trace[l.nt:] {
				if ev.kind != "store" {
					continue
				}
				a := ev.args[0]
				for a.op == "&field" {
					a = a.a[0]
				}
				if a.op == "&index" && listOf(a.a[0]) {
					if t := x.loadT(st, a, elemType(a.a[0])); t.op == "struct" {
						E = t.a[field("End")]
					}
				}
			}
		}
		for i := range l.phis {
			if E == nil || next[i] != E {
				f.memo["not the end "+l.id+"/"+fmtInt(i)] = true
			}
		}
	}
	n := 0
	q.passes = 2
	q.again = func() { n++ }
	q.cfg.Hooks.Event = func(st *St, ev *Ev) {
		if n > 1 && ev.kind == "mapset" && own(ev.args[0]) && isInt(ev.args[2].typ) {
			c.R.Check(st.le(x.tt.int(0), ev.args[2]), "stays-inside", name, c.Pos(ev.in.Pos()), "the count of a segment may be negative")
		}
	}
	hi, hs := q.cfg.Hooks.Index, q.cfg.Hooks.Slice
	q.cfg.Hooks.Index = func(st *St, in ssa.Instruction, b, i *T) {
		if n > 1 {
			hi(st, in, b, i)
		}
	}
	q.cfg.Hooks.Slice = func(st *St, in *ssa.Slice, b, lo, h *T) {
		if n > 1 {
			hs(st, in, b, lo, h)
		}
	}
	q.cfg.Hooks.Back = func(st *St, l *LoopI, next []*T) {
		if n <= 1 {
			f.steps(st, l, next, nil)
			ends(st, l, next)
			return
		}
		back(st, l, next)
	}
	q.cfg.Hooks.Ret = func(st *St, res []*T) {
		if n <= 1 {
			return
		}
		r := res[0]
		if st.proves(linC(0).addk(x.lin(x.lenOf(segs)), -1)) && emptyT(x, r) {
			c.R.OK("one-entry-per-segment", name, pos)
			return
		}
		for _, e := range st.trace {
			if e.kind != "exit" {
				continue
			}
			l := e.loop
			if w, ok := f.walks(st, l); !ok || w.list != segs || !f.exhausted(st, l) {
				continue
			}
			if acting[r.String()] && st.eqI(x.lenOf(r), x.lenOf(segs)) {
				c.R.OK("one-entry-per-segment", name, pos)
				return
			}
			for i := range l.syms {
				if r == l.syms[i] && listOf(r) {
					c.R.OK("one-entry-per-segment", name, pos)
					return
				}
			}
		}
		c.R.Fail("one-entry-per-segment", name, pos, "the result may not be one entry for every segment: "+clip(r.String())+"; the path: "+clip(litStrings(st.lits)))
	}
	if !q.Run() {
		c.R.Fail("analysed", name, pos, "too many paths")
		return
	}
	q.ends("ends")
	if len(acting) == 0 {
		c.R.Fail(rule, name, pos, "no walk over the segments that builds the entries was found")
	}
	c.R.Unit("functions", 1)
	c.R.Unit("paths", x.Paths)
}

// nextOcc: the start is the next occurrence of the segment, or there is none left.
func (c *Ctx) nextOcc(st *St, x *E3, l *LoopI, S *T, seg, occs func(t *T) bool) string {
	isAll := func(t *T) bool { return t.op == "lookup" && occs(t.a[0]) && seg(t.a[1]) }
	// counted: n is the number of earlier segments with this text, and this one is counted
	counted := func(n *T) bool {
		for _, e := range st.trace[l.nt:] {
			if e.kind != "mapset" || !seg(e.args[1]) {
				continue
			}
			m, v := e.args[0], e.args[2]
			old := func(t *T) bool { return t.op == "lookup" && t.a[0] == m && seg(t.a[1]) }
			has := lit(st, func(t *T) bool { return t.op == "has" && t.a[0] == m && seg(t.a[1]) })
			plus := func(t *T) bool { // one more than before
				d := x.lin(t)
				d.c--
				if len(d.k) != 1 || d.c != 0 {
					return false
				}
				for u, k := range d.k {
					return k == 1 && old(u)
				}
				return false
			}
			switch {
			case v == n && has == -1 && isZero(n): // counting from 0
				return true
			case v == n && has == 1 && plus(n):
				return true
			case old(n) && plus(v) && has != 1 || old(n) && plus(v): // counting from 1
				return true
			case isZero(n) && has == -1:
				k, ok := v.intVal()
				return ok && k == 1
			}
		}
		return false
	}
	if S.op == "load" && S.a[0].op == "&index" && isAll(S.a[0].a[0]) {
		n := S.a[0].a[1]
		if counted(n) {
			return ""
		}
		// the list gets shorter
		for _, e := range st.trace[l.nt:] {
			if e.kind == "mapset" && occs(e.args[0]) && seg(e.args[1]) && isZero(n) {
				if v := e.args[2]; v.op == "slice" && isAll(v.a[0]) && v.a[2].isNil() {
					if k, ok := v.a[1].intVal(); ok && k == 1 {
						return ""
					}
				}
			}
		}
		return "the occurrence used is not the next one of the segment: " + clip(n.String())
	}
	// none is left
	for _, li := range st.lits[l.nl:] {
		t := li.t
		if len(t.a) != 2 {
			continue
		}
		ofAll := func(u *T) bool { return u.op == "len" && isAll(u.a[0]) }
		switch {
		case t.op == "<" && ofAll(t.a[1]) && !li.pol && (counted(t.a[0]) || isZero(t.a[0]) || strings.HasPrefix(t.a[0].op, "lookup")):
			return ""
		case t.op == "<=" && ofAll(t.a[0]) && li.pol && (counted(t.a[1]) || strings.HasPrefix(t.a[1].op, "lookup")):
			return ""
		case t.op == "==" && li.pol && (ofAll(t.a[0]) && isZero(t.a[1]) || ofAll(t.a[1]) && isZero(t.a[0])):
			return ""
		}
		if t.op == "has" && occs(t.a[0]) && seg(t.a[1]) && !li.pol {
			return ""
		}
	}
	return "with a text an entry does not start at an occurrence of its segment although there may be one left: " + clip(S.String())
}
