package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C08", checkParts) }

func checkParts(c *Ctx) {
	c.R.Rule = "In segmentWords, at every place where a token is recorded for a position, the path must exclude, by linear arithmetic, that in search mode the token has as many words as the text and ends at its last position; tokens found in the dictionary are recorded where they end. CalcToken divides the words of the entry in search mode and records only parts that exist: either they are appended, or the loop that counts them and the loop that fills them in go over the same parts and decide alike on every pair of compatible paths. Everybody else divides a text of one word without search mode."
	c.R.Assume = append(c.R.Assume, "The words of an entry are those its text is split into (the settings do not change between loading and dividing).")
	sw := c.Method(modPath, "Segmenter", "segmentWords")
	calc := c.Method(modPath, "Segmenter", "CalcToken")
	if sw == nil || calc == nil {
		c.R.Fail("anchor", "Segmenter.segmentWords, Segmenter.CalcToken", "", "not found")
		return
	}
	c.wholeWord(sw)
	c.fillParts(calc)
	c.singleWord(sw, calc)
}

// wholeWord: no token that spans the text is recorded in search mode.
func (c *Ctx) wholeWord(sw *ssa.Function) {
	x := newE3(c.World)
	name, pos := short(sw), c.Pos(sw.Pos())
	// the text is the list of words, the mode the flag
	var text, mode *T
	for i, p := range sw.Params {
		t := x.tt.mk("param", fmt.Sprintf("%s@%s#%d", p.Name(), short(sw), i), p.Type())
		switch {
		case isBool(p.Type()):
			mode = t
		case strings.HasPrefix(p.Type().String(), "[]"):
			text = t
		}
	}
	if text == nil || mode == nil {
		c.R.Fail("anchor", name, pos, "segmentWords takes no list of words and no flag")
		return
	}
	lt := x.lenOf(text)
	ov := x.Run(sw, &Hooks{
		Inline: expandAll("(*" + modPath + ".Dictionary).LookupTokens"),
		Event: func(st *St, e *Ev) {
			if e.kind != "store" {
				return
			}
			rec, tok := recordedToken(e)
			if tok == nil {
				return
			}
			p := c.Pos(e.in.Pos())
			if rec.op == "alloc" {
				return // a local record, judged where it is copied into the list
			}
			what := name + "|a token found"
			if tok.op == "alloc" {
				what = name + "|a token made up"
			}
			if rec.op != "&index" {
				c.R.Fail("no-part-spans-the-word", what, p, "a token is recorded at an unknown position")
				return
			}
			words := x.loadField(st, tok, c.Named(modPath, "Token"), "text")
			n := x.lenOf(words)
			if es, ok := x.explicit(st, words); ok {
				n = x.tt.int(int64(len(es)))
			}
			c.R.Check(st.notWhole(mode, rec.a[1], n, lt), "no-part-spans-the-word", what, p,
				"in search mode a token as long as the text may be recorded at its last position; the path: "+clip(litStrings(st.lits)))
		},
	})
	if ov {
		c.R.Fail("too-many-paths", name, pos, "the function has too many paths to decide")
	}
	c.R.Unit("paths", x.Paths)
	c.R.AtLeast("no-part-spans-the-word", 2)
}

// recordedToken: the event puts a token, found or made up, into an element of a list of records.
func recordedToken(e *Ev) (rec, tok *T) {
	isTok := func(t types.Type) bool {
		_, ptr := t.(*types.Pointer)
		return ptr && isNamed(t, modPath, "Token")
	}
	a, v := e.args[0], e.args[1]
	found := func(v *T) bool {
		// not copied from another record
		return !(v.op == "load" && v.a[0].op == "&field")
	}
	if a.op == "&field" && isTok(derefType(a.typ)) {
		if !found(v) {
			return nil, nil
		}
		return a.a[0], v
	}
	if st := structOf(derefType(a.typ)); a.op == "&index" && st != nil && v.op == "struct" {
		for i := 0; i < st.NumFields() && i < len(v.a); i++ {
			if isTok(st.Field(i).Type()) && found(v.a[i]) && !v.a[i].isNil() {
				return a, v.a[i]
			}
		}
	}
	return nil, nil
}

// loadField reads a field through a pointer.
func (x *E3) loadField(st *St, p *T, n *types.Named, f string) *T {
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return x.loadT(st, x.fieldAddr(p, n, i), s.Field(i).Type())
		}
	}
	return x.tt.mk("unknown", "", nil)
}

// notWhole: it is impossible that the mode is on, the position is the last one and the token as long as the text.
func (st *St) notWhole(mode, loc, n, lt *T) bool {
	x := st.x
	s := st.clone()
	if v, ok := s.truth(mode); ok && !v || !s.assume(mode, true) {
		return true
	}
	last := x.lin(lt)
	last.c--
	d := last.addk(x.lin(loc), -1) // 0 when loc is the last position
	m := x.lin(lt).addk(x.lin(n), -1)
	s.facts = append(s.facts, linC(0).addk(d, -1), d, m, linC(0).addk(m, -1))
	goal := d.clone()
	goal.c-- // loc before the last position
	return s.proves(goal)
}

// loopSum is what the iterations of a loop do.
type loopSum struct {
	syms  []*T
	init  []*T
	iters []loopIter
	exits [][]Lit
	fixed bool
}

type loopIter struct {
	lits   []Lit
	next   []*T
	stores [][2]*T // elements of lists of parts that are set
}

// fillParts: the parts CalcToken records are complete.
func (c *Ctx) fillParts(calc *ssa.Function) {
	x := newE3(c.World)
	name, pos := short(calc), c.Pos(calc.Pos())
	isPart := func(t types.Type) bool {
		_, ptr := t.(*types.Pointer)
		return ptr && isNamed(t, modPath, "Segment")
	}
	sums := map[string]*loopSum{}
	var order []string
	type set struct {
		v, entry *T
		in       ssa.Instruction
		path     string
	}
	var sets []set
	ov := x.Run(calc, &Hooks{Inline: expandAll(segmentWordsName, "(*"+modPath+".Dictionary).LookupTokens"),
		Loop: func(st *St, l *LoopI) {
			s := sums[l.id]
			if s == nil {
				s = &loopSum{syms: l.syms, init: l.init, fixed: true}
				sums[l.id] = s
				order = append(order, l.id)
			}
			for i := range l.init {
				if s.init[i] != l.init[i] || s.syms[i] != l.syms[i] {
					s.fixed = false
				}
			}
		},
		Back: func(st *St, l *LoopI, next []*T) {
			s := sums[l.id]
			it := loopIter{lits: append([]Lit(nil), st.lits[l.nl:]...), next: next}
			for _, e := range st.trace[l.nt:] {
				if e.kind == "store" && e.args[0].op == "&index" && isPart(derefType(e.args[0].typ)) {
					it.stores = append(it.stores, [2]*T{e.args[0], e.args[1]})
				}
			}
			s.iters = append(s.iters, it)
		},
		Event: func(st *St, e *Ev) {
			switch e.kind {
			case "exit":
				s := sums[e.loop.id]
				s.exits = append(s.exits, append([]Lit(nil), st.lits[e.loop.nl:]...))
			case "store":
				if isFieldOf(e.args[0], modPath, "Token", "segments") {
					sets = append(sets, set{e.args[1], e.args[0].a[0], e.in, litStrings(st.lits)})
				}
			}
		},
	})
	if ov {
		c.R.Fail("too-many-paths", name, pos, "the function has too many paths to decide")
		return
	}
	c.R.Unit("paths", x.Paths)
	c.R.Unit("loops", len(order))
	// the loop a variable belongs to
	owner := func(t *T) (*loopSum, int) {
		for _, id := range order {
			for i, s := range sums[id].syms {
				if s == t {
					return sums[id], i
				}
			}
		}
		return nil, 0
	}
	goodElem := func(v, entry *T) string {
		if v.op != "&index" {
			return "a part that may be missing is recorded: " + clip(v.String())
		}
		call := v.a[0]
		if !call.isCall(segmentWordsName) {
			return "a part does not come from dividing the entry: " + clip(v.String())
		}
		search := false
		for _, a := range call.a {
			if b, ok := a.boolVal(); ok && b {
				search = true
			}
		}
		if !search {
			return "the entry may be divided without search mode"
		}
		if !call.has(func(u *T) bool { return isLoadOf(u, modPath, "Token", "text") && u.a[0].a[0] == entry }) {
			return "the parts are not those of this entry: " + clip(call.String())
		}
		return ""
	}
	var goodList func(v, entry *T, seen map[*T]bool) string
	goodList = func(v, entry *T, seen map[*T]bool) string {
		if seen[v] {
			return ""
		}
		seen[v] = true
		switch v.op {
		case "nil":
			return ""
		case "list":
			for _, e := range v.a {
				if why := goodElem(e, entry); why != "" {
					return why
				}
			}
			return ""
		case "append":
			if v.a[1].op != "list" {
				return "unknown parts are appended"
			}
			if why := goodList(v.a[1], entry, seen); why != "" {
				return why
			}
			return goodList(v.a[0], entry, seen)
		case "slice":
			if n, ok := x.lenOf(v).intVal(); ok && n == 0 {
				return ""
			}
		case "load":
			if isFieldOf(v.a[0], modPath, "Token", "segments") && v.a[0].a[0] == entry {
				return "" // what was set before, judged there
			}
		case "phi":
			s, k := owner(v)
			if s == nil || !s.fixed {
				return "the list of parts is not understood: " + v.String()
			}
			if why := goodList(s.init[k], entry, seen); why != "" {
				return why
			}
			for _, it := range s.iters {
				if why := goodList(it.next[k], entry, seen); why != "" {
					return why
				}
			}
			return ""
		case "mkslice":
			if n, ok := v.a[0].intVal(); ok && n == 0 {
				return ""
			}
			return c.filled(x, v, entry, order, sums, owner, goodElem)
		}
		return "the list of parts is not understood: " + clip(v.String())
	}
	for _, s := range sets {
		why := goodList(s.v, s.entry, map[*T]bool{})
		c.R.Check(why == "", "no-part-is-missing", name, c.Pos(s.in.Pos()), why)
	}
	c.R.AtLeast("no-part-is-missing", 1)
	// nobody else sets the parts
	allowed := map[*ssa.Function]bool{calc: true}
	for fn := range c.reach(calc) {
		if !isAPI(fn) {
			allowed[fn] = true
		}
	}
	c.onlyWritten("only-CalcToken-sets-the-parts", allowed, "Token", map[string]bool{"segments": true})
}

// filled: every element of the list v, made with its final length, is set.
func (c *Ctx) filled(x *E3, v, entry *T, order []string, sums map[string]*loopSum, owner func(*T) (*loopSum, int), goodElem func(v, entry *T) string) string {
	count, ck := owner(v.a[0])
	if count == nil || !count.fixed {
		return "the number of parts is not counted by a loop: " + clip(v.a[0].String())
	}
	if n, ok := count.init[ck].intVal(); !ok || n != 0 {
		return "the count does not start at 0"
	}
	delta := func(s *loopSum, it loopIter, k int) (int, bool) {
		d := x.lin(it.next[k]).addk(x.lin(s.syms[k]), -1)
		return int(d.c), len(d.k) == 0 && (d.c == 0 || d.c == 1)
	}
	for _, it := range count.iters {
		if _, ok := delta(count, it, ck); !ok {
			return "the count does not go up by one or stay"
		}
	}
	var fill *loopSum
	fk := -1
	for _, id := range order {
		s := sums[id]
		for _, it := range s.iters {
			for _, st := range it.stores {
				if st[0].a[0] != v {
					continue
				}
				if why := goodElem(st[1], entry); why != "" {
					return why
				}
				if fill != nil && fill != s {
					return "several loops fill in the parts"
				}
				fill = s
				for k, sym := range s.syms {
					if sym == st[0].a[1] {
						fk = k
					}
				}
			}
		}
	}
	if fill == nil || fk < 0 || !fill.fixed {
		return "no loop fills in the parts one after the other"
	}
	if n, ok := fill.init[fk].intVal(); !ok || n != 0 {
		return "the parts are not filled in from the first on"
	}
	// the variables the two loops share
	m := map[*T]*T{}
	for k, s := range fill.syms {
		for j, t := range count.syms {
			if j == ck || k == fk || s.typ == nil || t.typ == nil || s.typ.String() != t.typ.String() {
				continue
			}
			off := x.lin(fill.init[k]).addk(x.lin(count.init[j]), -1)
			if fill.init[k] != count.init[j] && (len(off.k) != 0 || !isInt(s.typ)) {
				continue
			}
			same := true
			for _, it := range fill.iters {
				for _, jt := range count.iters {
					a := x.lin(it.next[k]).addk(x.lin(s), -1)
					b := x.lin(jt.next[j]).addk(x.lin(t), -1)
					if len(a.k) != 0 || len(b.k) != 0 || a.c != b.c {
						same = false
					}
				}
			}
			if same {
				m[s] = t
				if fill.init[k] != count.init[j] {
					m[s] = x.arith("+", t, x.tt.int(off.c), t.typ)
				}
			}
		}
	}
	exits := func(s *loopSum) map[string]bool {
		out := map[string]bool{}
		for _, ls := range s.exits {
			var ks []string
			for _, l := range ls {
				ks = append(ks, fmt.Sprintf("%p %v", x.subst(l.t, m), l.pol))
			}
			sort.Strings(ks)
			out[strings.Join(ks, ",")] = true
		}
		return out
	}
	ex, cx := exits(fill), exits(count)
	for e := range ex {
		if !cx[e] {
			return "the loop that counts the parts and the one that fills them in do not end alike"
		}
	}
	for e := range cx {
		if !ex[e] {
			return "the loop that counts the parts and the one that fills them in do not end alike"
		}
	}
	for _, it := range fill.iters {
		n := 0
		for _, st := range it.stores {
			if st[0].a[0] == v {
				n++
				if st[0].a[1] != fill.syms[fk] {
					return "a part is filled in at another place"
				}
			}
		}
		d, ok := delta(fill, it, fk)
		if !ok || d != n {
			return "the place of the next part does not follow from the parts filled in"
		}
		lits := map[*T]bool{}
		for _, l := range it.lits {
			lits[x.subst(l.t, m)] = l.pol
		}
		for _, jt := range count.iters {
			clash := false
			for _, l := range jt.lits {
				if p, ok := lits[l.t]; ok && p != l.pol {
					clash = true
				}
			}
			if clash {
				continue
			}
			if dj, _ := delta(count, jt, ck); dj != d {
				return fmt.Sprintf("%d parts are counted, %d filled in: counted when %s, filled in when %s", dj, d, clip(litStrings(jt.lits)), clip(litStrings(it.lits)))
			}
		}
	}
	return ""
}

// singleWord: a text of one word is not divided in search mode, except by CalcToken.
func (c *Ctx) singleWord(sw, calc *ssa.Function) {
	x := newE3(c.World)
	inCalc := c.reach(calc)
	for _, fn := range c.roots() {
		if inCalc[fn] || !usesCall(c.expanded(fn), segmentWordsName) {
			continue
		}
		name := short(fn)
		ov := x.Run(fn, &Hooks{Inline: keepOut(segmentWordsName), Event: func(st *St, e *Ev) {
			if e.kind != "call" || e.name != segmentWordsName {
				return
			}
			var mode, n *T
			for _, a := range e.args {
				if isBool(a.typ) || a.op == "const" && isBool(a.typ) {
					mode = a
				}
			}
			for i, p := range sw.Params {
				if strings.HasPrefix(p.Type().String(), "[]") && i < len(e.args) {
					n = x.lenOf(e.args[i])
				}
				if isBool(p.Type()) && i < len(e.args) {
					mode = e.args[i]
				}
			}
			ok := mode != nil && n != nil
			if ok {
				s := st.clone()
				if s.assume(mode, true) {
					if v, known := s.truth(mode); !known || v {
						two, none := x.lin(n), linC(0).addk(x.lin(n), -1)
						two.c -= 2
						ok = s.proves(two) || s.proves(none)
					}
				}
			}
			c.R.Check(ok, "a-single-word-is-returned", name, c.Pos(e.in.Pos()), "a text of one word may be divided in search mode, which gives nothing; the path: "+clip(litStrings(st.lits)))
		}})
		if ov {
			c.R.Fail("too-many-paths", name, c.Pos(fn.Pos()), "the function has too many paths to decide")
		}
	}
	c.R.AtLeast("a-single-word-is-returned", 2)
}
