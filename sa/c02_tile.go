package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C02", checkTiling) }

// tiler is the analysis of the segmentation of a list of words.
type tiler struct {
	c     *Ctx
	q     *E4
	x     *E3
	fn    *ssa.Function
	name  string
	words *T // the list of words
	bytes *T // the text
	last  bool
	recs  []*record
	args  map[*T]lin
	never map[string]bool
	keeps map[*Ev]bool // stores of what is already there
	// what the loops do, from the run before and from this one
	old, now *loopSums
}

type loopSums struct {
	cover map[string]bool      // every position is reached, by loop and variable
	inner map[string]*innerSum // loops over the tokens found: paths that record nothing
	fill  map[string]*fillSum  // segments get their tokens
	posn  map[string]*fillSum  // segments get their positions
}

func newLoopSums() *loopSums {
	return &loopSums{map[string]bool{}, map[string]*innerSum{}, map[string]*fillSum{}, map[string]*fillSum{}}
}

type innerSum struct {
	v     int // the variable
	tok   *T  // the token of an iteration
	lo    lin
	skips [][]Lit
	bad   bool
	any   bool
}

type fillSum struct {
	v    int
	list *T // steps that are followed
	out  *T
	ok   bool
	why  string
}

const lookupTokens = "(*" + modPath + ".Dictionary).LookupTokens"

// at is the list and the index of an element address.
func at(x *E3, a *T) (list *T, i lin, ok bool) {
	if a.op != "&index" {
		return nil, lin{}, false
	}
	i = x.lin(a.a[1])
	l := a.a[0]
	for l.op == "slice" && l.a[0].op != "alloc" {
		if !l.a[1].isNil() {
			i = i.addk(x.lin(l.a[1]), 1)
		}
		l = l.a[0]
	}
	return l, i, true
}

func elemType(l *T) types.Type {
	if l == nil || l.typ == nil {
		return nil
	}
	if s, ok := l.typ.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func (t *tiler) isRec(l *T) *record {
	e := elemType(l)
	if e == nil {
		return nil
	}
	for _, r := range t.recs {
		if r.token && namedOf(e) == r.n {
			return r
		}
	}
	return nil
}

func isSegList(l *T) bool {
	e := elemType(l)
	return e != nil && isNamed(e, modPath, "Segment") && !isPtr(e)
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func zeroLin(l lin) bool { return len(l.k) == 0 && l.c == 0 }

// step: p is the token recorded for a position.
func (t *tiler) step(p *T) (list *T, i lin, ok bool) {
	if p.op != "load" || p.a[0].op != "&field" {
		return
	}
	l, i, ok := at(t.x, p.a[0].a[0])
	if !ok {
		return nil, i, false
	}
	if r := t.isRec(l); r == nil || r.stpN != p.a[0].s {
		return nil, i, false
	}
	return l, i, true
}

// found: p is a token that was looked up; the call and the index.
func (t *tiler) found(st *St, p *T) (call *Ev, i lin, ok bool) {
	if p.op != "load" {
		return nil, lin{}, false
	}
	l, i, ok := at(t.x, p.a[0])
	if !ok {
		return nil, i, false
	}
	for k := len(st.trace) - 1; k >= 0; k-- {
		e := st.trace[k]
		if e.kind == "call" && e.name == lookupTokens && len(e.args) == 3 {
			if rootOf(e.args[2]) == rootOf(l) {
				return e, i, true
			}
			return nil, i, false
		}
	}
	return nil, i, false
}

func (t *tiler) textLen(st *St, p *T) *T {
	return t.x.lenOf(t.x.loadField(st, p, t.c.Named(modPath, "Token"), "text"))
}

// startOf: the words an argument holds start here.
func (t *tiler) wordsFrom(a *T) (lin, bool) {
	lo := linC(0)
	for a.op == "slice" {
		if !a.a[1].isNil() {
			lo = lo.addk(t.x.lin(a.a[1]), 1)
		}
		a = a.a[0]
	}
	return lo, a == t.words
}

func (t *tiler) arg(l lin) *T {
	if len(l.k) == 1 && l.c == 0 {
		for v, k := range l.k {
			if k == 1 {
				return v
			}
		}
	}
	if len(l.k) == 0 {
		return t.x.tt.int(l.c)
	}
	a := t.x.tt.mk("linarg", l.key()+"+"+fmtInt(int(l.c)), types.Typ[types.Int])
	t.args[a] = l
	return a
}

// chain is the number of steps from a position back to the start.
func (t *tiler) chain(st *St, list, i *T) *T {
	r := t.isRec(list)
	if r == nil {
		return nil
	}
	a := t.stepAddr(list, t.x.tt.int(0), r)
	return t.x.tt.mk("chain", st.ver[st.cls(a)], types.Typ[types.Int], list, t.arg(t.x.lin(i)))
}

func (t *tiler) stepAddr(list, i *T, r *record) *T {
	return t.x.fieldAddr(t.x.indexAddr(list, i, types.NewPointer(elemType(list))), elemType(list), r.step)
}

// plain: a literal of the path says that the quantity is not negative.
func (t *tiler) plain(st *St, e lin) bool {
	x := t.x
	for _, l := range st.lits {
		if l.t.op != "<" || len(l.t.a) != 2 || !isInt(l.t.a[0].typ) && !isInt(l.t.a[1].typ) {
			continue
		}
		d := x.lin(l.t.a[1]).addk(x.lin(l.t.a[0]), -1)
		d.c--
		if !l.pol {
			d = linC(-1).addk(d, -1)
		}
		if r := e.addk(d, -1); len(r.k) == 0 && r.c >= 0 {
			return true
		}
	}
	return len(e.k) == 0 && e.c >= 0
}

func (t *tiler) facts(st *St, u *T) []lin {
	x := t.x
	v := lin{map[*T]int64{u: 1}, 0}
	switch u.op {
	case "chain":
		o := []lin{v}
		e := x.lin(u.a[1])
		if l, ok := t.args[u.a[1]]; ok {
			e = l
		}
		before := linC(-1).addk(e, -1)
		if t.plain(st, before) {
			return append(o, linC(0).addk(v, -1))
		}
		if t.plain(st, e) {
			o = append(o, v.addk(linC(-1), 1))
			if len(e.k) == 1 && e.c == 0 && t.args[u.a[1]].k == nil {
				r := t.isRec(u.a[0])
				s := t.stepAddr(u.a[0], u.a[1], r)
				p := x.loadT(st, s, derefType(s.typ))
				n := e.addk(x.lin(t.textLen(st, p)), -1)
				w := x.tt.mk("chain", u.s, u.typ, u.a[0], t.arg(n))
				d := v.addk(lin{map[*T]int64{w: 1}, 0}, -1)
				d.c--
				o = append(o, d, linC(0).addk(d, -1))
			}
		}
		return o
	case "len":
		if a := u.a[0]; a.op == "load" && isFieldOf(a.a[0], modPath, "Token", "text") {
			p := a.a[0].a[0]
			if _, i, ok := t.step(p); ok {
				lo, hi := v.clone(), i.addk(v, -1)
				lo.c--
				hi.c++
				return []lin{lo, hi}
			}
			if call, _, ok := t.found(st, p); ok {
				lo := v.clone()
				lo.c--
				return []lin{lo, x.lin(x.lenOf(call.args[1])).addk(v, -1)}
			}
		}
	case "load":
		if isFieldOf(u.a[0], modPath, "Dictionary", "maxTokenLen") {
			return []lin{v}
		}
	case "call":
		if u.isCall(lookupTokens) {
			return []lin{v, x.lin(x.lenOf(u.a[1])).addk(v, -1), x.lin(x.lenOf(u.a[2])).addk(v, -1)}
		}
	}
	return nil
}

// counter: the variable goes up by one from a constant; the index of the current iteration.
func (t *tiler) counter(l *LoopI, i int) (lin, bool) {
	if !isInt(l.phis[i].Type()) || t.never[l.id+"/"+fmtInt(i)] {
		return lin{}, false
	}
	n, ok := l.init[i].intVal()
	if !ok {
		return lin{}, false
	}
	cur := t.x.lin(l.syms[i])
	cur.c -= n
	return cur, true
}

// recorded: the positions and tokens that a stretch of the path records.
type recorded struct {
	list *T
	i    lin
	tok  *T
	ev   *Ev
}

func (t *tiler) recordsIn(st *St, from int) []recorded {
	var o []recorded
	for _, e := range st.trace[from:] {
		if r, ok := t.recordOf(e); ok {
			o = append(o, r)
		}
	}
	return o
}

func (t *tiler) recordOf(e *Ev) (recorded, bool) {
	if e.kind != "store" {
		return recorded{}, false
	}
	a, v := e.args[0], e.args[1]
	if a.op == "&field" {
		l, i, ok := at(t.x, a.a[0])
		if !ok {
			return recorded{}, false
		}
		if r := t.isRec(l); r != nil && r.stpN == a.s && !t.keeps[e] {
			return recorded{l, i, v, e}, true
		}
		return recorded{}, false
	}
	l, i, ok := at(t.x, a)
	if !ok {
		return recorded{}, false
	}
	if r := t.isRec(l); r != nil {
		if v := t.x.fieldOf(v, r.step, r.n); !t.keeps[e] {
			return recorded{l, i, v, e}, true
		}
	}
	return recorded{}, false
}

// same: what is stored is what is already there.
func (t *tiler) same(st *St, e *Ev) bool {
	if e.kind != "store" {
		return false
	}
	a, v := e.args[0], e.args[1]
	if a.op == "&index" {
		l, _, ok := at(t.x, a)
		if !ok {
			return false
		}
		r := t.isRec(l)
		if r == nil {
			return false
		}
		a, v = t.x.fieldAddr(a, r.n, r.step), t.x.fieldOf(v, r.step, r.n)
	}
	return t.x.loadT(st, a, derefType(a.typ)) == v
}

// span: where the words of a token start, and how many they are.
func (t *tiler) span(st *St, p *T) (lo, n lin, why string) {
	x := t.x
	if call, i, ok := t.found(st, p); ok {
		if !st.proves(i) || !st.proves(x.lin(call.res).addk(i, -1).addk(linC(-1), 1)) {
			return lo, n, "a token beyond those found is used"
		}
		lo, ok := t.wordsFrom(call.args[1])
		if !ok {
			return lo, n, "the words looked up are not words of the text"
		}
		return lo, x.lin(t.textLen(st, p)), ""
	}
	if p.op == "alloc" {
		tx := x.loadField(st, p, t.c.Named(modPath, "Token"), "text")
		es, ok := x.explicit(st, tx)
		if !ok && tx.op == "slice" && t.sliceOfWords(tx) {
			lo, _ := t.wordsFrom(tx)
			return lo, x.lin(x.lenOf(tx)), ""
		}
		if !ok || len(es) == 0 {
			return lo, n, "the words of a token that is made up are not known"
		}
		for k, w := range es {
			if w.op != "load" {
				return lo, n, "a token that is made up has a word that is not one of the text"
			}
			l, i, ok := at(x, w.a[0])
			if !ok || l != t.words {
				return lo, n, "a token that is made up has a word that is not one of the text"
			}
			if k == 0 {
				lo = i
			} else if d := i.addk(lo, -1); len(d.k) != 0 || d.c != int64(k) {
				return lo, n, "the words of a token that is made up do not follow each other in the text"
			}
		}
		return lo, linC(int64(len(es))), ""
	}
	return lo, n, "the token comes from neither the dictionary nor the text: " + clip(p.String())
}

func (t *tiler) sliceOfWords(a *T) bool {
	_, ok := t.wordsFrom(a)
	return ok
}

func (st *St) eqL(a, b lin) bool {
	d := a.addk(b, -1)
	return zeroLin(d) || st.proves(d) && st.proves(linC(0).addk(d, -1))
}

// impossible: the literals can not hold together on the path.
func (t *tiler) impossible(st *St, ls []Lit) bool {
	s := st.clone()
	for _, l := range ls {
		if v, ok := s.truth(l.t); ok && v != l.pol {
			return true
		}
		if !s.assume(l.t, l.pol) {
			return true
		}
	}
	for _, l := range s.lits {
		if l.t.op == "==" && len(l.t.a) == 2 && !l.pol && isInt(l.t.a[0].typ) && s.eqI(l.t.a[0], l.t.a[1]) {
			return true
		}
	}
	return false
}

// reached: a token is recorded for the position.
func (t *tiler) reached(st *St, from int, cell lin) bool {
	x := t.x
	for _, r := range t.recordsIn(st, from) {
		if !r.tok.isNil() && st.eqL(r.i, cell) {
			return true
		}
	}
	for _, l := range st.lits {
		if !l.pol && l.t.op == "==" && l.t.a[1].isNil() {
			if _, i, ok := t.step(l.t.a[0]); ok && st.eqL(i, cell) {
				return true
			}
		}
	}
	for _, e := range st.trace[from:] {
		if e.kind != "exit" {
			continue
		}
		s := t.old.inner[e.loop.id]
		if s == nil || !s.any || s.bad || s.tok == nil {
			continue
		}
		cur, ok := t.counter(e.loop, s.v)
		if !ok {
			continue
		}
		n, _ := e.loop.init[s.v].intVal()
		// at least one round
		if !st.proves(cur.addk(linC(-1), 1)) {
			continue
		}
		m := map[*T]*T{e.loop.syms[s.v]: x.tt.int(n)}
		tok := x.subst(s.tok, m)
		tok = t.current(st, tok)
		at := s.lo.addk(x.lin(t.textLen(st, tok)), 1)
		at.c--
		if !st.eqL(at, cell) {
			continue
		}
		all := true
		for _, sk := range s.skips {
			var ls []Lit
			for _, l := range sk {
				ls = append(ls, Lit{x.subst(l.t, m), l.pol})
			}
			if !t.impossible(st, ls) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

// current: a substituted token as the path would read it.
func (t *tiler) current(st *St, p *T) *T {
	if p.op == "load" {
		if l, i, ok := at(t.x, p.a[0]); ok {
			return t.x.loadT(st, t.x.indexAddr(l, t.arg(i), p.a[0].typ), p.typ)
		}
	}
	return p
}

type segWrite struct {
	out   *T
	i     lin
	field string
	v     *T
	ev    *Ev
}

func (t *tiler) segWrites(st *St, from int) []segWrite {
	var o []segWrite
	for _, e := range st.trace[from:] {
		if e.kind != "store" {
			continue
		}
		a, v := e.args[0], e.args[1]
		if a.op == "&field" {
			if l, i, ok := at(t.x, a.a[0]); ok && isSegList(l) {
				o = append(o, segWrite{l, i, a.s, v, e})
			}
			continue
		}
		if l, i, ok := at(t.x, a); ok && isSegList(l) {
			s := structOf(elemType(l))
			for k := 0; k < s.NumFields(); k++ {
				w := t.x.fieldOf(v, k, elemType(l))
				if isZero(w) || w.isNil() {
					continue // the value it has from the start
				}
				o = append(o, segWrite{l, i, s.Field(k).Name(), w, e})
			}
		}
	}
	return o
}

var byteLens = map[string]bool{"textSliceByteLen": true, "textSliceToString": true, "Join": true, "textToString": true, "textSliceToBytes": true}

// byteLen: the term is the length in bytes of the text of p.
func (t *tiler) isByteLen(u *T, isTok func(*T) bool) bool {
	if u.op == "len" {
		u = stripConv(u.a[0])
	}
	if u.op != "call" || len(u.a) == 0 {
		return false
	}
	n := callName(u.s)
	for f := range byteLens {
		if n == modPath+"."+f {
			a := u.a[len(u.a)-1]
			return a.op == "load" && isFieldOf(a.a[0], modPath, "Token", "text") && isTok(a.a[0].a[0])
		}
	}
	return false
}

func (t *tiler) back(st *St, l *LoopI, next []*T) {
	x := t.x
	for i, p := range l.phis {
		if isInt(p.Type()) {
			d := x.lin(next[i]).addk(x.lin(l.syms[i]), -1)
			if len(d.k) != 0 || d.c != 1 {
				t.never[l.id+"/"+fmtInt(i)] = true
			}
		}
	}
	// tokens found that are recorded one after the other
	recs := t.recordsIn(st, l.nt)
	for i := range l.phis {
		cur, ok := t.counter(l, i)
		if !ok {
			continue
		}
		key := l.id + "/" + fmtInt(i)
		if _, seen := t.now.cover[key]; !seen {
			t.now.cover[key] = true
		}
		if t.now.cover[key] && !t.reached(st, l.nt, cur) {
			t.now.cover[key] = false
		}
		s := t.now.inner[l.id]
		if o := t.old.inner[l.id]; s == nil && o != nil {
			s = &innerSum{v: o.v, tok: o.tok, lo: o.lo, any: o.any}
			t.now.inner[l.id] = s
		}
		if s != nil && s.v != i {
			continue
		}
		done := false
		for _, r := range recs {
			call, j, ok := t.found(st, r.tok)
			if !ok || !st.eqL(j, cur) {
				continue
			}
			lo, ok := t.wordsFrom(call.args[1])
			if !ok {
				continue
			}
			if s == nil {
				s = &innerSum{v: i}
				t.now.inner[l.id] = s
			}
			s.any, s.tok, s.lo, done = true, r.tok, lo, true
		}
		if s == nil || s.tok == nil || done {
			continue
		}
		// already recorded for that position
		at := s.lo.addk(x.lin(t.textLen(st, s.tok)), 1)
		at.c--
		for _, lt := range st.lits {
			if !lt.pol && lt.t.op == "==" && lt.t.a[1].isNil() {
				if _, k, ok := t.step(lt.t.a[0]); ok && st.eqL(k, at) {
					done = true
				}
			}
		}
		if !done {
			s.skips = append(s.skips, append([]Lit(nil), st.lits...))
		}
	}
	// segments that get their token
	ws := t.segWrites(st, l.nt)
	var toks, starts, ends []segWrite
	for _, w := range ws {
		switch w.field {
		case "token":
			toks = append(toks, w)
		case "start":
			starts = append(starts, w)
		case "end":
			ends = append(ends, w)
		}
	}
	f := t.now.fill[l.id]
	if (len(toks) > 0 || t.old.fill[l.id] != nil) && f == nil {
		f = &fillSum{v: -1, ok: true}
		t.now.fill[l.id] = f
	}
	if f != nil {
		bad := func(why string) {
			if f.ok {
				f.ok, f.why = false, why
			}
		}
		if len(toks) != 1 {
			bad(fmt.Sprintf("%d segments get a token for one step", len(toks)))
		} else {
			w := toks[0]
			list, e, ok := t.step(w.v)
			v := -1
			if ok {
				for i := range l.syms {
					if isInt(l.phis[i].Type()) && zeroLin(x.lin(l.syms[i]).addk(e, -1)) {
						v = i
					}
				}
			}
			switch {
			case !ok:
				bad("a segment gets a token that is not one recorded")
			case v < 0 || f.v >= 0 && f.v != v:
				bad("the token is not that of the position reached")
			default:
				f.v, f.list, f.out = v, list, w.out
				n := x.lin(t.textLen(st, w.v))
				if !st.eqL(x.lin(next[v]), e.addk(n, -1)) {
					bad("the next position is not the one before the words of the token")
				}
				k := lin{map[*T]int64{t.chain(st, list, l.syms[v]): 1}, -1}
				if !st.eqL(w.i, k) {
					bad("the segment is not at the place its token has in the text")
				}
			}
		}
	}
	g := t.now.posn[l.id]
	if (len(starts)+len(ends) > 0 || t.old.posn[l.id] != nil) && g == nil {
		g = &fillSum{v: -1, ok: true}
		t.now.posn[l.id] = g
	}
	if g != nil {
		bad := func(why string) {
			if g.ok {
				g.ok, g.why = false, why
			}
		}
		if len(starts) != 1 || len(ends) != 1 {
			bad("start and end are not set once for every segment")
			return
		}
		s, e := starts[0], ends[0]
		v := -1
		for i := range l.phis {
			if cur, ok := t.counter(l, i); ok && st.eqL(cur, s.i) && st.eqL(s.i, e.i) {
				v = i
			}
		}
		b := -1
		for i := range l.phis {
			if isInt(l.phis[i].Type()) && zeroLin(x.lin(l.syms[i]).addk(x.lin(s.v), -1)) {
				b = i
			}
		}
		switch {
		case v < 0 || s.out != e.out:
			bad("the segments do not get their positions one after the other")
			return
		case b < 0 || !isZero(l.init[b]):
			bad("the start of a segment is not where the one before it ends (the first: 0)")
			return
		}
		g.v, g.out = v, s.out
		if !zeroLin(x.lin(next[b]).addk(x.lin(e.v), -1)) {
			bad("the next segment does not start where this one ends")
		}
		d := x.lin(e.v).addk(x.lin(s.v), -1)
		ok := false
		if len(d.k) == 1 && d.c == 0 {
			for u, k := range d.k {
				ok = k == 1 && t.isByteLen(u, func(p *T) bool {
					if p.op != "load" || p.a[0].op != "&field" || p.a[0].s != "token" {
						return false
					}
					l, i, ok := at(x, p.a[0].a[0])
					return ok && l == s.out && st.eqL(i, s.i)
				})
			}
		}
		if !ok {
			bad("the end of a segment is not its start plus the length of its text: " + linString(d))
		}
	}
}

func (t *tiler) deref(st *St, in ssa.Instruction, p *T) {
	if !t.last {
		return
	}
	c, x := t.c, t.x
	if v, known := st.truth(x.arith("==", p, x.tt.nilT(), nil)); known && !v {
		return
	}
	if _, e, ok := t.step(p); ok {
		good := false
		for _, ev := range st.trace {
			if ev.kind != "exit" {
				continue
			}
			for i := range ev.loop.phis {
				cur, ok := t.counter(ev.loop, i)
				if ok && t.old.cover[ev.loop.id+"/"+fmtInt(i)] && st.proves(e) && st.proves(cur.addk(e, -1).addk(linC(-1), 1)) {
					good = true
				}
			}
		}
		c.R.Check(good, "every-position-is-reached", t.name, c.Pos(in.Pos()), "there may be no token recorded for this position; the path: "+clip(litStrings(st.lits)))
		return
	}
	if call, i, ok := t.found(st, p); ok {
		good := st.proves(i) && st.proves(x.lin(call.res).addk(i, -1).addk(linC(-1), 1))
		c.R.Check(good, "only-tokens-found-are-used", t.name, c.Pos(in.Pos()), "the token may not be one of those found; the path: "+clip(litStrings(st.lits)))
		return
	}
	if isLoadOf(p, modPath, "Segmenter", "Dict") {
		c.R.Fail("no-dictionary-no-panic", t.name, c.Pos(in.Pos()), "the dictionary may be missing")
	}
}

func (t *tiler) event(st *St, e *Ev) {
	if e.kind == "store" && t.same(st, e) {
		t.keeps[e] = true
	}
	if !t.last {
		return
	}
	c, x := t.c, t.x
	switch e.kind {
	case "call":
		if e.name == lookupTokens {
			_, ok := t.wordsFrom(e.args[1])
			c.R.Check(ok, "words-of-the-text-are-looked-up", t.name, c.Pos(e.in.Pos()), "what is looked up are not words of the text")
			d := x.lin(x.lenOf(e.args[2])).addk(x.lin(x.lenOf(e.args[1])), -1)
			c.R.Check(st.proves(d), "room-for-the-tokens", t.name, c.Pos(e.in.Pos()), "there may be more words than places for the tokens found")
		}
	case "store":
		r, ok := t.recordOf(e)
		if !ok {
			return
		}
		lo, n, why := t.span(st, r.tok)
		if why == "" {
			end := lo.addk(n, 1)
			end.c--
			if !st.eqL(end, r.i) {
				why = "the token is recorded for a position that is not that of its last word"
			} else if !st.proves(lo) || !st.proves(n.addk(linC(-1), 1)) {
				why = "the token may have no words, or start before the text"
			}
		}
		c.R.Check(why == "", "a-step-ends-where-its-token-ends", t.name, c.Pos(e.in.Pos()), why)
	}
}

func (t *tiler) ret(st *St, res []*T) {
	if !t.last {
		return
	}
	c, x := t.c, t.x
	r := res[0]
	pos := c.Pos(t.fn.Pos())
	where := "; the path: " + clip(litStrings(st.lits))
	if t.impossible(st, nil) {
		return
	}
	none := func(l *T) bool { return st.proves(linC(0).addk(x.lin(x.lenOf(l)), -1)) }
	noDict := false
	for _, l := range st.lits {
		if l.pol && l.t.op == "==" && l.t.a[1].isNil() && isLoadOf(l.t.a[0], modPath, "Segmenter", "Dict") {
			noDict = true
		}
	}
	if r.isNil() || r.op == "list" && len(r.a) == 0 {
		c.R.Check(none(t.bytes) || noDict || none(t.words), "the-segments-cover-the-text", t.name, pos, "a text that is not empty gets no segments"+where)
		return
	}
	if r.op == "slice" && r.a[1].isNil() && r.a[2].isNil() {
		r = r.a[0]
	}
	var why string
	filled, placed := -1, -1
	for k, e := range st.trace {
		if e.kind == "exit" {
			if f := t.old.fill[e.loop.id]; f != nil && f.out == r {
				l := e.loop
				switch {
				case !f.ok:
					why = f.why
				case f.v < 0:
					why = "no token is given to a segment"
				case !st.eqL(x.lin(l.init[f.v]), x.lin(x.lenOf(t.words)).addk(linC(-1), 1)):
					why = "the walk does not start from the last word"
				case !st.proves(linC(-1).addk(x.lin(l.syms[f.v]), -1)):
					why = "the walk may end before the first word"
				case !st.eqL(x.lin(x.lenOf(r)), lin{map[*T]int64{t.chain(st, f.list, l.init[f.v]): 1}, 0}):
					why = "there are more or fewer segments than steps"
				default:
					filled = k
				}
			}
			if g := t.old.posn[e.loop.id]; g != nil && g.out == r {
				l := e.loop
				switch {
				case !g.ok:
					why = g.why
				case g.v < 0:
					why = "no position is given to a segment"
				default:
					cur, ok := t.counter(l, g.v)
					if !ok || !st.proves(cur.addk(x.lin(x.lenOf(r)), -1)) {
						why = "not every segment gets its positions"
					} else {
						placed = k
					}
				}
			}
		}
	}
	started := -1
	for k, e := range st.trace {
		if e.kind == "loop" && placed >= 0 && e.loop.id == st.trace[placed].loop.id {
			started = k
		}
	}
	for _, w := range t.segWrites(st, 0) {
		if w.out == r && (w.field == "token" || w.field == "start" || w.field == "end") {
			why = "the " + w.field + " of a segment is written once more"
		}
	}
	if why == "" && filled < 0 {
		why = "the segments do not get the tokens recorded: " + clip(r.String())
	}
	c.R.Check(why == "" || filled >= 0 && placed < 0, "the-segments-cover-the-text", t.name, pos, why+where)
	if filled >= 0 {
		ok := placed >= 0 && started > filled
		if ok {
			why = ""
		} else if why == "" {
			why = "the segments do not get their positions after their tokens"
		}
		c.R.Check(ok && why == "", "positions-follow-each-other", t.name, pos, why+where)
	}
}

func checkTiling(c *Ctx) {
	c.R.Rule = "Segment and ModeSegment are evaluated path by path, helpers expanded, with inferred loop invariants. A token is recorded for a position only if its words end there (found tokens: the words looked up start at the current word; made up ones: words of the text); the loop over the words leaves a token recorded for every position; the walk back goes from the last position to the one before the words of its token until it is before the first, and gives the token of step k from the front to segment k (the number of steps from a position back is a function of the records, so both walks agree); positions are the running sum of the byte lengths. All indexes are inside, every loop ends. LookupTokens is evaluated by itself: it follows the trie along the words one after the other and stores the entry of each key found."
	c.R.Assume = append(c.R.Assume,
		"A dictionary entry found along some words of the text has exactly these words (the dictionary was split with the settings in force; its key is the concatenation of its words, see C13).",
		"maxTokenLen is not negative (it is only set to a length, see C13).",
		"textSliceByteLen gives the length in bytes (see C28); SplitTextToWords gives the words of the text (see C01).",
		"cedar's Jump and Value do what their names say; values are indexes of entries (see C13).")
	for _, m := range []string{"Segment", "ModeSegment"} {
		fn := c.Method(modPath, "Segmenter", m)
		if fn == nil {
			c.R.Fail("anchor", "Segmenter."+m, "", "not found")
			continue
		}
		c.tiles(fn)
	}
	c.lookup()
	c.R.AtLeast("the-segments-cover-the-text", 2)
	c.R.AtLeast("every-position-is-reached", 2)
	c.R.AtLeast("a-step-ends-where-its-token-ends", 2)
	c.R.AtLeast("positions-follow-each-other", 2)
}

func (c *Ctx) tiles(fn *ssa.Function) {
	x := newE3(c.World)
	t := &tiler{c: c, x: x, fn: fn, name: short(fn), recs: records(c.World), args: map[*T]lin{}}
	t.never, t.keeps = map[string]bool{}, map[*Ev]bool{}
	t.old, t.now = newLoopSums(), newLoopSums()
	for i, p := range fn.Params {
		if isSeq(p.Type()) && i > 0 {
			t.bytes = x.paramT(fn, i)
		}
	}
	if t.bytes == nil {
		c.R.Fail("anchor", t.name, c.Pos(fn.Pos()), "takes no text")
		return
	}
	q := newE4(c, x, fn, E4Cfg{})
	t.q = q
	split := "(*" + modPath + ".Segmenter).SplitTextToWords"
	keep := expandAll(split, lookupTokens)
	q.cfg.Inline = func(st *St, f *ssa.Function) bool {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == modPath && byteLens[f.Name()] {
			return false
		}
		return keep(st, f)
	}
	q.cfg.Facts = t.facts
	q.cfg.Chain = func(st *St, l, i *T) *T { return t.chain(st, l, i) }
	q.bounds("stays-inside", t.name)
	hi, hs := q.cfg.Hooks.Index, q.cfg.Hooks.Slice
	q.cfg.Hooks.Index = func(st *St, in ssa.Instruction, b, i *T) {
		if t.last {
			hi(st, in, b, i)
		}
	}
	q.cfg.Hooks.Slice = func(st *St, in *ssa.Slice, b, lo, h *T) {
		if t.last {
			hs(st, in, b, lo, h)
		}
	}
	q.cfg.Hooks.Event = t.event
	q.cfg.Hooks.Back = t.back
	q.cfg.Hooks.Deref = t.deref
	q.cfg.Hooks.Ret = t.ret
	wordsOf := func() {
		for k := range x.tt.m {
			u := x.tt.m[k]
			if u.isCall(split) && len(u.a) == 2 && u.a[1] == t.bytes {
				if t.words != nil && t.words != u {
					t.words = x.tt.mk("unknown", "words", nil)
					return
				}
				t.words = u
			}
		}
	}
	q.passes = 3
	n := 0
	t.words = x.tt.mk("unknown", "words", nil)
	first := true
	q.again = func() {
		if first {
			t.words = nil
			wordsOf()
			first = false
			if t.words == nil {
				t.words = x.tt.mk("unknown", "words", nil)
			}
		}
		n++
		t.old, t.now = t.now, newLoopSums()
		t.last = n == 3
	}
	if !q.Run() {
		c.R.Fail("analysed", t.name, c.Pos(fn.Pos()), "too many paths")
		return
	}
	q.ends("ends")
	c.R.Unit("functions", 1)
	c.R.Unit("paths", x.Paths)
}

// lookup decides LookupTokens.
func (c *Ctx) lookup() {
	fn := c.Method(modPath, "Dictionary", "LookupTokens")
	if fn == nil {
		c.R.Fail("anchor", "Dictionary.LookupTokens", "", "not found")
		return
	}
	name, pos := short(fn), c.Pos(fn.Pos())
	x := newE3(c.World)
	words, toks := x.paramT(fn, 1), x.paramT(fn, 2)
	q := newE4(c, x, fn, E4Cfg{})
	q.cfg.Inline = expandAll()
	entries := func(l *T) bool { return isLoadOf(l, modPath, "Dictionary", "Tokens") }
	val := func(u *T) *T { // the value of a node
		if call, i := u.ext(); call != nil && i == 0 && isCedar(call, "Value") {
			return call
		}
		return nil
	}
	q.cfg.Facts = func(st *St, u *T) []lin {
		if v := val(u); v != nil {
			if ok, known := st.errNil(x.comp(v, 1)); ok && known {
				return []lin{{map[*T]int64{u: 1}, 0}}
			}
		}
		return nil
	}
	q.cfg.Prep = func(st *St) {
		st.facts = append(st.facts, x.lin(x.lenOf(toks)).addk(x.lin(x.lenOf(words)), -1))
	}
	q.bounds("stays-inside", name)
	hi := q.cfg.Hooks.Index
	q.cfg.Hooks.Index = func(st *St, in ssa.Instruction, b, i *T) {
		if entries(b) {
			v := val(i)
			ok := false
			if v != nil {
				n, known := st.errNil(x.comp(v, 1))
				ok = n && known
			}
			c.R.Check(ok, "an-entry-is-the-one-found", name, c.Pos(in.Pos()), "the index of an entry is not a value found without error")
			return
		}
		hi(st, in, b, i)
	}
	q.cfg.Hooks.Back = func(st *St, l *LoopI, next []*T) {
		where := "; the path: " + clip(litStrings(st.lits[l.nl:]))
		var jump *T
		for _, e := range st.trace[l.nt:] {
			if e.kind == "call" && e.res != nil && isCedar(e.res, "Jump") {
				if jump != nil {
					c.R.Fail("follows-the-words", name, pos, "two steps for one word"+where)
				}
				jump = e.res
			}
		}
		if jump == nil {
			c.R.Fail("follows-the-words", name, pos, "no step for a word"+where)
			return
		}
		// Jump(word, node): the word of this round, the node of the last
		why := "the step does not start at the node the words before lead to"
		for i := range l.phis {
			if l.syms[i] == jump.a[2] && isZero(l.init[i]) && next[i] == x.comp2(jump, 0, next[i]) {
				why = ""
			}
		}
		c.R.Check(why == "", "follows-the-words", name, pos, why+where)
		why = "the step is not along the word of this round"
		if w := stripConv(jump.a[1]); w.op == "load" {
			if lst, i, ok := at(x, w.a[0]); ok && lst == words {
				for k := range l.phis {
					n, isN := l.init[k].intVal()
					if !isN || !isInt(l.phis[k].Type()) {
						continue
					}
					e := x.lin(l.syms[k])
					e.c -= n
					d := x.lin(next[k]).addk(x.lin(l.syms[k]), -1)
					if st.eqL(e, i) && len(d.k) == 0 && d.c == 1 {
						why = ""
					}
				}
			}
		}
		c.R.Check(why == "", "follows-the-words", name, pos, why+where)
		n, known := st.errNil(x.comp(jump, 1))
		c.R.Check(n && known, "stops-where-no-word-goes-on", name, pos, "the walk goes on although no key goes on with this word"+where)
		// the entry
		stored := 0
		for _, e := range st.trace[l.nt:] {
			if e.kind != "store" {
				continue
			}
			lst, i, ok := at(x, e.args[0])
			if !ok || lst != toks {
				continue
			}
			stored++
			why := "what is stored is not the entry of the key found"
			if v := e.args[1]; v.op == "&index" && entries(v.a[0]) {
				if w := val(v.a[1]); w != nil && x.isComp(w.a[1], jump, 0) {
					why = "the entries are not stored one after the other"
					for k := range l.phis {
						d := x.lin(next[k])
						if isInt(l.phis[k].Type()) && isZero(l.init[k]) && zeroLin(i.addk(x.lin(l.syms[k]), -1)) && zeroLin(d.addk(x.lin(l.syms[k]), -1).addk(linC(-1), 1)) {
							why = ""
						}
					}
				}
			}
			c.R.Check(why == "", "tokens-found-are-stored", name, c.Pos(e.in.Pos()), why+where)
		}
		c.R.Check(stored <= 1, "tokens-found-are-stored", name, pos, "an entry is stored more than once"+where)
	}
	// the number
	counts := map[string]bool{}
	b := q.cfg.Hooks.Back
	q.cfg.Hooks.Back = func(st *St, l *LoopI, next []*T) {
		b(st, l, next)
		n := int64(0)
		for _, e := range st.trace[l.nt:] {
			if e.kind == "store" {
				if lst, _, ok := at(x, e.args[0]); ok && lst == toks {
					n++
				}
			}
		}
		for k := range l.phis {
			if !isInt(l.phis[k].Type()) || !isZero(l.init[k]) {
				continue
			}
			key := l.id + "/" + fmtInt(k)
			if _, seen := counts[key]; !seen {
				counts[key] = true
			}
			d := x.lin(next[k]).addk(x.lin(l.syms[k]), -1)
			if len(d.k) != 0 || d.c != n {
				counts[key] = false
			}
		}
	}
	q.passes = 1
	pass := 0
	q.again = func() { pass++ }
	q.cfg.Hooks.Ret = func(st *St, res []*T) {
		if pass == 0 {
			return
		}
		ok := false
		for _, e := range st.trace {
			if e.kind == "exit" {
				n := int64(0)
				for _, f := range st.trace {
					if f.kind == "store" {
						if lst, _, is := at(x, f.args[0]); is && lst == toks {
							n++
						}
					}
				}
				for k := range e.loop.phis {
					d := x.lin(res[0]).addk(x.lin(e.loop.syms[k]), -1)
					if counts[e.loop.id+"/"+fmtInt(k)] && len(d.k) == 0 && d.c == n {
						ok = true
					}
				}
			}
		}
		c.R.Check(ok, "the-number-is-that-of-the-tokens", name, pos, "the result is not the number of tokens stored: "+clip(res[0].String()))
	}
	if !q.Run() {
		c.R.Fail("analysed", name, pos, "too many paths")
		return
	}
	q.ends("ends")
	c.R.Unit("functions", 1)
	c.R.Unit("paths", x.Paths)
}

// isComp: u is result i of the call.
func (x *E3) isComp(u, call *T, i int) bool {
	c, k := u.ext()
	return c == call && k == i
}

func (x *E3) comp2(call *T, i int, u *T) *T {
	if x.isComp(u, call, i) {
		return u
	}
	return nil
}
