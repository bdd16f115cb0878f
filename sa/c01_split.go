package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C01", checkSplit) }

// bounds makes every index and slice of the final run an obligation.
func (q *E4) bounds(rule, name string) {
	c, x := q.c, q.x
	h := &q.cfg.Hooks
	h.Index = func(st *St, in ssa.Instruction, b, i *T) {
		n := x.lenOf(b)
		if b.typ != nil {
			t := b.typ.Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			if a, ok := t.(*types.Array); ok {
				n = x.tt.int(a.Len())
			}
		}
		ok := st.le(x.tt.int(0), i) && st.ltI(i, n)
		c.R.Check(ok, rule, name, c.Pos(in.Pos()), "index "+clip(i.String())+" may be outside of "+clip(b.String())+"; the path: "+clip(litStrings(st.lits)))
		if !ok {
			st.facts = append(st.facts, x.lin(i), x.lin(n).addk(x.lin(i), -1).addk(linC(1), -1))
		}
	}
	h.Slice = func(st *St, in *ssa.Slice, b, lo, hi *T) {
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			return
		}
		z := x.tt.int(0)
		if lo.isNil() {
			lo = z
		}
		n := x.lenOf(b)
		if hi.isNil() {
			hi = n
		}
		ok := st.le(z, lo) && st.le(lo, hi) && st.le(hi, n)
		c.R.Check(ok, rule, name, c.Pos(in.Pos()), "the bounds "+clip(lo.String())+":"+clip(hi.String())+" may be outside of "+clip(b.String())+"; the path: "+clip(litStrings(st.lits)))
		if !ok {
			st.facts = append(st.facts, x.lin(lo), x.lin(hi).addk(x.lin(lo), -1), x.lin(n).addk(x.lin(hi), -1))
		}
	}
}

// ends makes every loop an obligation.
func (q *E4) ends(rule string) {
	for _, id := range sortedKeys(q.loops) {
		lc := q.loops[id]
		q.c.R.Check(lc.Ends(), rule, lc.name, lc.pos, "no quantity was found that shrinks with every iteration of this loop")
	}
}

// lowerFns are the functions that give a copy of a text with its ASCII letters lower-cased.
func (c *Ctx) isLowerFn(fn *ssa.Function) (bool, string) {
	sig := fn.Signature
	if fn.Blocks == nil || sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 {
		return false, "signature"
	}
	if !isBytesOrString(sig.Params().At(0).Type()) || !isBytesOrString(sig.Results().At(0).Type()) || !hasLoop(fn) {
		return false, "signature"
	}
	if ok, why := c.lowerAppends(fn); ok {
		return true, why
	}
	x := newE3(c.World)
	ok, why := true, ""
	no := func(s string) {
		if ok {
			ok, why = false, s
		}
	}
	stored := map[string]*T{} // loop -> the index of its stores
	q := newE4(c, x, fn, E4Cfg{})
	text := x.paramT(fn, 0)
	full := func(t *T) bool { return stripUnits(t) == text }
	// filled: a copy of the text
	filled := func(st *St, a *T) bool {
		if a.op == "append" && full(a.a[1]) && (a.a[0].isNil() || a.a[0].op == "mkslice" && x.lenOf(a.a[0]) == x.tt.int(0) || a.a[0].op == "list" && len(a.a[0].a) == 0) {
			return true
		}
		for _, e := range st.trace {
			if e.kind == "call" && e.name == "builtin:copy" && e.args[0] == a && full(e.args[1]) && st.eqI(x.lenOf(a), x.lenOf(text)) {
				return true
			}
		}
		return false
	}
	h := &q.cfg.Hooks
	h.Event = func(st *St, e *Ev) {
		switch {
		case e.kind == "append":
			if !filled(st, e.res) {
				no("it appends")
			}
		case e.kind == "call" && e.name == "builtin:copy":
			if e.args[0].op != "mkslice" || !full(e.args[1]) {
				no("it copies")
			}
		case e.kind == "store":
			a, v := e.args[0], e.args[1]
			if a.op != "&index" || !filled(st, a.a[0]) && (a.a[0].op != "mkslice" || !st.eqI(x.lenOf(a.a[0]), x.lenOf(text))) {
				no("it writes to something that does not have the length of the text")
				return
			}
			// what is already in a copy is the text, lower-cased or not
			if !c.lowerOf(q, st, v, text, a.a[1]) && !(filled(st, a.a[0]) && c.lowerOf(q, st, v, a.a[0], a.a[1])) {
				no("the byte stored at " + clip(a.a[1].String()) + " is " + clip(v.String()))
			}
		}
	}
	h.Back = func(st *St, l *LoopI, next []*T) {
		n := 0
		for _, e := range st.trace[l.nt:] {
			if e.kind != "store" || e.args[0].op != "&index" || filled(st, e.args[0].a[0]) {
				continue
			}
			n++
			i := x.lin(e.args[0].a[1])
			hit := false
			for j, s := range l.syms {
				if i.k[s] != 1 || len(i.k) != 1 {
					continue
				}
				in := x.lin(l.init[j]).addk(linC(i.c), 1)
				d := x.lin(next[j]).addk(x.lin(s), -1)
				if len(in.k) == 0 && in.c == 0 && len(d.k) == 0 && d.c == 1 {
					hit = true
					stored[l.id] = e.args[0].a[1]
				}
			}
			if !hit {
				no("the bytes are not written one after the other")
			}
		}
		if n > 1 {
			no("an iteration writes more than one byte")
		}
		if n == 0 {
			stored["-"+l.id] = nil
		}
	}
	h.Ret = func(st *St, res []*T) {
		if filled(st, res[0]) {
			return
		}
		if len(stored) != 1 {
			no("the bytes are not written by one loop")
			return
		}
		for _, i := range stored {
			if res[0].op != "mkslice" || i == nil || !st.le(x.lenOf(text), i) {
				no("the loop may stop before the end of the text")
			}
		}
	}
	q.bounds("stays-inside", short(fn))
	if !q.Run() {
		return false, "it could not be analysed"
	}
	for _, lc := range q.loops {
		if !lc.Ends() {
			no("the loop may not end")
		}
	}
	return ok, why
}

// lowerAppends: the function appends the bytes of the text, lower-cased, to an empty text.
func (c *Ctx) lowerAppends(fn *ssa.Function) (bool, string) {
	x := newE3(c.World)
	text := x.paramT(fn, 0)
	ok := true
	q := newE4(c, x, fn, E4Cfg{})
	busy := false
	q.cfg.Flat = func(st *St, t *T) (seq, bool) {
		if busy || !isUnit(t.typ) || t.op == "load" || t.op == "byteat" {
			return nil, false
		}
		busy = true
		defer func() { busy = false }()
		var r seq
		t.has(func(b *T) bool {
			if b != t && isUnit(b.typ) && (b.op == "load" || b.op == "byteat") {
				if f := q.flat(st, b); len(f) == 1 && f[0].base == text && c.lowerOf(q, st, t, text, b.a[len(b.a)-1].indexOf()) {
					r = f
					return true
				}
			}
			return false
		})
		return r, r != nil
	}
	n := 0
	h := &q.cfg.Hooks
	h.Event = func(st *St, e *Ev) {
		if e.kind == "store" && rootOf(e.args[0]).op != "alloc" {
			ok = false
		}
	}
	h.Ret = func(st *St, res []*T) {
		n++
		if res[0] == text || !q.Same(st, q.flat(st, res[0]), q.whole(text)) {
			ok = false
		}
	}
	q.bounds("stays-inside", short(fn))
	// obligations of a function that turns out to be something else do not count
	saved := c.R
	c.R = &Report{}
	defer func() { c.R = saved }()
	if !q.Run() || n == 0 {
		return false, ""
	}
	for _, o := range c.R.Obls {
		ok = ok && o.OK
	}
	for _, lc := range q.loops {
		ok = ok && lc.Ends()
	}
	return ok, ""
}

// indexOf is the index of an element address, or the term itself.
func (t *T) indexOf() *T {
	if t.op == "&index" {
		return t.a[1]
	}
	return t
}

// lowerOf: v is the byte i of the text, lower-cased if it is an ASCII letter.
func (c *Ctx) lowerOf(q *E4, st *St, v, text, i *T) bool {
	x := q.x
	var b *T
	v.has(func(t *T) bool {
		if f := q.flat(st, t); isUnit(t.typ) && len(f) == 1 && f[0].base == text && q.eqL(st, f[0].lo, x.lin(i)) {
			b = t
			return true
		}
		return false
	})
	if b == nil {
		return false
	}
	lo, hi := x.tt.int('A'), x.tt.int('Z')
	if v == b {
		return true
	}
	if !st.le(lo, b) || !st.le(b, hi) {
		return false
	}
	d := x.lin(v).addk(x.lin(b), -1)
	if len(d.k) == 0 && d.c == 'a'-'A' {
		return true
	}
	if v.op == "bin" && (v.s == "|" || v.s == "^") {
		for k := range v.a {
			if n, ok := v.a[k].intVal(); ok && n == 32 && v.a[1-k] == b {
				return true
			}
		}
	}
	return false
}

func (st *St) flagOn(x *E3, name string) bool {
	for _, l := range st.lits {
		if l.pol && l.t.op == "load" && l.t.a[0].op == "global" && l.t.a[0].s == name {
			return true
		}
	}
	return false
}

const toLowerFlag = modPath + ".ToLower"

func checkSplit(c *Ctx) {
	c.R.Rule = "SplitTextToWords is evaluated path by path with inferred loop invariants (what the words found so far joined together are: the text up to which position, per setting and state). On every return the words joined together must be the text; a word is replaced only by the result of a function that was shown to lower-case ASCII letters byte by byte, and only while ToLower is on. Every index and slice must be inside, and every loop must make some quantity smaller."
	x := newE3(c.World)
	lower := map[string]bool{}
	whyNot := map[string]string{}
	for _, fn := range c.libFuncs() {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath {
			continue
		}
		ok, why := c.isLowerFn(fn)
		if ok {
			lower[fn.RelString(nil)] = true
			c.R.OK("lower-cases-letters-only", short(fn), c.Pos(fn.Pos()))
		} else if why != "signature" {
			whyNot[fn.RelString(nil)] = why
		}
	}
	targets := []*ssa.Function{c.Method(modPath, "Segmenter", "SplitTextToWords"), c.Func(modPath, "SplitWords")}
	for i, fn := range targets {
		if fn == nil {
			c.R.Fail("anchor", []string{"SplitTextToWords", "SplitWords"}[i], "", "not found")
			continue
		}
		fn := fn
		name := short(fn)
		pi := 0
		for j, p := range fn.Params {
			if isBytesOrString(p.Type()) {
				pi = j
			}
		}
		text := x.paramT(fn, pi)
		q := newE4(c, x, fn, E4Cfg{
			Inline: func(st *St, f *ssa.Function) bool {
				return !lower[f.RelString(nil)] && f != targets[0] && expandAll()(st, f)
			},
			Flat: func(st *St, t *T) (seq, bool) { return nil, false },
		})
		q.cfg.Flat = func(st *St, t *T) (seq, bool) {
			if t.op == "call" && lower[callName(t.s)] {
				return q.flat(st, t.a[0]), true
			}
			if t.op == "call" && targets[0] != nil && callName(t.s) == targets[0].RelString(nil) {
				return q.flat(st, t.a[1]), true
			}
			return nil, false
		}
		h := &q.cfg.Hooks
		h.Event = func(st *St, e *Ev) {
			if e.kind == "call" && lower[e.name] {
				c.R.Check(st.flagOn(x, toLowerFlag), "lower-case-only-when-asked", name, c.Pos(e.in.Pos()), "a word is lower-cased although ToLower may be off; the path: "+clip(litStrings(st.lits)))
			}
		}
		h.Ret = func(st *St, res []*T) {
			ok := q.Same(st, q.flat(st, res[0]), q.whole(text))
			msg := ""
			if !ok {
				msg = "the words joined together are " + clip(q.norm(st, q.flat(st, res[0])).String()) + ", not the text; the path: " + clip(litStrings(st.lits))
				for n, w := range whyNot {
					if res[0].has(func(t *T) bool { return t.op == "call" && callName(t.s) == n }) {
						msg += "; " + n + " is not known to keep the text: " + w
					}
				}
			}
			c.R.Check(ok, "words-joined-are-the-text", name, c.Pos(fn.Pos()), msg)
		}
		q.bounds("stays-inside", name)
		if !q.Run() {
			c.R.Fail("analysed", name, c.Pos(fn.Pos()), "too many paths")
			continue
		}
		q.ends("ends")
		c.R.Unit("functions", 1)
	}
	c.R.AtLeast("words-joined-are-the-text", 1)
}
