package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C28", checkJoin) }

// joiner: a function whose result is its words joined, or their length.
type joiner struct {
	fn     *ssa.Function
	length bool
}

func (c *Ctx) joiners() []joiner {
	var o []joiner
	for _, n := range []string{"Join", "textToString", "textSliceToString", "textSliceToBytes", "textSliceByteLen"} {
		fn := c.Func(modPath, n)
		if fn == nil {
			c.R.Check(n != "Join", "anchor", n, "", "not found")
			continue
		}
		o = append(o, joiner{fn, n == "textSliceByteLen"})
	}
	if fn := c.Method(modPath, "Token", "Text"); fn != nil {
		o = append(o, joiner{fn, false})
	} else {
		c.R.Fail("anchor", "Token.Text", "", "not found")
	}
	return o
}

// wordsOf: the words a function joins, its argument or those of its token.
func (c *Ctx) wordsOf(x *E3, st *St, fn *ssa.Function) *T {
	for i, p := range fn.Params {
		if isWords(p.Type()) {
			return x.paramT(fn, i)
		}
	}
	if len(fn.Params) > 0 {
		if p, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok && isNamed(p.Elem(), modPath, "Token") {
			return x.loadField(st, x.paramT(fn, 0), c.Named(modPath, "Token"), "text")
		}
	}
	return nil
}

func checkJoin(c *Ctx) {
	c.R.Rule = "The functions that join words (Join, Token.Text, the helpers for keys and lengths) are evaluated path by path with inferred loop invariants: on every return the result must be the concatenation of all the words of the list, for any number of words of any length; a text copied into a buffer must start where the buffer's contents end and fit in, and the buffer must be full when it becomes the result; a length must be that of the concatenation. Token.Equals must have compared every byte of every word with the byte of the string at the same place, and the lengths, when it returns true, and must know of a different byte or a different length when it returns false."
	c.R.Assume = append(c.R.Assume, "The words are not changed while they are joined.", "The length of a text fits in an int.")
	for _, j := range c.joiners() {
		c.joins(j)
	}
	if fn := c.Method(modPath, "Token", "Equals"); fn != nil {
		c.equals(fn)
	} else {
		c.R.Fail("anchor", "Token.Equals", "", "not found")
	}
	c.R.AtLeast("the-words-joined", 3)
}

func (c *Ctx) joins(j joiner) {
	fn := j.fn
	name, pos := short(fn), c.Pos(fn.Pos())
	x := newE3(c.World)
	q := newE4(c, x, fn, E4Cfg{Len: true})
	q.cfg.Inline = func(st *St, f *ssa.Function) bool {
		return f.Pkg != nil && f.Blocks != nil && f.Pkg.Pkg.Path() == modPath
	}
	q.bounds("stays-inside", name)
	q.cfg.Copied = func(st *St, in ssa.Instruction, why string) {
		c.R.Check(why == "", "texts-follow-each-other", name, c.Pos(in.Pos()), why+"; the path: "+clip(litStrings(st.lits)))
	}
	q.cfg.Hooks.Ret = func(st *St, res []*T) {
		list := c.wordsOf(x, st, fn)
		if list == nil || len(res) != 1 {
			c.R.Fail("anchor", name, pos, "takes no list of words or gives no single result")
			return
		}
		if j.length {
			n := q.flen(st, list, x.lin(x.lenOf(list)))
			c.R.Check(st.eqI(res[0], n), "the-length-of-the-words-joined", name, pos, "the result may not be the length of all words: "+clip(res[0].String())+"; the path: "+clip(litStrings(st.lits)))
			return
		}
		got := q.flat(st, res[0])
		c.R.Check(q.Same(st, got, q.whole(list)), "the-words-joined", name, pos, "the result may not be all words joined: "+clip(q.norm(st, got).String())+"; the path: "+clip(litStrings(st.lits)))
	}
	if !q.Run() {
		c.R.Fail("analysed", name, pos, "too many paths")
		return
	}
	q.ends("ends")
	c.R.Unit("functions", 1)
	c.R.Unit("paths", x.Paths)
}

// equals decides a comparison of a token with a string.
func (c *Ctx) equals(fn *ssa.Function) {
	name, pos := short(fn), c.Pos(fn.Pos())
	x := newE3(c.World)
	q := newE4(c, x, fn, E4Cfg{Len: true})
	q.cfg.Inline = func(st *St, f *ssa.Function) bool {
		return f.Pkg != nil && f.Blocks != nil && f.Pkg.Pkg.Path() == modPath
	}
	var str *T
	for i, p := range fn.Params {
		if isString(p.Type()) {
			str = x.paramT(fn, i)
		}
	}
	if str == nil || fn.Signature.Results().Len() != 1 || !isBool(fn.Signature.Results().At(0).Type()) {
		c.R.Fail("anchor", name, pos, "takes no string or gives no answer")
		return
	}
	const kw, ks = "B:words compared", "B:string compared"
	q.cfg.Prep = func(st *St) {
		st.data[kw], st.data[ks], st.data["compared"] = seq(nil), seq(nil), 0
	}
	ofStr := func(s seq) bool {
		for _, k := range s {
			if k.base != str {
				return false
			}
		}
		return len(s) > 0
	}
	// sides of a comparison: the part of the words, the part of the string
	sides := func(st *St, t *T) (w, s seq, prefix, ok bool) {
		var a, b *T
		switch {
		case t.op == "==" && len(t.a) == 2 && (isUnit(t.a[0].typ) || isBytesOrString(t.a[0].typ) || isBytesOrString(t.a[1].typ)):
			a, b = t.a[0], t.a[1]
		case t.isCall("bytes.Equal") && len(t.a) == 2:
			a, b = t.a[0], t.a[1]
		case (t.isCall("strings.HasPrefix") || t.isCall("bytes.HasPrefix")) && len(t.a) == 2:
			a, b, prefix = t.a[0], t.a[1], true
		default:
			return
		}
		s, w = q.flat(st, a), q.flat(st, b)
		if !ofStr(s) {
			if prefix {
				return
			}
			s, w = w, s
		}
		if !ofStr(s) {
			return
		}
		if prefix {
			// as much of the string as the words are long
			n, known := q.seqLen(st, w)
			if !known || len(s) != 1 {
				return
			}
			s = seq{{base: str, lo: s[0].lo, hi: s[0].lo.addk(n, 1)}}
		}
		return w, s, prefix, true
	}
	note := func(st *St) {
		n, _ := st.data["compared"].(int)
		for _, l := range st.lits[n:] {
			if !l.pol {
				continue
			}
			if w, s, _, ok := sides(st, l.t); ok {
				o, _ := st.data[kw].(seq)
				p, _ := st.data[ks].(seq)
				st.data[kw] = append(append(seq(nil), o...), w...)
				st.data[ks] = append(append(seq(nil), p...), s...)
			}
		}
		st.data["compared"] = len(st.lits)
	}
	q.cfg.Note = note
	q.bounds("stays-inside", name)
	q.cfg.Copied = func(st *St, in ssa.Instruction, why string) {
		c.R.Check(why == "", "texts-follow-each-other", name, c.Pos(in.Pos()), why)
	}
	answer := func(st *St, list *T, v bool) {
		note(st)
		total := q.flen(st, list, x.lin(x.lenOf(list)))
		n := x.lenOf(str)
		path := "; the path: " + clip(litStrings(st.lits))
		if v {
			w, _ := st.data[kw].(seq)
			s, _ := st.data[ks].(seq)
			why := ""
			switch {
			case !q.Same(st, w, q.whole(list)):
				why = "the words compared are " + clip(q.norm(st, w).String()) + ", not all of them"
			case !q.Same(st, s, q.whole(str)):
				why = "what is compared of the string is " + clip(q.norm(st, s).String()) + ", not all of it"
			}
			c.R.Check(why == "", "equal-only-when-all-is", name, pos, why+path)
			return
		}
		// a reason
		d := x.lin(total).addk(x.lin(n), -1)
		d.c--
		e := x.lin(n).addk(x.lin(total), -1)
		e.c--
		ok := st.proves(d) || st.proves(e)
		for _, l := range st.lits {
			if ok || l.pol {
				continue
			}
			if l.t.op == "==" && len(l.t.a) == 2 && (isInt(l.t.a[0].typ) || isInt(l.t.a[1].typ)) {
				if st.eqI(l.t.a[0], total) && st.eqI(l.t.a[1], n) || st.eqI(l.t.a[1], total) && st.eqI(l.t.a[0], n) {
					ok = true
				}
			}
			w, s, _, is := sides(st, l.t)
			if !is || len(w) == 0 || len(s) != 1 {
				continue
			}
			if q.Same(st, w, q.whole(list)) && q.Same(st, s, q.whole(str)) {
				ok = true
				continue
			}
			// the same place
			if k := w[0]; k.base != nil {
				var at lin
				switch {
				case k.base == list:
					at = x.lin(q.flen(st, list, k.lo))
				case k.base.op == "load" && k.base.a[0].op == "&index":
					b, i := q.listOf(k.base.a[0].a[0], x.lin(k.base.a[0].a[1]))
					if b != list {
						continue
					}
					at = x.lin(q.flen(st, list, i)).addk(k.lo, 1)
				default:
					continue
				}
				nw, known := q.seqLen(st, w)
				ns, _ := q.seqLen(st, s)
				ok = q.eqL(st, at, s[0].lo) && known && q.eqL(st, nw, ns)
			}
		}
		c.R.Check(ok, "different-only-for-a-reason", name, pos, "false is returned although neither a different byte at the same place nor a different length is known"+path)
	}
	q.cfg.Hooks.Ret = func(st *St, res []*T) {
		list := c.wordsOf(x, st, fn)
		if list == nil {
			c.R.Fail("anchor", name, pos, "no words")
			return
		}
		if v, ok := res[0].boolVal(); ok {
			answer(st, list, v)
			return
		}
		if v, ok := st.truth(res[0]); ok {
			answer(st, list, v)
			return
		}
		for _, v := range []bool{true, false} {
			s := st.clone()
			if s.assume(res[0], v) {
				answer(s, list, v)
			}
		}
	}
	if !q.Run() {
		c.R.Fail("analysed", name, pos, "too many paths")
		return
	}
	q.ends("ends")
	c.R.Unit("functions", 1)
	c.R.Unit("paths", x.Paths)
}
