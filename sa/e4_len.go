package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Lengths of texts: with cfg.Len the length of the first e texts of a list is a quantity of its own, the length of
// what an accumulator holds follows from the invariants, and buffers filled with copy are accumulators too.

// lenArg stands for a linear expression.
func (q *E4) lenArg(l lin) *T {
	if len(l.k) == 1 && l.c == 0 {
		for v, k := range l.k {
			if k == 1 {
				return v
			}
		}
	}
	if len(l.k) == 0 {
		return q.x.tt.int(l.c)
	}
	a := q.x.tt.mk("linarg", l.key()+"+"+fmtInt(int(l.c)), types.Typ[types.Int])
	if q.args == nil {
		q.args = map[*T]lin{}
	}
	q.args[a] = l
	return a
}

// listOf: a list of texts and the index in it, slices removed.
func (q *E4) listOf(b *T, i lin) (*T, lin) {
	for b.op == "slice" && b.a[0].op != "alloc" {
		if !b.a[1].isNil() {
			i = i.addk(q.x.lin(b.a[1]), 1)
		}
		b = b.a[0]
	}
	return b, i
}

func (q *E4) listElem(list *T) types.Type { return list.typ.Underlying().(*types.Slice).Elem() }

// flen is the length of the first e texts of a list.
func (q *E4) flen(st *St, list *T, e lin) *T {
	a := q.x.indexAddr(list, q.x.tt.int(0), types.NewPointer(q.listElem(list)))
	return q.x.tt.mk("flen", st.ver[st.cls(a)], types.Typ[types.Int], list, q.lenArg(e))
}

// isWords: a list whose elements are byte texts.
func isWords(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	return ok && isBytesOrString(s.Elem())
}

// seqLen is the length of a text in bytes.
func (q *E4) seqLen(st *St, s seq) (lin, bool) {
	o := linC(0)
	for _, c := range s {
		switch {
		case c.base != nil && isWords(c.base.typ):
			o = o.addk(lin{map[*T]int64{q.flen(st, c.base, c.hi): 1}, 0}, 1)
			o = o.addk(lin{map[*T]int64{q.flen(st, c.base, c.lo): 1}, 0}, -1)
		case c.base != nil && isBytesOrString(c.base.typ):
			o = o.addk(c.hi, 1).addk(c.lo, -1)
		case c.one != nil:
			if b, ok := c.one.typ.Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
				return o, false
			}
			o.c++
		case c.base == nil:
			o.c += int64(len(c.lit))
		default:
			return o, false
		}
	}
	return o, true
}

// plain: a literal or a plain fact of the path says that the quantity is not negative.
func (q *E4) plain(st *St, e lin) bool {
	x := q.x
	if len(e.k) == 0 {
		return e.c >= 0
	}
	is := func(d lin) bool {
		r := e.addk(d, -1)
		return len(r.k) == 0 && r.c >= 0
	}
	var base []lin
	for t := range e.k {
		base = append(base, x.baseFacts(t)...)
	}
	for _, l := range st.lits {
		if l.t.op != "<" && l.t.op != "==" || len(l.t.a) != 2 || !isInt(l.t.a[0].typ) && !isInt(l.t.a[1].typ) {
			continue
		}
		d := x.lin(l.t.a[1]).addk(x.lin(l.t.a[0]), -1)
		if l.t.op == "==" {
			if l.pol {
				base = append(base, d, linC(0).addk(d, -1))
			}
			continue
		}
		d.c--
		if !l.pol {
			d = linC(-1).addk(d, -1)
		}
		base = append(base, d)
	}
	base = append(base, st.facts...)
	for _, d := range base {
		if is(d) {
			return true
		}
	}
	if len(e.k) == 1 {
		// 0, 1 .. are ruled out one after the other
		for t, k := range e.k {
			if k != 1 || t.op != "len" {
				break
			}
			low := int64(0)
			for ch := true; ch; {
				ch = false
				for _, l := range st.lits {
					if l.t.op != "==" || l.pol || len(l.t.a) != 2 {
						continue
					}
					d := x.lin(l.t.a[1]).addk(x.lin(l.t.a[0]), -1)
					if len(d.k) == 1 && (d.k[t] == 1 && d.c == -low || d.k[t] == -1 && d.c == low) {
						low++
						ch = true
					}
				}
			}
			if e.c+low >= 0 {
				return true
			}
		}
	}
	// two of them together
	var near []lin
	for _, d := range base {
		for t := range d.k {
			if e.k[t] != 0 && len(d.k) <= 3 {
				near = append(near, d)
				break
			}
		}
	}
	if len(near) > 60 {
		near = near[:60]
	}
	for i, d := range near {
		for _, f := range near[i:] {
			if is(d.addk(f, 1)) {
				return true
			}
		}
	}
	return false
}

// lenFacts are facts about lengths.
func (q *E4) lenFacts(st *St, u *T) []lin {
	x := q.x
	v := lin{map[*T]int64{u: 1}, 0}
	eq := func(o []lin, w lin) []lin {
		d := v.addk(w, -1)
		return append(o, d, linC(0).addk(d, -1))
	}
	switch u.op {
	case "flen":
		o := []lin{v}
		list, e := u.a[0], x.lin(u.a[1])
		if l, ok := q.args[u.a[1]]; ok {
			e = l
		}
		if q.plain(st, linC(0).addk(e, -1)) {
			o = append(o, linC(0).addk(v, -1)) // nothing
		}
		n := x.lin(x.lenOf(list))
		t := x.tt.mk("flen", u.s, u.typ, list, q.lenArg(n))
		if t != u {
			d := n.addk(e, -1)
			if q.plain(st, d) {
				o = append(o, lin{map[*T]int64{t: 1}, 0}.addk(v, -1))
				if q.plain(st, linC(0).addk(d, -1)) {
					return eq(o, lin{map[*T]int64{t: 1}, 0})
				}
				if e.c < 8 && q.plain(st, e) {
					d.c--
					if q.plain(st, d) {
						// one more
						m := e.clone()
						m.c++
						a := x.tt.mk("flen", u.s, u.typ, list, q.lenArg(m))
						p := x.indexAddr(list, q.linT(e), types.NewPointer(q.listElem(list)))
						w := lin{map[*T]int64{a: 1}, 0}.addk(x.lin(x.lenOf(x.loadT(st, p, q.listElem(list)))), -1)
						o = eq(o, w)
					}
				}
			}
		}
		return o
	case "len":
		a := u.a[0]
		var o []lin
		if a.op == "load" && a.a[0].op == "&index" && a.a[0].a[0].op == "slice" && isWords(a.a[0].a[0].typ) {
			// an element of a part of a list
			b, i := q.listOf(a.a[0].a[0], x.lin(a.a[0].a[1]))
			if b.op != "slice" {
				p := x.indexAddr(b, q.linT(i), types.NewPointer(q.listElem(b)))
				o = eq(o, x.lin(x.lenOf(x.loadT(st, p, q.listElem(b)))))
			}
		}
		if q.noLen {
			return o
		}
		for _, r := range rulesOf(st) {
			hit, all := false, true
			sum := linC(0)
			for _, c := range r.accs {
				if c[0].base == a {
					hit = true
				}
				if !isBytesOrString(c[0].base.typ) {
					all = false
				}
				sum = sum.addk(x.lin(x.lenOf(c[0].base)), 1)
			}
			if !hit || !all {
				continue
			}
			for _, c := range r.cond {
				if v, known := q.truth(st, c.t); !known || v != c.pol {
					all = false
				}
			}
			if !all {
				continue
			}
			if n, ok := q.seqLen(st, r.rhs); ok {
				d := sum.addk(n, -1)
				o = append(o, d, linC(0).addk(d, -1))
			}
		}
		return o
	}
	return nil
}

// linT is a term with the value of a linear expression.
func (q *E4) linT(l lin) *T {
	x := q.x
	ts := make([]*T, 0, len(l.k))
	for t := range l.k {
		ts = append(ts, t)
	}
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
	var o *T
	for _, t := range ts {
		k := l.k[t]
		if k < 0 && o == nil {
			o = x.tt.int(0)
		}
		for ; k > 0; k-- {
			if o == nil {
				o = t
			} else {
				o = x.arith("+", o, t, types.Typ[types.Int])
			}
		}
		for ; k < 0; k++ {
			o = x.arith("-", o, t, types.Typ[types.Int])
		}
	}
	if o == nil {
		return x.tt.int(l.c)
	}
	if l.c != 0 {
		o = x.arith("+", o, x.tt.int(l.c), types.Typ[types.Int])
	}
	return o
}

func bufKey(b *T) string {
	if b.op == "mkslice" && isBytesOrString(b.typ) {
		if n, ok := b.a[0].intVal(); !ok || n != 0 {
			return "B:m" + fmtInt(b.id)
		}
	}
	return ""
}

// buffers that can be filled in a loop
func (q *E4) lenBuffers(st *St) {
	for f := st.fr; f != nil; f = f.up {
		for _, t := range f.env {
			for t.op == "slice" {
				t = t.a[0]
			}
			if k := bufKey(t); k != "" {
				if _, ok := st.data[k]; !ok {
					st.data[k] = seq(nil)
				}
			}
		}
	}
}

// copied: copy into a buffer adds to its contents.
func (q *E4) copied(st *St, in ssa.Instruction, dst, src *T) *T {
	b, off := dst, linC(0)
	for b.op == "slice" {
		if !b.a[1].isNil() {
			off = off.addk(q.x.lin(b.a[1]), 1)
		}
		b = b.a[0]
	}
	k := bufKey(b)
	if k == "" {
		return nil
	}
	s, _ := st.data[k].(seq)
	add := q.flat(st, src)
	if q.final && q.cfg.Copied != nil {
		n, ok := q.seqLen(st, s)
		why := ""
		switch {
		case !ok:
			why = "how much the buffer holds is not known"
		case !q.eqL(st, n, off):
			why = "the next text is put at " + clip(linString(off)) + ", the buffer holds " + clip(linString(n)) + " bytes"
		case !q.fits(st, src, dst):
			why = "there may be no room for the next text"
		}
		q.cfg.Copied(st, in, why)
	}
	st.data[k] = append(append(seq(nil), s...), add...)
	return q.x.lenOf(src)
}

// filled is the contents of a buffer that is full.
func (q *E4) filled(st *St, t *T) (seq, bool) {
	k := bufKey(t)
	if k == "" {
		return nil, false
	}
	s, ok := st.data[k].(seq)
	if !ok {
		return nil, false
	}
	n, ok := q.seqLen(st, s)
	if !ok || !q.eqL(st, n, q.x.lin(x0(t))) {
		return nil, false
	}
	return s, true
}

func x0(t *T) *T { return t.a[0] }

// fits: the text is not longer than the place for it.
func (q *E4) fits(st *St, src, dst *T) bool {
	x := q.x
	n := x.lin(x.lenOf(src))
	goal := x.lin(x.lenOf(dst)).addk(n, -1)
	m, ok := q.seqLen(st, q.flat(st, src))
	if !ok {
		return st.proves(goal)
	}
	d := m.addk(n, -1)
	return st.proves(goal, d, linC(0).addk(d, -1))
}
