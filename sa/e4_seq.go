package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Texts as concatenations of pieces of other texts.

// chunk is elements lo..hi of base, a constant (lit), or one element given by a term (one).
type chunk struct {
	base   *T
	lo, hi lin
	lit    string
	one    *T
}

type seq []chunk

func (s seq) String() string {
	var o []string
	for _, c := range s {
		switch {
		case c.base != nil:
			o = append(o, fmt.Sprintf("%s[%s:%s]", c.base, linString(c.lo), linString(c.hi)))
		case c.one != nil:
			o = append(o, "{"+c.one.String()+"}")
		default:
			o = append(o, fmt.Sprintf("%q", c.lit))
		}
	}
	if len(o) == 0 {
		return "nothing"
	}
	return strings.Join(o, " + ")
}

func linString(l lin) string {
	var o []string
	for t, k := range l.k {
		s := t.String()
		if k != 1 {
			s = fmt.Sprintf("%d*%s", k, s)
		}
		o = append(o, s)
	}
	if len(o) > 1 {
		sortStrings(o)
	}
	if l.c != 0 || len(o) == 0 {
		o = append(o, fmt.Sprint(l.c))
	}
	return strings.Join(o, "+")
}

// textField is the field of a struct that holds its text.
func textField(t types.Type) int {
	if t == nil {
		return -1
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Text" && isString(s.Field(i).Type()) {
			return i
		}
	}
	return -1
}

// isSeq: the type is a text or a list of texts.
func isSeq(t types.Type) bool {
	if t == nil {
		return false
	}
	if isBytesOrString(t) || isRunes(t) {
		return true
	}
	return isTextList(t)
}

// isTextList: a list whose elements are texts.
func isTextList(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	return isBytesOrString(s.Elem()) || textField(s.Elem()) >= 0
}

// isUnit: a byte or a rune.
func isUnit(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int32 || b.Kind() == types.UntypedRune)
}

// stripUnits removes conversions that keep the elements.
func stripUnits(t *T) *T {
	for t.op == "conv" && t.a[0].typ != nil && isBytesOrString(t.typ) && isBytesOrString(t.a[0].typ) {
		t = t.a[0]
	}
	return t
}

// whole is all of a sequence.
func (q *E4) whole(t *T) seq {
	return seq{{base: t, lo: linC(0), hi: q.x.lin(q.x.lenOf(t))}}
}

// flat is the text of a value: for a list of texts, their concatenation.
func (q *E4) flat(st *St, t *T) seq {
	x := q.x
	if s, ok := q.built[t]; ok {
		return s
	}
	if q.cfg.Flat != nil {
		if s, ok := q.cfg.Flat(st, t); ok {
			return s
		}
	}
	switch t.op {
	case "const":
		if s, ok := t.strVal(); ok {
			if s == "" {
				return nil
			}
			return seq{{lit: s}}
		}
	case "nil":
		return nil
	case "list":
		var o seq
		for _, e := range t.a {
			o = append(o, q.flat(st, e)...)
		}
		return o
	case "append", "cat":
		return append(append(seq(nil), q.flat(st, t.a[0])...), q.flat(st, t.a[1])...)
	case "mkslice":
		if n, ok := t.a[0].intVal(); ok && n == 0 {
			return nil
		}
		if q.cfg.Len {
			if s, ok := q.filled(st, t); ok {
				return s
			}
		}
	case "slice":
		if t.a[0].op == "alloc" {
			if es, ok := x.explicit(st, t); ok {
				var o seq
				for _, e := range es {
					o = append(o, q.flat(st, e)...)
				}
				return o
			}
			break
		}
		b := stripUnits(t.a[0])
		lo, hi := linC(0), lin{}
		if !t.a[1].isNil() {
			lo = x.lin(t.a[1])
		}
		if t.a[2].isNil() {
			hi = x.lin(x.lenOf(b))
		} else {
			hi = x.lin(t.a[2])
		}
		for b.op == "slice" && b.a[0].op != "alloc" {
			if !b.a[1].isNil() {
				o := x.lin(b.a[1])
				lo, hi = lo.addk(o, 1), hi.addk(o, 1)
			}
			b = stripUnits(b.a[0])
		}
		// the empty slice of anything
		if len(lo.k) == 0 && len(hi.k) == 0 && lo.c == hi.c {
			return nil
		}
		return seq{{base: b, lo: lo, hi: hi}}
	case "conv":
		a := t.a[0]
		switch {
		case isSeq(a.typ):
			return q.flat(st, a)
		case isString(t.typ) && isUnit(a.typ):
			return q.flat(st, a)
		case isUnit(t.typ) && isUnit(a.typ):
			return q.flat(st, a)
		}
	case "load":
		if t.a[0].op == "&index" && (isUnit(t.typ) || isSeq(t.typ) || textField(t.typ) >= 0) {
			b, i := stripUnits(t.a[0].a[0]), x.lin(t.a[0].a[1])
			for b.op == "slice" && b.a[0].op != "alloc" {
				if !b.a[1].isNil() {
					i = i.addk(x.lin(b.a[1]), 1)
				}
				b = stripUnits(b.a[0])
			}
			if isUnit(t.typ) != isTextList(b.typ) {
				return seq{{base: b, lo: i, hi: i.addk(linC(1), 1)}}
			}
		}
		if t.a[0].op == "&field" && t.a[0].s == "Text" && t.a[0].a[0].op == "&index" {
			// the text of an element
			b, i := t.a[0].a[0].a[0], x.lin(t.a[0].a[0].a[1])
			if isTextList(b.typ) {
				return seq{{base: b, lo: i, hi: i.addk(linC(1), 1)}}
			}
		}
	case "byteat":
		if isUnit(t.typ) {
			i := x.lin(t.a[1])
			return seq{{base: stripUnits(t.a[0]), lo: i, hi: i.addk(linC(1), 1)}}
		}
	case "struct":
		if i := textField(t.typ); i >= 0 {
			return q.flat(st, t.a[i])
		}
	case "itval":
		if it := t.a[0]; it.op == "range" && it.a[0].typ != nil && isString(it.a[0].typ) {
			if g, ok := st.data["pos:"+it.s].(*T); ok {
				lo := x.lin(g)
				return seq{{base: stripUnits(it.a[0]), lo: lo, hi: lo.addk(x.lin(q.runeLen(it, g)), 1)}}
			}
		}
	}
	if isUnit(t.typ) {
		return seq{{one: t}}
	}
	return q.whole(t)
}

// runeLen is the length of the rune at the position of an iterator.
func (q *E4) runeLen(it, g *T) *T {
	return q.x.tt.mk("runelen", "", types.Typ[types.Int], it, g)
}

func (q *E4) eqL(st *St, a, b lin) bool {
	d := a.addk(b, -1)
	if len(d.k) == 0 {
		return d.c == 0
	}
	cls, _ := st.data["clins"].([]*clin)
	k := eqKey{st, len(st.lits), len(st.facts), len(st.trace), len(cls), len(rulesOf(st)), q.noLen, d.key() + "+" + fmtInt(int(d.c))}
	if v, ok := q.eqs[k]; ok {
		return v
	}
	v := st.proves(d) && st.proves(linC(0).addk(d, -1))
	if q.eqs == nil || len(q.eqs) > 5000 {
		q.eqs = map[eqKey]bool{}
	}
	q.eqs[k] = v
	return v
}

// eqKey: equations already decided.
type eqKey struct {
	st                               *St
	lits, facts, trace, clins, rules int
	noLen                            bool
	d                                string
}

// norm joins neighbours, drops what is empty and replaces a whole text by what it is made of.
func (q *E4) norm(st *St, s seq) seq {
	s = append(seq(nil), s...)
	for n := 0; n < 200; n++ {
		changed := false
		var o seq
		for _, c := range s {
			if c.base == nil && c.one == nil && c.lit == "" {
				changed = true
				continue
			}
			if c.base != nil && q.eqL(st, c.lo, c.hi) {
				changed = true
				continue
			}
			if c.base != nil && isTextList(c.base.typ) {
				if d, ok := q.dropEmpty(st, c); ok {
					c = d
					changed = true
				}
			}
			if len(o) > 0 {
				p := &o[len(o)-1]
				if p.base != nil && p.base == c.base && q.eqL(st, p.hi, c.lo) {
					p.hi = c.hi
					changed = true
					continue
				}
				if p.base == nil && p.one == nil && c.base == nil && c.one == nil {
					p.lit += c.lit
					changed = true
					continue
				}
			}
			if c.base != nil {
				if f := q.flat(st, c.base); !(len(f) == 1 && f[0].base == c.base) {
					if q.eqL(st, c.lo, linC(0)) && q.eqL(st, c.hi, q.x.lin(q.x.lenOf(c.base))) {
						o = append(o, f...)
						changed = true
						continue
					}
				}
			}
			o = append(o, c)
		}
		s = o
		if !changed {
			break
		}
	}
	return s
}

// dropEmpty leaves out an element of a list, at the end of the chunk, that the path knows to be empty.
func (q *E4) dropEmpty(st *St, c chunk) (chunk, bool) {
	for _, l := range st.lits {
		if l.t.op != "==" && l.t.op != "<" || len(l.t.a) != 2 {
			continue
		}
		for _, a := range l.t.a {
			if a.op == "len" {
				a = a.a[0]
			}
			if a.op != "load" || a.a[0].op != "&index" || a.a[0].a[0] != c.base {
				continue
			}
			empty := st.eqI(q.x.lenOf(a), q.x.tt.int(0))
			if !empty && l.pol && l.t.op == "==" {
				for _, b := range l.t.a {
					if s, ok := b.strVal(); ok && s == "" {
						empty = true
					}
				}
			}
			if !empty {
				continue
			}
			i := q.x.lin(a.a[0].a[1])
			i1 := i.clone()
			i1.c++
			if q.eqL(st, i1, c.hi) {
				c.hi = i
				return c, true
			}
			if q.eqL(st, i, c.lo) {
				c.lo = i1
				return c, true
			}
		}
	}
	return c, false
}

func (q *E4) equal(st *St, a, b seq) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		c, d := a[i], b[i]
		switch {
		case c.base != nil:
			if c.base != d.base || !q.eqL(st, c.lo, d.lo) || !q.eqL(st, c.hi, d.hi) {
				return false
			}
		case c.one != nil:
			if c.one != d.one {
				return false
			}
		default:
			if d.base != nil || d.one != nil || c.lit != d.lit {
				return false
			}
		}
	}
	return true
}

// rule: the concatenation of the accumulators is rhs.
type rule struct {
	accs []seq // each a whole
	rhs  seq
	cond []Lit
	name string
}

func rulesOf(st *St) []*rule {
	r, _ := st.data["rules"].([]*rule)
	return r
}

// key tells texts apart that print alike.
func (s seq) key() string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c.base != nil:
			fmt.Fprintf(&b, "%d[%s+%d:%s+%d]", c.base.id, c.lo.key(), c.lo.c, c.hi.key(), c.hi.c)
		case c.one != nil:
			fmt.Fprintf(&b, "'%d'", c.one.id)
		default:
			fmt.Fprintf(&b, "%q", c.lit)
		}
	}
	return b.String()
}

// same proves that two texts are equal, using the rules.
func (q *E4) same(st *St, a, b seq) bool {
	b = q.norm(st, b)
	budget := 400
	seen := map[string]bool{}
	var try func(a, b seq, d int) bool
	try = func(a, b seq, d int) bool {
		a = q.norm(st, a)
		if q.equal(st, a, b) {
			return true
		}
		k := a.key() + " = " + b.key()
		if seen[k] || d > 8 {
			return false
		}
		seen[k] = true
		for _, r := range rulesOf(st) {
			ok := true
			for _, c := range r.cond {
				if v, known := q.truth(st, c.t); !known || v != c.pol {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			for i := range a {
				n := q.match(st, a, i, r)
				if n <= 0 {
					continue
				}
				if budget--; budget < 0 {
					return false
				}
				o := append(append(append(seq(nil), a[:i]...), r.rhs...), a[i+n:]...)
				if try(o, b, d+1) {
					return true
				}
			}
		}
		return false
	}
	if try(a, b, 0) {
		return true
	}
	// the other side may have to be rewritten first
	for _, r := range rulesOf(st) {
		ok := true
		for _, c := range r.cond {
			if v, known := q.truth(st, c.t); !known || v != c.pol {
				ok = false
			}
		}
		if !ok {
			continue
		}
		for i := range b {
			if n := q.match(st, b, i, r); n > 0 {
				o := append(append(append(seq(nil), b[:i]...), r.rhs...), b[i+n:]...)
				if try(a, q.norm(st, o), 1) {
					return true
				}
			}
		}
	}
	return false
}

// Same proves that two texts are equal, also by cases of the conditions of the rules.
func (q *E4) Same(st *St, a, b seq) bool {
	if q.same(st, a, b) {
		return true
	}
	seen := map[*T]bool{}
	var atoms []*T
	for _, r := range rulesOf(st) {
		for _, c := range r.cond {
			if _, known := q.truth(st, c.t); !known && !seen[c.t] {
				seen[c.t] = true
				atoms = append(atoms, c.t)
			}
		}
	}
	if len(atoms) == 0 || len(atoms) > 8 {
		return false
	}
	var split func(st *St, i, left int) bool
	split = func(st *St, i, left int) bool {
		if q.same(st, a, b) {
			return true
		}
		if left == 0 {
			return false
		}
		for ; i < len(atoms); i++ {
			ok := true
			for _, v := range []bool{true, false} {
				s := st.clone()
				if s.assume(atoms[i], v) && !split(s, i+1, left-1) {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
		}
		return false
	}
	return split(st, 0, 2)
}

// match: the accumulators of the rule stand at position i; it returns how many pieces they take.
func (q *E4) match(st *St, a seq, i int, r *rule) int {
	n := 0
	for _, acc := range r.accs {
		c := acc[0]
		if i+n < len(a) && a[i+n].base == c.base && c.base != nil && q.eqL(st, a[i+n].lo, c.lo) && q.eqL(st, a[i+n].hi, c.hi) {
			n++
			continue
		}
		if q.eqL(st, c.lo, c.hi) {
			continue
		}
		return -1
	}
	return n
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// builder methods that add text to their receiver
func builderWrite(name string) bool {
	switch name {
	case "(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).Write",
		"(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune", "(*bytes.Buffer).Write":
		return true
	}
	return false
}

func isBuilderName(name string) bool {
	return strings.HasPrefix(name, "(*strings.Builder).") || strings.HasPrefix(name, "(*bytes.Buffer).")
}

var _ = ssa.NaiveForm
