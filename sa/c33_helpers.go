package main

import (
	"regexp/syntax"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C33", checkHelpers) }

// flatten: the parts of what is added, in order.
func flatten(ts []*T) (o []*T) {
	for _, t := range ts {
		if t.op == "cat" {
			o = append(o, flatten(t.a)...)
			continue
		}
		if s, ok := t.strVal(); ok && s == "" {
			continue
		}
		o = append(o, t)
	}
	return
}

// lastOne and firstOne: the element is the last, or the first, of its list.
func (f *flt) lastOne(st *St, e elem) tri {
	return f.at(st, e.i.addk(f.x.lin(f.x.lenOf(e.list)), -1).addk(linC(1), 1))
}

func (f *flt) firstOne(st *St, e elem) tri { return f.at(st, e.i) }

// at: what the path knows about the sum being zero.
func (f *flt) at(st *St, d lin) tri {
	if st.proves(d) && st.proves(linC(0).addk(d, -1)) {
		return 1
	}
	if st.proves(d.addk(linC(1), -1)) || st.proves(linC(-1).addk(d, -1)) {
		return -1
	}
	for _, l := range st.lits {
		if l.t.op != "==" || len(l.t.a) != 2 || l.t.a[1].isNil() {
			continue
		}
		u := f.x.lin(l.t.a[0]).addk(f.x.lin(l.t.a[1]), -1)
		a, b := u.addk(d, -1), u.addk(d, 1)
		if len(a.k) == 0 && a.c == 0 || len(b.k) == 0 && b.c == 0 {
			return polTri(l.pol)
		}
	}
	return 0
}

func checkHelpers(c *Ctx) {
	c.R.Rule = "The helpers that filter or join texts are evaluated path by path. A pass must walk the text or list from the first element to the last; what each round adds must be what the helper says for this element: FilterEmoji keeps the characters of at most three bytes, FilterLang the letters and those of the script, RangeText adds a space to each, CutStr and PosStr put the separator between the elements and nowhere else. The expression of SplitNum has two alternatives whose classes share no character and together have all of them, and all matches are returned; a match of the expression of FilterHtml begins with < and ends at the first >. IsJp is true exactly when a character is Hiragana or Katakana."
	c.R.Assume = append(c.R.Assume, "Packages unicode, utf8, strings and regexp are as documented.")
	fn := func(n string) *ssa.Function {
		f := c.Func(modPath, n)
		if f == nil {
			c.R.Fail("anchor", n, "", "not found")
		}
		return f
	}
	str := func(f *flt, e elem, t *T) bool { return t.op == "conv" && f.is(e, t.a[0], "") || f.is(e, t, "") }
	if g := fn("FilterEmoji"); g != nil {
		c.filter(g, keepSpec{out: str, why: "a character is kept if it takes at most three bytes", keep: func(f *flt, st *St, e elem, s func(*T) bool) tri {
			ch := func(t *T) bool { return str(f, e, stripConv(t)) || f.is(e, t, "") }
			for _, l := range st.lits {
				if len(l.t.a) != 2 || l.t.op != "<" && l.t.op != "==" {
					continue
				}
				for _, t := range l.t.a {
					max := int64(-1)
					cl, i := t.ext()
					switch {
					case cl != nil && i == 1 && (cl.isCall("unicode/utf8.DecodeRuneInString") || cl.isCall("unicode/utf8.DecodeRune") || cl.isCall("unicode/utf8.DecodeLastRuneInString")) && ch(cl.a[0]),
						t.isCall("unicode/utf8.RuneLen") && ch(t.a[0]),
						t.op == "len" && ch(t.a[0]):
						max = 3
					case f.is(e, t, ""):
						max = 0xFFFF
					}
					if max < 0 {
						continue
					}
					if st.le(t, f.x.tt.int(max)) {
						return 1
					}
					if st.ltI(f.x.tt.int(max), t) {
						return -1
					}
				}
			}
			return 0
		}})
	}
	if g := fn("FilterLang"); g != nil {
		c.filter(g, keepSpec{out: str, why: "a character is kept if it is a letter or belongs to the script", keep: func(f *flt, st *St, e elem, s func(*T) bool) tri {
			lang := f.x.paramT(g, 1)
			is := lit(st, func(t *T) bool {
				return (t.isCall("unicode.Is") || t.isCall("unicode.In")) && len(t.a) == 2 && scriptOf(t, lang) && itself(f, e, t)
			})
			return anyOf(lit(st, func(t *T) bool { return t.isCall("unicode.IsLetter") && f.is(e, t.a[0], "") }), is)
		}})
	}
	if g := fn("RangeText"); g != nil {
		c.filter(g, keepSpec{adds: func(f *flt, st *St, e elem, added []*T) string {
			if len(added) == 2 && str(f, e, added[0]) {
				if s, ok := added[1].strVal(); ok && s == " " {
					return ""
				}
			}
			return "what is added is not the character and a space"
		}})
	}
	c.separated("CutStr", func(f *flt, st *St, e elem, ts []*T) (rest []*T, ok bool) {
		if len(ts) > 0 && f.is(e, ts[0], "") {
			return ts[1:], true
		}
		return nil, false
	})
	c.separated("PosStr", func(f *flt, st *St, e elem, ts []*T) (rest []*T, ok bool) {
		if len(ts) == 0 || !f.is(e, ts[0], "Text") {
			return nil, false
		}
		skip := lit(st, func(t *T) bool { return t.op == "load" && t.a[0].op == "&field" && t.a[0].s == "SkipPos" })
		switch {
		case skip == 1:
			return ts[1:], true
		case skip == -1 && len(ts) >= 3 && f.is(e, ts[2], "Pos"):
			s, isc := ts[1].strVal()
			return ts[3:], isc && s == "/"
		case skip == -1 && len(ts) >= 2:
			// an empty tag
			s, isc := ts[1].strVal()
			return ts[2:], isc && s == "/" && full(st, func(t *T) bool { return f.is(e, t, "Pos") }) == -1
		}
		return nil, false
	})
	c.splitNum(fn("SplitNum"))
	if g := fn("SplitNums"); g != nil {
		x := newE3(c.World)
		x.Run(g, &Hooks{Inline: keepOut(modPath + ".SplitNum"), Ret: func(st *St, res []*T) {
			r := res[0]
			ok := r.isCall("strings.Join") && r.a[0].isCall(modPath+".SplitNum") && r.a[0].a[0] == x.paramT(g, 0)
			if ok {
				s, isc := r.a[1].strVal()
				ok = isc && s == " "
			}
			c.R.Check(ok, "split-at-numbers", short(g), c.Pos(g.Pos()), "not the parts of SplitNum joined by a space: "+clip(r.String()))
		}})
	}
	c.html(fn("FilterHtml"))
	c.isJp(fn("IsJp"))
	c.R.AtLeast("kept-and-dropped", 3)
	c.R.AtLeast("split-at-numbers", 2)
	c.R.AtLeast("only-tags-are-removed", 1)
	c.R.AtLeast("kana", 1)
}

func scriptOf(call, lang *T) bool {
	for _, t := range call.a {
		if t.op == "list" && len(t.a) == 1 {
			t = t.a[0]
		}
		if t.op == "lookup" && t.a[1] == lang && t.a[0].op == "load" && t.a[0].a[0].op == "global" && t.a[0].a[0].s == "unicode.Scripts" {
			return true
		}
		if t.op == "lookup" && t.a[1] == lang && t.a[0].String() == "unicode.Scripts" {
			return true
		}
	}
	return false
}

func itself(f *flt, e elem, call *T) bool {
	for _, t := range call.a {
		if f.is(e, t, "") {
			return true
		}
	}
	return false
}

// separated: the elements, as unit takes them, with the separator between them.
func (c *Ctx) separated(n string, unit func(f *flt, st *St, e elem, ts []*T) (rest []*T, ok bool)) {
	fn := c.Method(modPath, "Segmenter", n)
	if fn == nil {
		c.R.Fail("anchor", n, "", "not found")
		return
	}
	sepIdx := len(fn.Params) - 1
	isSep := func(f *flt, st *St, t *T) bool {
		p := f.x.paramT(fn, sepIdx)
		if s, ok := t.strVal(); ok {
			return s == " " && st.proves(linC(0).addk(f.x.lin(f.x.lenOf(p)), -1))
		}
		return t.op == "load" && t.a[0].op == "&index" && t.a[0].a[0] == p && isZero(t.a[0].a[1])
	}
	c.filter(fn, keepSpec{
		adds: func(f *flt, st *St, e elem, ts []*T) string {
			if e.list == nil {
				return "the list is not walked"
			}
			before, after := false, false
			if len(ts) > 0 && isSep(f, st, ts[0]) {
				before, ts = true, ts[1:]
			}
			rest, ok := unit(f, st, e, ts)
			if !ok {
				return "what is added is not the element"
			}
			if len(rest) > 0 && isSep(f, st, rest[0]) {
				after, rest = true, rest[1:]
			}
			switch {
			case len(rest) > 0:
				return "more than the element and the separator is added"
			case before && after:
				return "the separator is added twice"
			case before:
				if f.firstOne(st, e) != -1 {
					return "the separator may be added before the first element"
				}
			case after:
				if f.lastOne(st, e) != -1 {
					return "the separator may be added after the last element"
				}
			default:
				if f.firstOne(st, e) != 1 && f.lastOne(st, e) != 1 {
					return "the separator may be left out"
				}
			}
			return ""
		},
		done: func(f *flt, st *St, r *T) bool {
			return n == "CutStr" && r.isCall("strings.Join") && r.a[0] == f.x.paramT(fn, 1) && isSep(f, st, r.a[1])
		},
	})
}

func (c *Ctx) splitNum(fn *ssa.Function) {
	if fn == nil {
		return
	}
	const rule = "split-at-numbers"
	x := newE3(c.World)
	x.Run(fn, &Hooks{Ret: func(st *St, res []*T) {
		r := res[0]
		name, pos := short(fn), c.Pos(fn.Pos())
		if !r.isCall("(*regexp.Regexp).FindAllString") || r.a[1] != x.paramT(fn, 0) {
			c.R.Fail(rule, name, pos, "not the matches of an expression in the text: "+clip(r.String()))
			return
		}
		n, isc := r.a[2].intVal()
		c.R.Check(isc && n < 0, rule, name, pos, "not all matches are returned")
		re, why := c.parsed(x, r.a[0])
		if why == "" {
			why = partition(re)
		}
		c.R.Check(why == "", rule, name, pos, why)
	}})
}

// parsed: the expression behind a term.
func (c *Ctx) parsed(x *E3, t *T) (*syntax.Regexp, string) {
	if t.isCall("regexp.MustCompile") {
		s, isc := t.a[0].strVal()
		if !isc {
			return nil, "the expression is not constant: " + clip(t.String())
		}
		re, err := syntax.Parse(s, syntax.Perl)
		if err != nil {
			return nil, "the expression can not be parsed: " + err.Error()
		}
		return re, ""
	}
	r := &regexps{c: c, memo: map[string]*syntax.Regexp{}}
	if re := r.expr(t); re != nil {
		return re, ""
	}
	return nil, "the expression is not constant: " + clip(t.String())
}

// partition: two repeated classes, digits and the others, that share no character and have all of them.
func partition(re *syntax.Regexp) string {
	if re.Op != syntax.OpAlternate || len(re.Sub) != 2 {
		return "the expression has not two alternatives"
	}
	count := func(r rune) int {
		n := 0
		for _, s := range re.Sub {
			cl := s.Sub[0]
			switch cl.Op {
			case syntax.OpAnyChar:
				n++
			case syntax.OpAnyCharNotNL:
				if r != '\n' {
					n++
				}
			case syntax.OpCharClass:
				for i := 0; i+1 < len(cl.Rune); i += 2 {
					if cl.Rune[i] <= r && r <= cl.Rune[i+1] {
						n++
					}
				}
			}
		}
		return n
	}
	for _, s := range re.Sub {
		if s.Op != syntax.OpPlus || s.Flags&syntax.NonGreedy != 0 || len(s.Sub) != 1 {
			return "an alternative is not a class repeated as often as possible"
		}
	}
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if n := count(r); n != 1 {
			return "the alternatives do not divide the characters: " + string(r)
		}
	}
	digits := func(s *syntax.Regexp) bool {
		cl := s.Sub[0]
		return cl.Op == syntax.OpCharClass && len(cl.Rune) == 2 && cl.Rune[0] == '0' && cl.Rune[1] == '9'
	}
	if !digits(re.Sub[0]) && !digits(re.Sub[1]) {
		return "no alternative is that of the digits"
	}
	return ""
}

func (c *Ctx) html(fn *ssa.Function) {
	if fn == nil {
		return
	}
	const rule = "only-tags-are-removed"
	x := newE3(c.World)
	x.Run(fn, &Hooks{Ret: func(st *St, res []*T) {
		r := res[0]
		name, pos := short(fn), c.Pos(fn.Pos())
		if r == x.paramT(fn, 0) {
			// nothing to remove
			ok := lit(st, func(t *T) bool {
				return t.isCall("(*regexp.Regexp).MatchString") && t.a[1] == r || t.isCall("strings.Contains") && t.a[0] == r || t.isCall("strings.ContainsRune") && t.a[0] == r
			}) == -1 || full(st, func(t *T) bool { return t == r }) == -1
			c.R.Check(ok, rule, name, pos, "the text is returned as it is; the path: "+clip(litStrings(st.lits)))
			return
		}
		if !r.isCall("(*regexp.Regexp).ReplaceAllString") && !r.isCall("(*regexp.Regexp).ReplaceAllLiteralString") || r.a[1] != x.paramT(fn, 0) {
			c.R.Fail(rule, name, pos, "not the text with the matches of an expression removed: "+clip(r.String()))
			return
		}
		s, isc := r.a[2].strVal()
		c.R.Check(isc && s == "", rule, name, pos, "the matches are not removed")
		re, why := c.parsed(x, r.a[0])
		if why == "" {
			why = tagOnly(re)
		}
		c.R.Check(why == "", rule, name, pos, why)
	}})
}

// tagOnly: a match begins with <, ends with > and has no other >.
func tagOnly(re *syntax.Regexp) string {
	for re.Op == syntax.OpCapture {
		re = re.Sub[0]
	}
	if re.Op != syntax.OpConcat || len(re.Sub) < 2 {
		return "the expression is not a sequence"
	}
	lits := func(s *syntax.Regexp, r rune) bool {
		return s.Op == syntax.OpLiteral && len(s.Rune) == 1 && s.Rune[0] == r
	}
	if !lits(re.Sub[0], '<') || !lits(re.Sub[len(re.Sub)-1], '>') {
		return "a match does not begin with < or does not end with >"
	}
	for _, s := range re.Sub[1 : len(re.Sub)-1] {
		if canMatch(s, '>') {
			return "a match may go beyond the first >"
		}
	}
	return ""
}

// canMatch: the expression may match a text with the character.
func canMatch(re *syntax.Regexp, r rune) bool {
	switch re.Op {
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return true
	case syntax.OpLiteral:
		for _, c := range re.Rune {
			if c == r {
				return true
			}
		}
	case syntax.OpCharClass:
		for i := 0; i+1 < len(re.Rune); i += 2 {
			if re.Rune[i] <= r && r <= re.Rune[i+1] {
				return true
			}
		}
	}
	for _, s := range re.Sub {
		if canMatch(s, r) {
			return true
		}
	}
	return false
}

func only(h map[string]bool, ss ...string) bool {
	n := 0
	for _, s := range ss {
		if h[s] {
			n++
		}
	}
	return n == len(h)
}

func (c *Ctx) isJp(fn *ssa.Function) {
	if fn == nil {
		return
	}
	const rule = "kana"
	f := &flt{c: c, fn: fn, memo: map[string]bool{}}
	name, pos := short(fn), c.Pos(fn.Pos())
	script := func(a *T) string {
		{
			if a.op == "lookup" && a.a[0].String() == "unicode.Scripts" {
				s, _ := a.a[1].strVal()
				return s
			}
			for _, s := range []string{"Hiragana", "Katakana"} {
				if a.String() == "unicode."+s {
					return s
				}
			}
		}
		return ""
	}
	// tables: which of the two scripts a call asks for.
	tables := func(el elem, call *T) (hit map[string]bool) {
		hit = map[string]bool{}
		for _, a := range call.a {
			as := []*T{a}
			if a.op == "list" {
				as = a.a
			}
			for _, a := range as {
				if !f.is(el, a, "") {
					hit[script(a)] = true
				}
			}
		}
		return
	}
	kana := func(st *St, e elem) tri {
		var ts []tri
		asks := func(t *T) map[string]bool {
			if (t.isCall("unicode.Is") || t.isCall("unicode.In")) && len(t.a) == 2 && itself(f, e, t) {
				return tables(e, t)
			}
			return nil
		}
		for _, s := range []string{"Hiragana", "Katakana"} {
			s := s
			ts = append(ts, lit(st, func(t *T) bool { return asks(t)[s] }))
		}
		for _, l := range st.lits {
			if h := asks(l.t); l.pol && len(h) > 0 && only(h, "Hiragana", "Katakana") {
				return 1
			}
		}
		for _, t := range ts {
			if t != -1 {
				return 0
			}
		}
		return -1
	}
	for f.pass = 0; f.pass < 2; f.pass++ {
		x := newE3(c.World)
		f.x = x
		text := x.paramT(fn, 0)
		x.Run(fn, &Hooks{
			Inline: func(st *St, g *ssa.Function) bool { return true },
			Back: func(st *St, l *LoopI, next []*T) {
				f.steps(st, l, next, func(st *St, e elem) bool { return kana(st, e) == -1 })
			},
			Ret: func(st *St, res []*T) {
				if f.pass == 0 {
					return
				}
				v, known := res[0].boolVal()
				yes := func() bool {
					for _, e := range st.trace {
						if e.kind == "loop" {
							if el, ok := f.walks(st, e.loop); ok && (el.it != nil && rangeText(el.it) == text || el.list != nil && stripConv(el.list) == text) && kana(st, el) == 1 {
								return true
							}
						}
					}
					return false
				}
				no := func() bool {
					if st.proves(linC(0).addk(x.lin(x.lenOf(text)), -1)) {
						return true
					}
					for _, e := range st.trace {
						if e.kind != "exit" || f.memo["not all "+e.loop.id] || !f.memo["seen "+e.loop.id] {
							continue
						}
						if el, ok := f.walks(st, e.loop); ok && f.exhausted(st, e.loop) && (el.it != nil && rangeText(el.it) == text || el.list != nil && stripConv(el.list) == text) {
							return true
						}
					}
					return false
				}
				c.R.Check(known && (v && yes() || !v && no()), rule, name, pos, "the answer is not whether a character is Hiragana or Katakana; the path: "+clip(litStrings(st.lits)))
			},
		})
		c.R.Unit("paths", x.Paths)
	}
}
