package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C36", checkWeights) }

// weights looks at how keywords are counted and weighted.
type weights struct {
	c *Ctx
	x *E3
	f *flt
}

func checkWeights(c *Ctx) {
	c.R.Rule = "The keyword functions are evaluated path by path with their loops. ExtractTags: the words counted are those of the cut of the text with the model; of each, without the white space around it, exactly one more is counted on the paths where it has two characters or more and is no stop word, and nothing on the others; the total adds up all counts; the weight of every keyword is its count by the total, once, by its inverse document frequency if the table has one for the same word (a frequency of 0 is that of a word that only begins others), and by the median of the table otherwise. TextRankWithPOS: for every word with an allowed tag each of the four words after it is looked at, and counted with it, once, exactly if its tag is allowed; a pair is put in the list of pairs when it is first counted; every pair of the list becomes one edge with its count. An edge is stored at both its ends with its weight, and an end is put in the list of words exactly when it is new."
	c.R.Assume = append(c.R.Assume, "strings.TrimSpace and package utf8 are as documented.", "The lookups are decided in C13, the stop words in C32, the lists in C23.")
	c.tagWeights()
	c.rankPairs()
	c.rankEdges()
	c.rankDefault()
	c.R.AtLeast("counted-once", 1)
	c.R.AtLeast("weight", 1)
	c.R.AtLeast("pair-counted", 1)
	c.R.AtLeast("window", 1)
	c.R.AtLeast("edges", 1)
	c.R.AtLeast("both-ends", 1)
	c.R.AtLeast("default-tags", 1)
}

func inIdf(st *St, fn *ssa.Function) bool {
	return fn.Pkg != nil && fn.Pkg.Pkg.Path() == modPath+"/hmm/idf" && !isAPI(fn)
}

// added: what was added to the term.
func added1(t, to *T) (*T, bool) {
	if to.op != "+" || len(to.a) != 2 {
		return nil, false
	}
	switch t {
	case to.a[0]:
		return to.a[1], true
	case to.a[1]:
		return to.a[0], true
	}
	return nil, false
}

func isNum(t *T, n float64) bool {
	if v, ok := t.floatVal(); ok {
		return v == n
	}
	v, ok := t.intVal()
	return ok && float64(v) == n
}

// oneMore: the stored value is the old one and one.
func (st *St) oneMore(m, k, v *T) bool {
	has := lit(st, func(t *T) bool { return t.op == "has" && t.a[0] == m && t.a[1] == k })
	if isNum(v, 1) {
		return has == -1
	}
	if v.op != "+" || len(v.a) != 2 {
		return false
	}
	for i := range v.a {
		if l := v.a[i]; l.op == "lookup" && l.a[0] == m && l.a[1] == k && isNum(v.a[1-i], 1) {
			return true
		}
	}
	return false
}

// factors of a product of quotients.
func factors(t *T) (num, den []*T) {
	switch {
	case t.op == "*" && len(t.a) == 2:
		a, b := factors(t.a[0])
		c, d := factors(t.a[1])
		return append(a, c...), append(b, d...)
	case t.op == "/" && len(t.a) == 2:
		a, b := factors(t.a[0])
		c, d := factors(t.a[1])
		return append(a, d...), append(b, c...)
	}
	return []*T{t}, nil
}

func (w *weights) isEl(t *T, e elem) bool {
	if t.op != "load" || t.a[0].op != "&index" || t.a[0].a[0] != e.list {
		return false
	}
	d := w.x.lin(t.a[0].a[1]).addk(e.i, -1)
	return len(d.k) == 0 && d.c == 0
}

func (c *Ctx) tagWeights() {
	fn := c.Method(modPath+"/hmm/idf", "TagExtracter", "ExtractTags")
	if fn == nil {
		c.R.Fail("anchor", "ExtractTags", "", "not found")
		return
	}
	name, pos := short(fn), c.Pos(fn.Pos())
	x := newE3(c.World)
	w := &weights{c: c, x: x, f: &flt{c: c, x: x, memo: map[string]bool{}}}
	text := x.paramT(fn, 1)
	counts := map[*T]bool{}    // the maps of counts
	divides := map[string]*T{} // loops that divide every count, by what
	sums := map[*T]bool{}      // variables that add up the counts
	notSum := map[*T]bool{}
	counting := map[string]bool{}
	isCut := func(t *T) bool {
		if t.op != "call" {
			return false
		}
		n := callName(t.s)
		if !strings.HasPrefix(n, "(*"+modPath+".Segmenter).") || len(t.a) < 2 || t.a[1] != text {
			return false
		}
		switch n[strings.LastIndex(n, ".")+1:] {
		case "Cut":
			return len(t.a) == 3 && t.a[2].op == "list" && len(t.a[2].a) > 0 && isTrue(t.a[2].a[0])
		case "CutDAG":
			return len(t.a) == 3 && emptyT(x, t.a[2])
		}
		return false
	}
	round := 0
	h := &Hooks{Inline: inIdf}
	h.Back = func(st *St, l *LoopI, next []*T) {
		w.f.steps(st, l, next, nil)
		e, ok := w.f.walks(st, l)
		overMap := func(t *T) *T { // the map whose key this turn has
			if t.op == "itkey" && lit(st, func(y *T) bool { return y.op == "itok" && y.s == t.s }) == 1 {
				return t
			}
			return nil
		}
		counted := 0
		if ok && e.list != nil && e.list.op == "call" && strings.HasPrefix(callName(e.list.s), "(*"+modPath+".Segmenter).") {
			isW := func(t *T) bool {
				t = stripConv(t)
				return t.isCall("strings.TrimSpace") && w.isEl(t.a[0], e)
			}
			short, stop := tri(0), tri(0)
			for _, lt := range st.lits[l.nl:] {
				lt.t.has(func(t *T) bool {
					switch {
					case t.isCall("unicode/utf8.RuneCountInString") && isW(t.a[0]), t.op == "len" && t.a[0].op == "conv" && isW(t.a[0]) && !isString(t.a[0].typ) && isRunes(t.a[0].typ):
						if st.le(t, x.tt.int(1)) {
							short = 1
						} else if st.le(x.tt.int(2), t) {
							short = -1
						}
					case t.op == "len" && isW(t.a[0]) && st.le(t, x.tt.int(0)):
						short = 1
					case t.op == "==" && len(t.a) == 2 && (isW(t.a[0]) && isEmptyS(t.a[1]) || isW(t.a[1]) && isEmptyS(t.a[0])) && lt.t == t && lt.pol:
						short = 1
					}
					return false
				})
			}
			stop = lit(st, func(t *T) bool {
				return t.op == "has" && isW(t.a[1]) && t.a[0].op == "load" || t.op == "call" && strings.HasSuffix(callName(t.s), "StopWord).IsStopWord") && isW(t.a[len(t.a)-1])
			})
			right := true
			for _, ev := range st.trace[l.nt:] {
				if ev.kind == "mapset" && isCountMap(ev.args[0]) {
					counted++
					counts[ev.args[0]] = true
					right = right && ev.name != "delete" && isW(ev.args[1]) && st.oneMore(ev.args[0], ev.args[1], ev.args[2])
				}
			}
			if !counting[l.id] && counted == 0 && round == 0 {
				// another loop over the words
			} else {
				counting[l.id] = true
			}
			if round > 0 && counting[l.id] {
				where := "; the path: " + clip(litStrings(st.lits[l.nl:]))
				c.R.Check(isCut(e.list), "counted-once", name, pos, "the words counted are not those of the cut of the text with the model: "+clip(e.list.String()))
				c.R.Check(onlyHeaderLeaves(l), "counted-once", name, pos, "not all words are counted")
				if counted > 0 {
					c.R.Check(counted == 1 && right, "counted-once", name, pos, "a word is not counted as one more of itself without the white space around it"+where)
					c.R.Check(short == -1 && stop == -1, "counted-once", name, pos, "a word is counted although it may be a stop word or shorter than two characters"+where)
				} else {
					c.R.Check(short == 1 || stop == 1, "counted-once", name, pos, "a word is left out although it is no stop word and has two characters"+where)
				}
			}
		}
		for i, y := range l.syms {
			if !isFloat(l.phis[i].Type()) && !isInt(l.phis[i].Type()) {
				continue
			}
			d, ok := added1(y, next[i])
			good := false
			switch {
			case ok && d.op == "lookup" && counts[d.a[0]] && overMap(d.a[1]) != nil && d.a[1].a[0].a[0] == d.a[0]:
				good = divides[strings.TrimPrefix(d.s, "loop:")] == nil && onlyHeaderLeaves(l)
			case ok && isNum(d, 1) && counted == 1:
				good = true
			case next[i] == y && counting[l.id] && counted == 0:
				good = true
			}
			if good && isNum(l.init[i], 0) {
				sums[y] = true
			} else {
				notSum[y] = true
			}
		}
		for _, ev := range st.trace[l.nt:] {
			if ev.kind != "mapset" || ev.name == "delete" || !counts[ev.args[0]] || overMap(ev.args[1]) == nil {
				continue
			}
			m, k, v := ev.args[0], ev.args[1], ev.args[2]
			num, den := factors(v)
			ok := len(num) == 1 && len(den) == 1 && num[0].op == "lookup" && num[0].a[0] == m && num[0].a[1] == k && onlyHeaderLeaves(l)
			if ok {
				divides[l.id] = den[0]
			}
			if round > 0 {
				c.R.Check(ok && sums[den[0]] && !notSum[den[0]], "total", name, pos, "a count is replaced by something else than its part of all counts: "+clip(v.String()))
			}
		}
	}
	h.Event = func(st *St, ev *Ev) {
		if round == 0 {
			return
		}
		var els [][2]*T
		add := func(el *T) {
			if el.typ != nil && isNamed(el.typ, modPath+"/hmm/segment", "Segment") {
				els = append(els, [2]*T{x.fieldOf(el, 0, types.Typ[types.String]), x.fieldOf(el, 1, types.Typ[types.Float64])})
			}
		}
		switch {
		case ev.kind == "append" && ev.args[1].op == "list":
			for _, el := range ev.args[1].a {
				add(el)
			}
		case ev.kind == "store" && ev.args[0].op == "&index" && !(ev.args[1].op == "load" && ev.args[1].a[0].op == "&index"):
			add(ev.args[1])
		case ev.kind == "store" && ev.args[0].op == "&field" && ev.args[0].a[0].op == "&index":
			// an element that is filled field by field
			at := map[string]*T{ev.args[0].s: ev.args[1]}
			for i := len(st.trace) - 1; i >= 0; i-- {
				if e := st.trace[i]; e.kind == "store" && e.args[0].op == "&field" && e.args[0].a[0] == ev.args[0].a[0] && at[e.args[0].s] == nil {
					at[e.args[0].s] = e.args[1]
				}
			}
			if at["Text"] != nil && at["Weight"] != nil {
				els = append(els, [2]*T{at["Text"], at["Weight"]})
			}
		}
		for _, el := range els {
			key, wt := el[0], el[1]
			why := func() string {
				num, den := factors(wt)
				if len(num) != 2 {
					return "the weight is not the product of its share and its inverse document frequency"
				}
				cnt, idf := num[0], num[1]
				if !(cnt.op == "lookup" && counts[cnt.a[0]]) {
					cnt, idf = idf, cnt
				}
				if !(cnt.op == "lookup" && counts[cnt.a[0]] && cnt.a[1] == key) {
					return "the weight is not that of the count of the keyword"
				}
				if divides[strings.TrimPrefix(cnt.s, "loop:")] != nil {
					if len(den) != 0 {
						return "the count is divided twice"
					}
				} else if len(den) != 1 || !sums[den[0]] || notSum[den[0]] {
					return "the count is not divided by the sum of all counts"
				}
				isFreq := func(t *T, i int) bool {
					cl, k := t.ext()
					return cl != nil && k == i && cl.op == "call" && (strings.HasSuffix(callName(cl.s), "Idf).Freq") || strings.HasSuffix(callName(cl.s), ").Find")) && stripConv(cl.a[len(cl.a)-1]) == key
				}
				known := lit(st, func(t *T) bool { return isFreq(t, 2) })
				// a word that only begins entries has frequency 0
				if known != -1 {
					pos := lit(st, func(t *T) bool { return t.op == "<" && len(t.a) == 2 && isNum(t.a[0], 0) && isFreq(t.a[1], 0) })
					if pos == 0 {
						pos = lit(st, func(t *T) bool { return t.op == "<=" && len(t.a) == 2 && isFreq(t.a[0], 0) && isNum(t.a[1], 0) }).not()
					}
					switch p := pos; p {
					case 0:
						if z := lit(st, func(t *T) bool {
							return t.op == "==" && len(t.a) == 2 && (isFreq(t.a[0], 0) && isNum(t.a[1], 0) || isFreq(t.a[1], 0) && isNum(t.a[0], 0))
						}); z != 0 {
							known = z.not()
						} else {
							known = 0
						}
					default:
						known = p
					}
				}
				switch known {
				case 1:
					if !isFreq(idf, 0) {
						return "the inverse document frequency of the word is not the one used"
					}
				case -1:
					if !(idf.op == "load" && idf.a[0].op == "&field" && strings.EqualFold(idf.a[0].s, "median")) {
						return "a word without inverse document frequency does not get the median"
					}
				default:
					return "it is not asked whether the table has the word, or only entries that begin with it"
				}
				return ""
			}()
			c.R.Check(why == "", "weight", name, pos, why+": "+clip(wt.String())+"; the path: "+clip(litStrings(st.lits)))
		}
	}
	for round = 0; round < 2; round++ {
		if x.RunWith(fn, h, nil) {
			c.R.Fail("analysed", name, pos, "too many paths")
			return
		}
		if round == 0 {
			// loops that leave words out are known now
			notSum = map[*T]bool{}
			sums = map[*T]bool{}
			if x.RunWith(fn, h, nil) {
				return
			}
			keep := map[*T]bool{}
			for y := range sums {
				keep[y] = !notSum[y]
			}
			sums = keep
			notSum = map[*T]bool{}
			for y, ok := range keep {
				if !ok {
					notSum[y] = true
				}
			}
		}
	}
	if len(counts) == 0 {
		c.R.Fail("counted-once", name, pos, "no words are counted")
	}
	c.R.Unit("paths", x.Paths)
}

func isTrue(t *T) bool {
	b, ok := t.boolVal()
	return ok && b
}

func isEmptyS(t *T) bool { return t.op == "const" && t.s == `""` }

// isCountMap: a map from something to numbers.
func isCountMap(m *T) bool {
	if m.typ == nil {
		return false
	}
	mt, ok := m.typ.Underlying().(*types.Map)
	return ok && (isFloat(mt.Elem()) || isInt(mt.Elem()))
}

// fieldAt: a field of an element of a list.
func (w *weights) fieldAt(t *T) (list *T, i lin, f string) {
	var a *T
	switch {
	case t.op == "load" && t.a[0].op == "&field":
		a, f = t.a[0].a[0], t.a[0].s
	case t.op == "field" && t.a[0].op == "load":
		a, f = t.a[0].a[0], t.s
	default:
		return nil, i, ""
	}
	if a.op != "&index" {
		return nil, i, ""
	}
	return a.a[0], w.x.lin(a.a[1]), f
}

// whole: the list something is a copy of.
func (w *weights) whole(t *T) *T {
	for t != nil && t.op == "append" && emptyT(w.x, t.a[0]) {
		t = t.a[1]
	}
	return t
}

func sameLin(a, b lin) bool {
	d := a.addk(b, -1)
	return len(d.k) == 0 && d.c == 0
}

func (c *Ctx) rankPairs() {
	fn := c.Method(modPath+"/hmm/idf", "TextRanker", "TextRankWithPOS")
	if fn == nil {
		c.R.Fail("anchor", "TextRankWithPOS", "", "not found")
		return
	}
	name, pos := short(fn), c.Pos(fn.Pos())
	x := newE3(c.World)
	w := &weights{c: c, x: x, f: &flt{c: c, x: x, memo: map[string]bool{}}}
	text, allow := x.paramT(fn, 1), x.paramT(fn, len(fn.Params)-1)
	edge := c.edgeFunc()
	inl := func(st *St, g *ssa.Function) bool { return inIdf(st, g) && g != edge && g.Name() != "rank" }
	type pairLoop struct {
		p     int // the counter
		c     int64
		i     lin
		list  *T
		outer string
	}
	inner := map[string]*pairLoop{}
	outer := map[string]*pairLoop{}
	counts := map[*T]bool{}
	adding := map[string]bool{}
	filters := map[*T]bool{}
	tagOf := func(st *St, list *T, i lin) tri {
		return lit(st, func(t *T) bool {
			if t.op != "has" && !(t.op == "lookup" && isBool(t.typ)) || !filters[t.a[0]] {
				return false
			}
			l, j, f := w.fieldAt(t.a[1])
			return l == list && f == "Pos" && sameLin(i, j)
		})
	}
	isPairs := func(t *T) bool {
		t = w.whole(t)
		return t.op == "call" && strings.HasSuffix(callName(t.s), "pos.Segmenter).Cut") && len(t.a) > 1 && t.a[1] == text
	}
	pairOf := func(k *T) (a, b *T) {
		if (k.op == "array" || k.op == "struct") && len(k.a) == 2 {
			return k.a[0], k.a[1]
		}
		return nil, nil
	}
	round := 0
	h := &Hooks{Inline: inl}
	h.Back = func(st *St, l *LoopI, next []*T) {
		w.f.steps(st, l, next, nil)
		where := "; the path: " + clip(litStrings(st.lits[l.nl:]))
		at := pos
		e, walked := w.f.walks(st, l)
		n := 0
		for _, ev := range st.trace[l.nt:] {
			if ev.kind != "mapset" || ev.name == "delete" {
				continue
			}
			if walked && e.list == allow && w.isEl(ev.args[1], e) {
				if b, ok := ev.args[2].boolVal(); ok && !b {
					continue
				}
				filters[ev.args[0]] = true
				if round > 0 {
					c.R.Check(onlyHeaderLeaves(l), "pair-counted", name, at, "not all tags are allowed")
				}
			}
			a, b := pairOf(ev.args[1])
			if a == nil || !isCountMap(ev.args[0]) {
				continue
			}
			l1, i, f1 := w.fieldAt(a)
			l2, j, f2 := w.fieldAt(b)
			if l1 == nil || l1 != l2 || f1 != "Text" || f2 != "Text" {
				c.R.Fail("pair-counted", name, at, "what is counted is not a pair of words: "+clip(ev.args[1].String()))
				continue
			}
			var pl *pairLoop
			for p, y := range l.syms {
				d := j.addk(x.lin(y), -1)
				if len(d.k) == 0 && isInt(l.phis[p].Type()) {
					pl = &pairLoop{p: p, c: d.c, i: i, list: l1}
				}
			}
			if pl == nil {
				continue // seen from the loop around
			}
			n++
			if l.outer != nil {
				pl.outer = l.outer.id
				outer[l.outer.id] = pl
			}
			inner[l.id] = pl
			counts[ev.args[0]] = true
			if round == 0 {
				continue
			}
			nx := x.lin(next[pl.p]).addk(x.lin(l.syms[pl.p]), -1)
			in := x.lin(l.init[pl.p])
			in.c += pl.c
			first := i
			first.c++
			c.R.Check(sameLin(in, first) && len(nx.k) == 0 && nx.c == 1, "window", name, at, "the words looked at are not those after the first one, one by one")
			far := i
			far.c += 4
			c.R.Check(st.proves(far.addk(j, -1)), "window", name, at, "a word further than four words away is counted"+where)
			c.R.Check(isPairs(l1), "pair-counted", name, at, "the words are not those of the tagged text: "+clip(l1.String()))
			c.R.Check(tagOf(st, l1, i) == 1 && tagOf(st, l1, j) == 1, "pair-counted", name, at, "a pair is counted although the tag of one of its words may not be allowed"+where)
			c.R.Check(st.oneMore(ev.args[0], ev.args[1], ev.args[2]), "pair-counted", name, at, "a pair is not counted as one more: "+clip(ev.args[2].String())+where)
			listed := 0
			for _, o := range st.trace[l.nt:] {
				if o.kind == "append" && o.args[1].op == "list" {
					for _, y := range o.args[1].a {
						if y == ev.args[1] {
							listed++
						}
					}
				}
			}
			m, k := ev.args[0], ev.args[1]
			has := lit(st, func(t *T) bool { return t.op == "has" && t.a[0] == m && t.a[1] == k })
			c.R.Check(has == 1 && listed == 0 || has == -1 && listed == 1, "pair-counted", name, at, "a pair is not listed exactly when it is counted first"+where)
		}
		added := 0
		for _, ev := range st.trace[l.nt:] {
			if ev.kind == "call" && edge != nil && ev.name == edge.RelString(nil) && walked {
				added++
				adding[l.id] = true
			}
		}
		if round == 0 {
			return
		}
		if adding[l.id] {
			c.R.Check(added == 1, "edges", name, pos, "a pair does not become one edge"+where)
		}
		if pl := inner[l.id]; pl != nil {
			j := x.lin(l.syms[pl.p])
			j.c += pl.c
			if n == 0 {
				c.R.Check(tagOf(st, pl.list, j) == -1, "pair-counted", name, at, "a pair is left out although both tags are allowed"+where)
			} else {
				c.R.Check(n == 1, "pair-counted", name, at, "a pair is counted more than once"+where)
			}
		}
		if pl := outer[l.id]; pl != nil {
			ran := false
			for _, ev := range st.trace[l.nt:] {
				ran = ran || ev.kind == "loop" && inner[ev.loop.id] != nil
			}
			t := tagOf(st, pl.list, pl.i)
			c.R.Check(ran && t == 1 || !ran && t == -1, "pair-counted", name, at, "the words after a word are looked at although its tag may not be allowed, or are not although it is"+where)
			c.R.Check(walked && w.whole(e.list) == w.whole(pl.list) && sameLin(e.i, pl.i) && onlyHeaderLeaves(l), "window", name, at, "not all words are looked at")
		}
		// edges
		for _, ev := range st.trace[l.nt:] {
			if ev.kind != "call" || edge == nil || ev.name != edge.RelString(nil) || !walked || len(ev.args) < 4 {
				continue
			}
			why := ""
			b1, k1 := component(ev.args[1])
			b2, k2 := component(ev.args[2])
			wt := ev.args[3]
			switch {
			case b1 == nil || b1 != b2 || k1 != 0 || k2 != 1 || b1.op != "&index" || b1.a[0] != e.list || !sameLin(x.lin(b1.a[1]), e.i):
				why = "the edge is not between the words of the pair"
			case wt.op != "lookup" || !counts[wt.a[0]]:
				why = "the weight of the edge is not the count of the pair: " + clip(wt.String())
			default:
				a, b := pairOf(wt.a[1])
				if !(a == ev.args[1] && b == ev.args[2] || wt.a[1].op == "load" && wt.a[1].a[0] == b1) {
					why = "the weight of the edge is the count of another pair: " + clip(wt.String())
				}
			}
			c.R.Check(why == "", "edges", name, c.Pos(ev.in.Pos()), why)
			c.R.Check(onlyHeaderLeaves(l), "edges", name, c.Pos(ev.in.Pos()), "not all pairs become edges")
		}
	}
	h.Event = func(st *St, ev *Ev) {
		if round == 0 || ev.kind != "exit" || inner[ev.loop.id] == nil {
			return
		}
		pl := inner[ev.loop.id]
		j := x.lin(ev.loop.syms[pl.p])
		j.c += pl.c
		far := pl.i
		far.c += 5
		c.R.Check(st.proves(j.addk(far, -1)) || st.proves(j.addk(x.lin(x.lenOf(pl.list)), -1)), "window", name, pos, "the words after a word are left before the fourth one was looked at; the path: "+clip(litStrings(st.lits)))
	}
	for round = 0; round < 2; round++ {
		if x.RunWith(fn, h, nil) {
			c.R.Fail("analysed", name, pos, "too many paths")
			return
		}
	}
	if len(inner) == 0 {
		c.R.Fail("pair-counted", name, pos, "no pairs are counted")
	}
	c.R.Unit("paths", x.Paths)
}

// component: a part of an element of a list of pairs.
func component(t *T) (base *T, k int) {
	at := func(a *T, i *T) (*T, int) {
		if n, ok := i.intVal(); ok {
			return a, int(n)
		}
		return nil, 0
	}
	fld := func(a *T, typ types.Type, f string) (*T, int) {
		if s, ok := typ.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == f {
					return a, i
				}
			}
		}
		return nil, 0
	}
	switch {
	case t.op == "load" && t.a[0].op == "&index":
		return at(t.a[0].a[0], t.a[0].a[1])
	case t.op == "load" && t.a[0].op == "&field":
		return fld(t.a[0].a[0], derefType(t.a[0].a[0].typ), t.a[0].s)
	case t.op == "index" && t.a[0].op == "load":
		return at(t.a[0].a[0], t.a[1])
	case t.op == "field" && t.a[0].op == "load":
		return fld(t.a[0].a[0], t.a[0].typ, t.s)
	}
	return nil, 0
}

// edgeFunc: the function that adds an edge to the graph.
func (c *Ctx) edgeFunc() *ssa.Function {
	for _, fn := range c.libFuncs() {
		if !inIdf(nil, fn) || len(fn.Params) != 4 || fn.Parent() != nil {
			continue
		}
		if isString(fn.Params[1].Type()) && isString(fn.Params[2].Type()) && isFloat(fn.Params[3].Type()) {
			return fn
		}
	}
	return nil
}

func (c *Ctx) rankEdges() {
	fn := c.edgeFunc()
	if fn == nil {
		c.R.Fail("anchor", "addEdge", "", "the function that adds an edge was not found")
		return
	}
	name, pos := short(fn), c.Pos(fn.Pos())
	x := newE3(c.World)
	start, end, weight := x.paramT(fn, 1), x.paramT(fn, 2), x.paramT(fn, 3)
	x.Run(fn, &Hooks{Inline: inIdf, Ret: func(st *St, _ []*T) {
		where := "; the path: " + clip(litStrings(st.lits))
		for i, k := range []*T{start, end} {
			other := []*T{end, start}[i]
			n, why := 0, ""
			var m *T
			for _, ev := range st.trace {
				if ev.kind != "mapset" || ev.args[1] != k {
					continue
				}
				n++
				m = ev.args[0]
				v := ev.args[2]
				has := lit(st, func(t *T) bool { return t.op == "has" && t.a[0] == m && t.a[1] == k })
				var el *T
				if v.op == "append" && v.a[1].op == "list" && len(v.a[1].a) == 1 && (v.a[0].op == "lookup" && v.a[0].a[0] == m && v.a[0].a[1] == k || has == -1 && emptyT(x, v.a[0])) {
					el = v.a[1].a[0]
				} else if ts, ok := x.explicit(st, v); ok && len(ts) == 1 && has == -1 {
					el = ts[0]
				}
				switch {
				case ev.name == "delete" || el == nil:
					why = "the edges there were are not kept: " + clip(v.String())
				case !isEdge(x, el, k, other, weight):
					why = "the edge is not stored with its ends and its weight: " + clip(el.String())
				}
			}
			if n != 1 && why == "" {
				why = "the edge is not stored once at this end"
			}
			c.R.Check(why == "", "both-ends", name, pos, k.String()+": "+why+where)
			if m == nil {
				continue
			}
			listed := 0
			for _, ev := range st.trace {
				if ev.kind == "append" && ev.args[1].op == "list" {
					for _, y := range ev.args[1].a {
						if y == k {
							listed++
						}
					}
				}
			}
			has := lit(st, func(t *T) bool { return t.op == "has" && t.a[0] == m && t.a[1] == k })
			c.R.Check(has == 1 && listed == 0 || has == -1 && listed == 1, "both-ends", name, pos, k.String()+" is not listed exactly when it is new"+where)
		}
	}})
	c.R.Unit("paths", x.Paths)
}

func isEdge(x *E3, el, from, to, weight *T) bool {
	s, ok := el.typ.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	found := 0
	for i := 0; i < s.NumFields(); i++ {
		v := x.fieldOf(el, i, s.Field(i).Type())
		switch s.Field(i).Name() {
		case "start":
			if v != from {
				return false
			}
			found++
		case "end":
			if v != to {
				return false
			}
			found++
		case "weight":
			if v != weight {
				return false
			}
			found++
		}
	}
	return found == 3
}

// rankDefault: TextRank ranks the same text up to the same limit, with the default tags.
func (c *Ctx) rankDefault() {
	fn := c.Method(modPath+"/hmm/idf", "TextRanker", "TextRank")
	if fn == nil {
		c.R.Fail("anchor", "TextRank", "", "not found")
		return
	}
	x := newE3(c.World)
	x.Run(fn, &Hooks{Inline: inIdf, Ret: func(st *St, res []*T) {
		r := res[0]
		ok := r.op == "call" && strings.HasSuffix(callName(r.s), "TextRanker).TextRankWithPOS") && len(r.a) == 4 && r.a[0] == x.paramT(fn, 0) && r.a[1] == x.paramT(fn, 1) && r.a[2] == x.paramT(fn, 2)
		if ok {
			t := r.a[3]
			ts, isList := x.explicit(st, t)
			ok = t.op == "load" && t.a[0].op == "global" || t.op == "global" || isList && len(ts) > 0
		}
		c.R.Check(ok, "default-tags", short(fn), c.Pos(fn.Pos()), "what is returned is not the ranking of the text with the default tags: "+clip(r.String()))
	}})
	c.R.Unit("paths", x.Paths)
}
