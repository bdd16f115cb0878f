package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// lookedUp: what the path knows about a word in the trie of a dictionary of the function.
type lookedUp struct {
	none   bool // no entry begins with the word: there is no dictionary, or the trie has no such way
	prefix bool // entries begin with it
	value  int  // 1: it has a value, -1: it has none
	node   *T   // where the word leads to
}

func (st *St) lookedUp(fn *ssa.Function, word *T) (u lookedUp) {
	x := st.x
	for _, l := range st.lits {
		if l.t.op != "==" {
			continue
		}
		a, b := l.t.a[0], l.t.a[1]
		if b.isNil() && a.typ != nil && isDictPtr(a.typ) && l.pol {
			u.none = true
		}
		if isIntZero(b) && a.op == "len" && l.pol && (stripConv(a.a[0]) == word || isLoadOf(a.a[0], modPath, "Dictionary", "Tokens")) {
			u.none = true
		}
		cl, i := a.ext()
		if cl == nil || i != 1 || !b.isNil() {
			continue
		}
		if !st.ownDict(fn, cl.a[0]) {
			continue
		}
		switch {
		case isCedar(cl, "Jump") && stripConv(cl.a[1]) == word && isIntZero(cl.a[2]):
			if l.pol {
				u.prefix, u.node = true, x.comp(cl, 0)
			} else {
				u.none = true
			}
		case isCedar(cl, "Get") && stripConv(cl.a[1]) == word:
			u.value = -1
			if l.pol {
				u.value = 1
			}
		}
	}
	for _, l := range st.lits {
		if l.t.op != "==" || !l.t.a[1].isNil() {
			continue
		}
		if cl, i := l.t.a[0].ext(); cl != nil && i == 1 && isCedar(cl, "Value") && u.node != nil && cl.a[1] == u.node {
			u.value = -1
			if l.pol {
				u.value = 1
			}
		}
	}
	return
}

// wordParam: the one text a function is asked about.
func (x *E3) wordParam(fn *ssa.Function) *T {
	first := 0
	if fn.Signature.Recv() != nil {
		first = 1
	}
	if len(fn.Params) != first+1 || !isSeq(fn.Params[first].Type()) {
		return nil
	}
	return x.paramT(fn, first)
}

// lookups: every function that answers a question about a word answers with its own entry.
func (c *Ctx) lookups(x *E3, find, value *ssa.Function) {
	const rule = "a-lookup-answers-with-the-own-entry"
	for _, fn := range c.libFuncs() {
		if !isAPI(fn) || fn == find || fn == value || x.wordParam(fn) == nil || fn.Signature.Recv() == nil {
			continue
		}
		r := fn.Signature.Results()
		kind := ""
		switch {
		case r.Len() == 3 && isFloat(r.At(0).Type()) && isString(r.At(1).Type()) && isBool(r.At(2).Type()):
			kind = "find"
		case r.Len() == 2 && isString(r.At(0).Type()) && isBool(r.At(1).Type()):
			kind = "tag"
		case r.Len() == 3 && isErrorType(r.At(2).Type()) && isIntT(r.At(0).Type()) && isIntT(r.At(1).Type()):
			kind = "value"
		default:
			continue
		}
		reach := c.reach(fn)
		if find == nil || value == nil || !reach[find] && !reach[value] && !c.usesTrie(reach) {
			continue
		}
		if x.Run(fn, &Hooks{Ret: func(st *St, res []*T) {
			switch kind {
			case "find":
				c.findResult(st, fn, res, rule)
			case "tag":
				c.findResult(st, fn, []*T{nil, res[0], res[1]}, rule)
			case "value":
				c.valueResult(st, fn, res, rule)
			}
		}}) {
			c.R.Fail("too-many-paths", short(fn), c.Pos(fn.Pos()), "the function has too many paths to decide")
		}
		c.R.Unit("functions", 1)
		c.R.Unit("paths", x.Paths)
		x.Paths = 0
	}
	c.R.AtLeast(rule, 4)
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (c *Ctx) usesTrie(fns map[*ssa.Function]bool) bool {
	for g := range fns {
		if g.Pkg != nil && g.Pkg.Pkg.Path() == cedarPath {
			return true
		}
	}
	return false
}

// findResult: frequency (nil when it is not asked for), tag and whether the word was found.
func (c *Ctx) findResult(st *St, fn *ssa.Function, res []*T, rule string) {
	x := st.x
	pos := c.Pos(fn.Pos())
	freq, tag, found := res[0], res[1], res[2]
	word := x.wordParam(fn)
	u := st.lookedUp(fn, word)
	path := "; the path: " + clip(litStrings(st.lits))
	ok1 := freq == nil
	if !ok1 {
		fz, is := freq.floatVal()
		ok1 = is && fz == 0
	}
	tz, ok2 := tag.strVal()
	b, isb := found.boolVal()
	if ok1 && ok2 && tz == "" {
		switch {
		case u.value == 1:
			c.R.Fail(rule, short(fn), pos, "the word has an entry but its frequency and tag are not returned"+path)
		case !u.none && u.value != -1:
			c.R.Fail(rule, short(fn), pos, "nothing is returned although the word may have an entry"+path)
		case freq == nil || u.none:
			c.R.Check(isb && !b || !isb && u.none && st.knownFalse(found), rule, short(fn), pos, "a word without an entry is reported as found"+path)
		case u.node == nil: // the trie was asked for the whole word only
			c.R.OK(rule, short(fn), pos)
		default:
			// entries begin with the word, unless it leads nowhere
			atRoot, known := st.truth(x.arith("==", u.node, x.tt.int(0), nil))
			ok := isb && known && b == !atRoot || found == x.not(x.arith("==", u.node, x.tt.int(0), nil))
			c.R.Check(ok, rule, short(fn), pos, "whether entries begin with the word is not what is returned: "+clip(found.String())+path)
		}
		return
	}
	good := false
	why := "frequency and tag are not those of one entry"
	if isLoadOf(tag, modPath, "Token", "pos") && (freq == nil || isLoadOf(freq, modPath, "Token", "freq") && freq.a[0].a[0] == tag.a[0].a[0]) {
		if d, idx := entryOf(tag.a[0].a[0]); d != nil {
			w, s, y := st.trieHit(idx)
			why = y
			if w != nil {
				why = "the entry is not the one of the word asked for"
				good = stripConv(w) == word && isIntZero(s) && st.ownDict(fn, d)
			}
		}
	}
	if good && (!isb || !b) {
		good, why = false, "an entry is returned but reported as not found"
	}
	c.R.Check(good, rule, short(fn), pos, why+path)
}

func (st *St) knownFalse(t *T) bool {
	v, k := st.truth(t)
	return k && !v
}

func (c *Ctx) valueResult(st *St, fn *ssa.Function, res []*T, rule string) {
	x := st.x
	pos := c.Pos(fn.Pos())
	word := x.wordParam(fn)
	path := "; the path: " + clip(litStrings(st.lits))
	isNil, known := st.errNil(res[2])
	if !known && x.nonNil(res[2]) || !known && isGlobalErr(res[2]) {
		isNil, known = false, true
	}
	u := st.lookedUp(fn, word)
	if known && !isNil {
		c.R.Check(u.none || u.value == -1, rule, short(fn), pos, "an error is returned although the word may have a value"+path)
		return
	}
	// the error is the one of the value lookup, or nil after a successful lookup
	v, i := res[0].ext()
	e, k := res[2].ext()
	if v == nil || i != 0 || !(isCedar(v, "Value") || isCedar(v, "Get")) || !(known || e == v && k == 1) {
		c.R.Fail(rule, short(fn), pos, "the value returned is not the one of the trie, or not with its error"+path)
		return
	}
	if isCedar(v, "Value") {
		j, k := v.a[1].ext()
		ok := j != nil && k == 0 && isCedar(j, "Jump") && stripConv(j.a[1]) == word && isIntZero(j.a[2]) && st.ownDict(fn, v.a[0])
		if ok {
			n, kn := st.errNil(x.comp(j, 1))
			ok = kn && n && res[1] == v.a[1]
		}
		c.R.Check(ok, rule, short(fn), pos, "value and id do not belong to the word asked for"+path)
		return
	}
	c.R.Check(stripConv(v.a[1]) == word, rule, short(fn), pos, "the value does not belong to the word asked for")
}

// what the accessors of an object tell.
var told = []struct{ pkg, typ, method, fieldTyp, field string }{
	{modPath, "Dictionary", "NumTokens", "Dictionary", "Tokens"},
	{modPath, "Dictionary", "TotalFreq", "Dictionary", "totalFreq"},
	{modPath, "Dictionary", "MaxTokenLen", "Dictionary", "maxTokenLen"},
	{modPath + "/hmm/idf", "Idf", "NumTokens", "Dictionary", "Tokens"},
	{modPath + "/hmm/idf", "Idf", "TotalFreq", "Dictionary", "totalFreq"},
	{modPath, "Segmenter", "Dictionary", "Segmenter", "Dict"},
	{modPath, "Token", "Freq", "Token", "freq"},
	{modPath, "Token", "Pos", "Token", "pos"},
	{modPath, "Token", "Segments", "Token", "segments"},
	{modPath, "Segment", "Start", "Segment", "start"},
	{modPath, "Segment", "End", "Segment", "end"},
	{modPath, "Segment", "Token", "Segment", "token"},
}

func (c *Ctx) accessors(x *E3) {
	const rule = "an-accessor-tells-what-is-there"
	for _, a := range told {
		fn := c.Method(a.pkg, a.typ, a.method)
		if fn == nil {
			c.R.Fail("anchor", a.typ+"."+a.method, "", "not found")
			continue
		}
		name, pos := short(fn), c.Pos(fn.Pos())
		x.Run(fn, &Hooks{Ret: func(st *St, res []*T) {
			r := res[0]
			path := "; the path: " + clip(litStrings(st.lits))
			if n, ok := r.intVal(); ok && n == 0 || isFloatZero(r) {
				none := false
				for _, l := range st.lits {
					if l.t.op == "==" && l.pol && l.t.a[1].isNil() && l.t.a[0].typ != nil && isDictPtr(l.t.a[0].typ) {
						none = true
					}
					if l.t == x.arith("==", x.lenOfField(a.field, l.t), x.tt.int(0), nil) && l.pol {
						none = true
					}
				}
				c.R.Check(none, rule, name, pos, "zero is returned although there may be something"+path)
				return
			}
			if a.field == "Tokens" {
				if r.op != "len" {
					c.R.Fail(rule, name, pos, "not the number of entries: "+clip(r.String())+path)
					return
				}
				r = r.a[0]
			}
			ok := isLoadOf(r, modPath, a.fieldTyp, a.field) && st.ownDict(fn, r.a[0].a[0]) || r.op == "field" && r.s == a.field
			c.R.Check(ok, rule, name, pos, "not the "+a.field+" of the "+a.fieldTyp+": "+clip(r.String())+path)
		}})
		c.R.Unit("functions", 1)
	}
}

// lenOfField: the length that is compared, if it is one of the field.
func (x *E3) lenOfField(field string, cond *T) *T {
	if len(cond.a) == 2 && cond.a[0].op == "len" && isLoadOf(cond.a[0].a[0], modPath, "Dictionary", field) {
		return cond.a[0]
	}
	return x.tt.int(-1)
}

func isFloatZero(t *T) bool {
	f, ok := t.floatVal()
	return ok && f == 0
}
