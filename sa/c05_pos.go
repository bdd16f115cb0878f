package main

import (
	"go/constant"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C05", checkTagger) }

var allMatches = map[string]bool{
	"(*regexp.Regexp).FindAllStringIndex": true, "(*regexp.Regexp).FindAllStringSubmatchIndex": true,
	"(*regexp.Regexp).FindAllIndex": true, "(*regexp.Regexp).FindAllSubmatchIndex": true,
}

// regexps knows the expressions in package variables.
type regexps struct {
	c    *Ctx
	memo map[string]*syntax.Regexp
}

// expr is the expression behind a term: a package variable that is only set to the result of MustCompile of a constant.
func (r *regexps) expr(t *T) *syntax.Regexp {
	if t.op != "load" || t.a[0].op != "global" {
		return nil
	}
	name := t.a[0].s
	if e, ok := r.memo[name]; ok {
		return e
	}
	r.memo[name] = nil
	n := 0
	var e *syntax.Regexp
	fns := append([]*ssa.Function(nil), r.c.Funcs...)
	for _, sp := range r.c.SSA {
		if f := sp.Func("init"); f != nil {
			fns = append(fns, f)
		}
	}
	done := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if done[fn] {
			continue
		}
		done[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g, ok := st.Addr.(*ssa.Global)
				if !ok || g.RelString(nil) != name {
					continue
				}
				n++
				call, ok := st.Val.(*ssa.Call)
				if !ok || call.Call.StaticCallee() == nil || call.Call.StaticCallee().RelString(nil) != "regexp.MustCompile" {
					continue
				}
				k, ok := call.Call.Args[0].(*ssa.Const)
				if !ok || k.Value == nil || k.Value.Kind() != constant.String {
					continue
				}
				e, _ = syntax.Parse(constant.StringVal(k.Value), syntax.Perl)
			}
		}
	}
	if n != 1 {
		e = nil
	}
	r.memo[name] = e
	return e
}

type runeSet []rune // pairs

func (s runeSet) has(r rune) bool {
	for i := 0; i+1 < len(s); i += 2 {
		if s[i] <= r && r <= s[i+1] {
			return true
		}
	}
	return false
}

func (s runeSet) within(o runeSet) bool {
	for i := 0; i+1 < len(s); i += 2 {
		for r := s[i]; r <= s[i+1]; {
			// the range of o that holds r
			ok := false
			for j := 0; j+1 < len(o); j += 2 {
				if o[j] <= r && r <= o[j+1] {
					r = o[j+1] + 1
					ok = true
					break
				}
			}
			if !ok {
				return false
			}
		}
	}
	return true
}

// enough: the expression matches every text that has one of these characters.
func enough(e *syntax.Regexp) runeSet {
	switch e.Op {
	case syntax.OpCharClass:
		return runeSet(e.Rune)
	case syntax.OpAnyChar:
		return runeSet{0, unicode.MaxRune}
	case syntax.OpLiteral:
		if len(e.Rune) == 1 && e.Flags&syntax.FoldCase == 0 {
			return runeSet{e.Rune[0], e.Rune[0]}
		}
	case syntax.OpCapture, syntax.OpPlus:
		return enough(e.Sub[0])
	case syntax.OpAlternate:
		var o runeSet
		for _, s := range e.Sub {
			o = append(o, enough(s)...)
		}
		return o
	}
	return nil
}

// needs: every match of the expression has one of these characters; ok false if it can match without.
func needs(e *syntax.Regexp) (runeSet, bool) {
	switch e.Op {
	case syntax.OpCharClass:
		return runeSet(e.Rune), true
	case syntax.OpLiteral:
		if e.Flags&syntax.FoldCase == 0 {
			return runeSet{e.Rune[0], e.Rune[0]}, true
		}
	case syntax.OpCapture, syntax.OpPlus:
		return needs(e.Sub[0])
	case syntax.OpConcat:
		for _, s := range e.Sub {
			if r, ok := needs(s); ok {
				return r, true
			}
		}
	case syntax.OpAlternate:
		var o runeSet
		for _, s := range e.Sub {
			r, ok := needs(s)
			if !ok {
				return nil, false
			}
			o = append(o, r...)
		}
		return o, true
	}
	return nil, false
}

// contains: the text t is a part of these texts.
func (k *keeper) within(q *E4, st *St, t *T) []*T {
	var o []*T
	for n := 0; n < 8 && t != nil; n++ {
		t = stripUnits(t)
		o = append(o, t)
		switch {
		case t.op == "slice":
			t = t.a[0]
		case t.op == "load" && t.a[0].op == "&index":
			l := t.a[0].a[0]
			if f, call, i := k.callOf(l); f != nil {
				if m := k.keeps(f); m.ok && !m.low && (i < 0 || i == m.ri) && !strings.HasSuffix(callName(call.s), "$bound") {
					t = call.a[m.pi]
					continue
				}
			}
			if isSeq(l.typ) && !isTextList(l.typ) {
				t = l
				continue
			}
			return o
		default:
			return o
		}
	}
	return o
}

// posTags: the list of tags that the model of the tagger gives.
func posTags(k *keeper, t *posTables) func(q *E4, fn *ssa.Function) {
	c := k.c
	vit := c.Func(modPath+"/hmm/pos", "viterbi")
	maxTag := int64(0)
	for s := range t.trans {
		if s%100 > maxTag {
			maxTag = s % 100
		}
	}
	isTags := func(l *T) bool {
		f, _, i := k.callOf(l)
		return f != nil && f == vit && i < 0
	}
	return func(q *E4, fn *ssa.Function) {
		x := q.x
		q.cfg.TagList = isTags
		q.cfg.TagLit = func(st *St, l Lit, elem func(*T) bool) int {
			all := tagB | tagE | tagM | tagS
			if l.t.op != "==" || len(l.t.a) != 2 {
				return all
			}
			for i := range l.t.a {
				d := l.t.a[i]
				if d.op != "/" {
					continue
				}
				if h, ok := d.a[1].intVal(); !ok || h != 100 || !elem(stripInt(d.a[0])) {
					continue
				}
				if n, ok := l.t.a[1-i].intVal(); ok {
					s := map[int64]int{1: tagB, 2: tagE, 3: tagM, 4: tagS}[n]
					if l.pol {
						return s
					}
					return all &^ s
				}
			}
			return all
		}
		oldIn, oldF := q.cfg.Inline, q.cfg.Facts
		q.cfg.Inline = func(st *St, f *ssa.Function) bool {
			if f == vit {
				return false
			}
			return oldIn(st, f)
		}
		q.cfg.Facts = func(st *St, u *T) []lin {
			o := oldF(st, u)
			v := lin{map[*T]int64{u: 1}, 0}
			if u.op == "len" && isTags(u.a[0]) {
				_, call, _ := k.callOf(u.a[0])
				d := v.addk(x.lin(x.lenOf(call.a[0])), -1)
				o = append(o, d, linC(0).addk(d, -1))
			}
			if u.op == "%" {
				if h, ok := u.a[1].intVal(); ok && h == 100 {
					if e := stripInt(u.a[0]); e.op == "load" && e.a[0].op == "&index" && isTags(e.a[0].a[0]) {
						hi := linC(maxTag).addk(v, -1)
						o = append(o, v, hi)
					}
				}
			}
			if u.op == "len" && u.a[0].op == "load" && u.a[0].a[0].op == "global" {
				g := u.a[0].a[0].s
				if strings.HasPrefix(g, "gse/hmm/pos.") || strings.HasPrefix(g, modPath+"/hmm/pos.") {
					if w, _ := c.constTable(modPath+"/hmm/pos", g[strings.LastIndex(g, ".")+1:]); w != nil && w.l != nil {
						d := v.clone()
						d.c -= int64(len(w.l))
						o = append(o, d, linC(0).addk(d, -1))
					}
				}
			}
			return o
		}
	}
}

// stripInt removes conversions between integer types.
func stripInt(t *T) *T {
	for t.op == "conv" && isInt(t.typ) && isInt(t.a[0].typ) {
		t = t.a[0]
	}
	return t
}

// splitFacts: what is known about regular expressions: where all matches lie, that the expression captures, and which
// tests can not succeed.
func splitFacts(k *keeper, r *regexps) func(q *E4, fn *ssa.Function) {
	return func(q *E4, fn *ssa.Function) {
		x := q.x
		q.cfg.MatchList = func(t *T) (*T, bool) {
			if t.op == "call" && allMatches[callName(t.s)] {
				return t.a[1], true
			}
			return nil, false
		}
		captures := func(re *T) bool {
			if re.op == "param" {
				return true // assumed, and an obligation of every call
			}
			e := r.expr(re)
			return e != nil && e.MaxCap() > 0
		}
		oldC := q.cfg.Call
		q.cfg.Call = func(st *St, in ssa.CallInstruction, name string, args []*T) []*T {
			switch name {
			case "(*regexp.Regexp).SubexpNames":
				return []*T{x.tt.mk("subexp", "", in.Value().Type(), args[0])}
			case "(*regexp.Regexp).NumSubexp":
				return []*T{x.tt.mk("numsub", "", in.Value().Type(), args[0])}
			case "(*regexp.Regexp).String":
				return []*T{x.tt.mk("retext", "", in.Value().Type(), args[0])}
			case "(*regexp.Regexp).MatchString":
				t := x.tt.mk("rematch", "", types.Typ[types.Bool], args[0], stripUnits(args[1]))
				if _, known := st.truth(t); known {
					return []*T{t}
				}
				if e := r.expr(args[0]); e != nil {
					if cs, ok := needs(e); ok {
						parts := k.within(q, st, args[1])
						for _, l := range st.lits {
							if l.pol || l.t.op != "rematch" {
								continue
							}
							e2 := r.expr(l.t.a[0])
							if e2 == nil || !cs.within(enough(e2)) {
								continue
							}
							for _, p := range parts {
								if p == l.t.a[1] {
									return []*T{x.tt.bool(false)}
								}
							}
						}
					}
				}
				return []*T{t}
			}
			if oldC != nil {
				return oldC(st, in, name, args)
			}
			return nil
		}
		oldF := q.cfg.Facts
		q.cfg.Facts = func(st *St, t *T) []lin {
			o := oldF(st, t)
			v := lin{map[*T]int64{t: 1}, 0}
			if t.op == "len" && t.a[0].op == "subexp" && captures(t.a[0].a[0]) {
				d := v.clone()
				d.c -= 2
				o = append(o, d)
			}
			if t.op == "len" {
				// what matches is not empty
				for _, l := range st.lits {
					if l.pol && l.t.op == "rematch" && l.t.a[1] == stripUnits(t.a[0]) {
						if e := r.expr(l.t.a[0]); e != nil {
							if _, ok := needs(e); ok {
								d := v.clone()
								d.c--
								o = append(o, d)
							}
						}
					}
				}
			}
			if t.op == "numsub" && captures(t.a[0]) {
				d := v.clone()
				d.c--
				o = append(o, d)
			}
			return o
		}
	}
}

// opaqueLookups: functions that look words up but give no pieces stay closed.
func (k *keeper) readsTrieDeep(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f == nil || f.Blocks == nil || seen[f] {
		return false
	}
	seen[f] = true
	if readsTrie(f) {
		return true
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && k.c.InRepo(g) && k.readsTrieDeep(g, seen) {
					return true
				}
			}
		}
	}
	return false
}

// givesWord: a result is a word with its tag.
func givesWord(f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if textField(f.Signature.Results().At(i).Type()) >= 0 {
			return true
		}
	}
	return false
}

func checkTagger(c *Ctx) {
	c.R.Rule = "Cut of the tagger, RegexpSplit and what they call are evaluated path by path with inferred loop invariants: on every return the texts of the words joined together must be the text (a callee's words are used only after the callee was shown to keep its text). Word graph and routes are summarised as in C03. RegexpSplit is decided for a capturing expression and a limit other than zero, with the matches one after the other inside of the text; every call must pass such an expression (a constant, parsed here) and such a limit. A test with an expression is impossible where a wider expression failed for a text around it (character classes of the constants). The word assembler is analysed with the tag successions as an automaton; that viterbi delivers such a list is shown from its code and from the constant tables (see C24). Every index and slice must be inside, every loop must make some quantity smaller."
	c.R.Assume = append(c.R.Assume, "The text is valid UTF-8.", "package regexp returns matches in order, not overlapping, inside of the text.", "sort.Sort permutes.", "probabilities are added without overflow.")
	t, why := c.posTables()
	if t == nil {
		c.R.Fail("tables-are-constant", "hmm/pos", "", why)
		return
	}
	if !c.taggerTables() {
		return
	}
	k := newKeeper(c)
	s := newSums(k)
	r := &regexps{c: c, memo: map[string]*syntax.Regexp{}}
	tags, split := posTags(k, t), splitFacts(k, r)
	rs := c.Func(modPath+"/hmm/util", "RegexpSplit")
	needText := map[*ssa.Function]bool{} // functions that panic for the empty text
	k.setup = func(q *E4, fn *ssa.Function) {
		tags(q, fn)
		split(q, fn)
		s.config(q)
		old := q.cfg.Inline
		q.cfg.Inline = func(st *St, f *ssa.Function) bool {
			if _, _, ok := k.shape(f); !ok && !givesWord(f) && k.readsTrieDeep(f, map[*ssa.Function]bool{}) {
				return false
			}
			return old(st, f)
		}
		// every call of the splitter passes a capturing expression
		if rs != nil {
			ev := q.cfg.Hooks.Event
			q.cfg.Hooks.Event = func(st *St, e *Ev) {
				if ev != nil {
					ev(st, e)
				}
				if e.kind != "call" {
					return
				}
				if f := k.byN[strings.TrimSuffix(e.name, "$bound")]; f != nil && needText[f] {
					off := 0
					if f.Signature.Recv() != nil && strings.HasSuffix(e.name, "$bound") {
						off = -1
					}
					for i, p := range f.Params {
						if !isSeq(p.Type()) {
							continue
						}
						a := e.args[i+off]
						for a.op == "conv" && isSeq(a.a[0].typ) {
							a = a.a[0] // no text, no runes
						}
						one := linC(-1).addk(q.x.lin(q.x.lenOf(a)), 1)
						if pi, _, ok := k.shape(fn); ok && a == q.x.paramT(fn, pi) && !fn.Object().Exported() {
							needText[fn] = true
						} else {
							c.R.Check(st.proves(one), "the-model-gets-a-text", short(fn), c.Pos(e.in.Pos()), "the text passed to "+short(f)+" may be empty, which makes it panic")
						}
					}
				}
				if e.name != rs.RelString(nil) || fn == rs {
					return
				}
				ex := r.expr(e.args[0])
				n, isC := e.args[2].intVal()
				c.R.Check(ex != nil && ex.MaxCap() > 0 && isC && n != 0, "splits-with-a-capturing-expression", short(fn), c.Pos(e.in.Pos()), "the expression does not capture what it matches, or the limit may be zero: the matches would be lost")
			}
		}
	}
	k.prep = func(q *E4, fn *ssa.Function, st *St) {
		if fn == rs {
			// a limit other than zero
			for i, p := range fn.Params {
				if isInt(p.Type()) {
					st.assume(q.x.arith("==", q.x.paramT(fn, i), q.x.tt.int(0), types.Typ[types.Bool]), false)
				}
			}
		}
	}
	needText[c.Func(modPath+"/hmm/pos", "viterbi")] = true
	var anchors []*ssa.Function
	if rs != nil {
		anchors = append(anchors, rs)
		k.keeps(rs)
	} else {
		c.R.Fail("anchor", "util.RegexpSplit", "", "not found")
	}
	if fn := c.Method(modPath+"/hmm/pos", "Segmenter", "Cut"); fn != nil {
		anchors = append(anchors, fn)
		k.keeps(fn)
	} else {
		c.R.Fail("anchor", "pos.Segmenter.Cut", "", "not found")
	}
	s.report()
	k.report(anchors...)
	c.R.AtLeast("pieces-joined-are-the-text", 3)
}

var _ = sort.Strings
