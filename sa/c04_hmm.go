package main

import (
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// keeper decides, for functions that turn a text into a list of texts, whether the list joined together is the text.
type keeper struct {
	c    *Ctx
	memo map[*ssa.Function]*kept
	byN  map[string]*ssa.Function
	// setup adds what is known about a function before it is analysed
	setup func(q *E4, fn *ssa.Function)
	// prep restricts the parameters
	prep func(q *E4, fn *ssa.Function, st *St)
	// low: the text may come out lower-cased when ToLower is on
	low   bool
	stack []*E3 // running analyses
	bad   bool  // a function was not shown to keep its text: less time for the rest
}

// short1: how long an analysis may take once a function failed.
const short1 = 40 * time.Second

type kept struct {
	busy, done, ok bool
	low            bool
	pi, ri         int
	why            string
	obls           *Report
}

func newKeeper(c *Ctx) *keeper {
	k := &keeper{c: c, memo: map[*ssa.Function]*kept{}, byN: map[string]*ssa.Function{}}
	for _, fn := range c.libFuncs() {
		k.byN[fn.RelString(nil)] = fn
	}
	return k
}

// shape: the one parameter that is a text and the one result that is a list of texts.
func (k *keeper) shape(fn *ssa.Function) (pi, ri int, ok bool) {
	pi, ri = -1, -1
	if fn == nil || fn.Blocks == nil || !k.c.InRepo(fn) || !k.c.Lib(fn) {
		return
	}
	sig := fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		if isTextList(sig.Results().At(i).Type()) {
			if ri >= 0 {
				return
			}
			ri = i
		}
	}
	for i, p := range fn.Params {
		if fn.Signature.Recv() != nil && i == 0 {
			continue
		}
		if isSeq(p.Type()) {
			if pi >= 0 {
				return
			}
			pi = i
		}
	}
	return pi, ri, pi >= 0 && ri >= 0
}

// keeps analyses a function on demand.
func (k *keeper) keeps(fn *ssa.Function) *kept {
	if m := k.memo[fn]; m != nil {
		return m
	}
	m := &kept{}
	k.memo[fn] = m
	pi, ri, ok := k.shape(fn)
	if !ok {
		m.done, m.why = true, "shape"
		return m
	}
	m.pi, m.ri, m.busy = pi, ri, true
	c := k.c
	name := short(fn)
	saved := c.R
	c.R = &Report{}
	defer func() { c.R = saved; m.busy, m.done = false, true }()
	x := newE3(c.World)
	text := x.paramT(fn, pi)
	q := newE4(c, x, fn, E4Cfg{})
	k.config(q, fn)
	all, n := true, 0
	allExact, allLow := true, true
	q.cfg.Hooks.Ret = func(st *St, res []*T) {
		n++
		exact, low := lowered(q, st, text)
		got := q.flat(st, res[ri])
		ok, okLow := false, false
		for _, g := range exact {
			ok = ok || q.Same(st, got, g)
		}
		allExact = allExact && ok
		if k.low {
			for _, g := range low {
				okLow = okLow || q.Same(st, got, g)
			}
			allLow = allLow && okLow
			ok = ok && allExact || okLow && allLow
		}
		if !ok {
			if all {
				m.why = "the pieces joined together are " + clip(q.norm(st, got).String()) + ", not the text; the path: " + clip(litStrings(st.lits))
				for n, w := range k.reasons(res[ri]) {
					m.why += "; " + n + " is not known to keep the text: " + w
				}
			}
			all = false
		}
		c.R.Check(ok, "pieces-joined-are-the-text", name, c.Pos(fn.Pos()), m.why)
	}
	q.bounds("stays-inside", name)
	t0, limit := time.Now(), 150*time.Second
	if k.bad {
		limit = short1
	}
	x.until = t0.Add(limit)
	k.stack = append(k.stack, x)
	ran := q.Run()
	k.stack = k.stack[:len(k.stack)-1]
	if n := len(k.stack); n > 0 {
		k.stack[n-1].until = k.stack[n-1].until.Add(time.Since(t0))
	}
	if !ran {
		m.why = "too many paths"
		c.R.Fail("analysed", name, c.Pos(fn.Pos()), m.why)
	} else {
		q.ends("ends")
	}
	m.ok = ran && all && n > 0
	m.low = !allExact
	if !m.ok {
		k.bad = true
		for _, o := range k.stack {
			if u := time.Now().Add(short1); u.Before(o.until) {
				o.until = u
			}
		}
	}
	m.obls = c.R
	return m
}

// reasons: why calls in a term are not known to keep the text.
func (k *keeper) reasons(t *T) map[string]string {
	o := map[string]string{}
	t.has(func(u *T) bool {
		if u.op == "call" {
			if f := k.byN[callName(u.s)]; f != nil {
				if m := k.memo[f]; m != nil && m.done && !m.ok && m.why != "shape" {
					o[short(f)] = m.why
				}
			}
		}
		return false
	})
	return o
}

// callOf is the in-repo function behind a call result.
func (k *keeper) callOf(t *T) (fn *ssa.Function, call *T, i int) {
	i = -1
	if t.op == "ext" {
		call, i = t.ext()
	} else {
		call = t
	}
	if call == nil || call.op != "call" {
		return nil, nil, 0
	}
	return k.byN[strings.TrimSuffix(callName(call.s), "$bound")], call, i
}

func (k *keeper) config(q *E4, fn *ssa.Function) {
	c := k.c
	q.cfg.Inline = func(st *St, f *ssa.Function) bool {
		if m := k.keeps(f); m.ok || m.busy {
			return false
		}
		return expandAll()(st, f)
	}
	q.cfg.Flat = func(st *St, t *T) (seq, bool) {
		f, call, i := k.callOf(t)
		if f == nil {
			return nil, false
		}
		m := k.keeps(f)
		if !m.ok || i >= 0 && i != m.ri {
			return nil, false
		}
		off := 0
		if strings.HasSuffix(callName(call.s), "$bound") {
			off = -1 // the receiver is not among the arguments
		}
		if len(call.a) < len(f.Params)+off || m.pi+off < 0 {
			return nil, false
		}
		if m.low {
			return q.whole(q.lowT(call.a[m.pi+off])), true
		}
		return q.flat(st, call.a[m.pi+off]), true
	}
	q.cfg.Facts = func(st *St, t *T) []lin { return k.regexpFacts(q, st, t) }
	q.cfg.Prep = func(st *St) {
		if k.prep != nil {
			k.prep(q, fn, st)
		}
	}
	if k.setup != nil {
		k.setup(q, fn)
	}
	_ = c
}

var regexpIndex = map[string]bool{
	"(*regexp.Regexp).FindStringIndex": true, "(*regexp.Regexp).FindIndex": true,
	"(*regexp.Regexp).FindStringSubmatchIndex": true, "(*regexp.Regexp).FindSubmatchIndex": true,
}

// regexpFacts: where the matches of an expression lie.
func (k *keeper) regexpFacts(q *E4, st *St, t *T) []lin {
	x := q.x
	v := lin{map[*T]int64{t: 1}, 0}
	if t.op == "load" && t.a[0].op == "&index" {
		loc := t.a[0].a[0]
		if loc.op == "call" && regexpIndex[callName(loc.s)] {
			i, ok := t.a[0].a[1].intVal()
			if !ok || i > 1 {
				return nil
			}
			n := x.lin(x.lenOf(loc.a[1]))
			o := []lin{v, n.addk(v, -1)}
			if i == 1 {
				a := x.tt.mk(t.op, t.s, t.typ, append([]*T{x.indexAddr(loc, x.tt.int(0), types.NewPointer(t.typ))}, t.a[1:]...)...)
				o = append(o, v.addk(x.lin(a), -1))
			} else {
				a := x.tt.mk(t.op, t.s, t.typ, append([]*T{x.indexAddr(loc, x.tt.int(1), types.NewPointer(t.typ))}, t.a[1:]...)...)
				o = append(o, x.lin(a).addk(v, -1))
			}
			return o
		}
	}
	if t.op == "len" && t.a[0].op == "call" && regexpIndex[callName(t.a[0].s)] {
		if isNil, known := st.truth(x.arith("==", t.a[0], x.tt.nilT(), nil)); known && !isNil {
			r := v.clone()
			r.c -= 2
			return []lin{r}
		}
	}
	return nil
}

// keptReport adds the obligations of the functions that were needed.
func (k *keeper) report(fns ...*ssa.Function) {
	need := map[*ssa.Function]bool{}
	for _, f := range fns {
		need[f] = true
	}
	for _, fn := range k.c.libFuncs() {
		m := k.memo[fn]
		if m == nil || m.obls == nil || !m.ok && !need[fn] {
			continue
		}
		k.c.R.Obls = append(k.c.R.Obls, m.obls.Obls...)
		k.c.R.Unit("functions", 1)
	}
}

func init() { register("C04", checkHMM) }

// hmmTags: the result of Viterbi in package hmm is a list of tags.
func hmmTags(k *keeper) func(q *E4, fn *ssa.Function) {
	c := k.c
	vit := c.Func(modPath+"/hmm", "Viterbi")
	path := func(t *T) *T { // the call
		call, i := t.ext()
		if call != nil && i == 1 && vit != nil && call.op == "call" && callName(call.s) == vit.RelString(nil) && call.a[1].op == "list" {
			set := ""
			for _, e := range call.a[1].a {
				if n, ok := e.intVal(); ok {
					set += string(rune(n))
				}
			}
			if strings.Contains(set, "B") && strings.Contains(set, "M") && strings.Contains(set, "E") && strings.Contains(set, "S") {
				return call
			}
		}
		return nil
	}
	return func(q *E4, fn *ssa.Function) {
		x := q.x
		q.cfg.TagList = func(t *T) bool { return path(t) != nil }
		q.cfg.TagLit = func(st *St, l Lit, elem func(*T) bool) int {
			all := tagB | tagE | tagM | tagS
			if l.t.op != "==" || len(l.t.a) != 2 {
				return all
			}
			for i := range l.t.a {
				if !elem(l.t.a[i]) {
					continue
				}
				if n, ok := l.t.a[1-i].intVal(); ok {
					s := map[int64]int{'B': tagB, 'E': tagE, 'M': tagM, 'S': tagS}[n]
					if l.pol {
						return s
					}
					return all &^ s
				}
			}
			return all
		}
		old := q.cfg.Facts
		q.cfg.Facts = func(st *St, t *T) []lin {
			o := old(st, t)
			if t.op == "len" && path(t.a[0]) != nil {
				d := lin{map[*T]int64{t: 1}, 0}.addk(x.lin(x.lenOf(path(t.a[0]).a[0])), -1)
				o = append(o, d, linC(0).addk(d, -1))
			}
			return o
		}
		q.bounds("stays-inside", short(fn))
	}
}

func checkHMM(c *Ctx) {
	c.R.Rule = "hmm.Cut and what it calls are evaluated path by path with inferred loop invariants: on every return the pieces joined together must be the text (a callee's pieces are used only after the callee was shown to keep its text; where a match of an expression lies is taken from package regexp's documentation), every index and slice must be inside, every loop must make some quantity smaller. The word assembler is analysed with the tag successions as an automaton: after a begin or middle only a middle or end can come, after an end or single only a begin or single; that Viterbi delivers exactly such a list, one tag per character, is shown from its code (each path is a fresh copy of one found for the character before, chosen from the table of predecessors, with the tag at its end) and from the constants of that table."
	c.R.Assume = append(c.R.Assume, "The text is valid UTF-8 (invalid bytes become U+FFFD when the text is taken apart into characters).", "package regexp returns matches inside of the text with begin <= end.", "sort.Sort permutes.")
	k := newKeeper(c)
	k.setup = hmmTags(k)
	var anchors []*ssa.Function
	for _, a := range []struct{ pkg, typ, name string }{
		{modPath + "/hmm", "", "Cut"}, {modPath, "Segmenter", "HMMCut"}, {modPath, "Segmenter", "HMMCutMod"},
	} {
		var fn *ssa.Function
		if a.typ == "" {
			fn = c.Func(a.pkg, a.name)
		} else {
			fn = c.Method(a.pkg, a.typ, a.name)
		}
		if fn == nil {
			c.R.Fail("anchor", a.name, "", "not found")
			continue
		}
		anchors = append(anchors, fn)
		k.keeps(fn)
	}
	if vit := c.Func(modPath+"/hmm", "Viterbi"); vit != nil {
		c.checkViterbi(vit)
	} else {
		c.R.Fail("anchor", "hmm.Viterbi", "", "not found")
	}
	k.report(anchors...)
	c.R.AtLeast("pieces-joined-are-the-text", 1)
}

var _ types.Type
