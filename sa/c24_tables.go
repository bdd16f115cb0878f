package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C24", checkTables) }

// cval is a constant that package initialisation puts into a variable.
type cval struct {
	k    constant.Value
	m    map[string]*cval // by the exact form of the key
	keys map[string]constant.Value
	l    []*cval
	pos  token.Pos
}

func (v *cval) ints() (map[int64]*cval, bool) {
	o := map[int64]*cval{}
	if v == nil || v.m == nil {
		return nil, false
	}
	for k, e := range v.m {
		n, ok := constant.Int64Val(constant.ToInt(v.keys[k]))
		if !ok {
			return nil, false
		}
		o[n] = e
	}
	return o, true
}

func (v *cval) float() (float64, bool) {
	if v == nil || v.k == nil {
		return 0, false
	}
	f := constant.ToFloat(v.k)
	if f.Kind() != constant.Float {
		return 0, false
	}
	x, _ := constant.Float64Val(f)
	return x, true
}

// constOf evaluates what an expression of the initialisation builds out of constants.
func constOf(v ssa.Value) *cval {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return nil
		}
		return &cval{k: v.Value}
	case *ssa.ChangeType:
		return constOf(v.X)
	case *ssa.Convert:
		return constOf(v.X)
	case *ssa.MakeMap:
		o := &cval{m: map[string]*cval{}, keys: map[string]constant.Value{}, pos: v.Pos()}
		if !fillMap(o, v) {
			return nil
		}
		return o
	case *ssa.Slice:
		a, ok := v.X.(*ssa.Alloc)
		if !ok || v.Low != nil || v.High != nil {
			return nil
		}
		return constArray(a, v)
	}
	return nil
}

func constArray(a *ssa.Alloc, self ssa.Instruction) *cval {
	at, ok := derefType(a.Type()).Underlying().(*types.Array)
	if !ok {
		return nil
	}
	o := &cval{l: make([]*cval, at.Len()), pos: a.Pos()}
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			i, ok := constInt(r.Index)
			if !ok {
				return nil
			}
			for _, r2 := range *r.Referrers() {
				st, ok := r2.(*ssa.Store)
				if !ok || o.l[i] != nil {
					return nil
				}
				if o.l[i] = constOf(st.Val); o.l[i] == nil {
					return nil
				}
			}
		case *ssa.DebugRef:
		default:
			if r != self {
				return nil
			}
		}
	}
	for i, e := range o.l {
		if e == nil {
			if b, ok := at.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
				o.l[i] = &cval{k: constant.MakeInt64(0)}
			} else {
				return nil
			}
		}
	}
	return o
}

// fillMap adds the entries that are put into the map v.
func fillMap(o *cval, v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			if r.Map != v {
				continue
			}
			k := constOf(r.Key)
			e := constOf(r.Value)
			if k == nil || k.k == nil || e == nil {
				return false
			}
			x := k.k.ExactString()
			if o.m[x] != nil {
				return false
			}
			o.m[x], o.keys[x] = e, k.k
			if e.pos == token.NoPos {
				e.pos = r.Pos()
			}
		case *ssa.ChangeType:
			if !fillMap(o, r) {
				return false
			}
		}
	}
	return true
}

// constTable evaluates a package variable; filler is a function besides the initialisation that may fill it.
func (c *Ctx) constTable(pkg, name string, filler ...string) (*cval, string) {
	sp := c.SSA[pkg]
	if sp == nil {
		return nil, "no package"
	}
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		return nil, "no variable " + name
	}
	var out *cval
	fns := append([]*ssa.Function(nil), c.Funcs...)
	if f := sp.Func("init"); f != nil {
		in := false
		for _, h := range fns {
			in = in || h == f
		}
		if !in {
			fns = append(fns, f)
		}
	}
	isInit := func(fn *ssa.Function) bool {
		if fn.Pkg == sp && fn.Signature.Recv() == nil && (fn.Name() == "init" || isInitN(fn)) {
			return true
		}
		for _, f := range filler {
			if fn.Pkg == sp && fn.Name() == f {
				return true
			}
		}
		return false
	}
	var ups []*ssa.MapUpdate
	why := ""
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if in.Addr != g {
						continue
					}
					if !isInit(fn) || out != nil {
						return nil, "it is assigned in " + short(fn)
					}
					if out = constOf(in.Val); out == nil {
						return nil, "its value is not made of constants"
					}
				case *ssa.MapUpdate:
					if u, ok := in.Map.(*ssa.UnOp); ok && u.X == g {
						if !isInit(fn) {
							why = "it is written in " + short(fn)
						}
						ups = append(ups, in)
					}
				}
			}
		}
	}
	if out == nil {
		return nil, "it has no initial value"
	}
	if why != "" {
		return nil, why
	}
	for _, u := range ups {
		k, e := constOf(u.Key), constOf(u.Value)
		if k == nil || k.k == nil || e == nil || out.m == nil {
			return nil, "an entry is not made of constants"
		}
		x := k.k.ExactString()
		if out.m[x] != nil {
			return nil, "an entry is written twice"
		}
		out.m[x], out.keys[x] = e, k.k
		if e.pos == token.NoPos {
			e.pos = u.Pos()
		}
	}
	return out, ""
}

// posTables are the constants of the tagger.
type posTables struct {
	trans map[int64]map[int64]*cval
	start map[int64]*cval
	emit  map[int64]*cval
	chars map[int64][]int64
	cpos  map[int64]token.Pos
	poss  []string
	posit []string
	live  map[int64]bool
}

func intsOf(v *cval) ([]int64, bool) {
	if v == nil || v.l == nil {
		return nil, false
	}
	var o []int64
	for _, e := range v.l {
		if e.k == nil {
			return nil, false
		}
		n, ok := constant.Int64Val(constant.ToInt(e.k))
		if !ok {
			return nil, false
		}
		o = append(o, n)
	}
	return o, true
}

func stringsOf(v *cval) ([]string, bool) {
	if v == nil || v.l == nil {
		return nil, false
	}
	var o []string
	for _, e := range v.l {
		if e.k == nil || e.k.Kind() != constant.String {
			return nil, false
		}
		o = append(o, constant.StringVal(e.k))
	}
	return o, true
}

func (c *Ctx) posTables() (*posTables, string) {
	pkg := modPath + "/hmm/pos"
	t := &posTables{trans: map[int64]map[int64]*cval{}, chars: map[int64][]int64{}, cpos: map[int64]token.Pos{}, live: map[int64]bool{}}
	get := func(n string) (*cval, string) {
		v, why := c.constTable(pkg, n)
		if v == nil {
			return nil, n + ": " + why
		}
		return v, ""
	}
	v, why := get("probTrans")
	if v == nil {
		return nil, why
	}
	rows, ok := v.ints()
	if !ok {
		return nil, "probTrans is not a table of states"
	}
	for k, r := range rows {
		if t.trans[k], ok = r.ints(); !ok {
			return nil, fmt.Sprintf("probTrans[%d] is not a table", k)
		}
		t.cpos[k] = r.pos
		if len(t.trans[k]) > 0 {
			t.live[k] = true
		}
	}
	if v, why = get("probStart"); v == nil {
		return nil, why
	}
	if t.start, ok = v.ints(); !ok {
		return nil, "probStart is not a table of states"
	}
	if v, why = get("probEmit"); v == nil {
		return nil, why
	}
	if t.emit, ok = v.ints(); !ok {
		return nil, "probEmit is not a table of states"
	}
	if v, why = get("charStateTab"); v == nil {
		return nil, why
	}
	cs, ok := v.ints()
	if !ok {
		return nil, "charStateTab is not a table of characters"
	}
	for k, e := range cs {
		if t.chars[k], ok = intsOf(e); !ok {
			return nil, "charStateTab has an entry that is not a list of states"
		}
	}
	if v, why = get("poss"); v == nil {
		return nil, why
	}
	if t.poss, ok = stringsOf(v); !ok {
		return nil, "poss is not a list of texts"
	}
	if v, why = get("positions"); v == nil {
		return nil, why
	}
	if t.posit, ok = stringsOf(v); !ok {
		return nil, "positions is not a list of texts"
	}
	return t, ""
}

func ordered[V any](m map[int64]V) []int64 {
	var o []int64
	for k := range m {
		o = append(o, k)
	}
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

// logProb checks the entries of a table of logarithms of probabilities.
func (c *Ctx) logProb(rule, name string, v map[int64]*cval) {
	for _, k := range ordered(v) {
		f, ok := v[k].float()
		if !ok || f > 0 || math.IsNaN(f) || math.IsInf(f, 0) {
			c.R.Fail(rule, fmt.Sprintf("%s[%d]", name, k), c.Pos(v[k].pos), "the entry is not the logarithm of a probability")
			return
		}
	}
	c.R.OK(rule, name, "")
	c.R.Unit("table entries", len(v))
}

// positionCode: what position() answers for every hundred.
func (c *Ctx) positionCode() (map[int64]string, string) {
	fn := c.Method(modPath+"/hmm/pos", "tag", "position")
	if fn == nil {
		return nil, "no method position"
	}
	x := newE3(c.World)
	p := x.paramT(fn, 0)
	out := map[int64]string{}
	why := ""
	x.extra = func(st *St, t *T) []lin {
		if t.op == "len" && t.a[0].op == "load" && t.a[0].a[0].op == "global" {
			g := t.a[0].a[0].s
			if v, _ := c.constTable(modPath+"/hmm/pos", g[strings.LastIndex(g, ".")+1:]); v != nil && v.l != nil {
				d := lin{map[*T]int64{t: 1}, -int64(len(v.l))}
				return []lin{d, linC(0).addk(d, -1)}
			}
		}
		return nil
	}
	for k := int64(1); k <= 4; k++ {
		h := &Hooks{Inline: expandAll()}
		n := 0
		h.Ret = func(st *St, res []*T) {
			s, ok := res[0].strVal()
			if r := res[0]; !ok && r.op == "load" && r.a[0].op == "&index" {
				if b := r.a[0].a[0]; b.op == "load" && b.a[0].op == "global" {
					if v, _ := c.constTable(modPath+"/hmm/pos", b.a[0].s[strings.LastIndex(b.a[0].s, ".")+1:]); v != nil {
						l, _ := stringsOf(v)
						for i := range l {
							if st.eqI(r.a[0].a[1], x.tt.int(int64(i))) {
								s, ok = l[i], true
							}
						}
					}
				}
			}
			if !ok {
				why = "it answers " + clip(res[0].String())
				return
			}
			if n++; n > 1 && out[k] != s {
				why = "it has several answers for the same hundred"
			}
			out[k] = s
		}
		if x.RunWith(fn, h, func(st *St) {
			lo := lin{map[*T]int64{p: 1}, -100 * k}
			hi := lin{map[*T]int64{p: -1}, 100*k + 99}
			st.facts = append(st.facts, lo, hi)
			ci := x.tt.mk("conv", "", types.Typ[types.Int], p)
			st.facts = append(st.facts, lin{map[*T]int64{ci: 1}, -100 * k}, lin{map[*T]int64{ci: -1}, 100*k + 99})
			di := x.arith("/", ci, x.tt.int(100), types.Typ[types.Int])
			st.assume(x.arith("==", di, x.tt.int(k), types.Typ[types.Bool]), true)
			d := x.arith("/", p, x.tt.konst(constant.MakeInt64(100), p.typ), p.typ)
			st.assume(x.arith("==", d, x.tt.konst(constant.MakeInt64(k), p.typ), types.Typ[types.Bool]), true)
		}) {
			return nil, "too many paths"
		}
	}
	return out, why
}

// follow: the positions that may come after a position.
var follow = map[string]string{"B": "ME", "M": "ME", "E": "BS", "S": "BS"}

// taggerTables checks the tables of package pos.
func (c *Ctx) taggerTables() bool {
	posOK := func(st int64, code map[int64]string) string { return code[st/100] }

	code, why := c.positionCode()
	fn := c.Method(modPath+"/hmm/pos", "tag", "position")
	fpos := ""
	if fn != nil {
		fpos = c.Pos(fn.Pos())
	}
	want := map[int64]string{1: "B", 2: "E", 3: "M", 4: "S"}
	ok := why == "" && len(code) == 4
	for k, s := range want {
		ok = ok && code[k] == s
	}
	c.R.Check(ok, "positions", "tag.position", fpos, fmt.Sprintf("a tag of 1xx, 2xx, 3xx, 4xx must be a begin, end, middle, single; position answers %v %s", code, why))
	if !ok {
		return false
	}
	t, why := c.posTables()
	if t == nil {
		c.R.Fail("tables-are-constant", "hmm/pos", "", why)
		return false
	}
	for i, s := range t.posit {
		c.R.Check(code[int64(i+1)] == s, "positions", fmt.Sprintf("positions[%d]", i), "", "the list of positions says "+s+", position says "+code[int64(i+1)])
	}
	c.R.Check(len(t.posit) == 4, "positions", "positions", "", fmt.Sprintf("%d positions", len(t.posit)))
	seenT := map[string]bool{}
	for _, s := range t.poss {
		c.R.Check(!seenT[s] && s != "", "tags", "poss "+s, "", "a tag is listed twice or is empty")
		seenT[s] = true
	}
	for _, s := range ordered(t.trans) {
		name := fmt.Sprintf("state %d", s)
		c.R.Check(posOK(s, code) != "" && s%100 < int64(len(t.poss)), "states-have-a-position-and-a-tag", name, c.Pos(t.cpos[s]), "the state has no position or no tag")
		for _, y := range ordered(t.trans[s]) {
			_, known := t.trans[y]
			c.R.Check(known, "known-states", name, c.Pos(t.cpos[s]), fmt.Sprintf("a transition leads to %d, which is no state", y))
			c.R.Check(strings.Contains(follow[code[s/100]], code[y/100]) && code[y/100] != "", "assembled-sequences", name, c.Pos(t.cpos[s]), fmt.Sprintf("%d may be followed by %d, which the assembler does not expect", s, y))
			c.R.Check(t.live[y], "states-can-be-left", name, c.Pos(t.cpos[s]), fmt.Sprintf("a transition leads to %d, which has no transitions", y))
		}
		c.logProb("probabilities", fmt.Sprintf("probTrans[%d]", s), t.trans[s])
	}
	c.R.Check(len(t.live) > 0, "states-can-be-left", "all states", "", "no state has transitions")
	for _, s := range ordered(t.start) {
		_, known := t.trans[s]
		c.R.Check(known, "known-states", fmt.Sprintf("probStart[%d]", s), c.Pos(t.start[s].pos), "no such state")
	}
	c.logProb("probabilities", "probStart", t.start)
	for _, s := range ordered(t.emit) {
		_, known := t.trans[s]
		c.R.Check(known, "known-states", fmt.Sprintf("probEmit[%d]", s), c.Pos(t.emit[s].pos), "no such state")
		e, ok := t.emit[s].ints()
		if !ok {
			c.R.Fail("probabilities", fmt.Sprintf("probEmit[%d]", s), c.Pos(t.emit[s].pos), "not a table of characters")
			continue
		}
		c.logProb("probabilities", fmt.Sprintf("probEmit[%d]", s), e)
	}
	for _, s := range ordered(t.trans) {
		_, a := t.start[s]
		_, b := t.emit[s]
		c.R.Check(a && b, "states-have-a-start-and-emissions", fmt.Sprintf("state %d", s), c.Pos(t.cpos[s]), "the state is missing in probStart or probEmit")
	}
	badC := ""
	n := 0
	for _, r := range ordered(t.chars) {
		if len(t.chars[r]) == 0 {
			badC = fmt.Sprintf("the character %q has no states", rune(r))
		}
		for _, s := range t.chars[r] {
			n++
			if _, known := t.trans[s]; !known {
				badC = fmt.Sprintf("the character %q has the state %d, which is none", rune(r), s)
			} else if !t.live[s] {
				badC = fmt.Sprintf("the character %q has the state %d, which has no transitions", rune(r), s)
			}
		}
	}
	c.R.Check(badC == "", "known-states", "charStateTab", "", badC)
	c.R.Unit("table entries", n)
	return true
}

func checkTables(c *Ctx) {
	c.R.Rule = "The tables of both models are evaluated from the constants the package initialisation stores (and must not be written elsewhere): every state has a position the assembler knows and a tag in the list of tags, every state named by a transition, a start, an emission or a character is a state of the transition table, every state that a character or a transition leads to can be left again, every entry is a finite logarithm of a probability, a begin or middle is followed by a middle or end only and an end or single by a begin or single only; the positions the code of position answers are those the list of positions has; the predecessor table of package hmm holds exactly the transitions its table has."
	if !c.taggerTables() {
		return
	}

	// package hmm
	hp := modPath + "/hmm"
	tr, why := c.constTable(hp, "probTrans")
	rows, ok := tr.ints()
	if tr == nil || !ok {
		c.R.Fail("tables-are-constant", "hmm.probTrans", "", why)
		return
	}
	pv, why := c.constTable(hp, "prevStatus")
	prev, ok := pv.ints()
	if pv == nil || !ok {
		c.R.Fail("tables-are-constant", "hmm.prevStatus", "", why)
		return
	}
	st, why := c.constTable(hp, "probStart")
	start, ok := st.ints()
	if st == nil || !ok {
		c.R.Fail("tables-are-constant", "hmm.probStart", "", why)
		return
	}
	c.logProb("probabilities", "hmm.probStart", start)
	trans := map[int64]map[int64]bool{}
	for _, s := range ordered(rows) {
		name := fmt.Sprintf("hmm.probTrans[%c]", rune(s))
		r, ok := rows[s].ints()
		if !ok {
			c.R.Fail("tables-are-constant", name, c.Pos(rows[s].pos), "not a table")
			continue
		}
		trans[s] = map[int64]bool{}
		c.logProb("probabilities", name, r)
		for _, y := range ordered(r) {
			trans[s][y] = true
			c.R.Check(strings.Contains(follow[string(rune(s))], string(rune(y))), "assembled-sequences", name, c.Pos(rows[s].pos), fmt.Sprintf("%c may be followed by %c", rune(s), rune(y)))
		}
	}
	for _, s := range "BMES" {
		_, a := trans[int64(s)]
		_, b := start[int64(s)]
		_, d := prev[int64(s)]
		c.R.Check(a && b && d, "known-states", fmt.Sprintf("hmm state %c", s), "", "the state is missing in a table")
	}
	c.R.Check(len(trans) == 4 && len(start) == 4 && len(prev) == 4, "known-states", "hmm states", "", "the states are not B, M, E, S")
	for _, y := range ordered(prev) {
		name := fmt.Sprintf("hmm.prevStatus[%c]", rune(y))
		l, ok := intsOf(prev[y])
		has := map[int64]bool{}
		for _, s := range l {
			c.R.Check(!has[s] && trans[s][y], "predecessors-are-the-transitions", name, c.Pos(prev[y].pos), fmt.Sprintf("%c is listed, the transition table does not lead from it", rune(s)))
			has[s] = true
		}
		for _, s := range ordered(trans2(trans)) {
			if trans[s][y] && !has[s] {
				ok = false
			}
		}
		c.R.Check(ok && len(l) > 0, "predecessors-are-the-transitions", name, c.Pos(prev[y].pos), "a predecessor of the transition table is missing")
	}
	c.defaultEmit()
}

func trans2(t map[int64]map[int64]bool) map[int64]bool {
	o := map[int64]bool{}
	for k := range t {
		o[k] = true
	}
	return o
}

// defaultEmit checks the emission tables that the library ships for package hmm: every constant table of characters that is
// put into probEmit.
func (c *Ctx) defaultEmit() {
	sp := c.SSA[modPath+"/hmm"]
	g, ok := sp.Members["probEmit"].(*ssa.Global)
	if !ok {
		c.R.Fail("anchor", "hmm.probEmit", "", "not found")
		return
	}
	seen := map[int64]bool{}
	for _, fn := range c.Funcs {
		if fn.Pkg != sp {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				l, ok := u.Map.(*ssa.UnOp)
				if !ok || l.X != g {
					continue
				}
				k, isC := constInt(u.Key)
				e := constOf(u.Value)
				if e == nil {
					continue // a model of the caller
				}
				name := fmt.Sprintf("hmm.probEmit[%c]", rune(k))
				c.R.Check(isC && strings.ContainsRune("BMES", rune(k)), "known-states", name, c.Pos(in.Pos()), "no such state")
				m, ok := e.ints()
				if !ok || len(m) == 0 {
					c.R.Fail("probabilities", name, c.Pos(in.Pos()), "not a table of characters")
					continue
				}
				seen[k] = true
				c.logProb("probabilities", name, m)
			}
		}
	}
	for _, s := range "BMES" {
		c.R.Check(seen[int64(s)], "known-states", fmt.Sprintf("hmm.probEmit[%c]", s), "", "the shipped model has no emissions for the state")
	}
}
