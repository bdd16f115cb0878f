package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// E4 evaluates a function with inferred loop invariants: linear relations of its counters, and what its accumulators hold.
// Candidates are assumed at the head of every loop and dropped until all that remain are established on entry and kept by every path.
type E4 struct {
	c      *Ctx
	x      *E3
	fn     *ssa.Function
	cfg    E4Cfg
	loops  map[string]*loopC
	built  map[*T]seq
	disc   bool // discovery run
	drop   bool
	wrong  map[*scand]int // not kept in this run, and how deep the loop is
	debug  bool
	t0     time.Time
	runs   int
	over   bool
	inX    int
	final  bool
	rel    map[*T]bool // integer terms that are compared or used as bounds
	nb     int
	again  func()      // called between final runs
	passes int         // how many more final runs
	dirty  map[*T]bool // calls whose result is written to
	noLen  bool
	eqs    map[eqKey]bool
	args   map[*T]lin // linear expressions by the terms that stand for them
}

type E4Cfg struct {
	Inline func(st *St, f *ssa.Function) bool
	// Flat gives the text of a term.
	Flat func(st *St, t *T) (seq, bool)
	// Facts gives facts about an integer term.
	Facts func(st *St, t *T) []lin
	Hooks Hooks // of the final run
	Prep  func(st *St)
	Call  func(st *St, in ssa.CallInstruction, name string, args []*T) []*T
	// TagList: a list of begin/middle/end/single tags that only has allowed successions.
	TagList func(t *T) bool
	// MatchList: the matches of an expression in a text, one after the other, as lists of positions.
	MatchList func(t *T) (text *T, ok bool)
	// Chain: a list of steps; the function gives the number of steps from an index back to the start.
	Chain func(st *St, list, i *T) *T
	// Len: lengths of texts are followed.
	Len bool
	// Copied is told about texts copied into a buffer; why is empty when they are put where they belong.
	Copied func(st *St, in ssa.Instruction, why string)
	// Note is called when a loop is entered and at its end.
	Note func(st *St)
	// Event is called in every run, Hooks.Event only in the final one.
	Event func(st *St, e *Ev)
	// ListLen: the lengths of lists are followed.
	ListLen bool
	// Offs: parts of texts may also end one behind a variable.
	Offs bool
	// TagLit: the tags (1 begin, 2 end, 4 middle, 8 single) a literal leaves for an element.
	TagLit func(st *St, l Lit, elem func(*T) bool) int
}

const (
	tagB = 1 << iota
	tagE
	tagM
	tagS
)

type loopC struct {
	l       *LoopI
	fn      *ssa.Function
	name    string
	pos     string
	depth   int
	ghosts  []*ghost
	lins    []*lcand
	seqs    []*scand
	bases   map[*T]bool
	atoms   map[*T]bool
	inv     map[*T]bool // known on entry
	made    bool
	ms      []*measure
	paths   [][2][]bool // strict and weak per measure
	iter    bool
	entered bool
	tags    map[string]*ghost // lists of tags that are read one after the other
	chains  map[string]*ghost // lists of steps that are followed
}

// ghost is a variable the program does not have: the position of an iterator or the contents of a builder.
type ghost struct {
	name  string
	key   string // in st.data
	it    *T     // iterator
	list  *T     // list of tags, or of matches
	match bool
	v     int // the variable that is the index in it
	off   int64
	sym   *T
	init  *T
	is    seq
	chain bool
	num   string // it is the length of this text
	size  bool   // it is the length of variable v, a list
}

type lcand struct {
	p    map[int]int64
	rest lin
	cond []catom
	dead bool
}

type scand struct {
	accs []int
	base *T
	e    int // -1: none
	off  int64
	cond []catom
	dead bool
}

type catom struct {
	phi int
	t   *T
	pol bool
}

type measure struct {
	p    map[int]int64
	rest lin
	s    int // or the length of a sequence
}

func newE4(c *Ctx, x *E3, fn *ssa.Function, cfg E4Cfg) *E4 {
	q := &E4{c: c, x: x, fn: fn, cfg: cfg, loops: map[string]*loopC{}, built: map[*T]seq{}, dirty: map[*T]bool{}, rel: map[*T]bool{}}
	q.debug = os.Getenv("E4DEBUG") == short(fn)
	return q
}

// Run infers the invariants and evaluates the function with them; it reports false when it gave up.
func (q *E4) Run() bool {
	old := q.x.extra
	q.x.extra = q.extra
	defer func() { q.x.extra = old }()
	q.disc = true
	q.t0 = time.Now()
	q.once()
	for _, lc := range q.loops {
		if lc.tags != nil || lc.chains != nil {
			q.once()
			break
		}
	}
	q.disc = false
	if q.over {
		return false
	}
	q.candidates()
	// what accumulators hold is found without their lengths: a wrong guess must not make others empty
	q.noLen = true
	for i := 0; ; i++ {
		q.drop = false
		q.wrong = map[*scand]int{}
		q.once()
		if q.over || i > 60 {
			return false
		}
		if q.drop {
			continue // a wrong relation of counters may have spoiled what the accumulators hold
		}
		if len(q.wrong) == 0 {
			if q.cfg.Len && q.noLen {
				q.noLen = false
				for _, lc := range q.loops {
					for _, k := range lc.lins {
						k.dead = false
					}
				}
				continue
			}
			break
		}
		deep := 0
		for _, d := range q.wrong {
			if d > deep {
				deep = d
			}
		}
		for k, d := range q.wrong {
			if d == deep {
				k.dead = true
			}
		}
	}
	if q.debug {
		for _, id := range sortedKeys(q.loops) {
			lc := q.loops[id]
			fmt.Println("loop", id, lc.pos)
			for _, k := range lc.lins {
				if !k.dead {
					fmt.Println("   inv", lc.lin(k, lc.syms(lc.l.syms)))
				}
			}
			for _, k := range lc.seqs {
				if !k.dead {
					fmt.Println("   seq", lc.show(k))
				}
			}
		}
	}
	if os.Getenv("E4TIME") != "" {
		fmt.Fprintln(os.Stderr, "E4", short(q.fn), q.runs, "runs", time.Since(q.t0))
	}
	q.final = true
	q.once()
	for i := 0; i < q.passes; i++ {
		q.again()
		q.once()
	}
	return !q.over
}

func (lc *loopC) show(k *scand) string {
	var o []string
	for _, a := range k.accs {
		o = append(o, lc.varName(a))
	}
	s := strings.Join(o, " + ")
	if k.base != nil {
		s += fmt.Sprintf(" = .. %s[..%s+%d]", k.base, lc.varName(k.e), k.off)
	}
	for _, c := range k.cond {
		n := ""
		if c.t != nil {
			n = c.t.String()
		} else {
			n = lc.varName(c.phi)
		}
		s += fmt.Sprintf(" if %s=%v", n, c.pol)
	}
	return s
}

func (lc *loopC) varName(i int) string {
	if i < len(lc.l.phis) {
		p := lc.l.phis[i]
		if p.Comment != "" {
			return p.Comment
		}
		return p.Name()
	}
	return lc.ghosts[i-len(lc.l.phis)].name
}

// syms: the values of the variables of a loop, ghosts last.
func (lc *loopC) syms(ps []*T) []*T {
	o := append([]*T(nil), ps...)
	for _, g := range lc.ghosts {
		o = append(o, g.sym)
	}
	return o
}

func (lc *loopC) lin(k *lcand, vals []*T) string {
	s := linString(instLin(nil, k.p, k.rest, vals)) + " >= 0"
	for _, l := range condLits(k.cond, vals) {
		s += " if " + l.String()
	}
	return s
}

func instLin(x *E3, p map[int]int64, rest lin, vals []*T) lin {
	l := rest.clone()
	for i, c := range p {
		if x == nil {
			l = l.addk(lin{map[*T]int64{vals[i]: 1}, 0}, c)
		} else {
			l = l.addk(x.lin(vals[i]), c)
		}
	}
	return l
}

func (q *E4) once() {
	q.runs++
	q.nb = 0
	h := Hooks{}
	if q.final {
		h = q.cfg.Hooks
	}
	h.Inline = q.cfg.Inline
	uEvent, uLoop, uBack, uIndex, uSlice := h.Event, h.Loop, h.Back, h.Index, h.Slice
	h.Event = func(st *St, e *Ev) {
		q.event(st, e)
		if q.cfg.Event != nil {
			q.cfg.Event(st, e)
		}
		if uEvent != nil {
			uEvent(st, e)
		}
	}
	h.Loop = func(st *St, l *LoopI) {
		q.loop(st, l)
		if uLoop != nil {
			uLoop(st, l)
		}
	}
	h.Back = func(st *St, l *LoopI, next []*T) {
		q.back(st, l, next)
		if uBack != nil {
			uBack(st, l, next)
		}
	}
	h.Index = func(st *St, in ssa.Instruction, b, i *T) {
		q.relevant(q.x.lin(i))
		q.relevant(q.x.lin(q.x.lenOf(b)))
		if q.disc && q.cfg.TagList != nil && q.cfg.TagList(b) {
			q.noteTags(b, q.x.lin(i), false)
		}
		if q.disc && (q.cfg.Chain != nil || q.cfg.Len) {
			q.noteChain(st, b, q.x.lin(i))
		}
		if q.disc && q.cfg.MatchList != nil {
			if _, ok := q.cfg.MatchList(b); ok {
				q.noteTags(b, q.x.lin(i), true)
			}
		}
		if uIndex != nil {
			uIndex(st, in, b, i)
		}
	}
	h.Slice = func(st *St, in *ssa.Slice, b, lo, hi *T) {
		if !lo.isNil() {
			q.relevant(q.x.lin(lo))
		}
		if !hi.isNil() {
			q.relevant(q.x.lin(hi))
		}
		q.relevant(q.x.lin(q.x.lenOf(b)))
		if uSlice != nil {
			uSlice(st, in, b, lo, hi)
		}
	}
	if q.cfg.Len {
		h.Copy = q.copied
	}
	h.Call = func(st *St, in ssa.CallInstruction, name string, args []*T) []*T {
		if r := q.builderCall(st, in, name, args); r != nil {
			return r
		}
		if q.cfg.Call != nil {
			return q.cfg.Call(st, in, name, args)
		}
		return nil
	}
	if q.x.RunWith(q.fn, &h, q.cfg.Prep) {
		q.over = true
	}
}

// noteTags: the list of tags b is read at i.
func (q *E4) noteTags(b *T, i lin, match bool) {
	for _, lc := range q.loops {
		for j, s := range lc.l.syms {
			if len(i.k) == 1 && i.k[s] == 1 {
				if lc.tags == nil {
					lc.tags = map[string]*ghost{}
				}
				k := fmt.Sprintf("tag:%d/%d/%d", b.id, j, i.c)
				lc.tags[k] = &ghost{name: "inside", key: k, list: b, v: j, off: i.c, match: match}
			}
		}
	}
}

// noteChain: the list of steps b is read at i.
func (q *E4) noteChain(st *St, b *T, i lin) {
	if !q.cfg.Len && q.cfg.Chain(st, b, q.x.tt.int(0)) == nil {
		return
	}
	if q.cfg.Len {
		if b, i = q.listOf(b, i); !isWords(b.typ) {
			return
		}
	}
	for _, lc := range q.loops {
		for j, s := range lc.l.syms {
			if len(i.k) == 1 && i.k[s] == 1 && (i.c == 0 || q.cfg.Len) {
				if lc.chains == nil {
					lc.chains = map[string]*ghost{}
				}
				k := fmt.Sprintf("chain:%d/%d/%d", b.id, j, i.c)
				lc.chains[k] = &ghost{name: "steps", key: k, list: b, v: j, off: i.c, chain: true}
			}
		}
	}
}

func (q *E4) chainAt(st *St, g *ghost, i *T) *T {
	if q.cfg.Len {
		e := q.x.lin(i)
		e.c += g.off
		return q.flen(st, g.list, e)
	}
	return q.cfg.Chain(st, g.list, i)
}

func (q *E4) relevant(l lin) {
	if !q.disc {
		return
	}
	for t := range l.k {
		q.rel[t] = true
	}
}

// extra gives facts about iterators and what the caller knows.
func (q *E4) extra(st *St, t *T) []lin {
	if q.inX > 2 {
		return nil
	}
	q.inX++
	defer func() { q.inX-- }()
	x := q.x
	var o []lin
	v := lin{map[*T]int64{t: 1}, 0}
	switch t.op {
	case "gpos":
		it := t.a[0]
		n := x.lin(x.lenOf(it.a[0]))
		o = append(o, v, n.addk(v, -1))
		for _, l := range st.lits {
			if l.t.op == "itok" && l.t.a[0] == it && st.data["pos:"+it.s] == t {
				if l.pol {
					r := x.lin(q.runeLen(it, t))
					a := r.clone()
					a.c--
					o = append(o, a, n.addk(v, -1).addk(r, -1))
				} else {
					o = append(o, v.addk(n, -1))
				}
			}
		}
	case "rangeidx":
		if g, ok := st.data["pos:"+t.a[0].s].(*T); ok {
			d := v.addk(x.lin(g), -1)
			o = append(o, d, linC(0).addk(d, -1))
		}
	}
	if q.cfg.MatchList != nil {
		o = append(o, q.matchFacts(st, t)...)
	}
	if cls, _ := st.data["clins"].([]*clin); cls != nil {
		for _, c := range cls {
			if c.l.k[t] == 0 {
				continue
			}
			ok := true
			for _, l := range c.cond {
				if v, known := q.truth(st, l.t); !known || v != l.pol {
					ok = false
				}
			}
			if ok {
				o = append(o, c.l)
			}
		}
	}
	if q.cfg.Len {
		o = append(o, q.lenFacts(st, t)...)
	}
	if q.cfg.Facts != nil {
		o = append(o, q.cfg.Facts(st, t)...)
	}
	return o
}

// matchFacts: where the matches of a list of matches lie.
func (q *E4) matchFacts(st *St, t *T) []lin {
	x := q.x
	v := lin{map[*T]int64{t: 1}, 0}
	switch {
	case t.op == "mend":
		text, _ := q.cfg.MatchList(t.a[0])
		return []lin{v, x.lin(x.lenOf(text)).addk(v, -1)}
	case t.op == "len" && t.a[0].op == "load" && t.a[0].a[0].op == "&index":
		if _, ok := q.cfg.MatchList(t.a[0].a[0].a[0]); ok {
			r := v.clone()
			r.c -= 2
			return []lin{r}
		}
	case t.op == "load" && t.a[0].op == "&index":
		m := t.a[0].a[0]
		if m.op != "load" || m.a[0].op != "&index" {
			return nil
		}
		text, ok := q.cfg.MatchList(m.a[0].a[0])
		if !ok {
			return nil
		}
		n, isC := t.a[0].a[1].intVal()
		if !isC || n > 1 {
			return nil
		}
		at := func(i int64) lin {
			a := x.tt.mk(t.op, t.s, t.typ, append([]*T{x.indexAddr(m, x.tt.int(i), types.NewPointer(t.typ))}, t.a[1:]...)...)
			return x.lin(a)
		}
		o := []lin{v, x.lin(x.lenOf(text)).addk(v, -1)}
		if n == 1 {
			return append(o, v.addk(at(0), -1))
		}
		o = append(o, at(1).addk(v, -1))
		i := x.lin(m.a[0].a[1])
		for _, lc := range q.loops {
			for _, g := range lc.ghosts {
				if g.match && g.list == m.a[0].a[0] && g.sym != nil {
					off, _ := g.sym.a[2].intVal()
					d := i.addk(x.lin(g.sym.a[1]), -1)
					if len(d.k) == 0 && d.c == off {
						o = append(o, v.addk(x.lin(g.sym), -1))
					}
				}
			}
		}
		return o
	}
	return nil
}

func (q *E4) event(st *St, e *Ev) {
	switch e.kind {
	case "store", "mapset":
		if q.cfg.Len && e.kind == "store" {
			if k := bufKey(rootOf(e.args[0])); k != "" {
				s, _ := st.data[k].(seq)
				st.data[k] = append(append(seq(nil), s...), chunk{one: q.x.tt.mk("unknown", k, types.Typ[types.Int32])})
			}
		}
		for t := e.args[0]; len(t.a) > 0 && !isFreshRoot(t); t = t.a[0] {
			if t.op == "call" {
				q.dirty[t] = true
				break
			}
		}
	case "call":
		if builderWrite(e.name) && len(e.args) == 2 {
			if k := builderKey(e.args[0]); k != "" {
				old, _ := st.data[k].(seq)
				st.data[k] = append(append(seq(nil), old...), q.flat(st, e.args[1])...)
			}
		}
		if e.name == "(*strings.Builder).Reset" || e.name == "(*bytes.Buffer).Reset" {
			if k := builderKey(e.args[0]); k != "" {
				st.data[k] = seq(nil)
			}
		}
	}
}

func builderKey(p *T) string {
	if p.op == "alloc" {
		return "B:" + p.s
	}
	return ""
}

func (q *E4) builderCall(st *St, in ssa.CallInstruction, name string, args []*T) []*T {
	if !isBuilderName(name) || len(args) == 0 {
		return nil
	}
	k := builderKey(args[0])
	if k == "" {
		return nil
	}
	m := name[strings.LastIndex(name, ".")+1:]
	switch m {
	case "String", "Bytes":
		t := q.x.tt.mk("built", fmt.Sprintf("%s/%d", q.x.site(st, in), q.nb), in.Value().Type())
		q.nb++
		s, _ := st.data[k].(seq)
		q.built[t] = s
		return []*T{t}
	}
	return nil
}

// loop: on entry
func (q *E4) loop(st *St, l *LoopI) {
	x := q.x
	key := l.id + "|" + entrySig(l)
	st.data["ctx:"+l.id] = key
	lc := q.loops[key]
	if lc == nil {
		lc = &loopC{bases: map[*T]bool{}, atoms: map[*T]bool{}, inv: map[*T]bool{}, fn: l.fn, pos: q.c.Pos(loopPos(l)), name: short(l.fn)}
		q.loops[key] = lc
	}
	lc.l = l
	lc.depth = 0
	for o := l.outer; o != nil; o = o.outer {
		lc.depth++
	}
	lc.ghosts = nil
	// iterators over strings
	for _, in := range l.hdr.Instrs {
		n, ok := in.(*ssa.Next)
		if !ok {
			continue
		}
		lc.iter = true
		if !n.IsString {
			continue
		}
		it := x.val(st, n.Iter)
		g := &ghost{name: "position", key: "pos:" + it.s, it: it, sym: x.tt.mk("gpos", l.id, types.Typ[types.Int], it), init: x.tt.int(0)}
		lc.ghosts = append(lc.ghosts, g)
	}
	for _, k := range sortedKeys(lc.tags) {
		g := *lc.tags[k]
		if g.match {
			g.name = "end of the last match"
			g.sym = x.tt.mk("mend", l.id, types.Typ[types.Int], g.list, l.syms[g.v], x.tt.int(g.off))
			g.init = x.tt.mk("unknown", g.key+"@"+l.id, types.Typ[types.Int])
			if n, ok := l.init[g.v].intVal(); ok && n+g.off == 0 {
				g.init = x.tt.int(0)
			}
		} else {
			g.sym = x.tt.mk("tagin", l.id, types.Typ[types.Bool], g.list, l.syms[g.v], x.tt.int(g.off))
		}
		lc.ghosts = append(lc.ghosts, &g)
	}
	for _, k := range sortedKeys(lc.chains) {
		g := *lc.chains[k]
		g.sym, g.init = q.chainAt(st, &g, l.syms[g.v]), q.chainAt(st, &g, l.init[g.v])
		lc.ghosts = append(lc.ghosts, &g)
	}
	if q.cfg.ListLen {
		for i, p := range l.phis {
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				lc.ghosts = append(lc.ghosts, &ghost{name: "len " + l.syms[i].String(), key: "len:" + fmtInt(i), size: true, v: i, sym: x.lenOf(l.syms[i]), init: x.lenOf(l.init[i])})
			}
		}
	}
	if q.cfg.Len {
		q.lenBuffers(st)
	}
	if q.cfg.Note != nil {
		q.cfg.Note(st)
	}
	var bk []string
	for k := range st.data {
		if strings.HasPrefix(k, "B:") {
			bk = append(bk, k)
		}
	}
	// builders that have not been written to yet
	for _, k := range q.buildersIn(st, l) {
		if _, ok := st.data[k]; !ok {
			bk = append(bk, k)
		}
	}
	sort.Strings(bk)
	for _, k := range bk {
		s, _ := st.data[k].(seq)
		g := &ghost{name: k, key: k, is: s, sym: x.tt.mk("phi", k+"@"+l.id, types.Typ[types.String])}
		lc.ghosts = append(lc.ghosts, g)
		if q.cfg.Len {
			h := &ghost{name: "len " + k, key: "L:" + k, num: k, chain: true, list: g.sym, sym: x.lenOf(g.sym)}
			if n, ok := q.seqLen(st, s); ok {
				h.init = q.linT(n)
			} else {
				h.init = x.tt.mk("unknown", h.key+"@"+l.id, types.Typ[types.Int])
			}
			lc.ghosts = append(lc.ghosts, h)
		}
	}
	inits := append([]*T(nil), l.init...)
	for _, g := range lc.ghosts {
		inits = append(inits, g.init)
	}
	syms := lc.syms(l.syms)
	if q.disc {
		q.discover(st, lc)
	} else {
		for _, k := range lc.lins {
			if k.dead {
				continue
			}
			if !st.proves(instLin(x, k.p, k.rest, inits)) {
				k.dead = true
				q.drop = true
				if q.debug {
					fmt.Println("init drops", lc.pos, lc.lin(k, syms), st.lits)
				}
			}
		}
	}
	// what the accumulators hold on entry
	entry := map[string]seq{}
	old := rulesOf(st)
	rules := append([]*rule(nil), old...)
	oldc, _ := st.data["clins"].([]*clin)
	cls := append([]*clin(nil), oldc...)
	if !q.disc {
		for _, k := range lc.lins {
			if !k.dead && k.cond == nil {
				st.facts = append(st.facts, instLin(x, k.p, k.rest, syms))
			} else if !k.dead {
				cls = append(cls, &clin{instLin(x, k.p, k.rest, syms), condLits(k.cond, syms)})
			}
		}
		for _, k := range lc.seqs {
			if k.dead {
				continue
			}
			var rhs seq
			r := &rule{name: lc.show(k)}
			for _, a := range k.accs {
				rhs = append(rhs, q.initSeq(st, lc, a, l.init)...)
				r.accs = append(r.accs, q.whole(syms[a]))
			}
			if k.base != nil {
				lo, hi := x.lin(inits[k.e]), x.lin(syms[k.e])
				lo.c += k.off
				hi.c += k.off
				rhs = append(rhs, chunk{base: k.base, lo: lo, hi: hi})
			}
			r.rhs = q.norm(st, rhs)
			r.cond = condLits(k.cond, syms)
			rules = append(rules, r)
		}
	}
	for _, a := range lc.accs() {
		entry[fmt.Sprint(a)] = q.initSeq(st, lc, a, l.init)
	}
	st.data["rules"] = rules
	st.data["clins"] = cls
	st.data["entry:"+l.id] = entry
	st.data["einit:"+l.id] = inits
	for _, g := range lc.ghosts {
		if g.list != nil || g.size {
			continue
		}
		if g.it != nil {
			st.data[g.key] = g.sym
		} else {
			st.data[g.key] = q.whole(g.sym)
		}
	}
}

// clin is a linear fact under conditions.
type clin struct {
	l    lin
	cond []Lit
}

func condLits(cs []catom, syms []*T) []Lit {
	var o []Lit
	for _, c := range cs {
		if c.t != nil {
			o = append(o, Lit{c.t, c.pol})
		} else {
			o = append(o, Lit{syms[c.phi], c.pol})
		}
	}
	return o
}

// truth is what the path knows about a condition, tags included.
func (q *E4) truth(st *St, t *T) (bool, bool) {
	if t.op == "tagin" {
		i := q.x.lin(t.a[1])
		n, _ := t.a[2].intVal()
		i = i.addk(linC(n), 1)
		if s := q.tagSet(st, t.a[0], i); s&^(tagE|tagM) == 0 {
			return true, true
		} else if s&^(tagB|tagS) == 0 {
			return false, true
		}
	}
	return st.truth(t)
}

// tagSet is the set of tags an element can have on the path.
func (q *E4) tagSet(st *St, list *T, i lin) int {
	elem := func(t *T) bool {
		if t.op != "load" || t.a[0].op != "&index" || t.a[0].a[0] != list {
			return false
		}
		d := q.x.lin(t.a[0].a[1]).addk(i, -1)
		return len(d.k) == 0 && d.c == 0
	}
	s := tagB | tagE | tagM | tagS
	for _, l := range st.lits {
		s &= q.cfg.TagLit(st, l, elem)
	}
	return s
}

// entrySig tells entries of a loop apart by the texts that are known there.
func entrySig(l *LoopI) string {
	seen := map[int]bool{}
	for f := l.fr; f != nil; f = f.up {
		for v, t := range f.env {
			if f == l.fr {
				if p, ok := v.(*ssa.Phi); ok && p.Block() == l.hdr {
					continue
				}
			}
			if t != nil && isSeq(t.typ) {
				seen[t.id] = true
			}
		}
	}
	var ids []int
	for id := range seen {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	return fmt.Sprint(ids)
}

func loopPos(l *LoopI) token.Pos {
	for _, in := range l.hdr.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, b := range l.hdr.Succs {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return l.fn.Pos()
}

// buildersIn: builders the loop writes to.
func (q *E4) buildersIn(st *St, l *LoopI) []string {
	var o []string
	for b := range l.body {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			f := c.Common().StaticCallee()
			if f == nil || !isBuilderName(f.RelString(nil)) || len(c.Common().Args) == 0 {
				continue
			}
			if a, ok := c.Common().Args[0].(*ssa.Alloc); ok && !l.body[a.Block()] {
				if k := builderKey(q.x.val(st, a)); k != "" {
					o = append(o, k)
				}
			}
		}
	}
	sort.Strings(o)
	return o
}

// accs: the variables of the loop that hold texts.
func (lc *loopC) accs() []int {
	var o []int
	for i, p := range lc.l.phis {
		if isSeq(p.Type()) {
			o = append(o, i)
		}
	}
	for i, g := range lc.ghosts {
		if g.it == nil && g.list == nil {
			o = append(o, len(lc.l.phis)+i)
		}
	}
	return o
}

func (q *E4) initSeq(st *St, lc *loopC, a int, init []*T) seq {
	if a < len(init) {
		return q.flat(st, init[a])
	}
	return lc.ghosts[a-len(init)].is
}

// discover notes what is known when the loop is entered.
func (q *E4) discover(st *St, lc *loopC) {
	lc.entered = true
	note := func(t *T) {
		if t == nil || t.typ == nil {
			return
		}
		switch {
		case isInt(t.typ):
			for v := range q.x.lin(t).k {
				lc.inv[v] = true
			}
		case isSeq(t.typ):
			lc.inv[t] = true
			lc.inv[stripUnits(t)] = true
			n := q.x.lenOf(t)
			for v := range q.x.lin(n).k {
				lc.inv[v] = true
			}
			lc.inv[n] = true
		default:
			if _, ok := t.typ.Underlying().(*types.Slice); ok {
				if isTextList(t.typ) {
					lc.inv[t] = true
				}
				n := q.x.lenOf(t)
				for v := range q.x.lin(n).k {
					lc.inv[v] = true
				}
			}
		}
	}
	for f := lc.l.fr; f != nil; f = f.up {
		for v, t := range f.env {
			isPhi := false
			if f == lc.l.fr {
				for _, p := range lc.l.phis {
					if v == p {
						isPhi = true
					}
				}
			}
			if isPhi {
				continue
			}
			note(t)
			if t.op == "tuple" {
				for _, e := range t.a {
					note(e)
				}
			}
		}
	}
}

func (q *E4) back(st *St, l *LoopI, next []*T) {
	x := q.x
	key, _ := st.data["ctx:"+l.id].(string)
	lc := q.loops[key]
	if lc == nil {
		return
	}
	if q.cfg.Note != nil {
		q.cfg.Note(st)
	}
	vals := append([]*T(nil), next...)
	var gs []*ghost
	for _, g := range lc.ghosts {
		if g.size {
			vals = append(vals, x.lenOf(next[g.v]))
		} else if g.num != "" {
			v := x.tt.mk("unknown", g.key+"@back"+l.id, types.Typ[types.Int])
			s, _ := st.data[g.num].(seq)
			if n, ok := q.seqLen(st, s); ok {
				v = q.linT(n)
			}
			vals = append(vals, v)
		} else if g.chain {
			vals = append(vals, q.chainAt(st, g, next[g.v]))
		} else if g.match {
			v := x.tt.mk("unknown", g.key+"@"+l.id, types.Typ[types.Int])
			d := x.lin(next[g.v]).addk(x.lin(l.syms[g.v]), -1)
			if len(d.k) == 0 && d.c == 0 {
				v = g.sym
			}
			if len(d.k) == 0 && d.c == 1 {
				i := x.arith("+", l.syms[g.v], x.tt.int(g.off), types.Typ[types.Int])
				lt := g.list.typ.Underlying().(*types.Slice).Elem()
				m := x.loadT(st, x.indexAddr(g.list, i, types.NewPointer(lt)), lt)
				v = x.loadT(st, x.indexAddr(m, x.tt.int(1), types.NewPointer(types.Typ[types.Int])), types.Typ[types.Int])
			}
			vals = append(vals, v)
		} else if g.list != nil {
			v := x.tt.mk("unknown", g.key+"@"+l.id, types.Typ[types.Bool])
			d := x.lin(next[g.v]).addk(x.lin(l.syms[g.v]), -1)
			if len(d.k) == 0 && d.c == 0 {
				v = g.sym
			}
			if len(d.k) == 0 && d.c == 1 {
				i := x.lin(l.syms[g.v]).addk(linC(g.off), 1)
				if s := q.tagSet(st, g.list, i); s&^(tagB|tagM) == 0 {
					v = x.tt.bool(true)
				} else if s&^(tagE|tagS) == 0 {
					v = x.tt.bool(false)
				}
			}
			vals = append(vals, v)
		} else if g.it != nil {
			vals = append(vals, x.arith("+", g.sym, q.runeLen(g.it, g.sym), types.Typ[types.Int]))
		} else {
			vals = append(vals, nil)
		}
		gs = append(gs, g)
	}
	valSeq := func(a int) seq {
		if a < len(next) {
			return q.flat(st, next[a])
		}
		s, _ := st.data[gs[a-len(next)].key].(seq)
		return s
	}
	// restore the positions: flat looks them up
	if q.disc {
		for _, a := range lc.accs() {
			for _, c := range valSeq(a) {
				if c.base != nil {
					lc.bases[c.base] = true
				}
			}
		}
		for _, lt := range st.lits[l.nl:] {
			t := lt.t
			switch {
			case (t.op == "<" || t.op == "==") && len(t.a) == 2 && isInt(t.a[0].typ):
				q.relevant(x.lin(t.a[0]))
				q.relevant(x.lin(t.a[1]))
			case isBool(t.typ) && (t.op == "load" || t.op == "param" || t.op == "field"):
				lc.atoms[t] = true
			}
		}
		return
	}
	// linear invariants
	for _, k := range lc.lins {
		if k.dead {
			continue
		}
		sc, vac := q.underCond(st, k.cond, vals)
		if vac {
			continue
		}
		if !sc.proves(instLin(x, k.p, k.rest, vals)) {
			k.dead = true
			q.drop = true
			if q.debug {
				fmt.Println("back drops", lc.pos, lc.lin(k, lc.syms(l.syms)), st.lits)
			}
		}
	}
	inits, _ := st.data["einit:"+l.id].([]*T)
	entry, _ := st.data["entry:"+l.id].(map[string]seq)
	for _, k := range lc.seqs {
		if k.dead {
			continue
		}
		sc, vac := q.underCond(st, k.cond, vals)
		if vac {
			continue
		}
		var lhs, rhs seq
		for _, a := range k.accs {
			lhs = append(lhs, valSeq(a)...)
			rhs = append(rhs, entry[fmt.Sprint(a)]...)
		}
		if k.base != nil {
			lo, hi := x.lin(inits[k.e]), x.lin(vals[k.e])
			lo.c += k.off
			hi.c += k.off
			rhs = append(rhs, chunk{base: k.base, lo: lo, hi: hi})
		}
		if !q.same(sc, lhs, rhs) {
			q.wrong[k] = lc.depth
			if q.debug {
				fmt.Println("back drops", lc.pos, lc.show(k), "\n      path", litStrings(st.lits[l.nl:]), "\n      ", q.norm(st, lhs), "  <>  ", q.norm(st, rhs))
			}
		}
	}
	if q.final {
		q.measures(st, lc, l, vals, next)
	}
}

// underCond: the state under a condition of the next iteration; vac if the condition excludes the path.
func (q *E4) underCond(st *St, cond []catom, vals []*T) (sc *St, vac bool) {
	sc = st
	for _, c := range cond {
		t := c.t
		if t == nil {
			t = vals[c.phi]
		}
		if v, known := q.truth(sc, t); known && v != c.pol {
			return sc, true
		} else if !known {
			if sc == st {
				sc = st.clone()
			}
			sc.assume(t, c.pol)
		}
	}
	return sc, false
}

// candidates makes the candidates after the discovery run.
func (q *E4) candidates() {
	for _, id := range sortedKeys(q.loops) {
		lc := q.loops[id]
		l := lc.l
		syms := lc.syms(l.syms)
		var ints []int
		for i, s := range syms {
			if isInt(s.typ) && !(q.cfg.Len && i >= len(l.syms) && lc.ghosts[i-len(l.syms)].chain) {
				ints = append(ints, i)
			}
		}
		offOf := func(i int) int64 {
			if i < len(l.init) {
				if n, ok := l.init[i].intVal(); ok && n == -1 || isLastIndex(l.init[i]) {
					return 1
				}
			}
			return 0
		}
		var others []*T
		for t := range lc.inv {
			if isInt(t.typ) && q.rel[t] && t.op != "const" {
				others = append(others, t)
			}
		}
		sort.Slice(others, func(i, j int) bool { return others[i].id < others[j].id })
		if len(others) > 14 {
			others = others[:14]
		}
		add := func(p map[int]int64, rest lin) {
			lc.lins = append(lc.lins, &lcand{p: p, rest: rest})
			for i, g := range lc.ghosts {
				if g.list != nil && !g.match && !g.chain {
					for _, pol := range []bool{true, false} {
						lc.lins = append(lc.lins, &lcand{p: p, rest: rest, cond: []catom{{phi: len(l.phis) + i, pol: pol}}})
					}
				}
			}
		}
		for _, i := range ints {
			off := offOf(i)
			add(map[int]int64{i: 1}, linC(off)) // p + off >= 0
			for _, t := range others {
				v := lin{map[*T]int64{t: 1}, 0}
				lo := linC(0).addk(v, -1)
				lo.c += off
				add(map[int]int64{i: 1}, lo) // p + off >= t
				hi := v.clone()
				hi.c -= off
				add(map[int]int64{i: -1}, hi) // p + off <= t
				hi1 := v.clone()
				hi1.c -= off + 1
				add(map[int]int64{i: -1}, hi1) // p + off < t
			}
			for _, j := range ints {
				if j != i {
					add(map[int]int64{j: 1, i: -1}, linC(offOf(j)-off)) // p <= r
				}
			}
		}
		for i, g := range lc.ghosts {
			if g.size {
				// the variable goes along with the length
				for j := range l.init {
					if isInt(syms[j].typ) {
						r := q.x.lin(l.init[j]).addk(q.x.lin(g.init), -1)
						add(map[int]int64{j: 1, len(l.phis) + i: -1}, linC(0).addk(r, -1))
						add(map[int]int64{j: -1, len(l.phis) + i: 1}, r)
					}
				}
			}
			if !g.chain {
				continue
			}
			for _, j := range ints {
				if j == len(l.phis)+i {
					continue
				}
				// the sum or the difference stays as it was
				if j >= len(l.init) {
					continue
				}
				c := len(l.phis) + i
				for _, k := range []int64{1, -1} {
					if q.cfg.Len && k > 0 {
						continue
					}
					r := q.x.lin(l.init[j]).addk(q.x.lin(g.init), k)
					add(map[int]int64{j: 1, c: k}, linC(0).addk(r, -1))
					add(map[int]int64{j: -1, c: -k}, r)
				}
			}
		}
		// accumulators
		accs := lc.accs()
		if q.cfg.Len {
			for _, g := range lc.chains {
				lc.bases[g.list] = true
				lc.inv[g.list] = true
			}
			for _, o := range q.loops {
				for b := range o.bases {
					lc.bases[b] = true
				}
			}
		}
		var bases []*T
		for b := range lc.bases {
			isSym := false
			for _, s := range syms {
				if s == b {
					isSym = true
				}
			}
			if !isSym && lc.inv[b] {
				bases = append(bases, b)
			}
		}
		sort.Slice(bases, func(i, j int) bool { return bases[i].id < bases[j].id })
		var conds [][]catom
		conds = append(conds, nil)
		var bools []int
		for i, p := range l.phis {
			if isBool(p.Type()) {
				bools = append(bools, i)
			}
		}
		if len(bools) > 0 && len(bools) <= 2 {
			var atoms []*T
			for t := range lc.atoms {
				atoms = append(atoms, t)
			}
			sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
			for _, b := range bools {
				for _, pol := range []bool{true, false} {
					conds = append(conds, []catom{{phi: b, pol: pol}})
					for _, t := range atoms {
						for _, p2 := range []bool{true, false} {
							conds = append(conds, []catom{{phi: b, pol: pol}, {t: t, pol: p2}})
						}
					}
				}
			}
		}
		for i, g := range lc.ghosts {
			if g.list != nil && !g.match && !g.chain {
				for _, pol := range []bool{true, false} {
					conds = append(conds, []catom{{phi: len(l.phis) + i, pol: pol}})
				}
			}
		}
		isList := func(a int) bool { return isTextList(syms[a].typ) }
		for _, cd := range conds {
			for _, a := range accs {
				if cd == nil {
					lc.seqs = append(lc.seqs, &scand{accs: []int{a}, e: -1})
				}
				for _, b := range bases {
					for _, k := range sortedKeys(lc.chains) {
						if g := lc.chains[k]; q.cfg.Len && g.list == b && g.off != offOf(g.v) {
							lc.seqs = append(lc.seqs, &scand{accs: []int{a}, base: b, e: g.v, off: g.off, cond: cd})
						}
					}
					for _, e := range ints {
						lc.seqs = append(lc.seqs, &scand{accs: []int{a}, base: b, e: e, off: offOf(e), cond: cd})
						if q.cfg.Offs && offOf(e) == 0 {
							lc.seqs = append(lc.seqs, &scand{accs: []int{a}, base: b, e: e, off: 1, cond: cd})
						}
					}
				}
				for _, r := range accs {
					if r == a || isList(r) {
						continue
					}
					if q.cfg.Len && a >= len(l.phis) && r >= len(l.phis) {
						continue
					}
					if cd == nil {
						lc.seqs = append(lc.seqs, &scand{accs: []int{a, r}, e: -1})
					}
					for _, b := range bases {
						for _, e := range ints {
							lc.seqs = append(lc.seqs, &scand{accs: []int{a, r}, base: b, e: e, off: offOf(e), cond: cd})
						}
					}
				}
			}
		}
		// measures
		var meas []*measure
		for _, i := range ints {
			meas = append(meas, &measure{p: map[int]int64{i: 1}, rest: linC(offOf(i)), s: -1})
			for _, t := range others {
				v := lin{map[*T]int64{t: 1}, 0}
				hi := v.clone()
				hi.c -= offOf(i)
				meas = append(meas, &measure{p: map[int]int64{i: -1}, rest: hi, s: -1})
			}
			for _, j := range ints {
				if j != i {
					meas = append(meas, &measure{p: map[int]int64{j: 1, i: -1}, rest: linC(0), s: -1})
				}
			}
		}
		for _, a := range accs {
			if a < len(l.phis) {
				meas = append(meas, &measure{s: a})
			}
		}
		lc.ms = meas
	}
}

// measures notes which measures the path makes smaller.
func (q *E4) measures(st *St, lc *loopC, l *LoopI, vals, next []*T) {
	x := q.x
	strict := make([]bool, len(lc.ms))
	weak := make([]bool, len(lc.ms))
	for i, m := range lc.ms {
		var a, b lin
		if m.s >= 0 {
			a, b = x.lin(x.lenOf(l.syms[m.s])), x.lin(x.lenOf(next[m.s]))
		} else {
			a, b = instLin(x, m.p, m.rest, lc.syms(l.syms)), instLin(x, m.p, m.rest, vals)
		}
		d := a.addk(b, -1)
		weak[i] = st.proves(d)
		d.c--
		strict[i] = weak[i] && st.proves(a) && st.proves(d)
	}
	lc.paths = append(lc.paths, [2][]bool{strict, weak})
}

// Ends reports whether a loop was shown to end.
func (lc *loopC) Ends() bool {
	if lc.iter || len(lc.paths) == 0 {
		return true
	}
	n := len(lc.ms)
	for i := 0; i < n; i++ {
		all := true
		for _, p := range lc.paths {
			if !p[1][i] {
				all = false
				break
			}
		}
		if !all {
			continue
		}
		// the paths that do not make it strictly smaller
		for j := 0; j < n; j++ {
			ok := true
			for _, p := range lc.paths {
				if !p[0][i] && !p[0][j] {
					ok = false
					break
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}
