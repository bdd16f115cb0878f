package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Lit is a literal of a path condition.
type Lit struct {
	t   *T
	pol bool
}

func (l Lit) String() string {
	if l.pol {
		return l.t.String()
	}
	return "!" + l.t.String()
}

// Ev is one event on a path.
type Ev struct {
	kind string // store, mapset, call, enter, leave, panic, loop, exit
	in   ssa.Instruction
	fn   *ssa.Function
	name string
	args []*T
	res  *T
	nl   int // literals known then
	loop *LoopI
}

// LoopI is a loop being evaluated.
type LoopI struct {
	hdr   *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	fn    *ssa.Function
	id    string
	phis  []*ssa.Phi
	syms  []*T // the unknown value at the head of an iteration
	init  []*T // the value on entry
	nl    int  // literals known on entry
	nt    int  // events before the iteration
	fr    *Fr
	outer *LoopI
}

func (l *LoopI) name() string { return short(l.fn) }

// Fr is an activation.
type Fr struct {
	fn     *ssa.Function
	env    map[ssa.Value]*T
	id     string
	loops  []*LoopI
	defers []*ssa.Defer
	ret    func(*St, []*T)
	up     *Fr
	depth  int
}

func (f *Fr) clone() *Fr {
	g := *f
	g.env = make(map[ssa.Value]*T, len(f.env))
	for k, v := range f.env {
		g.env[k] = v
	}
	g.loops = append([]*LoopI(nil), f.loops...)
	g.defers = append([]*ssa.Defer(nil), f.defers...)
	return &g
}

// St is the state of a path.
type St struct {
	x     *E3
	lits  []Lit
	litm  map[*T]bool
	mem   map[*T]*T
	ver   map[string]string
	esc   map[*T]bool
	facts []lin
	trace []*Ev
	fr    *Fr
	data  map[string]any
}

func (s *St) clone() *St {
	n := *s
	n.lits = append([]Lit(nil), s.lits...)
	n.litm = make(map[*T]bool, len(s.litm))
	for k, v := range s.litm {
		n.litm[k] = v
	}
	n.mem = make(map[*T]*T, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.ver = make(map[string]string, len(s.ver))
	for k, v := range s.ver {
		n.ver[k] = v
	}
	n.esc = make(map[*T]bool, len(s.esc))
	for k, v := range s.esc {
		n.esc[k] = v
	}
	n.data = make(map[string]any, len(s.data))
	for k, v := range s.data {
		n.data[k] = v
	}
	n.facts = append([]lin(nil), s.facts...)
	n.trace = append([]*Ev(nil), s.trace...)
	n.fr = s.fr.clone()
	return &n
}

// Hooks observe the evaluation.
type Hooks struct {
	Inline func(st *St, fn *ssa.Function) bool
	Event  func(st *St, e *Ev)
	Index  func(st *St, in ssa.Instruction, base, idx *T)
	Slice  func(st *St, in *ssa.Slice, base, lo, hi *T)
	Deref  func(st *St, in ssa.Instruction, ptr *T)
	Loop   func(st *St, l *LoopI)
	Back   func(st *St, l *LoopI, next []*T)
	Ret    func(st *St, res []*T)
	// Call may replace the result of a call that is not inlined.
	Call func(st *St, in ssa.CallInstruction, name string, args []*T) []*T
	// Copy may give the result of copy.
	Copy func(st *St, in ssa.Instruction, dst, src *T) *T
}

// E3 evaluates functions.
type E3 struct {
	w      *World
	tt     *terms
	h      *Hooks
	steps  int
	limit  int
	phiLow map[*T]int64
	fns    map[*T]*ssa.Function
	loopsC map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	modC   map[*ssa.Function]*modset
	initC  map[string]bool
	maxDep int
	Paths  int
	until  time.Time // when to give up
	// extra gives more facts about an integer term
	extra func(st *St, t *T) []lin
}

func newE3(w *World) *E3 {
	return &E3{w: w, tt: newTerms(), phiLow: map[*T]int64{}, fns: map[*T]*ssa.Function{},
		loopsC: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		modC:   map[*ssa.Function]*modset{}, limit: 3000000, maxDep: 14}
}

type budget struct{}

// natural loops: header -> body
func (x *E3) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if m, ok := x.loopsC[fn]; ok {
		return m
	}
	m := naturalLoops(fn)
	x.loopsC[fn] = m
	return m
}

func naturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := m[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				m[h] = body
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				c := work[len(work)-1]
				work = work[:len(work)-1]
				if body[c] {
					continue
				}
				body[c] = true
				work = append(work, c.Preds...)
			}
		}
	}
	return m
}

func hasLoop(fn *ssa.Function) bool { return len(naturalLoops(fn)) > 0 }

// inlinable: the function has no loop and is not a table of constants.
func inlinable(fn *ssa.Function) bool {
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.MapUpdate, *ssa.Store:
				n++
			}
		}
	}
	return n < 100 && !hasLoop(fn)
}

// Run evaluates fn with symbolic arguments.
func (x *E3) Run(fn *ssa.Function, h *Hooks) (overflow bool) {
	return x.RunWith(fn, h, nil)
}

func (x *E3) RunWith(fn *ssa.Function, h *Hooks, prep func(st *St)) (overflow bool) {
	x.h = h
	x.steps = 0
	st := &St{x: x, litm: map[*T]bool{}, mem: map[*T]*T{}, ver: map[string]string{}, esc: map[*T]bool{}, data: map[string]any{}}
	fr := &Fr{fn: fn, env: map[ssa.Value]*T{}, id: short(fn)}
	for i, p := range fn.Params {
		fr.env[p] = x.tt.mk("param", fmt.Sprintf("%s@%s#%d", p.Name(), short(fn), i), p.Type())
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = x.tt.mk("param", fmt.Sprintf("%s@%s#f%d", p.Name(), short(fn), i), p.Type())
	}
	fr.ret = func(s *St, res []*T) {
		x.Paths++
		if h.Ret != nil {
			h.Ret(s, res)
		}
	}
	st.fr = fr
	if prep != nil {
		prep(st)
	}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(budget); ok {
				overflow = true
				return
			}
			panic(e)
		}
	}()
	x.block(st, nil, fn.Blocks[0])
	return false
}

func (x *E3) event(st *St, e *Ev) {
	e.fn = st.fr.fn
	e.nl = len(st.lits)
	st.trace = append(st.trace, e)
	if x.h.Event != nil {
		x.h.Event(st, e)
	}
}

// block enters a block.
func (x *E3) block(st *St, from, to *ssa.BasicBlock) {
	fr := st.fr
	loops := x.loopsOf(fr.fn)
	for len(fr.loops) > 0 && !fr.loops[len(fr.loops)-1].body[to] {
		l := fr.loops[len(fr.loops)-1]
		fr.loops = fr.loops[:len(fr.loops)-1]
		x.event(st, &Ev{kind: "exit", loop: l})
	}
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	var vals []*T
	if from != nil {
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		for _, p := range phis {
			vals = append(vals, x.val(st, p.Edges[pi]))
		}
	}
	body := loops[to]
	switch {
	case body != nil && len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].hdr == to:
		x.Paths++
		if x.h.Back != nil {
			x.h.Back(st, fr.loops[len(fr.loops)-1], vals)
		}
		return
	case body != nil:
		id := fmt.Sprintf("%s/%d", fr.id, to.Index)
		l := &LoopI{hdr: to, body: body, fn: fr.fn, id: id, phis: phis, init: vals, nl: len(st.lits), fr: fr}
		for g := fr; g != nil && l.outer == nil; g = g.up {
			if len(g.loops) > 0 {
				l.outer = g.loops[len(g.loops)-1]
			}
		}
		x.havoc(st, l)
		for i, p := range phis {
			name := p.Comment
			if name == "" {
				name = p.Name()
			}
			s := x.tt.mk("phi", fmt.Sprintf("%s@%s#%d", name, id, i), p.Type())
			if vals != nil && unchanged(p, body) {
				s = vals[i]
			}
			l.syms = append(l.syms, s)
			fr.env[p] = s
		}
		for i, p := range phis {
			if isInt(p.Type()) {
				if d, ok := monotone(p, body); ok && vals != nil {
					f := x.lin(l.syms[i]).addk(x.lin(vals[i]), -1)
					if d < 0 {
						f = linC(0).addk(f, -1)
					}
					st.facts = append(st.facts, f)
				}
			}
		}
		fr.loops = append(fr.loops, l)
		x.event(st, &Ev{kind: "loop", loop: l})
		l.nt = len(st.trace)
		if x.h.Loop != nil {
			x.h.Loop(st, l)
		}
	default:
		for i, p := range phis {
			fr.env[p] = vals[i]
		}
	}
	x.instrs(st, to, len(phis))
}

// monotone: the variable only grows (1) or only shrinks (-1) around the loop.
// unchanged: the loop gives the variable no other value.
func unchanged(p *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	for i, e := range p.Edges {
		if body[p.Block().Preds[i]] && e != ssa.Value(p) {
			return false
		}
	}
	return true
}

func monotone(p *ssa.Phi, body map[*ssa.BasicBlock]bool) (int, bool) {
	dir := 0
	var step func(v ssa.Value, d int, seen map[ssa.Value]bool) bool
	step = func(v ssa.Value, d int, seen map[ssa.Value]bool) bool {
		if v == p {
			return true
		}
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.BinOp:
			c, ok := v.Y.(*ssa.Const)
			if !ok || c.Value == nil || !isInt(c.Type()) {
				return false
			}
			n := c.Int64()
			switch v.Op {
			case token.ADD:
			case token.SUB:
				n = -n
			default:
				return false
			}
			if n > 0 {
				if dir < 0 {
					return false
				}
				dir = 1
			} else if n < 0 {
				if dir > 0 {
					return false
				}
				dir = -1
			}
			return step(v.X, d+1, seen)
		case *ssa.Phi:
			if !body[v.Block()] {
				return false
			}
			for _, e := range v.Edges {
				if !step(e, d+1, seen) {
					return false
				}
			}
			return true
		}
		return false
	}
	for i, e := range p.Edges {
		if !body[p.Block().Preds[i]] {
			continue
		}
		if !step(e, 0, map[ssa.Value]bool{}) {
			return 0, false
		}
	}
	return dir, dir != 0
}

func (x *E3) instrs(st *St, b *ssa.BasicBlock, from int) {
	for i := from; i < len(b.Instrs); i++ {
		x.steps++
		if x.steps > x.limit || !x.until.IsZero() && time.Now().After(x.until) {
			panic(budget{})
		}
		fr := st.fr
		switch in := b.Instrs[i].(type) {
		case *ssa.If:
			c := x.val(st, in.Cond)
			x.branch(st, c, func(s *St, v bool) {
				if v {
					x.block(s, b, b.Succs[0])
				} else {
					x.block(s, b, b.Succs[1])
				}
			})
			return
		case *ssa.Jump:
			x.block(st, b, b.Succs[0])
			return
		case *ssa.Return:
			var res []*T
			for _, r := range in.Results {
				res = append(res, x.val(st, r))
			}
			fr.ret(st, res)
			return
		case *ssa.Panic:
			x.event(st, &Ev{kind: "panic", in: in, args: []*T{x.val(st, in.X)}})
			return
		case *ssa.Call:
			if x.call(st, in, in, func(s *St, res []*T) {
				x.bind(s, in, res)
				x.instrs(s, b, i+1)
			}) {
				return
			}
		case *ssa.Defer:
			fr.defers = append(fr.defers, in)
		case *ssa.RunDefers:
			for k := len(fr.defers) - 1; k >= 0; k-- {
				d := fr.defers[k]
				name, args, _ := x.callee(st, d.Common())
				x.opaque(st, d, name, args, d.Common())
			}
			fr.defers = nil
		case *ssa.Go:
			name, args, _ := x.callee(st, in.Common())
			x.opaque(st, in, name, args, in.Common())
		default:
			x.instr(st, in)
		}
	}
}

func (x *E3) bind(st *St, in *ssa.Call, res []*T) {
	switch len(res) {
	case 0:
		st.fr.env[in] = x.tt.nilT()
	case 1:
		st.fr.env[in] = res[0]
	default:
		st.fr.env[in] = x.tt.mk("tuple", "", in.Type(), res...)
	}
}

func (x *E3) branch(st *St, c *T, k func(*St, bool)) {
	if v, ok := st.truth(c); ok {
		if !st.assume(c, v) {
			return
		}
		k(st, v)
		return
	}
	s2 := st.clone()
	if st.assume(c, true) {
		k(st, true)
	}
	if s2.assume(c, false) {
		k(s2, false)
	}
}

// truth of a condition from what is known.
func (st *St) truth(c *T) (bool, bool) {
	if v, ok := c.boolVal(); ok {
		return v, true
	}
	if c.op == "!" {
		v, ok := st.truth(c.a[0])
		return !v, ok
	}
	if v, ok := st.litm[c]; ok {
		return v, true
	}
	switch c.op {
	case "==":
		a, b := c.a[0], c.a[1]
		if b.op == "const" || b.isNil() {
			for _, l := range st.lits {
				if l.pol && l.t.op == "==" && l.t.a[0] == a && (l.t.a[1].op == "const" || l.t.a[1].isNil()) && l.t.a[1] != b {
					return false, true
				}
			}
		}
		if isInt(a.typ) || isInt(b.typ) {
			d := st.x.lin(b).addk(st.x.lin(a), -1)
			fs := st.linFacts(d, nil)
			e := d.clone()
			e.c--
			if entails(fs, e) {
				return false, true
			}
			n := linC(0).addk(d, -1)
			e = n.clone()
			e.c--
			if entails(fs, e) {
				return false, true
			}
			if entails(fs, d) && entails(fs, n) {
				return true, true
			}
		}
	case "<":
		a, b := c.a[0], c.a[1]
		if isInt(a.typ) || isInt(b.typ) {
			d := st.x.lin(b).addk(st.x.lin(a), -1)
			fs := st.linFacts(d, nil)
			e := d.clone()
			e.c--
			if entails(fs, e) {
				return true, true
			}
			if entails(fs, linC(0).addk(d, -1)) {
				return false, true
			}
		}
	}
	return false, false
}

// assume adds a literal; it reports false when the path is impossible.
func (st *St) assume(c *T, v bool) bool {
	if b, ok := c.boolVal(); ok {
		return b == v
	}
	if c.op == "!" {
		return st.assume(c.a[0], !v)
	}
	if o, ok := st.litm[c]; ok {
		return o == v
	}
	st.lits = append(st.lits, Lit{c, v})
	st.litm[c] = v
	return true
}

// val evaluates an operand.
func (x *E3) val(st *St, v ssa.Value) *T {
	tt := x.tt
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return x.zero(v.Type())
		}
		return tt.konst(v.Value, v.Type())
	case *ssa.Global:
		return tt.mk("global", v.RelString(nil), v.Type())
	case *ssa.Function:
		t := tt.mk("func", v.RelString(nil), v.Type())
		x.fns[t] = v
		return t
	case *ssa.Builtin:
		return tt.mk("builtin", v.Name(), nil)
	}
	if t := st.fr.env[v]; t != nil {
		return t
	}
	return tt.mk("sym", v.Name()+"@"+st.fr.id, v.Type())
}

func (x *E3) zero(t types.Type) *T {
	tt := x.tt
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return tt.konst(constant.MakeInt64(0), t)
		case u.Info()&types.IsFloat != 0:
			return tt.konst(constant.MakeInt64(0), t)
		case u.Info()&types.IsString != 0:
			return tt.konst(constant.MakeString(""), t)
		case u.Info()&types.IsBoolean != 0:
			return tt.konst(constant.MakeBool(false), t)
		}
	case *types.Struct:
		var fs []*T
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.zero(u.Field(i).Type()))
		}
		return tt.mk("struct", typeKey(t), t, fs...)
	case *types.Array:
		if u.Len() <= 8 {
			var fs []*T
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, x.zero(u.Elem()))
			}
			return tt.mk("array", typeKey(t), t, fs...)
		}
		return tt.mk("zero", "", t)
	}
	return tt.nilT()
}

func (x *E3) site(st *St, in ssa.Instruction) string {
	b := in.Block()
	n := 0
	for i, y := range b.Instrs {
		if y == in {
			n = i
		}
	}
	return fmt.Sprintf("%s:%d.%d", st.fr.id, b.Index, n)
}

func (x *E3) instr(st *St, in ssa.Instruction) {
	tt := x.tt
	env := st.fr.env
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		a := tt.mk("alloc", in.Comment+"@"+x.site(st, in), in.Type())
		// a new incarnation
		x.killRoot(st, a)
		delete(st.ver, "A:"+a.s)
		delete(st.esc, a)
		env[in] = a
	case *ssa.BinOp:
		env[in] = x.binop(st, in)
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p := x.val(st, in.X)
			x.deref(st, in, p)
			env[in] = x.loadT(st, p, in.Type())
		case token.NOT:
			env[in] = x.not(x.val(st, in.X))
		case token.SUB:
			v := x.val(st, in.X)
			if v.cv != nil {
				env[in] = tt.konst(constant.UnaryOp(token.SUB, v.cv, 0), in.Type())
			} else {
				env[in] = x.arith("-", x.zero(in.Type()), v, in.Type())
			}
		default:
			env[in] = tt.mk("un", in.Op.String()+"@"+x.site(st, in), in.Type(), x.val(st, in.X))
		}
	case *ssa.ChangeType:
		env[in] = x.val(st, in.X)
	case *ssa.Convert:
		env[in] = x.convert(st, x.val(st, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		env[in] = x.convert(st, x.val(st, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeInterface:
		env[in] = x.val(st, in.X)
	case *ssa.MakeInterface:
		env[in] = tt.mk("iface", "", in.Type(), x.val(st, in.X))
	case *ssa.MakeMap:
		a := tt.mk("mkmap", in.Name()+"@"+x.site(st, in), in.Type())
		x.killRoot(st, a)
		delete(st.ver, "A:"+a.s)
		delete(st.esc, a)
		env[in] = a
	case *ssa.MakeSlice:
		a := tt.mk("mkslice", in.Name()+"@"+x.site(st, in), in.Type(), x.val(st, in.Len))
		x.killRoot(st, a)
		delete(st.ver, "A:"+a.s)
		delete(st.esc, a)
		env[in] = a
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		var bs []*T
		for _, b := range in.Bindings {
			bs = append(bs, x.val(st, b))
		}
		t := tt.mk("closure", f.RelString(nil), in.Type(), bs...)
		x.fns[t] = f
		for _, b := range bs {
			x.escape(st, b)
		}
		env[in] = t
	case *ssa.Field:
		env[in] = x.fieldOf(x.val(st, in.X), in.Field, in.X.Type())
	case *ssa.FieldAddr:
		p := x.val(st, in.X)
		x.deref(st, in, p)
		env[in] = x.fieldAddr(p, in.X.Type(), in.Field)
	case *ssa.Index:
		b, i := x.val(st, in.X), x.val(st, in.Index)
		if x.h.Index != nil {
			x.h.Index(st, in, b, i)
		}
		if n, ok := i.intVal(); ok && b.op == "array" && int(n) < len(b.a) {
			env[in] = b.a[n]
		} else {
			env[in] = tt.mk("byteat", "", in.Type(), b, i)
		}
	case *ssa.IndexAddr:
		b, i := x.val(st, in.X), x.val(st, in.Index)
		if x.h.Index != nil {
			x.h.Index(st, in, b, i)
		}
		env[in] = x.indexAddr(b, i, in.Type())
	case *ssa.Slice:
		env[in] = x.sliceOp(st, in)
	case *ssa.Lookup:
		m, k := x.val(st, in.X), x.val(st, in.Index)
		if isString(in.X.Type()) {
			if x.h.Index != nil {
				x.h.Index(st, in, m, k)
			}
			env[in] = tt.mk("byteat", "", in.Type(), m, k)
			return
		}
		mt := in.X.Type().Underlying().(*types.Map)
		v, ok := x.lookup(st, m, k, mt)
		if in.CommaOk {
			env[in] = tt.mk("tuple", "", in.Type(), v, ok)
		} else {
			env[in] = v
		}
	case *ssa.Extract:
		t := x.val(st, in.Tuple)
		if t.op == "tuple" {
			env[in] = t.a[in.Index]
		} else {
			env[in] = tt.mk("ext", fmt.Sprint(in.Index), in.Type(), t)
		}
	case *ssa.Store:
		a, v := x.val(st, in.Addr), x.val(st, in.Val)
		x.deref(st, in, a)
		x.store(st, in, a, v)
	case *ssa.MapUpdate:
		m, k, v := x.val(st, in.Map), x.val(st, in.Key), x.val(st, in.Value)
		x.mapset(st, in, m, k, v)
	case *ssa.Range:
		env[in] = tt.mk("range", x.site(st, in), nil, x.val(st, in.X))
	case *ssa.Next:
		it := x.val(st, in.Iter)
		id := x.site(st, in)
		ok := tt.mk("itok", id, types.Typ[types.Bool], it)
		if in.IsString {
			env[in] = tt.mk("tuple", "", in.Type(), ok,
				tt.mk("rangeidx", id, types.Typ[types.Int], it), tt.mk("itval", id, types.Typ[types.Rune], it))
			return
		}
		tup := in.Type().(*types.Tuple)
		m := it.a[0]
		var mt *types.Map
		if r, ok := in.Iter.(*ssa.Range); ok {
			mt, _ = r.X.Type().Underlying().(*types.Map)
		}
		kt := tup.At(1).Type()
		vt := tup.At(2).Type()
		if mt != nil {
			kt, vt = mt.Key(), mt.Elem()
		}
		k := tt.mk("itkey", id, kt, it)
		k = x.expand(k, kt)
		v := tt.mk("itval", id, vt, it)
		if mt != nil {
			v, _ = x.lookup(st, m, k, mt)
			if v.isNil() || v.op == "const" {
				v = tt.mk("itval", id, vt, it)
			}
		}
		env[in] = tt.mk("tuple", "", in.Type(), ok, k, v)
	case *ssa.TypeAssert:
		v := x.val(st, in.X)
		if in.CommaOk {
			env[in] = tt.mk("tuple", "", in.Type(), tt.mk("assert", typeKey(in.AssertedType), in.AssertedType, v),
				tt.mk("assertok", typeKey(in.AssertedType), types.Typ[types.Bool], v))
		} else {
			env[in] = tt.mk("assert", typeKey(in.AssertedType), in.AssertedType, v)
		}
	default:
		if v, ok := in.(ssa.Value); ok {
			env[v] = tt.mk("sym", v.Name()+"@"+x.site(st, in), v.Type())
		}
	}
}

// expand makes a struct or small array value of an opaque term explicit.
func (x *E3) expand(t *T, typ types.Type) *T {
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		if t.op == "struct" {
			return t
		}
		var fs []*T
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, x.expand(x.tt.mk("field", u.Field(i).Name(), u.Field(i).Type(), t), u.Field(i).Type()))
		}
		return x.tt.mk("struct", typeKey(typ), typ, fs...)
	case *types.Array:
		if u.Len() <= 8 && t.op != "array" {
			var fs []*T
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, x.expand(x.tt.mk("byteat", "", u.Elem(), t, x.tt.int(i)), u.Elem()))
			}
			return x.tt.mk("array", typeKey(typ), typ, fs...)
		}
	}
	return t
}

func (x *E3) deref(st *St, in ssa.Instruction, p *T) {
	if x.h.Deref != nil && !x.nonNil(p) {
		x.h.Deref(st, in, p)
	}
	if !x.nonNil(p) {
		// the program goes on, so the pointer is not nil
		if c := x.arith("==", p, x.tt.nilT(), nil); c.op == "==" {
			if _, ok := st.litm[c]; !ok {
				st.litm[c] = false
			}
		}
	}
}

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func (x *E3) fieldOf(v *T, i int, t types.Type) *T {
	s := structOf(t)
	if v.op == "struct" && i < len(v.a) {
		return v.a[i]
	}
	return x.expand(x.tt.mk("field", s.Field(i).Name(), s.Field(i).Type(), v), s.Field(i).Type())
}

func (x *E3) fieldAddr(p *T, t types.Type, i int) *T {
	s := structOf(t)
	if p.typ == nil {
		p.typ = t
	}
	return x.tt.mk("&field", s.Field(i).Name(), types.NewPointer(s.Field(i).Type()), p)
}

func (x *E3) indexAddr(b, i *T, t types.Type) *T {
	// elements of a first part of a list are those of the list
	for b.op == "slice" && (b.a[1].isNil() || isZero(b.a[1])) && b.a[0].typ != nil {
		switch u := b.a[0].typ.Underlying().(type) {
		case *types.Slice:
			b = b.a[0]
			continue
		case *types.Pointer: // the elements of an array
			if _, ok := u.Elem().Underlying().(*types.Array); ok && i.isConst() {
				b = b.a[0]
			}
		}
		break
	}
	return x.tt.mk("&index", "", t, b, i)
}

// root and class of an address.
func rootOf(a *T) *T {
	for {
		switch a.op {
		case "&field", "&index", "&map":
			a = a.a[0]
		case "slice":
			a = a.a[0]
		default:
			return a
		}
	}
}

func isFreshRoot(r *T) bool { return r.op == "alloc" || r.op == "mkslice" || r.op == "mkmap" }

func derefType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// clsType is the class of memory an address belongs to, by type.
func clsType(a *T) string {
	switch a.op {
	case "&field":
		return "F:" + typeKey(derefType(a.a[0].typ)) + "." + a.s
	case "&index":
		return "E:" + typeKey(derefType(a.typ))
	case "&map":
		return "M:" + typeKey(a.a[0].typ)
	case "global":
		return "G:" + a.s
	}
	return "P:" + typeKey(derefType(a.typ))
}

func (st *St) cls(a *T) string {
	r := rootOf(a)
	if isFreshRoot(r) && !st.esc[r] {
		return "A:" + r.s
	}
	return clsType(a)
}

func (x *E3) killRoot(st *St, r *T) {
	for c := range st.mem {
		if rootOf(c) == r {
			delete(st.mem, c)
		}
	}
}

func (x *E3) escape(st *St, v *T) {
	r := rootOf(v)
	switch v.op {
	case "iface":
		x.escape(st, v.a[0])
		return
	case "struct", "list", "append", "tuple", "array":
		for _, y := range v.a {
			x.escape(st, y)
		}
		return
	}
	if isFreshRoot(r) && !st.esc[r] {
		st.esc[r] = true
		for c, w := range st.mem {
			if rootOf(c) == r {
				x.escape(st, w)
			}
		}
	}
}

// loadT reads memory.
func (x *E3) loadT(st *St, a *T, typ types.Type) *T {
	tt := x.tt
	if v, ok := st.mem[a]; ok {
		return v
	}
	switch u := typ.Underlying().(type) {
	case *types.Struct:
		var fs []*T
		pt := types.NewPointer(typ)
		for i := 0; i < u.NumFields(); i++ {
			fa := tt.mk("&field", u.Field(i).Name(), types.NewPointer(u.Field(i).Type()), a)
			_ = pt
			fs = append(fs, x.loadT(st, fa, u.Field(i).Type()))
		}
		return tt.mk("struct", typeKey(typ), typ, fs...)
	case *types.Array:
		if u.Len() <= 8 {
			var fs []*T
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, x.loadT(st, x.indexAddr(a, tt.int(i), types.NewPointer(u.Elem())), u.Elem()))
			}
			return tt.mk("array", typeKey(typ), typ, fs...)
		}
	}
	r := rootOf(a)
	c := st.cls(a)
	if isFreshRoot(r) && st.ver["A:"+r.s] == "" && !st.esc[r] {
		// an unknown element may be one of those written
		var w []string
		if hasSymIndex(a) {
			for b, v := range st.mem {
				if rootOf(b) == r && x.mayAlias(st, a, b) {
					w = append(w, fmt.Sprintf("%d=%d", b.id, v.id))
				}
			}
		}
		if len(w) == 0 {
			return x.zero(typ)
		}
		sort.Strings(w)
		return tt.mk("load", strings.Join(w, ","), typ, a)
	}
	// elements of a list that was built by append
	if a.op == "&index" {
		if v := x.listElem(st, a.a[0], a.a[1]); v != nil {
			return v
		}
	}
	v := tt.mk("load", st.ver[c], typ, a)
	st.mem[a] = v
	return v
}

// listElem is the element of an explicit list.
func (x *E3) listElem(st *St, l, i *T) *T {
	n, ok := i.intVal()
	if !ok || n < 0 {
		return nil
	}
	es, ok := x.explicit(st, l)
	if ok && int(n) < len(es) {
		return es[n]
	}
	return nil
}

// explicit elements of a slice value, when they are all known.
func (x *E3) explicit(st *St, l *T) ([]*T, bool) {
	switch l.op {
	case "nil":
		return nil, true
	case "list":
		return l.a, true
	case "append":
		a, ok := x.explicit(st, l.a[0])
		if !ok {
			return nil, false
		}
		b, ok := x.explicit(st, l.a[1])
		return append(append([]*T(nil), a...), b...), ok
	case "slice":
		if l.a[0].op == "alloc" && l.a[1].isNil() && l.a[2].isNil() {
			at, ok := derefType(l.a[0].typ).Underlying().(*types.Array)
			if !ok {
				return nil, false
			}
			var out []*T
			for i := int64(0); i < at.Len(); i++ {
				out = append(out, x.loadT(st, x.indexAddr(l.a[0], x.tt.int(i), types.NewPointer(at.Elem())), at.Elem()))
			}
			return out, true
		}
	case "mkslice":
		if n, ok := l.a[0].intVal(); ok && n <= 8 {
			el := l.typ.Underlying().(*types.Slice).Elem()
			var out []*T
			for i := int64(0); i < n; i++ {
				out = append(out, x.loadT(st, x.indexAddr(l, x.tt.int(i), types.NewPointer(el)), el))
			}
			return out, true
		}
	}
	return nil, false
}

// mayAlias decides whether two different addresses can be the same.
func (x *E3) mayAlias(st *St, a, b *T) bool {
	if a == b {
		return true
	}
	ra, rb := rootOf(a), rootOf(b)
	if isFreshRoot(ra) && isFreshRoot(rb) && ra != rb {
		return false
	}
	if (isFreshRoot(ra) && !st.esc[ra]) != (isFreshRoot(rb) && !st.esc[rb]) {
		return false
	}
	if clsType(a) != clsType(b) {
		return false
	}
	if a.op == b.op {
		switch a.op {
		case "global":
			return a.s == b.s
		case "&index":
			if a.a[0] == b.a[0] && x.different(st, a.a[1], b.a[1]) {
				return false
			}
		case "&map":
			if a.a[0] == b.a[0] && x.different(st, a.a[1], b.a[1]) {
				return false
			}
		case "&field":
			return x.mayAliasObj(st, a.a[0], b.a[0])
		}
	}
	return true
}

func (x *E3) mayAliasObj(st *St, a, b *T) bool {
	if a == b {
		return true
	}
	if a.op == "&index" && b.op == "&index" || a.op == "&field" && b.op == "&field" {
		return x.mayAlias(st, a, b)
	}
	ra, rb := rootOf(a), rootOf(b)
	if isFreshRoot(ra) && isFreshRoot(rb) && ra != rb {
		return false
	}
	return true
}

func (x *E3) different(st *St, a, b *T) bool {
	if a.op == "const" && b.op == "const" {
		return a != b
	}
	if isInt(a.typ) || isInt(b.typ) {
		d := x.lin(a).addk(x.lin(b), -1)
		if len(d.k) == 0 {
			return d.c != 0
		}
		e := d.clone()
		e.c--
		n := linC(0).addk(d, -1)
		n.c--
		return st.proves(e) || st.proves(n)
	}
	return false
}

func hasSymIndex(a *T) bool {
	for {
		switch a.op {
		case "&index":
			if a.a[1].op != "const" {
				return true
			}
			a = a.a[0]
		case "&field":
			a = a.a[0]
		case "slice":
			return true
		default:
			return false
		}
	}
}

func (x *E3) store(st *St, in ssa.Instruction, a, v *T) {
	x.event(st, &Ev{kind: "store", in: in, args: []*T{a, v}})
	x.put(st, in, a, v)
}

func (x *E3) put(st *St, in ssa.Instruction, a, v *T) {
	et := derefType(a.typ)
	if et != nil {
		switch u := et.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				fa := x.tt.mk("&field", u.Field(i).Name(), types.NewPointer(u.Field(i).Type()), a)
				x.put(st, in, fa, x.fieldOf(v, i, et))
			}
			return
		case *types.Array:
			if u.Len() <= 8 {
				v = x.expand(v, et)
				for i := int64(0); i < u.Len(); i++ {
					var e *T
					if v.op == "array" {
						e = v.a[i]
					} else {
						e = x.tt.mk("byteat", "", u.Elem(), v, x.tt.int(i))
					}
					x.put(st, in, x.indexAddr(a, x.tt.int(i), types.NewPointer(u.Elem())), e)
				}
				return
			}
		}
	}
	r := rootOf(a)
	if !isFreshRoot(r) || st.esc[r] {
		x.escape(st, v)
	}
	for c := range st.mem {
		if c != a && x.mayAlias(st, c, a) {
			delete(st.mem, c)
		}
	}
	if isFreshRoot(r) && !st.esc[r] {
		if hasSymIndex(a) {
			st.ver["A:"+r.s] = x.site(st, in)
		}
	} else {
		st.ver[clsType(a)] = x.site(st, in)
	}
	st.mem[a] = v
}

func (x *E3) mapAddr(m, k *T) *T { return x.tt.mk("&map", "", nil, m, k) }

func (x *E3) lookup(st *St, m, k *T, mt *types.Map) (*T, *T) {
	tt := x.tt
	if m.isNil() {
		return x.zero(mt.Elem()), tt.bool(false)
	}
	if m.typ == nil {
		m.typ = mt
	}
	a := x.mapAddr(m, k)
	if v, ok := st.mem[a]; ok {
		if v.op == "deleted" {
			return x.zero(mt.Elem()), tt.bool(false)
		}
		return v, tt.bool(true)
	}
	r := rootOf(m)
	if isFreshRoot(r) && !st.esc[r] && st.ver["A:"+r.s] == "" {
		// nothing stored yet under any key
		return x.zero(mt.Elem()), tt.bool(false)
	}
	ver := st.ver[st.cls(a)]
	v := x.expand(tt.mk("lookup", ver, mt.Elem(), m, k), mt.Elem())
	return v, tt.mk("has", ver, types.Typ[types.Bool], m, k)
}

func (x *E3) mapset(st *St, in ssa.Instruction, m, k, v *T) {
	x.event(st, &Ev{kind: "mapset", in: in, args: []*T{m, k, v}})
	x.mapput(st, in, m, k, v)
}

func (x *E3) mapput(st *St, in ssa.Instruction, m, k, v *T) {
	a := x.mapAddr(m, k)
	r := rootOf(m)
	if !isFreshRoot(r) || st.esc[r] {
		x.escape(st, v)
	}
	for c := range st.mem {
		if c != a && c.op == "&map" && x.mayAlias(st, c, a) {
			delete(st.mem, c)
		}
	}
	if isFreshRoot(r) && !st.esc[r] {
		st.ver["A:"+r.s] = x.site(st, in)
	} else {
		st.ver[clsType(a)] = x.site(st, in)
	}
	st.mem[a] = v
}

func (x *E3) binop(st *St, in *ssa.BinOp) *T {
	a, b := x.val(st, in.X), x.val(st, in.Y)
	bt := types.Typ[types.Bool]
	switch in.Op {
	case token.ADD:
		if isString(in.Type()) {
			return x.arith("cat", a, b, in.Type())
		}
		return x.arith("+", a, b, in.Type())
	case token.SUB:
		return x.arith("-", a, b, in.Type())
	case token.MUL:
		return x.arith("*", a, b, in.Type())
	case token.QUO:
		return x.arith("/", a, b, in.Type())
	case token.REM:
		return x.arith("%", a, b, in.Type())
	case token.EQL:
		return x.arith("==", a, b, bt)
	case token.NEQ:
		return x.not(x.arith("==", a, b, bt))
	case token.LSS:
		return x.cmp("<", a, b, in.X.Type())
	case token.GTR:
		return x.cmp("<", b, a, in.X.Type())
	case token.LEQ:
		return x.cmp("<=", a, b, in.X.Type())
	case token.GEQ:
		return x.cmp("<=", b, a, in.X.Type())
	}
	return x.tt.mk("bin", in.Op.String(), in.Type(), a, b)
}

func (x *E3) cmp(op string, a, b *T, t types.Type) *T {
	if isFloat(t) {
		if a.cv != nil && b.cv != nil {
			return x.arith(op, a, b, types.Typ[types.Bool])
		}
		return x.tt.mk(op, "f", types.Typ[types.Bool], a, b)
	}
	if op == "<=" {
		return x.not(x.arith("<", b, a, t))
	}
	return x.arith("<", a, b, t)
}

func (x *E3) convert(st *St, v *T, from, to types.Type) *T {
	tt := x.tt
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	if v.cv != nil && (isInt(to) || isFloat(to)) && (isInt(from) || isFloat(from)) {
		if isFloat(to) {
			return tt.konst(constant.ToFloat(v.cv), to)
		}
		if c := constant.ToInt(v.cv); c.Kind() == constant.Int {
			return tt.konst(c, to)
		}
	}
	// string(bytes(s)) is s
	if isString(to) && v.op == "conv" && isBytesOrString(v.typ) && isString(v.a[0].typ) {
		return v.a[0]
	}
	if s, ok := to.Underlying().(*types.Slice); ok {
		_ = s
	}
	ver := ""
	if s, ok := from.Underlying().(*types.Slice); ok {
		ver = st.ver["E:"+typeKey(s.Elem())]
		if es, ok := x.explicit(st, v); ok && len(es) == 0 && isString(to) {
			return tt.konst(constant.MakeString(""), to)
		}
	}
	t := tt.mk("conv", ver, to, v)
	return t
}

func (x *E3) sliceOp(st *St, in *ssa.Slice) *T {
	tt := x.tt
	b := x.val(st, in.X)
	lo, hi := tt.nilT(), tt.nilT()
	if in.Low != nil {
		lo = x.val(st, in.Low)
	}
	if in.High != nil {
		hi = x.val(st, in.High)
	}
	if x.h.Slice != nil {
		x.h.Slice(st, in, b, lo, hi)
	}
	if in.Max != nil {
		return tt.mk("slice3", "", in.Type(), b, lo, hi, x.val(st, in.Max))
	}
	if n, ok := lo.intVal(); ok && n == 0 {
		lo = tt.nilT()
	}
	if !hi.isNil() && hi == x.lenOf(b) {
		hi = tt.nilT()
	}
	_, arr := in.X.Type().Underlying().(*types.Pointer)
	if lo.isNil() && hi.isNil() && !arr {
		return b
	}
	if arr && lo.isNil() && hi.isNil() && b.op == "alloc" {
		return tt.mk("slice", "", in.Type(), b, lo, hi)
	}
	return tt.mk("slice", "", in.Type(), b, lo, hi)
}

// callee names the function called.
func (x *E3) callee(st *St, c *ssa.CallCommon) (string, []*T, *ssa.Function) {
	var args []*T
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if c.IsInvoke() {
		r := x.val(st, c.Value)
		return "invoke:" + c.Method.Name(), append([]*T{r}, args...), nil
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name(), args, nil
	}
	if f := c.StaticCallee(); f != nil {
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			return f.RelString(nil), args, mc.Fn.(*ssa.Function)
		}
		return f.RelString(nil), args, f
	}
	v := x.val(st, c.Value)
	if f := x.fns[v]; f != nil {
		return f.RelString(nil), args, f
	}
	return "dynamic", append([]*T{v}, args...), nil
}

func (x *E3) inRepo(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	if f.Pkg != nil {
		return x.w.InRepo(f)
	}
	// wrappers of methods of the repository
	if f.Synthetic != "" {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), modPath)
		}
	}
	return false
}

// call evaluates a call; it reports true when k takes over.
func (x *E3) call(st *St, in ssa.CallInstruction, v *ssa.Call, k func(*St, []*T)) bool {
	c := in.Common()
	name, args, fn := x.callee(st, c)
	if strings.HasPrefix(name, "builtin:") {
		x.bind(st, v, []*T{x.builtin(st, v, name[8:], c, args)})
		return false
	}
	if fn != nil && x.inRepo(fn) && !x.onStack(st, fn) && st.fr.depth < x.maxDep &&
		(x.h.Inline == nil && inlinable(fn) || x.h.Inline != nil && x.h.Inline(st, fn)) {
		fr := &Fr{fn: fn, env: map[ssa.Value]*T{}, id: x.site(st, in), up: st.fr, depth: st.fr.depth + 1}
		for i, p := range fn.Params {
			if i < len(args) {
				fr.env[p] = args[i]
			}
		}
		if len(fn.FreeVars) > 0 {
			cl := x.val(st, c.Value)
			for i, p := range fn.FreeVars {
				if cl.op == "closure" && i < len(cl.a) {
					fr.env[p] = cl.a[i]
				}
			}
		}
		caller := st.fr
		x.event(st, &Ev{kind: "enter", in: in, name: name, args: args})
		fr.ret = func(s *St, res []*T) {
			s.fr = caller.clone()
			x.event(s, &Ev{kind: "leave", in: in, name: name, args: args, res: x.tupleT(res)})
			k(s, res)
		}
		st.fr = fr
		x.block(st, nil, fn.Blocks[0])
		return true
	}
	res := x.opaque(st, in, name, args, c)
	x.bind(st, v, res)
	return false
}

func (x *E3) tupleT(res []*T) *T {
	if len(res) == 1 {
		return res[0]
	}
	return x.tt.mk("tuple", "", nil, res...)
}

func (x *E3) onStack(st *St, fn *ssa.Function) bool {
	for f := st.fr; f != nil; f = f.up {
		if f.fn == fn {
			return true
		}
	}
	return false
}

// opaque evaluates a call by its effects only.
func (x *E3) opaque(st *St, in ssa.CallInstruction, name string, args []*T, c *ssa.CallCommon) []*T {
	tt := x.tt
	ev := &Ev{kind: "call", in: in, name: name, args: args}
	x.event(st, ev)
	sig := c.Signature()
	n := sig.Results().Len()
	if x.h.Call != nil {
		if r := x.h.Call(st, in, name, args); r != nil {
			if len(r) == 1 {
				ev.res = r[0]
			} else {
				ev.res = tt.mk("tuple", "", nil, r...)
			}
			return r
		}
	}
	var fn *ssa.Function
	if !c.IsInvoke() {
		fn = c.StaticCallee()
		if fn == nil {
			fn = x.fns[x.val(st, c.Value)]
		}
	}
	// explicit lists instead of the arrays of variadic calls
	key := append([]*T(nil), args...)
	for i, a := range key {
		if a.op == "slice" && a.a[0].op == "alloc" {
			if es, ok := x.explicit(st, a); ok {
				key[i] = tt.mk("list", "", a.typ, es...)
			}
		}
	}
	ev.args = key
	ms := x.callMods(fn, name, c)
	id := ""
	if ms.pure {
		id = x.readVer(st, ms, key)
	} else {
		id = x.site(st, in)
	}
	if len(ms.mod) > 0 {
		for _, a := range args {
			x.escape(st, a)
		}
		x.killClasses(st, ms.mod, "call:"+x.site(st, in))
	}
	for _, i := range ms.outArgs {
		// memory the callee fills in
		for j, a := range key {
			if i >= 0 && i != j {
				continue
			}
			x.fillOut(st, in, a, j)
		}
	}
	var rt types.Type
	if n == 1 {
		rt = sig.Results().At(0).Type()
	}
	cs := name + "@" + id
	if ms.pure && id == "" {
		cs = name
	}
	t := tt.mk("call", cs, rt, key...)
	var res []*T
	switch n {
	case 0:
	case 1:
		res = []*T{x.expand(t, rt)}
	default:
		for i := 0; i < n; i++ {
			res = append(res, x.expand(tt.mk("ext", fmt.Sprint(i), sig.Results().At(i).Type(), t), sig.Results().At(i).Type()))
		}
	}
	x.callFacts(st, name, key, res)
	ev.res = t
	return res
}

// callFacts adds what is known about results of the standard library.
func (x *E3) callFacts(st *St, name string, args, res []*T) {
	switch name {
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
		// a non-empty text has a rune of at least one byte
		if st.proves(x.lin(x.lenOf(args[0])).addk(linC(1), -1)) {
			f := x.lin(res[1])
			f.c--
			st.facts = append(st.facts, f)
		}
	}
}

func (x *E3) fillOut(st *St, in ssa.Instruction, a *T, j int) {
	switch a.op {
	case "iface":
		x.fillOut(st, in, a.a[0], j)
	case "list":
		for i, e := range a.a {
			x.fillOut(st, in, e, i)
		}
	case "alloc", "&field", "&index", "global":
		old := x.loadT(st, a, derefType(a.typ))
		v := x.tt.mk("filled", fmt.Sprintf("%s#%d", x.site(st, in), j), derefType(a.typ), old)
		x.put(st, in, a, v)
	}
}

func (x *E3) killClasses(st *St, mod map[string]bool, by string) {
	for c := range st.mem {
		r := rootOf(c)
		if isFreshRoot(r) && !st.esc[r] {
			continue
		}
		if mod[clsType(c)] || mod["*"] {
			delete(st.mem, c)
			if isFreshRoot(r) {
				st.ver["A:"+r.s] = by
			}
		}
	}
	for k := range mod {
		if k == "*" {
			for v := range st.ver {
				if !strings.HasPrefix(v, "A:") {
					st.ver[v] = by
				}
			}
			continue
		}
		st.ver[k] = by
	}
	for r := range st.esc {
		st.ver["A:"+r.s] = by
	}
}

// havoc forgets what a loop changes.
func (x *E3) havoc(st *St, l *LoopI) {
	mod := map[string]bool{}
	roots := map[*T]bool{}
	var scan func(fn *ssa.Function, b *ssa.BasicBlock)
	scan = func(fn *ssa.Function, b *ssa.BasicBlock) {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				x.modOfAddr(st, in.Addr, mod, roots, l)
			case *ssa.MapUpdate:
				x.modOfMap(st, in.Map, mod, roots, l)
			case ssa.CallInstruction:
				c := in.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "copy", "append":
						if bi.Name() == "copy" {
							x.modOfSlice(st, c.Args[0], mod, roots, l)
						}
					case "delete":
						x.modOfMap(st, c.Args[0], mod, roots, l)
					}
					continue
				}
				name := "dynamic"
				fn := c.StaticCallee()
				if c.IsInvoke() {
					name = "invoke:" + c.Method.Name()
				} else if fn != nil {
					name = fn.RelString(nil)
				}
				ms := x.callMods(fn, name, c)
				for k := range ms.mod {
					mod[k] = true
				}
				for _, i := range ms.outArgs {
					for j, a := range c.Args {
						if i >= 0 && i != j {
							continue
						}
						x.outRoots(st, a, roots, 0)
					}
				}
				if len(ms.mod) > 0 {
					for _, a := range c.Args {
						x.outRoots(st, a, roots, 0)
					}
				}
			}
		}
	}
	for b := range l.body {
		scan(l.fn, b)
	}
	by := "loop:" + l.id
	for r := range roots {
		for c := range st.mem {
			if rootOf(c) == r {
				delete(st.mem, c)
			}
		}
		st.ver["A:"+r.s] = by
	}
	for c := range st.mem {
		r := rootOf(c)
		if isFreshRoot(r) && !st.esc[r] {
			continue
		}
		if mod[clsType(c)] || mod["*"] {
			delete(st.mem, c)
		}
	}
	for k := range mod {
		st.ver[k] = by
	}
	if len(mod) > 0 {
		for r := range st.esc {
			st.ver["A:"+r.s] = by
		}
	}
}

// outRoots: allocations whose address reaches a call argument.
func (x *E3) outRoots(st *St, v ssa.Value, roots map[*T]bool, d int) {
	if d > 8 {
		return
	}
	if t := st.fr.env[v]; t != nil {
		if r := rootOf(t); isFreshRoot(r) {
			roots[r] = true
			for c, w := range st.mem {
				if rootOf(c) == r {
					if rw := rootOf(w); isFreshRoot(rw) {
						roots[rw] = true
					}
				}
			}
		}
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		x.outRoots(st, v.X, roots, d+1)
	case *ssa.Slice:
		x.outRoots(st, v.X, roots, d+1)
	case *ssa.FieldAddr:
		x.outRoots(st, v.X, roots, d+1)
	case *ssa.IndexAddr:
		x.outRoots(st, v.X, roots, d+1)
	case *ssa.Alloc:
		// values stored into it within the loop
		for _, ref := range *v.Referrers() {
			switch ref := ref.(type) {
			case *ssa.Store:
				if ref.Addr == v {
					x.outRoots(st, ref.Val, roots, d+1)
				}
			case *ssa.IndexAddr:
				for _, r2 := range *ref.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == ref {
						x.outRoots(st, s.Val, roots, d+1)
					}
				}
			}
		}
	}
}

func (x *E3) modOfAddr(st *St, a ssa.Value, mod map[string]bool, roots map[*T]bool, l *LoopI) {
	r := rootVal(a)
	if t := st.fr.env[r]; t != nil && !inLoop(r, l) {
		rt := rootOf(t)
		if isFreshRoot(rt) && !st.esc[rt] {
			roots[rt] = true
			return
		}
	}
	switch r.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap:
		if inLoop(r, l) {
			return // made in this iteration
		}
	case *ssa.Phi:
		// a slice that is carried around: it may be anything it was
		for _, e := range r.(*ssa.Phi).Edges {
			if t := st.fr.env[e]; t != nil {
				rt := rootOf(t)
				if isFreshRoot(rt) {
					roots[rt] = true
				}
			}
		}
	}
	addClassesOf(a, mod)
}

func (x *E3) modOfMap(st *St, m ssa.Value, mod map[string]bool, roots map[*T]bool, l *LoopI) {
	if t := st.fr.env[m]; t != nil && !inLoop(m, l) {
		rt := rootOf(t)
		if isFreshRoot(rt) && !st.esc[rt] {
			roots[rt] = true
			return
		}
	}
	if inLoop(m, l) {
		if _, ok := m.(*ssa.MakeMap); ok {
			return
		}
	}
	mod["M:"+typeKey(m.Type())] = true
}

func (x *E3) modOfSlice(st *St, s ssa.Value, mod map[string]bool, roots map[*T]bool, l *LoopI) {
	r := rootVal(s)
	if t := st.fr.env[r]; t != nil && !inLoop(r, l) {
		rt := rootOf(t)
		if isFreshRoot(rt) && !st.esc[rt] {
			roots[rt] = true
			return
		}
	}
	if _, ok := r.(*ssa.MakeSlice); ok && inLoop(r, l) {
		return
	}
	if sl, ok := s.Type().Underlying().(*types.Slice); ok {
		mod["E:"+typeKey(sl.Elem())] = true
	}
}

func inLoop(v ssa.Value, l *LoopI) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && l.body[in.Block()] && in.Parent() == l.fn
}

func rootVal(a ssa.Value) ssa.Value {
	for {
		switch v := a.(type) {
		case *ssa.FieldAddr:
			a = v.X
		case *ssa.IndexAddr:
			a = v.X
		case *ssa.Slice:
			a = v.X
		default:
			return a
		}
	}
}

// addClassesOf adds the classes of memory a store to the address changes.
func addClassesOf(a ssa.Value, mod map[string]bool) {
	et := derefType(a.Type())
	var pre string
	switch v := a.(type) {
	case *ssa.FieldAddr:
		pre = "F:" + typeKey(derefType(v.X.Type())) + "." + structOf(v.X.Type()).Field(v.Field).Name()
	case *ssa.IndexAddr:
		pre = "E:" + typeKey(et)
	case *ssa.Global:
		pre = "G:" + v.RelString(nil)
	default:
		pre = "P:" + typeKey(et)
	}
	mod[pre] = true
	if s, ok := et.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			mod["F:"+typeKey(et)+"."+s.Field(i).Name()] = true
		}
	}
	if arr, ok := et.Underlying().(*types.Array); ok {
		mod["E:"+typeKey(arr.Elem())] = true
	}
}

// modset: classes of memory a function may change and read.
type modset struct {
	mod, rd map[string]bool
	outArgs []int // argument positions (-1: all) whose memory is filled in
	pure    bool
}

func (x *E3) callMods(fn *ssa.Function, name string, c *ssa.CallCommon) *modset {
	if fn != nil && fn.Blocks != nil && (x.inRepo(fn) || fn.Pkg != nil && fn.Pkg.Pkg.Path() == cedarPath) {
		return x.mods(fn)
	}
	if strings.HasPrefix(name, "invoke:") {
		if name == "invoke:Error" || name == "invoke:String" {
			return &modset{pure: true}
		}
		return &modset{mod: map[string]bool{"*": true}}
	}
	if fn == nil {
		return &modset{mod: map[string]bool{"*": true}}
	}
	p := ""
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		p = o.Pkg().Path()
	}
	recv := fn.Signature.Recv()
	switch p {
	case "strings", "strconv", "math", "unicode", "unicode/utf8", "path", "regexp", "errors", "path/filepath", "math/bits":
		if recv != nil && p == "strings" {
			return &modset{} // Builder, Reader
		}
		return &modset{pure: true}
	case "bytes":
		if recv != nil {
			return &modset{}
		}
		return &modset{pure: true}
	case "sort", "slices":
		ms := &modset{mod: map[string]bool{}}
		if strings.HasPrefix(fn.Name(), "Is") || strings.HasPrefix(fn.Name(), "Search") || fn.Name() == "Reverse" {
			return &modset{pure: true}
		}
		if c != nil && len(c.Args) > 0 {
			sortMods(c.Args[0], ms.mod, 0)
		} else {
			ms.mod["*"] = true
		}
		return ms
	case "fmt":
		if strings.HasPrefix(fn.Name(), "Sprint") || fn.Name() == "Errorf" {
			return &modset{pure: true}
		}
		if strings.Contains(fn.Name(), "scan") || strings.Contains(fn.Name(), "Scan") {
			return &modset{outArgs: []int{-1}}
		}
		return &modset{}
	}
	// other library calls do not change the memory of the repository, but their results are new each time
	return &modset{}
}

func sortMods(v ssa.Value, mod map[string]bool, d int) {
	if d > 6 {
		mod["*"] = true
		return
	}
	switch t := v.Type().Underlying().(type) {
	case *types.Slice:
		mod["E:"+typeKey(t.Elem())] = true
		if s, ok := t.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				mod["F:"+typeKey(t.Elem())+"."+s.Field(i).Name()] = true
			}
		}
		return
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		sortMods(v.X, mod, d+1)
		return
	case *ssa.ChangeInterface:
		sortMods(v.X, mod, d+1)
		return
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sort" && len(v.Call.Args) > 0 {
			sortMods(v.Call.Args[0], mod, d+1)
			return
		}
	}
	mod["*"] = true
}

func (x *E3) mods(fn *ssa.Function) *modset {
	if m, ok := x.modC[fn]; ok {
		return m
	}
	// transitive closure, computed to a fixpoint over the functions reachable
	seen := map[*ssa.Function]bool{}
	var order []*ssa.Function
	impure := map[*ssa.Function]bool{}
	own := map[*ssa.Function]*modset{}
	calls := map[*ssa.Function][]*ssa.Function{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		order = append(order, f)
		m := &modset{mod: map[string]bool{}, rd: map[string]bool{}}
		own[f] = m
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if !freshLocal(in.Addr) {
						addClassesOf(in.Addr, m.mod)
					}
				case *ssa.MapUpdate:
					if _, ok := in.Map.(*ssa.MakeMap); !ok {
						m.mod["M:"+typeKey(in.Map.Type())] = true
					}
				case *ssa.UnOp:
					if in.Op == token.MUL && !freshLocal(in.X) {
						addClassesOf(in.X, m.rd)
					}
				case *ssa.Lookup:
					if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
						_ = mt
						m.rd["M:"+typeKey(in.X.Type())] = true
					}
				case *ssa.Range:
					m.rd["M:"+typeKey(in.X.Type())] = true
				case *ssa.Convert:
					if s, ok := in.X.Type().Underlying().(*types.Slice); ok {
						m.rd["E:"+typeKey(s.Elem())] = true
					}
				case *ssa.MakeClosure:
					if g, ok := in.Fn.(*ssa.Function); ok && g.Blocks != nil {
						calls[f] = append(calls[f], g)
						walk(g)
					}
				case ssa.CallInstruction:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "copy":
							if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && !freshLocal(c.Args[0]) {
								m.mod["E:"+typeKey(sl.Elem())] = true
							}
						case "delete":
							m.mod["M:"+typeKey(c.Args[0].Type())] = true
						case "append", "len", "cap":
							if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && bi.Name() == "append" {
								m.rd["E:"+typeKey(sl.Elem())] = true
							}
						}
						continue
					}
					g := c.StaticCallee()
					if g != nil && g.Blocks != nil && (x.inRepo(g) || g.Pkg != nil && g.Pkg.Pkg.Path() == cedarPath) {
						calls[f] = append(calls[f], g)
						walk(g)
						continue
					}
					name := "dynamic"
					if c.IsInvoke() {
						name = "invoke:" + c.Method.Name()
					} else if g != nil {
						name = g.RelString(nil)
					} else if p, ok := c.Value.(*ssa.Parameter); ok {
						_ = p
					}
					if name == "dynamic" {
						// functions whose value is taken in this function
						known := false
						for _, y := range dynTargets(c.Value, 0) {
							known = true
							calls[f] = append(calls[f], y)
							walk(y)
						}
						if known {
							continue
						}
					}
					ms := x.callMods(g, name, c)
					for k := range ms.mod {
						m.mod[k] = true
					}
					if len(ms.outArgs) > 0 || !ms.pure && len(ms.mod) == 0 {
						impure[f] = true
					}
				}
			}
		}
	}
	walk(fn)
	for ch := true; ch; {
		ch = false
		for _, f := range order {
			for _, g := range calls[f] {
				for k := range own[g].mod {
					if !own[f].mod[k] {
						own[f].mod[k] = true
						ch = true
					}
				}
				for k := range own[g].rd {
					if !own[f].rd[k] {
						own[f].rd[k] = true
						ch = true
					}
				}
				if impure[g] && !impure[f] {
					impure[f] = true
					ch = true
				}
			}
		}
	}
	m := own[fn]
	m.pure = len(m.mod) == 0 && !impure[fn]
	x.modC[fn] = m
	return m
}

func dynTargets(v ssa.Value, d int) []*ssa.Function {
	if d > 6 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	case *ssa.ChangeType:
		return dynTargets(v.X, d+1)
	case *ssa.Phi:
		var out []*ssa.Function
		for _, e := range v.Edges {
			o := dynTargets(e, d+1)
			if o == nil {
				return nil
			}
			out = append(out, o...)
		}
		return out
	}
	return nil
}

func freshLocal(a ssa.Value) bool {
	switch rootVal(a).(type) {
	case *ssa.Alloc, *ssa.MakeSlice:
		return true
	}
	return false
}

// readVer names the state of the memory a pure call reads.
func (x *E3) readVer(st *St, ms *modset, args []*T) string {
	var vs []string
	for _, a := range args {
		if r := rootOf(a); r.op == "alloc" || r.op == "mkmap" || r.op == "mkslice" && st.ver["A:"+r.s] == "" {
			// contents that are tracked cell by cell
			vs = append(vs, "state"+fmt.Sprint(len(st.trace)))
		} else if isFreshRoot(r) {
			vs = append(vs, "A="+st.ver["A:"+r.s])
		}
	}
	for k := range ms.rd {
		if v := st.ver[k]; v != "" {
			vs = append(vs, k+"="+v)
		}
	}
	if ms.rd == nil {
		for _, a := range args {
			if a.typ == nil {
				continue
			}
			if s, ok := a.typ.Underlying().(*types.Slice); ok {
				if v := st.ver["E:"+typeKey(s.Elem())]; v != "" {
					vs = append(vs, "E:"+typeKey(s.Elem())+"="+v)
				}
			}
		}
	}
	sort.Strings(vs)
	return strings.Join(vs, ",")
}

func (x *E3) builtin(st *St, in *ssa.Call, name string, c *ssa.CallCommon, args []*T) *T {
	tt := x.tt
	switch name {
	case "len":
		a := args[0]
		if es, ok := x.explicit(st, a); ok && a.op != "mkslice" {
			return tt.int(int64(len(es)))
		}
		return x.lenOf(a)
	case "cap":
		return tt.mk("cap", "", in.Type(), args[0])
	case "append":
		b := args[1]
		if es, ok := x.explicit(st, b); ok && (b.op == "slice" || b.op == "list" || b.isNil()) {
			b = tt.mk("list", "", b.typ, es...)
		}
		if b.op == "list" && len(b.a) == 0 {
			return args[0]
		}
		t := tt.mk("append", "", in.Type(), args[0], b)
		x.event(st, &Ev{kind: "append", in: in, args: []*T{args[0], b}, res: t})
		return t
	case "copy":
		x.event(st, &Ev{kind: "call", in: in, name: "builtin:copy", args: args})
		r := rootOf(args[0])
		by := x.site(st, in)
		if isFreshRoot(r) && !st.esc[r] {
			x.killRoot(st, r)
			st.ver["A:"+r.s] = by
		} else if sl, ok := args[0].typ.Underlying().(*types.Slice); ok {
			x.killClasses(st, map[string]bool{"E:" + typeKey(sl.Elem()): true}, by)
		}
		if x.h.Copy != nil {
			if t := x.h.Copy(st, in, args[0], args[1]); t != nil {
				return t
			}
		}
		t := tt.mk("copied", by, in.Type(), args...)
		st.facts = append(st.facts, x.lin(t), x.lin(x.lenOf(args[0])).addk(x.lin(t), -1), x.lin(x.lenOf(args[1])).addk(x.lin(t), -1))
		return t
	case "delete":
		x.event(st, &Ev{kind: "mapset", in: in, name: "delete", args: []*T{args[0], args[1], tt.mk("deleted", "", nil)}})
		if !args[0].isNil() {
			x.mapput(st, in, args[0], args[1], tt.mk("deleted", "", nil))
		}
		return tt.nilT()
	case "print", "println":
		return tt.nilT()
	}
	return tt.mk("bi", name+"@"+x.site(st, in), in.Type(), args...)
}

// initialised: a package variable that is set once, at initialisation, to something that is not nil.
func (x *E3) initialised(name string) bool {
	if x.initC == nil {
		x.initC = map[string]bool{}
		bad := map[string]bool{}
		for _, fn := range append(append([]*ssa.Function(nil), x.w.Funcs...), initFuncs(x.w)...) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					g, ok := s.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					n := g.RelString(nil)
					if fn.Name() != "init" || fn.Synthetic == "" {
						bad[n] = true
						continue
					}
					switch v := s.Val.(type) {
					case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc, *ssa.Slice:
						x.initC[n] = true
					case *ssa.Call:
						if f := v.Call.StaticCallee(); f != nil && f.Name() == "MustCompile" {
							x.initC[n] = true
						}
					}
				}
			}
		}
		for n := range bad {
			delete(x.initC, n)
		}
	}
	return x.initC[name]
}

func initFuncs(w *World) []*ssa.Function {
	var out []*ssa.Function
	for _, p := range w.SSA {
		if p != nil {
			if f := p.Func("init"); f != nil && f.Blocks != nil {
				out = append(out, f)
			}
		}
	}
	return out
}
