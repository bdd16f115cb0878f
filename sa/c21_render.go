package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C21", checkRender) }

// renderer is what a function adds to its output, edge by edge between the heads of its loops.
type renderer struct {
	fn    *ssa.Function
	edges map[string][]*rEdge // from the start ("") or the head of a loop
	loops map[string]*LoopI
	acc   map[string]*T    // the output so far, at the head of a loop
	count map[*T]int64     // variables that go up by one each time, with their first value
	first map[string][]*T  // values at the first visit
	param []*T             // parameters other than the output so far
	pre   map[string][]Lit // what is known at the head of a loop
	out   *T               // the output so far, if it is a parameter
	bad   string
}

type rEdge struct {
	to    string // head of a loop, or "ret"
	lits  []Lit
	vals  []*T
	res   *T
	trace []*Ev
}

// rItem is something added to the output.
type rItem struct {
	fn   *ssa.Function // what another function adds
	args []*T
	text *T // a word
	pos  *T // and its tag
}

type rendering struct {
	c     *Ctx
	x     *E3
	memo  map[*ssa.Function]*renderer
	fns   map[string]*ssa.Function
	done  map[string]bool
	work  [][2]*ssa.Function
	Pairs int
}

func isRendering(t types.Type) bool {
	if isString(t) || isTextBytes(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	return isString(s.Elem()) || isNamed(s.Elem(), modPath, "SegPos") && !isPtr(s.Elem())
}

func isTextBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func isBuilder(t types.Type) bool {
	return isPtr(t) && (isNamed(derefType(t), "strings", "Builder") || isNamed(derefType(t), "bytes", "Buffer"))
}

// renders: the function turns a token or segments into output.
func renders(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil || fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath {
		return false
	}
	in, out := false, false
	for _, p := range fn.Params {
		t := p.Type()
		if isNamed(derefType(t), modPath, "Token") || isNamed(derefType(t), modPath, "Segment") {
			in = true
		}
		if e := t; e != nil {
			if s, ok := e.Underlying().(*types.Slice); ok && (isNamed(derefType(s.Elem()), modPath, "Token") || isNamed(derefType(s.Elem()), modPath, "Segment")) {
				in = true
			}
		}
		if isBuilder(t) {
			out = true
		}
	}
	r := fn.Signature.Results()
	if r.Len() == 1 && isRendering(r.At(0).Type()) {
		out = true
	}
	return in && out && (hasLoop(fn) || callsItself(fn))
}

func callsItself(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == fn {
				return true
			}
		}
	}
	return false
}

func (r *rendering) get(fn *ssa.Function) *renderer {
	if a := r.memo[fn]; a != nil {
		return a
	}
	a := &renderer{fn: fn, edges: map[string][]*rEdge{}, loops: map[string]*LoopI{}, acc: map[string]*T{}, count: map[*T]int64{}, first: map[string][]*T{}, pre: map[string][]Lit{}}
	r.memo[fn] = a
	x := r.x
	for i, p := range fn.Params {
		v := x.paramT(fn, i)
		res := fn.Signature.Results()
		if isBuilder(p.Type()) || res.Len() == 1 && isRendering(res.At(0).Type()) && types.Identical(res.At(0).Type(), p.Type()) && !isTokens(p.Type()) {
			a.out = v
		} else {
			a.param = append(a.param, v)
		}
	}
	never := map[*T]bool{}
	edge := func(st *St, from string, nl, nt int, e *rEdge, hl, ht int) {
		e.lits = append([]Lit(nil), st.lits[nl:hl]...)
		e.trace = append([]*Ev(nil), st.trace[nt:ht]...)
		for _, o := range a.edges[from] {
			if o.same(e) {
				return
			}
		}
		a.edges[from] = append(a.edges[from], e)
	}
	walk := func(st *St) (from string, nl, nt int) {
		for k, e := range st.trace {
			if e.kind != "loop" {
				continue
			}
			l := e.loop
			if l.outer != nil {
				a.bad = "loops in loops"
			}
			id := headOf(st, l)
			a.loops[id] = l
			edge(st, from, nl, nt, &rEdge{to: id, vals: l.init}, l.nl, k)
			a.first[id] = l.init
			a.pre[id] = append([]Lit(nil), st.lits[:l.nl]...)
			from, nl, nt = id, l.nl, k+1
		}
		return
	}
	h := &Hooks{
		Inline: func(st *St, g *ssa.Function) bool {
			if g != fn && renders(g) && !callsItself(g) && len(st.fr.loops) == 0 && types.Identical(g.Signature.Results(), fn.Signature.Results()) {
				return true // the words of another function are the result
			}
			return g != fn && !renders(g) && !hasLoop(g) && !callsItself(g) && g.Pkg != nil && g.Pkg.Pkg.Path() == modPath && g.Name() != "IsJp"
		},
		Back: func(st *St, l *LoopI, next []*T) {
			walk(st)
			id := headOf(st, l)
			edge(st, id, l.nl, l.nt, &rEdge{to: id, vals: next}, len(st.lits), len(st.trace))
			for i, p := range l.phis {
				if isInt(p.Type()) {
					if d := x.lin(next[i]).addk(x.lin(l.syms[i]), -1); len(d.k) != 0 || d.c != 1 {
						never[l.syms[i]] = true
					}
				}
			}
		},
		Ret: func(st *St, res []*T) {
			from, nl, nt := walk(st)
			e := &rEdge{to: "ret"}
			if len(res) > 0 {
				e.res = res[0]
			}
			edge(st, from, nl, nt, e, len(st.lits), len(st.trace))
		},
	}
	if x.Run(fn, h) {
		a.bad = "too many paths"
		return a
	}
	for id, l := range a.loops {
		for i, p := range l.phis {
			if isInt(p.Type()) && !never[l.syms[i]] {
				if n, ok := a.first[id][i].intVal(); ok {
					a.count[l.syms[i]] = n
				}
			}
		}
	}
	r.outputs(a)
	return a
}

func isTokens(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && (isNamed(derefType(s.Elem()), modPath, "Token") || isNamed(derefType(s.Elem()), modPath, "Segment"))
}

// headOf is the head of a loop, when it is reached this way.
func headOf(st *St, l *LoopI) string {
	k := l.id
	for _, l := range st.lits[:l.nl] {
		k += fmt.Sprintf(" %d%v", l.t.id, l.pol)
	}
	return k
}

func (e *rEdge) same(o *rEdge) bool {
	if e.to != o.to || e.res != o.res || len(e.lits) != len(o.lits) || len(e.vals) != len(o.vals) {
		return false
	}
	for i := range e.lits {
		if e.lits[i] != o.lits[i] {
			return false
		}
	}
	for i := range e.vals {
		if e.vals[i] != o.vals[i] {
			return false
		}
	}
	return true
}

// outputs finds what holds the output at the head of each loop.
func (r *rendering) outputs(a *renderer) {
	note := func(from string, v *T) {
		b, _ := r.split(a, v)
		if b == nil {
			return
		}
		if l := a.loops[from]; l != nil {
			for _, s := range l.syms {
				if s == b {
					a.acc[from] = b
				}
			}
		}
		if isOwn(b) {
			a.acc[from] = b
		}
	}
	if a.out != nil && isBuilder(a.out.typ) {
		a.acc[""] = a.out
		for id := range a.loops {
			a.acc[id] = a.out
		}
		return
	}
	for n := 0; n <= len(a.loops)+1; n++ {
		for from, es := range a.edges {
			for _, e := range es {
				if e.to == "ret" {
					if e.res != nil {
						note(from, e.res)
					}
				} else if t := a.acc[e.to]; t != nil {
					if isOwn(t) {
						a.acc[from] = t
						continue
					}
					for i, s := range a.loops[e.to].syms {
						if s == t {
							note(from, e.vals[i])
						}
					}
				}
			}
		}
	}
}

// isOwn: output that is written in place, a builder or a list of its own.
func isOwn(t *T) bool { return t.op == "alloc" || t.op == "mkslice" }

// split takes an output apart: what it starts with, and what is added.
func (r *rendering) split(a *renderer, v *T) (base *T, items []*T) {
	for {
		v = stripSame(v)
		if v == a.out {
			return v, items
		}
		for _, l := range a.loops {
			for _, s := range l.syms {
				if s == v {
					return v, items
				}
			}
		}
		switch {
		case v.op == "append":
			var add []*T
			if l := v.a[1]; l.op == "list" {
				add = l.a
			} else {
				add = []*T{r.x.tt.mk("spread", "", nil, l)}
			}
			items = append(append([]*T(nil), add...), items...)
			v = v.a[0]
			continue
		case v.op == "list":
			return nil, append(append([]*T(nil), v.a...), items...)
		case v.op == "mkslice":
			if isZero(r.x.lenOf(v)) {
				return nil, items
			}
			return v, items
		case v.op == "slice" && v.a[0].op == "alloc" && isZero(r.x.lenOf(v)):
			return nil, items
		case v.op == "cat":
			items = append([]*T{v.a[1]}, items...)
			v = v.a[0]
			continue
		case v.isNil():
			return nil, items
		case v.op == "const":
			if v.cv != nil && v.cv.Kind() == constant.String && constant.StringVal(v.cv) == "" {
				return nil, items
			}
		case v.op == "call":
			n := callName(v.s)
			if builderCall[n] && len(v.a) > 0 {
				return rootOf(v.a[0]), items
			}
			// a function that adds to what it is given
			if f := r.fns[n]; renders(f) {
				if o := r.get(f).out; o != nil && !isBuilder(o.typ) {
					for i := range f.Params {
						if r.x.paramT(f, i) == o && i < len(v.a) {
							items = append([]*T{v}, items...)
							v = v.a[i]
							break
						}
					}
					continue
				}
				if !isString(v.typ) {
					return nil, append([]*T{r.x.tt.mk("spread", "", nil, v)}, items...)
				}
			}
		}
		return nil, append([]*T{v}, items...)
	}
}

var builderCall = map[string]bool{"(*strings.Builder).String": true, "(*bytes.Buffer).String": true, "(*bytes.Buffer).Bytes": true}

// stripSame removes conversions between strings and bytes.
func stripSame(v *T) *T {
	for v.op == "conv" && v.typ != nil && v.a[0].typ != nil && (isString(v.typ) || isTextBytes(v.typ)) && (isString(v.a[0].typ) || isTextBytes(v.a[0].typ)) {
		v = v.a[0]
	}
	return v
}

// added: what an edge adds to the output.
func (r *rendering) added(a *renderer, from string, e *rEdge) (items []rItem, why string) {
	acc := a.acc[from]
	if acc != nil && (isOwn(acc) || isBuilder(acc.typ)) {
		return r.written(a, acc, from, e)
	}
	var v *T
	if e.to == "ret" {
		v = e.res
	} else if t := a.acc[e.to]; t != nil {
		for i, s := range a.loops[e.to].syms {
			if s == t {
				v = e.vals[i]
			}
		}
	} else if acc != nil {
		return nil, "the output is lost"
	}
	if v == nil {
		return nil, ""
	}
	b, raw := r.split(a, v)
	want := acc
	if from == "" && want == nil {
		want = a.out
	}
	if b != want {
		return nil, "the output does not go on from what it was: " + clip(v.String())
	}
	return r.items(a, raw)
}

// written: what is written into a builder or a list.
func (r *rendering) written(a *renderer, acc *T, from string, e *rEdge) (items []rItem, why string) {
	x := r.x
	var raw []*T
	at0 := map[string]*T{}
	for _, ev := range e.trace {
		if ev.kind == "store" && rootOf(ev.args[0]) == acc && acc.op == "mkslice" {
			d, field := ev.args[0], ""
			if d.op == "&field" {
				field, d = d.s, d.a[0]
			}
			if d.op != "&index" || rootOf(d.a[0]) != acc {
				return nil, "a place of the output is not known"
			}
			i, n := x.lin(d.a[1]), false
			for s, first := range a.count {
				if l := a.loops[from]; l != nil && l.has(s) {
					k := x.lin(s)
					k.c -= first
					n = n || zeroLin(i.addk(k, -1))
				}
			}
			if !n || at0[field] != nil {
				return nil, "the output is not written one after the other"
			}
			at0[field] = ev.args[1]
		}
		if ev.kind != "call" || len(ev.args) == 0 {
			continue
		}
		to := false
		for _, g := range ev.args {
			if t := g.typ; t != nil && rootOf(stripIface(g)) == acc {
				to = true
			}
		}
		if !to {
			continue
		}
		switch n := ev.name; {
		case strings.HasSuffix(n, ").WriteString") || strings.HasSuffix(n, ").Write") || strings.HasSuffix(n, ").WriteByte") || strings.HasSuffix(n, ").WriteRune"):
			raw = append(raw, ev.args[1])
		case n == "fmt.Fprintf":
			raw = append(raw, x.tt.mk("call", "fmt.Sprintf", types.Typ[types.String], ev.args[1:]...))
		case strings.HasSuffix(n, ").String") || strings.HasSuffix(n, ").Len") || strings.HasSuffix(n, ").Grow") || strings.HasSuffix(n, ").Bytes"):
		default:
			if !renders(r.fns[n]) {
				return nil, "the output is handed to " + n
			}
			raw = append(raw, x.tt.mk("call", n, nil, ev.args...))
		}
	}
	if acc.op == "mkslice" {
		if w := at0[""]; w != nil {
			raw = append(raw, w)
		} else if t := at0["Text"]; t != nil {
			p := at0["Pos"]
			if p == nil {
				p = x.str("")
			}
			items = append(items, rItem{text: r.textOf(t), pos: stripSame(p)})
		} else if e.to == from {
			return nil, "a place of the output is left empty"
		}
		if e.to == "ret" && from != "" {
			// every place was written
			full := false
			for _, l := range e.lits {
				if !l.pol && l.t.op == "<" && zeroLin(x.lin(l.t.a[1]).addk(x.lin(x.lenOf(acc)), -1)) {
					for s, first := range a.count {
						k := x.lin(s)
						k.c -= first
						full = full || a.loops[from].has(s) && zeroLin(x.lin(l.t.a[0]).addk(k, -1))
					}
				}
			}
			if !full {
				return nil, "not every place of the output is written"
			}
		}
	}
	if e.to == "ret" && e.res != nil {
		b, more := r.split(a, e.res)
		if b != acc {
			return nil, "the result is not the output: " + clip(e.res.String())
		}
		raw = append(raw, more...)
	}
	more, why := r.items(a, raw)
	return append(items, more...), why
}

func (l *LoopI) has(s *T) bool {
	for _, t := range l.syms {
		if t == s {
			return true
		}
	}
	return false
}

func stripIface(t *T) *T {
	for t.op == "iface" {
		t = t.a[0]
	}
	return t
}

// pieces of text.
func (r *rendering) pieces(v *T) []*T {
	v = stripSame(stripIface(v))
	switch {
	case v.op == "cat" || v.op == "+" && isString(v.typ):
		return append(r.pieces(v.a[0]), r.pieces(v.a[1])...)
	case v.isCall("fmt.Sprintf") && len(v.a) == 2 && v.a[0].op == "const" && v.a[1].op == "list":
		f := constant.StringVal(v.a[0].cv)
		var o []*T
		args := v.a[1].a
		for f != "" {
			i := strings.IndexByte(f, '%')
			if i < 0 || i+1 >= len(f) {
				o = append(o, r.x.str(f))
				break
			}
			if i > 0 {
				o = append(o, r.x.str(f[:i]))
			}
			switch f[i+1] {
			case '%':
				o = append(o, r.x.str("%"))
			case 's', 'v':
				if len(args) == 0 || !isString(stripIface(args[0]).typ) {
					return []*T{v}
				}
				o = append(o, r.pieces(args[0])...)
				args = args[1:]
			default:
				return []*T{v}
			}
			f = f[i+2:]
		}
		if len(args) > 0 {
			return []*T{v}
		}
		return o
	case v.op == "const":
		if v.cv != nil && v.cv.Kind() == constant.Int { // a byte or a rune
			n, _ := v.intVal()
			return []*T{r.x.str(string(rune(n)))}
		}
	}
	return []*T{v}
}

func (r *rendering) call(v *T) (rItem, bool) {
	if v.op == "spread" {
		v = v.a[0]
	}
	if v.op != "call" {
		return rItem{}, false
	}
	f := r.fns[callName(v.s)]
	if !renders(f) {
		return rItem{}, false
	}
	a := r.get(f)
	it := rItem{fn: f}
	for i := range f.Params {
		if r.x.paramT(f, i) != a.out && i < len(v.a) {
			it.args = append(it.args, v.a[i])
		}
	}
	return it, true
}

func (r *rendering) items(a *renderer, raw []*T) (o []rItem, why string) {
	x := r.x
	if !a.text() {
		for _, v := range raw {
			if it, ok := r.call(v); ok {
				o = append(o, it)
			} else if v.typ != nil && isNamed(v.typ, modPath, "SegPos") {
				f := structOf(v.typ)
				it := rItem{}
				for i := 0; i < f.NumFields(); i++ {
					switch f.Field(i).Name() {
					case "Text":
						it.text = r.textOf(x.fieldOf(v, i, v.typ))
					case "Pos":
						it.pos = stripSame(x.fieldOf(v, i, v.typ))
					}
				}
				o = append(o, it)
			} else if v.typ != nil && isString(v.typ) {
				o = append(o, rItem{text: r.textOf(v)})
			} else {
				return nil, "what is added is not known: " + clip(v.String())
			}
		}
		return o, ""
	}
	var ps []*T
	for _, v := range raw {
		ps = append(ps, r.pieces(v)...)
	}
	isLit := func(k int, s string) bool {
		return k < len(ps) && ps[k].op == "const" && ps[k].cv.Kind() == constant.String && constant.StringVal(ps[k].cv) == s
	}
	for k := 0; k < len(ps); {
		if it, ok := r.call(ps[k]); ok {
			o = append(o, it)
			k++
			continue
		}
		if isLit(k+1, "/") && isLit(k+3, " ") && ps[k].op != "const" {
			o = append(o, rItem{text: r.textOf(ps[k]), pos: stripSame(ps[k+2])})
			k += 4
			continue
		}
		var w []string
		for _, p := range ps[k:] {
			w = append(w, p.String())
		}
		return nil, "what is written is not word/tag and a space: " + clip(strings.Join(w, " "))
	}
	return o, ""
}

// text: the output is one text.
func (a *renderer) text() bool {
	if a.out != nil && isBuilder(a.out.typ) {
		return true
	}
	t := a.fn.Signature.Results().At(0).Type()
	return isString(t) || isTextBytes(t)
}

// textOf: the text of a token, however it is put together.
func (r *rendering) textOf(v *T) *T {
	v = stripSame(v)
	if v.op != "call" || len(v.a) == 0 {
		return v
	}
	n := callName(v.s)
	g := v.a[len(v.a)-1]
	if strings.HasPrefix(n, modPath+".") && byteLens[n[len(modPath)+1:]] && g.op == "load" && isFieldOf(g.a[0], modPath, "Token", "text") {
		return r.x.tt.mk("text", g.s, types.Typ[types.String], g.a[0].a[0])
	}
	if n == "(*"+modPath+".Token).Text" {
		return r.x.tt.mk("text", "", types.Typ[types.String], g)
	}
	return v
}

// view is a function at the head of one of its loops with the values of its flags.
type view struct {
	a    *renderer
	at   string
	vals map[*T]bool
}

func (v view) key() string {
	var o []string
	for t, b := range v.vals {
		o = append(o, fmt.Sprint(t.s, "=", b))
	}
	sort.Strings(o)
	return v.at + "|" + strings.Join(o, ",")
}

// subst: the values of the flags, the round and the parameters put in.
func (r *rendering) subst(v view) func(t *T) *T {
	x := r.x
	m := map[*T]*T{}
	for t, b := range v.vals {
		m[t] = x.tt.bool(b)
	}
	round := x.tt.mk("sym", "round", types.Typ[types.Int])
	if l := v.a.loops[v.at]; l != nil {
		for _, s := range l.syms {
			if n, ok := v.a.count[s]; ok {
				m[s] = x.arith("+", round, x.tt.int(n), types.Typ[types.Int])
			}
		}
	}
	for i, p := range v.a.param {
		m[p] = x.tt.mk("sym", "argument "+fmtInt(i), p.typ)
	}
	return func(t *T) *T { return x.subst(t, m) }
}

type step struct {
	e     *rEdge
	lits  []Lit
	items []rItem
	to    view
}

// steps: what the function can do next.
func (r *rendering) steps(v view) (o []step, why string) {
	x := r.x
	sub := r.subst(v)
edges:
	for _, e := range v.a.edges[v.at] {
		s := step{e: e, to: view{a: v.a, at: e.to, vals: map[*T]bool{}}}
		st := x.fresh()
		for _, l := range e.lits {
			t := sub(l.t)
			if b, ok := t.boolVal(); ok {
				if b != l.pol {
					continue edges
				}
				continue
			}
			if !st.assume(t, l.pol) {
				continue edges
			}
			s.lits = append(s.lits, Lit{t, l.pol})
		}
		items, why := r.added(v.a, v.at, e)
		if why != "" {
			return nil, why
		}
		for _, it := range items {
			n := rItem{fn: it.fn}
			for _, g := range it.args {
				n.args = append(n.args, sub(g))
			}
			if it.text != nil {
				n.text = sub(it.text)
			}
			if it.pos != nil {
				n.pos = sub(it.pos)
			}
			s.items = append(s.items, n)
		}
		outs := []step{s}
		if l := v.a.loops[e.to]; l != nil {
			for i, p := range l.phis {
				if !isBool(p.Type()) {
					continue
				}
				t := sub(e.vals[i])
				b, ok := t.boolVal()
				if !ok {
					b, ok = st.truth(t)
				}
				var more []step
				for _, q := range outs {
					for _, k := range []bool{true, false} {
						if ok && k != b {
							continue
						}
						n := q
						n.to.vals = map[*T]bool{l.syms[i]: k}
						for a, b := range q.to.vals {
							n.to.vals[a] = b
						}
						if !ok {
							n.lits = append(append([]Lit(nil), q.lits...), Lit{t, k})
						}
						more = append(more, n)
					}
				}
				outs = more
			}
		}
		o = append(o, outs...)
	}
	return o, ""
}

// agree: the two functions add the same words for the same arguments, whatever these are.
func (r *rendering) agree(f, g *ssa.Function) {
	f, g = r.source(f, 3), r.source(g, 3)
	key := f.String() + "|" + g.String()
	if r.done[key] {
		return
	}
	r.done[key] = true
	r.work = append(r.work, [2]*ssa.Function{f, g})
}

// source: the function whose words, and no others, the function gives.
func (r *rendering) source(f *ssa.Function, n int) *ssa.Function {
	a := r.get(f)
	x := r.x
	if n == 0 || a.bad != "" || len(a.loops) == 0 || a.out != nil {
		return f
	}
	var g *ssa.Function
	for id, l := range a.loops {
		var list *T
		for _, e := range a.edges[id] {
			items, why := r.added(a, id, e)
			if why != "" {
				return f
			}
			if e.to == "ret" {
				end := false
				for _, lt := range e.lits {
					if lt.pol || lt.t.op != "<" {
						continue
					}
					for u, k := range x.lin(lt.t.a[1]).k {
						if k == 1 && u.op == "len" && len(x.lin(lt.t.a[1]).k) == 1 && a.round(l, x.lin(lt.t.a[0])) {
							if list != nil && list != u.a[0] {
								return f
							}
							list, end = u.a[0], true
						}
					}
				}
				if !end || len(items) > 0 || len(e.lits) != 1 {
					return f
				}
				continue
			}
			if e.to != id || len(items) != 1 || items[0].fn != nil {
				return f
			}
			of := func(v *T, name string) bool {
				if v.op != "load" || !isFieldOf(v.a[0], modPath, "SegPos", name) {
					return false
				}
				b, i, ok := at(x, v.a[0].a[0])
				if !ok || !a.round(l, i) || list != nil && list != b {
					return false
				}
				list = b
				return true
			}
			if !of(items[0].text, "Text") || items[0].pos != nil && !of(items[0].pos, "Pos") {
				return f
			}
		}
		if list == nil {
			return f
		}
		it, ok := r.call(list)
		if !ok || len(it.args) != len(a.param) || g != nil && g != it.fn {
			return f
		}
		g = it.fn
		st := x.fresh()
		for _, lt := range a.pre[id] {
			st.assume(lt.t, lt.pol)
		}
		for i, p := range a.param {
			if it.args[i] == p {
				continue
			}
			// an optional argument
			none := st.proves(linC(0).addk(x.lin(x.lenOf(p)), -1))
			v := it.args[i]
			if elemType(p) == nil || v.op != "list" && !v.isNil() || len(v.a) > 1 {
				return f
			}
			if none && (len(v.a) == 0 || v.a[0] == x.tt.bool(false)) || !none && len(v.a) == 1 && isFirstOf(x, v.a[0], p) {
				continue
			}
			return f
		}
	}
	for _, e := range a.edges[""] {
		if e.to == "ret" {
			return f
		}
		if items, why := r.added(a, "", e); why != "" || len(items) > 0 {
			return f
		}
	}
	return r.source(g, n-1)
}

// round: the index of the current round of the loop.
func (a *renderer) round(l *LoopI, i lin) bool {
	for _, s := range l.syms {
		if n, ok := a.count[s]; ok {
			if d := i.clone(); d.k[s] == 1 && len(d.k) == 1 && d.c == -n {
				return true
			}
		}
	}
	return false
}

func (r *rendering) run() {
	for len(r.work) > 0 {
		p := r.work[0]
		r.work = r.work[1:]
		r.pair(p[0], p[1])
	}
}

func (r *rendering) pair(f, g *ssa.Function) {
	c, x := r.c, r.x
	name := short(f) + ", " + short(g)
	pos := c.Pos(f.Pos())
	a, b := r.get(f), r.get(g)
	for _, v := range []*renderer{a, b} {
		if v.bad != "" {
			c.R.Fail("analysed", short(v.fn), c.Pos(v.fn.Pos()), v.bad)
			return
		}
	}
	if len(a.param) != len(b.param) {
		c.R.Fail("the-renderings-agree", name, pos, "the functions take different arguments")
		return
	}
	for i := range a.param {
		if !types.Identical(a.param[i].typ, b.param[i].typ) {
			c.R.Fail("the-renderings-agree", name, pos, "the functions take different arguments")
			return
		}
	}
	failed := false
	fail := func(rule, name, pos, why string) {
		failed = true
		c.R.Fail(rule, name, pos, why)
	}
	type node struct {
		v, w  view
		known []Lit // what stays as it is from one round to the next
	}
	seen := map[string]bool{}
	ends := false
	work := []node{{v: view{a: a}, w: view{a: b}}}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		k := n.v.key() + "||" + n.w.key() + litStrings(n.known)
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 200 {
			fail("analysed", name, pos, "too many states")
			return
		}
		s1, why := r.steps(n.v)
		s2, why2 := r.steps(n.w)
		if why == "" {
			why = why2
		}
		if why != "" {
			fail("the-renderings-agree", name, pos, why)
			continue
		}
		for _, p := range s1 {
			for _, q := range s2 {
				st := x.fresh()
				ok := true
				for _, l := range append(append(append([]Lit(nil), n.known...), p.lits...), q.lits...) {
					if v, known := st.truth(l.t); known && v != l.pol || !st.assume(l.t, l.pol) {
						ok = false
						break
					}
				}
				if !ok {
					continue
				}
				r.Pairs++
				where := "; when " + clip(litStrings(st.lits))
				if why := r.differ(st, p.items, q.items); why != "" {
					fail("the-renderings-agree", name, pos, why+where)
					continue
				}
				if (p.e.to == "ret") != (q.e.to == "ret") {
					fail("the-renderings-agree", name, pos, "one goes on where the other ends"+where)
					continue
				}
				c.R.OK("the-renderings-agree", name, pos)
				ends = ends || p.e.to == "ret"
				if p.e.to != "ret" {
					m := node{v: p.to, w: q.to}
					for _, l := range st.lits {
						if r.stays(l.t) {
							m.known = append(m.known, l)
						}
					}
					sort.Slice(m.known, func(i, j int) bool { return m.known[i].t.id < m.known[j].t.id })
					work = append(work, m)
				}
			}
		}
	}
	if !ends && !failed {
		c.R.Fail("the-renderings-agree", name, pos, "no way through both functions was found")
	}
}

// stays: the term does not depend on a round.
func (r *rendering) stays(t *T) bool {
	if t.op == "phi" || t.op == "sym" && t.s == "round" {
		return false
	}
	for _, u := range t.a {
		if !r.stays(u) {
			return false
		}
	}
	return true
}

func (r *rendering) differ(st *St, a, b []rItem) string {
	show := func(is []rItem) string {
		var o []string
		for _, i := range is {
			switch {
			case i.fn != nil:
				var g []string
				for _, t := range i.args {
					g = append(g, t.String())
				}
				o = append(o, "the words of "+strings.Join(g, ", "))
			default:
				s := i.text.String()
				if i.pos != nil {
					s += " with tag " + i.pos.String()
				}
				o = append(o, s)
			}
		}
		if len(o) == 0 {
			return "nothing"
		}
		return strings.Join(o, " then ")
	}
	bad := "one adds " + clip(show(a)) + ", the other " + clip(show(b))
	if len(a) != len(b) {
		return bad
	}
	for i := range a {
		p, q := a[i], b[i]
		if (p.fn == nil) != (q.fn == nil) {
			return bad
		}
		if p.fn != nil {
			if len(p.args) != len(q.args) {
				return bad
			}
			for k := range p.args {
				if p.args[k] != q.args[k] {
					return bad
				}
			}
			r.agree(p.fn, q.fn)
			continue
		}
		if p.text != q.text || p.pos != nil && q.pos != nil && p.pos != q.pos {
			return bad
		}
	}
	return ""
}

// ofSegments decides that a function shows every segment, or its token, one after the other.
func (r *rendering) ofSegments(f *ssa.Function) {
	c, x := r.c, r.x
	a := r.get(f)
	name, pos := short(f), c.Pos(f.Pos())
	if a.bad != "" {
		c.R.Fail("analysed", name, pos, a.bad)
		return
	}
	var segs *T
	for _, p := range a.param {
		if isSegList(p) {
			segs = p
		}
	}
	for id := range a.loops {
		for _, e := range a.edges[id] {
			if r.searches(a, append(append([]Lit(nil), a.pre[id]...), e.lits...)) {
				continue // the words of a segment in search mode
			}
			items, why := r.added(a, id, e)
			if why == "" && e.to == id {
				if len(items) != 1 {
					why = fmt.Sprintf("%d things are added for one segment", len(items))
				} else {
					it := items[0]
					var tok *T
					if it.fn != nil {
						why = "more than the segment itself is shown in normal mode"
					} else if it.text.op == "text" {
						tok = it.text.a[0]
					}
					switch {
					case why != "":
					case tok == nil || tok.op != "load" || !isFieldOf(tok.a[0], modPath, "Segment", "token"):
						why = "what is added is not the token of a segment"
					default:
						l, i, ok := at(x, tok.a[0].a[0])
						good := false
						for s, n := range a.count {
							k := x.lin(s)
							k.c -= n
							good = good || a.loops[id].has(s) && zeroLin(i.addk(k, -1))
						}
						if !ok || l != segs || !good {
							why = "the segments are not shown one after the other"
						}
					}
				}
			} else if why == "" && e.to == "ret" {
				if len(items) > 0 {
					why = "something is added after the segments"
				}
				end := false
				for _, l := range e.lits {
					if !l.pol && l.t.op == "<" && zeroLin(x.lin(l.t.a[1]).addk(x.lin(x.lenOf(segs)), -1)) {
						end = true
					}
				}
				if !end && why == "" {
					why = "it may end before the last segment"
				}
			}
			c.R.Check(why == "", "every-segment-is-shown", name, pos, why)
		}
	}
	for _, e := range a.edges[""] {
		if e.to != "ret" || r.searches(a, e.lits) {
			continue
		}
		st := x.fresh()
		for _, l := range e.lits {
			st.assume(l.t, l.pol)
		}
		items, why := r.added(a, "", e)
		if why == "" && (len(items) > 0 || !st.proves(linC(0).addk(x.lin(x.lenOf(segs)), -1))) {
			why = "it may end before the first segment"
		}
		c.R.Check(why == "", "every-segment-is-shown", name, pos, why)
	}
}

// searches: the mode given is true.
func (r *rendering) searches(a *renderer, ls []Lit) bool {
	for _, l := range ls {
		for _, p := range a.param {
			if l.pol && elemType(p) != nil && isBool(elemType(p)) && isFirstOf(r.x, l.t, p) || l.pol && l.t == p && isBool(p.typ) {
				return true
			}
		}
	}
	return false
}

// tags decides that every word is shown with its own tag.
func (r *rendering) tags(a *renderer) {
	c := r.c
	name, pos := short(a.fn), c.Pos(a.fn.Pos())
	for id, es := range a.edges {
		for _, e := range es {
			items, _ := r.added(a, id, e)
			for _, it := range items {
				if it.fn != nil || it.pos == nil {
					continue
				}
				p := it.pos
				ok := it.text.op == "text" && p.op == "load" && isFieldOf(p.a[0], modPath, "Token", "pos") && p.a[0].a[0] == it.text.a[0]
				c.R.Check(ok, "the-tag-is-that-of-the-word", name, pos, "the word is "+clip(it.text.String())+", the tag "+clip(p.String()))
			}
		}
	}
}

func checkRender(c *Ctx) {
	c.R.Rule = "ToString, ToSlice and ToPos, and the functions that show a token, are turned into automata: between the start, the heads of their loops and the return, what each path adds to the output (words, their tags, or what another of these functions adds for some token). Pairs of these automata are run side by side for the same arguments; whenever the conditions of two steps can hold together, both must add the same words with the same tags and go on or end together. Functions called for a token must agree in turn. ToPos must show every segment once, one after the other, with the tag of the word. Slice, String, Pos, and Cut and CutSearch without a flag must return the rendering of the segmentation with the mode they were given."
	c.R.Assume = append(c.R.Assume, "textSliceToString, Token.Text and their relatives join the words of a token (see C28).")
	x := newE3(c.World)
	r := &rendering{c: c, x: x, memo: map[*ssa.Function]*renderer{}, fns: map[string]*ssa.Function{}, done: map[string]bool{}}
	for _, f := range c.libFuncs() {
		r.fns[f.String()] = f
	}
	pos := c.Func(modPath, "ToPos")
	for _, n := range []string{"ToString", "ToSlice"} {
		f := c.Func(modPath, n)
		if f == nil || pos == nil {
			c.R.Fail("anchor", n, "", "not found")
			return
		}
		r.agree(f, pos)
	}
	r.run()
	r.ofSegments(pos)
	for _, a := range r.memo {
		r.tags(a)
	}
	c.R.AtLeast("the-tag-is-that-of-the-word", 1)
	for _, m := range []struct{ m, r string }{{"String", "ToString"}, {"Slice", "ToSlice"}, {"Pos", "ToPos"}} {
		c.shows(m.m, m.r, false)
	}
	c.shows("Cut", "ToSlice", true)
	c.shows("CutSearch", "ToSlice", true)
	c.R.Unit("functions", len(r.memo))
	c.R.Unit("paths", x.Paths)
	c.R.Unit("pairs of steps", r.Pairs)
	c.R.AtLeast("the-renderings-agree", 2)
	c.R.AtLeast("every-segment-is-shown", 1)
	c.R.AtLeast("shows-its-segments", 5)
}

// shows decides that a method returns the rendering of the segmentation, both with the mode given.
func (c *Ctx) shows(m, render string, cut bool) {
	fn := c.Method(modPath, "Segmenter", m)
	if fn == nil {
		c.R.Fail("anchor", m, "", "not found")
		return
	}
	x := newE3(c.World)
	name, pos := short(fn), c.Pos(fn.Pos())
	mode := "(*" + modPath + ".Segmenter).ModeSegment"
	closed := map[string]bool{mode: true, modPath + "." + render: true, "(*" + modPath + ".Segmenter).cutDAG": true, "(*" + modPath + ".Segmenter).cutDAGNoHMM": true, "(*" + modPath + ".Segmenter).cutForSearch": true}
	text := x.paramT(fn, 1)
	opt := x.paramT(fn, 2)
	if x.Run(fn, &Hooks{
		Inline: func(st *St, g *ssa.Function) bool { return !closed[g.String()] },
		Ret: func(st *St, res []*T) {
			none := st.proves(linC(0).addk(x.lin(x.lenOf(opt)), -1))
			if cut && !none {
				if st.proves(x.lin(x.lenOf(opt)).addk(linC(-1), 1)) {
					return // with a flag the words come from elsewhere
				}
			}
			where := "; it is " + clip(res[0].String())
			v := res[0]
			if !v.isCall(modPath+"."+render) || len(v.a) != 2 || !v.a[0].isCall(mode) || len(v.a[0].a) != 3 {
				c.R.Fail("shows-its-segments", name, pos, "the result is not the rendering of the segments"+where)
				return
			}
			s := v.a[0]
			why := ""
			if s.a[0] != x.paramT(fn, 0) || stripSame(s.a[1]) != text {
				why = "the segments are not those of the text"
			}
			for _, l := range []*T{s.a[2], v.a[1]} {
				switch {
				case !cut && (l == opt || !none && l.op == "list" && len(l.a) == 1 && isFirstOf(x, l.a[0], opt)):
				case !cut && none && (l.isNil() || l.op == "list" && (len(l.a) == 0 || len(l.a) == 1 && l.a[0] == x.tt.bool(false))):
				case cut && m == "Cut" && (l.isNil() || l == opt || l.op == "list" && (len(l.a) == 0 || l.a[0] == x.tt.bool(false))):
				case cut && m == "CutSearch" && l.op == "list" && len(l.a) > 0 && l.a[0] == x.tt.bool(true):
				default:
					if why == "" {
						why = "the mode is not the one given: " + clip(l.String())
					}
				}
			}
			c.R.Check(why == "", "shows-its-segments", name, pos, why+where)
		},
	}) {
		c.R.Fail("analysed", name, pos, "too many paths")
	}
}

func isFirstOf(x *E3, v, list *T) bool {
	if v.op != "load" {
		return false
	}
	l, i, ok := at(x, v.a[0])
	return ok && l == list && zeroLin(i)
}

func (x *E3) str(s string) *T {
	return x.tt.konst(constant.MakeString(s), types.Typ[types.String])
}

// fresh is a state in which nothing is known.
func (x *E3) fresh() *St {
	return &St{x: x, litm: map[*T]bool{}, mem: map[*T]*T{}, ver: map[string]string{}, esc: map[*T]bool{}, data: map[string]any{}}
}
