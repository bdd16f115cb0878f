package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C12", checkOrder) }

func checkOrder(c *Ctx) {
	c.R.Rule = "Every loop over a map is evaluated path by path, and what one iteration does must not depend on the order of the iterations: writes to maps go to the iteration's own key or store the same value each time, numbers are summed exactly (whole numbers), the greatest or least element is chosen by a comparison that ties only equal elements, flags are only ever set. A list filled in such a loop is unordered: it may be sorted by an order that ties only equal elements, counted, or ranged over by a loop for which the same rule holds, and nothing else; lists kept in package variables or handed to and returned from unexported functions are followed there. No function uses goroutines, select, the clock, random numbers or sync.Map iteration."
	c.R.Assume = append(c.R.Assume, "Counts stay below 2^53, so sums of whole numbers kept as floats are exact.", "sort.Sort and sort.Slice are deterministic functions of the list they get.", "What the standard library returns depends on its arguments only, apart from the sources named.")
	w := &orders{c: c, globals: map[string]bool{}, ret: map[*ssa.Function]bool{}, params: map[*ssa.Function]map[int]bool{}, done: map[*ssa.Function]bool{}, atCalls: map[*ssa.Function]bool{}, forced: map[*ssa.Function]bool{}}
	loops := 0
	for round := 0; round < 6; round++ {
		w.changed = false
		w.findings = nil
		w.units = 0
		w.inlined = map[*ssa.Function]map[*ssa.Function]bool{}
		loops = 0
		for _, fn := range c.orderFuncs() {
			n := w.relevant(fn)
			if n == 0 && !w.forced[fn] {
				continue
			}
			loops += n
			w.from = len(w.findings)
			w.function(fn)
		}
		if !w.changed {
			break
		}
	}
	for _, fn := range c.orderFuncs() {
		w.firsts(fn)
	}
	for fn := range w.atCalls {
		for _, g := range w.callers(fn) {
			if !w.inlined[fn][g] && !w.atCalls[g] {
				w.find(false, "analysed", fn, c.Pos(fn.Pos()), "it could not be followed from "+short(g))
			}
		}
	}
	seen := map[string]bool{}
	for _, f := range w.findings {
		k := f.pos + f.why
		if seen[k] {
			continue
		}
		seen[k] = true
		c.R.Check(f.ok, f.rule, f.fn, f.pos, f.why)
	}
	c.otherSources()
	c.R.Unit("functions", w.units)
	c.R.AtLeast("no-order-in-the-result", 5)
}

// orderFuncs: all functions, those that run at initialisation included.
func (c *Ctx) orderFuncs() []*ssa.Function {
	fs := append([]*ssa.Function(nil), c.libFuncs()...)
	have := map[*ssa.Function]bool{}
	for _, f := range fs {
		have[f] = true
	}
	for _, f := range initFuncs(c.World) {
		if !have[f] && c.InRepo(f) && f.Blocks != nil && len(f.Blocks) < 500 {
			fs = append(fs, f)
		}
	}
	return fs
}

// otherSources: things that make a result depend on more than the input.
func (c *Ctx) otherSources() {
	n := 0
	for _, fn := range c.libFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				why := ""
				switch in := in.(type) {
				case *ssa.Go:
					why = "starts a goroutine"
				case *ssa.Select:
					if len(in.States) > 1 || !in.Blocking {
						why = "selects"
					}
				case ssa.CallInstruction:
					n++
					f := in.Common().StaticCallee()
					if f == nil || f.Pkg == nil {
						if f != nil && strings.Contains(f.RelString(nil), "maps.Keys") {
							why = "uses the order of a map"
						}
						break
					}
					switch p := f.Pkg.Pkg.Path(); {
					case p == "math/rand" || p == "math/rand/v2" || p == "crypto/rand" || p == "hash/maphash":
						why = "uses random numbers"
					case p == "time" && (f.Name() == "Now" || f.Name() == "Since" || f.Name() == "After" || f.Name() == "Until"):
						if c.timeMatters(in) {
							why = "uses the clock"
						}
					case p == "sync" && f.Name() == "Range":
						why = "ranges over a sync.Map"
					case p == "reflect" && (f.Name() == "MapKeys" || f.Name() == "MapRange"):
						why = "uses the order of a map"
					}
				}
				if why != "" {
					c.R.Fail("no-other-source", short(fn), c.Pos(in.Pos()), why)
				}
			}
		}
	}
	c.R.Check(true, "no-other-source", "", "", "")
	c.R.Unit("call-sites", n)
}

// timeMatters: the time is used for more than being printed or logged.
func (c *Ctx) timeMatters(in ssa.CallInstruction) bool {
	v, ok := in.(ssa.Value)
	if !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	var uses func(v ssa.Value) bool
	uses = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case ssa.CallInstruction:
				f := r.Common().StaticCallee()
				if f == nil || f.Pkg == nil {
					return true
				}
				p := f.Pkg.Pkg.Path()
				if p == "log" || p == "fmt" && strings.HasPrefix(f.Name(), "Print") {
					continue
				}
				if p == "time" {
					if x, ok := r.(ssa.Value); ok && uses(x) {
						return true
					}
					continue
				}
				return true
			case ssa.Value:
				if uses(r) {
					return true
				}
			case *ssa.Store:
				// the array of a variadic call
				if ia, ok := r.Addr.(*ssa.IndexAddr); ok {
					if a, ok := ia.X.(*ssa.Alloc); ok {
						if uses(a) {
							return true
						}
						continue
					}
				}
				return true
			default:
				return true
			}
		}
		return false
	}
	return uses(v)
}

type orderFinding struct {
	ok            bool
	rule, fn, pos string
	why           string
}

// orders follows unordered lists through the library.
type orders struct {
	c        *Ctx
	globals  map[string]bool // package variables that hold unordered lists
	ret      map[*ssa.Function]bool
	params   map[*ssa.Function]map[int]bool
	done     map[*ssa.Function]bool
	findings []orderFinding
	changed  bool
	units    int
	from     int
	atCalls  map[*ssa.Function]bool // functions that are decided where they are called
	forced   map[*ssa.Function]bool
	inlined  map[*ssa.Function]map[*ssa.Function]bool // in which functions they were followed
}

// relevant counts the things in a function that have no order.
func (w *orders) relevant(fn *ssa.Function) int {
	n := len(w.params[fn])
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Range:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					n++
				}
			case *ssa.UnOp:
				if g, ok := in.X.(*ssa.Global); ok && w.globals[g.RelString(nil)] {
					n++
				}
			case ssa.CallInstruction:
				if f := in.Common().StaticCallee(); f != nil && w.ret[f] {
					n++
				}
			}
		}
	}
	return n
}

// uloop is a loop whose iterations have no order.
type uloop struct {
	id     string
	pos    string
	site   string      // of the step over the map
	m      *T          // the map
	bases  map[*T]bool // the list, as it is called on the paths
	sym    int
	off    int64
	minted map[string]bool
	first  int // terms from here on are made in the loop
	writes []*T
	keys   map[*T]string // what is wrong with a written map
	backs  []*uback
	why    map[string]string // problems by position
	leaves map[*T]types.Type // memory that lasts from one iteration to the next
	heads  map[*T]*T         // what it holds at the head
	l      *LoopI
	lazy   map[*T]bool    // places that get a new map when they have none
	early  bool           // it may end before all elements were seen
	plain  map[*T]bool    // places written otherwise
	twice  map[string]int // what is done when there was none yet (1), and when there was (2)
}

type uback struct {
	l     *LoopI
	entry string // how the loop was come to
	lits  []Lit
	next  []*T
	mem   map[*T]*T
}

// inner keeps what the variables of a loop depend on.
type innerLoop struct {
	terms map[*T]bool
	outer map[string]bool
}

type ofun struct {
	w    *orders
	c    *Ctx
	x    *E3
	fn   *ssa.Function
	u    map[string]*uloop
	deps map[*T]*innerLoop // variables of any loop
	bags map[*T]bool
	// allocated lists filled in any order
	roots  map[*T]bool
	stored map[*T][]*T // addresses a new map or list is stored at
	passed map[*T]bool // handed to something unknown
	poison map[*T]string
	unless map[*T]string // what depends on the order if the loop ended early
	uses   map[string]bool
	final  bool
	grown  bool
	memo   map[*T]int
	busy   map[*T]bool
	snap   map[string]int
	setsBy map[*T][]mapWrite
}

type mapWrite struct {
	k, v  *T
	after map[string]bool // loops entered before
	in    map[string]bool // loops being run
}

const (
	invariant = iota
	elemental
	carried
)

func (w *orders) find(ok bool, rule string, fn *ssa.Function, pos, why string) {
	w.findings = append(w.findings, orderFinding{ok, rule, short(fn), pos, why})
}

func (w *orders) function(fn *ssa.Function) {
	if w.atCalls[fn] {
		return
	}
	w.units++
	x := newE3(w.c.World)
	o := &ofun{w: w, c: w.c, x: x, fn: fn, u: map[string]*uloop{}, bags: map[*T]bool{}, roots: map[*T]bool{}, poison: map[*T]string{}, unless: map[*T]string{},
		deps: map[*T]*innerLoop{}, stored: map[*T][]*T{}, passed: map[*T]bool{}, snap: map[string]int{}}
	for i := range w.params[fn] {
		o.bags[x.paramT(fn, i)] = true
	}
	for round := 0; round < 8; round++ {
		o.grown = false
		o.final = false
		o.pass()
		o.settle()
		if !o.grown {
			break
		}
	}
	o.final = true
	if o.pass() {
		w.find(false, "analysed", fn, w.c.Pos(fn.Pos()), "too many paths")
		return
	}
	o.settle()
	defer func() {
		for i := w.from; i < len(w.findings); i++ {
			if !w.findings[i].ok {
				w.retry(fn)
				break
			}
		}
	}()
	for _, id := range sortedKeys(o.u) {
		u := o.u[id]
		for _, k := range sortedKeys(u.twice) {
			if u.twice[k] != 3 {
				u.bad(u.pos, "only the first iteration, or only later ones, do this: "+clip(k))
			}
		}
		if len(u.why) == 0 {
			w.find(true, "no-order-in-the-result", fn, u.pos, "")
		}
		for _, p := range sortedKeys(u.why) {
			w.find(false, "no-order-in-the-result", fn, p, u.why[p])
		}
	}
}

// callers of a function, nil if it is used in another way.
func (w *orders) callers(fn *ssa.Function) []*ssa.Function {
	m := map[*ssa.Function]bool{}
	for _, g := range w.c.orderFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for i, op := range in.Operands(nil) {
					if *op != ssa.Value(fn) {
						continue
					}
					if cl, ok := in.(*ssa.Call); !ok || i != 0 || cl.Call.Value != ssa.Value(fn) {
						return nil
					}
					m[g] = true
				}
			}
		}
	}
	var r []*ssa.Function
	for _, g := range w.c.orderFuncs() {
		if m[g] {
			r = append(r, g)
		}
	}
	return r
}

// firsts: loops over a map that never turn.
func (w *orders) firsts(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			n, ok := in.(*ssa.Next)
			if !ok || n.IsString {
				continue
			}
			turns := false
			for _, p := range b.Preds {
				turns = turns || b.Dominates(p)
			}
			if turns {
				continue
			}
			for _, r := range *n.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index > 0 && len(*e.Referrers()) > 0 {
					w.find(false, "no-order-in-the-result", fn, w.c.Pos(n.Iter.Pos()), "whichever element comes first is taken")
				}
			}
		}
	}
}

// retry: an unexported function is decided where it is called, what it is given may make the difference.
func (w *orders) retry(fn *ssa.Function) {
	if isAPI(fn) || fn.Parent() != nil || fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init") {
		return
	}
	cs := w.callers(fn)
	if len(cs) == 0 {
		return
	}
	w.atCalls[fn] = true
	w.changed = true
	for _, g := range cs {
		w.forced[g] = true
	}
}

func (u *uloop) bad(pos, why string) {
	if _, ok := u.why[pos]; !ok {
		u.why[pos] = why
	}
}

// active: the loops being run, innermost first.
func active(st *St) []*LoopI {
	var o []*LoopI
	for f := st.fr; f != nil; f = f.up {
		for i := len(f.loops) - 1; i >= 0; i-- {
			o = append(o, f.loops[i])
		}
	}
	return o
}

func (o *ofun) activeU(st *St) []*uloop {
	var r []*uloop
	for _, l := range active(st) {
		if u := o.u[l.id]; u != nil {
			r = append(r, u)
		}
	}
	return r
}

func (o *ofun) pass() bool {
	x, c := o.x, o.c
	for _, u := range o.u {
		u.backs, u.writes, u.why, u.keys, u.twice = nil, nil, map[string]string{}, map[*T]string{}, map[string]int{}
	}
	o.setsBy = map[*T][]mapWrite{}
	h := &Hooks{}
	all := expandAll()
	h.Inline = func(st *St, f *ssa.Function) bool {
		if o.w.ret[f] {
			return false
		}
		if !all(st, f) {
			return false
		}
		if o.w.inlined[f] == nil {
			o.w.inlined[f] = map[*ssa.Function]bool{}
		}
		o.w.inlined[f][o.fn] = true
		for fr := st.fr; fr != nil; fr = fr.up {
			o.w.inlined[f][fr.fn] = true
		}
		return true
	}
	h.Loop = func(st *St, l *LoopI) {
		if _, ok := o.snap[l.id]; !ok {
			o.snap[l.id] = len(x.tt.m)
		}
		for i, y := range l.syms {
			d := o.deps[y]
			if d == nil {
				d = &innerLoop{terms: map[*T]bool{}, outer: map[string]bool{}}
				o.deps[y] = d
			}
			if i < len(l.init) {
				d.terms[l.init[i]] = true
				if o.bag(st, l.init[i]) && !o.bags[y] {
					o.bags[y] = true
					o.grown = true
				}
			}
			d.outer[l.id] = true
			for _, up := range active(st) {
				d.outer[up.id] = true
			}
		}
		for _, in := range l.hdr.Instrs {
			n, ok := in.(*ssa.Next)
			if !ok || n.IsString {
				continue
			}
			if r, ok := n.Iter.(*ssa.Range); ok {
				if _, ok := r.X.Type().Underlying().(*types.Map); ok && o.u[l.id] == nil {
					o.u[l.id] = &uloop{id: l.id, pos: c.Pos(loopPos(l)), l: l, first: o.snap[l.id], site: x.site(st, in), m: x.val(st, r.X), lazy: map[*T]bool{}, plain: map[*T]bool{}, twice: map[string]int{}, leaves: map[*T]types.Type{}, why: map[string]string{}, keys: map[*T]string{}, minted: map[string]bool{}}
				}
			}
		}
		for _, up := range o.activeU(st) {
			up.minted["loop:"+l.id] = true
		}
		if u := o.u[l.id]; u != nil {
			u.l = l
			u.first = o.snap[l.id]
			u.minted["loop:"+l.id] = true
			u.heads = map[*T]*T{}
			for a, t := range u.leaves {
				u.heads[a] = x.loadT(st, a, t)
			}
			st.data["heads:"+l.id] = u.heads
		}
	}
	h.Back = func(st *St, l *LoopI, next []*T) {
		lits := append([]Lit(nil), st.lits[l.nl:]...)
		for i, y := range l.syms {
			if i >= len(next) {
				continue
			}
			d := o.deps[y]
			d.terms[next[i]] = true
			for _, lt := range lits {
				d.terms[lt.t] = true
			}
			if o.u[l.id] == nil && next[i] != y && o.bag(st, next[i]) && !o.bags[y] && !o.bags[listRoot(st, next[i])] {
				o.bags[y] = true
				o.grown = true
			}
			if o.u[l.id] == nil && next[i] != y && !o.bags[y] && o.bagParts(st, next[i], y) {
				o.bags[y] = true
				o.grown = true
			}
		}
		if u := o.u[l.id]; u != nil {
			b := &uback{l: l, entry: litStrings(st.lits[:l.nl]), lits: lits, next: next, mem: map[*T]*T{}}
			for a, t := range u.leaves {
				b.mem[a] = x.loadT(st, a, t)
			}
			u.backs = append(u.backs, b)
		}
	}
	h.Event = func(st *St, e *Ev) { o.event(st, e) }
	h.Index = func(st *St, in ssa.Instruction, base, idx *T) {
		isBag := o.bag(st, base)
		for _, u := range o.activeU(st) {
			if isBag && rootOf(base).op == "mkslice" && u.m != nil && u.l != nil && o.counter(u, idx) {
				return // the place to be filled next
			}
		}
		v := x.lin(idx)
		for _, l := range active(st) {
			for i, y := range l.syms {
				if v.k[y] == 1 && len(v.k) == 1 {
					u := o.u[l.id]
					if u != nil && len(u.bases) > 0 && u.sym == i && u.off == v.c && !u.bases[base] {
						u.bases[base] = true
						o.grown = true
					}
					if !isBag {
						return
					}
					if u == nil {
						o.u[l.id] = &uloop{id: l.id, pos: c.Pos(loopPos(l)), l: l, first: o.snap[l.id], bases: map[*T]bool{base: true}, sym: i, off: v.c, lazy: map[*T]bool{}, plain: map[*T]bool{}, twice: map[string]int{}, leaves: map[*T]types.Type{}, why: map[string]string{}, keys: map[*T]string{}, minted: map[string]bool{}}
						o.grown = true
					} else if u.m != nil {
						o.use(st, in, "an element of an unordered list is taken by its position")
					}
					// the whole list must be passed
					if ok := inBounds(x, st, l, y, v.c, base); !ok {
						o.use(st, in, "the elements of an unordered list up to some position are taken")
					}
					return
				}
			}
		}
		if isBag {
			o.use(st, in, "an element of an unordered list is taken by its position")
		}
	}
	h.Slice = func(st *St, in *ssa.Slice, base, lo, hi *T) {
		if o.bag(st, base) && !((lo == nil || isZero(lo)) && (hi == nil || isZero(hi) || hi == x.lenOf(base))) {
			o.use(st, in, "a part of an unordered list is taken")
		}
	}
	h.Copy = func(st *St, in ssa.Instruction, dst, src *T) *T {
		if o.bag(st, src) {
			r := rootOf(dst)
			if r.op != "mkslice" {
				o.use(st, in, "an unordered list is copied")
			} else if !o.roots[r] {
				o.roots[r] = true
				o.grown = true
			}
		}
		return nil
	}
	h.Ret = func(st *St, res []*T) {
		for _, t := range res {
			o.check(st, t, c.Pos(o.fn.Pos()), "the result")
			if o.bag(st, t) {
				if isAPI(o.fn) || o.fn.Parent() != nil {
					o.fail(st, c.Pos(o.fn.Pos()), "an unordered list is returned")
				} else if !o.w.ret[o.fn] {
					o.w.ret[o.fn] = true
					o.w.changed = true
				}
			}
		}
	}
	over := x.RunWith(o.fn, h, nil)
	return over
}

// inBounds: the path knows that the position is below the length of the list, and nothing else ends the loop earlier.
func inBounds(x *E3, st *St, l *LoopI, y *T, off int64, base *T) bool {
	n := x.lin(x.lenOf(base))
	for _, lt := range st.lits[l.nl:] {
		if lt.t.op != "<" || len(lt.t.a) != 2 || !isInt(lt.t.a[0].typ) {
			continue
		}
		a, b := x.lin(lt.t.a[0]), x.lin(lt.t.a[1])
		d := b.addk(a, -1) // a < b
		if d.k[y] == -1 {
			e := n.addk(d, -1)
			delete(e.k, y)
			e2 := n.addk(d, -1)
			// len - (b - a) = y + off exactly
			e2 = e2.addk(lin{map[*T]int64{y: 1}, off}, -1)
			if len(e2.k) == 0 && e2.c == 0 && lt.pol {
				return true
			}
		}
	}
	return false
}

func (o *ofun) use(st *St, in ssa.Instruction, why string) {
	o.fail(st, o.c.Pos(in.Pos()), why)
}

func (o *ofun) fail(st *St, pos, why string) {
	if o.final {
		o.w.find(false, "no-order-in-the-result", o.fn, pos, why+"; the path: "+clip(litStrings(st.lits)))
	}
}

// bag: the term is a list whose elements are in no order.
func (o *ofun) bag(st *St, t *T) bool {
	if t == nil {
		return false
	}
	for n := 0; n < 60; n++ {
		if o.sorted(st, t) {
			return false
		}
		if o.bags[t] {
			return true
		}
		switch t.op {
		case "append":
			if len(t.a) == 2 && t.a[1].op != "list" && o.bag(st, t.a[1]) {
				return true
			}
			t = t.a[0]
			continue
		case "slice":
			t = t.a[0]
			continue
		case "iface", "conv":
			t = t.a[0]
			continue
		case "mkslice", "alloc":
			return o.roots[t]
		case "load":
			if k := placeOf(t.a[0]); k != "" && o.w.globals[k] {
				return true
			}
		case "call":
			for f := range o.w.ret {
				if callName(t.s) == f.RelString(nil) {
					return true
				}
			}
		}
		return false
	}
	return false
}

// bagParts: an unordered list was added to the list.
func (o *ofun) bagParts(st *St, t, y *T) bool {
	for t.op == "append" {
		if t.a[1].op != "list" && o.bag(st, t.a[1]) && !o.sorted(st, t) {
			return true
		}
		t = t.a[0]
	}
	return false
}

// placeOf names a package variable or a field.
func placeOf(a *T) string {
	switch a.op {
	case "global":
		return a.s
	case "&field":
		if a.a[0].typ == nil {
			return ""
		}
		return "field:" + typeKey(a.a[0].typ) + "." + a.s
	}
	return ""
}

func unwrap(t *T) *T {
	for t.op == "iface" || t.op == "conv" && len(t.a) == 1 {
		t = t.a[0]
	}
	return t
}

// sorted: the list was sorted by an order that leaves no choice.
func (o *ofun) sorted(st *St, t *T) bool {
	for _, e := range st.trace {
		if e.kind != "call" || !strings.HasPrefix(e.name, "sort.") && !strings.HasPrefix(e.name, "slices.") || len(e.args) == 0 {
			continue
		}
		a := unwrap(e.args[0])
		for a.op == "call" && callName(a.s) == "sort.Reverse" {
			a = unwrap(a.a[0])
		}
		if a != t && !(a.op == "slice" && a.a[0] == t && len(a.a) >= 1 && fullSlice(o.x, a)) {
			continue
		}
		if o.totalSort(st, e) == "" {
			return true
		}
	}
	return false
}

func fullSlice(x *E3, s *T) bool {
	for _, b := range s.a[1:] {
		if b != nil && !b.isNil() && !isZero(b) && b != x.lenOf(s.a[0]) {
			return false
		}
	}
	return true
}

// totalSort: why a sort leaves a choice.
func (o *ofun) totalSort(st *St, e *Ev) string {
	switch e.name {
	case "sort.Strings", "sort.Ints", "sort.Float64s":
		return ""
	case "sort.Sort", "sort.Stable":
		cl, ok := e.in.(ssa.CallInstruction)
		if !ok {
			return "unknown"
		}
		v := cl.Common().Args[0]
		for {
			switch y := v.(type) {
			case *ssa.MakeInterface:
				v = y.X
				continue
			case *ssa.ChangeInterface:
				v = y.X
				continue
			case *ssa.Call:
				if f := y.Call.StaticCallee(); f != nil && f.RelString(nil) == "sort.Reverse" {
					v = y.Call.Args[0]
					continue
				}
			}
			break
		}
		n := namedOf(v.Type())
		if n == nil {
			return "the order is not known"
		}
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" {
			return ""
		}
		less := o.c.Method(n.Obj().Pkg().Path(), n.Obj().Name(), "Less")
		if less == nil {
			return "the order is not known"
		}
		return o.w.total(less, nil)
	case "sort.Slice", "sort.SliceStable":
		if len(e.args) > 1 {
			t := e.args[1]
			if f := o.x.fns[t]; f != nil {
				return o.w.total(f, t)
			}
			for f := range ssaClosures(o.fn) {
				if t.op == "closure" && t.s == f.RelString(nil) {
					return o.w.total(f, t)
				}
			}
		}
	}
	return "the order is not known"
}

func ssaClosures(fn *ssa.Function) map[*ssa.Function]bool {
	o := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		for _, g := range f.AnonFuncs {
			o[g] = true
			add(g)
		}
	}
	for f := fn; f != nil; f = f.Parent() {
		add(f)
	}
	return o
}

// key is one thing an order compares.
type orderKey struct {
	what string
	dir  int
}

// total: why less ties elements that differ; the elements are those at the two positions.
func (w *orders) total(less *ssa.Function, cl *T) string {
	keys, elem, why := w.c.orderOf(less)
	if why != "" {
		return why
	}
	// all fields must be compared
	if elem == nil {
		return "the order is not known"
	}
	have := map[string]bool{}
	for _, k := range keys {
		have[k.what] = true
	}
	if have[""] {
		return ""
	}
	s, ok := elem.Underlying().(*types.Struct)
	if !ok {
		return "the order does not compare the elements themselves"
	}
	for i := 0; i < s.NumFields(); i++ {
		if !have["."+s.Field(i).Name()] {
			return "elements that differ in " + s.Field(i).Name() + " only are tied"
		}
	}
	return ""
}

// signs evaluates a condition when it is known how pairs of terms compare.
func signs(t *T, sign func(a, b *T) (int, bool)) (v, ok bool) {
	switch t.op {
	case "const":
		return t.boolVal()
	case "not", "!":
		v, ok = signs(t.a[0], sign)
		return !v, ok
	case "<", "<=", "==":
		if len(t.a) != 2 {
			return false, false
		}
		a, b := t.a[0], t.a[1]
		if k, ok := b.intVal(); ok && k == 0 && a.op == "call" && callName(a.s) == "strings.Compare" {
			a, b = a.a[0], a.a[1]
		} else if k, ok := a.intVal(); ok && k == 0 && b.op == "call" && callName(b.s) == "strings.Compare" {
			a, b = b.a[1], b.a[0]
		}
		s, ok := sign(a, b)
		if !ok {
			return false, false
		}
		switch t.op {
		case "<":
			return s < 0, true
		case "<=":
			return s <= 0, true
		}
		return s == 0, true
	}
	return false, false
}

// orderOf: what a less function compares, in order of weight.
func (c *Ctx) orderOf(less *ssa.Function) (keys []orderKey, elem types.Type, why string) {
	x := newE3(c.World)
	type out struct {
		lits []Lit
		res  *T
	}
	var outs []out
	n := len(less.Params)
	if n < 2 {
		return nil, nil, "the order is not known"
	}
	pi, pj := x.paramT(less, n-2), x.paramT(less, n-1)
	over := x.RunWith(less, &Hooks{Ret: func(st *St, res []*T) {
		outs = append(outs, out{append([]Lit(nil), st.lits...), res[0]})
	}}, nil)
	if over || len(outs) == 0 {
		return nil, nil, "the order is not known"
	}
	// what is compared: a path from the element
	side := func(t *T) (what string, i int) {
		for {
			switch t.op {
			case "load":
				t = t.a[0]
				continue
			case "&field", "field":
				what = "." + t.s + what
				t = t.a[0]
				continue
			case "&index":
				if elem == nil && t.a[0].typ != nil {
					if s, ok := t.a[0].typ.Underlying().(*types.Slice); ok {
						elem = s.Elem()
					}
				}
				switch t.a[1] {
				case pi:
					return what, 1
				case pj:
					return what, 2
				}
			}
			return "", 0
		}
	}
	whats := map[string]bool{}
	note := func(t *T) {
		t.has(func(u *T) bool {
			if len(u.a) == 2 && (u.op == "<" || u.op == "<=" || u.op == "==") {
				for _, a := range u.a {
					if w, i := side(a); i > 0 {
						whats[w] = true
					}
				}
			}
			if u.op == "call" {
				for _, a := range u.a {
					if w, i := side(a); i > 0 {
						whats[w] = true
					}
				}
			}
			return false
		})
	}
	for _, p := range outs {
		note(p.res)
		for _, l := range p.lits {
			note(l.t)
		}
	}
	names := sortedKeys(whats)
	if len(names) == 0 || len(names) > 4 {
		return nil, nil, "the order is not known"
	}
	table := map[string]bool{}
	asg := make([]int, len(names))
	ok := true
	var fill func(i int)
	fill = func(i int) {
		if i < len(names) {
			for s := -1; s <= 1; s++ {
				asg[i] = s
				fill(i + 1)
			}
			return
		}
		sign := func(a, b *T) (int, bool) {
			wa, ia := side(a)
			wb, ib := side(b)
			if wa != wb || ia == 0 || ib == 0 || ia == ib {
				return 0, false
			}
			for k, n := range names {
				if n == wa {
					if ia == 1 {
						return asg[k], true
					}
					return -asg[k], true
				}
			}
			return 0, false
		}
		n := 0
		for _, p := range outs {
			match := true
			for _, l := range p.lits {
				v, known := signs(l.t, sign)
				if !known {
					ok = false
					return
				}
				if v != l.pol {
					match = false
				}
			}
			if !match {
				continue
			}
			v, known := signs(p.res, sign)
			if !known {
				ok = false
				return
			}
			table[fmt.Sprint(asg)] = v
			n++
		}
		if n != 1 {
			ok = false
		}
	}
	fill(0)
	if !ok {
		return nil, nil, "the order is not known"
	}
	// a lexicographic order?
	ks := lexOrder(names, func(a []int) bool { return table[fmt.Sprint(a)] })
	if ks == nil {
		return nil, nil, "the comparison is not an order by one thing after the other"
	}
	return ks, elem, ""
}

// lexOrder finds the order in which things are compared: less holds exactly when the first that differs says so.
func lexOrder(names []string, less func(a []int) bool) []orderKey {
	n := len(names)
	perm := make([]int, 0, n)
	used := make([]bool, n)
	var try func() []orderKey
	dirs := func(m int) []orderKey {
		ds := make([]int, m)
		for k := 0; k < 1<<uint(m); k++ {
			for i := range ds {
				ds[i] = 1
				if k>>uint(i)&1 == 1 {
					ds[i] = -1
				}
			}
			ok := true
			asg := make([]int, n)
			var all func(i int)
			all = func(i int) {
				if !ok {
					return
				}
				if i < n {
					for s := -1; s <= 1; s++ {
						asg[i] = s
						all(i + 1)
					}
					return
				}
				want := false
				for q := 0; q < m; q++ {
					if s := asg[perm[q]] * ds[q]; s != 0 {
						want = s < 0
						break
					}
				}
				if less(asg) != want {
					ok = false
				}
			}
			all(0)
			if ok {
				var r []orderKey
				for q := 0; q < m; q++ {
					r = append(r, orderKey{names[perm[q]], ds[q]})
				}
				return r
			}
		}
		return nil
	}
	try = func() []orderKey {
		if len(perm) > 0 {
			if r := dirs(len(perm)); r != nil {
				return r
			}
		}
		if len(perm) == n {
			return nil
		}
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			used[i] = true
			perm = append(perm, i)
			if r := try(); r != nil {
				return r
			}
			perm = perm[:len(perm)-1]
			used[i] = false
		}
		return nil
	}
	return try()
}

// event looks at what happens in unordered loops, and to unordered lists.
func (o *ofun) event(st *St, e *Ev) {
	x, c := o.x, o.c
	us := o.activeU(st)
	pos := ""
	if e.in != nil {
		pos = c.Pos(e.in.Pos())
	}
	effect := false
	switch e.kind {
	case "store", "mapset":
		effect = true
		// where new maps go
		v := e.args[len(e.args)-1]
		if isFreshRoot(v) {
			a := e.args[0]
			if e.kind == "mapset" {
				a = x.mapAddr(e.args[0], e.args[1])
			}
			known := false
			for _, b := range o.stored[v] {
				known = known || a == b
			}
			if !known {
				o.stored[v] = append(o.stored[v], a)
			}
		} else {
			o.reach(v)
		}
	case "call":
		if !strings.HasPrefix(e.name, "builtin:") && !strings.HasPrefix(e.name, "sort.") {
			for _, a := range e.args {
				o.reach(a)
			}
		}
		in, ok := e.in.(ssa.CallInstruction)
		if ok && !strings.HasPrefix(e.name, "builtin:") {
			ms := x.callMods(in.Common().StaticCallee(), e.name, in.Common())
			effect = len(ms.mod) > 0 || !ms.pure
		}
		if e.name == "builtin:copy" {
			effect = true
		}
	case "exit":
		if u := o.u[e.loop.id]; u != nil {
			o.exit(st, u, e.loop)
		}
	}
	if effect {
		for _, u := range us {
			u.minted[x.site(st, e.in)] = true
		}
	}
	// unordered lists
	switch e.kind {
	case "store":
		if o.bag(st, e.args[1]) {
			a := e.args[0]
			r := rootOf(a)
			switch k := placeOf(a); {
			case isFreshRoot(r) && !st.esc[r] && a.op == "alloc":
			case k != "":
				if !o.w.globals[k] {
					o.w.globals[k] = true
					o.w.changed = true
				}
			default:
				o.fail(st, pos, "an unordered list is stored")
			}
		}
	case "mapset":
		if o.bag(st, e.args[2]) {
			o.fail(st, pos, "an unordered list is stored")
		}
	case "call":
		for i, a := range e.args {
			if !o.bag(st, a) {
				continue
			}
			in, ok := e.in.(ssa.CallInstruction)
			switch {
			case e.name == "builtin:copy" || e.name == "sort.Reverse":
			case strings.HasPrefix(e.name, "sort.") && i == 0:
				if why := o.totalSort(st, e); why != "" {
					o.fail(st, pos, "an unordered list is sorted, but "+why)
				}
			case ok && in.Common().StaticCallee() != nil && x.inRepo(in.Common().StaticCallee()):
				f := in.Common().StaticCallee()
				if o.w.params[f] == nil {
					o.w.params[f] = map[int]bool{}
				}
				if !o.w.params[f][i] {
					o.w.params[f][i] = true
					o.w.changed = true
				}
			default:
				o.fail(st, pos, "an unordered list is handed to "+e.name)
			}
		}
	}
	// poison
	switch e.kind {
	case "store", "mapset", "call", "append":
		for _, a := range e.args {
			o.check(st, a, pos, "what is done here")
		}
	}
	if e.kind == "mapset" {
		w := mapWrite{k: e.args[1], v: e.args[2], after: map[string]bool{}, in: map[string]bool{}}
		for _, t := range st.trace {
			if t.loop != nil {
				w.after[t.loop.id] = true
			}
		}
		for _, l := range active(st) {
			w.in[l.id] = true
		}
		o.setsBy[e.args[0]] = append(o.setsBy[e.args[0]], w)
	}
	// effects in unordered loops
	for _, u := range us {
		o.effect(st, u, e, pos, effect)
	}
}

func (o *ofun) effect(st *St, u *uloop, e *Ev, pos string, effect bool) {
	x := o.x
	switch e.kind {
	case "mapset":
		u.writes = append(u.writes, e.args[0])
		if o.made(u, e.args[0]) && o.lazyAt(u, e.args[0]) == nil {
			return
		}
	case "store":
		r := rootOf(e.args[0])
		if isFreshRoot(r) && o.made(u, r) {
			return // a variable of the iteration
		}
	case "call":
		if !effect {
			return
		}
		if strings.HasPrefix(e.name, "sort.") && len(e.args) > 0 && o.cls(u, e.args[0]) == elemental {
			return
		}
		if e.name == "builtin:copy" {
			if r := rootOf(e.args[0]); isFreshRoot(r) && o.made(u, r) {
				return
			}
		}
		in, _ := e.in.(ssa.CallInstruction)
		if in != nil {
			if ms := x.callMods(in.Common().StaticCallee(), e.name, in.Common()); len(ms.mod) == 0 && !strings.HasPrefix(e.name, "builtin:") {
				if strings.HasPrefix(e.name, "(*strings.Builder)") || strings.HasPrefix(e.name, "(*bytes.Buffer)") {
					if r := rootOf(e.args[0]); isFreshRoot(r) && o.made(u, r) {
						return
					}
				} else if !strings.HasPrefix(e.name, "fmt.Fprint") && !strings.HasPrefix(e.name, "fmt.Print") && !strings.HasPrefix(e.name, "(*os.File)") && !strings.HasPrefix(e.name, "(*bufio") && !strings.HasPrefix(e.name, "io.") {
					return // no memory is changed
				}
			}
		}
		if o.final {
			u.bad(pos, "in a loop in no order "+e.name+" is called, whose effect may depend on the order")
		}
		return
	default:
		return
	}
	if e.kind == "store" {
		a, v := e.args[0], e.args[1]
		r := rootOf(a)
		// variables
		if isFreshRoot(r) && !st.esc[r] && !hasSymIndex(a) && r.op == "alloc" {
			if _, ok := u.leaves[a]; !ok && v != nil {
				t := derefType(a.typ)
				if t == nil {
					t = v.typ
				}
				if t != nil {
					o.addLeaves(u, a, t)
				}
			}
			return
		}
	}
	// conditions
	for _, l := range st.lits[nlOf(st, u):] {
		if o.bound(u, l) {
			continue
		}
		if a, none := o.isLazy(l); a != nil && u.lazy[a] && !u.plain[a] {
			// it must be done in either case
			if !(e.kind == "store" && e.args[0] == a) {
				k := 2
				if none {
					k = 1
				}
				u.twice[o.lazyKey(u, e)] |= k
			}
			continue
		}
		if o.cls(u, l.t) == carried && o.final {
			u.bad(pos, "whether this is done depends on the order of the iterations: "+clip(l.String()))
		}
	}
	if e.kind == "mapset" {
		m, k, v := e.args[0], e.args[1], e.args[2]
		kc, vc := o.cls(u, k), o.cls(u, v)
		why := ""
		switch {
		case o.cls(u, m) == carried:
			why = "which map is written depends on the order of the iterations"
		case kc == carried:
			why = "the key depends on the order of the iterations"
		case o.own(u, k) && vc <= elemental:
		case m == u.m && !o.own(u, k) && v.op != "deleted":
			why = "the map is given other keys while it is ranged over"
		case (vc == invariant && v.op != "deleted" || v.op == "deleted" && m != u.m) && o.sameSets(u, m, v):
		case o.counts(u, m, k, v):
		case kc == elemental && vc <= elemental && o.fnOf(u, v, k):
		default:
			why = "the value stored under " + clip(k.String()) + " depends on the order of the iterations: " + clip(v.String())
		}
		if why != "" && o.final {
			u.bad(pos, why)
		}
		return
	}
	a, v := e.args[0], e.args[1]
	r := rootOf(a)
	why := ""
	ld := func(t *T) bool { return t.op == "load" && t.a[0] == a }
	switch {
	case a.op == "&index" && o.own(u, a.a[1]) && o.cls(u, v) <= elemental && o.cls(u, a.a[0]) <= elemental:
	case a.op == "&index" && r.op == "mkslice" && o.counter(u, a.a[1]) && o.cls(u, v) <= elemental:
		if !o.roots[r] {
			o.roots[r] = true
			o.grown = true
		}
	case o.cls(u, a) == invariant && o.cls(u, v) == invariant:
	case isFreshRoot(v) && o.lazy(st, a) && o.cls(u, a) == invariant:
		if !u.lazy[a] {
			u.lazy[a] = true
			o.grown = true
		}
		return
	case v.op == "append" && o.cls(u, a) == invariant && ld(listRoot(st, v)):
		ok := true
		for t := v; t.op == "append"; t = t.a[0] {
			ok = ok && o.cls(u, t.a[1]) <= elemental
		}
		k := placeOf(a)
		if !ok || k == "" {
			why = "the list stored depends on the order of the iterations"
		} else if !o.w.globals[k] {
			o.w.globals[k] = true
			o.w.changed = true
		}
	default:
		why = "what is stored in " + clip(a.String()) + " depends on the order of the iterations"
	}
	if !u.plain[a] {
		u.plain[a] = true
		o.grown = true
	}
	if why != "" && o.final {
		u.bad(pos, why)
	}
}

// lazyAt: the place a new map was put in because there was none.
func (o *ofun) lazyAt(u *uloop, m *T) *T {
	for _, a := range o.stored[m] {
		if u.lazy[a] {
			return a
		}
	}
	return nil
}

// isLazy: a condition on whether there is something at a place.
func (o *ofun) isLazy(l Lit) (at *T, none bool) {
	if l.t.op != "==" || len(l.t.a) != 2 {
		return nil, false
	}
	p, q := l.t.a[0], l.t.a[1]
	if p.isNil() {
		p, q = q, p
	}
	if q.isNil() && p.op == "load" {
		return p.a[0], l.pol
	}
	return nil, false
}

// lazyKey names what is done, whichever map it is done to.
func (o *ofun) lazyKey(u *uloop, e *Ev) string {
	s := e.kind
	for i, a := range e.args {
		if i == 0 {
			if at := o.lazyAt(u, a); at != nil {
				s += " @" + at.String()
				continue
			}
			if a.op == "load" {
				s += " @" + a.a[0].String()
				continue
			}
		}
		s += " " + a.String()
	}
	return s
}

// reach marks the maps and lists that are given away with a value.
func (o *ofun) reach(t *T) {
	if t.typ != nil {
		if _, ok := t.typ.Underlying().(*types.Basic); ok {
			return
		}
	}
	if isFreshRoot(t) {
		o.passed[t] = true
		return
	}
	for _, a := range t.a {
		o.reach(a)
	}
}

func nlOf(st *St, u *uloop) int {
	for _, l := range active(st) {
		if l.id == u.id {
			return l.nl
		}
	}
	return len(st.lits)
}

// lazy: the path knows that nothing is stored there yet.
func (o *ofun) lazy(st *St, a *T) bool {
	for _, l := range st.lits {
		if l.t.op != "==" || len(l.t.a) != 2 || !l.pol {
			continue
		}
		p, q := l.t.a[0], l.t.a[1]
		if q.isNil() {
			p, q = q, p
		}
		if p.isNil() && q.op == "load" && q.a[0] == a {
			return true
		}
	}
	return false
}

func (o *ofun) addLeaves(u *uloop, a *T, t types.Type) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			fa := o.x.tt.mk("&field", s.Field(i).Name(), types.NewPointer(s.Field(i).Type()), a)
			o.addLeaves(u, fa, s.Field(i).Type())
		}
		return
	}
	if _, ok := u.leaves[a]; !ok {
		u.leaves[a] = t
		o.grown = true
	}
}

// made: the term came to be in the loop.
func (o *ofun) made(u *uloop, t *T) bool { return isFreshRoot(t) && t.id > u.first && o.siteIn(u, t) }

// siteIn: the place it was made lies in the body of the loop.
func (o *ofun) siteIn(u *uloop, t *T) bool {
	i := strings.LastIndex(t.s, "@")
	s := t.s[i+1:]
	// fn:block.n, or a longer chain of calls
	pre := u.l.fr.id + ":"
	if !strings.HasPrefix(s, pre) {
		return false
	}
	b := -1
	fmt.Sscanf(s[len(pre):], "%d", &b)
	for bl := range u.l.body {
		if bl.Index == b {
			return true
		}
	}
	return false
}

// own: the key of the iteration itself.
func (o *ofun) own(u *uloop, k *T) bool {
	if u.m != nil {
		if k.op == "itkey" && k.s == u.site {
			return true
		}
		// a struct or array key, taken apart
		if (k.op == "struct" || k.op == "array") && len(k.a) > 0 {
			for _, a := range k.a {
				if !((a.op == "field" || a.op == "elem" || a.op == "index") && len(a.a) > 0 && o.own(u, a.a[0])) {
					return false
				}
			}
			return true
		}
		return false
	}
	return o.element(u, k) && k.op == "load" && k.a[0].op == "&index"
}

// element: an element of the list that is ranged over.
func (o *ofun) element(u *uloop, t *T) bool {
	if len(u.bases) == 0 || t.op != "load" && t.op != "&index" && t.op != "&field" {
		return false
	}
	for t.op == "load" || t.op == "&field" {
		t = t.a[0]
	}
	if t.op != "&index" || !u.bases[t.a[0]] {
		return false
	}
	v := o.x.lin(t.a[1])
	return len(v.k) == 1 && v.k[u.l.syms[u.sym]] == 1 && v.c == u.off
}

// bound: the condition the loop ends by.
func (o *ofun) bound(u *uloop, l Lit) bool {
	if u.m != nil {
		return l.t.op == "itok" && l.t.s == u.site
	}
	return l.pol && l.t.op == "<" && u.within(o.x, l)
}

func (u *uloop) within(x *E3, l Lit) bool {
	for b := range u.bases {
		if inBoundsLit(x, l, u.l.syms[u.sym], u.off, b) {
			return true
		}
	}
	return false
}

func inBoundsLit(x *E3, l Lit, y *T, off int64, base *T) bool {
	if len(l.t.a) != 2 || !isInt(l.t.a[0].typ) {
		return false
	}
	d := x.lin(l.t.a[1]).addk(x.lin(l.t.a[0]), -1)
	e := x.lin(x.lenOf(base)).addk(d, -1).addk(lin{map[*T]int64{y: 1}, off}, -1)
	return len(e.k) == 0 && e.c == 0
}

// sameSets: every write to the map in the loop stores the same.
func (o *ofun) sameSets(u *uloop, m, v *T) bool {
	for _, w := range o.setsBy[m] {
		if w.in[u.id] && w.v != v && !o.own(u, w.k) {
			return false
		}
	}
	return true
}

// counts: the value under the key is counted up by a whole number.
func (o *ofun) counts(u *uloop, m, k, v *T) bool {
	if v.op != "+" || len(v.a) != 2 {
		d := o.x.lin(v)
		if !isInt(v.typ) {
			return false
		}
		n := 0
		for t, f := range d.k {
			if t.op == "lookup" && t.a[0] == m && t.a[1] == k && f == 1 {
				n++
			} else if o.cls(u, t) > elemental {
				return false
			}
		}
		return n == 1
	}
	a, b := v.a[0], v.a[1]
	if b.op == "lookup" {
		a, b = b, a
	}
	return a.op == "lookup" && a.a[0] == m && a.a[1] == k && o.whole(u, b)
}

// fnOf: the value is made from the key and things that do not change.
func (o *ofun) fnOf(u *uloop, v, k *T) bool {
	ok := true
	var walk func(t *T)
	walk = func(t *T) {
		if t == k || !ok {
			return
		}
		if o.cls(u, t) == invariant {
			return
		}
		if t.op == "phi" || len(t.a) == 0 || t.op == "itkey" || t.op == "itval" || o.element(u, t) {
			ok = false
			return
		}
		for _, a := range t.a {
			walk(a)
		}
	}
	walk(v)
	return ok
}

// counter: a variable that counts the writes.
func (o *ofun) counter(u *uloop, t *T) bool {
	v := o.x.lin(t)
	if len(v.k) != 1 || v.c != 0 {
		return false
	}
	for i, y := range u.l.syms {
		if v.k[y] == 1 {
			for _, b := range u.backs {
				d := o.x.lin(b.next[i]).addk(x1(y), -1)
				if len(d.k) != 0 || d.c != 1 {
					return false
				}
			}
			n, ok := u.l.init[i].intVal()
			return ok && n == 0
		}
	}
	return false
}

func x1(t *T) lin { return lin{map[*T]int64{t: 1}, 0} }

// whole: a whole number.
func (o *ofun) whole(u *uloop, t *T) bool {
	if o.cls(u, t) > elemental {
		return false
	}
	return o.integral(t, u, 0)
}

func (o *ofun) integral(t *T, u *uloop, d int) bool {
	if isInt(t.typ) || d > 6 {
		return isInt(t.typ)
	}
	if f, ok := t.floatVal(); ok {
		return f == float64(int64(f))
	}
	if _, ok := t.intVal(); ok {
		return true
	}
	switch t.op {
	case "+", "-", "*":
		return o.integral(t.a[0], u, d+1) && o.integral(t.a[1], u, d+1)
	case "conv":
		return isInt(t.a[0].typ)
	case "itval", "lookup":
		m := t.a[0]
		if t.op == "itval" {
			m = m.a[0]
		}
		if m.op != "mkmap" || o.passed[m] || len(o.stored[m]) > 0 {
			return false
		}
		n := 0
		for _, w := range o.setsBy[m] {
			later := false
			if u != nil && w.after[u.id] && !w.in[u.id] {
				later = true
				// both in one loop: the writes of one turn come before the next
				for id := range w.in {
					if u.l.outer != nil && id == u.l.outer.id {
						later = false
					}
				}
			}
			if later || w.v.op == "deleted" {
				continue
			}
			n++
			if w.v.op == "+" {
				a, b := w.v.a[0], w.v.a[1]
				if b.op == "lookup" {
					a, b = b, a
				}
				if a.op == "lookup" && a.a[0] == m && o.integral(b, u, d+1) {
					continue
				}
			}
			if !o.integral(w.v, u, d+1) {
				return false
			}
		}
		return n > 0
	}
	return false
}

// cls: how a term depends on the iterations of a loop.
func (o *ofun) cls(u *uloop, t *T) int {
	memo := map[*T]int{}
	var f func(t *T) int
	f = func(t *T) int {
		if v, ok := memo[t]; ok {
			return v
		}
		memo[t] = invariant // while it is being found out
		v := o.cls1(u, t, f)
		memo[t] = v
		return v
	}
	return f(t)
}

func (o *ofun) cls1(u *uloop, t *T, f func(*T) int) int {
	args := func() int {
		r := invariant
		for _, a := range t.a {
			if v := f(a); v > r {
				r = v
			}
		}
		return r
	}
	minted := func(s string) bool {
		for k := range u.minted {
			if strings.Contains(s, k) {
				return true
			}
		}
		return false
	}
	for _, y := range u.l.syms {
		if t == y {
			return carried
		}
	}
	switch t.op {
	case "const", "nil", "global", "func", "param":
		return invariant
	case "itkey", "itval", "itok":
		if t.s == u.site {
			return elemental
		}
		r := args()
		if r == invariant && o.siteOf(u, t.s) {
			// another loop inside this one
			return elemental
		}
		return r
	case "phi":
		d := o.deps[t]
		if d == nil || !d.outer[u.id] {
			return invariant
		}
		r := invariant
		for y := range d.terms {
			if v := f(y); v > r {
				r = v
			}
		}
		return r
	case "alloc", "mkmap", "mkslice":
		if o.made(u, t) {
			return elemental
		}
		return args()
	case "load":
		if o.element(u, t) {
			if minted(t.s) {
				return carried
			}
			return elemental
		}
		r := args()
		if u.lazy[t.a[0]] && !u.plain[t.a[0]] {
			return r
		}
		if minted(t.s) {
			if rt := rootOf(t.a[0]); isFreshRoot(rt) && o.made(u, rt) {
				return max2(r, elemental)
			}
			return carried
		}
		return r
	case "lookup", "has":
		r := args()
		if !minted(t.s) || r == carried {
			return r
		}
		for _, w := range u.writes {
			if w != t.a[0] && o.distinct(u, w, t.a[0]) {
				continue
			}
			ok := w == t.a[0] && o.own(u, t.a[1])
			if ok {
				for _, s := range o.setsBy[w] {
					if s.in[u.id] && !o.own(u, s.k) {
						ok = false
					}
				}
			}
			if !ok {
				if rt := rootOf(t.a[0]); isFreshRoot(rt) && o.made(u, rt) {
					r = max2(r, elemental)
					continue
				}
				return carried
			}
			r = max2(r, elemental)
		}
		return r
	case "call", "sym", "bi", "copied":
		r := args()
		if minted(t.s) {
			return carried
		}
		if o.siteOf(u, t.s[strings.LastIndex(t.s, "@")+1:]) && t.op != "call" {
			return max2(r, elemental)
		}
		return r
	}
	return args()
}

func max2(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (o *ofun) siteOf(u *uloop, s string) bool {
	pre := u.l.fr.id + ":"
	if !strings.HasPrefix(s, pre) {
		return false
	}
	b := -1
	fmt.Sscanf(s[len(pre):], "%d", &b)
	for bl := range u.l.body {
		if bl.Index == b {
			return true
		}
	}
	return false
}

// distinct: a map written is not the one that is read.
func (o *ofun) distinct(u *uloop, w, m *T) bool {
	if w.typ != nil && m.typ != nil && !types.Identical(w.typ.Underlying(), m.typ.Underlying()) {
		return true
	}
	if isFreshRoot(w) && isFreshRoot(m) && w != m {
		return true
	}
	// a new map that is reached only through the places it was stored at
	new, old := w, m
	if !isFreshRoot(new) {
		new, old = m, w
	}
	if !isFreshRoot(new) || o.passed[new] {
		return false
	}
	for _, a := range o.stored[new] {
		switch {
		case old.op == "lookup":
			if a.op == "&map" {
				return false
			}
		case old.op == "load":
			b := old.a[0]
			if a.op != b.op {
				continue
			}
			if a.op == "&index" && a.a[0] == b.a[0] {
				d := o.x.lin(a.a[1]).addk(o.x.lin(b.a[1]), -1)
				if len(d.k) == 0 && d.c != 0 {
					continue
				}
			}
			if a.op == "global" && a != b {
				continue
			}
			return false
		case old.op == "param":
		default:
			return false
		}
	}
	return true
}

// exit of an unordered loop.
func (o *ofun) exit(st *St, u *uloop, l *LoopI) {
	if len(st.lits) > l.nl {
		last := st.lits[len(st.lits)-1]
		if u.m != nil {
			if last.t.op == "itok" && last.t.s == u.site && !last.pol {
				return
			}
		} else if !last.pol && u.within(o.x, last) {
			return
		}
	}
	if len(u.bases) > 0 && len(st.lits) == l.nl {
		return
	}
	// it ends before all elements were seen
	st.data["early:"+u.id] = true
	if !u.early {
		u.early = true
		o.grown = true
	}
	if o.final {
		for _, w := range u.writes {
			if !o.made(u, w) {
				u.bad(u.pos, "the loop may end before all elements were seen, and what was done by then depends on the order")
			}
		}
		for _, lt := range st.lits[l.nl:] {
			if !o.bound(u, lt) && o.cls(u, lt.t) == carried {
				u.bad(u.pos, "whether the loop ends early depends on the order: "+clip(lt.String()))
			}
		}
	}
}

// check that a term that is used does not depend on the order of a loop that has ended.
func (o *ofun) check(st *St, t *T, pos, what string) {
	if !o.final || t == nil {
		return
	}
	in := map[string]bool{}
	for _, l := range active(st) {
		in[l.id] = true
	}
	past := map[string]bool{}
	for _, e := range st.trace {
		if e.kind == "exit" && !in[e.loop.id] {
			past[e.loop.id] = true
		}
	}
	t.has(func(y *T) bool {
		for id, u := range o.u {
			if in[id] || !past[id] {
				continue
			}
			if u.m != nil && (y.op == "itkey" || y.op == "itval") && y.s == u.site || len(u.bases) > 0 && o.element(u, y) && u.l != nil {
				o.fail(st, pos, what+" depends on where a loop in no order ended")
				return true
			}
		}
		why := o.poison[y]
		if id := o.unless[y]; why == "" && id != "" && st.data["early:"+id] != nil && past[id] {
			why = "it ended before all elements were seen"
		}
		if why != "" {
			for _, u := range o.u {
				if in[u.id] {
					for _, s := range u.l.syms {
						if s == y {
							return false
						}
					}
					if y.op == "load" {
						if _, ok := u.leaves[y.a[0]]; ok {
							return false
						}
					}
				}
			}
			o.fail(st, pos, what+" depends on the order of a loop: "+why)
			return true
		}
		return false
	})
}

// settle decides, for what a loop keeps from one iteration to the next, whether it depends on their order.
func (o *ofun) settle() {
	old := o.poison
	o.poison = map[*T]string{}
	defer func() {
		for t := range o.poison {
			if old[t] == "" {
				o.grown = true
			}
		}
	}()
	for _, id := range sortedKeys(o.u) {
		all := o.u[id]
		if all.l == nil || len(all.backs) == 0 {
			continue
		}
		groups := map[string][]*uback{}
		for _, b := range all.backs {
			groups[b.entry] = append(groups[b.entry], b)
		}
		for _, k := range sortedKeys(groups) {
			u := *all
			u.backs = groups[k]
			u.l = groups[k][0].l
			o.settle1(&u)
		}
	}
}

func (o *ofun) settle1(u *uloop) {
	var vs []*uvar
	for i, y := range u.l.syms {
		if len(u.bases) > 0 && i == u.sym {
			continue
		}
		v := &uvar{sym: y, init: u.l.init[i]}
		for _, b := range u.backs {
			v.next = append(v.next, b.next[i])
		}
		vs = append(vs, v)
	}
	for _, a := range sortedTerms(u.leaves) {
		h := u.heads[a]
		if h == nil || h.op == "struct" || h.op == "array" {
			continue
		}
		v := &uvar{sym: h}
		for _, b := range u.backs {
			n := b.mem[a]
			if n == nil {
				n = h
			}
			v.next = append(v.next, n)
		}
		vs = append(vs, v)
	}
	var left, picked []*uvar
	for _, v := range vs {
		if v.same() {
			continue
		}
		if u.early {
			o.unless[v.sym] = u.id
		}
		switch {
		case o.extreme(u, v):
		case o.setOnce(u, v):
		case o.summed(u, v):
		case o.listed(u, v):
			if !o.bags[v.sym] {
				o.bags[v.sym] = true
				o.grown = true
			}
		case o.chosen(u, []*uvar{v}):
			picked = append(picked, v)
		default:
			left = append(left, v)
		}
	}
	// several together
	cands := append(append([]*uvar(nil), left...), picked...)
	if len(cands) > 8 {
		cands = cands[:8]
	}
	for m := 1; m < 1<<uint(len(cands)) && len(left) > 0; m++ {
		var vs []*uvar
		for i, v := range cands {
			if m>>uint(i)&1 == 1 {
				vs = append(vs, v)
			}
		}
		if len(vs) < 2 || !o.chosen(u, vs) {
			continue
		}
		var rest []*uvar
		for _, v := range left {
			in := false
			for _, w := range vs {
				in = in || v == w
			}
			if !in {
				rest = append(rest, v)
			}
		}
		left = rest
	}
	for _, v := range left {
		if o.poison[v.sym] == "" {
			o.poison[v.sym] = "the loop at " + u.pos + " leaves " + clip(v.sym.String()) + " to the order of its iterations"
		}
	}
}

func sortedTerms(m map[*T]types.Type) []*T {
	var o []*T
	for t := range m {
		o = append(o, t)
	}
	sort.Slice(o, func(i, j int) bool { return o[i].id < o[j].id })
	return o
}

type uvar struct {
	sym, init *T
	next      []*T
}

func (v *uvar) same() bool {
	for _, n := range v.next {
		if n != v.sym {
			return false
		}
	}
	return true
}

// conds of a path: those that depend on the element only, and the others.
func (o *ofun) conds(u *uloop, b *uback) (elem, other []Lit) {
	for _, l := range b.lits {
		if o.bound(u, l) {
			continue
		}
		if o.cls(u, l.t) == carried {
			other = append(other, l)
		} else {
			elem = append(elem, l)
		}
	}
	return
}

func compatible(a, b []Lit) bool {
	for _, x := range a {
		for _, y := range b {
			if x.t == y.t && x.pol != y.pol {
				return false
			}
		}
	}
	return true
}

// setOnce: the variable is only ever set to one value, for reasons that lie in the element.
func (o *ofun) setOnce(u *uloop, v *uvar) bool {
	var val *T
	for _, n := range v.next {
		if n == v.sym {
			continue
		}
		if val != nil && n != val || o.cls(u, n) != invariant {
			return false
		}
		val = n
	}
	for i := range v.next {
		_, other := o.conds(u, u.backs[i])
		for _, l := range other {
			if l.t == v.sym || l.t.op == "==" && (l.t.a[0] == v.sym || l.t.a[1] == v.sym) {
				continue
			}
			// what else varies may matter only if the outcome is the same
			if !o.indifferent(u, v) {
				return false
			}
		}
	}
	return true
}

// indifferent: paths that differ in conditions on other variables only change the variable alike.
func (o *ofun) indifferent(u *uloop, v *uvar) bool {
	for i := range u.backs {
		for j := 0; j < i; j++ {
			ei, _ := o.conds(u, u.backs[i])
			ej, _ := o.conds(u, u.backs[j])
			if compatible(ei, ej) && v.next[i] != v.next[j] {
				return false
			}
		}
	}
	return true
}

// extreme: the least or greatest of the elements.
func (o *ofun) extreme(u *uloop, v *uvar) bool {
	name := ""
	for i, n := range v.next {
		if n == v.sym {
			continue
		}
		f := callName(n.s)
		if n.op != "call" || f != "math.Min" && f != "math.Max" || name != "" && name != f || len(n.a) != 2 {
			return false
		}
		name = f
		a, b := n.a[0], n.a[1]
		if b == v.sym {
			a, b = b, a
		}
		if a != v.sym || o.cls(u, b) > elemental {
			return false
		}
		if _, other := o.conds(u, u.backs[i]); len(other) > 0 && !o.indifferent(u, v) {
			return false
		}
	}
	return name != ""
}

func (o *ofun) summed(u *uloop, v *uvar) bool {
	if !o.indifferent(u, v) {
		return false
	}
	for _, n := range v.next {
		if n == v.sym {
			continue
		}
		if isInt(v.sym.typ) {
			d := o.x.lin(n).addk(x1(v.sym), -1)
			for t := range d.k {
				if o.cls(u, t) > elemental {
					return false
				}
			}
			continue
		}
		if n.op != "+" || len(n.a) != 2 {
			return false
		}
		a, b := n.a[0], n.a[1]
		if b == v.sym {
			a, b = b, a
		}
		if a != v.sym || !o.whole(u, b) {
			return false
		}
	}
	return true
}

func (o *ofun) listed(u *uloop, v *uvar) bool {
	if v.sym.typ == nil {
		return false
	}
	if _, ok := v.sym.typ.Underlying().(*types.Slice); !ok || !o.indifferent(u, v) {
		return false
	}
	for _, n := range v.next {
		t := n
		for t.op == "append" {
			if o.cls(u, t.a[1]) > elemental {
				return false
			}
			t = t.a[0]
		}
		if t != v.sym {
			return false
		}
	}
	return true
}

// chosen: the variables together hold the first element of an order that ties only equal elements.
func (o *ofun) chosen(u *uloop, vs []*uvar) bool {
	if len(vs) > 3 {
		return false
	}
	// flags that say that something was chosen
	var flags, keep []*uvar
	for _, v := range vs {
		val, ok := (*T)(nil), true
		for _, n := range v.next {
			if n == v.sym {
				continue
			}
			if val != nil && val != n || !n.isConst() {
				ok = false
			}
			val = n
		}
		if ok && v.sym.typ != nil && isBool(v.sym.typ) {
			flags = append(flags, v)
		} else {
			keep = append(keep, v)
		}
	}
	vs = keep
	if len(vs) == 0 || len(vs) > 3 {
		return false
	}
	els := make([][]*T, len(u.backs))
	upd := make([]bool, len(u.backs))
	some := false
	for i := range u.backs {
		el := make([]*T, len(vs))
		n := 0
		for k, v := range vs {
			if v.next[i] == v.sym {
				continue
			}
			n++
			if o.cls(u, v.next[i]) > elemental {
				return false
			}
			el[k] = v.next[i]
		}
		if n != 0 && n != len(vs) {
			return false
		}
		els[i] = el
		upd[i] = n > 0
		some = some || upd[i]
		for _, f := range flags {
			// a flag that is set although it was set already is left as it is
			if f.next[i] != f.sym && !upd[i] {
				return false
			}
		}
	}
	if !some {
		return false
	}
	isFirst := func(l Lit) (first bool, ok bool) {
		for _, f := range flags {
			if l.t == f.sym {
				if b, known := f.init.boolVal(); f.init != nil && known {
					return l.pol == b, true
				}
			}
		}
		if len(u.bases) == 0 {
			return false, false
		}
		y := u.l.syms[u.sym]
		in, ok := u.l.init[u.sym].intVal()
		if !ok || len(l.t.a) != 2 {
			return false, false
		}
		d := o.x.lin(l.t.a[0]).addk(o.x.lin(l.t.a[1]), -1)
		if len(d.k) != 1 || d.k[y] != 1 && d.k[y] != -1 {
			return false, false
		}
		at := d.c + d.k[y]*in
		later := d.c + d.k[y]*(in+1)
		switch l.t.op {
		case "==":
			if at == 0 {
				return l.pol, true
			}
		case "<":
			if d.k[y] < 0 && at == 0 && later < 0 { // in < y
				return !l.pol, true
			}
			if d.k[y] > 0 && at < 0 && later == 0 { // y < in+1
				return l.pol, true
			}
		}
		return false, false
	}
	byIndex := false
	type path struct {
		el    []*T
		elem  []Lit
		first int // 1 first, 0 later, -1 either
		cmp   []Lit
		upd   bool
	}
	var ps []path
	for i, b := range u.backs {
		p := path{first: -1, upd: upd[i], el: els[i]}
		for _, l := range b.lits {
			if o.bound(u, l) {
				continue
			}
			if f, ok := isFirst(l); ok {
				p.first = 0
				if f {
					p.first = 1
				}
				if len(flags) == 0 {
					byIndex = true
				}
				continue
			}
			if o.cls(u, l.t) == carried {
				p.cmp = append(p.cmp, l)
			} else {
				p.elem = append(p.elem, l)
			}
		}
		ps = append(ps, p)
	}
	names := make([]string, len(vs))
	for k := range vs {
		names[k] = fmt.Sprint(k)
	}
	eval := func(p path, el []*T, s []int) bool {
		for _, l := range p.cmp {
			v, known := signs(l.t, func(a, b *T) (int, bool) {
				for k, w := range vs {
					switch {
					case a == el[k] && b == w.sym:
						return s[k], true
					case b == el[k] && a == w.sym:
						return -s[k], true
					}
				}
				return 0, false
			})
			if known && v != l.pol {
				return false
			}
			if !known {
				// about something else: either way
				continue
			}
		}
		return true
	}
	for _, p := range ps {
		if p.first == 1 && !p.upd && byIndex {
			return false
		}
		if byIndex && p.first < 0 {
			return false
		}
		if !p.upd {
			continue
		}
		// among the paths that go with this element
		bad := false
		less := func(s []int) bool {
			n, up := 0, 0
			for _, q := range ps {
				if q.first == 1 || !compatible(p.elem, q.elem) || !eval(q, p.el, s) {
					continue
				}
				for k := range p.el {
					if q.upd && q.el[k] != p.el[k] {
						bad = true
					}
				}
				n++
				if q.upd {
					up++
				}
			}
			all0 := true
			for _, v := range s {
				if v != 0 {
					all0 = false
				}
			}
			if all0 {
				return false // the same element
			}
			if n == 0 || up != 0 && up != n {
				bad = true
			}
			return up > 0
		}
		ks := lexOrder(names, less)
		if bad || len(ks) != len(vs) {
			return false
		}
	}
	return true
}
