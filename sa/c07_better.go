package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C07", checkBetter) }

// record is a struct type that remembers the best path to a position: its value and its last step.
type record struct {
	n          *types.Named
	val, step  int // fields
	token      bool
	valN, stpN string
}

func records(w *World) []*record {
	var out []*record
	for _, p := range sortedKeys(w.Pkgs) {
		if !libPath(p) {
			continue
		}
		sc := w.Pkgs[p].Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || tn.Exported() {
				continue
			}
			s, ok := n.Underlying().(*types.Struct)
			if !ok || s.NumFields() != 2 {
				continue
			}
			r := &record{n: n, val: -1, step: -1}
			for i := 0; i < s.NumFields(); i++ {
				ft := s.Field(i).Type()
				switch {
				case isFloat(ft):
					r.val = i
				case isNamed(ft, modPath, "Token"):
					r.step, r.token = i, true
				default:
					if b, ok := ft.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
						r.step = i
					}
				}
			}
			if r.val >= 0 && r.step >= 0 {
				r.valN, r.stpN = s.Field(r.val).Name(), s.Field(r.step).Name()
				out = append(out, r)
			}
		}
	}
	return out
}

// ordering is one possible relation of the new path to the recorded one.
type ordering struct {
	none  bool // nothing recorded
	value int  // new value against old value
	step  int  // new step against old step
}

// rel is a relation of a path to one record: terms for the recorded value and step and the new ones.
type rel struct {
	isOldVal, isOldStep func(*T) bool
	isNone              func(t *T) (bool, bool) // literal term about presence: (true, polarity that means none)
}

// eval decides a literal under an ordering; known=false: the literal says nothing about it.
func (r *rel) eval(t *T, o ordering, newVal, newStep *T) (v, known bool) {
	if ok, pol := r.isNone(t); ok {
		return o.none == pol, true
	}
	if o.none {
		// comparisons with a record that is not there read zero values
		return false, false
	}
	if len(t.a) != 2 {
		return false, false
	}
	a, b := t.a[0], t.a[1]
	c := 0
	switch {
	case r.isOldVal(b) && (newVal == nil || a == newVal):
		c = o.value
	case r.isOldVal(a) && (newVal == nil || b == newVal):
		c = -o.value
	case r.isOldStep(b) && (newStep == nil || a == newStep):
		c = o.step
	case r.isOldStep(a) && (newStep == nil || b == newStep):
		c = -o.step
	default:
		return false, false
	}
	switch t.op {
	case "<":
		return c < 0, true
	case "<=":
		return c <= 0, true
	case "==":
		return c == 0, true
	}
	return false, false
}

// checkBetter decides that a recorded path is replaced exactly by a better one.
func checkBetter(c *Ctx) {
	c.R.Rule = "Every write to a record of the best path (a distance with its token, or a log probability with its index) is evaluated path by path with the helpers expanded; over all orderings of new and recorded value (none recorded, less, equal, greater, for the index too) the record must be written exactly when nothing is recorded or the new path is strictly better."
	c.R.Assume = append(c.R.Assume, "Values compared are not NaN (C17 keeps such frequencies out; cf. C14 for the distances).")
	recs := records(c.World)
	var ords []ordering
	ords = append(ords, ordering{none: true})
	for _, v := range []int{-1, 0, 1} {
		for _, s := range []int{-1, 1} {
			ords = append(ords, ordering{value: v, step: s})
		}
	}
	x := newE3(c.World)
	for _, fn := range c.roots() {
		touches := false
		for f := range c.expanded(fn) {
			if !touches && writesRecord(f, recs) {
				touches = true
			}
		}
		if !touches {
			continue
		}
		c.R.Unit("functions", 1)
		check := func(st *St, nt int, where string, pos ssa.Instruction) {
			for _, r := range recs {
				c.betterPath(x, st, r, nt, ords)
			}
		}
		ov := x.Run(fn, &Hooks{
			Back: func(st *St, l *LoopI, next []*T) {
				c.R.Unit("paths", 1)
				check(st, l.nt, short(fn), nil)
			},
			Ret: func(st *St, res []*T) {
				c.R.Unit("paths", 1)
				check(st, 0, short(fn), nil)
			},
		})
		if ov {
			c.R.Fail("too-many-paths", short(fn), c.Pos(fn.Pos()), "the function has too many paths to decide")
		}
	}
	for _, r := range recs {
		c.R.AtLeast("replaced-only-by-better|"+r.n.Obj().Pkg().Name()+"."+r.n.Obj().Name(), 1)
	}
	c.R.AtLeast("records", 0)
	c.R.Check(len(recs) >= 3, "records", "types", "", fmt.Sprintf("%d record types found, 3 exist", len(recs)))
}

func writesRecord(f *ssa.Function, recs []*record) bool {
	is := func(t types.Type) bool {
		n := namedOf(t)
		for _, r := range recs {
			if n == r.n {
				return true
			}
		}
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				if is(in.Value.Type()) {
					return true
				}
			case *ssa.Store:
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && is(fa.X.Type()) {
					return true
				}
				if is(in.Val.Type()) {
					return true
				}
			}
		}
	}
	return false
}

func (c *Ctx) betterPath(x *E3, st *St, r *record, nt int, ords []ordering) {
	type write struct {
		cell          *T // address of the record or map cell
		val, step     *T
		ev            *Ev
		lits          []Lit
		hasVal, hasSt bool
	}
	ws := map[*T]*write{}
	var order []*T
	add := func(cell *T, e *Ev) *write {
		w := ws[cell]
		if w == nil {
			w = &write{cell: cell, ev: e, lits: st.lits[:e.nl]}
			ws[cell] = w
			order = append(order, cell)
		}
		return w
	}
	for _, e := range st.trace[nt:] {
		switch e.kind {
		case "mapset":
			if e.name == "delete" || namedOf(x.elemTypeOfMap(e.args[0])) != r.n {
				continue
			}
			w := add(x.mapAddr(e.args[0], e.args[1]), e)
			w.val, w.step = x.fieldOf(e.args[2], r.val, r.n), x.fieldOf(e.args[2], r.step, r.n)
			w.hasVal, w.hasSt = true, true
		case "store":
			a := e.args[0]
			if a.op == "&field" && namedOf(a.a[0].typ) == r.n {
				if isFreshRoot(a.a[0]) && a.a[0].op == "alloc" {
					continue // a record being built
				}
				w := add(a.a[0], e)
				switch a.s {
				case r.valN:
					w.val, w.hasVal = e.args[1], true
				case r.stpN:
					w.step, w.hasSt = e.args[1], true
				}
			} else if namedOf(derefType(a.typ)) == r.n && !e.args[1].isNil() {
				if a.op == "alloc" {
					continue
				}
				w := add(a, e)
				w.val, w.step = x.fieldOf(e.args[1], r.val, r.n), x.fieldOf(e.args[1], r.step, r.n)
				w.hasVal, w.hasSt = true, true
			}
		}
	}
	relOf := func(cell *T) *rel {
		if cell.op == "&map" {
			m, k := cell.a[0], cell.a[1]
			isLk := func(t *T) bool { return t.op == "lookup" && t.a[0] == m && t.a[1] == k }
			return &rel{
				isOldVal:  func(t *T) bool { return t.op == "field" && t.s == r.valN && isLk(t.a[0]) },
				isOldStep: func(t *T) bool { return t.op == "field" && t.s == r.stpN && isLk(t.a[0]) },
				isNone: func(t *T) (bool, bool) {
					return t.op == "has" && t.a[0] == m && t.a[1] == k, false
				},
			}
		}
		isF := func(t *T, f string) bool {
			return t.op == "load" && t.a[0].op == "&field" && t.a[0].s == f && t.a[0].a[0] == cell
		}
		return &rel{
			isOldVal:  func(t *T) bool { return isF(t, r.valN) },
			isOldStep: func(t *T) bool { return isF(t, r.stpN) },
			isNone: func(t *T) (bool, bool) {
				return r.token && t.op == "==" && t.a[1].isNil() && isF(t.a[0], r.stpN), true
			},
		}
	}
	better := func(o ordering) bool {
		if o.none {
			return true
		}
		if r.token {
			return o.value < 0
		}
		return o.value > 0 || o.value == 0 && o.step > 0
	}
	name := r.n.Obj().Pkg().Name() + "." + r.n.Obj().Name()
	rule := "replaced-only-by-better|" + name
	show := func(o ordering) string {
		if o.none {
			return "nothing is recorded"
		}
		w := map[int]string{-1: "less than", 0: "equal to", 1: "greater than"}
		s := fmt.Sprintf("the new value is %s the recorded one", w[o.value])
		if !r.token {
			s += fmt.Sprintf(" and the new index is %s the recorded one", w[o.step])
		}
		return s
	}
	for _, cell := range order {
		// what is there is written back: nothing is replaced
		w, rl := ws[cell], relOf(cell)
		if w.hasVal && w.hasSt && rl.isOldVal(w.val) && rl.isOldStep(w.step) {
			delete(ws, cell)
		}
	}
	for _, cell := range order {
		w := ws[cell]
		if w == nil {
			continue
		}
		construct := short(w.ev.fn)
		pos := c.Pos(w.ev.in.Pos())
		if !w.hasVal || !w.hasSt {
			c.R.Fail("record-written-whole|"+name, construct, pos, "only one of "+r.valN+" and "+r.stpN+" is written")
			continue
		}
		if c.isInitial(x, cell, w.val) {
			continue
		}
		rl := relOf(cell)
		ok := true
		for _, o := range ords {
			if better(o) {
				continue
			}
			feasible := true
			for _, l := range w.lits {
				if v, known := rl.eval(l.t, o, w.val, w.step); known && v != l.pol {
					feasible = false
				}
			}
			if feasible {
				ok = false
				c.R.Fail(rule, construct, pos, fmt.Sprintf("the record is replaced although %s; the path: %s", show(o), litStrings(w.lits)))
				break
			}
		}
		if ok {
			c.R.OK(rule, construct, pos)
		}
	}
	// paths that looked at a record and left it alone
	seen := map[*T]bool{}
	for _, l := range st.lits {
		l.t.has(func(t *T) bool {
			var cell *T
			switch t.op {
			case "has":
				if namedOf(x.elemTypeOfMap(t.a[0])) == r.n {
					cell = x.mapAddr(t.a[0], t.a[1])
				}
			case "load":
				if t.a[0].op == "&field" && namedOf(t.a[0].a[0].typ) == r.n && (t.a[0].s == r.valN || t.a[0].s == r.stpN) {
					cell = t.a[0].a[0]
				}
			}
			if cell == nil || seen[cell] || ws[cell] != nil {
				return false
			}
			seen[cell] = true
			rl := relOf(cell)
			// the new value is what the recorded one is compared with
			var nv, ns *T
			compared := false
			for _, m := range st.lits {
				if len(m.t.a) == 2 && (m.t.op == "<" || m.t.op == "<=" || m.t.op == "==") {
					a, b := m.t.a[0], m.t.a[1]
					switch {
					case rl.isOldVal(a):
						nv, compared = b, true
					case rl.isOldVal(b):
						nv, compared = a, true
					case rl.isOldStep(a) && !b.isNil():
						ns = b
					case rl.isOldStep(b) && !a.isNil():
						ns = a
					}
				}
			}
			if !compared {
				return false
			}
			ok := true
			for _, o := range ords {
				if !better(o) {
					continue
				}
				feasible := true
				for _, m := range st.lits {
					if v, known := rl.eval(m.t, o, nv, ns); known && v != m.pol {
						feasible = false
					}
				}
				if feasible {
					ok = false
					c.R.Fail("better-always-taken|"+name, short(st.fr.fn), c.Pos(st.fr.fn.Pos()),
						fmt.Sprintf("the record is kept although %s; the path: %s", show(o), litStrings(st.lits)))
					break
				}
			}
			if ok {
				c.R.OK("better-always-taken|"+name, short(st.fr.fn), c.Pos(st.fr.fn.Pos()))
			}
			return false
		})
	}
}

// isInitial: the entry behind the last position that starts the recursion.
func (c *Ctx) isInitial(x *E3, cell, val *T) bool {
	if cell.op != "&map" && cell.op != "&index" {
		return false
	}
	f, ok := val.floatVal()
	return ok && f == 0 && (cell.a[1].op == "len" || cell.a[1].op == "const")
}

func (x *E3) elemTypeOfMap(m *T) types.Type {
	if m.typ == nil {
		return nil
	}
	if mt, ok := m.typ.Underlying().(*types.Map); ok {
		return mt.Elem()
	}
	return nil
}
