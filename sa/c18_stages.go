package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C18", checkStages) }

// need is something a function relies on: a value that can be reached from its parameters is not nil.
type need struct {
	t    *T
	what string
	pos  string
	via  string
}

func isDictPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ptr := t.(*types.Pointer)
	return ptr && isNamed(t, modPath, "Dictionary")
}

func checkStages(c *Ctx) {
	c.R.Rule = "Every access through the dictionary pointer of a segmenter, and every write to its stop word map, is a place where the pointer or map must not be nil. Each function is evaluated path by path; where the path does not show it, the function needs it from its caller, where the same is asked again, through all calls (a fixed point). No exported function or method may need a field of its receiver or of an argument to be set. The dictionary of a segmenter is replaced only when there is none, and given up only by Empty."
	x := newE3(c.World)
	needs := map[*ssa.Function][]need{}
	var fns []*ssa.Function
	for _, fn := range c.libFuncs() {
		if fn.Parent() != nil {
			continue
		}
		for g := range c.reach(fn) {
			if usesStage(g) {
				fns = append(fns, fn)
				break
			}
		}
	}
	over := map[*ssa.Function]bool{}
	sites := map[ssa.Instruction]bool{}
	has := func(fn *ssa.Function, t *T) bool {
		for _, n := range needs[fn] {
			if n.t == t {
				return true
			}
		}
		return false
	}
	type bad struct{ who, pos, msg string }
	var bads map[bad]bool
	inl := inlinable
	for changed := true; changed; {
		changed = false
		bads = map[bad]bool{}
		for _, fn := range fns {
			fn := fn
			require := func(st *St, in ssa.Instruction, p *T, what, pos, via string) {
				if st.notNil(p) {
					return
				}
				if p.isNil() {
					bads[bad{short(fn), pos, what + " is nil here; the path: " + clip(litStrings(st.lits))}] = true
					return
				}
				if rooted(p) {
					if !has(fn, p) {
						needs[fn] = append(needs[fn], need{p, what, pos, via + "; the path: " + clip(litStrings(st.lits))})
						changed = true
					}
					return
				}
				bads[bad{short(fn), pos, what + " may be nil: " + clip(p.String()) + "; the path: " + clip(litStrings(st.lits))}] = true
			}
			over[fn] = x.Run(fn, &Hooks{
				Inline: func(st *St, f *ssa.Function) bool { return inl(f) },
				Deref: func(st *St, in ssa.Instruction, p *T) {
					if p.typ != nil && isDictPtr(p.typ) {
						sites[in] = true
						require(st, in, p, "the dictionary", c.Pos(in.Pos()), "")
					}
				},
				Event: func(st *St, e *Ev) {
					switch e.kind {
					case "mapset":
						if e.name == "delete" || !isStopMap(e.args[0].typ) {
							return
						}
						sites[e.in] = true
						require(st, e.in, e.args[0], "the stop word map", c.Pos(e.in.Pos()), "")
					case "call":
						ci, ok := e.in.(ssa.CallInstruction)
						if !ok {
							return
						}
						g := ci.Common().StaticCallee()
						if g == nil || !c.InRepo(g) {
							return
						}
						m := map[*T]*T{}
						for i, p := range g.Params {
							if i < len(e.args) {
								m[x.paramT(g, i)] = e.args[i]
							}
							_ = p
						}
						for _, n := range needs[g] {
							if v := x.reload(st, n.t, m); v != nil {
								require(st, e.in, v, n.what, n.pos, " through "+short(g))
							}
						}
					}
				},
			})
		}
	}
	c.R.Unit("paths", x.Paths)
	c.R.Unit("accesses", len(sites))
	c.R.Unit("functions", len(fns))
	for b := range bads {
		c.R.Fail("works-without-a-dictionary", b.who, b.pos, b.msg)
	}
	api := 0
	for _, fn := range fns {
		if over[fn] {
			c.R.Fail("too-many-paths", short(fn), c.Pos(fn.Pos()), "the function has too many paths to decide")
		}
		if !isAPI(fn) {
			continue
		}
		api++
		ok := true
		sort.Slice(needs[fn], func(i, j int) bool { return needs[fn][i].t.String() < needs[fn][j].t.String() })
		for _, n := range needs[fn] {
			if n.t.op == "param" {
				continue // the caller passes nothing to work on
			}
			ok = false
			c.R.Fail("works-without-a-dictionary", short(fn), n.pos, n.what+" is used although it may be nil"+n.via)
		}
		if ok {
			c.R.OK("works-without-a-dictionary", short(fn), c.Pos(fn.Pos()))
		}
	}
	c.R.AtLeast("works-without-a-dictionary", 60)
	c.dictReplaced()
}

func (x *E3) paramT(fn *ssa.Function, i int) *T {
	return x.tt.mk("param", fn.Params[i].Name()+"@"+short(fn)+"#"+fmtInt(i), fn.Params[i].Type())
}

// rooted: the value is found through fields of parameters, as they were when the function was called.
func rooted(t *T) bool {
	switch t.op {
	case "param":
		return true
	case "load":
		return t.s == "" && rooted(t.a[0])
	case "&field", "field":
		return rooted(t.a[0])
	}
	return false
}

// notNil: the path knows that the pointer or map is there.
func (st *St) notNil(p *T) bool {
	if st.x.nonNil(p) || p.op == "mkmap" {
		return true
	}
	v, ok := st.errNil(p)
	return ok && !v
}

// reload evaluates a value found through the parameters of a callee in the caller.
func (x *E3) reload(st *St, t *T, m map[*T]*T) *T {
	if v, ok := m[t]; ok {
		return v
	}
	switch t.op {
	case "load":
		a := x.reload(st, t.a[0], m)
		if a == nil || t.typ == nil {
			return nil
		}
		return x.loadT(st, a, t.typ)
	case "&field":
		p := x.reload(st, t.a[0], m)
		if p == nil {
			return nil
		}
		return x.tt.mk("&field", t.s, t.typ, p)
	case "field":
		p := x.reload(st, t.a[0], m)
		if p == nil || p.typ == nil {
			return nil
		}
		if s := structOf(p.typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == t.s {
					return x.fieldOf(p, i, p.typ)
				}
			}
		}
	}
	return nil
}

// dictReplaced: a dictionary is put in place of none, and given up only by Empty.
func (c *Ctx) dictReplaced() {
	empty := c.Method(modPath, "Segmenter", "Empty")
	x := newE3(c.World)
	for _, fn := range c.libFuncs() {
		if fn.Parent() != nil {
			continue
		}
		stores := false
		for g := range c.expanded(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if fa, ok := s.Addr.(*ssa.FieldAddr); ok && isNamed(fa.X.Type(), modPath, "Segmenter") && structOf(fa.X.Type()).Field(fa.Field).Name() == "Dict" {
							stores = true
						}
					}
				}
			}
		}
		if !stores && fn != empty {
			continue
		}
		name := short(fn)
		gone := true
		x.Run(fn, &Hooks{
			Inline: keepOut(hmmLoadName),
			Event: func(st *St, e *Ev) {
				if e.kind != "store" || !isFieldOf(e.args[0], modPath, "Segmenter", "Dict") || rootOf(e.args[0]).op == "alloc" {
					return
				}
				old := x.loadT(st, e.args[0], derefType(e.args[0].typ))
				v, known := st.errNil(old)
				ok := old.isNil() || known && v
				if (e.args[1].isNil() || rootOf(e.args[1]).op == "alloc") && (fn == empty || c.onlyFrom(fn, empty)) {
					ok = true
				}
				c.R.Check(ok, "a-loaded-dictionary-is-kept", name, c.Pos(e.in.Pos()), "the dictionary of the segmenter is replaced although there may be one; the path: "+clip(litStrings(st.lits)))
			},
			Ret: func(st *St, res []*T) {
				c.newDict(x, st, fn)
				if fn != empty {
					return
				}
				c.settingsKept(x, st, fn)
				a := x.fieldAddr(x.paramT(fn, 0), namedOf(fn.Params[0].Type()), fieldIndex(fn.Params[0].Type(), "Dict"))
				d := x.loadT(st, a, fieldType(fn.Params[0].Type(), "Dict"))
				v, known := st.errNil(d)
				if !(d.isNil() || known && v || rootOf(d).op == "alloc") {
					gone = false
				}
			},
		})
		if fn == empty {
			c.R.Check(gone, "Empty-empties", name, c.Pos(fn.Pos()), "Empty may leave the dictionary in place")
		}
	}
	if empty == nil {
		c.R.Fail("anchor", "Segmenter.Empty", "", "not found")
	}
	if nd := c.Func(modPath, "NewDict"); nd != nil {
		x.Run(nd, &Hooks{Ret: func(st *St, res []*T) {
			c.R.Check(c.hasTrie(x, st, res[0]), "a-dictionary-has-a-trie", short(nd), c.Pos(nd.Pos()), "a dictionary without a trie is returned")
		}})
	} else {
		c.R.Fail("anchor", "NewDict", "", "not found")
	}
	c.R.AtLeast("a-dictionary-has-a-trie", 1)
	c.R.AtLeast("a-new-dictionary-comes-with-the-defaults", 3)
	c.R.AtLeast("Empty-keeps-the-settings", 1)
	c.R.AtLeast("a-loaded-dictionary-is-kept", 3)
	c.R.AtLeast("Empty-empties", 1)
}

const hmmLoadName = modPath + "/hmm.LoadModel"

// hasTrie: the dictionary is made with a trie.
func (c *Ctx) hasTrie(x *E3, st *St, d *T) bool {
	if d.op == "call" && callName(d.s) == modPath+".NewDict" {
		return true
	}
	n := c.Named(modPath, "Dictionary")
	if n == nil {
		return false
	}
	i := fieldIndex(n, "trie")
	if i < 0 {
		return false
	}
	t := x.loadT(st, x.fieldAddr(d, n, i), fieldType(n, "trie"))
	return t.op == "call" && callName(t.s) == cedarPath+".New" || st.notNil(t)
}

// newDict: a dictionary that a function gives to a segmenter can be used, and the segmenter has got its defaults.
func (c *Ctx) newDict(x *E3, st *St, fn *ssa.Function) {
	for _, e := range st.trace {
		if e.kind != "store" || !isFieldOf(e.args[0], modPath, "Segmenter", "Dict") || e.args[1].isNil() {
			continue
		}
		d, seg := e.args[1], e.args[0].a[0]
		now := x.loadT(st, e.args[0], derefType(e.args[0].typ))
		if now != d || rootOf(d).op != "alloc" && !(d.op == "call" && callName(d.s) == modPath+".NewDict") {
			continue
		}
		path := "; the path: " + clip(litStrings(st.lits))
		pos := c.Pos(e.in.Pos())
		c.R.Check(c.hasTrie(x, st, d), "a-dictionary-has-a-trie", short(fn), pos, "the segmenter gets a dictionary without a trie"+path)
		if !isAPI(fn) {
			continue
		}
		n := c.Named(modPath, "Segmenter")
		get := func(f string) *T {
			if fieldIndex(n, f) < 0 {
				return nil
			}
			return x.loadT(st, x.fieldAddr(seg, n, fieldIndex(n, f)), fieldType(n, f))
		}
		const rule = "a-new-dictionary-comes-with-the-defaults"
		if f := get("MinTokenFreq"); f != nil {
			v, isc := f.floatVal()
			z, known := st.truth(x.arith("==", f, x.zero(types.Typ[types.Float64]), nil))
			c.R.Check(isc && v != 0 || known && !z, rule, short(fn)+"|MinTokenFreq", pos, "the least frequency may still be zero"+path)
		}
		if f := get("TextFreq"); f != nil {
			s, isc := f.strVal()
			z, known := st.truth(x.arith("==", x.lenOf(f), x.tt.int(0), nil))
			c.R.Check(isc && s != "" || known && !z, rule, short(fn)+"|TextFreq", pos, "the frequency of words without one may still be empty"+path)
		}
		if f := get("NotLoadHMM"); f != nil {
			loaded := false
			for _, ev := range st.trace {
				if ev.kind == "call" && ev.name == hmmLoadName {
					loaded = true
				}
			}
			b, known := f.boolVal()
			if !known {
				b, known = st.truth(f)
			}
			c.R.Check(loaded || known && b, rule, short(fn)+"|HMM", pos, "the HMM model may not be loaded"+path)
		}
	}
}

// settingsKept: what is not the contents of the dictionary stays as it is.
func (c *Ctx) settingsKept(x *E3, st *St, fn *ssa.Function) {
	p := x.paramT(fn, 0)
	n := namedOf(fn.Params[0].Type())
	s := structOf(fn.Params[0].Type())
	if n == nil || s == nil {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Name() == "Dict" || f.Name() == "Load" || isStopMap(f.Type()) {
			continue
		}
		a := x.fieldAddr(p, n, i)
		c.R.Check(x.loadT(st, a, f.Type()) == x.loadT(x.fresh(), a, f.Type()), "Empty-keeps-the-settings", short(fn)+"|"+f.Name(), c.Pos(fn.Pos()), "the setting "+f.Name()+" is changed")
	}
}

// onlyFrom: fn is unexported and called by by alone.
func (c *Ctx) onlyFrom(fn, by *ssa.Function) bool {
	if isAPI(fn) || by == nil {
		return false
	}
	for _, ci := range c.callers()[fn] {
		if ci.Parent() != by {
			return false
		}
	}
	return true
}

func fieldIndex(t types.Type, f string) int {
	s := structOf(derefType(t))
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == f {
			return i
		}
	}
	return -1
}

func fieldType(t types.Type, f string) types.Type {
	return structOf(derefType(t)).Field(fieldIndex(t, f)).Type()
}

// usesStage: the function goes through a dictionary pointer or writes stop words.
func usesStage(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok && isStopMap(u.Map.Type()) {
				return true
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && isDictPtr((*op).Type()) {
					return true
				}
			}
		}
	}
	return false
}
