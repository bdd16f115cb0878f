package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C32", checkStops) }

// stopFn is a function that works on a set of words of its receiver.
type stopFn struct {
	c    *Ctx
	x    *E3
	f    *flt
	fn   *ssa.Function
	name string
	pos  string
}

// own: the set belongs to what the function was called on, or becomes its own.
func (s *stopFn) own(st *St, m *T) bool {
	p := s.x.paramT(s.fn, 0)
	switch {
	case m.op == "load" && m.a[0].op == "&field":
		r := rootOf(m.a[0])
		return m.a[0].has(func(t *T) bool { return t == p }) || r.op == "alloc"
	case m.op == "mkmap":
		for _, e := range st.trace {
			if e.kind == "store" && e.args[1] == m && (rootOf(e.args[0]) == p || rootOf(e.args[0]).op == "alloc" || e.args[0].has(func(t *T) bool { return t == p })) {
				return true
			}
		}
		for a, v := range st.mem {
			if v == m && a.op == "&field" {
				return true
			}
		}
	}
	return false
}

// direct: the set is the receiver's own, if it has one, and not that of a part of it.
func (s *stopFn) direct(m *T) bool {
	sn := structOf(s.fn.Params[0].Type())
	if sn == nil || m.op != "load" {
		return true
	}
	for i := 0; i < sn.NumFields(); i++ {
		if isStopMap(sn.Field(i).Type()) {
			return m.a[0].op == "&field" && m.a[0].a[0] == s.x.paramT(s.fn, 0)
		}
	}
	return true
}

// none: the path knows that there is no set.
func (st *St) none(m *T) bool {
	if m.isNil() {
		return true
	}
	v, k := st.errNil(m)
	return k && v
}

func checkStops(c *Ctx) {
	c.R.Rule = "The functions that work on a set of stop words are found by what they do to a map from words to flags and are evaluated path by path. An addition stores the word it was given, whatever else is there, and nothing else; of a list every element is stored, of a file every line and of a text every line without white space around it, unless it is empty, up to the end, or an error is returned; a set that is there is not replaced. A removal deletes the word given and nothing else. A question is answered with whether the word is in the set. Emptying leaves no word. A set made from the defaults has all of them."
	c.R.Assume = append(c.R.Assume, "bufio.Scanner and strings.Split are as documented.")
	for _, fn := range c.libFuncs() {
		if !isAPI(fn) || fn.Signature.Recv() == nil && fn.Signature.Results().Len() == 0 {
			continue
		}
		x := newE3(c.World)
		s := &stopFn{c: c, x: x, f: &flt{c: c, x: x, fn: fn, memo: map[string]bool{}}, fn: fn, name: short(fn), pos: c.Pos(fn.Pos())}
		adds, dels, asks, empties := c.stopEffects(fn)
		res := fn.Signature.Results()
		var text, list *T
		for i, p := range fn.Params {
			switch {
			case i == 0 && fn.Signature.Recv() != nil:
			case isString(p.Type()):
				text = x.paramT(fn, i)
			case isStringSlice(p.Type()):
				list = x.paramT(fn, i)
			}
		}
		switch {
		case asks && !adds && !dels && text != nil && res.Len() == 1 && isBool(res.At(0).Type()) && len(fn.Params) == 2:
			s.question(text)
		case dels && !adds && text != nil && len(fn.Params) == 2:
			s.removal(text)
		case adds && !dels && (text != nil || list != nil) && len(fn.Params) == 2 && (recordsStop(c.expanded(fn)) || list != nil && res.Len() == 0):
			s.addition(text, list)
		case adds && fn.Signature.Recv() == nil && len(fn.Params) == 0 && res.Len() == 1:
			s.copies()
		case empties && !adds && !dels && len(fn.Params) == 1:
			s.emptied()
		default:
			continue
		}
		c.R.Unit("functions", 1)
		c.R.Unit("paths", x.Paths)
	}
	c.R.AtLeast("the-word-is-stored", 2)
	c.R.AtLeast("every-word-is-stored", 2)
	c.R.AtLeast("the-word-is-deleted", 2)
	c.R.AtLeast("the-answer-is-membership", 2)
	c.R.AtLeast("no-word-is-left", 1)
}

// stopEffects: what the function does to sets of words, itself or through others.
func (c *Ctx) stopEffects(fn *ssa.Function) (adds, dels, asks, empties bool) {
	for g := range c.reach(fn) {
		if g.Signature.Recv() != nil && fn.Signature.Recv() == nil && g != fn && isAPI(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MapUpdate:
					adds = adds || isStopMap(in.Map.Type())
				case *ssa.Lookup:
					asks = asks || isStopMap(in.X.Type())
				case *ssa.Call:
					if b, ok := in.Call.Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
						if isStopMap(in.Call.Args[0].Type()) {
							if b.Name() == "delete" {
								dels = true
							} else {
								empties = true
							}
						}
					}
				case *ssa.Store:
					if fa, ok := in.Addr.(*ssa.FieldAddr); ok && isStopMap(derefType(fa.Type())) {
						empties = true
					}
				}
			}
		}
	}
	return
}

func (s *stopFn) run(h *Hooks) {
	if h.Inline == nil {
		h.Inline = func(st *St, f *ssa.Function) bool { return inlinable(f) }
	}
	if s.x.Run(s.fn, h) {
		s.c.R.Fail("too-many-paths", s.name, s.pos, "the function has too many paths to decide")
	}
}

func (s *stopFn) path(st *St) string { return "; the path: " + clip(litStrings(st.lits)) }

func (s *stopFn) question(text *T) {
	const rule = "the-answer-is-membership"
	s.run(&Hooks{Ret: func(st *St, res []*T) {
		r := res[0]
		isHas := func(t *T) bool {
			return (t.op == "has" || t.op == "lookup") && len(t.a) == 2 && s.own(st, t.a[0]) && s.direct(t.a[0]) && t.a[1] == text
		}
		if v, ok := r.boolVal(); ok {
			good := false
			for _, l := range st.lits {
				if isHas(l.t) && l.pol == v {
					good = true
				}
				if !v && l.pol && l.t.op == "==" && (l.t.a[1].isNil() && isStopMap(l.t.a[0].typ) && s.own(st, l.t.a[0]) || isIntZero(l.t.a[1]) && l.t.a[0].op == "len" && s.own(st, l.t.a[0].a[0])) {
					good = true
				}
				if !v && l.pol && l.t.op == "==" && l.t.a[1].isNil() && l.t.a[0] == s.x.paramT(s.fn, 0) {
					good = true
				}
			}
			s.c.R.Check(good, rule, s.name, s.pos, "the answer does not say whether the word is in the set"+s.path(st))
			return
		}
		s.c.R.Check(isHas(r), rule, s.name, s.pos, "the answer is not whether the word is in the set: "+clip(r.String())+s.path(st))
	}})
}

func (s *stopFn) removal(text *T) {
	const rule = "the-word-is-deleted"
	s.run(&Hooks{Ret: func(st *St, res []*T) {
		done := false
		for _, e := range st.trace {
			switch {
			case e.kind == "mapset" && isStopMap(e.args[0].typ):
				ok := e.name == "delete" && e.args[1] == text && s.own(st, e.args[0])
				s.c.R.Check(ok, rule, s.name, s.c.Pos(e.in.Pos()), "something else than the word is changed: "+clip(e.args[1].String())+s.path(st))
				done = done || ok
			case e.kind == "store" && isStopMap(e.args[1].typ):
				s.c.R.Fail(rule, s.name, s.c.Pos(e.in.Pos()), "the set is replaced")
			}
		}
		for _, l := range st.lits {
			t := l.t
			if (t.op == "has" || t.op == "lookup") && !l.pol && t.a[1] == text && s.own(st, t.a[0]) {
				done = true
			}
			if t.op == "==" && l.pol && (t.a[1].isNil() && isStopMap(t.a[0].typ) || isIntZero(t.a[1]) && t.a[0].op == "len" && isStopMap(t.a[0].a[0].typ)) {
				done = true
			}
		}
		s.c.R.Check(done, rule, s.name, s.pos, "the word may stay in the set"+s.path(st))
	}})
}

// kept: a set that is there is not replaced.
func (s *stopFn) kept(st *St, e *Ev) {
	if e.kind != "store" || e.args[0].op != "&field" || !isStopMap(e.args[1].typ) && !e.args[1].isNil() {
		return
	}
	if e.args[0].typ != nil && !isStopMap(derefType(e.args[0].typ)) {
		return
	}
	if rootOf(e.args[0]).op == "alloc" {
		return
	}
	old := s.x.loadT(st, e.args[0], derefType(e.args[0].typ))
	if old == e.args[1] {
		return
	}
	s.c.R.Check(st.none(old), "a-set-is-kept", s.name, s.c.Pos(e.in.Pos()), "the set is replaced although there may be words in it"+s.path(st))
}

func yes(t *T) bool {
	v, ok := t.boolVal()
	return ok && v
}

// word is what one round of a loop looks at.
type word struct {
	is   func(t *T) bool
	trim bool // without the white space around it
	skip bool // empty ones need not be stored
	file bool // the name of a file
}

// round: the loop walks the words of a list, the lines of a file or a text, or the keys of a set.
func (s *stopFn) round(st *St, l *LoopI) (w word, ok bool) {
	for _, in := range l.hdr.Instrs {
		if n, isn := in.(*ssa.Next); isn && !n.IsString {
			it := s.x.val(st, n.Iter)
			return word{is: func(t *T) bool { return t.op == "itkey" && t.a[0] == it }}, true
		}
	}
	for _, e := range st.trace[l.nt:] {
		if e.kind == "call" && e.name == "(*bufio.Scanner).Scan" && e.res != nil && st.litm[e.res] {
			sc := e.args[0]
			return word{is: func(t *T) bool { return t.isCall("(*bufio.Scanner).Text") && len(t.a) > 0 && t.a[0] == sc }, skip: true}, true
		}
	}
	if e, ok := s.f.walks(st, l); ok && e.list != nil {
		w := word{is: func(t *T) bool { return s.f.is(e, t, "") }}
		if e.list.isCall("strings.Split") {
			if sep, isc := e.list.a[1].strVal(); isc && sep == "\n" {
				w.skip, w.trim = true, true
			}
		}
		return w, true
	}
	return w, false
}

func (s *stopFn) addition(text, list *T) {
	const rule = "every-word-is-stored"
	x := s.x
	looped := map[string]string{} // loop: why it does not store all
	s.run(&Hooks{
		Event: func(st *St, e *Ev) {
			s.kept(st, e)
			if e.kind == "mapset" && isStopMap(e.args[0].typ) {
				s.c.R.Check(e.name != "delete" && yes(e.args[2]) && s.own(st, e.args[0]), "only-words-are-stored", s.name, s.c.Pos(e.in.Pos()), "a word is deleted, not marked, or stored elsewhere"+s.path(st))
			}
		},
		Back: func(st *St, l *LoopI, next []*T) {
			s.f.steps(st, l, next, nil)
			why := func() string {
				w, ok := s.round(st, l)
				if !ok {
					return "what the loop walks is not known"
				}
				n, inner := 0, false
				var keys []*T
				for _, e := range st.trace[l.nt:] {
					switch {
					case e.kind == "mapset" && isStopMap(e.args[0].typ):
						keys = append(keys, e.args[1])
					case e.kind == "loop":
						inner = true
					}
				}
				isW := func(t *T) bool {
					if w.is(t) && !w.trim {
						return true
					}
					return t.isCall("strings.TrimSpace") && (w.trim || w.skip) && w.is(t.a[0])
				}
				for _, k := range keys {
					if !isW(k) && !(w.trim && w.is(stripTrim(k)) && stripTrim(k) != k) {
						return "what is stored is not the word of this round: " + clip(k.String())
					}
					n++
				}
				if n > 0 || inner {
					return ""
				}
				if full(st, func(t *T) bool { return isW(t) || w.is(t) }) == -1 && (w.skip || w.trim) {
					return ""
				}
				if w.is != nil {
					for _, ll := range st.lits[l.nl:] {
						if ll.t.op == "has" && ll.pol && isW(ll.t.a[1]) && s.own(st, ll.t.a[0]) {
							return "" // already there
						}
					}
				}
				return "a word is left out; the path: " + clip(litStrings(st.lits[l.nl:]))
			}()
			if looped[l.id] == "" && why != "" || looped[l.id] == "" {
				looped[l.id] = why
				if why == "" {
					looped[l.id] = "ok"
				}
			} else if why != "" && looped[l.id] == "ok" {
				looped[l.id] = why
			}
		},
		Ret: func(st *St, res []*T) {
			if len(res) > 0 && returnsError(st, res) {
				return
			}
			loops := 0
			for _, e := range st.trace {
				if e.kind != "loop" {
					continue
				}
				loops++
				s.c.R.Check(s.ended(st, e.loop), "up-to-the-end", s.name, s.pos, "the loop may stop before the last word"+s.path(st))
			}
			if text != nil && loops == 0 {
				if s.fn.Signature.Results().Len() > 0 {
					s.c.R.Fail("the-word-is-stored", s.name, s.pos, "nothing is read")
					return
				}
				n := 0
				good := true
				for _, e := range st.trace {
					if e.kind == "mapset" && isStopMap(e.args[0].typ) {
						n++
						good = good && e.args[1] == text
					}
				}
				has := false
				for _, l := range st.lits {
					if l.t.op == "has" && l.pol && l.t.a[1] == text && s.own(st, l.t.a[0]) {
						has = true
					}
				}
				s.c.R.Check(good && (n > 0 || has), "the-word-is-stored", s.name, s.pos, "the word may not be stored, or another one is"+s.path(st))
				return
			}
			if loops == 0 && list != nil {
				s.c.R.Check(st.le(x.lenOf(list), x.tt.int(0)) || s.allHanded(st, list), "up-to-the-end", s.name, s.pos, "no word is stored"+s.path(st))
			}
		},
	})
	for id, why := range looped {
		s.c.R.Check(why == "ok", rule, s.name+"|"+id[strings.LastIndex(id, ":")+1:], s.pos, why)
	}
}

// stripTrim: without the functions that remove white space at the ends.
func stripTrim(t *T) *T {
	for t.op == "call" && strings.HasPrefix(callName(t.s), "strings.Trim") {
		if len(t.a) == 2 {
			if c, isc := t.a[1].strVal(); !isc || strings.Trim(c, " \t\r\n") != "" {
				return t
			}
		}
		t = t.a[0]
	}
	return t
}

// allHanded: the whole list is handed to a function that is decided itself.
func (s *stopFn) allHanded(st *St, list *T) bool {
	for _, e := range st.trace {
		if e.kind == "call" && e.in != nil {
			if ci, ok := e.in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && isAPI(g) && s.c.InRepo(g) {
					if adds, dels, _, _ := s.c.stopEffects(g); adds && !dels && len(e.args) == 2 && e.args[1] == list {
						return true
					}
				}
			}
		}
	}
	return false
}

// ended: the loop was left because nothing was left to look at.
func (s *stopFn) ended(st *St, l *LoopI) bool {
	for _, in := range l.hdr.Instrs {
		if n, isn := in.(*ssa.Next); isn && !n.IsString {
			it := s.x.val(st, n.Iter)
			return lit(st, func(t *T) bool { return t.op == "itok" && t.a[0] == it }) == -1
		}
	}
	if s.f.exhausted(st, l) {
		return true
	}
	for _, b := range l.fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if g := ci.Common().StaticCallee(); g != nil && g.RelString(nil) == "(*bufio.Scanner).Scan" {
				for _, ll := range st.lits {
					if ll.t.isCall("(*bufio.Scanner).Scan") && !ll.pol {
						return true
					}
				}
			}
		}
	}
	return false
}

// copies: a new set that starts with the defaults.
func (s *stopFn) copies() {
	const rule = "all-defaults"
	s.run(&Hooks{
		Back: func(st *St, l *LoopI, next []*T) {
			w, ok := s.round(st, l)
			n := 0
			for _, e := range st.trace[l.nt:] {
				if e.kind == "mapset" && isStopMap(e.args[0].typ) {
					if ok && w.is(e.args[1]) {
						n++
					}
				}
			}
			s.c.R.Check(ok && n == 1, rule, s.name, s.pos, "a default word is left out, or something else is stored"+s.path(st))
		},
		Ret: func(st *St, res []*T) {
			for _, e := range st.trace {
				if e.kind == "loop" {
					s.c.R.Check(s.ended(st, e.loop), rule, s.name, s.pos, "the copy may stop early"+s.path(st))
				}
			}
		},
	})
}

func (s *stopFn) emptied() {
	const rule = "no-word-is-left"
	recv := s.fn.Params[0].Type()
	st0 := structOf(recv)
	if st0 == nil {
		return
	}
	f := -1
	for i := 0; i < st0.NumFields(); i++ {
		if isStopMap(st0.Field(i).Type()) {
			f = i
		}
	}
	if f < 0 {
		return
	}
	s.run(&Hooks{Ret: func(st *St, res []*T) {
		a := s.x.fieldAddr(s.x.paramT(s.fn, 0), namedOf(recv), f)
		m := s.x.loadT(st, a, st0.Field(f).Type())
		ok := st.none(m) || m.op == "mkmap"
		for _, e := range st.trace {
			if e.kind == "call" && e.name == "clear" {
				ok = true
			}
			if e.kind == "mapset" && e.args[0] == m && e.name != "delete" {
				ok = false
			}
		}
		s.c.R.Check(ok, rule, s.name, s.pos, "there may be words left in the set"+s.path(st))
	}})
}
