package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() { register("C14", checkCalc) }

const calcTokenName = "(*" + modPath + ".Segmenter).CalcToken"
const segmentWordsName = "(*" + modPath + ".Segmenter).segmentWords"

// effect of a piece of code on the path costs
type effect uint8

const (
	effNone  effect = 1 << iota // nothing added, nothing computed
	effDirty                    // added after the last computation
	effClean                    // computed after the last addition
)

// then is the effect of one piece of code after another.
func (e effect) then(f effect) effect {
	var r effect
	if f&effNone != 0 {
		r = e
	}
	return r | f&(effDirty|effClean)
}

// calcSum is the effect of a function, when it succeeds and when it fails.
type calcSum struct{ ok, fail effect }

// expandAll expands every unexported function, loops and all, and the exported ones without loops.
func expandAll(out ...string) func(*St, *ssa.Function) bool {
	keep := keepOut(out...)
	return func(st *St, fn *ssa.Function) bool {
		for _, n := range out {
			if fn.RelString(nil) == n {
				return false
			}
		}
		return keep(st, fn) || fn.Pkg != nil && !isAPI(fn) && hasLoop(fn)
	}
}

func checkCalc(c *Ctx) {
	c.R.Rule = "CalcToken is evaluated path by path: one loop over all entries sets the distance of each from the total and the frequency of that entry, another one sets the parts of each; every division (segmentWords) comes after the first loop, and both have run over all entries when CalcToken returns. Then every function that can add entries is evaluated: on each path that returns without a known error, CalcToken comes after the last addition; loops count with the effect of their bodies, functions called with their own effect (a fixed point)."
	c.R.Assume = append(c.R.Assume, "Dictionary.AddToken is the only function that adds entries (checked by C13).")
	c.calcToken()
	c.calcAfterAdd()
}

// fieldCover is a loop that sets a field of every entry of the dictionary.
type fieldCover struct {
	idx   *T // the index written, in terms of the loop variable
	ok    bool
	why   string
	dict  *T
	sym   *T
	init  *T
	down  bool
	backs int
}

func (c *Ctx) calcToken() {
	calc := c.Method(modPath, "Segmenter", "CalcToken")
	if calc == nil {
		c.R.Fail("anchor", "Segmenter.CalcToken", "", "not found")
		return
	}
	x := newE3(c.World)
	name, pos := short(calc), c.Pos(calc.Pos())
	inline := expandAll(segmentWordsName, "(*"+modPath+".Dictionary).LookupTokens")
	cover := map[string]map[string]*fieldCover{} // loop id -> field
	// first: what each loop sets
	ov := x.Run(calc, &Hooks{Inline: inline, Back: func(st *St, l *LoopI, next []*T) {
		m := cover[l.id]
		if m == nil {
			m = map[string]*fieldCover{}
			cover[l.id] = m
			for _, f := range []string{"distance", "segments"} {
				m[f] = &fieldCover{ok: true}
			}
		}
		for _, f := range []string{"distance", "segments"} {
			fc := m[f]
			if !fc.ok {
				continue
			}
			fc.backs++
			var e *Ev
			for _, ev := range st.trace[l.nt:] {
				if ev.kind == "store" && isFieldOf(ev.args[0], modPath, "Token", f) {
					if d, _ := entryOf(ev.args[0].a[0]); d != nil {
						e = ev
					}
				}
			}
			bad := func(why string) { fc.ok, fc.why = false, why }
			if e == nil {
				bad("an iteration does not set it")
				continue
			}
			d, idx := entryOf(e.args[0].a[0])
			if fc.idx != nil && (fc.idx != idx || fc.dict != d) {
				bad("different entries are set")
				continue
			}
			fc.idx, fc.dict = idx, d
			k := -1
			for i, s := range l.syms {
				if idx.contains(s) {
					if k >= 0 {
						bad("the index depends on two variables")
					}
					k = i
				}
			}
			if k < 0 {
				bad("the index does not change")
				continue
			}
			fc.sym, fc.init = l.syms[k], l.init[k]
			nx := x.subst(idx, map[*T]*T{l.syms[k]: next[k]})
			first := x.subst(idx, map[*T]*T{l.syms[k]: l.init[k]})
			step := x.lin(nx).addk(x.lin(idx), -1)
			last := x.lin(x.lenOf(x.tt.mk("load", e.args[0].a[0].a[0].s, e.args[0].a[0].a[0].typ, e.args[0].a[0].a[0].a...)))
			switch {
			case len(step.k) == 0 && step.c == 1:
				if n, ok := first.intVal(); !ok || n != 0 {
					bad("the first entry is left out")
				}
			case len(step.k) == 0 && step.c == -1:
				fc.down = true
				d := x.lin(first).addk(last, -1)
				if len(d.k) != 0 || d.c != -1 {
					bad("the last entry is left out")
				}
			default:
				bad("the index does not go up by one")
			}
		}
		// the costs
		for _, ev := range st.trace[l.nt:] {
			if ev.kind != "store" || !isFieldOf(ev.args[0], modPath, "Token", "distance") {
				continue
			}
			d, _ := entryOf(ev.args[0].a[0])
			c.R.Check(d != nil && isDistance(ev.args[1], ev.args[0].a[0], d), "the-cost-is-that-of-the-entry", name, c.Pos(ev.in.Pos()),
				"the cost is not log2(total) - log2(frequency) of this entry: "+clip(ev.args[1].String()))
		}
	}})
	if ov {
		c.R.Fail("too-many-paths", name, pos, "the function has too many paths to decide")
		return
	}
	covered := func(st *St, evs []*Ev, f string) (bool, string) {
		why := "no loop sets it"
		for _, e := range evs {
			if e.kind != "exit" {
				continue
			}
			fc := cover[e.loop.id][f]
			if fc == nil {
				continue
			}
			if !fc.ok || fc.backs == 0 {
				if fc.idx != nil {
					why = fc.why
				}
				continue
			}
			end := false
			if fc.down {
				end = st.ltI(fc.idx, x.tt.int(0))
			} else {
				base := x.lenOf(x.baseOf(fc, st))
				end = st.le(base, fc.idx)
			}
			if end {
				return true, ""
			}
			why = "the loop may end before the last entry"
		}
		return false, why
	}
	// then: in which order
	x.Run(calc, &Hooks{Inline: inline,
		Event: func(st *St, e *Ev) {
			if e.kind == "call" && e.name == segmentWordsName {
				ok, why := covered(st, st.trace, "distance")
				c.R.Check(ok, "all-costs-before-the-first-division", name, c.Pos(e.in.Pos()), "an entry is divided before the distance of every entry is set: "+why)
			}
		},
		Ret: func(st *St, res []*T) {
			for _, l := range st.lits {
				if l.pol && l.t.op == "==" && l.t.a[1].isNil() && isLoadOf(l.t.a[0], modPath, "Segmenter", "Dict") {
					return
				}
			}
			for t := range st.litm {
				if t.has(func(u *T) bool {
					return u.op == "len" && isLoadOf(u.a[0], modPath, "Dictionary", "Tokens") && st.le(u, x.tt.int(0))
				}) {
					return // no entries
				}
			}
			for _, f := range []string{"distance", "segments"} {
				ok, why := covered(st, st.trace, f)
				c.R.Check(ok, "every-entry-is-computed", name+"|"+f, pos, "CalcToken may return without having set the "+f+" of every entry: "+why+"; the path: "+clip(litStrings(st.lits)))
			}
		}})
	c.R.Unit("paths", x.Paths)
	c.R.AtLeast("the-cost-is-that-of-the-entry", 1)
	c.R.AtLeast("all-costs-before-the-first-division", 1)
	c.R.AtLeast("every-entry-is-computed", 2)
}

// baseOf is the list of entries as it is now.
func (x *E3) baseOf(fc *fieldCover, st *St) *T {
	for t := range st.litm {
		var r *T
		t.has(func(u *T) bool {
			if isLoadOf(u, modPath, "Dictionary", "Tokens") && u.a[0].a[0] == fc.dict {
				r = u
				return true
			}
			return false
		})
		if r != nil {
			return r
		}
	}
	return x.tt.mk("unknown", "", nil)
}

// isDistance: v is log2(total) - log2(freq) for the entry at a of dictionary d.
func isDistance(v, a, d *T) bool {
	if v.op != "-" {
		return false
	}
	logOf := func(t *T, is func(u *T) bool) bool {
		return t.has(func(u *T) bool { return u.isCall("math.Log2") && len(u.a) == 1 && is(u.a[0]) })
	}
	total := func(u *T) bool {
		return isLoadOf(u, modPath, "Dictionary", "totalFreq") && u.a[0].a[0] == d || u.isCall("(*"+modPath+".Dictionary).TotalFreq")
	}
	freq := func(u *T) bool { return isLoadOf(u, modPath, "Token", "freq") && u.a[0].a[0] == a }
	return logOf(v.a[0], total) && !logOf(v.a[0], freq) && logOf(v.a[1], freq) && !logOf(v.a[1], total)
}

// the functions whose purpose is to add entries without computing the costs; the caller does that
var lowLevelAdd = map[string]string{
	addTokenName:                                "adds one entry to a dictionary, which knows nothing about costs",
	"(*" + modPath + ".Segmenter).AddToken":     "documented as the cheap way to add; AddTokenForce computes",
	"(*" + modPath + ".Segmenter).ReAddToken":   "like AddToken",
	"(*" + modPath + ".Segmenter).Reader":       "reads one of several dictionaries, LoadDict computes",
	"(*" + modPath + ".Segmenter).Read":         "reads one of several dictionaries, LoadDict computes",
	"(*" + modPath + "/hmm/idf.Idf).AddToken":   "hands over to AddToken",
	"(*" + modPath + "/hmm/pos.Dict).AddToken":  "hands over to AddToken",
	"(*" + modPath + ".Segmenter).LookupTokens": "",
}

func (c *Ctx) calcAfterAdd() {
	fns := c.libFuncs()
	can := map[*ssa.Function]bool{}
	for _, fn := range fns {
		for g := range c.reach(fn) {
			if g.RelString(nil) == addTokenName {
				can[fn] = true
			}
		}
	}
	sums := map[*ssa.Function]calcSum{}
	if g := c.Method(modPath, "Dictionary", "AddToken"); g != nil {
		sums[g] = calcSum{ok: effDirty, fail: effNone}
	}
	loops := map[*ssa.BasicBlock]effect{}
	x := newE3(c.World)
	inline := keepOut(addTokenName, calcTokenName)
	type final struct {
		eff  effect
		path string
		pos  string
	}
	var finals map[*ssa.Function][]final
	over := map[*ssa.Function]bool{}
	walk := func(st *St, evs []*Ev) effect {
		e := effNone
		for _, ev := range evs {
			switch ev.kind {
			case "loop":
				e = e.then(effNone | loops[ev.loop.hdr])
			case "call":
				var g *ssa.Function
				ci, ok := ev.in.(ssa.CallInstruction)
				if ok {
					g = ci.Common().StaticCallee()
				}
				switch {
				case ev.name == addTokenName:
					e = e.then(effDirty)
				case ev.name == calcTokenName:
					e = e.then(effClean)
				case g != nil && can[g]:
					s := sums[g]
					f := s.ok | s.fail
					if ei := errResult(g.Signature); ei >= 0 && ev.res != nil {
						err := ev.res
						if g.Signature.Results().Len() > 1 {
							err = x.comp(ev.res, ei)
						}
						if n, k := st.errNil(err); k && n {
							f = s.ok
						} else if k {
							f = s.fail
						}
					}
					if f != 0 {
						e = e.then(f)
					}
				case g == nil && ok && !ci.Common().IsInvoke():
					if _, b := ci.Common().Value.(*ssa.Builtin); !b {
						for _, an := range ev.fn.AnonFuncs {
							if can[an] {
								e = e.then(effNone | effDirty)
							}
						}
					}
				}
			}
		}
		return e
	}
	var work []*ssa.Function
	for _, fn := range fns {
		if can[fn] && fn.RelString(nil) != addTokenName && fn.RelString(nil) != calcTokenName {
			work = append(work, fn)
		}
	}
	for changed := true; changed; {
		changed = false
		finals = map[*ssa.Function][]final{}
		for _, fn := range work {
			s := sums[fn]
			old := s
			ei := errResult(fn.Signature)
			over[fn] = x.Run(fn, &Hooks{Inline: inline,
				Back: func(st *St, l *LoopI, next []*T) {
					e := walk(st, st.trace[l.nt:])
					if loops[l.hdr]|e != loops[l.hdr] {
						loops[l.hdr] |= e
						changed = true
					}
				},
				Ret: func(st *St, res []*T) {
					e := walk(st, st.trace)
					if ei < 0 {
						s.ok |= e
						finals[fn] = append(finals[fn], final{e, litStrings(st.lits), ""})
						return
					}
					n, k := st.errNil(res[ei])
					if !k && handsOver(x, st, res[ei], can) {
						// the result is that of the last load: with its error the path is a failure
						n, k = true, true
						for i := len(st.trace) - 1; i >= 0; i-- {
							ev := st.trace[i]
							if ev.kind != "call" || ev.res == nil || ev.res != res[ei] && !res[ei].contains(ev.res) {
								continue
							}
							ci := ev.in.(ssa.CallInstruction)
							g := ci.Common().StaticCallee()
							pre := walk(st, st.trace[:i])
							post := walk(st, st.trace[i+1:])
							s.fail |= pre.then(sums[g].fail).then(post)
							e = pre
							if sums[g].ok != 0 {
								e = pre.then(sums[g].ok)
							}
							e = e.then(post)
							break
						}
					}
					if !k || n {
						s.ok |= e
						finals[fn] = append(finals[fn], final{e, litStrings(st.lits), ""})
					}
					if !k || !n {
						s.fail |= e
					}
				}})
			sums[fn] = s
			if s != old {
				changed = true
			}
		}
	}
	c.R.Unit("paths", x.Paths)
	for _, fn := range work {
		c.R.Unit("functions that can add entries", 1)
		if !isAPI(fn) {
			continue
		}
		if _, low := lowLevelAdd[fn.RelString(nil)]; low {
			continue
		}
		name, pos := short(fn), c.Pos(fn.Pos())
		if over[fn] {
			c.R.Fail("too-many-paths", name, pos, "the function has too many paths to decide")
			continue
		}
		for _, f := range finals[fn] {
			c.R.Check(f.eff&effDirty == 0, "costs-up-to-date-on-success", name, pos, "the function may return without an error although entries were added after the last computation of the costs; the path: "+clip(f.path))
		}
	}
	c.R.AtLeast("costs-up-to-date-on-success", 6)
	// a forced addition computes whatever AddToken says
	if f := c.Method(modPath, "Segmenter", "AddTokenForce"); f != nil {
		s := sums[f]
		c.R.Check((s.ok|s.fail)&effDirty == 0 && (s.ok|s.fail)&effClean != 0, "a-forced-addition-computes", short(f), c.Pos(f.Pos()), "AddTokenForce may return without the costs being computed")
	} else {
		c.R.Fail("anchor", "Segmenter.AddTokenForce", "", "not found")
	}
}

// handsOver: the error returned is that of a function that adds entries.
func handsOver(x *E3, st *St, r *T, can map[*ssa.Function]bool) bool {
	for _, ev := range st.trace {
		if ev.kind != "call" || ev.res == nil {
			continue
		}
		ci, ok := ev.in.(ssa.CallInstruction)
		if !ok {
			continue
		}
		g := ci.Common().StaticCallee()
		if g == nil || !can[g] || errResult(g.Signature) < 0 {
			continue
		}
		err := ev.res
		if g.Signature.Results().Len() > 1 {
			err = x.comp(ev.res, errResult(g.Signature))
		}
		if err == r {
			return true
		}
	}
	return false
}
