package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C16", checkLines)
	register("C17", checkFreqs)
}

// usesCall: one of the functions calls a function with this full name.
func usesCall(fs map[*ssa.Function]bool, names ...string) bool {
	for f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						for _, n := range names {
							if g.RelString(nil) == n {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

const addTokenName = "(*" + modPath + ".Dictionary).AddToken"

// counter: a loop variable that only counts: it starts the same for every list and changes by constants.
func counter(p *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	if !isInt(p.Type()) {
		return false
	}
	for i, e := range p.Edges {
		if !body[p.Block().Preds[i]] {
			if !fixedStart(e) {
				return false
			}
			continue
		}
		if !onlyStep(e, p, 0) {
			return false
		}
	}
	return true
}

// fixedStart: a constant, or a constant away from an index that only counts in a loop around this one.
func fixedStart(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.BinOp:
		if _, c := v.Y.(*ssa.Const); c && (v.Op == token.ADD || v.Op == token.SUB) {
			return fixedStart(v.X)
		}
	case *ssa.Phi:
		for _, e := range v.Edges {
			if _, c := e.(*ssa.Const); !c && !onlyStep(e, v, 0) {
				return false
			}
		}
		return true
	}
	return false
}

// onlyStep: the variable changes by one constant in every iteration.
func onlyStep(v ssa.Value, p *ssa.Phi, d int) bool {
	b, ok := v.(*ssa.BinOp)
	if ok && (b.Op == token.ADD || b.Op == token.SUB) && b.X == p {
		_, c := b.Y.(*ssa.Const)
		return c
	}
	if q, ok := v.(*ssa.Phi); ok && d < 3 && q != p {
		// the same step on every way to the end of the iteration
		for _, e := range q.Edges {
			if e != q && !onlyStep(e, p, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// carried finds a part of a value that comes from an earlier iteration of a loop.
func (st *St) carried(v *T) string {
	allowed := map[*T]bool{}
	syms := map[*T]bool{}
	for f := st.fr; f != nil; f = f.up {
		for _, l := range f.loops {
			for i, s := range l.syms {
				syms[s] = true
				if counter(l.phis[i], l.body) {
					allowed[s] = true
				}
			}
		}
	}
	seen := map[*T]bool{}
	var walk func(t *T) string
	walk = func(t *T) string {
		if seen[t] {
			return ""
		}
		seen[t] = true
		switch t.op {
		case "phi":
			if syms[t] && !allowed[t] {
				return "the value that " + t.String() + " has at the start of the iteration"
			}
		case "slice":
			if n, ok := t.a[2].intVal(); ok && n == 0 {
				return "" // an emptied buffer
			}
		case "filled":
			if t.a[0].op != "const" {
				return "what a variable declared outside of the loop held before it was read into"
			}
		case "load":
			if r := rootOf(t.a[0]); isFreshRoot(r) && t.typ != nil {
				if _, basic := t.typ.Underlying().(*types.Basic); basic && st.ver["A:"+r.s] != "" && !st.madeInLoop(r) {
					return "what the variable " + r.String() + " was left with"
				}
			}
		}
		for _, a := range t.a {
			if s := walk(a); s != "" {
				return s
			}
		}
		return ""
	}
	return walk(v)
}

// carriedLits: a decision of this iteration that depends on an earlier one.
func (st *St) carriedLits() string {
	var l *LoopI
	for f := st.fr; f != nil && l == nil; f = f.up {
		if n := len(f.loops); n > 0 {
			l = f.loops[n-1]
		}
	}
	if l == nil {
		return ""
	}
	for _, li := range st.lits[l.nl:] {
		if why := st.carried(li.t); why != "" {
			return why
		}
	}
	return ""
}

// madeInLoop: the allocation is part of the iteration, not of what was there before.
func (st *St) madeInLoop(r *T) bool {
	for f := st.fr; f != nil; f = f.up {
		for _, l := range f.loops {
			for v, t := range f.env {
				if t == r && inLoop(v, l) {
					return true
				}
			}
		}
	}
	return false
}

func inAnyLoop(st *St) bool {
	for f := st.fr; f != nil; f = f.up {
		if len(f.loops) > 0 {
			return true
		}
	}
	return false
}

// keepOut: functions that are looked at as calls.
func keepOut(names ...string) func(*St, *ssa.Function) bool {
	return func(st *St, fn *ssa.Function) bool {
		for _, n := range names {
			if fn.RelString(nil) == n {
				return false
			}
		}
		return inlinable(fn)
	}
}

func checkLines(c *Ctx) {
	c.R.Rule = "In every loop of the functions that load entries, stop words or lists of files, each value that leaves an iteration (the token added, the stop word recorded, the path appended, the file opened) is evaluated as a term; the term may mention loop variables only if they count, and must not mention memory that keeps its contents from one iteration to the next."
	x := newE3(c.World)
	sinkStop := func(e *Ev) bool {
		return e.kind == "mapset" && len(e.args) > 1 && isStopMap(e.args[0].typ)
	}
	kinds := map[string]bool{}
	for _, fn := range c.roots() {
		ex := c.expanded(fn)
		loads := usesCall(ex, addTokenName, "os.Open", "os.ReadFile") || fn.Name() == "DictPaths" || recordsStop(ex)
		if !loads || !hasLoop(fn) {
			continue
		}
		c.R.Unit("functions", 1)
		judge := func(st *St, e *Ev, what string, v *T) {
			kinds[what] = true
			why := st.carried(v)
			c.R.Check(why == "", "entries-are-independent", short(e.fn)+"|"+what, c.Pos(e.in.Pos()), what+" depends on "+why)
			why = st.carriedLits()
			c.R.Check(why == "", "entries-are-chosen-independently", short(e.fn)+"|"+what, c.Pos(e.in.Pos()), "whether "+what+" is used depends on "+why)
		}
		ov := x.Run(fn, &Hooks{
			Inline: keepOut(addTokenName),
			Back: func(st *St, l *LoopI, next []*T) {
				why := st.carriedLits()
				c.R.Check(why == "", "entries-are-chosen-independently", short(l.fn)+"|next", c.Pos(l.fn.Pos()), "whether an entry is skipped depends on "+why)
			},
			Event: func(st *St, e *Ev) {
				if !inAnyLoop(st) {
					return
				}
				switch {
				case e.kind == "call" && e.name == addTokenName:
					judge(st, e, "the token", e.args[1])
				case e.kind == "call" && (e.name == "os.Open" || e.name == "os.ReadFile"):
					judge(st, e, "the file opened", e.args[0])
				case e.kind == "call" && e.name == "(*"+modPath+".Segmenter).Read":
					judge(st, e, "the file opened", e.args[1])
				case sinkStop(e):
					judge(st, e, "the stop word", e.args[1])
				case e.kind == "append" && fn.Name() == "DictPaths" && e.args[1].op == "list":
					for _, v := range e.args[1].a {
						judge(st, e, "the path", v)
					}
				}
			},
		})
		if ov {
			c.R.Fail("too-many-paths", short(fn), c.Pos(fn.Pos()), "the function has too many paths to decide")
		}
		c.R.Unit("paths", x.Paths)
		x.Paths = 0
	}
	for _, k := range []string{"the token", "the path", "the stop word", "the file opened"} {
		c.R.Check(kinds[k], "every-kind-was-seen", k, "", "no loop was found from which "+k+" leaves")
	}
}

// recordsStop: one of the functions writes a set of words.
func recordsStop(fs map[*ssa.Function]bool) bool {
	for f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MapUpdate); ok && isStopMap(m.Map.Type()) {
					return true
				}
			}
		}
	}
	return false
}

// isStopMap: a set of words.
func isStopMap(t types.Type) bool {
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && isString(m.Key()) && isBool(m.Elem())
}

func checkFreqs(c *Ctx) {
	c.R.Rule = "In every function that parses a frequency and adds a token, each path to Dictionary.AddToken is examined: the frequency is the value ParseFloat returned without error, known on the path to be neither NaN nor infinite nor below MinTokenFreq; or the constant 2 after the same tests, for a text of fewer than two characters. The replacement text for a missing frequency is used only with LoadNoFreq on."
	x := newE3(c.World)
	sites := map[ssa.Instruction]bool{}
	for _, fn := range c.roots() {
		ex := c.expanded(fn)
		if !usesCall(ex, "strconv.ParseFloat") || !usesCall(ex, addTokenName) {
			continue
		}
		c.R.Unit("functions", 1)
		ov := x.Run(fn, &Hooks{
			Inline: keepOut(addTokenName),
			Event: func(st *St, e *Ev) {
				if e.kind != "call" || e.name != addTokenName {
					return
				}
				sites[e.in] = true
				why := st.sensible(e.args[1])
				c.R.Check(why == "", "frequency-is-sensible", short(fn)+"|"+short(e.in.Parent()), c.Pos(e.in.Pos()), why+"; the path: "+clip(litStrings(st.lits)))
			},
		})
		if ov {
			c.R.Fail("too-many-paths", short(fn), c.Pos(fn.Pos()), "the function has too many paths to decide")
		}
		c.R.Unit("paths", x.Paths)
		x.Paths = 0
	}
	c.R.Unit("sites", len(sites))
	c.R.AtLeast("frequency-is-sensible", 3)
	// every loader goes through such a function
	for _, fn := range c.libFuncs() {
		if usesCall(map[*ssa.Function]bool{fn: true}, addTokenName) && hasLoop(fn) {
			c.R.Check(usesCall(c.expanded(fn), "strconv.ParseFloat"), "loaders-parse-the-frequency", short(fn), c.Pos(fn.Pos()), "entries are added in a loop without parsing a frequency")
		}
	}
}

// litVal: what the path knows about a condition.
func (st *St) litVal(t *T) (v, known bool) {
	if b, ok := t.boolVal(); ok {
		return b, true
	}
	if t.op == "!" {
		v, k := st.litVal(t.a[0])
		return !v, k
	}
	v, known = st.litm[t]
	return
}

func (st *St) sensible(tok *T) string {
	x := st.x
	if tok.op != "struct" {
		return "the token is not built here"
	}
	var freq, text *T
	s := structOf(tok.typ)
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "freq":
			freq = tok.a[i]
		case "text":
			text = tok.a[i]
		}
	}
	if freq == nil || text == nil {
		return "the token has no frequency or text"
	}
	// the call that parsed
	var parse *T
	fixed := false
	if v, ok := freq.floatVal(); ok {
		if v != 2 {
			return "an entry gets the fixed frequency " + freq.String()
		}
		fixed = true
		for _, e := range st.trace {
			if e.kind == "call" && e.name == "strconv.ParseFloat" {
				parse = e.res
			}
		}
	} else if cl, i := freq.ext(); cl != nil && i == 0 && cl.isCall("strconv.ParseFloat") {
		parse = cl
	}
	if parse == nil {
		return "the frequency is not a number that was parsed: " + clip(freq.String())
	}
	if n, k := st.errNil(x.comp(parse, 1)); !k || !n {
		return "the error of ParseFloat is not ruled out"
	}
	v := x.tt.mk("ext", "0", nil, parse)
	isCallLit := func(name string, arg *int64) bool {
		for t, pol := range st.litm {
			if pol || !t.isCall(name) || t.a[0] != v {
				continue
			}
			if arg == nil {
				return true
			}
			if n, ok := t.a[1].intVal(); ok && n == *arg {
				return true
			}
		}
		return false
	}
	zero, one, neg := int64(0), int64(1), int64(-1)
	cur := func(t *T, field string) bool {
		if isLoadOf(t, modPath, "Segmenter", field) {
			return true
		}
		for a, v := range st.mem {
			if v == t && isFieldOf(a, modPath, "Segmenter", field) {
				return true
			}
		}
		return false
	}
	min := func(t *T) bool { return cur(t, "MinTokenFreq") }
	geMin, notNaN := false, isCallLit("math.IsNaN", nil)
	for t, pol := range st.litm {
		switch {
		case t.op == "<" && !pol && t.a[0] == v && min(t.a[1]):
			geMin = true
		case (t.op == "<=" && min(t.a[0]) && t.a[1] == v || t.op == "<" && min(t.a[0]) && t.a[1] == v) && pol:
			geMin, notNaN = true, true
		case t.op == "==" && pol && t.a[0] == v && t.a[1] == v:
			notNaN = true
		}
	}
	if !notNaN {
		return "the frequency may be NaN"
	}
	if !(isCallLit("math.IsInf", &zero) || isCallLit("math.IsInf", &one) && isCallLit("math.IsInf", &neg)) {
		return "the frequency may be infinite"
	}
	if !geMin {
		return "the frequency may be below MinTokenFreq"
	}
	// one character
	short1, known := false, false
	runesOf := func(n *T) bool {
		if !runesOf(n) {
			return false
		}
		w := wordsOf(text)
		return w == nil || n.contains(w)
	}
	for _, l := range st.lits {
		var n *T
		var k int64
		switch {
		case l.t.op == "<" && l.t.a[0].op == "len":
			if c, ok := l.t.a[1].intVal(); ok {
				n, k = l.t.a[0], c
			}
		case l.t.op == "<" && l.t.a[0].isCall("unicode/utf8.RuneCountInString"):
			if c, ok := l.t.a[1].intVal(); ok {
				n, k = l.t.a[0], c
			}
		case l.t.op == "<" && (l.t.a[1].op == "len" || l.t.a[1].isCall("unicode/utf8.RuneCountInString")):
			if c, ok := l.t.a[0].intVal(); ok && c == 1 && runesOf(l.t.a[1]) {
				short1, known = !l.pol, true
			}
		}
		if n != nil && k == 2 && runesOf(n) {
			short1, known = l.pol, true
		}
	}
	if !known {
		return "the number of characters of the text is not looked at"
	}
	if fixed != short1 {
		if fixed {
			return "a text of two characters or more gets the fixed frequency"
		}
		return "a text of a single character does not get the fixed frequency"
	}
	// the text parsed
	a := parse.a[0]
	if cur(a, "TextFreq") {
		ok := false
		for t, pol := range st.litm {
			if pol && isLoadOf(t, modPath, "Segmenter", "LoadNoFreq") {
				ok = true
			}
		}
		if !ok {
			return "a line without a frequency is accepted although LoadNoFreq may be off"
		}
	} else if _, isc := a.strVal(); isc {
		return "the frequency is the constant " + a.String()
	}
	return ""
}

// runesOf: the number of characters of a text.
func runesOf(n *T) bool {
	if n.op == "call" {
		return true
	}
	return n.op == "len" && n.a[0].op == "conv" && n.a[0].typ != nil && typeKey(n.a[0].typ) == "[]int32" || n.op == "len" && n.a[0].op == "conv" && isRuneSlice(n.a[0].typ)
}

func isRuneSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}
