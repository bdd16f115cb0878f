package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C13", checkDict) }

// trieHit: idx is the value the trie holds for a word, and the path knows that it has one.
// It returns the word that was looked up.
func (st *St) trieHit(idx *T) (word *T, start *T, why string) {
	c, i := idx.ext()
	if c == nil || i != 0 {
		return nil, nil, "the index is not a value of the trie"
	}
	if isCedar(c, "Get") {
		if n, ok := st.errNil(st.x.comp(c, 1)); !ok || !n {
			return nil, nil, "the lookup may have failed"
		}
		return c.a[1], st.x.tt.int(0), ""
	}
	if !isCedar(c, "Value") {
		return nil, nil, "the index is not a value of the trie"
	}
	if n, ok := st.errNil(st.x.comp(c, 1)); !ok || !n {
		return nil, nil, "the word may have no value"
	}
	j, k := c.a[1].ext()
	if j == nil || k != 0 || !isCedar(j, "Jump") {
		return nil, nil, "the value does not belong to a word that was looked up"
	}
	if n, ok := st.errNil(st.x.comp(j, 1)); !ok || !n {
		return nil, nil, "the word may not be in the trie"
	}
	return j.a[1], j.a[2], ""
}

// tokenOf: t is (the address of) an entry of a dictionary; it returns the dictionary and the index.
func entryOf(a *T) (dict, idx *T) {
	if a.op == "&index" && isLoadOf(a.a[0], modPath, "Dictionary", "Tokens") {
		return a.a[0].a[0].a[0], a.a[1]
	}
	return nil, nil
}

func (c *Ctx) onlyWritten(rule string, allowed map[*ssa.Function]bool, typ string, fields map[string]bool) {
	n := 0
	for _, fn := range c.libFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || !isNamed(fa.X.Type(), modPath, typ) {
					// a whole entry written over an existing one
					if isNamed(derefType(s.Addr.Type()), modPath, typ) && types.Identical(s.Addr.Type().Underlying().(*types.Pointer).Elem(), derefType(s.Addr.Type())) {
						if _, isPtr := s.Val.Type().Underlying().(*types.Pointer); !isPtr && !freshLocal(s.Addr) && !allowed[fn] {
							c.R.Fail(rule, short(fn)+"|"+typ, c.Pos(s.Pos()), "a whole "+typ+" is overwritten here")
						}
					}
					continue
				}
				f := structOf(fa.X.Type()).Field(fa.Field).Name()
				if !fields[f] || freshLocal(fa) {
					continue
				}
				n++
				c.R.Check(allowed[fn], rule, short(fn)+"|"+typ+"."+f, c.Pos(s.Pos()), "the field "+f+" of a "+typ+" is changed outside of AddToken")
			}
		}
	}
	c.R.Unit("writes of "+typ, n)
}

func checkDict(c *Ctx) {
	c.R.Rule = "Dictionary.AddToken is evaluated path by path: an entry is inserted exactly when its key is not empty and the trie has no value for it; then the trie value is the index the entry gets, the entry is appended, its frequency added to the total and the longest length kept. The fields involved are written nowhere else. Every use of an index into the entries is checked to be the value the trie returned, without error, for the word looked up; the lookups return frequency and tag of that entry, and nothing for other words."
	c.R.Assume = append(c.R.Assume, "cedar's Get, Jump, Value, Insert and Delete do what their names say (C42 is not decided).")
	add := c.Method(modPath, "Dictionary", "AddToken")
	if add == nil {
		c.R.Fail("anchor", "Dictionary.AddToken", "", "not found")
		return
	}
	x := newE3(c.World)
	c.addTokenPaths(x, add)

	allowed := c.expanded(add)
	if f := c.Func(modPath, "NewDict"); f != nil {
		for g := range c.expanded(f) {
			allowed[g] = true
		}
	}
	c.onlyWritten("only-AddToken-changes-the-entries", allowed, "Dictionary", map[string]bool{"Tokens": true, "totalFreq": true, "maxTokenLen": true, "trie": true})
	c.onlyWritten("an-entry-keeps-text-freq-pos", map[*ssa.Function]bool{}, "Token", map[string]bool{"text": true, "freq": true, "pos": true})
	// who changes the trie
	for _, fn := range c.libFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != cedarPath {
					continue
				}
				switch g.Name() {
				case "Jump", "Value", "Get", "New", "Has", "Exact", "PrefixMatch", "PrefixPredict", "Key", "Status":
				case "Delete":
					rm := c.Method(modPath, "Dictionary", "RemoveToken")
					c.R.Check(rm != nil && c.expanded(rm)[fn], "only-AddToken-and-RemoveToken-change-the-trie", short(fn), c.Pos(in.Pos()), "a key is deleted outside of RemoveToken")
				default:
					c.R.Check(allowed[fn], "only-AddToken-and-RemoveToken-change-the-trie", short(fn), c.Pos(in.Pos()), g.Name()+" is called outside of AddToken")
				}
			}
		}
	}
	c.R.AtLeast("only-AddToken-and-RemoveToken-change-the-trie", 2)

	// indices into the entries
	find := c.Method(modPath, "Dictionary", "Find")
	value := c.Method(modPath, "Dictionary", "Value")
	lookup := c.Method(modPath, "Dictionary", "LookupTokens")
	for n, f := range map[string]*ssa.Function{"Find": find, "Value": value, "LookupTokens": lookup} {
		c.R.Check(f != nil, "anchor", "Dictionary."+n, "", "not found")
	}
	for _, fn := range c.roots() {
		uses := false
		for f := range c.expanded(fn) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if fa, ok := in.(*ssa.FieldAddr); ok && isNamed(fa.X.Type(), modPath, "Dictionary") && structOf(fa.X.Type()).Field(fa.Field).Name() == "Tokens" {
						uses = true
					}
				}
			}
		}
		if !uses && fn != value && fn != lookup {
			continue
		}
		c.R.Unit("functions", 1)
		h := &Hooks{
			Index: func(st *St, in ssa.Instruction, base, idx *T) {
				if !isLoadOf(base, modPath, "Dictionary", "Tokens") {
					return
				}
				if st.le(x.tt.int(0), idx) && st.ltI(idx, x.lenOf(base)) {
					c.R.OK("entries-are-found-by-the-trie", short(in.Parent()), c.Pos(in.Pos()))
					return
				}
				w, _, why := st.trieHit(idx)
				c.R.Check(w != nil, "entries-are-found-by-the-trie", short(in.Parent()), c.Pos(in.Pos()), why+"; the index: "+idx.String()+"; the path: "+clip(litStrings(st.lits)))
			},
		}
		switch fn {
		case find:
			h.Ret = func(st *St, res []*T) { c.findResult(st, fn, res, "Find-returns-the-own-entry") }
		case value:
			h.Ret = func(st *St, res []*T) { c.valueResult(st, fn, res, "Value-returns-the-own-value") }
		}
		if fn == lookup {
			c.lookupPaths(x, h, fn)
		}
		if x.Run(fn, h) {
			c.R.Fail("too-many-paths", short(fn), c.Pos(fn.Pos()), "the function has too many paths to decide")
		}
		c.R.Unit("paths", x.Paths)
		x.Paths = 0
	}
	c.lookups(x, find, value)
	c.accessors(x)
	c.R.AtLeast("entries-are-found-by-the-trie", 3)
	c.R.AtLeast("Find-returns-the-own-entry", 1)
	c.R.AtLeast("Value-returns-the-own-value", 1)
	c.R.AtLeast("LookupTokens-follows-the-words", 1)
}

func (c *Ctx) addTokenPaths(x *E3, add *ssa.Function) {
	pos := c.Pos(add.Pos())
	fail := func(rule, msg string, st *St) {
		c.R.Fail(rule, short(add), pos, msg+"; the path: "+clip(litStrings(st.lits)))
	}
	tokenParam := func(st *St) *T { return nil }
	_ = tokenParam
	accepted := 0
	ov := x.Run(add, &Hooks{
		Ret: func(st *St, res []*T) {
			c.R.Unit("paths", 1)
			dict := x.tt.mk("param", fmt.Sprintf("%s@%s#0", add.Params[0].Name(), short(add)), add.Params[0].Type())
			tok := x.tt.mk("param", fmt.Sprintf("%s@%s#1", add.Params[1].Name(), short(add)), add.Params[1].Type())
			fld := func(n string) *T { return x.tt.mk("&field", n, nil, dict) }
			text, freq := x.tt.mk("field", "text", nil, tok), x.tt.mk("field", "freq", nil, tok)
			// what the path did
			var ins *Ev
			var insIdx int
			stores := map[string][]*Ev{}
			storeAt := map[string]int{}
			for i, e := range st.trace {
				switch e.kind {
				case "call":
					if e.res != nil && (isCedar(e.res, "Insert") || isCedar(e.res, "Update") || isCedar(e.res, "Put")) {
						if ins != nil {
							fail("one-insertion", "two keys are inserted", st)
						}
						ins, insIdx = e, i
					}
				case "store":
					if a := e.args[0]; a.op == "&field" && a.a[0] == dict {
						stores[a.s] = append(stores[a.s], e)
						storeAt[a.s] = i
					}
				}
			}
			final := func(n string, typ types.Type) (*T, bool) {
				if len(stores[n]) == 0 {
					return nil, false
				}
				return stores[n][len(stores[n])-1].args[1], true
			}
			if ins == nil {
				if len(stores) > 0 {
					fail("accepted-entries-are-inserted", "the entries change but no key is inserted", st)
				}
				// nothing done: only for an empty or known key
				ok := false
				for _, l := range st.lits {
					t := l.t
					if t.op == "==" && l.pol {
						if t.a[0].op == "len" {
							if n, k := t.a[1].intVal(); k && n == 0 && t.a[0].a[0].contains(text) {
								ok = true
							}
						}
						if cl, i := t.a[0].ext(); cl != nil && i == 1 && t.a[1].isNil() && isCedar(cl, "Get") {
							ok = true // found
						}
						if t.a[1].isNil() && t.a[0] == dict {
							ok = true
						}
					}
					if isPresence(st, l) {
						ok = true
					}
				}
				c.R.Check(ok, "new-words-are-added", short(add), pos, "a word that is not in the dictionary is not added; the path: "+clip(litStrings(st.lits)))
				return
			}
			accepted++
			key := ins.args[1]
			if !joinedKey(key, text) {
				fail("key-is-the-text", "the key is not made from the whole text of the token: "+key.String(), st)
			}
			// presence was ruled out for this key
			absent := false
			for _, l := range st.lits[:ins.nl] {
				if l.t.op == "==" && !l.pol && l.t.a[1].isNil() {
					if cl, i := l.t.a[0].ext(); cl != nil && i == 1 && isCedar(cl, "Get") && cl.a[1] == key {
						absent = true
					}
				}
			}
			c.R.Check(absent, "known-words-are-kept", short(add), pos, "a key is inserted although the trie may have a value for it; the path: "+clip(litStrings(st.lits)))
			empty := st.litm[x.arith("==", x.lenOf(key), x.tt.int(0), nil)]
			_, known := st.litm[x.arith("==", x.lenOf(key), x.tt.int(0), nil)]
			c.R.Check(known && !empty, "no-empty-word", short(add), pos, "an empty key may be inserted; the path: "+clip(litStrings(st.lits)))
			// value is the index of the new entry
			oldTok := x.tt.mk("load", "", nil, fld("Tokens"))
			ok := ins.args[2] == x.lenOf(oldTok) && (len(stores["Tokens"]) == 0 || storeAt["Tokens"] > insIdx || true)
			if !ok {
				ok = st.eqI(ins.args[2], x.lenOf(oldTok))
			}
			c.R.Check(ok, "value-is-the-index", short(add), pos, "the value inserted is not the index of the new entry: "+ins.args[2].String())
			insErr := ins.res
			isNil, k := st.errNil(insErr)
			if k && !isNil {
				c.R.Check(len(stores) == 0, "failed-insertion-changes-nothing", short(add), pos, "the insertion failed but the entries change")
				nn, k2 := st.errNil(res[0])
				c.R.Check(k2 && !nn, "failed-insertion-is-reported", short(add), pos, "the insertion failed but AddToken may return nil")
				return
			}
			if !k {
				fail("failed-insertion-is-reported", "the error of the insertion is not looked at", st)
			}
			v, has := final("Tokens", nil)
			good := has && v.op == "append" && v.a[0] == oldTok && v.a[1].op == "list" && len(v.a[1].a) == 1 && x.isToken(v.a[1].a[0], tok)
			c.R.Check(good, "entry-is-appended", short(add), pos, "the token is not appended to the entries as it is")
			v, has = final("totalFreq", nil)
			oldTotal := x.tt.mk("load", "", types.Typ[types.Float64], fld("totalFreq"))
			c.R.Check(has && len(stores["totalFreq"]) == 1 && v == x.arith("+", oldTotal, freq, types.Typ[types.Float64]), "total-adds-the-frequency", short(add), pos, "the total of the frequencies does not grow by the frequency of the entry")
			oldMax := x.tt.mk("load", "", types.Typ[types.Int], fld("maxTokenLen"))
			v, has = final("maxTokenLen", nil)
			if !has {
				v = oldMax
			}
			ln := x.lenOf(text)
			c.R.Check((v == oldMax || v == ln || v.op == "bi") && (v.op == "bi" || st.le(oldMax, v) && st.le(ln, v)), "longest-length-is-kept", short(add), pos,
				"the longest length is not the maximum of the old one and the length of the entry; the path: "+clip(litStrings(st.lits)))
		},
	})
	if ov {
		c.R.Fail("too-many-paths", short(add), pos, "too many paths")
	}
	c.R.Check(accepted > 0, "entries-can-be-added", short(add), pos, "no path inserts a word")
}

// isPresence: a literal that says the trie holds a value for the key.
func isPresence(st *St, l Lit) bool {
	// val > 0 with val the value of the key
	if l.t.op == "<" && l.pol {
		if n, ok := l.t.a[0].intVal(); ok && n >= 0 {
			if cl, i := l.t.a[1].ext(); cl != nil && i == 0 && isCedar(cl, "Get") {
				return true
			}
		}
	}
	return false
}

func (x *E3) isToken(v, tok *T) bool {
	if v == tok {
		return true
	}
	if v.op != "struct" {
		return false
	}
	for _, f := range v.a {
		if f.op != "field" || f.a[0] != tok {
			return false
		}
	}
	return true
}

// lookupPaths: the tokens found follow the words one by one.
func (c *Ctx) lookupPaths(x *E3, h *Hooks, fn *ssa.Function) {
	rule := "LookupTokens-follows-the-words"
	pos := c.Pos(fn.Pos())
	h.Back = func(st *St, l *LoopI, next []*T) {
		var jump *T
		var stored []*Ev
		for _, e := range st.trace[l.nt:] {
			if e.kind == "call" && e.res != nil && isCedar(e.res, "Jump") {
				if jump != nil {
					c.R.Fail(rule, short(fn), pos, "two steps in the trie for one word")
				}
				jump = e.res
			}
			if e.kind == "store" && e.args[0].op == "&index" {
				stored = append(stored, e)
			}
		}
		if jump == nil {
			c.R.Fail(rule, short(fn), pos, "a word is passed over without a step in the trie")
			return
		}
		if n, ok := st.errNil(x.comp(jump, 1)); !ok || !n {
			c.R.Fail(rule, short(fn), pos, "the walk goes on after a word that is not in the trie; the path: "+clip(litStrings(st.lits)))
			return
		}
		// the word is the one of this round
		w := jump.a[1]
		okW := w.op == "load" && w.a[0].op == "&index" && w.a[0].a[0].op == "param" && w.a[0].a[1].has(func(t *T) bool { return t.op == "phi" })
		c.R.Check(okW, rule, short(fn), pos, "the word looked up is not the next one: "+w.String())
		// the node is carried on
		carried := false
		cnt := -1
		for i := range l.syms {
			if l.syms[i] == jump.a[2] {
				carried = next[i] == x.comp(jump, 0)
				if n, ok := l.init[i].intVal(); !ok || n != 0 {
					carried = false
				}
			}
			for _, e := range stored {
				if e.args[0].a[1] == l.syms[i] {
					cnt = i
				}
			}
		}
		c.R.Check(carried, rule, short(fn), pos, "the node reached is not carried on to the next word, or the walk does not start at the root")
		hit := false
		for _, li := range st.lits {
			if li.t.op == "==" && li.pol && li.t.a[1].isNil() {
				if cl, i := li.t.a[0].ext(); cl != nil && i == 1 && isCedar(cl, "Value") {
					hit = true
				}
			}
		}
		if !hit {
			c.R.Check(len(stored) == 0, rule, short(fn), pos, "a token is recorded for words that have no value; the path: "+clip(litStrings(st.lits)))
			return
		}
		ok := len(stored) == 1
		if ok {
			d, idx := entryOf(stored[0].args[1])
			ok = d != nil && idx == x.comp(idxCall(idx), 0) && isCedar(idxCall(idx), "Value") && idxCall(idx).a[1] == x.comp(jump, 0)
			ok = ok && cnt >= 0 && next[cnt] == x.arith("+", l.syms[cnt], x.tt.int(1), types.Typ[types.Int])
		}
		c.R.Check(ok, rule, short(fn), pos, "the entry found is not recorded and counted once; the path: "+clip(litStrings(st.lits)))
	}
}

func idxCall(t *T) *T {
	c, _ := t.ext()
	if c == nil {
		return t
	}
	return c
}
