package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C31", checkAsked) }

const removeTokenName = "(*" + modPath + ".Dictionary).RemoveToken"

// asked: the parameters of a function that say what to do.
type asked struct {
	text, freq, tags *T
}

// askedOf: the text, the frequency and the optional tag among the parameters.
func (x *E3) askedOf(fn *ssa.Function) (a asked, ok bool) {
	sig := fn.Signature
	first := 0
	if sig.Recv() != nil {
		first = 1
	}
	for i := first; i < len(fn.Params); i++ {
		t := fn.Params[i].Type()
		switch {
		case isString(t) && a.text == nil:
			a.text = x.paramT(fn, i)
		case isFloat(t) && a.freq == nil:
			a.freq = x.paramT(fn, i)
		case sig.Variadic() && i == len(fn.Params)-1 && isStringSlice(t):
			a.tags = x.paramT(fn, i)
		default:
			return a, false
		}
	}
	return a, a.text != nil
}

func isStringSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

// tokenFields of a token that is built on the path.
func tokenFields(tok *T) (text, freq, pos *T) {
	if tok.op != "struct" {
		return
	}
	s := structOf(tok.typ)
	for i := 0; i < s.NumFields() && i < len(tok.a); i++ {
		switch s.Field(i).Name() {
		case "text":
			text = tok.a[i]
		case "freq":
			freq = tok.a[i]
		case "pos":
			pos = tok.a[i]
		}
	}
	return
}

// badToken: what is wrong with the token made of what was asked.
func (st *St) badToken(tok *T, a asked) string {
	x := st.x
	text, freq, pos := tokenFields(tok)
	if text == nil {
		return "the token is not built from what was asked: " + clip(tok.String())
	}
	if wordsOf(text) != a.text {
		return "the words of the token are not those of the text: " + clip(text.String())
	}
	if a.freq != nil && freq != a.freq {
		return "the frequency of the token is not the one asked for: " + clip(freq.String())
	}
	if a.tags == nil {
		return ""
	}
	if s, isc := pos.strVal(); isc {
		switch {
		case s != "":
			return "the tag of the token is " + pos.String()
		case !st.le(x.lenOf(a.tags), x.tt.int(0)):
			return "the token gets no tag although there may be one"
		}
		return ""
	}
	if pos.op == "load" && pos.a[0].op == "&index" && pos.a[0].a[0] == a.tags && isZero(pos.a[0].a[1]) {
		return ""
	}
	return "the tag of the token is not the one asked for: " + clip(pos.String())
}

// sameError: the error that is returned is the one of the call.
func (st *St) sameError(res, call *T) bool {
	if res == call {
		return true
	}
	a, k := st.errNil(res)
	b, l := st.errNil(call)
	return k && l && a == b
}

// ownDict: the dictionary belongs to what the function was called on.
func (st *St) ownDict(fn *ssa.Function, d *T) bool {
	if r := rootOf(d); r.op == "alloc" {
		return true
	}
	if len(fn.Params) == 0 {
		return false
	}
	p := st.x.paramT(fn, 0)
	return d.has(func(t *T) bool { return t == p })
}

func checkAsked(c *Ctx) {
	c.R.Rule = "Every exported function that takes a text, a frequency and optional tags and adds a token, and every one that takes a text and removes one, is evaluated path by path: the token handed to the dictionary of the segmenter has the split text, the frequency as given and the first of the tags, or none; nothing else is added or removed; a word that is added again is removed before; the answer of the dictionary is what is returned, and nothing is left out without an error. Dictionary.RemoveToken deletes the key made of all words of the token, and returns what the trie says."
	c.R.Assume = append(c.R.Assume, "The trie deletes the key it is asked to delete (C42 is not decided).")
	x := newE3(c.World)
	for _, fn := range c.libFuncs() {
		if !isAPI(fn) {
			continue
		}
		a, ok := x.askedOf(fn)
		if !ok {
			continue
		}
		res := fn.Signature.Results()
		reach := c.reach(fn)
		adds, removes := usesCall(reach, addTokenName), usesCall(reach, removeTokenName)
		name, pos := short(fn), c.Pos(fn.Pos())
		switch {
		case a.freq != nil && res.Len() == 1 && isNamed(res.At(0).Type(), modPath, "Token"):
			if x.Run(fn, &Hooks{Inline: keepOut(), Ret: func(st *St, res []*T) {
				why := st.badToken(res[0], a)
				c.R.Check(why == "", "the-token-asked-for", name, pos, why+"; the path: "+clip(litStrings(st.lits)))
			}}) {
				c.R.Fail("too-many-paths", name, pos, "the function has too many paths to decide")
			}
		case a.freq != nil && adds || a.freq == nil && a.tags == nil && removes && !adds:
			c.asks(x, fn, a, removes)
		default:
			continue
		}
		c.R.Unit("functions", 1)
		c.R.Unit("paths", x.Paths)
		x.Paths = 0
	}
	if rm := c.Method(modPath, "Dictionary", "RemoveToken"); rm != nil {
		c.deletes(x, rm)
	} else {
		c.R.Fail("anchor", "Dictionary.RemoveToken", "", "not found")
	}
	c.R.AtLeast("the-token-asked-for", 6)
	c.R.AtLeast("the-key-of-the-word", 1)
}

func (c *Ctx) asks(x *E3, fn *ssa.Function, a asked, removes bool) {
	name, pos := short(fn), c.Pos(fn.Pos())
	again := removes && a.freq != nil
	ov := x.Run(fn, &Hooks{
		Inline: keepOut(addTokenName, removeTokenName, calcTokenName),
		Ret: func(st *St, res []*T) {
			path := "; the path: " + clip(litStrings(st.lits))
			var add, rm *Ev
			for _, e := range st.trace {
				if e.kind != "call" {
					continue
				}
				switch e.name {
				case addTokenName:
					why := st.badToken(e.args[1], a)
					if why == "" && !st.ownDict(fn, e.args[0]) {
						why = "the token goes to another dictionary"
					}
					c.R.Check(why == "", "the-token-asked-for", name, c.Pos(e.in.Pos()), why+path)
					if again {
						v := false
						if rm != nil {
							n, k := st.errNil(rm.res)
							v = k && n
						}
						c.R.Check(v, "removed-before-added-again", name, c.Pos(e.in.Pos()), "the word is added although it may not have been removed before"+path)
					}
					add = e
				case removeTokenName:
					why := st.badToken(e.args[1], asked{text: a.text})
					if why == "" && !st.ownDict(fn, e.args[0]) {
						why = "the word is removed from another dictionary"
					}
					if why == "" && add != nil {
						why = "the word is removed after it was added"
					}
					if why == "" && a.freq != nil && !again {
						why = "a word is removed"
					}
					c.R.Check(why == "", "the-token-asked-for", name, c.Pos(e.in.Pos()), why+path)
					rm = e
				}
			}
			last := rm
			if a.freq != nil {
				last = add
			}
			if len(res) == 0 {
				c.R.Check(last != nil, "nothing-is-left-out", name, pos, "nothing is done and no error returned"+path)
				return
			}
			r := res[len(res)-1]
			if last == nil {
				n, k := st.errNil(r)
				if rm != nil && st.sameError(r, rm.res) {
					n2, k2 := st.errNil(rm.res)
					n, k = n2, k2
				}
				c.R.Check(k && !n || x.nonNil(r), "nothing-is-left-out", name, pos, "nothing is done although no error may be returned"+path)
				return
			}
			c.R.Check(st.sameError(r, last.res), "the-answer-is-returned", name, pos, "what is returned is not the answer of the dictionary: "+clip(r.String())+path)
		},
	})
	if ov {
		c.R.Fail("too-many-paths", name, pos, "the function has too many paths to decide")
	}
}

// joinedKey: the key of all words of a token, joined by a function that C28 decides.
func joinedKey(key, text *T) bool {
	k := stripConv(key)
	if k.op != "call" {
		return false
	}
	n := 0
	for _, a := range k.a {
		if a == text {
			n++
		}
	}
	return n == 1 && strings.HasPrefix(callName(k.s), modPath)
}

func (c *Ctx) deletes(x *E3, fn *ssa.Function) {
	name, pos := short(fn), c.Pos(fn.Pos())
	var tok *T
	for i, p := range fn.Params {
		if isNamed(p.Type(), modPath, "Token") {
			tok = x.paramT(fn, i)
		}
	}
	if tok == nil {
		c.R.Fail("anchor", name, pos, "takes no token")
		return
	}
	text := x.tt.mk("field", "text", nil, tok)
	if _, ptr := fn.Params[1].Type().Underlying().(*types.Pointer); ptr {
		text = nil
	}
	ov := x.Run(fn, &Hooks{Inline: keepOut(), Ret: func(st *St, res []*T) {
		path := "; the path: " + clip(litStrings(st.lits))
		var del *Ev
		for _, e := range st.trace {
			if e.kind == "call" && e.res != nil && isCedar(e.res, "Delete") {
				c.R.Check(del == nil && (text == nil || joinedKey(e.args[1], text)), "the-key-of-the-word", name, c.Pos(e.in.Pos()), "the key that is deleted is not that of all words of the token: "+clip(e.args[1].String())+path)
				del = e
			}
		}
		if len(res) != 1 {
			return
		}
		if del == nil {
			n, k := st.errNil(res[0])
			c.R.Check(k && !n || x.nonNil(res[0]) || isGlobalErr(res[0]), "nothing-is-left-out", name, pos, "no key is deleted and no error returned"+path)
			return
		}
		c.R.Check(st.sameError(res[0], del.res), "the-answer-is-returned", name, pos, "what is returned is not the answer of the trie"+path)
	}})
	if ov {
		c.R.Fail("too-many-paths", name, pos, "the function has too many paths to decide")
	}
	c.R.Unit("functions", 1)
}

// isGlobalErr: an error kept in a package variable.
func isGlobalErr(t *T) bool {
	return t.op == "load" && t.a[0].op == "global" || t.op == "global"
}
