package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C26", checkTags) }

// taggedType: a struct of the library with a text and a tag, both strings.
func taggedType(t types.Type) (text, tag, freq int) {
	text, tag, freq = -1, -1, -1
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !libPath(n.Obj().Pkg().Path()) {
		return
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case f.Name() == "Text" && isString(f.Type()):
			text = i
		case f.Name() == "Pos" && isString(f.Type()):
			tag = i
		case f.Name() == "Freq" && isFloat(f.Type()):
			freq = i
		}
	}
	return
}

// bare strips conversions between strings and byte slices.
func bare(t *T) *T {
	for t.op == "conv" && t.a[0].typ != nil && isBytesOrString(t.typ) && isBytesOrString(t.a[0].typ) {
		t = t.a[0]
	}
	return t
}

// ownTag decides whether a tag belongs to a text.
func (st *St) ownTag(text, tag *T) (bool, string) {
	if tag.op == "const" {
		return true, ""
	}
	if isLoadOf(tag, modPath, "Token", "pos") {
		entry := tag.a[0].a[0]
		if _, idx := entryOf(entry); idx != nil {
			if w, _, why := st.trieHit(idx); w != nil {
				if bare(w) == bare(text) {
					return true, ""
				}
				return false, "the tag is that of " + clip(w.String()) + ", the text is " + clip(text.String())
			} else if why != "" {
				return false, why
			}
		}
		own := text.has(func(t *T) bool { return isLoadOf(t, modPath, "Token", "text") && t.a[0].a[0] == entry })
		if own {
			return true, ""
		}
		return false, "the tag belongs to another token than the text"
	}
	// a struct that is passed by value
	if tag.op == "field" && tag.s == "pos" {
		if text.has(func(t *T) bool { return t.op == "field" && t.s == "text" && t.a[0] == tag.a[0] }) {
			return true, ""
		}
	}
	// both fields of one tagged word
	if same := samePart(text, tag); same {
		return true, ""
	}
	// a tag of the model
	if tag.has(func(t *T) bool {
		return t.op == "load" && t.a[0].op == "&index" && t.a[0].a[0].has(func(u *T) bool { return u.op == "global" })
	}) || tag.op == "field" || tag.op == "byteat" {
		if tag.has(func(t *T) bool { return t.op == "global" }) {
			return true, ""
		}
	}
	return false, "the tag is not fixed, not one of the model and not that of an entry found for the text: " + clip(tag.String())
}

// samePart: text and tag are the fields Text and Pos of the same value.
func samePart(text, tag *T) bool {
	if text.op == "field" && tag.op == "field" && text.s == "Text" && tag.s == "Pos" {
		return text.a[0] == tag.a[0]
	}
	if text.op == "load" && tag.op == "load" && text.a[0].op == "&field" && tag.a[0].op == "&field" && text.a[0].s == "Text" && tag.a[0].s == "Pos" {
		return text.a[0].a[0] == tag.a[0].a[0]
	}
	return false
}

func checkTags(c *Ctx) {
	c.R.Rule = "Every place of the library that makes a word with a tag is evaluated path by path: the tag is a constant, a value of the model's table, or the tag field of the entry whose index the trie returned without error for the very text that is emitted, or of the token the text is taken from."
	c.R.Assume = append(c.R.Assume, "The trie returns the value of the word it is asked for (C13, C42).")
	x := newE3(c.World)
	// functions that make tagged words themselves, and those they are expanded into
	makes := map[*ssa.Function]bool{}
	for _, fn := range c.libFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					if _, tag, _ := taggedType(derefType(fa.X.Type())); tag == fa.Field {
						makes[fn] = true
					}
				}
			}
		}
	}
	c.R.Unit("functions that make tagged words", len(makes))
	sites := map[ssa.Instruction]bool{}
	for _, fn := range c.roots() {
		hit := false
		for f := range c.expanded(fn) {
			hit = hit || makes[f]
		}
		if !hit {
			continue
		}
		c.R.Unit("functions", 1)
		judge := func(st *St, in ssa.Instruction, v *T) {
			if v.op != "struct" || v.typ == nil {
				return
			}
			ti, gi, fi := taggedType(v.typ)
			if ti < 0 || gi < 0 {
				return
			}
			sites[in] = true
			ok, why := st.ownTag(v.a[ti], v.a[gi])
			c.R.Check(ok, "tag-belongs-to-the-text", short(in.Parent()), c.Pos(in.Pos()), why+"; the path: "+clip(litStrings(st.lits)))
			if fi >= 0 {
				c.R.Check(ok && st.ownFreq(v.a[ti], v.a[fi]), "frequency-belongs-to-the-text", short(in.Parent()), c.Pos(in.Pos()), "the frequency is not that of the entry found for the text: "+clip(v.a[fi].String()))
			}
		}
		ov := x.Run(fn, &Hooks{
			Event: func(st *St, e *Ev) {
				switch e.kind {
				case "append":
					if e.args[1].op == "list" {
						for _, v := range e.args[1].a {
							judge(st, e.in, v)
						}
					}
				case "store":
					judge(st, e.in, e.args[1])
					a := e.args[0]
					if a.op == "&field" && (a.s == "Pos" || a.s == "Text") && !isFreshRoot(rootOf(a)) && a.a[0].typ != nil {
						if ti, gi, _ := taggedType(derefType(a.a[0].typ)); ti >= 0 && gi >= 0 {
							c.R.Fail("tagged-words-are-made-at-once", short(e.in.Parent()), c.Pos(e.in.Pos()), "text or tag of an existing word is changed")
						}
					}
				}
			},
			Ret: func(st *St, res []*T) {
				for _, r := range res {
					if r.op == "struct" && r.typ != nil {
						if ti, gi, _ := taggedType(r.typ); ti >= 0 && gi >= 0 {
							ok, why := st.ownTag(r.a[ti], r.a[gi])
							c.R.Check(ok, "tag-belongs-to-the-text", short(fn), c.Pos(fn.Pos()), why)
						}
					}
				}
			},
		})
		if ov {
			c.R.Fail("too-many-paths", short(fn), c.Pos(fn.Pos()), "the function has too many paths to decide")
		}
		c.R.Unit("paths", x.Paths)
		x.Paths = 0
	}
	c.R.Unit("sites", len(sites))
	c.R.AtLeast("tag-belongs-to-the-text", 4)
}

// ownFreq: the frequency is the one of the entry found for the text, or 0.
func (st *St) ownFreq(text, f *T) bool {
	if f.op == "const" {
		return true
	}
	if isLoadOf(f, modPath, "Token", "freq") {
		if _, idx := entryOf(f.a[0].a[0]); idx != nil {
			w, _, _ := st.trieHit(idx)
			return w != nil && bare(w) == bare(text)
		}
	}
	return false
}
