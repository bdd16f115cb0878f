package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C29", checkFields) }

// lineField is one field of the record that an entry is read from.
type lineField struct {
	rec     string // identifies the record
	idx     int    // 0 the word, 1 the frequency, 2 the tag
	size    *T     // term for the number of fields, if known
	trimmed bool
	sepWhy  string
}

func mapKeyIdx(k string) int {
	switch k {
	case "text":
		return 0
	case "freq":
		return 1
	case "pos":
		return 2
	}
	return -1
}

// fieldOfLine recognizes the text of a field.
func (st *St) fieldOfLine(t *T) (f lineField, ok bool) {
	for {
		switch {
		case t.isCall("strings.TrimSpace") || t.isCall("bytes.TrimSpace"):
			f.trimmed = true
			t = t.a[0]
			continue
		case t.isCall("strings.Trim") || t.isCall("strings.TrimRight") || t.isCall("strings.TrimLeft") || t.isCall("strings.TrimSuffix"):
			if s, isc := t.a[1].strVal(); isc && strings.Trim(s, " \t\r\n") == "" {
				t = t.a[0]
				continue
			}
		case t.op == "conv" && len(t.a) == 1:
			t = t.a[0]
			continue
		}
		break
	}
	x := st.x
	switch {
	case t.op == "lookup":
		if k, isc := t.a[1].strVal(); isc && mapKeyIdx(k) >= 0 {
			f.rec, f.idx, f.trimmed = "map "+t.a[0].String(), mapKeyIdx(k), true
			f.size = x.lenOf(t.a[0])
			return f, true
		}
	case t.op == "ext":
		if cl, i := t.ext(); cl != nil && i == 0 && cl.op == "lookup" {
			g, ok := st.fieldOfLine(cl)
			g.trimmed = true
			return g, ok
		}
	case t.op == "filled":
		p := strings.LastIndex(t.s, "#")
		j, err := strconv.Atoi(t.s[p+1:])
		if err != nil {
			return f, false
		}
		site := t.s[:p]
		for _, e := range st.trace {
			if e.kind == "call" && strings.HasPrefix(e.name, "fmt.Fscan") && x.siteOf(e) == site {
				f.rec, f.idx, f.trimmed = "scan "+site, j, true
				if e.res != nil {
					f.size = x.comp(e.res, 0)
				}
				return f, true
			}
		}
	case t.op == "load" && t.a[0].op == "&index":
		arr, i := t.a[0].a[0], t.a[0].a[1]
		n, isc := i.intVal()
		if !isc {
			return f, false
		}
		switch {
		case arr.isCall("strings.Fields"):
			f.trimmed = true
		case arr.isCall("strings.Split"):
			f.sepWhy = st.goodSep(arr.a[1])
		case arr.isCall("strings.SplitN"):
			f.sepWhy = st.goodSep(arr.a[1])
			if k, isc := arr.a[2].intVal(); !isc || k >= 0 && k < 4 {
				f.sepWhy = "the number of fields is limited, the last one holds the rest of the line"
			}
		default:
			return f, false
		}
		f.rec, f.idx, f.size = "split "+arr.String(), int(n), x.lenOf(arr)
		return f, true
	}
	return f, false
}

// goodSep: the separator is the configured one followed by a space.
func (st *St) goodSep(sep *T) string {
	has := sep.has(func(t *T) bool { return isLoadOf(t, modPath, "Segmenter", "DictSep") })
	if !has {
		for a, v := range st.mem {
			if isFieldOf(a, modPath, "Segmenter", "DictSep") && sep.contains(v) {
				has = true
			}
		}
	}
	if !has {
		return "the line is not split at the separator of the segmenter"
	}
	if sep.op == "cat" {
		if s, isc := sep.a[len(sep.a)-1].strVal(); isc && s == " " {
			return ""
		}
	}
	return "the separator is not the configured one followed by a space: " + sep.String()
}

// fewer: the path knows that there are fewer than n fields.
func (st *St) fewer(size *T, n int64) bool {
	if size == nil {
		return false
	}
	return st.ltI(size, st.x.tt.int(n))
}

// wordsOf: the text that was split into the words of a token.
func wordsOf(t *T) *T {
	if t.op == "call" && strings.HasSuffix(callName(t.s), ".Segmenter).SplitTextToWords") && len(t.a) == 2 {
		u := t.a[1]
		for u.op == "conv" {
			u = u.a[0]
		}
		return u
	}
	return nil
}

// badEntry: what is wrong with the token that is added for a line.
func (st *St) badEntry(tok *T) string {
	if tok.op != "struct" {
		return "the token is not built here"
	}
	var freq, text, pos *T
	s := structOf(tok.typ)
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "freq":
			freq = tok.a[i]
		case "text":
			text = tok.a[i]
		case "pos":
			pos = tok.a[i]
		}
	}
	if freq == nil || text == nil || pos == nil {
		return "the token has no frequency, text or tag"
	}
	w := wordsOf(text)
	if w == nil {
		return "the words of the entry are not the split text of a field: " + clip(text.String())
	}
	ft, ok := st.fieldOfLine(w)
	if cl, _ := w.ext(); !ok && cl != nil && cl.op == "call" && strings.Contains(cl.s, modPath) {
		return "" // the function that takes the line apart has a loop: left open
	}
	switch {
	case !ok:
		return "the text of the entry is not a field of the line: " + clip(w.String())
	case ft.idx != 0:
		return fmt.Sprintf("the text of the entry is field %d of the line", ft.idx+1)
	case !ft.trimmed:
		return "the text of the entry keeps the white space around it"
	case ft.sepWhy != "":
		return ft.sepWhy
	}
	if p, isc := pos.strVal(); isc {
		if p != "" {
			return "the tag is the constant " + pos.String()
		}
		if !st.fewer(ft.size, 3) {
			return "the entry gets no tag although the line may have one"
		}
	} else {
		fp, ok := st.fieldOfLine(pos)
		switch {
		case !ok:
			return "the tag of the entry is not a field of the line: " + clip(pos.String())
		case fp.rec != ft.rec:
			return "the tag of the entry is from another line than the text"
		case fp.idx != 2:
			return fmt.Sprintf("the tag of the entry is field %d of the line", fp.idx+1)
		case !fp.trimmed:
			return "the tag of the entry keeps the white space around it"
		}
	}
	// the frequency
	var parse *T
	if cl, i := freq.ext(); cl != nil && i == 0 && cl.isCall("strconv.ParseFloat") {
		parse = cl
	} else if _, isc := freq.floatVal(); isc {
		for _, e := range st.trace {
			if e.kind == "call" && e.name == "strconv.ParseFloat" {
				parse = e.res
			}
		}
	}
	if parse == nil {
		return "the frequency is not a number that was parsed: " + clip(freq.String())
	}
	a := parse.a[0]
	if st.curField(a, "TextFreq") {
		if !st.fewer(ft.size, 2) {
			return "the frequency of the line may be ignored for the general one"
		}
		return ""
	}
	if c, isc := a.strVal(); isc && c != "" {
		// the default of TextFreq, set by Init on the way
		if !st.fewer(ft.size, 2) {
			return "the frequency is the constant " + a.String()
		}
		return ""
	}
	ff, ok := st.fieldOfLine(a)
	switch {
	case !ok:
		return "the frequency is not parsed from a field of the line: " + clip(a.String())
	case ff.rec != ft.rec:
		return "the frequency is from another line than the text"
	case ff.idx != 1:
		return fmt.Sprintf("the frequency of the entry is field %d of the line", ff.idx+1)
	}
	return ""
}

// curField: the value of a field of the segmenter, as far as it was set on the path.
func (st *St) curField(t *T, field string) bool {
	if isLoadOf(t, modPath, "Segmenter", field) {
		return true
	}
	for a, v := range st.mem {
		if v == t && isFieldOf(a, modPath, "Segmenter", field) {
			return true
		}
	}
	return false
}

// skipReason: why a line need not give an entry.
func (st *St) skipReason(lits []Lit) bool {
	x := st.x
	for _, e := range st.trace {
		if e.kind == "call" && e.name == "strconv.ParseFloat" && e.res != nil {
			if n, k := st.errNil(x.comp(e.res, 1)); k && !n {
				return true
			}
		}
	}
	isParsed := func(t *T) bool {
		cl, i := t.ext()
		return cl != nil && i == 0 && cl.isCall("strconv.ParseFloat")
	}
	size := func(t *T) bool {
		switch {
		case t.op == "len":
			a := t.a[0]
			return a.isCall("strings.Split") || a.isCall("strings.SplitN") || a.isCall("strings.Fields") || a.typ != nil && isMapType(a.typ)
		case t.op == "ext":
			cl, i := t.ext()
			return cl != nil && i == 0 && cl.op == "call" && strings.HasPrefix(callName(cl.s), "fmt.Fscan")
		}
		return false
	}
	noFreq := false
	for t, pol := range st.litm {
		if !pol && isLoadOf(t, modPath, "Segmenter", "LoadNoFreq") {
			noFreq = true
		}
	}
	for _, l := range lits {
		t := l.t
		switch {
		case (t.isCall("math.IsNaN") || t.isCall("math.IsInf")) && isParsed(t.a[0]) && l.pol:
			return true
		case t.op == "==" && isParsed(t.a[0]) && (l.pol && isZeroF(t.a[1]) || !l.pol && t.a[1] == t.a[0]):
			return true
		case t.op == "<" && isParsed(t.a[0]) && l.pol && (st.curField(t.a[1], "MinTokenFreq") || t.a[1].isConst()):
			return true
		case t.op == "<=" && isParsed(t.a[1]) && !l.pol && (st.curField(t.a[0], "MinTokenFreq") || t.a[0].isConst()):
			return true
		case t.op == "==" && l.pol && t.a[0].op == "len" && isIntZero(t.a[1]):
			if f, ok := st.fieldOfLine(t.a[0].a[0]); ok && f.idx == 0 {
				return true
			}
		}
		if len(t.a) == 2 {
			for _, a := range t.a {
				if size(a) && (st.fewer(a, 1) || noFreq && st.fewer(a, 2)) {
					return true
				}
			}
		}
	}
	return false
}

func isZeroF(t *T) bool {
	v, ok := t.floatVal()
	return ok && v == 0
}

func isIntZero(t *T) bool {
	v, ok := t.intVal()
	return ok && v == 0
}

func checkFields(c *Ctx) {
	c.R.Rule = "In every function that reads entries (parses a frequency and adds a token), each path to Dictionary.AddToken is examined: the words are the split first field of the record, without white space around it, the frequency is parsed from the second, the tag is the third field of the same record, or empty where there are fewer than three. A path that reads a record and adds no entry knows a reason: the frequency does not parse, is NaN, infinite, zero or below the minimum, there is none and LoadNoFreq is off, the word is empty, nothing was read, or the load returns an error."
	x := newE3(c.World)
	for _, fn := range c.roots() {
		ex := c.expanded(fn)
		if !usesCall(ex, "strconv.ParseFloat") || !usesCall(ex, addTokenName) || !hasLoopIn(ex) {
			continue
		}
		c.R.Unit("functions", 1)
		isRecord := func(e *Ev) bool {
			if e.kind != "call" {
				return false
			}
			switch {
			case strings.HasPrefix(e.name, "fmt.Fscan"):
				return true
			case (e.name == "strings.Split" || e.name == "strings.SplitN") && st0Sep(e):
				return true
			case e.name == "strings.Fields":
				return true
			}
			return false
		}
		end := func(st *St, nt, nl int, pos string, who string, res []*T) {
			added, rec := false, false
			for _, e := range st.trace[nt:] {
				if e.kind == "call" && e.name == addTokenName {
					added = true
				}
				if isRecord(e) {
					rec = true
				}
			}
			lits := st.lits[nl:]
			if res == nil { // the next round of a loop over maps
				for _, l := range lits {
					l.t.has(func(t *T) bool {
						if t.op == "lookup" {
							if k, isc := t.a[1].strVal(); isc && mapKeyIdx(k) >= 0 {
								rec = true
							}
						}
						return rec
					})
				}
			}
			if added || !rec {
				return
			}
			if res != nil && returnsError(st, res) {
				return
			}
			// the end of what is scanned
			for _, e := range st.trace[nt:] {
				if e.kind == "call" && strings.HasPrefix(e.name, "fmt.Fscan") && e.res != nil {
					if v, k := st.isEOF(x.comp(e.res, 1)); k && v {
						return
					}
				}
			}
			c.R.Check(st.skipReason(lits), "no-line-is-left-out", who, pos, "a line may be left out for no good reason; the path: "+clip(litStrings(lits)))
		}
		ov := x.Run(fn, &Hooks{
			Inline: keepOut(addTokenName),
			Event: func(st *St, e *Ev) {
				if e.kind != "call" || e.name != addTokenName {
					return
				}
				why := st.badEntry(e.args[1])
				c.R.Check(why == "", "fields-in-their-places", short(fn)+"|"+short(e.in.Parent()), c.Pos(e.in.Pos()), why+"; the path: "+clip(litStrings(st.lits)))
			},
			Back: func(st *St, l *LoopI, next []*T) {
				end(st, l.nt, l.nl, c.Pos(fn.Pos()), short(l.fn), nil)
			},
			Ret: func(st *St, res []*T) {
				if res == nil {
					res = []*T{}
				}
				end(st, 0, 0, c.Pos(fn.Pos()), short(fn), res)
			},
		})
		if ov {
			c.R.Fail("too-many-paths", short(fn), c.Pos(fn.Pos()), "the function has too many paths to decide")
		}
		c.R.Unit("paths", x.Paths)
		x.Paths = 0
	}
	c.R.AtLeast("fields-in-their-places", 3)
	c.R.AtLeast("no-line-is-left-out", 3)
}

// st0Sep: the call splits a line into its fields, not a text into its lines.
func st0Sep(e *Ev) bool {
	s, isc := e.args[1].strVal()
	return !isc || !strings.Contains(s, "\n")
}

func hasLoopIn(fs map[*ssa.Function]bool) bool {
	for f := range fs {
		if hasLoop(f) {
			return true
		}
	}
	return false
}

func isMapType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}
