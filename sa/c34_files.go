package main

import (
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C34", checkNamed) }

// relOf: the directory a path is made of, and what follows it.
func relOf(t *T) (root *T, rel string) {
	if (t.isCall("path.Join") || t.isCall("path/filepath.Join")) && len(t.a) == 1 && t.a[0].op == "list" && len(t.a[0].a) > 0 {
		var s string
		root, s = relOf(t.a[0].a[0])
		parts := []string{s}
		for _, a := range t.a[0].a[1:] {
			c, isc := a.strVal()
			if !isc {
				return t, ""
			}
			parts = append(parts, c)
		}
		return root, path.Join(parts...)
	}
	return t, ""
}

// inData: a file of the data directory next to the source or the path that was set.
func inData(t *T) (rel string, ok bool) {
	root, rel := relOf(t)
	if !root.isCall("path.Dir") && !root.isCall("path/filepath.Dir") {
		return "", false
	}
	d := root.a[0]
	cl, i := d.ext()
	from := d.isCall("(*"+modPath+".Segmenter).GetCurrentFilePath") ||
		d.op == "load" && d.a[0].op == "&field" && d.a[0].s == "DictPath" ||
		cl != nil && i == 1 && cl.isCall("runtime.Caller")
	return rel, from
}

// truthFor: what a condition about a text is when the text is s.
func truthFor(t *T, is func(*T) bool, s string) tri {
	switch {
	case t.op == "==" && len(t.a) == 2:
		for i := range t.a {
			c, isc := t.a[1-i].strVal()
			if isc && is(t.a[i]) {
				return polTri(c == s)
			}
			if n, isn := t.a[1-i].intVal(); isn && t.a[i].op == "len" && is(t.a[i].a[0]) {
				return polTri(int64(len(s)) == n)
			}
			if isc && (t.a[i].isCall("path.Join") || t.a[i].isCall("path/filepath.Join")) {
				if _, rel := relOf(t.a[i]); rel != "" && strings.TrimSpace(c) == "" {
					return -1
				}
			}
			if n, isn := t.a[1-i].intVal(); isn && n == 0 && t.a[i].op == "len" {
				if _, rel := relOf(t.a[i].a[0]); rel != "" {
					return -1
				}
			}
		}
	case t.isCall("strings.Contains") && is(t.a[0]):
		if c, isc := t.a[1].strVal(); isc {
			return polTri(strings.Contains(s, c))
		}
	case t.isCall("strings.HasPrefix") && is(t.a[0]):
		if c, isc := t.a[1].strVal(); isc {
			return polTri(strings.HasPrefix(s, c))
		}
	}
	return 0
}

// other stands for every text that is not one of the names.
const other = "\x00other"

// possible: the conditions of the path do not rule out that the text is s.
func possible(lits []Lit, is func(*T) bool, s string) bool {
	for _, l := range lits {
		t := truthFor(l.t, is, s)
		if s == other && l.t.op != "==" {
			t = 0
		}
		if t == polTri(!l.pol) {
			return false
		}
	}
	return true
}

func checkNamed(c *Ctx) {
	c.R.Rule = "The functions that load dictionaries by name are evaluated path by path. A round over the names adds, for every name that the path allows, exactly the files this name stands for, in their order; the loader reads every file of that list once, in the list's order, or returns an error, and the two default files if no name is given; a file that is read is the one named; the stop word loader opens each file named; the loaders of the other packages hand the names on as they are; the embedded dictionary loaded is the one named; New switches AlphaNum on exactly when it is told to."
	c.R.Assume = append(c.R.Assume, "Packages path, os and bufio are as documented.")
	c.dictPaths()
	c.loadList()
	c.readFile()
	c.loadStops()
	c.handedOn()
	c.embedded()
	c.newSeg("New", "alpha")
	c.newSeg("NewEmbed", "alpha", "en")
	c.R.AtLeast("kept-and-dropped", 1)
	c.R.AtLeast("every-file-in-order", 2)
	c.R.AtLeast("the-file-named", 2)
	c.R.AtLeast("names-are-handed-on", 4)
	c.R.AtLeast("the-dictionary-named", 1)
	c.R.AtLeast("alphanum", 2)
}

// files that a name stands for, of the directory dict.
var namedFiles = map[string][]string{
	"en": {}, "ko": {}, "ti": {}, "": {}, " ": {},
	"ja": {"dict/jp/dict.txt"}, "jp": {"dict/jp/dict.txt"},
	"zh":   {"dict/zh/t_1.txt", "dict/zh/s_1.txt"},
	"zh_s": {"dict/zh/s_1.txt"}, "zh_t": {"dict/zh/t_1.txt"},
}

func (c *Ctx) dictPaths() {
	fn := c.Func(modPath, "DictPaths")
	if fn == nil || len(fn.Params) != 2 {
		c.R.Fail("anchor", "DictPaths", "", "not found")
		return
	}
	c.filter(fn, keepSpec{
		list: func(f *flt, t *T) bool { return t.isCall("strings.Split") && t.a[0] == f.x.paramT(fn, 1) },
		adds: func(f *flt, st *St, e elem, added []*T) string {
			if e.list == nil {
				return "the names are not walked"
			}
			names := f.x.paramT(fn, 1)
			sep, _ := e.list.a[1].strVal()
			wide := lit(st, func(t *T) bool {
				if t.isCall("strings.Contains") && t.a[0] == names {
					s, isc := t.a[1].strVal()
					return isc && s == ", "
				}
				return false
			})
			if !(wide == 1 && sep == ", " || wide == -1 && sep == ",") {
				return "the names are not separated by a comma and a space if there is one, and otherwise by a comma"
			}
			is := func(t *T) bool { return f.is(e, t, "") }
			for _, n := range append(sortedKeys(namedFiles), other) {
				if !possible(st.lits, is, n) {
					continue
				}
				want := namedFiles[n]
				if n == other {
					if len(added) != 1 || !is(added[0]) {
						return "the file of a name that stands for itself is not added"
					}
					continue
				}
				bad := "what is added for the name " + n + " is not what it stands for"
				if len(want) != len(added) {
					return bad
				}
				for i, a := range added {
					root, rel := relOf(a)
					if root != f.x.paramT(fn, 0) || rel != want[i] {
						return bad
					}
				}
			}
			return ""
		},
		done: func(f *flt, st *St, r *T) bool {
			// no dictionary for English
			names := f.x.paramT(fn, 1)
			return emptyT(f.x, r) && !possible(st.lits, func(t *T) bool { return t == names }, other) && only1(st.lits, func(t *T) bool { return t == names }, "en")
		},
	})
}

// only1: the path allows the text to be s, and none of the other names.
func only1(lits []Lit, is func(*T) bool, s string) bool {
	for n := range namedFiles {
		if possible(lits, is, n) != (n == s) {
			return false
		}
	}
	return true
}

func notAPI(st *St, g *ssa.Function) bool { return !isAPI(g) }

// loadList: every file of the list is read once, in order.
func (c *Ctx) loadList() {
	const rule = "every-file-in-order"
	fn := c.Method(modPath, "Segmenter", "LoadDict")
	if fn == nil {
		c.R.Fail("anchor", "LoadDict", "", "not found")
		return
	}
	const read = "(*" + modPath + ".Segmenter).Read"
	name, pos := short(fn), c.Pos(fn.Pos())
	f := &flt{c: c, fn: fn, memo: map[string]bool{}}
	reading := map[string]string{}
	for f.pass = 0; f.pass < 2; f.pass++ {
		x := newE3(c.World)
		f.x = x
		seg, files := x.paramT(fn, 0), x.paramT(fn, 1)
		first := func(t *T) bool {
			return t.op == "load" && t.a[0].op == "&index" && t.a[0].a[0] == files && isZero(t.a[0].a[1])
		}
		defaults := func(ts []*T) bool {
			if len(ts) != 2 {
				return false
			}
			a, ok := inData(ts[0])
			b, ok2 := inData(ts[1])
			return ok && ok2 && a == "data/dict/zh/s_1.txt" && b == "data/dict/zh/t_1.txt"
		}
		dataDir := func(t *T) bool { r, ok := inData(t); return ok && r == "data" }
		listed := func(t *T) bool { return t.isCall(modPath+".DictPaths") && dataDir(t.a[0]) && first(t.a[1]) }
		reads := func(evs []*Ev) (r []*T, own bool) {
			own = true
			for _, e := range evs {
				if e.kind == "call" && e.name == read {
					r = append(r, e.args[1])
					own = own && e.args[0] == seg
				}
			}
			return
		}
		x.Run(fn, &Hooks{
			Inline: notAPI,
			Back: func(st *St, l *LoopI, next []*T) {
				f.steps(st, l, next, nil)
				r, own := reads(st.trace[l.nt:])
				e, ok := f.walks(st, l)
				why := "ok"
				switch {
				case len(r) == 0 && (!ok || !listed(e.list)):
					return
				case !ok:
					why = "what is read in the loop is not known"
				case len(r) != 1 || !own || !f.is(e, r[0], ""):
					why = "a round does not read the file of this round, once: " + clip(litStrings(st.lits[l.nl:]))
				}
				if w := reading[l.id]; w == "" || w == "ok" {
					reading[l.id] = why
				}
			},
			Ret: func(st *St, res []*T) {
				if f.pass == 0 {
					return
				}
				if n, k := st.errNil(res[0]); k && !n {
					return
				}
				if res[0].isCall(read) {
					return // the last file
				}
				direct, own := reads(st.trace)
				none := st.le(x.lenOf(files), x.tt.int(0))
				var lists []*T
				for _, e := range st.trace {
					if e.kind != "exit" || reading[e.loop.id] == "" {
						continue
					}
					el, ok := f.walks(st, e.loop)
					if !ok {
						continue
					}
					c.R.Check(f.exhausted(st, e.loop), rule, name, pos, "the loop may stop before the last file")
					lists = append(lists, el.list)
				}
				ok := false
				switch {
				case !own:
				case none && len(lists) == 0:
					ok = defaults(direct)
				case none:
					ts, isl := x.explicit(st, lists[0])
					ok = len(lists) == 1 && len(direct) == 0 && isl && defaults(ts)
				case len(lists) == 1:
					ok = len(direct) == 0 && listed(lists[0])
				case len(lists) == 0 && len(direct) == 0:
					// the list is empty
					ok = lit(st, func(t *T) bool {
						return t.op == "==" && len(t.a) == 2 && isIntZero(t.a[1]) && t.a[0].op == "len" && listed(t.a[0].a[0])
					}) == 1
				}
				c.R.Check(ok, rule, name, pos, "the files read are not those that are named, or the defaults if none is; the path: "+clip(litStrings(st.lits)))
			},
		})
		c.R.Unit("paths", x.Paths)
	}
	for _, id := range sortedKeys(reading) {
		c.R.Check(reading[id] == "ok", rule, name, pos, reading[id])
	}
	// the directory
	g := c.Method(modPath, "Segmenter", "GetCurrentFilePath")
	if g == nil {
		c.R.Fail("anchor", "GetCurrentFilePath", "", "not found")
		return
	}
	x := newE3(c.World)
	x.Run(g, &Hooks{Ret: func(st *St, res []*T) {
		own := func(t *T) bool { return t.op == "load" && t.a[0].op == "&field" && t.a[0].s == "DictPath" }
		set := full(st, own)
		cl, i := res[0].ext()
		ok := set == 1 && own(res[0]) || set == -1 && cl != nil && i == 1 && cl.isCall("runtime.Caller")
		c.R.Check(ok, rule, short(g), c.Pos(g.Pos()), "the path is not DictPath if it is set, and otherwise that of the source; the path: "+clip(litStrings(st.lits)))
	}})
}

// readFile: the file that is read is the one named.
func (c *Ctx) readFile() {
	const rule = "the-file-named"
	fn := c.Method(modPath, "Segmenter", "Read")
	if fn == nil {
		c.R.Fail("anchor", "Read", "", "not found")
		return
	}
	x := newE3(c.World)
	x.Run(fn, &Hooks{Inline: notAPI, Ret: func(st *St, res []*T) {
		name, pos := short(fn), c.Pos(fn.Pos())
		if n, k := st.errNil(res[0]); k && !n {
			return
		}
		var opens, reads int
		ok := true
		for _, e := range st.trace {
			if e.kind != "call" {
				continue
			}
			switch {
			case strings.HasPrefix(e.name, "os.Open"):
				opens++
				ok = ok && e.args[0] == x.paramT(fn, 1)
			case e.name == "(*"+modPath+".Segmenter).Reader":
				reads++
				ok = ok && e.args[0] == x.paramT(fn, 0) && overOpened(e.args[1])
				ok = ok && (e.res == nil || st.sameError(res[0], e.res))
			}
		}
		c.R.Check(ok && opens == 1 && reads == 1, rule, name, pos, "not the file named is opened and read, once, and the error returned; the path: "+clip(litStrings(st.lits)))
	}})
	c.R.Unit("paths", x.Paths)
}

// overOpened: a reader over a file that was opened.
func overOpened(t *T) bool {
	if strings.HasPrefix(callName(t.s), "bufio.New") && t.op == "call" && len(t.a) > 0 {
		t = t.a[0]
	}
	for t.op == "iface" || t.op == "conv" || t.op == "mkiface" {
		t = t.a[0]
	}
	cl, i := t.ext()
	return cl != nil && i == 0 && strings.HasPrefix(callName(cl.s), "os.Open")
}

// loadStops: the stop word loader opens each file that is named.
func (c *Ctx) loadStops() {
	const rule = "the-file-named"
	fn := c.Method(modPath, "Segmenter", "LoadStop")
	if fn == nil {
		c.R.Fail("anchor", "LoadStop", "", "not found")
		return
	}
	name, pos := short(fn), c.Pos(fn.Pos())
	f := &flt{c: c, fn: fn, memo: map[string]bool{}}
	const tokens, words = "data/dict/zh/stop_tokens.txt", "data/dict/zh/stop_word.txt"
	for f.pass = 0; f.pass < 2; f.pass++ {
		x := newE3(c.World)
		f.x = x
		files := x.paramT(fn, 1)
		names := func(st *St, l *T) string {
			none := st.le(x.lenOf(files), x.tt.int(0))
			one := func(t *T) bool {
				if none {
					r, ok := inData(t)
					return ok && r == words
				}
				return t.op == "load" && t.a[0].op == "&index" && t.a[0].a[0] == files && isZero(t.a[0].a[1])
			}
			if ts, ok := x.explicit(st, l); ok && none && len(ts) == 1 && one(ts[0]) {
				return ""
			}
			if !l.isCall("strings.Split") {
				return "what is walked is not the list of names"
			}
			if s, isc := l.a[1].strVal(); !isc || s != ", " {
				return "the names are not separated by a comma and a space"
			}
			if !one(l.a[0]) {
				return "the names are not those that were given, or the default if none were"
			}
			return ""
		}
		x.Run(fn, &Hooks{
			Inline: notAPI,
			Back: func(st *St, l *LoopI, next []*T) {
				f.steps(st, l, next, nil)
				if f.pass == 0 {
					return
				}
				e, ok := f.walks(st, l)
				var opens []*Ev
				scans := 0
				for _, ev := range st.trace[l.nt:] {
					if ev.kind != "call" {
						continue
					}
					if strings.HasPrefix(ev.name, "os.Open") {
						opens = append(opens, ev)
					}
					if ev.name == "bufio.NewScanner" || strings.HasPrefix(ev.name, "bufio.NewReader") {
						if overOpened(ev.args[0]) {
							scans++
						}
					}
				}
				if len(opens) == 0 && (!ok || l.outer != nil) {
					return
				}
				why := func() string {
					if !ok || e.list == nil {
						return "what the loop walks is not known"
					}
					if w := names(st, e.list); w != "" {
						return w
					}
					if len(opens) != 1 || scans != 1 {
						return "a round does not open one file and read it"
					}
					arg := opens[0].args[0]
					zh := func(t *T) bool { s, ok := t.strVal(); return ok && s == "zh" }
					first := func(t *T) bool {
						return t.op == "load" && t.a[0].op == "&index" && t.a[0].a[0] == e.list && isZero(t.a[0].a[1])
					}
					asked := lit(st, func(t *T) bool {
						return t.op == "==" && len(t.a) == 2 && (zh(t.a[1]) && first(t.a[0]) || zh(t.a[0]) && first(t.a[1]))
					})
					here := lit(st, func(t *T) bool {
						return t.op == "==" && len(t.a) == 2 && (zh(t.a[1]) && f.is(e, t.a[0], "") || zh(t.a[0]) && f.is(e, t.a[1], ""))
					})
					stored := false
					for _, ev := range st.trace {
						if ev.kind == "store" && ev.args[0].op == "&index" && ev.args[0].a[0] == e.list {
							r, ok := inData(ev.args[1])
							if !isZero(ev.args[0].a[1]) || !ok || r != tokens || asked != 1 {
								return "a name is replaced that is not zh, or by another file than that of zh"
							}
							stored = true
						}
					}
					if f.is(e, arg, "") {
						split := e.list.isCall("strings.Split")
						if !split || stored || asked == -1 || here == -1 || f.firstOne(st, e) == -1 {
							return ""
						}
						return "the name zh at the front does not stand for its file"
					}
					if r, ok := inData(arg); ok && r == tokens && here == 1 && f.firstOne(st, e) == 1 {
						return ""
					}
					return "the file that is opened is not the one named: " + clip(arg.String())
				}()
				c.R.Check(why == "", rule, name, pos, why+"; the path: "+clip(litStrings(st.lits)))
			},
		})
		c.R.Unit("paths", x.Paths)
	}
}

// onlyFiles: the function takes file names and nothing else.
func onlyFiles(fn *ssa.Function) bool {
	sig := fn.Signature
	n := len(fn.Params)
	if !sig.Variadic() || n == 0 || !isStringSlice(fn.Params[n-1].Type()) {
		return false
	}
	return n == 1 && sig.Recv() == nil || n == 2 && sig.Recv() != nil
}

// handedOn: a loader that uses another one hands the names on.
func (c *Ctx) handedOn() {
	const rule = "names-are-handed-on"
	for _, fn := range c.libFuncs() {
		if !isAPI(fn) || !onlyFiles(fn) {
			continue
		}
		load := false
		for g := range c.expanded(fn) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if h := ci.Common().StaticCallee(); h != nil && h != fn && isAPI(h) && c.InRepo(h) && onlyFiles(h) && strings.HasPrefix(h.Name(), "Load") {
							load = true
						}
					}
				}
			}
		}
		if !load || fn.Signature.Results().Len() == 0 {
			continue
		}
		c.R.Unit("functions", 1)
		x := newE3(c.World)
		files := x.paramT(fn, len(fn.Params)-1)
		name, pos := short(fn), c.Pos(fn.Pos())
		x.Run(fn, &Hooks{Inline: notAPI, Ret: func(st *St, res []*T) {
			if len(res) > 0 && returnsError(st, res) {
				return
			}
			n := 0
			for _, e := range st.trace {
				if e.kind != "call" || e.in == nil {
					continue
				}
				ci, ok := e.in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || !isAPI(g) || !c.InRepo(g) || !onlyFiles(g) || !strings.HasPrefix(g.Name(), "Load") {
					continue
				}
				n++
				arg := e.args[len(e.args)-1]
				ok = arg == files
				none := st.le(x.lenOf(files), x.tt.int(0))
				if none {
					ok = ok || emptyT(x, arg) || arg.isCall("(*"+modPath+".Segmenter).GetIdfPath")
				}
				if strings.HasSuffix(fn.Pkg.Pkg.Path(), "/idf") && fn.Signature.Recv() != nil && isNamed(derefType(fn.Signature.Recv().Type()), fn.Pkg.Pkg.Path(), "Idf") && none {
					ok = ok && !emptyT(x, arg) && arg != files
				}
				c.R.Check(ok, rule, name, c.Pos(e.in.Pos()), "the names handed on are not those that were given: "+clip(arg.String()))
			}
			c.R.Check(n == 1, rule, name, pos, "the names are handed on "+fmtInt(n)+" times; the path: "+clip(litStrings(st.lits)))
		}})
		c.R.Unit("paths", x.Paths)
	}
	fn := c.Method(modPath, "Segmenter", "GetIdfPath")
	if fn == nil {
		return
	}
	x := newE3(c.World)
	files := x.paramT(fn, 1)
	x.Run(fn, &Hooks{Inline: notAPI, Ret: func(st *St, res []*T) {
		r := res[0]
		ok := false
		if ts, isl := x.explicit(st, r); isl && len(ts) == 1 {
			rel, in := inData(ts[0])
			ok = in && rel == "data/dict/zh/idf.txt" && st.le(x.lenOf(files), x.tt.int(0))
		} else if r.op == "append" && r.a[1].op == "list" && len(r.a[1].a) == 1 {
			rel, in := inData(r.a[1].a[0])
			p := r.a[0]
			front := p == files || p.op == "append" && p.a[1] == files && emptyT(x, p.a[0])
			ok = in && rel == "data/dict/zh/idf.txt" && front
		}
		c.R.Check(ok, "the-file-named", short(fn), c.Pos(fn.Pos()), "not the names given and the table of the data directory: "+clip(r.String()))
	}})
}

// embedded: the dictionary loaded is the one named.
func (c *Ctx) embedded() {
	const rule = "the-dictionary-named"
	fn := c.Method(modPath, "Segmenter", "LoadDictEmbed")
	if fn == nil {
		c.R.Fail("anchor", "LoadDictEmbed", "", "not found")
		return
	}
	want := map[string]string{"ja": "ja", "zh": "zhS zhT", "zh_s": "zhS", "zh_t": "zhT"}
	x := newE3(c.World)
	dict := x.paramT(fn, 1)
	name, pos := short(fn), c.Pos(fn.Pos())
	is := func(t *T) bool {
		return t.op == "load" && t.a[0].op == "&index" && t.a[0].a[0] == dict && isZero(t.a[0].a[1])
	}
	x.Run(fn, &Hooks{Inline: notAPI, Ret: func(st *St, res []*T) {
		for _, l := range st.lits {
			if l.pol && l.t.isCall("strings.Contains") && is(l.t.a[0]) {
				if s, isc := l.t.a[1].strVal(); isc && s == ", " {
					return // several parts
				}
			}
		}
		var given []*T
		for _, e := range st.trace {
			if e.kind == "call" && e.name == "(*"+modPath+".Segmenter).LoadDictStr" {
				given = append(given, e.args[1])
			}
		}
		if len(given) != 1 {
			c.R.Fail(rule, name, pos, "not one dictionary is loaded; the path: "+clip(litStrings(st.lits)))
			return
		}
		loaded := ""
		for _, t := range flatten(given) {
			s := t.String()
			if !strings.HasPrefix(s, "gse.") {
				loaded = "?"
				break
			}
			loaded += " " + strings.TrimPrefix(s, "gse.")
		}
		loaded = strings.TrimSpace(loaded)
		where := "the dictionary loaded is not the one named: " + clip(given[0].String()) + "; the path: " + clip(litStrings(st.lits))
		if st.le(x.lenOf(dict), x.tt.int(0)) {
			c.R.Check(loaded == want["zh"], rule, name, pos, where)
			return
		}
		for _, n := range sortedKeys(want) {
			if possible(st.lits, is, n) {
				c.R.Check(loaded == want[n], rule, name, pos, where)
			}
		}
		if possible(st.lits, is, other) {
			c.R.Check(is(given[0]), rule, name, pos, where)
		}
	}})
	c.R.Unit("paths", x.Paths)
}

// newSeg: the names are loaded, and AlphaNum is on exactly when it is asked for.
func (c *Ctx) newSeg(n string, modes ...string) {
	const rule = "alphanum"
	fn := c.Func(modPath, n)
	if fn == nil || len(fn.Params) != 1 {
		return
	}
	x := newE3(c.World)
	files := x.paramT(fn, 0)
	name, pos := short(fn), c.Pos(fn.Pos())
	second := func(t *T) bool {
		if t.op != "load" || t.a[0].op != "&index" || t.a[0].a[0] != files {
			return false
		}
		i, isc := t.a[0].a[1].intVal()
		return isc && i == 1
	}
	x.Run(fn, &Hooks{Inline: notAPI, Ret: func(st *St, res []*T) {
		on := tri(-1)
		for _, e := range st.trace {
			if e.kind == "store" && e.args[0].op == "&field" && e.args[0].s == "AlphaNum" {
				v, isc := e.args[1].boolVal()
				if isc {
					on = polTri(v)
					continue
				}
				// the comparison itself
				on = 0
				same := true
				for _, m := range append(sortedKeys(namedFiles), "alpha", other) {
					same = same && truthFor(e.args[1], second, m) == polTri(contains(modes, m))
				}
				if same {
					c.R.OK(rule, name, pos)
					return
				}
			}
		}
		asked := tri(0)
		if !possible(st.lits, second, other) {
			asked = 1
			for _, m := range append(sortedKeys(namedFiles), "alpha") {
				if possible(st.lits, second, m) && !contains(modes, m) {
					asked = 0
				}
			}
		}
		no := st.le(x.lenOf(files), x.tt.int(1))
		if !no {
			no = true
			for _, m := range modes {
				no = no && !possible(st.lits, second, m)
			}
		}
		if no {
			asked = -1
		}
		c.R.Check(on != 0 && on == asked, rule, name, pos, "AlphaNum is not on exactly when the second name asks for it; the path: "+clip(litStrings(st.lits)))
	}})
	c.R.Unit("paths", x.Paths)
}

func contains(ss []string, s string) bool {
	for _, t := range ss {
		if t == s {
			return true
		}
	}
	return false
}
