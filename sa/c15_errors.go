package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { register("C15", checkErrors) }

// kinds of calls that read something that may fail
const (
	readNone = iota
	readHard // an error means that the load failed
	readLine // an error may just be a malformed line or the end
	readScan // false may mean an error
)

func readKind(name string) int {
	switch name {
	case "os.Open", "os.OpenFile", "os.ReadFile", "io.ReadAll", "io/ioutil.ReadAll", "io/ioutil.ReadFile", "io.Copy", "io.ReadFull", "(*bufio.Scanner).Err", "(*os.File).Read", "(*os.File).Stat",
		"(*encoding/csv.Reader).ReadAll", "(*os.File).Seek":
		return readHard
	case "fmt.Fscanln", "fmt.Fscan", "fmt.Fscanf", "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadLine", "(*bufio.Reader).ReadSlice", "(*bufio.Reader).ReadRune", "(*bufio.Reader).ReadByte", "(*bufio.Reader).Read":
		return readLine
	case "(*bufio.Scanner).Scan":
		return readScan
	}
	return readNone
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

// errResult is the index of the error among the results, or -1.
func errResult(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && isErrorType(sig.Results().At(n-1).Type()) {
		return n - 1
	}
	return -1
}

func checkErrors(c *Ctx) {
	c.R.Rule = "In every function from which a file or reader is read, each path is examined: an error of an open or of a nested load is known to be nil when the path goes on to the next iteration or returns nil; an error of reading a line is followed, before going on, by a test of the reader that excludes all errors but the end; a path that goes on at the end of the input has consumed something; a loop that ends because a scanner stopped is followed by a look at the scanner's error."
	c.R.Assume = append(c.R.Assume, "A reader at its end answers io.EOF again; a reader whose Peek succeeds hands out at least one byte to the next read.")
	// functions that read, transitively
	reads := map[*ssa.Function]bool{}
	callees := map[*ssa.Function][]*ssa.Function{}
	fns := c.libFuncs()
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						if readKind(g.RelString(nil)) != readNone {
							reads[fn] = true
						}
						callees[fn] = append(callees[fn], g)
					}
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range fns {
			if reads[fn] {
				continue
			}
			for _, g := range callees[fn] {
				if reads[g] {
					reads[fn], ch = true, true
				}
			}
		}
	}
	x := newE3(c.World)
	for _, fn := range fns {
		if !reads[fn] || fn.Parent() != nil {
			continue
		}
		// functions that are expanded into others are judged there, exported ones on their own too
		if !hasLoop(fn) && !isAPI(fn) && len(c.callers()[fn]) > 0 {
			continue
		}
		c.R.Unit("functions", 1)
		pos := c.Pos(fn.Pos())
		judge := func(st *St, evs []*Ev, res []*T, ret bool) {
			for i, e := range evs {
				if e.kind != "call" {
					continue
				}
				ci, ok := e.in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				kind := readKind(e.name)
				g := ci.Common().StaticCallee()
				if kind == readNone {
					if g == nil || !reads[g] {
						continue
					}
					kind = readHard
				}
				if e.res == nil {
					continue
				}
				ep := c.Pos(e.in.Pos())
				who := short(e.fn) + "|" + e.name
				if kind == readScan {
					v, k := st.litVal(e.res)
					if !ret || k && v {
						continue
					}
					good := false
					for _, f := range evs[i:] {
						if f.kind == "call" && f.name == "(*bufio.Scanner).Err" && f.args[0] == e.args[0] {
							good = true // its error is judged as a call of its own
						}
					}
					good = good || returnsError(st, res)
					c.R.Check(good, "the-scanner's-error-is-looked-at", who, ep, "the loop may have ended with an error that nobody looks at")
					continue
				}
				ei := errResult(ci.Common().Signature())
				if ei < 0 {
					continue // a nested load without an error result is judged by itself
				}
				err := e.res
				if ci.Common().Signature().Results().Len() > 1 {
					err = x.comp(e.res, ei)
				}
				isNil, known := st.errNil(err)
				if known && isNil {
					c.R.OK("errors-are-reported", who, ep)
					continue
				}
				if ret && len(res) > 0 {
					r := res[len(res)-1]
					if r == err || known && returnsError(st, res) || wraps(r, err) {
						c.R.OK("errors-are-reported", who, ep)
						continue
					}
				}
				if kind == readHard {
					what := "the function returns"
					if !ret {
						what = "the loop goes on"
					}
					if ret && errResult(fn.Signature) < 0 {
						what = "the function, which has no way to report it, returns"
					}
					c.R.Fail("errors-are-reported", who, ep, what+" although this call may have failed; the path: "+clip(litStrings(st.lits)))
					continue
				}
				// a line that could not be read
				atEnd, ek := st.isEOF(err)
				probed := false
				for _, f := range evs[i:] {
					if f.kind != "call" || f.res == nil || f.name != "(*bufio.Reader).Peek" {
						continue
					}
					pe := x.comp(f.res, 1)
					if n, k := st.errNil(pe); k && n {
						probed = true
					}
					if n, k := st.isEOF(pe); k && n {
						probed = true
					}
				}
				end := ek && atEnd
				if ret {
					c.R.Check(probed || end, "errors-are-reported", who, ep, "the function returns without an error although the reader may be broken; the path: "+clip(litStrings(st.lits)))
					continue
				}
				c.R.Check(probed, "a-broken-reader-ends-the-loop", who, ep, "the loop goes on although the reader may be broken, and would fail in the same way forever; the path: "+clip(litStrings(st.lits)))
				if !ek || atEnd {
					c.R.Check(st.consumed(e), "the-end-ends-the-loop", who, ep, "the loop goes on although the end may be reached and nothing was read; the path: "+clip(litStrings(st.lits)))
				}
			}
		}
		ov := x.Run(fn, &Hooks{
			Back: func(st *St, l *LoopI, next []*T) { judge(st, st.trace[l.nt:], nil, false) },
			Ret:  func(st *St, res []*T) { judge(st, st.trace, res, true) },
		})
		if ov {
			c.R.Fail("too-many-paths", short(fn), pos, "the function has too many paths to decide")
		}
		c.R.Unit("paths", x.Paths)
		x.Paths = 0
	}
	c.R.AtLeast("errors-are-reported", 5)
	c.R.AtLeast("a-broken-reader-ends-the-loop", 1)
	c.R.AtLeast("the-scanner's-error-is-looked-at", 1)
}

// isEOF: what the path knows about an error being io.EOF.
func (st *St) isEOF(err *T) (v, known bool) {
	if n, k := st.errNil(err); k && n {
		return false, true
	}
	for t, pol := range st.litm {
		if t.op == "==" && (t.a[0] == err && isEOFValue(t.a[1]) || t.a[1] == err && isEOFValue(t.a[0])) {
			return pol, true
		}
		if t.isCall("errors.Is") && t.a[0] == err && isEOFValue(t.a[1]) {
			return pol, true
		}
	}
	return false, false
}

func isEOFValue(t *T) bool {
	return t.op == "load" && t.a[0].op == "global" && t.a[0].s == "io.EOF"
}

// returnsError: the path is known to return an error.
func returnsError(st *St, res []*T) bool {
	if len(res) == 0 {
		return false
	}
	r := res[len(res)-1]
	if r.isCall("fmt.Errorf") || r.isCall("errors.New") {
		return true
	}
	if r.op == "iface" {
		return true
	}
	n, k := st.errNil(r)
	return k && !n
}

// wraps: r is an error made from err.
func wraps(r, err *T) bool {
	return (r.isCall("errors.Join") || r.isCall("errors.Unwrap")) && r.contains(err)
}

// consumed: the path knows that the call has read something.
func (st *St) consumed(e *Ev) bool {
	site := st.x.siteOf(e)
	from := func(t *T) bool {
		return t.has(func(u *T) bool {
			return u == e.res || u.op == "filled" && site != "" && strings.HasPrefix(u.s, site+"#")
		})
	}
	for _, l := range st.lits {
		if !from(l.t) {
			continue
		}
		if l.t.op == "==" && !l.pol && l.t.a[0].op == "len" {
			if n, ok := l.t.a[1].intVal(); ok && n == 0 {
				return true
			}
		}
		if l.t.op == "<" && l.pol && (l.t.a[1].op == "len" || l.t.a[1].op == "ext") {
			if n, ok := l.t.a[0].intVal(); ok && n >= 0 {
				return true
			}
		}
	}
	return false
}

// siteOf names the place of a call as the cells it fills do.
func (x *E3) siteOf(e *Ev) string {
	if e.res == nil {
		return ""
	}
	if i := strings.IndexByte(e.res.s, '@'); i >= 0 {
		return e.res.s[i+1:]
	}
	return ""
}
