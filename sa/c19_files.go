package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C19: every file a library function opens is closed on every path.

func init() { register("C19", checkFiles) }

func isFileOpen(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil {
		return false
	}
	if f.Pkg.Pkg.Path() != "os" {
		return false
	}
	switch f.Name() {
	case "Open", "OpenFile", "Create", "CreateTemp", "NewFile", "OpenInRoot":
		return true
	}
	return false
}

type fileChecker struct {
	c       *Ctx
	openers map[*ssa.Function]int // functions returning an open file -> result index
	closers map[*ssa.Function]map[int]bool
}

func isOSFile(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "os" && n.Obj().Name() == "File"
}

func checkFiles(c *Ctx) {
	c.R.Rule = "typestate over the control-flow graph: from every call that opens a file, every path on which the open succeeded " +
		"reaches a close of that file (called, deferred, or done by a helper that closes its argument on every path) before the function returns or the file is opened again"
	fc := &fileChecker{c: c, openers: map[*ssa.Function]int{}, closers: map[*ssa.Function]map[int]bool{}}
	// helpers that hand out an open file are openers themselves
	for changed := true; changed; {
		changed = false
		for _, fn := range c.Funcs {
			if !c.Lib(fn) {
				continue
			}
			for _, call := range fc.opens(fn) {
				for v := range fc.aliases(fileValue(call)) {
					for _, r := range *v.Referrers() {
						if ret, ok := r.(*ssa.Return); ok {
							for i, x := range ret.Results {
								if x == v {
									if _, ok := fc.openers[fn]; !ok {
										fc.openers[fn] = i
										changed = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	n := 0
	for _, fn := range c.Funcs {
		if !c.Lib(fn) {
			continue
		}
		n++
		for _, call := range fc.opens(fn) {
			fc.check(fn, call)
		}
	}
	c.R.Unit("functions", n)
	c.R.AtLeast("file-closed", 1)
}

func (fc *fileChecker) opens(fn *ssa.Function) []*ssa.Call {
	var out []*ssa.Call
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			if isFileOpen(call.Common()) {
				out = append(out, call)
			} else if f := call.Common().StaticCallee(); f != nil {
				if _, ok := fc.openers[f]; ok {
					out = append(out, call)
				}
			}
		}
	}
	return out
}

// fileValue is the *os.File result of an opening call.
func fileValue(call *ssa.Call) ssa.Value {
	if isOSFile(call.Type()) {
		return call
	}
	for _, r := range *call.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && isOSFile(e.Type()) {
			return e
		}
	}
	return nil
}

func errValue(call *ssa.Call) ssa.Value {
	for _, r := range *call.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && types.Identical(e.Type(), types.Universe.Lookup("error").Type()) {
			return e
		}
	}
	return nil
}

// aliases of a value through copies, interfaces, phis and single-assignment cells.
func (fc *fileChecker) aliases(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	if v == nil {
		return out
	}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if out[v] {
			return
		}
		out[v] = true
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.MakeInterface:
				walk(r)
			case *ssa.ChangeInterface:
				walk(r)
			case *ssa.ChangeType:
				walk(r)
			case *ssa.Phi:
				walk(r)
			case *ssa.Store:
				if r.Val == v {
					if a, ok := r.Addr.(*ssa.Alloc); ok {
						for _, ar := range *a.Referrers() {
							if u, ok := ar.(*ssa.UnOp); ok && u.Op == token.MUL {
								walk(u)
							}
						}
					}
				}
			}
		}
	}
	walk(v)
	return out
}

// cells holding the value.
func cellsOf(al map[ssa.Value]bool) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	for v := range al {
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Val == v {
				if a, ok := s.Addr.(*ssa.Alloc); ok {
					out[a] = true
				}
			}
		}
	}
	return out
}

// closes reports whether a call (or deferred call) closes the file.
func (fc *fileChecker) closes(c *ssa.CallCommon, al, cells map[ssa.Value]bool) bool {
	if c.IsInvoke() {
		return c.Method.Name() == "Close" && al[c.Value]
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		fn := mc.Fn.(*ssa.Function)
		if fn.Name() == "Close$bound" || (fn.Synthetic != "" && len(mc.Bindings) == 1 && al[mc.Bindings[0]] && fn.Object() != nil && fn.Object().Name() == "Close") {
			return len(mc.Bindings) == 1 && al[mc.Bindings[0]]
		}
		for i, b := range mc.Bindings {
			if (al[b] || cells[b]) && fc.closesParam(fn, fn.FreeVars[i]) {
				return true
			}
		}
		for i, a := range c.Args {
			if al[a] && i < len(fn.Params) && fc.closesParam(fn, fn.Params[i]) {
				return true
			}
		}
		return false
	}
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if f.Name() == "Close" && f.Signature.Recv() != nil && len(c.Args) == 1 && al[c.Args[0]] {
		return true
	}
	if f.Blocks != nil && fc.c.InRepo(f) {
		for i, a := range c.Args {
			if al[a] && i < len(f.Params) && fc.closesParam(f, f.Params[i]) {
				return true
			}
		}
	}
	return false
}

// closesParam: the function closes the parameter (or the file in the captured cell) on every path.
func (fc *fileChecker) closesParam(fn *ssa.Function, p ssa.Value) bool {
	al := fc.aliases(p)
	cells := cellsOf(al)
	if _, ok := p.(*ssa.FreeVar); ok {
		cells[p] = true
		for _, r := range *p.Referrers() {
			if u, ok := r.(*ssa.UnOp); ok && u.Op == token.MUL {
				for a := range fc.aliases(u) {
					al[a] = true
				}
			}
		}
	}
	if len(fn.Blocks) == 0 {
		return false
	}
	_, bad := fc.walk(fn.Blocks[0], 0, al, cells, nil, nil, map[*ssa.BasicBlock]bool{})
	return bad == nil
}

// walk follows every path from (b,i); it returns the offending instruction if one path leaves without closing.
func (fc *fileChecker) walk(b *ssa.BasicBlock, i int, al, cells map[ssa.Value]bool, err ssa.Value, open *ssa.Call,
	seen map[*ssa.BasicBlock]bool) (string, ssa.Instruction) {
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Call:
			if in == open {
				return "is opened again", in
			}
			if fc.closes(in.Common(), al, cells) {
				return "", nil
			}
			if f := in.Common().StaticCallee(); f != nil && f.Pkg != nil && noReturn(f) {
				return "", nil
			}
		case *ssa.Defer:
			if fc.closes(in.Common(), al, cells) {
				return "", nil
			}
		case *ssa.Panic:
			return "", nil
		case *ssa.Return:
			for _, x := range in.Results {
				if al[x] {
					return "", nil // handed to the caller, who is checked
				}
			}
			return "is still open", in
		case *ssa.If:
			// follow only the branch on which the open succeeded
			br := []bool{true, true}
			if bo, ok := in.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				x, y := bo.X, bo.Y
				if isNilConst(x) {
					x, y = y, x
				}
				if isNilConst(y) {
					if err != nil && x == err {
						br[0], br[1] = bo.Op == token.EQL, bo.Op == token.NEQ
					} else if al[x] {
						br[0], br[1] = bo.Op == token.NEQ, bo.Op == token.EQL
					}
				}
			}
			for k, s := range b.Succs {
				if br[k] && !seen[s] {
					seen[s] = true
					if m, bad := fc.walk(s, 0, al, cells, err, open, seen); bad != nil {
						return m, bad
					}
				}
			}
			return "", nil
		}
	}
	for _, s := range b.Succs {
		if !seen[s] {
			seen[s] = true
			if m, bad := fc.walk(s, 0, al, cells, err, open, seen); bad != nil {
				return m, bad
			}
		}
	}
	return "", nil
}

func noReturn(f *ssa.Function) bool {
	switch f.Pkg.Pkg.Path() + "." + f.Name() {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		return true
	}
	return false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (fc *fileChecker) check(fn *ssa.Function, call *ssa.Call) {
	c := fc.c
	name := short(fn)
	pos := c.Pos(call.Pos())
	fv := fileValue(call)
	if fv == nil {
		c.R.Fail("file-closed", name, pos, "the opened file is dropped: it can never be closed")
		return
	}
	al := fc.aliases(fv)
	cells := cellsOf(al)
	idx := 0
	for i, in := range call.Block().Instrs {
		if in == ssa.Instruction(call) {
			idx = i + 1
		}
	}
	m, bad := fc.walk(call.Block(), idx, al, cells, errValue(call), call, map[*ssa.BasicBlock]bool{})
	if bad != nil {
		c.R.Fail("file-closed", name, pos, fmt.Sprintf("the file opened here %s at %s", m, c.Pos(bad.Pos())))
		return
	}
	c.R.OK("file-closed", name, pos)
}
