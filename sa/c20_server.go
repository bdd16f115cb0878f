package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: concurrent requests to the server never touch the shared segmenter without its lock.

func init() { register("C20", checkServer) }

const serverPath = modPath + "/tools/server"

// closureVal is a function with the values of its captured variables and parameters.
type closureVal struct {
	fn  *ssa.Function
	env map[ssa.Value]closureVal // function-valued parameters and captured variables
}

type lockset map[string]byte // mutex -> 'R' or 'W'

func (l lockset) clone() lockset {
	o := lockset{}
	for k, v := range l {
		o[k] = v
	}
	return o
}

func meet(a, b lockset) lockset {
	o := lockset{}
	for k, v := range a {
		if w, ok := b[k]; ok {
			if v == 'R' || w == 'R' {
				o[k] = 'R'
			} else {
				o[k] = 'W'
			}
		}
	}
	return o
}

func sameLocks(a, b lockset) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

// lockState is what is known about the mutexes at a point: those surely held, those possibly
// held, and those whose release is surely deferred in the function.
type lockState struct {
	must, may lockset
	open      lockset // possibly held with no release deferred
	deferred  map[string]bool
}

func newLockState() lockState {
	return lockState{must: lockset{}, may: lockset{}, open: lockset{}, deferred: map[string]bool{}}
}

func (s lockState) clone() lockState {
	o := lockState{must: s.must.clone(), may: s.may.clone(), open: s.open.clone(), deferred: map[string]bool{}}
	for k := range s.deferred {
		o.deferred[k] = true
	}
	return o
}

func meetState(a, b lockState) lockState {
	o := lockState{must: meet(a.must, b.must), may: a.may.clone(), open: a.open.clone(), deferred: map[string]bool{}}
	for k, v := range b.may {
		if o.may[k] != 'W' {
			o.may[k] = v
		}
	}
	for k, v := range b.open {
		if o.open[k] != 'W' {
			o.open[k] = v
		}
	}
	for k := range a.deferred {
		if b.deferred[k] {
			o.deferred[k] = true
		}
	}
	return o
}

func sameState(a, b lockState) bool {
	if !sameLocks(a.must, b.must) || !sameLocks(a.may, b.may) || !sameLocks(a.open, b.open) || len(a.deferred) != len(b.deferred) {
		return false
	}
	for k := range a.deferred {
		if !b.deferred[k] {
			return false
		}
	}
	return true
}

type access struct {
	write   bool
	locks   lockset
	pos     string
	handler string
	what    string
}

type serverCheck struct {
	c     *Ctx
	e     *E2
	acc   map[*ssa.Global][]access
	depth int
	cur   string
	n     int
}

func isHandlerSig(s *types.Signature) bool {
	p := s.Params()
	if p.Len() != 2 {
		return false
	}
	return strings.HasSuffix(p.At(0).Type().String(), "net/http.ResponseWriter") &&
		strings.HasSuffix(p.At(1).Type().String(), "net/http.Request")
}

func checkServer(c *Ctx) {
	c.R.Rule = "lockset analysis of the HTTP server: from every registered request handler, each read of memory reached from a package variable that some handler writes " +
		"(through the interprocedural effect summaries of the library) happens with a common mutex held, and each write with it held exclusively (goroutines, and what main does once it serves, count as requests that hold nothing of the others); " +
		"every mutex is released at every return of a request, by a deferred call where an instruction of the server may panic while it is held, and is not taken again by the request that holds it"
	pkg := c.SSA[serverPath]
	if pkg == nil {
		c.R.Fail("anchor", "server", "", "package "+serverPath+" not found")
		return
	}
	sc := &serverCheck{c: c, e: runE2(c.World), acc: map[*ssa.Global][]access{}}
	// roots: functions handed to net/http, else everything with the shape of a handler
	var roots []closureVal
	unresolved := false
	for _, fn := range c.Funcs {
		if fn.Pkg != pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := ci.Common().StaticCallee()
				if f == nil || f.Object() == nil || f.Object().Pkg() == nil || f.Object().Pkg().Path() != "net/http" {
					continue
				}
				for _, a := range ci.Common().Args {
					v := a
					if mi, ok := v.(*ssa.MakeInterface); ok {
						v = mi.X
					}
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
					}
					sig, ok := v.Type().Underlying().(*types.Signature)
					if !ok || !isHandlerSig(sig) {
						continue
					}
					cl, ok := sc.eval(v, nil, 0)
					if !ok {
						unresolved = true
						continue
					}
					if cl.fn.Blocks != nil {
						roots = append(roots, cl)
					}
				}
			}
		}
	}
	if unresolved || len(roots) == 0 {
		for _, fn := range c.Funcs {
			if fn.Pkg == pkg && isHandlerSig(fn.Signature) {
				roots = append(roots, closureVal{fn: fn})
			}
		}
	}
	c.R.Check(len(roots) >= 2, "handler-found", "server", "", fmt.Sprintf("%d request handlers found, the server has at least 2", len(roots)))
	for _, r := range roots {
		sc.cur = short(r.fn)
		c.R.OK("handler-analysed", sc.cur, c.Pos(r.fn.Pos()))
		out := sc.walk(r, nil, newLockState())
		left := ""
		for m := range out.may {
			left = m
		}
		c.R.Check(left == "", "released", sc.cur, c.Pos(r.fn.Pos()), left+" may still be held when the request ends")
	}
	sc.others(pkg)
	var gs []*ssa.Global
	for g := range sc.acc {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
	shared := 0
	for _, g := range gs {
		written := false
		for _, a := range sc.acc[g] {
			written = written || a.write
		}
		if !written || isSyncType(g.Type()) {
			continue
		}
		shared++
		// a mutex held in every access, exclusively in every write
		common := map[string]bool{}
		for i, a := range sc.acc[g] {
			if i == 0 {
				for k := range a.locks {
					common[k] = true
				}
			}
			for k := range common {
				if _, ok := a.locks[k]; !ok {
					delete(common, k)
				}
			}
		}
		for _, a := range sc.acc[g] {
			name := a.handler + " " + g.Name()
			held := ""
			for k, m := range a.locks {
				if m == 'W' || !a.write {
					held = k
				}
			}
			kind := "reads"
			if a.write {
				kind = "writes"
			}
			c.R.Check(held != "", "shared-state-locked", name, a.pos, fmt.Sprintf("%s %s (%s) while other requests change it, without holding a lock that excludes them", kind, g.Name(), a.what))
		}
		var ks []string
		for k := range common {
			ks = append(ks, k)
		}
		c.R.Check(len(ks) > 0, "one-lock", g.Name(), c.Pos(g.Pos()), "no single mutex protects every access")
	}
	c.R.Unit("accesses", sc.n)
	c.R.Unit("shared variables", shared)
	c.R.Check(shared > 0, "shared-found", "server", "", "no package variable written by a handler was found")
}

// others: what the program does beside the requests, in goroutines and once it serves them.
func (sc *serverCheck) others(pkg *ssa.Package) {
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || fn.Blocks == nil || fn.Pkg != pkg || seen[fn] {
			return
		}
		seen[fn] = true
		sc.cur = short(fn)
		// blocks that a started goroutine may precede
		var work []*ssa.BasicBlock
		after := map[*ssa.BasicBlock]bool{}
		in := map[*ssa.BasicBlock]int{}
		for _, b := range fn.Blocks {
			for i, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, ok := ins.(*ssa.Go); ok {
					sc.instr(fn, closureVal{fn: fn}, nil, ins, newLockState(), true)
					if sc.serves(fn, ci.Common()) {
						if _, ok := in[b]; !ok {
							in[b] = i
						}
						work = append(work, b.Succs...)
					}
					continue
				}
				if f := ci.Common().StaticCallee(); f != nil {
					visit(f)
					sc.cur = short(fn)
				}
			}
		}
		for len(work) > 0 {
			b := work[0]
			work = work[1:]
			if !after[b] {
				after[b] = true
				work = append(work, b.Succs...)
			}
		}
		for _, b := range fn.Blocks {
			from, ok := in[b]
			if !ok && !after[b] {
				continue
			}
			l := newLockState()
			for i, ins := range b.Instrs {
				if _, isGo := ins.(*ssa.Go); !isGo && (after[b] || i > from) {
					l = sc.instr(fn, closureVal{fn: fn}, nil, ins, l, true)
				}
			}
		}
	}
	visit(pkg.Func("main"))
	visit(pkg.Func("init"))
}

// serves: the call listens for requests.
func (sc *serverCheck) serves(fn *ssa.Function, c *ssa.CallCommon) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if f.Object() != nil && f.Object().Pkg() != nil && f.Object().Pkg().Path() == "net/http" {
			return strings.HasPrefix(f.Name(), "ListenAndServe") || strings.HasPrefix(f.Name(), "Serve")
		}
		if f.Pkg != fn.Pkg {
			return false
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && rec(ci.Common().StaticCallee()) {
					return true
				}
			}
		}
		return false
	}
	return rec(c.StaticCallee())
}

func isSyncType(t types.Type) bool {
	s := t.String()
	return strings.Contains(s, "sync.")
}

func (sc *serverCheck) eval(v ssa.Value, env map[ssa.Value]closureVal, d int) (closureVal, bool) {
	if cl, ok := env[v]; ok {
		return cl, true
	}
	if d > 8 {
		return closureVal{}, false
	}
	switch v := v.(type) {
	case *ssa.Function:
		return closureVal{fn: v}, true
	case *ssa.ChangeType:
		return sc.eval(v.X, env, d+1)
	case *ssa.MakeInterface:
		return sc.eval(v.X, env, d+1)
	case *ssa.MakeClosure:
		cl := closureVal{fn: v.Fn.(*ssa.Function), env: map[ssa.Value]closureVal{}}
		for i, b := range v.Bindings {
			boundNames[cl.fn.FreeVars[i]] = mutexName(b)
			if x, ok := sc.eval(b, env, d+1); ok {
				cl.env[cl.fn.FreeVars[i]] = x
			}
		}
		return cl, true
	case *ssa.UnOp:
		return sc.eval(v.X, env, d+1)
	case *ssa.Alloc:
		for _, r := range *v.Referrers() {
			if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(v) {
				return sc.eval(st.Val, env, d+1)
			}
		}
	case *ssa.Call:
		f := v.Common().StaticCallee()
		if f == nil || f.Blocks == nil {
			return closureVal{}, false
		}
		e2 := map[ssa.Value]closureVal{}
		for i, a := range v.Common().Args {
			if x, ok := sc.eval(a, env, d+1); ok && i < len(f.Params) {
				e2[f.Params[i]] = x
			}
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				return sc.eval(r.Results[0], e2, d+1)
			}
		}
	}
	return closureVal{}, false
}

// boundNames are the names of what parameters and captured variables point to.
var boundNames = map[ssa.Value]string{}

func mutexName(v ssa.Value) string {
	if n := boundNames[v]; n != "" {
		return n
	}
	switch v := v.(type) {
	case *ssa.Global:
		return v.Name()
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", mutexName(v.X), v.Field)
	case *ssa.UnOp:
		return "*" + mutexName(v.X)
	}
	return ""
}

// lockOp classifies a call on a mutex.
func lockOp(c *ssa.CallCommon) (mutex string, op string) {
	f := c.StaticCallee()
	name := ""
	var recv ssa.Value
	if f != nil && f.Object() != nil && f.Object().Pkg() != nil && f.Object().Pkg().Path() == "sync" && len(c.Args) > 0 {
		name, recv = f.Name(), c.Args[0]
	} else if c.IsInvoke() && c.Method.Pkg() != nil && c.Method.Pkg().Path() == "sync" {
		name, recv = c.Method.Name(), c.Value
	}
	switch name {
	case "Lock", "RLock", "Unlock", "RUnlock":
		return mutexName(recv), name
	}
	return "", ""
}

// usesLocks: the function manipulates a mutex itself or through calls in the server package.
func (sc *serverCheck) usesLocks(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] || fn.Blocks == nil {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if _, op := lockOp(ci.Common()); op != "" {
					return true
				}
				if f := ci.Common().StaticCallee(); f != nil && f.Pkg == fn.Pkg && sc.usesLocks(f, seen) {
					return true
				}
			}
		}
	}
	return false
}

// walk is what is known after a call of the function.
func (sc *serverCheck) walk(cl closureVal, args []OSet, in lockState) lockState {
	fn := cl.fn
	if sc.depth > 12 || fn.Blocks == nil {
		return in
	}
	sc.depth++
	defer func() { sc.depth-- }()
	start := in.clone()
	start.deferred = map[string]bool{}
	states := map[*ssa.BasicBlock]lockState{fn.Blocks[0]: start}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	var out lockState
	returns := false
	for pass := 0; pass < 2; pass++ { // first pass: fixpoint; second pass: record
		record := pass == 1
		if record {
			work = nil
			for b := range states {
				work = append(work, b)
			}
			sort.Slice(work, func(i, j int) bool { return work[i].Index < work[j].Index })
		}
		for len(work) > 0 {
			b := work[0]
			work = work[1:]
			l := states[b].clone()
			for _, ins := range b.Instrs {
				if record {
					sc.mayPanic(fn, ins, l)
				}
				l = sc.instr(fn, cl, args, ins, l, record)
				if _, ok := ins.(*ssa.Return); ok && record {
					// deferred unlocks run at the return
					r := l.clone()
					for _, d := range sc.deferredUnlocks(fn) {
						delete(r.must, d)
						if _, open := r.open[d]; !open {
							delete(r.may, d)
						}
					}
					r.deferred = map[string]bool{}
					if !returns {
						out, returns = r, true
					} else {
						out = meetState(out, r)
					}
				}
			}
			if record {
				continue
			}
			for _, s := range b.Succs {
				old, ok := states[s]
				nw := l.clone()
				if ok {
					nw = meetState(old, l)
					if sameState(nw, old) {
						continue
					}
				}
				states[s] = nw
				work = append(work, s)
			}
		}
	}
	if !returns {
		out = in.clone()
	}
	out.deferred = in.deferred
	return out
}

// mayPanic reports an instruction that can panic while a lock is held that nothing releases then.
func (sc *serverCheck) mayPanic(fn *ssa.Function, in ssa.Instruction, l lockState) {
	what := ""
	switch in := in.(type) {
	case *ssa.Panic:
		what = "panic"
	case *ssa.TypeAssert:
		if !in.CommaOk {
			what = "type assertion"
		}
	case *ssa.Slice:
		if in.Low != nil || in.High != nil || in.Max != nil {
			what = "slice expression"
		}
	case *ssa.IndexAddr:
		if a, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if ar, ok := a.Elem().Underlying().(*types.Array); ok {
				if k, ok := in.Index.(*ssa.Const); ok && k.Int64() < ar.Len() {
					return
				}
			}
		}
		if rangeIndexed(in) {
			return
		}
		what = "index expression"
	case *ssa.BinOp:
		if in.Op == token.QUO || in.Op == token.REM {
			if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				if k, ok := in.Y.(*ssa.Const); !ok || k.Int64() == 0 {
					what = "division"
				}
			}
		}
	}
	if what == "" {
		return
	}
	for m := range l.may {
		_, open := l.open[m]
		sc.c.R.Check(!open, "released-on-panic", sc.cur+" "+m, sc.c.Pos(in.Pos()), "the "+what+" may panic while "+m+" is held, and no deferred call releases it then")
	}
}

// rangeIndexed: the element that a range loop over the same slice is at.
func rangeIndexed(ia *ssa.IndexAddr) bool {
	bo, ok := ia.Index.(*ssa.BinOp)
	if !ok || bo.Op != token.ADD {
		return false
	}
	phi, ok := bo.X.(*ssa.Phi)
	return ok && phi.Comment == "rangeindex"
}

func (sc *serverCheck) deferredUnlocks(fn *ssa.Function) []string {
	var out []string
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if d, ok := in.(*ssa.Defer); ok {
				out = append(out, unlockedBy(d)...)
			}
		}
	}
	return out
}

// unlockedBy: the mutexes that a deferred call releases.
func unlockedBy(d *ssa.Defer) []string {
	if m, op := lockOp(d.Common()); op == "Unlock" || op == "RUnlock" {
		return []string{m}
	}
	var out []string
	if mc, ok := d.Common().Value.(*ssa.MakeClosure); ok {
		for i, b := range mc.Bindings {
			boundNames[mc.Fn.(*ssa.Function).FreeVars[i]] = mutexName(b)
		}
		for _, bb := range mc.Fn.(*ssa.Function).Blocks {
			for _, i2 := range bb.Instrs {
				if ci, ok := i2.(ssa.CallInstruction); ok {
					if m, op := lockOp(ci.Common()); op == "Unlock" || op == "RUnlock" {
						out = append(out, m)
					}
				}
			}
		}
	}
	if f, ok := d.Common().Value.(*ssa.Function); ok && f.Blocks != nil && len(f.Params) == 0 {
		for _, bb := range f.Blocks {
			for _, i2 := range bb.Instrs {
				if ci, ok := i2.(ssa.CallInstruction); ok {
					if m, op := lockOp(ci.Common()); op == "Unlock" || op == "RUnlock" {
						out = append(out, m)
					}
				}
			}
		}
	}
	return out
}

// target is the function of the server that a call runs, with its function values.
func (sc *serverCheck) target(fn *ssa.Function, cl closureVal, c *ssa.CallCommon, all bool) (closureVal, bool) {
	var target closureVal
	found := false
	if f := c.StaticCallee(); f != nil && f.Pkg == fn.Pkg {
		if _, isMC := c.Value.(*ssa.MakeClosure); !isMC {
			target, found = closureVal{fn: f}, all || sc.usesLocks(f, map[*ssa.Function]bool{}) || hasFuncParam(f)
		}
	}
	if !found && !c.IsInvoke() {
		if _, isB := c.Value.(*ssa.Builtin); !isB {
			if _, isF := c.Value.(*ssa.Function); !isF {
				if x, ok := sc.eval(c.Value, cl.env, 0); ok && x.fn.Pkg == fn.Pkg {
					target, found = x, true
				}
			}
		}
	}
	return target, found
}

func (sc *serverCheck) enter(fn *ssa.Function, cl closureVal, args []OSet, target closureVal, c *ssa.CallCommon, l lockState) lockState {
	env := map[ssa.Value]closureVal{}
	for k, v := range target.env {
		env[k] = v
	}
	s := sc.e.get(fn)
	var as []OSet
	for i, a := range c.Args {
		if i < len(target.fn.Params) {
			if x, ok := sc.eval(a, cl.env, 0); ok {
				env[target.fn.Params[i]] = x
			}
			boundNames[target.fn.Params[i]] = mutexName(a)
		}
		as = append(as, sc.substAll(s.of(a), args))
	}
	target.env = env
	return sc.walk(target, as, l)
}

func (sc *serverCheck) instr(fn *ssa.Function, cl closureVal, args []OSet, in ssa.Instruction, l lockState, record bool) lockState {
	if d, ok := in.(*ssa.Defer); ok {
		l = l.clone()
		for _, m := range unlockedBy(d) {
			l.deferred[m] = true
			delete(l.open, m)
		}
		return l
	}
	if g, ok := in.(*ssa.Go); ok {
		// runs whenever it likes, with no lock of the request
		if !record {
			return l
		}
		if t, ok := sc.target(fn, cl, g.Common(), true); ok {
			o := sc.enter(fn, cl, args, t, g.Common(), newLockState())
			for m := range o.may {
				sc.c.R.Check(false, "released", sc.cur+" go "+short(t.fn)+" "+m, sc.c.Pos(g.Pos()), m+" may still be held when the goroutine ends")
			}
			return l
		}
		sc.effects(fn, args, in, lockset{})
		return l
	}
	if ci, ok := in.(*ssa.Call); ok {
		c := ci.Common()
		if m, op := lockOp(c); op != "" {
			if op == "Lock" || op == "RLock" {
				if record {
					_, again := l.may[m]
					sc.c.R.Check(!again, "not-taken-twice", sc.cur+" "+m, sc.c.Pos(in.Pos()), m+" may be taken again by the request that holds it, which can wait for itself forever")
				}
			}
			l = l.clone()
			delete(l.open, m)
			if (op == "Lock" || op == "RLock") && !l.deferred[m] {
				l.open[m] = 'W'
			}
			switch op {
			case "Lock":
				l.must[m], l.may[m] = 'W', 'W'
			case "RLock":
				if l.must[m] != 'W' {
					l.must[m] = 'R'
				}
				if l.may[m] != 'W' {
					l.may[m] = 'R'
				}
			default:
				delete(l.must, m)
				delete(l.may, m)
			}
			return l
		}
		// calls into the server's own functions that use locks, or of function values
		if target, found := sc.target(fn, cl, c, false); found {
			return sc.enter(fn, cl, args, target, c, l)
		}
	}
	if !record {
		return l
	}
	locks := l.must
	if ci, ok := in.(*ssa.Call); ok && sc.leavesRunning(ci.Common()) {
		locks = lockset{}
	}
	sc.effects(fn, args, in, locks)
	return l
}

// leavesRunning: the call may leave something running that goes on after it returned.
func (sc *serverCheck) leavesRunning(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if f.Object() != nil && f.Object().Pkg() != nil && f.Name() == "AfterFunc" {
		if p := f.Object().Pkg().Path(); p == "time" || p == "context" {
			return true
		}
	}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] || f.Blocks == nil || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			return false
		}
		seen[f] = true
		goes, waits := false, false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					goes = true
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					g := ci.Common().StaticCallee()
					if g == nil {
						continue
					}
					if g.Name() == "Wait" && g.Object() != nil && g.Object().Pkg() != nil && g.Object().Pkg().Path() == "sync" {
						waits = true
					}
					if rec(g) {
						return true
					}
				}
			}
		}
		return goes && !waits
	}
	return rec(f)
}

func (sc *serverCheck) effects(fn *ssa.Function, args []OSet, in ssa.Instruction, l lockset) {
	// the effects of this one instruction
	s := sc.e.get(fn)
	tmp := &fnState{sum: &Summary{fn: fn, writes: map[Origin]Witness{}, reads: map[Origin]Witness{}, flows: map[flow]Witness{},
		alias: make([]OSet, len(s.sum.alias)), contains: make([]OSet, len(s.sum.alias)), fresh: make([]bool, len(s.sum.alias)), calls: map[Origin]OSet{}},
		pts: s.pts, contents: s.contents}
	for i := range tmp.sum.alias {
		tmp.sum.alias[i], tmp.sum.contains[i] = OSet{}, OSet{}
	}
	sc.e.instr(tmp, in)
	for k, m := range []map[Origin]Witness{tmp.sum.reads, tmp.sum.writes} {
		for o, w := range m {
			for q := range sc.substAll(OSet{o: true}, args) {
				if q.k != oGlobal || q.g.Pkg == nil || !strings.HasPrefix(q.g.Pkg.Pkg.Path(), modPath) {
					continue
				}
				sc.n++
				what := w.What
				if len(w.Chain) > 0 {
					what = w.Chain[0]
				}
				sc.acc[q.g] = append(sc.acc[q.g], access{write: k == 1, locks: l, pos: sc.c.Pos(in.Pos()), handler: sc.cur, what: what})
			}
		}
	}
}

func (sc *serverCheck) substAll(o OSet, args []OSet) OSet {
	out := OSet{}
	for x := range o {
		if x.k == oParam && x.i < len(args) {
			out.addAll(args[x.i])
		} else {
			out[x] = true
		}
	}
	return out
}

func hasFuncParam(f *ssa.Function) bool {
	for _, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			return true
		}
	}
	return false
}
