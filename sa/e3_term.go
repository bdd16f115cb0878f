package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// E3: guarded effects. Functions are evaluated path by path over terms: every value is a term over the
// inputs, every branch taken adds a literal, every loop is entered once with all that it changes unknown.

// T is a hash-consed term.
type T struct {
	id  int
	op  string
	s   string
	a   []*T
	typ types.Type
	cv  constant.Value
	sym bool // contains a symbol of a loop or an impure call
}

type terms struct {
	m    map[string]*T
	list []*T
}

func newTerms() *terms { return &terms{m: map[string]*T{}} }

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func (tt *terms) mk(op, s string, typ types.Type, a ...*T) *T {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(s)
	for _, x := range a {
		fmt.Fprintf(&sb, "|%d", x.id)
	}
	if op == "const" || op == "conv" || op == "zero" {
		sb.WriteString("|" + typeKey(typ))
	}
	k := sb.String()
	if t := tt.m[k]; t != nil {
		return t
	}
	t := &T{id: len(tt.list), op: op, s: s, a: a, typ: typ}
	tt.m[k] = t
	tt.list = append(tt.list, t)
	return t
}

func (tt *terms) konst(v constant.Value, typ types.Type) *T {
	if v == nil {
		return tt.mk("nil", "", typ)
	}
	t := tt.mk("const", v.ExactString(), basicOf(typ))
	t.cv = v
	return t
}

// basicOf forgets named types of constants, so that 'x' of a named type equals 'x'.
func basicOf(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsInteger != 0:
			return types.Typ[types.Int]
		case b.Info()&types.IsFloat != 0:
			return types.Typ[types.Float64]
		case b.Info()&types.IsString != 0:
			return types.Typ[types.String]
		case b.Info()&types.IsBoolean != 0:
			return types.Typ[types.Bool]
		}
		return b
	}
	return t
}

func (tt *terms) int(n int64) *T  { return tt.konst(constant.MakeInt64(n), types.Typ[types.Int]) }
func (tt *terms) bool(b bool) *T  { return tt.konst(constant.MakeBool(b), types.Typ[types.Bool]) }
func (tt *terms) nilT() *T        { return tt.mk("nil", "", nil) }
func (t *T) isConst() bool        { return t.op == "const" }
func (t *T) isNil() bool          { return t.op == "nil" }
func (t *T) is(op string) bool    { return t.op == op }
func (t *T) isCall(s string) bool { return t.op == "call" && callName(t.s) == s }
func (t *T) ext() (call *T, i int) { // component of a tuple
	if t.op != "ext" {
		return nil, 0
	}
	fmt.Sscan(t.s, &i)
	return t.a[0], i
}

func callName(s string) string {
	if i := strings.IndexByte(s, '@'); i >= 0 {
		return s[:i]
	}
	return s
}

func (t *T) intVal() (int64, bool) {
	if t.op != "const" {
		return 0, false
	}
	v := constant.ToInt(t.cv)
	if v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}

func (t *T) boolVal() (bool, bool) {
	if t.op != "const" || t.cv.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(t.cv), true
}

func (t *T) strVal() (string, bool) {
	if t.op != "const" || t.cv.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.cv), true
}

func (t *T) floatVal() (float64, bool) {
	if t.op != "const" || (t.cv.Kind() != constant.Int && t.cv.Kind() != constant.Float) {
		return 0, false
	}
	f, _ := constant.Float64Val(t.cv)
	return f, true
}

// String renders a term for messages.
func (t *T) String() string { return t.str(0) }

func (t *T) str(d int) string {
	if d > 7 {
		return "…"
	}
	arg := func(i int) string { return t.a[i].str(d + 1) }
	var as []string
	switch t.op {
	case "const":
		return t.cv.String()
	case "nil":
		return "nil"
	case "param", "phi", "sym", "free":
		s := t.s
		if i := strings.IndexByte(s, '@'); i >= 0 {
			s = s[:i]
		}
		return s
	case "global":
		return "&" + strings.ReplaceAll(t.s, modPath, "gse")
	case "load":
		x := t.a[0]
		switch x.op {
		case "&field":
			return x.a[0].str(d+1) + "." + x.s
		case "&index":
			return x.a[0].str(d+1) + "[" + x.a[1].str(d+1) + "]"
		case "global":
			return x.str(d + 1)[1:]
		}
		return "*" + arg(0)
	case "&field":
		return "&" + arg(0) + "." + t.s
	case "&index":
		return "&" + arg(0) + "[" + arg(1) + "]"
	case "&map":
		return arg(0) + "[" + arg(1) + "]"
	case "alloc", "mkslice", "mkmap":
		s := t.s
		if i := strings.IndexByte(s, '@'); i >= 0 {
			s = s[:i]
		}
		return "new " + s
	case "field":
		return arg(0) + "." + t.s
	case "len":
		return "len(" + arg(0) + ")"
	case "+", "-", "*", "/", "%", "==", "<", "<=", "cat", "&", "|", "<<", ">>":
		o := t.op
		if o == "cat" {
			o = "+"
		}
		return "(" + arg(0) + " " + o + " " + arg(1) + ")"
	case "conv":
		return strings.ReplaceAll(typeKey(t.typ), modPath, "gse") + "(" + arg(0) + ")"
	case "slice":
		l, h := "", ""
		if !t.a[1].isNil() {
			l = arg(1)
		}
		if !t.a[2].isNil() {
			h = arg(2)
		}
		return arg(0) + "[" + l + ":" + h + "]"
	}
	for i := range t.a {
		as = append(as, arg(i))
	}
	n := t.op
	if t.op == "call" {
		n = strings.ReplaceAll(callName(t.s), modPath, "gse")
	} else if t.s != "" {
		n += ":" + t.s
	}
	return n + "(" + strings.Join(as, ", ") + ")"
}

// has reports whether f holds for the term or a part of it.
func (t *T) has(f func(*T) bool) bool {
	seen := map[*T]bool{}
	var walk func(*T) bool
	walk = func(x *T) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, y := range x.a {
			if walk(y) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func (t *T) contains(u *T) bool { return t.has(func(x *T) bool { return x == u }) }

// subst replaces terms bottom-up.
func (x *E3) subst(t *T, m map[*T]*T) *T {
	memo := map[*T]*T{}
	var walk func(*T) *T
	walk = func(u *T) *T {
		if r, ok := m[u]; ok {
			return r
		}
		if r, ok := memo[u]; ok {
			return r
		}
		if len(u.a) == 0 {
			return u
		}
		na := make([]*T, len(u.a))
		ch := false
		for i, y := range u.a {
			na[i] = walk(y)
			ch = ch || na[i] != y
		}
		r := u
		if ch {
			r = x.rebuild(u, na)
		}
		memo[u] = r
		return r
	}
	return walk(t)
}

func (x *E3) rebuild(u *T, a []*T) *T {
	switch u.op {
	case "+", "-", "*", "/", "%", "==", "<", "<=", "cat":
		return x.arith(u.op, a[0], a[1], u.typ)
	case "len":
		return x.lenOf(a[0])
	}
	r := x.tt.mk(u.op, u.s, u.typ, a...)
	r.cv = u.cv
	return r
}

func isInt(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// arith builds binary operations in a normal form; the operators are + - * / % == < <= cat and others.
func (x *E3) arith(op string, a, b *T, typ types.Type) *T {
	tt := x.tt
	if a.cv != nil && b.cv != nil {
		if r := foldConst(op, a, b, typ); r != nil {
			return tt.konst(r, typ)
		}
	}
	switch op {
	case "+":
		if isInt(typ) {
			if n, ok := b.intVal(); ok && n == 0 {
				return a
			}
			if n, ok := a.intVal(); ok && n == 0 {
				return b
			}
			// (t + c) + d
			if a.op == "const" {
				a, b = b, a
			}
			if n, ok := b.intVal(); ok && a.op == "+" {
				if m, ok := a.a[1].intVal(); ok {
					return x.arith("+", a.a[0], tt.int(m+n), typ)
				}
			}
		}
		if a.id > b.id && b.op != "const" {
			a, b = b, a
		}
		if a.op == "const" && b.op != "const" {
			a, b = b, a
		}
	case "-":
		if isInt(typ) {
			if n, ok := b.intVal(); ok {
				return x.arith("+", a, tt.int(-n), typ)
			}
			if a == b {
				return tt.int(0)
			}
		}
	case "*":
		if a.id > b.id {
			a, b = b, a
		}
	case "cat":
		if s, ok := a.strVal(); ok && s == "" {
			return b
		}
		if s, ok := b.strVal(); ok && s == "" {
			return a
		}
	case "==":
		if a == b && !isFloat(a.typ) {
			return tt.bool(true)
		}
		// x == "" is len(x) == 0
		if s, ok := b.strVal(); ok && s == "" && a.op != "const" {
			return x.arith("==", x.lenOf(a), tt.int(0), types.Typ[types.Bool])
		}
		if s, ok := a.strVal(); ok && s == "" && b.op != "const" {
			return x.arith("==", x.lenOf(b), tt.int(0), types.Typ[types.Bool])
		}
		if a.isNil() || a.op == "const" {
			a, b = b, a
		}
		if b.isNil() {
			switch {
			case a.isNil():
				return tt.bool(true)
			case x.nonNil(a):
				return tt.bool(false)
			}
		}
		if a.op == "const" && b.op == "const" && a != b {
			return tt.bool(false)
		}
		// compare booleans with a constant
		if v, ok := b.boolVal(); ok {
			if v {
				return a
			}
			return x.not(a)
		}
		if b.op != "const" && !b.isNil() && a.id > b.id {
			a, b = b, a
		}
		// len(x)+c == d
		if n, ok := b.intVal(); ok && a.op == "+" && isInt(a.typ) {
			if m, ok := a.a[1].intVal(); ok {
				return x.arith("==", a.a[0], tt.int(n-m), types.Typ[types.Bool])
			}
		}
		return tt.mk("==", "", types.Typ[types.Bool], a, b)
	case "<":
		if a == b {
			return tt.bool(false)
		}
		if isInt(a.typ) || isInt(b.typ) {
			// lengths against small constants
			if n, ok := b.intVal(); ok && a.op == "len" {
				if n <= 0 {
					return tt.bool(false)
				}
				if n == 1 {
					return x.arith("==", a, tt.int(0), types.Typ[types.Bool])
				}
			}
			if n, ok := a.intVal(); ok && b.op == "len" {
				if n < 0 {
					return tt.bool(true)
				}
				if n == 0 {
					return x.not(x.arith("==", b, tt.int(0), types.Typ[types.Bool]))
				}
			}
		}
		return tt.mk("<", "", types.Typ[types.Bool], a, b)
	case "<=":
		if isInt(a.typ) || isInt(b.typ) || isString(a.typ) {
			return x.not(x.arith("<", b, a, typ))
		}
		return tt.mk("<=", "", types.Typ[types.Bool], a, b)
	}
	return tt.mk(op, "", typ, a, b)
}

func (x *E3) not(a *T) *T {
	if v, ok := a.boolVal(); ok {
		return x.tt.bool(!v)
	}
	if a.op == "!" {
		return a.a[0]
	}
	return x.tt.mk("!", "", types.Typ[types.Bool], a)
}

func foldConst(op string, a, b *T, typ types.Type) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	switch op {
	case "+", "-", "*", "cat", "&", "|":
		o := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "cat": token.ADD, "&": token.AND, "|": token.OR}[op]
		return constant.BinaryOp(a.cv, o, b.cv)
	case "/":
		if isInt(typ) {
			return constant.BinaryOp(a.cv, token.QUO_ASSIGN, b.cv)
		}
		return constant.BinaryOp(a.cv, token.QUO, b.cv)
	case "%":
		return constant.BinaryOp(a.cv, token.REM, b.cv)
	case "==":
		return constant.MakeBool(constant.Compare(a.cv, token.EQL, b.cv))
	case "<":
		return constant.MakeBool(constant.Compare(a.cv, token.LSS, b.cv))
	case "<=":
		return constant.MakeBool(constant.Compare(a.cv, token.LEQ, b.cv))
	}
	return nil
}

// nonNil: values that are never nil.
func (x *E3) nonNil(t *T) bool {
	switch t.op {
	case "alloc", "mkslice", "mkmap", "&field", "&index", "global", "closure", "func", "iface", "const", "struct":
		return true
	case "load":
		// error values of package variables
		if t.a[0].op == "global" {
			if t.typ != nil && types.Identical(t.typ, types.Universe.Lookup("error").Type()) {
				return true
			}
			return x.initialised(t.a[0].s)
		}
	}
	return false
}

func (x *E3) lenOf(a *T) *T {
	tt := x.tt
	switch a.op {
	case "nil":
		return tt.int(0)
	case "const":
		if s, ok := a.strVal(); ok {
			return tt.int(int64(len(s)))
		}
	case "conv":
		// string <-> bytes keep the length
		from := a.a[0].typ
		if from != nil && isBytesOrString(a.typ) && isBytesOrString(from) {
			return x.lenOf(a.a[0])
		}
	case "mkslice":
		return a.a[0]
	case "append":
		if a.a[1].op == "list" {
			return x.arith("+", x.lenOf(a.a[0]), tt.int(int64(len(a.a[1].a))), types.Typ[types.Int])
		}
		return x.arith("+", x.lenOf(a.a[0]), x.lenOf(a.a[1]), types.Typ[types.Int])
	case "alloc":
		if at, ok := derefType(a.typ).Underlying().(*types.Array); ok {
			return tt.int(at.Len())
		}
	case "list":
		return tt.int(int64(len(a.a)))
	case "cat":
		return x.arith("+", x.lenOf(a.a[0]), x.lenOf(a.a[1]), types.Typ[types.Int])
	case "slice", "slice3":
		lo, hi := a.a[1], a.a[2]
		if lo.isNil() {
			lo = tt.int(0)
		}
		if hi.isNil() {
			hi = x.lenOf(a.a[0])
		}
		return x.arith("-", hi, lo, types.Typ[types.Int])
	}
	return tt.mk("len", "", types.Typ[types.Int], a)
}

func isBytesOrString(t types.Type) bool {
	if t == nil {
		return false
	}
	if isString(t) {
		return true
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isRunes(t types.Type) bool {
	if t == nil {
		return false
	}
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}
