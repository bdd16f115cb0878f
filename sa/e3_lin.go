package main

import (
	"sort"
)

// Linear integer reasoning over terms.

type lin struct {
	k map[*T]int64
	c int64
}

func (l lin) clone() lin {
	m := make(map[*T]int64, len(l.k))
	for a, b := range l.k {
		m[a] = b
	}
	return lin{m, l.c}
}

func (l lin) addk(o lin, k int64) lin {
	r := l.clone()
	r.c += k * o.c
	for t, v := range o.k {
		r.k[t] += k * v
		if r.k[t] == 0 {
			delete(r.k, t)
		}
	}
	return r
}

func linC(c int64) lin { return lin{map[*T]int64{}, c} }

// linear form of an integer term
func (x *E3) lin(t *T) lin {
	if n, ok := t.intVal(); ok {
		return linC(n)
	}
	switch t.op {
	case "+":
		return x.lin(t.a[0]).addk(x.lin(t.a[1]), 1)
	case "-":
		return x.lin(t.a[0]).addk(x.lin(t.a[1]), -1)
	case "*":
		if n, ok := t.a[0].intVal(); ok {
			return linC(0).addk(x.lin(t.a[1]), n)
		}
		if n, ok := t.a[1].intVal(); ok {
			return linC(0).addk(x.lin(t.a[0]), n)
		}
	case "conv":
		if isInt(t.typ) && isInt(t.a[0].typ) {
			return x.lin(t.a[0])
		}
	}
	return lin{map[*T]int64{t: 1}, 0}
}

// ge is a constraint l >= 0.
type ge struct{ l lin }

func (st *St) linFacts(seed lin, extra []lin) []lin {
	x := st.x
	var all []lin
	all = append(all, extra...)
	for _, l := range st.lits {
		t := l.t
		switch t.op {
		case "<":
			if !isInt(t.a[0].typ) && !isInt(t.a[1].typ) {
				continue
			}
			d := x.lin(t.a[1]).addk(x.lin(t.a[0]), -1) // b - a
			if l.pol {
				d.c-- // b-a-1 >= 0
				all = append(all, d)
			} else {
				all = append(all, linC(0).addk(d, -1)) // a - b >= 0
			}
		case "==":
			if !isInt(t.a[0].typ) && !isInt(t.a[1].typ) {
				continue
			}
			if l.pol {
				d := x.lin(t.a[1]).addk(x.lin(t.a[0]), -1)
				all = append(all, d, linC(0).addk(d, -1))
			}
		}
	}
	all = append(all, st.facts...)
	// base facts of the variables that occur
	seen := map[*T]bool{}
	var add func(l lin)
	add = func(l lin) {
		for t := range l.k {
			if seen[t] {
				continue
			}
			seen[t] = true
			for _, f := range x.baseFacts(t) {
				all = append(all, f)
				add(f)
			}
			if x.extra != nil {
				for _, f := range x.extra(st, t) {
					all = append(all, f)
					add(f)
				}
			}
		}
	}
	add(seed)
	for i := 0; i < len(all) && i < 400; i++ {
		add(all[i])
	}
	// keep what is connected to the query
	conn := map[*T]bool{}
	for t := range seed.k {
		conn[t] = true
	}
	used := make([]bool, len(all))
	for ch := true; ch; {
		ch = false
		for i, l := range all {
			if used[i] {
				continue
			}
			hit := len(l.k) == 0
			for t := range l.k {
				if conn[t] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for t := range l.k {
					conn[t] = true
				}
			}
		}
	}
	var out []lin
	for i, l := range all {
		if used[i] {
			out = append(out, l)
		}
	}
	// disequalities with a bound: a != b and a >= b gives a > b
	for _, l := range st.lits {
		if l.t.op != "==" || l.pol || (!isInt(l.t.a[0].typ) && !isInt(l.t.a[1].typ)) {
			continue
		}
		d := x.lin(l.t.a[0]).addk(x.lin(l.t.a[1]), -1)
		if len(d.k) == 0 {
			continue
		}
		if entails(out, d) {
			e := d.clone()
			e.c--
			out = append(out, e)
		} else if n := linC(0).addk(d, -1); entails(out, n) {
			n.c--
			out = append(out, n)
		}
	}
	return out
}

// baseFacts of a variable term: constraints that always hold.
func (x *E3) baseFacts(t *T) []lin {
	v := lin{map[*T]int64{t: 1}, 0}
	switch t.op {
	case "len", "cap":
		return []lin{v}
	case "phi":
		if f, ok := x.phiLow[t]; ok {
			d := v.clone()
			d.c -= f
			return []lin{d}
		}
	case "ext":
		c, i := t.ext()
		if c.op == "call" {
			switch callName(c.s) {
			case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
				if i == 1 {
					// 0 <= size <= 4, size <= len(arg)
					u := linC(4).addk(v, -1)
					n := x.lin(x.lenOf(c.a[0])).addk(v, -1)
					return []lin{v, u, n}
				}
			}
		}
	case "call":
		switch callName(t.s) {
		case "unicode/utf8.RuneCountInString", "unicode/utf8.RuneLen":
			return []lin{v}
		}
	case "rangeidx":
		return []lin{v}
	}
	return nil
}

func entails(facts []lin, goal lin) bool {
	// facts and -goal-1 >= 0 are contradictory
	n := linC(0).addk(goal, -1)
	n.c--
	cs := append(append([]lin(nil), facts...), n)
	return contradictory(cs)
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func tighten(l lin) lin {
	var g int64
	for _, v := range l.k {
		g = gcd64(g, v)
	}
	if g <= 1 {
		return l
	}
	r := l.clone()
	for t := range r.k {
		r.k[t] /= g
	}
	// floor
	q := r.c / g
	if r.c%g != 0 && r.c < 0 {
		q--
	}
	r.c = q
	return r
}

type linKey struct {
	s string
}

func (l lin) key() string {
	ids := make([]int, 0, len(l.k))
	m := map[int]int64{}
	for t, v := range l.k {
		ids = append(ids, t.id)
		m[t.id] = v
	}
	sort.Ints(ids)
	b := make([]byte, 0, 16*len(ids))
	for _, i := range ids {
		b = appendInt(b, int64(i))
		b = append(b, ':')
		b = appendInt(b, m[i])
		b = append(b, ' ')
	}
	return string(b)
}

func appendInt(b []byte, n int64) []byte {
	if n < 0 {
		b = append(b, '-')
		n = -n
	}
	if n >= 10 {
		b = appendInt(b, n/10)
	}
	return append(b, byte('0'+n%10))
}

// equation finds two constraints that say a quantity is zero, and a variable of it that can be replaced.
func equation(order []string, best map[string]lin) (eq lin, v *T, bad bool) {
	for _, k := range order {
		c := best[k]
		n := linC(0).addk(c, -1)
		d, ok := best[n.key()]
		if !ok {
			continue
		}
		if c.c+d.c < 0 {
			return c, nil, true
		}
		if c.c+d.c > 0 {
			continue
		}
		for t, m := range c.k {
			if (m == 1 || m == -1) && (v == nil || t.id > v.id) {
				eq, v = c, t
			}
		}
		if v != nil {
			return eq, v, false
		}
	}
	return eq, nil, false
}

// contradictory decides by elimination whether the constraints have no solution.
func contradictory(cs []lin) bool {
	for round := 0; round < 40; round++ {
		best := map[string]lin{}
		var order []string
		for _, c := range cs {
			c = tighten(c)
			if len(c.k) == 0 {
				if c.c < 0 {
					return true
				}
				continue
			}
			k := c.key()
			if o, ok := best[k]; !ok {
				best[k] = c
				order = append(order, k)
			} else if c.c < o.c {
				best[k] = c
			}
		}
		cs = cs[:0:0]
		for _, k := range order {
			cs = append(cs, best[k])
		}
		if len(cs) == 0 {
			return false
		}
		// an equation: replace a variable
		if eq, v, bad := equation(order, best); bad {
			return true
		} else if v != nil {
			k := eq.k[v] // 1 or -1
			for i, c := range cs {
				if m := c.k[v]; m != 0 {
					cs[i] = c.addk(eq, -m*k)
				}
			}
			round--
			continue
		}
		if len(cs) > 600 {
			return false
		}
		// choose the variable with the fewest products
		pos, neg := map[*T]int{}, map[*T]int{}
		for _, c := range cs {
			for t, v := range c.k {
				if v > 0 {
					pos[t]++
				} else {
					neg[t]++
				}
			}
		}
		var pick *T
		bestN := 1 << 30
		for _, c := range cs {
			for t := range c.k {
				n := pos[t]*neg[t] - pos[t] - neg[t]
				if n < bestN || (n == bestN && pick != nil && t.id < pick.id) {
					bestN, pick = n, t
				}
			}
		}
		var next, ps, ns []lin
		for _, c := range cs {
			switch v := c.k[pick]; {
			case v > 0:
				ps = append(ps, c)
			case v < 0:
				ns = append(ns, c)
			default:
				next = append(next, c)
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				r := linC(0).addk(p, -n.k[pick]).addk(n, p.k[pick])
				next = append(next, r)
			}
		}
		cs = next
	}
	return false
}

// proves reports whether goal >= 0 follows from what is known on the path.
func (st *St) proves(goal lin, extra ...lin) bool {
	if len(goal.k) == 0 {
		return goal.c >= 0
	}
	return entails(st.linFacts(goal, extra), goal)
}

// le: a <= b is known.
func (st *St) le(a, b *T) bool { return st.proves(st.x.lin(b).addk(st.x.lin(a), -1)) }

// lt: a < b is known.
func (st *St) ltI(a, b *T) bool {
	g := st.x.lin(b).addk(st.x.lin(a), -1)
	g.c--
	return st.proves(g)
}

// eqI: a == b is known.
func (st *St) eqI(a, b *T) bool {
	if a == b {
		return true
	}
	g := st.x.lin(b).addk(st.x.lin(a), -1)
	return st.proves(g) && st.proves(linC(0).addk(g, -1))
}
