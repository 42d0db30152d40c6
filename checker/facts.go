package main

// The numeric abstract domain: conjunctions of integer linear inequalities
// (convex polyhedra), with entailment by Fourier-Motzkin projection.

import (
	"encoding/binary"
	"math/bits"
	"sort"
)

// Facts is an immutable set of assumptions. It grows by copying.
type Facts struct {
	ge    []*Lin // each >= 0
	ne    []*Lin // each != 0
	keys  map[string]bool
	memo  map[string]bool
	bools map[*Term]bool
}

func newFacts() *Facts {
	return &Facts{keys: map[string]bool{}, memo: map[string]bool{}, bools: map[*Term]bool{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{
		ge:    append([]*Lin(nil), f.ge...),
		ne:    append([]*Lin(nil), f.ne...),
		keys:  make(map[string]bool, len(f.keys)+1),
		memo:  map[string]bool{},
		bools: make(map[*Term]bool, len(f.bools)+1),
	}
	for k := range f.keys {
		g.keys[k] = true
	}
	for k, v := range f.bools {
		g.bools[k] = v
	}
	return g
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// tighten divides l >= 0 by the gcd of its coefficients.
func tighten(l *Lin) *Lin {
	var g int64
	for _, m := range l.M {
		g = gcd(g, m.Coef)
	}
	if g <= 1 {
		return l
	}
	r := &Lin{C: floorDiv(l.C, g), M: make([]Mono, len(l.M))}
	for i, m := range l.M {
		m.Coef /= g
		r.M[i] = m
	}
	return r
}

func (f *Facts) withGe(l *Lin) *Facts {
	l = tighten(l)
	k := "g" + l.key()
	if f.keys[k] {
		return f
	}
	if c, ok := l.isConst(); ok && c >= 0 {
		return f
	}
	g := f.clone()
	g.keys[k] = true
	g.ge = append(g.ge, l)
	// disequalities that became strict
	for i := 0; i < len(g.ne); i++ {
		n := g.ne[i]
		if g.entailsGe(n) {
			g.ge = append(g.ge, n.addc(-1))
			g.memo = map[string]bool{}
			g.ne = append(append([]*Lin(nil), g.ne[:i]...), g.ne[i+1:]...)
			i = -1
		} else if g.entailsGe(n.neg()) {
			g.ge = append(g.ge, n.neg().addc(-1))
			g.memo = map[string]bool{}
			g.ne = append(append([]*Lin(nil), g.ne[:i]...), g.ne[i+1:]...)
			i = -1
		}
	}
	return g
}

func (f *Facts) withNe(l *Lin) *Facts {
	if f.entailsGe(l) {
		return f.withGe(l.addc(-1))
	}
	if f.entailsGe(l.neg()) {
		return f.withGe(l.neg().addc(-1))
	}
	g := f.clone()
	g.ne = append(g.ne, l)
	return g
}

func (f *Facts) withBool(t *Term, v bool) *Facts {
	if w, ok := f.bools[t]; ok && w == v {
		return f
	}
	g := f.clone()
	g.memo = f.memo
	g.bools[t] = v
	return g
}

func lins(l *Lin, c int64, vs ...*Term) {}

// axioms adds what is always true about the atoms in use: lengths are not
// negative, quotients and products are bounded.
func (f *Facts) axioms(set []*Lin, depth int) []*Lin {
	seenAtom := map[*Term]bool{}
	seenMono := map[string]bool{}
	out := set
	for i := 0; i < len(out) && len(out) < 400; i++ {
		for _, m := range out[i].M {
			if len(m.Vars) > 1 && !seenMono[m.Key] && depth < 2 {
				seenMono[m.Key] = true
				out = append(out, f.productAxioms(m, depth)...)
			}
			for _, v := range m.Vars {
				if seenAtom[v] {
					continue
				}
				seenAtom[v] = true
				switch {
				case v.Op == "bin:&" && len(v.Args) == 2 && isIntTerm(v):
					for _, a := range v.Args {
						if isUnsigned(a.Typ) || depth < 2 && f.entailsD(linOf(a), depth+1) {
							out = append(out, linOf(v), linOf(a).sub(linOf(v)))
						}
					}
				case v.Op == "len" || v.Op == "cap" || isUnsigned(v.Typ):
					out = append(out, linOf(v))
				case v.Op == "quo" || v.Op == "fdiv":
					out = append(out, f.quoAxioms(v, depth)...)
				case v.Op == "pure" && (v.Aux == "runtime.GOMAXPROCS" || v.Aux == "runtime.NumCPU"):
					out = append(out, linOf(v).addc(-1))
				case v.Op == "pure" && (v.Aux == "(reflect.Value).Len"):
					out = append(out, linOf(v))
				}
			}
		}
	}
	return out
}

func (f *Facts) quoAxioms(q *Term, depth int) []*Lin {
	a, b := linOf(q.Args[0]), linOf(q.Args[1])
	ql := linOf(q)
	bq := b.mul(ql)
	var out []*Lin
	bc, isC := b.isConst()
	pos := isC && bc > 0
	if !pos && depth < 2 {
		pos = f.entailsD(b.addc(-1), depth+1)
	}
	if !pos {
		return nil
	}
	if q.Op == "fdiv" {
		return []*Lin{a.sub(bq), bq.add(b).addc(-1).sub(a)}
	}
	nonneg := depth < 2 && f.entailsD(a, depth+1)
	if nonneg {
		out = append(out, ql, a.sub(bq), bq.add(b).addc(-1).sub(a))
		if !isC {
			out = append(out, a.sub(ql)) // q <= a since b >= 1
			if depth < 2 && f.entailsD(a.sub(b), depth+1) {
				out = append(out, ql.addc(-1)) // a >= b
			}
		}
	} else {
		// |a - b*q| <= b-1
		out = append(out, a.sub(bq).add(b).addc(-1), bq.add(b).addc(-1).sub(a))
		if depth < 2 && f.entailsD(a.neg(), depth+1) {
			out = append(out, ql.neg(), bq.sub(a))
			if !isC {
				out = append(out, ql.sub(a)) // q >= a since b >= 1
			}
		} else if depth < 2 && f.entailsD(a.add(b).addc(-1), depth+1) {
			// a > -b: the quotient is not negative
			out = append(out, ql)
		}
	}
	return out
}

func (f *Facts) productAxioms(m Mono, depth int) []*Lin {
	if len(m.Vars) != 2 {
		return nil
	}
	x, y := linOf(m.Vars[0]), linOf(m.Vars[1])
	xy := x.mul(y)
	var out []*Lin
	x0 := f.entailsD(x, depth+1)
	y0 := f.entailsD(y, depth+1)
	if x0 && y0 {
		out = append(out, xy)
		if f.entailsD(x.addc(-1), depth+1) {
			out = append(out, xy.sub(y))
		}
		if f.entailsD(y.addc(-1), depth+1) {
			out = append(out, xy.sub(x))
		}
		if f.entailsD(xy.addc(-1), depth+1) {
			out = append(out, x.addc(-1), y.addc(-1))
		}
	}
	if x0 && f.entailsD(y.neg(), depth+1) || y0 && f.entailsD(x.neg(), depth+1) {
		out = append(out, xy.neg())
	}
	return out
}

// and adds the facts of h; ok tells if they do not contradict those of f.
func (f *Facts) and(h *Facts) (g *Facts, ok bool) {
	g = f
	for _, l := range h.ge {
		g = g.withGe(l)
	}
	for _, l := range h.ne {
		if g.truth(mkEq0(l)) == 1 {
			return nil, false
		}
		if g.truth(mkEq0(l)) == 0 {
			g = g.withNe(l)
		}
	}
	for t, v := range h.bools {
		w := g.truth(t)
		if (w == 1 && !v) || (w == -1 && v) {
			return nil, false
		}
		g = g.withBool(t, v)
	}
	if g != f && g.inconsistent() {
		return nil, false
	}
	return g, true
}

func (f *Facts) entailsGe(l *Lin) bool { return f.entailsD(l, 0) }

func (f *Facts) entailsEq(l *Lin) bool {
	if c, ok := l.isConst(); ok {
		return c == 0
	}
	return f.entailsGe(l) && f.entailsGe(l.neg())
}

// eq reports whether the facts entail a == b.
func (f *Facts) eq(a, b *Term) bool {
	if a == b {
		return true
	}
	if !isIntTerm(a) || !isIntTerm(b) {
		return false
	}
	return f.entailsEq(linOf(a).sub(linOf(b)))
}

// le reports whether the facts entail a + c <= b.
func (f *Facts) le(a, b *Term, c int64) bool {
	return f.entailsGe(linOf(b).sub(linOf(a)).addc(-c))
}

func isIntTerm(t *Term) bool {
	return t.Op == "lin" || isIntType(t.Typ) || t.Op == "len" || t.Op == "quo"
}

func (f *Facts) inconsistent() bool { return f.entailsD(linConst(-1), 0) }

func (f *Facts) entailsD(l *Lin, depth int) bool {
	if c, ok := l.isConst(); ok && c >= 0 {
		return true
	}
	l = tighten(l)
	key := l.key()
	if depth > 0 {
		key = "d" + key
		if depth > 1 {
			key = "d" + key
		}
	}
	if v, ok := f.memo[key]; ok {
		return v
	}
	f.memo[key] = false // cuts recursion through axioms
	r := f.prove(l, depth)
	f.memo[key] = r
	return r
}

func (f *Facts) prove(l *Lin, depth int) bool {
	// relevant facts: connected component over atoms
	goal := l.neg().addc(-1)
	set := []*Lin{goal}
	vars := map[string]bool{}
	var addVars func(x *Lin)
	addVars = func(x *Lin) {
		for _, m := range x.M {
			vars[m.Key] = true
			for _, v := range m.Vars {
				k := monoKey([]*Term{v})
				if vars[k] && len(m.Vars) > 1 {
					continue
				}
				vars[k] = true
				if v.Op == "quo" || v.Op == "fdiv" {
					for _, a := range v.Args {
						addVars(linOf(a))
					}
				}
			}
		}
	}
	addVars(goal)
	used := make([]bool, len(f.ge))
	_, constGoal := l.isConst()
	for ch := true; ch; {
		ch = false
		for i, g := range f.ge {
			if used[i] {
				continue
			}
			hit := constGoal
			for _, m := range g.M {
				if vars[m.Key] {
					hit = true
				}
			}
			if c, ok := g.isConst(); ok && c < 0 {
				return true
			}
			if hit {
				used[i] = true
				set = append(set, g)
				addVars(g)
				ch = true
			}
		}
	}
	set = f.axioms(set, depth)
	return fmUnsat(set)
}

// fmUnsat reports whether inequalities contradict each other.
func fmUnsat(set []*Lin) bool {
	unsat, gaveUp := fmEliminate(set, false)
	if gaveUp {
		unsat, _ = fmEliminate(set, true)
	}
	return unsat
}

// row is an inequality sum a[i]*x[i] + c >= 0, with the given ones that it was
// derived from.
type row struct {
	c    int64
	a    []int64
	from []uint64
	n    int
}

// fmEliminate eliminates variables one after the other and reports whether a
// contradiction appears, or whether it gave up. With prune, inequalities that
// were derived from more than one more than the number of variables eliminated
// are dropped: they are redundant (Kohler's rule).
func fmEliminate(set []*Lin, prune bool) (unsat, gaveUp bool) {
	words := 0
	if prune {
		words = (len(set) + 63) / 64
	}
	var names []string
	seen := map[string]bool{}
	for _, l := range set {
		for _, m := range l.M {
			if !seen[m.Key] {
				seen[m.Key] = true
				names = append(names, m.Key)
			}
		}
	}
	sort.Strings(names)
	index := map[string]int{}
	for i, k := range names {
		index[k] = i
	}
	width := len(names)
	cur := make([]*row, 0, len(set))
	for i, l := range set {
		r := &row{c: l.C, a: make([]int64, width), n: 1}
		for _, m := range l.M {
			r.a[index[m.Key]] = m.Coef
		}
		if prune {
			r.from = make([]uint64, words)
			r.from[i/64] |= 1 << uint(i%64)
		}
		cur = append(cur, r)
	}
	cur = dedupeRows(cur)
	pos := make([]int, width)
	neg := make([]int, width)
	for round := 1; ; round++ {
		for i := range pos {
			pos[i], neg[i] = 0, 0
		}
		for _, r := range cur {
			zero := true
			for i, c := range r.a {
				if c > 0 {
					pos[i]++
					zero = false
				} else if c < 0 {
					neg[i]++
					zero = false
				}
			}
			if zero && r.c < 0 {
				return true, false
			}
		}
		// the variable with the fewest products
		best, bestCost := -1, 1<<30
		for i := range pos {
			if pos[i]+neg[i] == 0 {
				continue
			}
			if c := pos[i]*neg[i] - pos[i] - neg[i]; c < bestCost {
				best, bestCost = i, c
			}
		}
		if best < 0 {
			return false, false
		}
		if n := pos[best] * neg[best]; n > 3000 && !prune || n > 60000 {
			return false, true
		}
		var ps, ns, rest []*row
		for _, r := range cur {
			switch {
			case r.a[best] > 0:
				ps = append(ps, r)
			case r.a[best] < 0:
				ns = append(ns, r)
			default:
				rest = append(rest, r)
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				r := &row{}
				if prune {
					r.from = make([]uint64, words)
					for i := range r.from {
						r.from[i] = p.from[i] | n.from[i]
						r.n += bits.OnesCount64(r.from[i])
					}
					if r.n > round+1 {
						continue
					}
				}
				cp, cn := p.a[best], -n.a[best]
				g := gcd(cp, cn)
				cp, cn = cp/g, cn/g
				r.a = make([]int64, width)
				r.c = cn*p.c + cp*n.c
				big := false
				d := int64(0)
				for i := range r.a {
					v := cn*p.a[i] + cp*n.a[i]
					if v > 1<<40 || v < -(1<<40) {
						big = true
						break
					}
					if v != 0 {
						r.a[i] = v
						if d != 1 {
							d = gcd(d, v)
						}
					}
				}
				if big {
					continue
				}
				if d < 0 {
					d = -d
				}
				if d > 1 {
					for i := range r.a {
						r.a[i] /= d
					}
					q := r.c / d
					if r.c%d != 0 && r.c < 0 {
						q--
					}
					r.c = q
				}
				rest = append(rest, r)
			}
		}
		cur = dedupeRows(rest)
		if len(cur) > 3000 {
			return false, true
		}
	}
}

// dedupeRows keeps, for each left-hand side, the strongest bound.
func dedupeRows(set []*row) []*row {
	best := make(map[string]int, len(set))
	out := set[:0]
	var buf []byte
	for _, r := range set {
		buf = buf[:0]
		zero := true
		for i, c := range r.a {
			if c != 0 {
				zero = false
				buf = binary.AppendVarint(buf, int64(i))
				buf = binary.AppendVarint(buf, c)
			}
		}
		if zero && r.c >= 0 {
			continue
		}
		if i, ok := best[string(buf)]; !ok {
			best[string(buf)] = len(out)
			out = append(out, r)
		} else if b := out[i]; r.c < b.c || r.c == b.c && r.n < b.n {
			out[i] = r
		}
	}
	return out
}

func coefOf(l *Lin, key string) int64 {
	for _, m := range l.M {
		if m.Key == key {
			return m.Coef
		}
	}
	return 0
}

// dedupe keeps, for each left-hand side, the strongest bound.
func dedupe(set []*Lin) []*Lin {
	best := map[string]*Lin{}
	var order []string
	for _, l := range set {
		if c, ok := l.isConst(); ok && c >= 0 {
			continue
		}
		k := (&Lin{M: l.M}).key()
		if b, ok := best[k]; !ok {
			best[k] = l
			order = append(order, k)
		} else if l.C < b.C {
			best[k] = l
		}
	}
	out := make([]*Lin, 0, len(order))
	for _, k := range order {
		out = append(out, best[k])
	}
	return out
}

// truth evaluates a boolean term: 1 true, -1 false, 0 unknown.
func (f *Facts) truth(t *Term) int {
	switch t.Op {
	case "true":
		return 1
	case "false":
		return -1
	case "not":
		return -f.truth(t.Args[0])
	case "ge0":
		l := linOf(t.Args[0])
		if f.entailsGe(l) {
			return 1
		}
		if f.entailsGe(l.neg().addc(-1)) {
			return -1
		}
		return 0
	case "eq0":
		l := linOf(t.Args[0])
		if f.entailsEq(l) {
			return 1
		}
		if f.entailsGe(l.addc(-1)) || f.entailsGe(l.neg().addc(-1)) {
			return -1
		}
		for _, n := range f.ne {
			if n.key() == l.key() || n.key() == l.neg().key() {
				return -1
			}
		}
		return 0
	}
	if v, ok := f.bools[t]; ok {
		if v {
			return 1
		}
		return -1
	}
	if t.Op == "typeok" {
		for b, v := range f.bools {
			if v && b.Op == "typeok" && b.Args[0] == t.Args[0] && b != t && concreteAux(b) && concreteAux(t) {
				return -1
			}
			if v && b.Op == "eq" && t.Args[0] == b.Args[0] && b.Args[1] == tNil {
				return -1
			}
		}
	}
	if t.Op == "eq" && t.Args[1] == tNil {
		// a value of a known dynamic type is not nil
		for b, v := range f.bools {
			if v && b.Op == "typeok" && b.Args[0] == t.Args[0] {
				return -1
			}
		}
	}
	return 0
}

func concreteAux(t *Term) bool { return len(t.Aux) > 0 && t.Aux[0] != '?' }

// assume adds a condition; ok is false when the result is contradictory.
func (f *Facts) assume(t *Term, v bool) (g *Facts, ok bool) {
	switch f.truth(t) {
	case 1:
		return f, v
	case -1:
		return f, !v
	}
	switch t.Op {
	case "not":
		return f.assume(t.Args[0], !v)
	case "ge0":
		l := linOf(t.Args[0])
		if v {
			return f.withGe(l), true
		}
		return f.withGe(l.neg().addc(-1)), true
	case "eq0":
		l := linOf(t.Args[0])
		if v {
			g = f.withGe(l).withGe(l.neg())
			return g, !g.inconsistent()
		}
		return f.withNe(l), true
	}
	return f.withBool(t, v), true
}
