package main

// Evenness of the batches of a range (F12).
//
// The bound of a call for a range of s elements in n batches is
// max(ceil(s/n), n). By induction over the recursion it is enough that every
// batch, and every recursive call, of a path fits this bound.

// fjPart is a batch (m = 1) or a recursive call for m batches of z elements.
type fjPart struct {
	z, m *Lin
	f    *Facts
}

func (it *fjItem) portions(f *Facts) []fjPart {
	if it.loop {
		return it.parts
	}
	m := it.cnt
	if !it.rec {
		m = linConst(1)
	}
	return []fjPart{{it.hi.sub(it.lo), m, f}}
}

// checkEven judges a path for a range that is not empty.
func (c *fj) checkEven(U *fjUnit, its []*fjItem, f *Facts) {
	if U.cnt == nil || c.d.pkg == "sequential" {
		return
	}
	name, fpos := U.name, U.u.Fn.Pos()
	s, n := U.hi.sub(U.lo), U.cnt
	if g := f.withGe(n.addc(-1)); !g.inconsistent() {
		for _, it := range its {
			ps := it.portions(g)
			ok := len(ps) > 0
			for _, p := range ps {
				ok = ok && p.m != nil && c.fits(p, s, n)
			}
			c.ob("F12", "even-batches", name, it.pos, ok, "a batch may have more than its share of the elements: more than the size of the range divided by the number of batches")
		}
	}
	if U.u != c.entry {
		return
	}
	// the default number of batches
	g := f.withGe(n).withGe(n.neg())
	if g.inconsistent() {
		return
	}
	sum := linConst(0)
	for _, it := range its {
		if it.cnt == nil {
			sum = nil
			break
		}
		sum = sum.add(it.cnt)
	}
	ok := false
	if sum != nil {
		ok = g.entailsGe(sum.sub(s))
		for _, a := range atomsOf(append(g.ge, sum)) {
			if a.Op == "pure" && a.Aux == "runtime.GOMAXPROCS" {
				ok = ok || g.entailsGe(sum.sub(linOf(a)))
			}
		}
	}
	c.ob("F12", "default-count", name, fpos, ok, "if no number of batches is requested there may be fewer of them than processors and than elements")
}

func atomsOf(ls []*Lin) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, l := range ls {
		if l == nil {
			continue
		}
		for _, m := range l.M {
			for _, v := range m.Vars {
				if !seen[v] {
					seen[v] = true
					out = append(out, v)
				}
			}
		}
	}
	return out
}

// fits tells whether p keeps to the bound of a call for s elements in n
// batches.
func (c *fj) fits(p fjPart, s, n *Lin) bool {
	f := p.f.withGe(n.addc(-1)).withGe(s.addc(-1))
	if f.inconsistent() {
		return true
	}
	z, m := p.z, p.m
	if f.entailsGe(n.sub(z)) {
		return true
	}
	if !f.entailsGe(n.sub(m)) || !f.entailsGe(m.addc(-1)) {
		return false
	}
	if f.entailsGe(m.sub(z)) || f.entailsGe(s.sub(z)) && (f.entailsGe(m.sub(n)) || f.entailsGe(linConst(1).sub(n))) {
		return true
	}
	// quotients by n, and what is known of their products with fractions of n
	var qs []*Term
	atoms := atomsOf(append(append([]*Lin{}, f.ge...), z, m))
	for _, a := range atoms {
		if (a.Op == "quo" || a.Op == "fdiv") && linOf(a.Args[1]).key() == n.key() && f.entailsGe(linOf(a)) {
			qs = append(qs, a)
		}
	}
	for _, q := range qs {
		for _, h := range atoms {
			if h == q {
				continue
			}
			for _, k := range []int64{2, 1} {
				rest := n.addScaled(linOf(h), -k)
				if f.entailsGe(rest) {
					f = f.withGe(linOf(q).mul(rest))
					break
				}
			}
		}
	}
	if f.entailsGe(n.sub(z)) {
		return true
	}
	for _, q := range qs {
		for _, d := range []int64{1, 0} {
			// v <= ceil(s/n), z <= v*m
			v := linOf(q).addc(d)
			if f.entailsGe(s.addc(-1).sub(v.addc(-1).mul(n))) && f.entailsGe(v.mul(m).sub(z)) {
				return true
			}
		}
	}
	return false
}
