package main

// StableSort: merges cover their ranges (S02), keep equal elements in order
// (S03), and use the temporary collection properly (S04).

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mrole says what a unit merges: two ranges of one collection, and where the
// result begins in another one.
type mrole struct {
	u    *Unit
	l, r span
	out  *Lin
}

func (m *mrole) at(args []*Term) (l, r span, out *Lin) {
	s := paramSub(m.u, args)
	return m.l.subst(s), m.r.subst(s), m.out.subst(s)
}

type stableA struct {
	*sortA
	gos    []*Event // the goroutines, by start
	merges map[*Unit]bool
	sorts  map[*Unit]bool
	mroles map[*Unit]*mrole
	src    map[*Unit]*Term // the collection read and the one written
	dst    map[*Unit]*Term
}

// resolve finds the value of a variable that a goroutine has set.
func (s *stableA) resolve(t *Term) *Term {
	if t == nil || t.Op != "load" {
		return t
	}
	a := s.resolveAddr(t.Args[0])
	for i := 0; i < 8; i++ {
		var found *Term
		for _, g := range s.gos {
			for _, p := range g.Sub {
				if p.Outcome != "return" || p.Facts.inconsistent() {
					continue
				}
				if v, ok := p.St.mem[a]; ok {
					if found != nil && found != v {
						return t
					}
					found = v
				}
			}
		}
		if found == nil {
			return t
		}
		if found.Op == "load" && found != t {
			return s.resolve(found)
		}
		return found
	}
	return t
}

func (s *stableA) resolveAddr(a *Term) *Term {
	switch a.Op {
	case "load":
		return s.resolve(a)
	case "field":
		b := s.resolveAddr(a.Args[0])
		if b == a.Args[0] {
			return a
		}
		n := mk("field", a.Aux, a.Typ, b)
		if fieldVars[n] == nil {
			fieldVars[n] = fieldVars[a]
		}
		return n
	}
	return a
}

// deref is the value of t with unresolved parts looked up.
func (s *stableA) value(t *Term) *Term { return s.resolve(t) }

// coll finds the collection: the original, or the temporary one.
func (s *stableA) coll(t *Term) *Term {
	t = s.value(t)
	if t != nil && t.Op == "iface" && len(t.Args) == 1 {
		t = t.Args[0]
	}
	if t == s.data || t != nil && t.Ev != nil && methodName(t.Ev) == "NewTemp" && s.value(t.Ev.Callee) == s.data {
		return t
	}
	return nil
}

// lessCall recognises a comparison, and the collection it looks at.
func (s *stableA) lessCall(e *Event) (c, a, b *Term, ok bool) {
	if c, a, b, ok := callOf(e, "Less", 2); ok {
		return s.coll(c), a, b, true
	}
	if e.Kind != "Call" || e.Callee == nil || len(e.Args) != 2 || len(e.Res) != 1 {
		return nil, nil, nil, false
	}
	f := s.value(e.Callee)
	if f.Op == "closure" && f.Fn != nil && strings.HasPrefix(f.Fn.Name(), "Less$") && len(f.Args) == 1 {
		return s.coll(f.Args[0]), e.Args[0], e.Args[1], true
	}
	return nil, nil, nil, false
}

// assignCall recognises the assignment of a range to another collection.
func (s *stableA) assignCall(e *Event) (from, to *Term, ok bool) {
	if e.Kind != "Call" || e.Callee == nil || len(e.Args) != 3 {
		return nil, nil, false
	}
	f := s.value(e.Callee)
	if f.Ev != nil && methodName(f.Ev) == "Assign" && len(f.Ev.Args) == 1 {
		return s.coll(f.Ev.Args[0]), s.coll(f.Ev.Callee), true
	}
	return nil, nil, false
}

func (s *stableA) has(es []*Event, what func(e *Event) bool) bool {
	t := false
	walkEvents(es, func(e *Event) { t = t || what(e) })
	return t
}

func (s *stableA) isAssign(e *Event) bool { _, _, ok := s.assignCall(e); return ok }

func (R *Report) ruleStable() {
	base := R.sortAnalysis("StableSort", "S02,S03,S04,S08")
	if base == nil {
		return
	}
	s := &stableA{sortA: base, merges: map[*Unit]bool{}, sorts: map[*Unit]bool{}, mroles: map[*Unit]*mrole{}, src: map[*Unit]*Term{}, dst: map[*Unit]*Term{}}
	units := append([]*Unit{s.A.Entry}, s.A.Units...)
	seen := map[*Event]bool{}
	for _, u := range units {
		for _, p := range u.Paths {
			walkEvents(p.Events, func(e *Event) {
				if e.Kind == "Go" && !seen[e] {
					seen[e] = true
					s.gos = append(s.gos, e)
				}
			})
		}
	}
	for _, u := range units {
		for _, p := range u.Paths {
			s.merges[u] = s.merges[u] || s.has(p.Events, s.isAssign)
			s.sorts[u] = s.sorts[u] || s.has(p.Events, func(e *Event) bool {
				return methodName(e) == "SequentialSort" || s.stdSort(e)
			})
		}
	}
	for changed := true; changed; {
		changed = false
		for _, u := range units {
			for _, r := range recsIn(u.Paths) {
				v := s.unitOf(u, r)
				if v == nil || v == u {
					continue
				}
				if s.sorts[v] && !s.sorts[u] {
					s.sorts[u], changed = true, true
				}
				if s.merges[v] && !s.sorts[v] && !s.merges[u] {
					s.merges[u], changed = true, true
				}
			}
		}
	}
	for _, u := range units {
		if s.sorts[u] {
			s.merges[u] = false
		}
	}
	n := 0
	for _, u := range s.A.Units {
		if s.merges[u] {
			n++
			s.mergeUnit(u)
		}
	}
	R.ob("S02", "merges", "sort.StableSort", s.fn.Pos(), n > 0, "no function that merges ranges was found")
	// the units that sort
	judge := func(u *Unit, r *role) *verdicts {
		v := &verdicts{cons: s.unitName(u)}
		for _, p := range u.Paths {
			if p.Facts.inconsistent() {
				continue
			}
			if v.ob("S02", "covers-range", u.Fn.Pos(), p.Outcome == "return", "a path of %s ends with a panic", s.unitName(u)) {
				s.judgeStable(v, u, r, p)
			}
		}
		return v
	}
	var rest []*Unit
	for _, u := range s.A.Units {
		if !s.merges[u] {
			rest = append(rest, u)
		}
	}
	for len(rest) > 0 {
		var next []*Unit
		for _, u := range rest {
			ready := true
			for _, q := range recsIn(u.Paths) {
				v := s.unitOf(u, q)
				for _, w := range rest {
					ready = ready && (v != w || v == u)
				}
			}
			if !ready {
				next = append(next, u)
				continue
			}
			var best *verdicts
			var bestR *role
			if s.sorts[u] {
				for _, sp := range s.roleSpans(u) {
					r := &role{u: u, s: sp}
					s.role[u] = r
					if v := judge(u, r); best == nil || v.bad < best.bad {
						best, bestR = v, r
					}
					if best.bad == 0 {
						break
					}
				}
			}
			if best == nil {
				best = &verdicts{cons: s.unitName(u)}
				best.ob("S02", "role", u.Fn.Pos(), !s.sorts[u], "no parameters of %s describe the part of the collection that it sorts", s.unitName(u))
			}
			s.role[u] = bestR
			R.emitAll(best)
		}
		if len(next) == len(rest) {
			R.ob("S02", "role", "sort.StableSort", s.fn.Pos(), false, "helpers of sort.StableSort call each other in turns")
			break
		}
		rest = next
	}
	entry := &role{u: s.A.Entry, s: span{linConst(0), s.size}}
	s.role[s.A.Entry] = entry
	R.emitAll(judge(s.A.Entry, entry))
	s.scratch(units)
	R.need("S02", "covers-range", 2)
	R.need("S02", "tiles", 1)
	R.need("S03", "cut", 2)
	R.need("S04", "ready", 1)
	R.need("S04", "paired", 1)
}

// ---- merging ----

// mergeRoles proposes what a unit merges, judged by the first call.
func (s *stableA) mergeRoles(u *Unit) []*mrole {
	if u.First == nil {
		return nil
	}
	sub := paramSub(u, u.First.Args)
	f := u.First.Facts
	var spans []span
	for _, sp := range u.spans() {
		c := sp.subst(sub)
		if u.Facts0.entailsGe(sp.hi.sub(sp.lo)) && f.entailsGe(c.hi.sub(c.lo)) {
			spans = append(spans, sp)
		}
	}
	var out []*mrole
	for _, l := range spans {
		for _, r := range spans {
			if !f.entailsEq(l.hi.subst(sub).sub(r.lo.subst(sub))) || !f.entailsGe(r.hi.subst(sub).sub(l.lo.subst(sub)).addc(-1)) {
				continue
			}
			for _, p := range u.Params {
				if p.Op == "atom" && isIntType(p.Typ) && f.entailsEq(linOf(p).subst(sub).sub(l.lo.subst(sub))) {
					out = append(out, &mrole{u: u, l: l, r: r, out: linOf(p)})
				}
			}
		}
	}
	return out
}

func (s *stableA) mergeUnit(u *Unit) {
	R := s.R
	cons := s.unitName(u)
	// the collections
	var less, from, to *Term
	okC := true
	set := func(p **Term, c *Term) {
		okC = okC && c != nil && (*p == nil || *p == c)
		*p = c
	}
	for _, p := range u.Paths {
		walkEvents(p.Events, func(e *Event) {
			if c, _, _, ok := s.lessCall(e); ok {
				set(&less, c)
			} else if a, b, ok := s.assignCall(e); ok {
				set(&from, a)
				set(&to, b)
			} else if e.Kind == "Call" {
				R.ob("S02", "known-operation", cons, e.Pos, s.harmless(e), "while merging, %s is called", callName(e))
			}
			if e.Kind == "Go" {
				R.ob("S02", "known-operation", cons, e.Pos, false, "a goroutine is started while merging")
			}
		})
	}
	if !R.ob("S04", "paired", cons, u.Fn.Pos(), okC && from != nil && to != nil, "it is not clear which collections are merged") {
		return
	}
	R.ob("S04", "paired", cons, u.Fn.Pos(), from != to, "elements are assigned within one collection")
	R.ob("S04", "paired", cons, u.Fn.Pos(), less == nil || less == from, "the elements compared are not those of the collection that is merged")
	s.src[u], s.dst[u] = from, to
	var best *verdicts
	var bestR *mrole
	roles := s.mergeRoles(u)
	for _, m := range roles {
		s.mroles[u] = m
		v := &verdicts{cons: cons}
		for _, p := range u.Paths {
			if p.Facts.inconsistent() {
				continue
			}
			if v.ob("S02", "tiles", u.Fn.Pos(), p.Outcome == "return", "a merge may panic") {
				s.mergePath(v, u, m, p)
			}
		}
		if best == nil || v.bad < best.bad {
			best, bestR = v, m
		}
		if best.bad == 0 {
			break
		}
	}
	if best == nil {
		R.ob("S02", "role", cons, u.Fn.Pos(), false, "no parameters describe two neighbouring ranges to merge, and the place of the result")
		return
	}
	s.mroles[u] = bestR
	R.emitAll(best)
}

func callName(e *Event) string {
	if e.Name != "" {
		return e.Name
	}
	return "an unknown function"
}

// harmless calls cannot change a collection.
func (s *stableA) harmless(e *Event) bool {
	switch methodName(e) {
	case "Len", "NewTemp", "Assign", "Less":
		return true
	}
	if e.Static == nil || e.Static.Pkg == nil {
		return false
	}
	switch e.Static.Pkg.Pkg.Path() {
	case "runtime", "math", "math/bits":
		return true
	}
	return false
}

// a block is a piece of work of a merge.
type mblock struct {
	ev     *Event
	rec    bool
	src, r span // an assignment has src only
	dst    *Lin
	par    *Event
	branch int
}

// evidence is what a comparison has shown: elements are in order, or not.
type evidence struct {
	less bool
	a, b *Lin
	// it holds unless head == init
	head, init *Lin
}

type malt struct {
	bs []*mblock
	f  *Facts
}

// blocks lists the work of straight code; loops that assign are left out.
func (s *stableA) blocks(u *Unit, es []*Event, f *Facts) (alts []malt, why string) {
	alts = []malt{{nil, f}}
	add := func(b *mblock) {
		for i := range alts {
			alts[i].bs = append(alts[i].bs[:len(alts[i].bs):len(alts[i].bs)], b)
		}
	}
	for _, e := range es {
		switch {
		case e.Kind == "Rec":
			v := s.unitOf(u, e)
			if v == nil {
				return nil, "call of a helper that was not analysed"
			}
			if !s.merges[v] {
				continue
			}
			m := s.mroles[v]
			if m == nil {
				return nil, "it is not clear what a helper merges"
			}
			if v != u && (s.src[v] != s.src[u] || s.dst[v] != s.dst[u]) {
				return nil, "a helper merges other collections"
			}
			l, r, o := m.at(e.Args)
			add(&mblock{ev: e, rec: true, src: l, r: r, dst: o})
		case s.isAssign(e):
			i, j, n := linOf(e.Args[0]), linOf(e.Args[1]), linOf(e.Args[2])
			add(&mblock{ev: e, src: span{j, j.add(n)}, dst: i})
		case e.Kind == "Alt":
			for _, c := range e.Sub {
				if s.has(c.Events, s.isAssign) {
					return nil, "ranges are assigned in a helper with several outcomes"
				}
			}
		case len(e.Par) > 0:
			for b, paths := range e.Par {
				var next []malt
				for _, p := range paths {
					if p.Outcome != "return" {
						continue
					}
					sub, w := s.blocks(u, p.Events, p.Facts)
					if w != "" {
						return nil, w
					}
					for _, q := range p.Events {
						if q.Kind == "Loop" && s.has([]*Event{q}, s.isAssign) {
							return nil, "ranges are assigned in a loop of a parallel function"
						}
					}
					if len(e.Params) > 0 && s.has(p.Events, func(q *Event) bool { return q.Kind == "Rec" || s.isAssign(q) }) {
						return nil, "ranges are merged in a range loop"
					}
					for _, a := range alts {
						for _, q := range sub {
							g := joinFacts(a.f, q.f)
							n := malt{append([]*mblock(nil), a.bs...), g}
							for _, x := range q.bs {
								y := *x
								if y.par == nil {
									y.par, y.branch = e, b
								}
								n.bs = append(n.bs, &y)
							}
							next = append(next, n)
						}
					}
				}
				if len(paths) > 0 {
					alts = next
				}
				if len(alts) > 64 {
					return nil, "too many combinations of paths"
				}
			}
		}
	}
	return alts, ""
}

// merging is the state of a merge along a path: how much of the two ranges has
// been dealt with.
type merging struct {
	s      *stableA
	v      *verdicts
	u      *Unit
	m      *mrole
	cl, cr *Lin
	ev     []evidence
}

func (s *stableA) mergePath(v *verdicts, u *Unit, m *mrole, p *Path) {
	g := &merging{s: s, v: v, u: u, m: m, cl: m.l.lo, cr: m.r.lo}
	if !g.run(p.Events, p.Facts) {
		return
	}
	pos := lastPos(p.Events, u.Fn.Pos())
	f := p.Facts
	s.mergesTogether(v, u, m, p)
	v.ob("S02", "tiles", pos, f.entailsEq(g.cl.sub(m.l.hi)), "the left range is not merged up to its end")
	v.ob("S02", "tiles", pos, f.entailsEq(g.cr.sub(m.r.hi)), "the right range is not merged up to its end")
}

func lastPos(es []*Event, d token.Pos) token.Pos {
	for i := len(es) - 1; i >= 0; i-- {
		if es[i].Pos.IsValid() {
			return es[i].Pos
		}
	}
	return d
}

// run follows events to their end.
func (g *merging) run(es []*Event, f *Facts) bool {
	s := g.s
	from := 0
	for i, e := range es {
		if e.Kind != "Loop" {
			continue
		}
		if !s.has([]*Event{e}, func(q *Event) bool { return s.isAssign(q) || q.Kind == "Rec" && s.merges[s.unitOf(g.u, q)] }) {
			continue
		}
		if !g.straight(es[from:i], f) || !g.loop(e, f) {
			return false
		}
		from = i + 1
	}
	return g.straight(es[from:], f)
}

// loop: the cursors advance with variables of the loop.
func (g *merging) loop(e *Event, f *Facts) bool {
	lp := e.Loop
	var ls, rs []*Lin // possible cursors at the header, as functions of the loop
	type cur struct {
		v   *LoopVar
		off *Lin
		lin *Lin
	}
	var lc, rc []cur
	for _, v := range lp.Vars {
		if !isIntType(v.Typ) || v.Head == nil {
			continue
		}
		if f.entailsEq(linOf(v.Init).sub(g.cl)) {
			lc = append(lc, cur{v: v, lin: linOf(v.Head)})
		}
		if f.entailsEq(linOf(v.Init).sub(g.cr)) {
			rc = append(rc, cur{v: v, lin: linOf(v.Head)})
		}
	}
	_, _ = ls, rs
	lc = append(lc, cur{lin: g.cl})
	rc = append(rc, cur{lin: g.cr})
	next := func(c cur, i int) *Lin {
		if c.v == nil {
			return c.lin
		}
		return linOf(c.v.Nexts[i])
	}
	var best *verdicts
	var bl, br *Lin
	var bev []evidence
	for _, a := range lc {
		for _, b := range rc {
			v := &verdicts{cons: g.v.cons}
			for i, c := range lp.Conts {
				if c.Facts.inconsistent() {
					continue
				}
				h := &merging{s: g.s, v: v, u: g.u, m: g.m, cl: a.lin, cr: b.lin, ev: g.ev}
				if !h.run(c.Events, c.Facts) {
					continue
				}
				pos := lastPos(c.Events, e.Pos)
				v.ob("S02", "tiles", pos, c.Facts.entailsEq(h.cl.sub(next(a, i))) && c.Facts.entailsEq(h.cr.sub(next(b, i))), "a round of the loop does not continue where the last one ended")
			}
			if best == nil || v.bad < best.bad {
				best, bl, br, bev = v, a.lin, b.lin, g.ev
			}
		}
	}
	g.v.list = append(g.v.list, best.list...)
	g.v.bad += best.bad
	g.cl, g.cr, g.ev = bl, br, bev
	return best.bad == 0
}

// straight deals with events outside of loops that assign.
func (g *merging) straight(es []*Event, f *Facts) bool {
	s := g.s
	v := g.v
	g.collect(es, f)
	alts, why := s.blocks(g.u, es, f)
	if !v.ob("S02", "tiles", lastPos(es, g.u.Fn.Pos()), why == "", "%s", why) {
		return false
	}
	if len(alts) == 0 {
		return false
	}
	var ends []*merging
	for _, a := range alts {
		if a.f.inconsistent() {
			continue
		}
		h := *g
		if !h.tile(a.bs, a.f) {
			return false
		}
		ends = append(ends, &h)
	}
	if len(ends) == 0 {
		return false
	}
	for _, h := range ends[1:] {
		if !v.ob("S02", "tiles", lastPos(es, g.u.Fn.Pos()), f.entailsEq(h.cl.sub(ends[0].cl)) && f.entailsEq(h.cr.sub(ends[0].cr)), "parallel paths merge different ranges") {
			return false
		}
	}
	g.cl, g.cr = ends[0].cl, ends[0].cr
	return true
}

func (g *merging) tile(bs []*mblock, f *Facts) bool {
	v, m := g.v, g.m
	left := append([]*mblock(nil), bs...)
	for len(left) > 0 {
		at := -1
		var nl, nr *Lin
		out := m.out.add(g.cl.sub(m.l.lo)).add(g.cr.sub(m.r.lo))
		for i, b := range left {
			if !f.entailsEq(b.dst.sub(out)) && !(!b.rec && f.entailsEq(b.src.hi.sub(b.src.lo))) {
				continue
			}
			if b.rec {
				if f.entailsEq(b.src.lo.sub(g.cl)) && f.entailsEq(b.r.lo.sub(g.cr)) {
					at, nl, nr = i, b.src.hi, b.r.hi
				}
			} else if f.entailsEq(b.src.hi.sub(b.src.lo)) {
				at, nl, nr = i, g.cl, g.cr // nothing
			} else if f.entailsEq(b.src.lo.sub(g.cl)) && f.entailsGe(m.l.hi.sub(b.src.hi)) {
				at, nl, nr = i, b.src.hi, g.cr
			} else if f.entailsEq(b.src.lo.sub(g.cr)) {
				at, nl, nr = i, g.cl, b.src.hi
			}
			if at >= 0 {
				break
			}
		}
		if at < 0 {
			b := left[0]
			v.ob("S02", "tiles", b.ev.Pos, false, "this does not take the next elements of the ranges to their place in the result")
			return false
		}
		b := left[at]
		left = append(left[:at:at], left[at+1:]...)
		pos := b.ev.Pos
		ok := v.ob("S02", "tiles", pos, f.entailsGe(nl.sub(g.cl)) && f.entailsGe(m.l.hi.sub(nl)), "this may go beyond the left range")
		ok = v.ob("S02", "tiles", pos, f.entailsGe(nr.sub(g.cr)) && f.entailsGe(m.r.hi.sub(nr)), "this may go beyond the right range") && ok
		if !ok {
			return false
		}
		if b.rec {
			if g.s.unitOf(g.u, b.ev) == g.u {
				all := m.l.hi.sub(m.l.lo).add(m.r.hi).sub(m.r.lo)
				part := nl.sub(g.cl).add(nr).sub(g.cr)
				v.ob("S02", "smaller", pos, f.entailsGe(all.sub(part).addc(-1)), "a merge is divided into parts that are not smaller")
				v.ob("S08", "divided", pos, atMost(f, part, all, 3, 4), "a part is larger than three quarters of a merge")
			}
		}
		v.ob("S03", "cut", pos, g.cut(f, true, nl, nr, g.cl, g.cr, 0), "an element of the left range may be placed before a smaller one of the right range, or is not known to be in order")
		v.ob("S03", "cut", pos, g.cut(f, false, nl, nr, g.cl, g.cr, 0), "an element of the right range may be placed before an equal or smaller one of the left range")
		g.cl, g.cr = nl, nr
	}
	return true
}

// cut: when the ranges have been merged up to l and r, no element before l
// sorts after one from r on (left), or every element before r sorts before those
// from l on. It is known to hold up to pl and pr.
func (g *merging) cut(f *Facts, left bool, l, r, pl, pr *Lin, depth int) bool {
	m := g.m
	if f.inconsistent() {
		return true
	}
	if left {
		if f.entailsGe(m.l.lo.sub(l)) || f.entailsGe(r.sub(m.r.hi)) || f.entailsGe(pl.sub(l)) && f.entailsGe(r.sub(pr)) {
			return true
		}
	} else {
		if f.entailsGe(m.r.lo.sub(r)) || f.entailsGe(l.sub(m.l.hi)) || f.entailsGe(pr.sub(r)) && f.entailsGe(l.sub(pl)) {
			return true
		}
	}
	if depth > 3 {
		return false
	}
	for i := len(g.ev) - 1; i >= 0; i-- {
		e := g.ev[i]
		fits := false
		if left {
			fits = !e.less && f.entailsGe(r.sub(e.a)) && f.entailsGe(e.b.sub(l).addc(1)) && g.within(f, e)
		} else {
			fits = e.less && f.entailsGe(e.a.sub(r).addc(1)) && f.entailsGe(l.sub(e.b)) && g.within(f, e)
		}
		if !fits {
			continue
		}
		if e.head == nil {
			return true
		}
		h := f.withGe(e.head.sub(e.init)).withGe(e.init.sub(e.head))
		if g.cut(h, left, l, r, pl, pr, depth+1) {
			return true
		}
	}
	return false
}

// within: the comparison is one of an element of the right range with one of the
// left. A position that a loop has reached was compared.
func (g *merging) within(f *Facts, e evidence) bool {
	m := g.m
	if e.head != nil {
		return true
	}
	return f.entailsGe(e.a.sub(m.r.lo)) && f.entailsGe(m.r.hi.sub(e.a).addc(-1)) &&
		f.entailsGe(e.b.sub(m.l.lo)) && f.entailsGe(m.l.hi.sub(e.b).addc(-1))
}

// collect notes what the comparisons among events have shown, and checks that
// they are in bounds.
func (g *merging) collect(es []*Event, f *Facts) {
	s, m := g.s, g.m
	g.ev = g.ev[:len(g.ev):len(g.ev)]
	for _, e := range es {
		if _, a, b, ok := s.lessCall(e); ok {
			g.inRange(e, f, a, b)
			if t := f.truth(e.Res[0]); t != 0 {
				g.ev = append(g.ev, evidence{less: t == 1, a: linOf(a), b: linOf(b)})
			}
		}
		for _, b := range e.Par {
			for _, p := range b {
				walkEvents(p.Events, func(q *Event) {
					if _, x, y, ok := s.lessCall(q); ok {
						g.inRange(q, p.Facts, x, y)
					}
				})
			}
		}
		if e.Kind != "Loop" {
			continue
		}
		lp := e.Loop
		var rounds []*segState
		for _, c := range lp.Conts {
			s.walkLess(c.Events, c.Facts, g.inRange)
			rounds = append(rounds, &segState{f: c.Facts, dead: c.Facts.inconsistent()})
		}
		if !s.has([]*Event{e}, s.isAssign) {
			g.v.ob("S02", "terminates", e.Pos, ranks(s.A.Exec, e, rounds), "no bound is found on the number of rounds of this loop")
		}
		for _, v := range lp.Vars {
			if v.Head == nil || !isIntType(v.Typ) {
				continue
			}
			// forms: the variable is the first or second element compared, or
			// the one after it
			offs := g.offsets(lp, v)
			for form := 0; form < 4*len(offs); form++ {
				off := offs[form/4]
				form := form % 4
				less := form == 1 || form == 3
				var other *Lin
				good, moves := true, false
				for i, c := range lp.Conts {
					next := linOf(v.Nexts[i])
					if c.Facts.inconsistent() || c.Facts.entailsEq(next.sub(linOf(v.Head))) {
						continue
					}
					next = next.add(off)
					moves = true
					found := false
					for _, q := range c.Events {
						_, a, b, ok := s.lessCall(q)
						if !ok || c.Facts.truth(q.Res[0]) != truthOf(less) {
							continue
						}
						la, lb := linOf(a), linOf(b)
						// the elements belong to the right and the left range
						if !(c.Facts.entailsGe(la.sub(m.r.lo)) && c.Facts.entailsGe(m.r.hi.sub(la).addc(-1)) &&
							c.Facts.entailsGe(lb.sub(m.l.lo)) && c.Facts.entailsGe(m.l.hi.sub(lb).addc(-1))) {
							continue
						}
						fits, o := false, lb
						switch form {
						case 0: // not less(v, x)
							fits = c.Facts.entailsGe(next.sub(la))
						case 1: // less(v-1, x)
							fits = c.Facts.entailsGe(la.sub(next).addc(1))
						case 2: // not less(c, v-1)
							fits, o = c.Facts.entailsGe(lb.sub(next).addc(1)), la
						case 3: // less(c, v)
							fits, o = c.Facts.entailsGe(next.sub(lb)), la
						}
						if fits && olderThan(o, lp) && (other == nil || other.key() == o.key()) {
							found, other = true, o
							break
						}
					}
					good = good && found
				}
				if !good || !moves {
					continue
				}
				h := linOf(v.Head).add(off)
				x := evidence{less: less, head: h, init: linOf(v.Init).add(off)}
				switch form {
				case 0:
					x.a, x.b = h, other
				case 1:
					x.a, x.b = h.addc(-1), other
				case 2:
					x.a, x.b = other, h.addc(-1)
				case 3:
					x.a, x.b = other, h
				}
				g.ev = append(g.ev, x)
			}
		}
	}
}

// offsets: what may be added to a variable of a loop to get a position.
func (g *merging) offsets(lp *Loop, v *LoopVar) []*Lin {
	out := []*Lin{linConst(0)}
	for _, c := range lp.Conts {
		for _, q := range c.Events {
			_, a, b, ok := g.s.lessCall(q)
			if !ok {
				continue
			}
			for _, t := range []*Term{a, b} {
				off := &Lin{}
				for _, m := range linOf(t).M {
					if len(m.Vars) == 1 && olderThan(linOf(m.Vars[0]), lp) {
						off = off.addScaled(linOf(m.Vars[0]), m.Coef)
					}
				}
				if len(out) < 3 && !olderThan(linOf(t), lp) && !sharesVar(off, linOf(v.Head)) && off.key() != out[0].key() && off.key() != out[len(out)-1].key() {
					out = append(out, off)
				}
			}
		}
	}
	return out
}

func (s *stableA) walkLess(es []*Event, f *Facts, do func(e *Event, f *Facts, a, b *Term)) {
	for _, e := range es {
		if _, a, b, ok := s.lessCall(e); ok {
			do(e, f, a, b)
		}
		if e.Kind == "Loop" {
			for _, c := range e.Loop.Conts {
				s.walkLess(c.Events, c.Facts, do)
			}
		}
	}
}

func truthOf(b bool) int {
	if b {
		return 1
	}
	return -1
}

// olderThan: the value does not change in the loop.
func olderThan(l *Lin, lp *Loop) bool {
	ok := true
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Op == "atom" && t.ID >= lp.K.ID {
			ok = false
		}
		for _, v := range lp.Vars {
			if v.Head == t && v.Head.Op == "atom" {
				ok = false
			}
		}
		if t.Lin != nil {
			for _, m := range t.Lin.M {
				for _, q := range m.Vars {
					walk(q)
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	for _, m := range l.M {
		for _, q := range m.Vars {
			walk(q)
		}
	}
	return ok
}

// inRange: both elements compared belong to the ranges that are merged.
func (g *merging) inRange(e *Event, f *Facts, a, b *Term) {
	for _, t := range []*Term{a, b} {
		i := linOf(t)
		in := func(s span) bool { return f.entailsGe(i.sub(s.lo)) && f.entailsGe(s.hi.sub(i).addc(-1)) }
		g.v.ob("S02", "index-in-range", e.Pos, f.inconsistent() || in(g.m.l) || in(g.m.r), "index %v of a comparison may be outside of the ranges that are merged", t)
	}
}

// ---- sorting ----

// hold: the range of the collection is sorted and has its elements.
type hold struct {
	coll *Term
	span
}

type effect struct {
	coll  *Term
	sp    span
	write bool
	ev    *Event
}

// stableState is what is known along a path of a unit that sorts.
type stableState struct {
	holds []hold
	effs  []effect
	f     *Facts
}

func (st *stableState) drop(f *Facts, coll *Term, sp span) {
	var out []hold
	for _, h := range st.holds {
		if h.coll == coll && !disjoint(f, h.span, sp) {
			continue
		}
		out = append(out, h)
	}
	st.holds = out
}

func disjoint(f *Facts, a, b span) bool {
	return f.entailsGe(b.lo.sub(a.hi)) || f.entailsGe(a.lo.sub(b.hi)) || f.entailsGe(a.lo.sub(a.hi)) || f.entailsGe(b.lo.sub(b.hi))
}

func (st *stableState) sorted(f *Facts, coll *Term, sp span) bool {
	if f.entailsGe(sp.lo.sub(sp.hi)) {
		return true
	}
	for _, h := range st.holds {
		if h.coll == coll && f.entailsEq(h.lo.sub(sp.lo)) && f.entailsEq(h.hi.sub(sp.hi)) {
			return true
		}
	}
	return false
}

func (s *stableA) judgeStable(v *verdicts, u *Unit, r *role, p *Path) {
	st := &stableState{f: p.Facts}
	if !s.follow(v, u, r, p.Events, st) {
		return
	}
	e := inTurns(p.Events, func(e *Event) bool { return e.Kind == "Rec" && s.sorts[s.unitOf(u, e)] })
	v.ob("S08", "at-the-same-time", lastPos(p.Events, u.Fn.Pos()), e == nil || small(st.f, r.s.size()), "parts of the range are sorted one after the other")
	v.ob("S02", "covers-range", lastPos(p.Events, u.Fn.Pos()), st.sorted(st.f, s.data, r.s), "not all of %v is sorted, in the original collection, when %s returns", r.s, s.unitName(u))
}

// any collection other than the original, for effects of sorting
var tempColl = mk("tempcoll", "", types.Typ[types.Int])

func (s *stableA) follow(v *verdicts, u *Unit, r *role, es []*Event, st *stableState) bool {
	sortPart := func(e *Event, sp span) {
		f := st.f
		v.ob("S02", "index-in-range", e.Pos, f.entailsGe(sp.lo) && f.entailsGe(sp.hi.sub(sp.lo)) && f.entailsGe(s.size.sub(sp.hi)), "%v is not a range of the collection", sp)
		var hs []hold
		for _, h := range st.holds {
			if disjoint(f, h.span, sp) {
				hs = append(hs, h)
			}
		}
		st.holds = append(hs, hold{s.data, sp})
		st.effs = append(st.effs, effect{s.data, sp, true, e}, effect{tempColl, sp, true, e})
	}
	var merged []span
	for _, e := range es {
		switch {
		case e.Kind == "Rec":
			w := s.unitOf(u, e)
			if !v.ob("S02", "covers-range", e.Pos, w != nil, "call of a helper that was not analysed") {
				return false
			}
			switch {
			case s.merges[w]:
				m := s.mroles[w]
				if m == nil || s.src[w] == nil {
					return false // reported
				}
				l, rr, o := m.at(e.Args)
				f := st.f
				whole := span{l.lo, rr.hi}
				src, dst := s.src[w], s.dst[w]
				v.ob("S02", "merge-neighbours", e.Pos, f.entailsEq(l.hi.sub(rr.lo)), "ranges are merged that are not neighbours: %v and %v", l, rr)
				v.ob("S02", "merge-neighbours", e.Pos, f.entailsEq(o.sub(l.lo)), "the merged range has another place than its parts")
				v.ob("S02", "index-in-range", e.Pos, f.entailsGe(whole.lo) && f.entailsGe(s.size.sub(whole.hi)), "%v is not a range of the collection", whole)
				for _, sp := range []span{l, rr} {
					ok := st.sorted(f, src, sp)
					v.ob("S02", "merge-sorted", e.Pos, ok, "%v is merged although it is not known to be sorted", sp)
					v.ob("S04", "reads-latest", e.Pos, ok, "%v is merged from a collection in which it was not sorted before", sp)
				}
				for _, o := range merged {
					v.ob("S08", "at-the-same-time", e.Pos, !disjoint(f, o, whole) || small(f, o.size()) || small(f, whole.size()), "%v is merged only after %v", whole, o)
				}
				merged = append(merged, whole)
				st.drop(f, dst, whole)
				st.holds = append(st.holds, hold{dst, whole})
				st.effs = append(st.effs, effect{src, whole, false, e}, effect{dst, whole, true, e})
			case s.sorts[w]:
				wr := s.role[w]
				if wr == nil {
					return false
				}
				sp := wr.at(e.Args)
				if w == u {
					v.ob("S02", "smaller", e.Pos, st.f.entailsGe(r.s.hi.sub(r.s.lo).sub(sp.hi).add(sp.lo).addc(-1)), "a range is divided into parts that are not smaller")
					v.ob("S08", "divided", e.Pos, atMost(st.f, sp.size(), r.s.size(), 1, 2), "a part is larger than half of the range")
				}
				sortPart(e, sp)
			}
		case e.Kind == "Call" && s.stdSort(e):
			stable := e.Static.Name() == "Stable"
			v.ob("S03", "stable-parts", e.Pos, stable, "the collection is sorted by a method that does not keep equal elements in order")
			sortPart(e, span{linConst(0), s.size})
			v.ob("S08", "small-sequential", e.Pos, small(st.f, s.size), "a range of any size may be sorted sequentially")
		case e.Kind == "Call":
			if c, i, j, ok := callOf(e, "SequentialSort", 2); ok {
				if v.ob("S02", "covers-range", e.Pos, s.value(c) == s.data, "another collection than the original is sorted") {
					sortPart(e, span{linOf(i), linOf(j)})
					v.ob("S08", "small-sequential", e.Pos, small(st.f, linOf(j).sub(linOf(i))), "a range of any size may be sorted sequentially")
				}
			} else if s.isAssign(e) {
				v.ob("S02", "known-operation", e.Pos, false, "a range is assigned although nothing is merged")
			} else if _, _, _, ok := s.lessCall(e); !ok {
				v.ob("S02", "known-operation", e.Pos, s.harmless(e), "%s is called while sorting", callName(e))
			}
		case e.Kind == "Go":
			bad := false
			for _, p := range e.Sub {
				bad = bad || s.has(p.Events, func(q *Event) bool {
					return methodName(q) == "SequentialSort" || methodName(q) == "Swap" || s.stdSort(q) || q.Kind == "Rec" || s.isAssign(q)
				})
			}
			v.ob("S02", "known-operation", e.Pos, !bad, "the collection is rearranged in a goroutine that is not awaited by a function of package parallel")
		case e.Kind == "Loop" || e.Kind == "Alt":
			bad := s.has([]*Event{e}, func(q *Event) bool {
				return methodName(q) == "SequentialSort" || s.stdSort(q) || q.Kind == "Rec" || s.isAssign(q) || methodName(q) == "Swap"
			})
			v.ob("S02", "known-operation", e.Pos, !bad, "ranges are sorted or merged in a loop or a helper with several outcomes")
		case len(e.Par) > 0:
			var branches []*stableState
			for _, paths := range e.Par {
				var got *stableState
				for _, p := range paths {
					if p.Outcome != "return" || p.Facts.inconsistent() {
						continue
					}
					b := &stableState{holds: append([]hold(nil), st.holds...), f: joinFacts(st.f, p.Facts)}
					if len(e.Params) > 0 && s.has(p.Events, func(q *Event) bool { return q.Kind == "Rec" || methodName(q) == "SequentialSort" }) {
						v.ob("S02", "known-operation", e.Pos, false, "ranges are sorted or merged in a range loop")
					}
					if !s.follow(v, u, r, p.Events, b) {
						return false
					}
					if got != nil && len(b.effs)+len(got.effs) > 0 {
						v.ob("S02", "known-operation", e.Pos, false, "a parallel function sorts or merges in several ways")
					}
					if got == nil {
						got = b
					}
				}
				if got != nil {
					branches = append(branches, got)
				}
			}
			f := st.f
			for i, a := range branches {
				for _, b := range branches[:i] {
					for _, x := range a.effs {
						for _, y := range b.effs {
							if !x.write && !y.write || !sameColl(s, x.coll, y.coll) {
								continue
							}
							v.ob("S02", "disjoint-parts", x.ev.Pos, disjoint(f, x.sp, y.sp), "%v is worked on at the same time as %v", x.sp, y.sp)
						}
					}
				}
			}
			var hs []hold
			for _, h := range st.holds {
				gone := false
				for _, b := range branches {
					for _, x := range b.effs {
						gone = gone || x.write && sameColl(s, x.coll, h.coll) && !disjoint(f, x.sp, h.span)
					}
				}
				if !gone {
					hs = append(hs, h)
				}
			}
			for _, b := range branches {
				for _, h := range b.holds {
					was := false
					for _, o := range st.holds {
						was = was || o == h
					}
					if !was {
						hs = append(hs, h)
					}
				}
			}
			st.holds = hs
			for _, b := range branches {
				st.effs = append(st.effs, b.effs...)
			}
		}
	}
	return true
}

func sameColl(s *stableA, a, b *Term) bool {
	if a == tempColl && b != s.data || b == tempColl && a != s.data {
		return true
	}
	return a == b
}

// ---- the temporary collection ----

// scratch decides S04: variables that the creating goroutine sets are only used
// after waiting for it.
func (s *stableA) scratch(units []*Unit) {
	R := s.R
	type cell struct {
		g    *Event
		done *Term // what is waited for
		kind string
	}
	cells := map[*Term]*cell{}
	for _, g := range s.gos {
		for _, p := range g.Sub {
			if p.Facts.inconsistent() {
				continue
			}
			if !R.ob("S04", "ready", "sort.StableSort", g.Pos, p.Outcome == "return", "creating the temporary collection may end with a panic") {
				continue
			}
			// the signal, and stores
			var sig *Event
			var stores []*Event
			for _, e := range flatEvents(p.Events) {
				switch e.Kind {
				case "Store":
					if isLocalRoot(rootOf(e.Addr)) && (g.Callee == nil || rootOf(e.Addr).ID < g.Callee.ID) {
						stores = append(stores, e)
						R.ob("S04", "ready", "sort.StableSort", e.Pos, sig == nil, "a variable is set after it was announced to be ready")
					}
				case "WgDone", "Close":
					if sig == nil {
						sig = e
					}
				}
			}
			if len(stores) == 0 {
				continue
			}
			if !R.ob("S04", "ready", "sort.StableSort", g.Pos, sig != nil, "it is not announced that the temporary collection is ready") {
				continue
			}
			for _, e := range stores {
				kind := "WgWait"
				if sig.Kind == "Close" {
					kind = "Recv"
				}
				c := &cell{g: g, done: sig.Addr, kind: kind}
				if sig.Kind == "Close" && c.done == nil && len(sig.Args) > 0 {
					c.done = sig.Args[0]
				}
				if o := cells[e.Addr]; o != nil {
					R.ob("S04", "ready", "sort.StableSort", e.Pos, o.done == c.done && o.kind == c.kind, "a variable is announced to be ready in different ways")
				}
				cells[e.Addr] = c
			}
		}
	}
	// wait groups: counted up once, before the start, and down once
	for _, g := range s.gos {
		for _, c := range cells {
			if c.g != g || c.kind != "WgWait" {
				continue
			}
			for _, u := range units {
				for _, p := range u.Paths {
					n, after := 0, false
					var add *Term
					has := false
					for _, e := range p.Events {
						if e == g {
							has = true
							R.ob("S04", "ready", "sort.StableSort", g.Pos, n == 1 && isOne(add), "the wait group is not counted up once before the goroutine is started")
						}
						if e.Kind == "WgAdd" && e.Addr == c.done {
							n++
							add = e.Val
							after = after || has
						}
						if e.Kind == "WgDone" && e.Addr == c.done {
							R.ob("S04", "ready", "sort.StableSort", e.Pos, false, "the wait group is counted down by another goroutine")
						}
					}
					R.ob("S04", "ready", "sort.StableSort", g.Pos, !after, "the wait group is counted up again")
				}
			}
		}
	}
	// every use comes after a wait, in the same unit
	uses := 0
	for _, u := range units {
		var walk func(es []*Event, waited map[*Term]bool)
		walk = func(es []*Event, waited map[*Term]bool) {
			for _, e := range es {
				switch {
				case e.Kind == "WgWait":
					waited[e.Addr] = true
				case e.Kind == "Recv":
					if e.Addr != nil {
						waited[e.Addr] = true
					}
					if len(e.Args) > 0 {
						waited[e.Args[0]] = true
					}
				case e.Kind == "Load":
					if c := cells[e.Addr]; c != nil {
						uses++
						R.ob("S04", "ready", s.unitName(u), e.Pos, waited[c.done], "%s is used without waiting for the goroutine that sets it", cellName(e.Addr))
					}
				case e.Kind == "Store":
					if c := cells[e.Addr]; c != nil {
						R.ob("S04", "ready", s.unitName(u), e.Pos, false, "%s is set again", cellName(e.Addr))
					}
				}
				if e.Kind == "Loop" {
					for _, c := range e.Loop.Conts {
						walk(c.Events, cloneSet(waited))
					}
				}
				for _, b := range e.Par {
					for _, p := range b {
						walk(p.Events, cloneSet(waited))
					}
				}
				if e.Kind == "Alt" {
					for _, p := range e.Sub {
						walk(p.Events, cloneSet(waited))
					}
				}
				if e.Kind == "Go" {
					for _, g := range s.gos {
						if g == e {
							for _, p := range e.Sub {
								s.goUses(u, p.Events, func(a *Term) bool { c := cells[a]; return c != nil && c.g != e })
							}
						}
					}
				}
			}
		}
		for _, p := range u.Paths {
			if !p.Facts.inconsistent() {
				walk(p.Events, map[*Term]bool{})
			}
		}
	}
	if len(cells) == 0 {
		R.ob("S04", "ready", "sort.StableSort", s.fn.Pos(), true, "")
	}
	_ = uses
}

func (s *stableA) goUses(u *Unit, es []*Event, bad func(a *Term) bool) {
	walkEvents(es, func(e *Event) {
		if e.Kind == "Load" && bad(e.Addr) {
			s.R.ob("S04", "ready", s.unitName(u), e.Pos, false, "%s is used by another goroutine", cellName(e.Addr))
		}
	})
}

func isOne(t *Term) bool {
	n, ok := intVal(t)
	return ok && n == 1
}

func cellName(a *Term) string {
	n := a.String()
	return strings.TrimPrefix(n, "cell:")
}

var _ = (*ssa.Function)(nil)

func cloneSet(m map[*Term]bool) map[*Term]bool {
	n := map[*Term]bool{}
	for k, v := range m {
		n[k] = v
	}
	return n
}
