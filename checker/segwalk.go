package main

import (
	"fmt"
	"os"
)

// A second pass over the paths of the interpreter that tracks what comparisons
// say about ranges of a collection: "for all k in [lo, hi): less(k, ref) is v".
// Loops get such facts, and further linear relations, by proposing candidates
// that hold at entry and dropping those that an iteration does not preserve.

type seg struct {
	coll   *Term
	ref    *Lin // nil: adjacent pairs, less(k, k-1) is val
	left   bool // less(k, ref); otherwise less(ref, k)
	val    bool
	lo, hi *Lin
}

func (s seg) String() string {
	if s.ref == nil {
		return fmt.Sprintf("less(k,k-1)=%v for k in [%v, %v)", s.val, s.lo.term(), s.hi.term())
	}
	if s.left {
		return fmt.Sprintf("less(k,%v)=%v for k in [%v, %v)", s.ref.term(), s.val, s.lo.term(), s.hi.term())
	}
	return fmt.Sprintf("less(%v,k)=%v for k in [%v, %v)", s.ref.term(), s.val, s.lo.term(), s.hi.term())
}

func (s *seg) same(t *seg, f *Facts) bool {
	if s.coll != t.coll || s.left != t.left || s.val != t.val || (s.ref == nil) != (t.ref == nil) {
		return false
	}
	return s.ref == nil || f.entailsEq(s.ref.sub(t.ref))
}

type segState struct {
	f     *Facts
	extra []*Lin
	segs  []seg
	dead  bool
}

func (s *segState) clone() *segState {
	return &segState{f: s.f, extra: s.extra[:len(s.extra):len(s.extra)], segs: s.segs[:len(s.segs):len(s.segs)], dead: s.dead}
}

// with continues with the facts of another part of the program.
func (s *segState) with(f *Facts) *segState {
	t := s.clone()
	for _, l := range s.extra {
		f = f.withGe(l)
	}
	t.f = f
	return t
}

func (s *segState) learn(l *Lin) {
	if s.f.entailsGe(l) {
		return
	}
	s.f = s.f.withGe(l)
	s.extra = append(s.extra[:len(s.extra):len(s.extra)], l)
	if s.f.inconsistent() {
		s.dead = true
	}
}

func (s *segState) add(g seg) {
	if s.f.entailsGe(g.lo.sub(g.hi)) {
		return
	}
	for i := range s.segs {
		t := &s.segs[i]
		if t.same(&g, s.f) && s.f.entailsGe(g.lo.sub(t.lo)) && s.f.entailsGe(t.hi.sub(g.hi)) {
			return
		}
	}
	s.segs = append(s.segs[:len(s.segs):len(s.segs)], g)
}

// holds: do the facts imply g?
func (s *segState) holds(g seg) bool {
	if s.dead {
		return true
	}
	segs := s.segs
	if g.ref != nil && !g.val {
		segs = append(segs[:len(segs):len(segs)], seg{coll: g.coll, ref: g.ref, left: g.left, lo: g.ref, hi: g.ref.addc(1)})
	}
	used := make([]bool, len(segs))
	cur := g.lo
	for {
		if s.f.entailsGe(cur.sub(g.hi)) {
			return true
		}
		next := -1
		for i := range segs {
			t := &segs[i]
			if used[i] || !t.same(&g, s.f) || !s.f.entailsGe(cur.sub(t.lo)) {
				continue
			}
			if s.f.entailsGe(t.hi.sub(g.hi)) {
				return true
			}
			if s.f.entailsGe(t.hi.sub(cur).addc(-1)) {
				next = i
				break
			}
			if next < 0 && s.f.entailsGe(t.hi.sub(cur)) {
				next = i
			}
		}
		if next < 0 {
			return false
		}
		used[next] = true
		cur = segs[next].hi
	}
}

type segWalk struct {
	x     *Exec
	less  func(e *Event) (coll, a, b *Term, ok bool)
	swap  func(e *Event) (coll, a, b *Term, ok bool)
	mods  func(e *Event) *Term                                      // other changes: the collection, nil if none
	gain  func(w *segWalk, e *Event, s *segState) []seg             // what the result of a call tells
	dom   func(coll *Term, k *Lin, f *Facts) (lo, hi *Lin, ok bool) // the sorted range that k is in
	visit func(e *Event, s *segState)                               // called once per event, with what is known before it
	loopV func(e *Event, s *segState, conts []*segState)            // called once per loop
	heads []*Lin
	quiet int
}

func newest(l *Lin) int {
	n := 0
	for _, m := range l.M {
		for _, v := range m.Vars {
			walkTerm(v, func(t *Term) {
				if t.Op == "atom" && t.ID > n {
					n = t.ID
				}
			})
		}
	}
	return n
}

func (w *segWalk) walk(es []*Event, s *segState) *segState {
	s = s.clone()
	for _, e := range es {
		if s.dead {
			return s
		}
		if w.visit != nil && w.quiet == 0 {
			w.visit(e, s)
		}
		if c, a, b, ok := w.less(e); ok {
			if len(e.Res) == 1 {
				if v := s.f.truth(e.Res[0]); v != 0 {
					w.learnLess(s, c, a, b, v > 0)
				}
			}
			continue
		}
		if c, a, b, ok := w.swap(e); ok {
			w.doSwap(s, c, linOf(a), linOf(b))
			continue
		}
		switch {
		case e.Kind == "Loop":
			s = w.loop(e, s)
		case e.Kind == "Alt" || e.Kind == "Go":
			for _, p := range e.Sub {
				w.walk(p.Events, s.with(p.Facts))
			}
		case len(e.Par) > 0:
			for _, b := range e.Par {
				for _, p := range b {
					w.walk(p.Events, s.with(p.Facts))
				}
			}
		}
		for _, c := range w.modified([]*Event{e}) {
			s.dropColl(c)
		}
		if w.gain != nil {
			for _, g := range w.gain(w, e, s) {
				s.add(g)
			}
		}
	}
	return s
}

func (s *segState) dropColl(c *Term) {
	var keep []seg
	for _, g := range s.segs {
		if g.coll != c {
			keep = append(keep, g)
		}
	}
	s.segs = keep
}

// modified lists the collections that events change, loops excluded.
func (w *segWalk) modified(es []*Event) []*Term {
	var out []*Term
	if len(es) == 1 && es[0].Kind == "Loop" {
		return nil
	}
	walkEvents(es, func(e *Event) {
		if c, _, _, ok := w.swap(e); ok {
			out = append(out, c)
		}
		if c := w.mods(e); c != nil {
			out = append(out, c)
		}
	})
	return out
}

func (w *segWalk) learnLess(s *segState, c, at, bt *Term, val bool) {
	a, b := linOf(at), linOf(bt)
	if val {
		if s.f.entailsEq(a.sub(b)) {
			s.dead = true
			return
		}
		if s.f.entailsGe(a.sub(b)) {
			s.learn(a.sub(b).addc(-1))
		} else if s.f.entailsGe(b.sub(a)) {
			s.learn(b.sub(a).addc(-1))
		}
	}
	not := func(k *Lin, g *seg) { // k is not in g
		if s.f.entailsGe(k.sub(g.lo)) {
			s.learn(k.sub(g.hi))
		} else if s.f.entailsGe(g.hi.sub(k).addc(-1)) {
			s.learn(g.lo.sub(k).addc(-1))
		}
	}
	segs := s.segs
	for i := range segs {
		g := &segs[i]
		if g.coll != c {
			continue
		}
		if g.ref == nil {
			if g.val != val && s.f.entailsEq(a.sub(b).addc(-1)) {
				not(a, g)
			}
			continue
		}
		if g.val != val {
			if g.left && s.f.entailsEq(g.ref.sub(b)) {
				not(a, g)
			}
			if !g.left && s.f.entailsEq(g.ref.sub(a)) {
				not(b, g)
			}
		}
		if g.val && val { // asymmetry
			if g.left && s.f.entailsEq(g.ref.sub(a)) {
				not(b, g)
			}
			if !g.left && s.f.entailsEq(g.ref.sub(b)) {
				not(a, g)
			}
		}
		if s.dead {
			return
		}
	}
	put := func(ref, k *Lin, left, v bool) {
		lo, hi := k, k.addc(1)
		if w.dom != nil {
			if dl, dh, ok := w.dom(c, k, s.f); ok {
				if left == v { // smaller elements are less too, larger ones are not
					lo = dl
				} else {
					hi = dh
				}
			}
		}
		s.add(seg{c, ref, left, v, lo, hi})
	}
	put(b, a, true, val)
	put(a, b, false, val)
	if val {
		put(a, b, true, false)
		put(b, a, false, false)
	}
	if s.f.entailsEq(a.sub(b).addc(-1)) {
		s.add(seg{c, nil, false, val, a, a.addc(1)})
	}
}

func (w *segWalk) doSwap(s *segState, c *Term, a, b *Lin) {
	f := s.f
	if f.entailsEq(a.sub(b)) {
		return
	}
	eq := func(x, y *Lin) bool { return f.entailsEq(x.sub(y)) }
	ne := func(x, y *Lin) bool { return f.entailsGe(x.sub(y).addc(-1)) || f.entailsGe(y.sub(x).addc(-1)) }
	var out []seg
	for _, g := range s.segs {
		if g.coll != c {
			out = append(out, g)
			continue
		}
		in := func(p *Lin) int {
			if f.entailsGe(p.sub(g.lo)) && f.entailsGe(g.hi.sub(p).addc(-1)) {
				return 1
			}
			if f.entailsGe(g.lo.sub(p).addc(-1)) || f.entailsGe(p.sub(g.hi)) {
				return -1
			}
			return 0
		}
		if g.ref == nil {
			g2 := g
			g2.lo = g.lo.addc(-1)
			in2 := func(p *Lin) bool { return f.entailsGe(g.lo.sub(p).addc(-2)) || f.entailsGe(p.sub(g.hi)) }
			if in2(a) && in2(b) {
				out = append(out, g)
			}
			continue
		}
		both := s.holds(seg{c, g.ref, g.left, g.val, a, a.addc(1)}) && s.holds(seg{c, g.ref, g.left, g.val, b, b.addc(1)})
		switch {
		case eq(g.ref, a):
			g.ref = b
		case eq(g.ref, b):
			g.ref = a
		case ne(g.ref, a) && ne(g.ref, b):
		default:
			continue
		}
		if both {
			out = append(out, g)
			continue
		}
		ia, ib := in(a), in(b)
		if ia == ib && ia != 0 {
			out = append(out, g)
			continue
		}
		move := func(p, q *Lin) { // p is in the segment, q outside
			for _, h := range []seg{{c, g.ref, g.left, g.val, g.lo, p}, {c, g.ref, g.left, g.val, p.addc(1), g.hi}, {c, g.ref, g.left, g.val, q, q.addc(1)}} {
				if !f.entailsGe(h.lo.sub(h.hi)) {
					out = append(out, h)
				}
			}
		}
		if eq(g.hi, g.lo.addc(1)) && (eq(a, g.lo) || eq(b, g.lo)) { // the two may be the same
			if eq(a, g.lo) {
				g.lo = b
			} else {
				g.lo = a
			}
			g.hi = g.lo.addc(1)
			out = append(out, g)
			continue
		}
		shifted := false
		for _, pq := range [][2]*Lin{{a, b}, {b, a}} {
			d := int64(0)
			switch {
			case eq(pq[0], g.lo) && eq(pq[1], g.hi):
				d = 1
			case eq(pq[0], g.hi.addc(-1)) && eq(pq[1], g.lo.addc(-1)):
				d = -1
			}
			if d != 0 && !shifted { // none of them is in the segment, or one at its end
				shifted = true
				g.lo, g.hi = g.lo.addc(d), g.hi.addc(d)
				out = append(out, g)
			}
		}
		if shifted {
			continue
		}
		edge := func(p *Lin) bool {
			if eq(p, g.lo) {
				g.lo = g.lo.addc(1)
			} else if eq(p, g.hi.addc(-1)) {
				g.hi = g.hi.addc(-1)
			} else {
				return false
			}
			out = append(out, g)
			return true
		}
		switch {
		case ia == 1 && ib == -1:
			move(a, b)
		case ib == 1 && ia == -1:
			move(b, a)
		case ib == -1:
			edge(a)
		case ia == -1:
			edge(b)
		}
	}
	s.segs = out
}

func (w *segWalk) loop(e *Event, s *segState) *segState {
	lp := e.Loop
	x := w.x
	id := lp.K.ID
	mod := map[*Term]bool{}
	for _, c := range lp.Conts {
		for _, t := range w.modified(append([]*Event{{Kind: "body"}}, c.Events...)) {
			mod[t] = true
		}
	}
	var base, cands []seg
	for _, g := range s.segs {
		if mod[g.coll] {
			cands = append(cands, g)
		} else {
			base = append(base, g)
		}
	}
	var ints []*LoopVar
	for _, v := range lp.Vars {
		if isIntType(v.Typ) && v.Head != nil && v.Init != nil {
			ints = append(ints, v)
		}
	}
	// what is compared in the body
	type kind struct {
		coll      *Term
		ref       *Lin
		left, val bool
	}
	var kinds []kind
	haveK := map[string]bool{}
	putK := func(k kind) {
		key := k.coll.String() + "|adj"
		if k.ref != nil {
			key = k.coll.String() + "|" + k.ref.key()
		}
		if haveK[key] {
			return
		}
		haveK[key] = true
		if k.ref == nil {
			kinds = append(kinds, k)
			return
		}
		for i := 0; i < 4; i++ {
			kinds = append(kinds, kind{k.coll, k.ref, i&1 > 0, i&2 > 0})
		}
	}
	refs := []*Lin{}
	offs := []*Lin{linConst(0)} // what is added to variables to get an index
	haveOff := map[string]bool{offs[0].key(): true}
	for _, c := range lp.Conts {
		walkEvents(c.Events, func(q *Event) {
			if cl, a, b, ok := w.less(q); ok {
				for _, r := range []*Term{a, b} {
					off := &Lin{}
					for _, m := range linOf(r).M {
						if len(m.Vars) == 1 && newest(linOf(m.Vars[0])) < id {
							off = off.addScaled(linOf(m.Vars[0]), m.Coef)
						}
					}
					if newest(linOf(r)) >= id && !haveOff[off.key()] && len(offs) < 3 {
						haveOff[off.key()] = true
						offs = append(offs, off)
					}
					if newest(linOf(r)) < id {
						putK(kind{coll: cl, ref: linOf(r)})
						refs = append(refs, linOf(r))
					}
				}
				if d, isC := linOf(a).sub(linOf(b)).isConst(); isC && d == 1 {
					putK(kind{coll: cl})
				}
			}
		})
	}
	at0 := func(l *Lin) *Lin { return x.atInit(l, lp.Vars, lp.K) }
	for _, k := range kinds {
		for _, v := range ints {
			for _, cd := range [][2]int64{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {-1, 0}, {0, -1}, {-1, -1}, {1, 2}, {2, 1}} {
				h, i := linOf(v.Head).addc(cd[0]), linOf(v.Init).addc(cd[1])
				for _, lh := range [][2]*Lin{{i, h}, {h, i}} {
					for _, o := range offs {
						if sharesVar(o, linOf(v.Head)) {
							continue
						}
						g := seg{k.coll, k.ref, k.left, k.val, lh[0].add(o), lh[1].add(o)}
						g0 := g
						g0.lo, g0.hi = at0(g.lo), at0(g.hi)
						if s.holds(g0) {
							cands = append(cands, g)
						}
					}
				}
			}
		}
	}
	for _, k := range kinds {
		for _, v := range ints {
			for _, u := range ints {
				if u == v {
					continue
				}
				for _, cd := range [][2]int64{{0, 0}, {1, 0}, {0, 1}, {1, 1}} {
					g := seg{k.coll, k.ref, k.left, k.val, linOf(u.Head).addc(cd[0]), linOf(v.Head).addc(cd[1])}
					g0 := g
					g0.lo, g0.hi = at0(g.lo), at0(g.hi)
					if s.holds(g0) {
						cands = append(cands, g)
					}
				}
			}
		}
	}
	// linear relations
	invF := lp.Facts0
	for _, l := range lp.Inv {
		invF = invF.withGe(l)
	}
	var lins []*Lin
	var others []*Lin
	others = append(others, refs...)
	others = append(others, w.heads...)
	for _, v := range ints {
		others = append(others, linOf(v.Init), linOf(v.Head))
	}
	for _, g := range s.segs {
		others = append(others, g.lo, g.hi)
	}
	seen := map[string]bool{}
	for _, v := range ints {
		for _, o := range others {
			for _, c := range []int64{0, -1} {
				for _, l := range []*Lin{linOf(v.Head).sub(o).addc(c), o.sub(linOf(v.Head)).addc(c)} {
					if _, isC := l.isConst(); isC || seen[l.key()] {
						continue
					}
					seen[l.key()] = true
					if newest(o) > id && !isHead(o, ints) {
						continue
					}
					if !invF.entailsGe(l) && s.f.entailsGe(at0(l)) {
						lins = append(lins, l)
					}
				}
			}
		}
	}
	start := func(f *Facts) *segState {
		t := s.with(f)
		for _, l := range lins {
			t.learn(l)
		}
		t.segs = append(append([]seg(nil), base...), cands...)
		return t
	}
	w.quiet++
	for _, v := range ints {
		w.heads = append(w.heads, linOf(v.Head))
	}
	for round := 0; round < 60; round++ {
		changed := false
		for i, ct := range lp.Conts {
			t := start(ct.Facts)
			if t.dead {
				continue
			}
			end := w.walk(ct.Events, t)
			if end.dead {
				continue
			}
			var keepL []*Lin
			for _, l := range lins {
				if end.f.entailsGe(x.shift(l, lp.Vars, i, lp.K)) {
					keepL = append(keepL, l)
				}
			}
			var keepC []seg
			for _, g := range cands {
				n := g
				n.lo, n.hi = x.shift(g.lo, lp.Vars, i, lp.K), x.shift(g.hi, lp.Vars, i, lp.K)
				if end.holds(n) {
					keepC = append(keepC, g)
				}
			}
			if len(keepL) != len(lins) || len(keepC) != len(cands) {
				lins, cands = keepL, keepC
				changed = true
			}
		}
		if segDebug {
			fmt.Println("LOOP", lp.K, "round", round, "quiet", w.quiet)
			for _, l := range lins {
				fmt.Println("   lin", l.term())
			}
			for _, g := range cands {
				fmt.Println("   ", g)
			}
		}
		if !changed {
			break
		}
		if round == 59 {
			lins, cands = nil, nil
		}
	}
	w.quiet--
	if w.quiet == 0 {
		var ends []*segState
		for _, ct := range lp.Conts {
			t := start(ct.Facts)
			if !t.dead {
				t = w.walk(ct.Events, t)
			}
			ends = append(ends, t)
		}
		if w.loopV != nil {
			w.loopV(e, s, ends)
		}
	}
	w.heads = w.heads[:len(w.heads)-len(ints)]
	out := start(s.f)
	var keep []seg
	for _, g := range out.segs {
		if !out.f.entailsGe(g.lo.sub(g.hi)) {
			keep = append(keep, g)
		}
	}
	out.segs = keep
	return out
}

var segDebug = os.Getenv("SEGLOOP") != ""

func isHead(l *Lin, vs []*LoopVar) bool {
	for _, v := range vs {
		if linOf(v.Head).key() == l.key() {
			return true
		}
	}
	return false
}

// sharesVar: is there a variable in both?
func sharesVar(a, b *Lin) bool {
	for _, m := range a.M {
		for _, n := range b.M {
			if m.Key == n.Key {
				return true
			}
		}
	}
	return false
}
