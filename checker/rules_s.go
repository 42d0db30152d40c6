package main

// Rules for package sort: common parts, Sort and IsSorted.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sortCfg analyses entry; other exported functions of the package are opaque.
func (P *Program) sortCfg(entry *ssa.Function) Config {
	return Config{
		Models: true, Merge: true, Stable: true, Loads: true,
		PureCall: func(m *types.Func) bool { return m.Name() == "Len" },
		Opaque: func(f *ssa.Function) bool {
			return f != entry && f.Pkg == entry.Pkg && f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil
		},
	}
}

// methodName is the name of the method that a dynamic call invokes.
func methodName(e *Event) string {
	if e.Kind != "Call" && e.Kind != "Pure" {
		return ""
	}
	if i := strings.LastIndex(e.Name, ")."); i >= 0 && e.Static == nil {
		return e.Name[i+2:]
	}
	return ""
}

func callOf(e *Event, name string, n int) (c, a, b *Term, ok bool) {
	if methodName(e) != name || e.Callee == nil || len(e.Args) != n {
		return nil, nil, nil, false
	}
	if n == 0 {
		return e.Callee, nil, nil, true
	}
	return e.Callee, e.Args[0], e.Args[1], true
}

// verdict is an obligation whose outcome is known but not yet reported.
type verdict struct {
	prop, rule string
	pos        token.Pos
	ok         bool
	msg        string
	cons       string
}

type verdicts struct {
	list []verdict
	bad  int
	cons string
}

func (v *verdicts) ob(prop, rule string, pos token.Pos, ok bool, format string, a ...interface{}) bool {
	m := ""
	if !ok {
		m = fmt.Sprintf(format, a...)
		if prop != "S08" {
			v.bad++
		}
	}
	v.list = append(v.list, verdict{prop, rule, pos, ok, m, v.cons})
	return ok
}

func (R *Report) emitAll(v *verdicts) {
	for _, o := range v.list {
		R.ob(o.prop, o.rule, o.cons, o.pos, o.ok, "%s", o.msg)
	}
}

// span is a half-open interval of indices.
type span struct{ lo, hi *Lin }

func (s span) String() string { return fmt.Sprintf("[%v, %v)", s.lo.term(), s.hi.term()) }

func (s span) subst(m map[*Term]*Lin) span { return span{s.lo.subst(m), s.hi.subst(m)} }

// role says which part of the collection a call of a unit deals with.
type role struct {
	u    *Unit
	s    span
	good bool // for tests: the result that vouches for the part
}

// at gives the role for the arguments of a call.
func (r *role) at(args []*Term) span {
	return r.s.subst(paramSub(r.u, args))
}

func paramSub(u *Unit, args []*Term) map[*Term]*Lin {
	m := map[*Term]*Lin{}
	for i, p := range u.Params {
		if i < len(args) && p.Op == "atom" && isIntType(p.Typ) && p != args[i] {
			m[p] = linOf(args[i])
		}
	}
	return m
}

func onlyParams(l *Lin, u *Unit, extra ...*Term) bool {
	ok := true
	for _, m := range l.M {
		for _, v := range m.Vars {
			found := false
			for _, p := range u.Params {
				found = found || p == v
			}
			for _, p := range extra {
				found = found || p == v
			}
			ok = ok && found
		}
	}
	return ok
}

// spans lists intervals that the integer parameters of a unit may stand for.
func (u *Unit) spans() []span {
	var out []span
	var ps []*Lin
	for _, p := range u.Params {
		if isIntType(p.Typ) {
			ps = append(ps, linOf(p))
		}
	}
	for i, a := range ps {
		for j, b := range ps {
			if i == j {
				continue
			}
			out = append(out, span{a, a.add(b)}, span{a, b}, span{a, b.addc(1)})
		}
	}
	return out
}

func addSpan(list []span, s span) []span {
	for _, o := range list {
		if o.lo.key() == s.lo.key() && o.hi.key() == s.hi.key() {
			return list
		}
	}
	return append(list, s)
}

type sortA struct {
	R    *Report
	A    *Analysis
	fn   *ssa.Function
	data *Term
	size *Lin
	role map[*Unit]*role
}

func (R *Report) sortAnalysis(name, props string) *sortA {
	fn := R.P.fn("sort", name)
	if fn == nil {
		for _, p := range strings.Split(props, ",") {
			R.ob(p, "analysis-complete", "sort."+name, token.NoPos, false, "function sort.%s not found", name)
		}
		return nil
	}
	A := R.P.analyse(fn, R.P.sortCfg(fn), nil)
	R.covered(props, A)
	s := &sortA{R: R, A: A, fn: fn, data: A.Entry.Params[0], role: map[*Unit]*role{}}
	// the length of the collection
	for _, u := range append([]*Unit{A.Entry}, A.Units...) {
		for _, p := range u.Paths {
			walkEvents(p.Events, func(e *Event) {
				if c, _, _, ok := callOf(e, "Len", 0); ok && c == s.data && len(e.Res) == 1 {
					s.size = linOf(e.Res[0])
				}
			})
		}
	}
	if s.size == nil {
		s.size = linOf(mk("pure", "Len", types.Typ[types.Int], s.data))
	}
	return s
}

func (s *sortA) unitName(u *Unit) string {
	if u.Fn == s.fn {
		return "sort." + s.fn.Name()
	}
	return short(u.Fn.String())
}

// unitOf finds the unit that a recursive call enters.
func (s *sortA) unitOf(from *Unit, e *Event) *Unit {
	if from != nil && from.Fn == e.Static {
		return from
	}
	if u := s.A.Of[e]; u != nil {
		return u
	}
	return nil
}

// standard sorting functions applied to the whole collection
func (s *sortA) stdSort(e *Event) bool {
	if e.Kind != "Call" || e.Static == nil || e.Static.Pkg == nil || e.Static.Pkg.Pkg.Path() != "sort" {
		return false
	}
	switch e.Static.Name() {
	case "Sort", "Stable":
		return len(e.Args) == 1 && e.Args[0] == s.data
	}
	return false
}

// piece is a part of the collection that is sorted by a call.
type piece struct {
	span
	ev   *Event
	rec  *Unit
	par  *Event
	br   int
	from *Unit
}

type pieceAlt struct {
	ps []piece
	f  *Facts
}

// pieces lists what a path sorts, once per combination of paths of the parallel
// branches.
func (s *sortA) pieces(u *Unit, es []*Event, f *Facts, roleOf func(v *Unit) *role) (alts []pieceAlt, why string) {
	alts = []pieceAlt{{nil, f}}
	addP := func(p piece) {
		p.from = u
		for i := range alts {
			alts[i].ps = append(alts[i].ps[:len(alts[i].ps):len(alts[i].ps)], p)
		}
	}
	for _, e := range es {
		switch {
		case e.Kind == "Rec":
			v := s.unitOf(u, e)
			if v == nil {
				return nil, "call of a helper that was not analysed"
			}
			r := roleOf(v)
			if r == nil {
				continue
			}
			addP(piece{span: r.at(e.Args), ev: e, rec: v})
		case e.Kind == "Call" && s.stdSort(e):
			addP(piece{span: span{linConst(0), s.size}, ev: e})
		case e.Kind == "Call":
			if c, i, j, ok := callOf(e, "SequentialSort", 2); ok && c == s.data {
				addP(piece{span: span{linOf(i), linOf(j)}, ev: e})
			}
		case e.Kind == "Go":
			if s.touches(e.Sub) {
				return nil, "the collection is used in a goroutine that is not awaited by a function of package parallel"
			}
		case e.Kind == "Loop":
			for _, c := range e.Loop.Conts {
				if s.sortsIn(u, c.Events, roleOf) {
					return nil, "parts are sorted in a loop"
				}
			}
		case e.Kind == "Alt":
			for _, c := range e.Sub {
				if s.sortsIn(u, c.Events, roleOf) {
					return nil, "parts are sorted in a helper"
				}
			}
		case len(e.Par) > 0:
			for b, paths := range e.Par {
				var next []pieceAlt
				for _, p := range paths {
					if p.Outcome != "return" {
						continue
					}
					sub, w := s.pieces(u, p.Events, p.Facts, roleOf)
					if w != "" {
						return nil, w
					}
					for _, a := range alts {
						for _, q := range sub {
							g := a.f
							for _, l := range q.f.ge {
								g = g.withGe(l)
							}
							n := pieceAlt{append([]piece(nil), a.ps...), g}
							for _, x := range q.ps {
								if x.par == nil {
									x.par, x.br = e, b
								}
								n.ps = append(n.ps, x)
							}
							next = append(next, n)
						}
					}
				}
				if len(e.Params) > 0 && s.touches(paths) {
					return nil, "parts are sorted in a range loop"
				}
				alts = next
				if len(alts) > 256 {
					return nil, "too many combinations of paths"
				}
			}
		}
	}
	return alts, ""
}

func (s *sortA) touches(ps []*Path) bool {
	t := false
	for _, p := range ps {
		walkEvents(p.Events, func(e *Event) {
			if methodName(e) != "" || e.Kind == "Rec" || s.stdSort(e) {
				t = true
			}
		})
	}
	return t
}

func (s *sortA) sortsIn(u *Unit, es []*Event, roleOf func(v *Unit) *role) bool {
	t := false
	walkEvents(es, func(e *Event) {
		if methodName(e) == "SequentialSort" || s.stdSort(e) {
			t = true
		}
		if e.Kind == "Rec" {
			if v := s.unitOf(u, e); v == nil || roleOf(v) != nil {
				t = true
			}
		}
	})
	return t
}

// rearranges: does the unit (or something it calls) change the collection?
func (s *sortA) rearranges(u *Unit, seen map[*Unit]bool) bool {
	if seen[u] {
		return false
	}
	seen[u] = true
	t := false
	for _, p := range u.Paths {
		walkEvents(p.Events, func(e *Event) {
			switch methodName(e) {
			case "Swap", "SequentialSort":
				t = true
			}
			if s.stdSort(e) {
				t = true
			}
			if e.Kind == "Rec" {
				if v := s.unitOf(u, e); v == nil || v != u && s.rearranges(v, seen) {
					t = true
				}
			}
		})
	}
	return t
}

// roleSpans proposes roles for a unit: what its simplest path sorts, then
// pairs of parameters.
func (s *sortA) roleSpans(u *Unit) []span {
	var out []span
	for _, p := range u.Paths {
		walkEvents(p.Events, func(e *Event) {
			if _, i, j, ok := callOf(e, "SequentialSort", 2); ok {
				sp := span{linOf(i), linOf(j)}
				if onlyParams(sp.lo, u, sizeVars(s.size)...) && onlyParams(sp.hi, u, sizeVars(s.size)...) {
					out = addSpan(out, sp)
				}
			}
		})
	}
	for _, sp := range u.spans() {
		out = addSpan(out, sp)
	}
	// only those that are proper intervals
	var ok []span
	for _, sp := range out {
		if u.Facts0.entailsGe(sp.hi.sub(sp.lo)) && u.Facts0.entailsGe(sp.lo) && u.Facts0.entailsGe(s.size.sub(sp.hi)) {
			ok = append(ok, sp)
		}
	}
	return ok
}

func sizeVars(l *Lin) []*Term {
	var out []*Term
	for _, m := range l.M {
		out = append(out, m.Vars...)
	}
	return out
}

// assignRoles picks for every unit that rearranges the collection the role
// under which judge finds the fewest faults, innermost units first.
func (s *sortA) assignRoles(judge func(u *Unit, r *role) *verdicts) (all []*verdicts) {
	left := append([]*Unit(nil), s.A.Units...)
	for len(left) > 0 {
		var next []*Unit
		for _, u := range left {
			ready := true
			for _, r := range recsIn(u.Paths) {
				v := s.unitOf(u, r)
				if v != nil && v != u {
					for _, w := range left {
						if w == v {
							ready = false
						}
					}
				}
			}
			if !ready {
				next = append(next, u)
				continue
			}
			var best *verdicts
			var bestR *role
			if s.rearranges(u, map[*Unit]bool{}) {
				for _, sp := range s.roleSpans(u) {
					r := &role{u: u, s: sp}
					s.role[u] = r
					v := judge(u, r)
					if best == nil || v.bad < best.bad {
						best, bestR = v, r
					}
					if best.bad == 0 {
						break
					}
				}
				if best == nil {
					best = &verdicts{cons: s.unitName(u)}
					best.ob("S01", "role", u.Fn.Pos(), false, "no parameters of %s describe the part of the collection that it sorts", s.unitName(u))
				}
				s.role[u] = bestR
			} else {
				best = judge(u, nil)
			}
			all = append(all, best)
		}
		if len(next) == len(left) {
			v := &verdicts{cons: "sort." + s.fn.Name()}
			v.ob("S01", "role", s.fn.Pos(), false, "helpers of sort.%s call each other in turns", s.fn.Name())
			return append(all, v)
		}
		left = next
	}
	return all
}

// ranks: does the loop end after finitely many rounds?
func ranks(x *Exec, e *Event, conts []*segState) bool {
	lp := e.Loop
	id := lp.K.ID
	vars := map[*Term]bool{lp.K: true}
	for _, v := range lp.Vars {
		if v.Head != nil && isIntType(v.Typ) {
			for _, m := range linOf(v.Head).M {
				for _, t := range m.Vars {
					vars[t] = true
				}
			}
		}
	}
	var cands []*Lin
	seen := map[string]bool{}
	for _, c := range conts {
		if c.dead {
			continue
		}
		for _, l := range append(append([]*Lin(nil), c.f.ge...), c.extra...) {
			uses := false
			ok := true
			// without what the round subtracts from it
			for _, m := range l.M {
				if len(m.Vars) == 1 && m.Coef < 0 && !vars[m.Vars[0]] && newest(linOf(m.Vars[0])) > id && c.f.entailsGe(linOf(m.Vars[0])) {
					l = l.addScaled(linOf(m.Vars[0]), -m.Coef)
				}
			}
			for _, m := range l.M {
				for _, t := range m.Vars {
					if vars[t] {
						uses = true
					} else if newest(linOf(t)) > id {
						ok = false
					}
				}
			}
			if uses && ok && !seen[l.key()] {
				seen[l.key()] = true
				cands = append(cands, l)
			}
		}
	}
	try := func(r *Lin) bool {
		for i, c := range conts {
			if c.dead {
				continue
			}
			if !c.f.entailsGe(r.sub(x.shift(r, lp.Vars, i, lp.K)).addc(-1)) || !c.f.entailsGe(r.addc(8)) {
				return false
			}
		}
		return true
	}
	for _, r := range cands {
		if try(r) {
			return true
		}
	}
	for i, r := range cands {
		for _, q := range cands[:i] {
			if try(r.add(q)) {
				return true
			}
		}
	}
	live := false
	for _, c := range conts {
		live = live || !c.dead
	}
	return !live
}

func noEvent(e *Event) (a, b, c *Term, ok bool) { return nil, nil, nil, false }

// ruleSort decides S01.
func (R *Report) ruleSort() {
	s := R.sortAnalysis("Sort", "S01,S08")
	if s == nil {
		return
	}
	x := s.A.Exec
	judge := func(u *Unit, r *role) *verdicts {
		v := &verdicts{cons: s.unitName(u)}
		for _, p := range u.Paths {
			if p.Outcome == "return" {
				s.judgeSortPath(v, u, r, p)
			} else {
				v.ob("S01", "no-panic", u.Fn.Pos(), false, "a path of %s ends with a panic", s.unitName(u))
			}
		}
		return v
	}
	_ = x
	all := s.assignRoles(judge)
	entry := &role{u: s.A.Entry, s: span{linConst(0), s.size}}
	s.role[s.A.Entry] = entry
	all = append(all, judge(s.A.Entry, entry))
	for _, v := range all {
		R.emitAll(v)
	}
	R.need("S01", "covers-range", 2)
	R.need("S01", "index-in-range", 3)
	R.need("S08", "small-sequential", 1)
}

func (s *sortA) roleFn(v *Unit) *role { return s.role[v] }

func (s *sortA) judgeSortPath(v *verdicts, u *Unit, r *role, p *Path) {
	f := p.Facts
	isEntry := u == s.A.Entry
	var firstPiece *Event
	var at *segState
	isPiece := func(e *Event) bool {
		if methodName(e) == "SequentialSort" || s.stdSort(e) {
			return true
		}
		if e.Kind == "Rec" {
			w := s.unitOf(u, e)
			return w == nil || s.role[w] != nil
		}
		t := false
		if len(e.Par) > 0 {
			for _, b := range e.Par {
				for _, q := range b {
					walkEvents(q.Events, func(g *Event) {
						if methodName(g) == "SequentialSort" || s.stdSort(g) || g.Kind == "Rec" {
							t = true
						}
					})
				}
			}
		}
		return t
	}
	top := map[*Event]bool{}
	for _, e := range p.Events {
		top[e] = true
	}
	w := &segWalk{x: s.A.Exec}
	w.less = func(e *Event) (c, a, b *Term, ok bool) { return callOf(e, "Less", 2) }
	w.swap = func(e *Event) (c, a, b *Term, ok bool) { return callOf(e, "Swap", 2) }
	w.mods = func(e *Event) *Term {
		if c, _, _, ok := callOf(e, "SequentialSort", 2); ok {
			return c
		}
		if s.stdSort(e) {
			return s.data
		}
		if e.Kind == "Rec" {
			if q := s.unitOf(u, e); q == nil || s.rearranges(q, map[*Unit]bool{}) {
				return s.data
			}
		}
		return nil
	}
	w.visit = func(e *Event, g *segState) {
		if c, a, b, ok := w.less(e); ok {
			if c != s.data {
				v.ob("S01", "same-collection", e.Pos, false, "elements of another collection are compared")
			}
			for _, i := range []*Term{a, b} {
				v.ob("S01", "index-in-range", e.Pos, g.f.entailsGe(linOf(i)) && g.f.entailsGe(s.size.sub(linOf(i)).addc(-1)),
					"index %v of a comparison may be out of bounds", i)
			}
		}
		if c, a, b, ok := w.swap(e); ok {
			v.ob("S01", "same-collection", e.Pos, c == s.data, "elements of another collection are swapped")
			sp := span{linConst(0), s.size}
			if r != nil {
				sp = r.s
			}
			for _, i := range []*Term{a, b} {
				v.ob("S01", "index-in-range", e.Pos, g.f.entailsGe(linOf(i).sub(sp.lo)) && g.f.entailsGe(sp.hi.sub(linOf(i)).addc(-1)),
					"index %v of a swap may be outside of the range %v", i, sp)
			}
			v.ob("S01", "swaps-before-parts", e.Pos, firstPiece == nil, "elements are swapped while or after parts of the range are sorted")
		}
		switch m := methodName(e); m {
		case "", "Less", "Swap", "Len", "SequentialSort":
		default:
			v.ob("S01", "known-operation", e.Pos, false, "the collection is used in an unknown way (%s)", m)
		}
		if e.Kind == "Call" && methodName(e) == "" && !s.stdSort(e) && !strings.HasSuffix(e.Name, ".IsSorted") {
			for _, a := range append([]*Term{e.Callee}, e.Args...) {
				if a != nil && mentions(a, s.data) {
					v.ob("S01", "known-operation", e.Pos, false, "the collection is passed to %s", e.Name)
				}
			}
		}
		if top[e] && firstPiece == nil && isPiece(e) {
			firstPiece = e
			at = g.clone()
		}
		if c, i, j, ok := callOf(e, "SequentialSort", 2); ok {
			sp := span{linConst(0), s.size}
			if r != nil {
				sp = r.s
			}
			lo, hi := linOf(i), linOf(j)
			v.ob("S01", "index-in-range", e.Pos, c == s.data && g.f.entailsGe(lo.sub(sp.lo)) && g.f.entailsGe(hi.sub(lo)) && g.f.entailsGe(sp.hi.sub(hi)),
				"the range [%v, %v) that is sorted sequentially may be outside of the range %v", i, j, sp)
		}
	}
	w.loopV = func(e *Event, g *segState, conts []*segState) {
		v.ob("S01", "terminates", e.Pos, ranks(s.A.Exec, e, conts), "no bound is found on the number of rounds of this loop")
	}
	start := &segState{f: f}
	end := w.walk(p.Events, start)
	if end.dead || r == nil {
		if r == nil && firstPiece != nil {
			v.ob("S01", "role", u.Fn.Pos(), false, "parts are sorted by a function without a role")
		}
		return
	}
	// coverage
	pos := u.Fn.Pos()
	if firstPiece != nil {
		pos = firstPiece.Pos
	}
	if os.Getenv("SEGDEBUG") != "" && at != nil {
		fmt.Println("---", u.Fn, r.s)
		for _, g := range at.segs {
			fmt.Println("  seg", g.String())
		}
		for _, l := range at.extra {
			fmt.Println("  extra", l.term())
		}
	}
	if isEntry {
		done := f.entailsGe(s.size.neg().addc(1))
		walkEvents(p.Events, func(e *Event) {
			if e.Kind == "Call" && strings.HasSuffix(e.Name, ".IsSorted") && len(e.Args) == 1 && e.Args[0] == s.data && len(e.Res) == 1 && f.truth(e.Res[0]) == 1 {
				done = true
			}
		})
		if done && firstPiece == nil {
			v.ob("S01", "covers-range", pos, true, "")
			return
		}
	}
	alts, why := s.pieces(u, p.Events, f, s.roleFn)
	if why != "" {
		v.ob("S01", "covers-range", pos, false, "undecided: %s", why)
		return
	}
	for _, a := range alts {
		s.judgeTiling(v, u, r, a, at, pos)
	}
}

func (s *sortA) judgeTiling(v *verdicts, u *Unit, r *role, a pieceAlt, at *segState, pos token.Pos) {
	f := a.f
	if at != nil {
		for _, l := range at.extra {
			f = f.withGe(l)
		}
	}
	if f.inconsistent() {
		return
	}
	for _, p := range a.ps {
		v.ob("S01", "index-in-range", p.ev.Pos, f.entailsGe(p.lo.sub(r.s.lo)) && f.entailsGe(p.hi.sub(p.lo)) && f.entailsGe(r.s.hi.sub(p.hi)),
			"the part %v that is sorted may be outside of the range %v", p.span, r.s)
		if p.rec != nil && u != s.A.Entry {
			v.ob("S01", "terminates", p.ev.Pos, f.entailsGe(r.s.hi.sub(r.s.lo).sub(p.hi).add(p.lo).addc(-1)),
				"the part %v may not be smaller than the range %v that is being sorted", p.span, r.s)
		}
	}
	for i, p := range a.ps {
		for _, q := range a.ps[:i] {
			if p.par != nil && p.par == q.par && p.br != q.br {
				v.ob("S01", "disjoint-parts", p.ev.Pos, f.entailsGe(p.lo.sub(q.hi)) || f.entailsGe(q.lo.sub(p.hi)),
					"the parts %v and %v that are sorted at the same time may overlap", q.span, p.span)
			}
		}
	}
	s.together(v, a, f)
	// order the parts
	rest := append([]piece(nil), a.ps...)
	cur := r.s.lo
	var gaps []span
	for len(rest) > 0 {
		best := -1
		for i := range rest {
			first := true
			for j := range rest {
				if i != j && !f.entailsGe(rest[j].lo.sub(rest[i].hi)) {
					first = false
				}
			}
			if first && f.entailsGe(rest[i].lo.sub(cur)) {
				best = i
				break
			}
		}
		if best < 0 {
			v.ob("S01", "covers-range", pos, false, "the parts that are sorted are not in a known order or overlap")
			return
		}
		gaps = append(gaps, span{cur, rest[best].lo})
		cur = rest[best].hi
		rest = append(rest[:best:best], rest[best+1:]...)
	}
	gaps = append(gaps, span{cur, r.s.hi})
	if !f.entailsGe(cur.sub(r.s.lo)) || !f.entailsGe(r.s.hi.sub(cur)) {
		v.ob("S01", "covers-range", pos, false, "the parts that are sorted reach beyond the range")
		return
	}
	if len(a.ps) == 0 && f.entailsGe(r.s.lo.sub(r.s.hi).addc(1)) {
		v.ob("S01", "covers-range", pos, true, "")
		return
	}
	for k, g := range gaps {
		empty := f.entailsEq(g.hi.sub(g.lo))
		if empty && (k == 0 || k == len(gaps)-1) {
			continue // the end of the range
		}
		ok := false
		if at != nil {
			st := at.with(f)
			var refs []*Lin
			for i := range st.segs {
				if st.segs[i].ref != nil && st.segs[i].coll == s.data {
					refs = append(refs, st.segs[i].ref)
				}
			}
			refs = append(refs, g.lo, g.hi.addc(-1))
			for _, t := range refs {
				if st.holds(seg{coll: s.data, ref: t, left: false, val: false, lo: r.s.lo, hi: g.hi}) &&
					st.holds(seg{coll: s.data, ref: t, left: true, val: false, lo: g.lo, hi: r.s.hi}) {
					ok = true
					break
				}
			}
		}
		if empty {
			v.ob("S01", "pivot-order", pos, ok, "nothing is known that keeps elements left of index %v from sorting after those on its right", g.lo.term())
		} else {
			v.ob("S01", "covers-range", pos, ok, "the elements %v are not sorted and not known to be in place between elements that are not greater and not smaller", g)
		}
	}
	v.ob("S01", "covers-range", pos, true, "")
}

// ruleIsSorted decides S05.
func (R *Report) ruleIsSorted() {
	s := R.sortAnalysis("IsSorted", "S05,S08")
	if s == nil {
		return
	}
	judge := func(u *Unit, r *role) *verdicts {
		v := &verdicts{cons: s.unitName(u)}
		for _, p := range u.Paths {
			if p.Outcome == "return" {
				s.judgeTestPath(v, u, r, p)
			}
		}
		return v
	}
	// roles: parts for which a result vouches
	left := append([]*Unit(nil), s.A.Units...)
	for len(left) > 0 {
		var next []*Unit
		for _, u := range left {
			ready := true
			for _, e := range recsIn(u.Paths) {
				v := s.unitOf(u, e)
				for _, w := range left {
					ready = ready && (v == nil || v == u || w != v)
				}
			}
			if !ready {
				next = append(next, u)
				continue
			}
			var best *verdicts
			var bestR *role
			sig := u.Fn.Signature.Results()
			if sig.Len() == 1 && isBoolType(sig.At(0).Type()) {
				for _, sp := range u.spans() {
					if !u.Facts0.entailsGe(sp.hi.sub(sp.lo)) || !u.Facts0.entailsGe(sp.lo.addc(-1)) || !u.Facts0.entailsGe(s.size.sub(sp.hi)) {
						continue
					}
					for _, good := range []bool{true, false} {
						r := &role{u: u, s: sp, good: good}
						s.role[u] = r
						v := judge(u, r)
						if best == nil || v.bad < best.bad {
							best, bestR = v, r
						}
						if v.bad == 0 {
							break
						}
					}
					if best.bad == 0 {
						break
					}
				}
			}
			s.role[u] = bestR
			if best == nil {
				best = judge(u, nil)
			}
			R.emitAll(best)
		}
		if len(next) == len(left) {
			R.ob("S05", "role", "sort.IsSorted", s.fn.Pos(), false, "helpers call each other in turns")
			break
		}
		left = next
	}
	r := &role{u: s.A.Entry, s: span{linConst(1), s.size}, good: true}
	s.role[s.A.Entry] = r
	R.emitAll(judge(s.A.Entry, r))
	R.need("S05", "all-pairs-compared", 2)
	R.need("S05", "false-has-evidence", 2)
	R.areSorted()
}

// vouches: what the result of e says about adjacent pairs.
func (s *sortA) vouches(u *Unit, w *segWalk, e *Event, g *segState) []seg {
	if len(e.Res) != 1 {
		return nil
	}
	t := g.f.truth(e.Res[0])
	if t == 0 {
		return nil
	}
	adj := func(sp span) []seg {
		return []seg{{coll: s.data, val: false, lo: sp.lo, hi: sp.hi}}
	}
	switch {
	case s.stdTest(e):
		if t == 1 {
			return adj(span{linConst(1), s.size})
		}
	case e.Kind == "Rec":
		if v := s.unitOf(u, e); v != nil && s.role[v] != nil && (t == 1) == s.role[v].good {
			return adj(s.role[v].at(e.Args))
		}
	case len(e.Par) > 0:
		nm := e.Static.Name()
		and := nm == "And" || nm == "RangeAnd"
		if !and && nm != "Or" && nm != "RangeOr" || (t == 1) != and {
			return nil
		}
		var out []seg
		for _, b := range e.Par {
			var common []seg
			first := true
			for _, q := range b {
				if q.Outcome != "return" || len(q.Ret) != 1 {
					continue
				}
				f, ok := q.Facts.assume(q.Ret[0], and)
				if !ok {
					continue
				}
				w.quiet++
				end := w.walk(q.Events, g.with(f))
				w.quiet--
				if end.dead {
					continue
				}
				if first {
					common, first = end.segs, false
					if len(e.Params) == 2 {
						common = append(common[:len(common):len(common)], seg{coll: s.data, lo: linOf(e.Params[0]), hi: linOf(e.Params[1])})
						var k []seg
						for _, c := range common {
							if end.holds(c) {
								k = append(k, c)
							}
						}
						common = k
					}
					continue
				}
				var k []seg
				for _, c := range common {
					if end.holds(c) {
						k = append(k, c)
					}
				}
				common = k
			}
			for _, c := range common {
				if len(e.Params) == 2 {
					// every batch: only what spans the batch exactly
					if c.ref == nil && c.lo.key() == linOf(e.Params[0]).key() && c.hi.key() == linOf(e.Params[1]).key() {
						c.lo, c.hi = linOf(e.Args[0]), linOf(e.Args[1])
						out = append(out, c)
					}
					continue
				}
				out = append(out, c)
			}
		}
		return out
	}
	return nil
}

func (s *sortA) stdTest(e *Event) bool {
	return e.Kind == "Call" && e.Static != nil && e.Static.Pkg != nil && e.Static.Pkg.Pkg.Path() == "sort" &&
		e.Static.Name() == "IsSorted" && len(e.Args) == 1 && e.Args[0] == s.data
}

// evidence: does the path show a pair out of order?
func (s *sortA) evidence(u *Unit, es []*Event, f *Facts, flags map[*Term]bool) bool {
	for _, e := range es {
		if c, a, b, ok := callOf(e, "Less", 2); ok && c == s.data && len(e.Res) == 1 && f.truth(e.Res[0]) == 1 {
			if f.entailsEq(linOf(a).sub(linOf(b)).addc(-1)) {
				return true
			}
		}
		if e.Kind == "Load" && flags[e.Addr] && e.Val != nil && flagSet(e.Val, f) {
			return true
		}
		if len(e.Res) == 1 {
			t := f.truth(e.Res[0])
			switch {
			case t == 0:
			case s.stdTest(e):
				if t == -1 {
					return true
				}
			case e.Kind == "Rec":
				if v := s.unitOf(u, e); v != nil && s.role[v] != nil && (t == 1) != s.role[v].good {
					return true
				}
			case len(e.Par) > 0:
				nm := e.Static.Name()
				and := nm == "And" || nm == "RangeAnd"
				if !and && nm != "Or" && nm != "RangeOr" || (t == 1) == and {
					continue
				}
				all := true
				for _, b := range e.Par {
					for _, q := range b {
						if q.Outcome != "return" || len(q.Ret) != 1 {
							continue
						}
						if g, ok := q.Facts.assume(q.Ret[0], !and); ok && !g.inconsistent() {
							all = all && s.evidence(u, q.Events, g, flags)
						}
					}
				}
				if all {
					return true
				}
			}
		}
	}
	return false
}

func flagSet(v *Term, f *Facts) bool {
	if isBoolType(v.Typ) {
		return f.truth(v) == 1
	}
	if !isIntTerm(v) {
		return false
	}
	return f.truth(mkEq0(linOf(v))) == -1
}

// flags are variables of IsSorted that are zero unless a pair out of order was
// seen.
func (s *sortA) flags() map[*Term]bool {
	flags := map[*Term]bool{}
	bad := map[*Term]bool{}
	units := append([]*Unit{s.A.Entry}, s.A.Units...)
	for _, u := range units {
		for _, p := range u.Paths {
			walkEvents(p.Events, func(e *Event) {
				if e.Kind == "Load" && e.Addr != nil && e.Addr.Op == "cell" {
					flags[e.Addr] = true
				}
			})
		}
	}
	var scan func(u *Unit, before, es []*Event, f *Facts)
	scan = func(u *Unit, before, es []*Event, f *Facts) {
		for i, e := range es {
			pre := append(before[:len(before):len(before)], es[:i]...)
			if e.Kind == "Store" && flags[e.Addr] {
				zero := false
				if e.Val != nil {
					zero = e.Val.Op == "false" || isIntTerm(e.Val) && f.entailsEq(linOf(e.Val))
				}
				if !zero && !s.evidence(u, pre, f, nil) {
					bad[e.Addr] = true
				}
			}
			if e.Kind == "Loop" {
				for _, c := range e.Loop.Conts {
					scan(u, pre, c.Events, c.Facts)
				}
			}
			for _, q := range e.Sub {
				scan(u, pre, q.Events, q.Facts)
			}
			for _, b := range e.Par {
				for _, q := range b {
					scan(u, pre, q.Events, q.Facts)
				}
			}
		}
	}
	for _, u := range units {
		for _, p := range u.Paths {
			scan(u, nil, p.Events, p.Facts)
		}
	}
	for a := range bad {
		delete(flags, a)
	}
	return flags
}

func (s *sortA) judgeTestPath(v *verdicts, u *Unit, r *role, p *Path) {
	newWalk := func(quiet bool) *segWalk {
		w := &segWalk{x: s.A.Exec}
		w.less = func(e *Event) (c, a, b *Term, ok bool) { return callOf(e, "Less", 2) }
		w.swap = noEvent
		w.mods = func(e *Event) *Term {
			switch methodName(e) {
			case "", "Less", "Len":
				return nil
			}
			return e.Callee
		}
		w.gain = func(w *segWalk, e *Event, g *segState) []seg { return s.vouches(u, w, e, g) }
		if quiet {
			w.quiet = 1
			return w
		}
		w.visit = func(e *Event, g *segState) {
			if c, a, b, ok := w.less(e); ok {
				for _, i := range []*Term{a, b} {
					v.ob("S05", "index-in-range", e.Pos, c == s.data && g.f.entailsGe(linOf(i)) && g.f.entailsGe(s.size.sub(linOf(i)).addc(-1)),
						"index %v of a comparison may be out of bounds", i)
				}
			}
			switch m := methodName(e); m {
			case "", "Less", "Len":
			default:
				v.ob("S05", "known-operation", e.Pos, false, "the collection is used in an unknown way (%s)", m)
			}
			if e.Kind == "Go" {
				v.ob("S05", "finished", e.Pos, !s.touches(e.Sub), "comparisons in a goroutine may not have finished when IsSorted returns")
			}
			if len(e.Par) > 0 {
				t := false
				for _, b := range e.Par {
					t = t || s.touches(b)
				}
				v.ob("S05", "finished", e.Pos, !t || strings.HasPrefix(e.Name, "parallel."), "%s may return before all comparisons have finished", e.Name)
			}
		}
		w.loopV = func(e *Event, g *segState, conts []*segState) {
			v.ob("S05", "terminates", e.Pos, ranks(s.A.Exec, e, conts), "no bound is found on the number of rounds of this loop")
		}
		return w
	}
	newWalk(false).walk(p.Events, &segState{f: p.Facts})
	for _, e := range recsIn([]*Path{p}) {
		if q := s.unitOf(u, e); q != nil && q == u && r != nil && q != s.A.Entry {
			sp := r.at(e.Args)
			v.ob("S05", "terminates", e.Pos, e.Facts.entailsGe(r.s.hi.sub(r.s.lo).sub(sp.hi).add(sp.lo).addc(-1)),
				"the part %v may not be smaller than the range %v that is being examined", sp, r.s)
		}
	}
	if r == nil || len(p.Ret) != 1 {
		return
	}
	pos := u.Fn.Pos()
	for _, e := range p.Events {
		if e.Pos != token.NoPos {
			pos = e.Pos
		}
	}
	s.testsTogether(v, u, r, p)
	if f, ok := p.Facts.assume(p.Ret[0], r.good); ok && !f.inconsistent() {
		end := newWalk(true).walk(p.Events, &segState{f: f})
		v.ob("S05", "all-pairs-compared", pos, end.holds(seg{coll: s.data, val: false, lo: r.s.lo, hi: r.s.hi}),
			"the result may be %v although not every pair of neighbours in %v was found in order", r.good, span{r.s.lo.addc(-1), r.s.hi})
	}
	if f, ok := p.Facts.assume(p.Ret[0], !r.good); ok && !f.inconsistent() {
		v.ob("S05", "false-has-evidence", pos, s.evidence(u, p.Events, f, s.flags()),
			"the result may be %v although no pair out of order was seen", !r.good)
	}
}

// areSorted: the functions for slices return what IsSorted returns.
func (R *Report) areSorted() {
	for _, f := range R.P.exportedFuncs("sort") {
		if !strings.HasSuffix(f.Name(), "AreSorted") {
			continue
		}
		A := R.P.analyse(f, R.P.sortCfg(f), nil)
		R.covered("S05", A)
		for _, p := range A.Entry.Paths {
			ok := false
			if p.Outcome == "return" && len(p.Ret) == 1 && p.Ret[0].Ev != nil {
				e := p.Ret[0].Ev
				ok = e.Static != nil && e.Static == R.P.fn("sort", "IsSorted") && len(e.Args) == 1 && stripConv(e.Args[0]) == A.Entry.Params[0]
			}
			R.ob("S05", "delegates", "sort."+f.Name(), f.Pos(), ok, "the result is not that of IsSorted for the given slice")
		}
	}
	R.need("S05", "delegates", 2)
}

// stripConv removes conversions.
func stripConv(t *Term) *Term {
	for t.Op == "iface" || t.Op == "conv" || t.Op == "mkiface" {
		t = t.Args[0]
	}
	return t
}

// group runs rules that decide the properties listed, if one of them is wanted.
func (R *Report) group(want, props string, f func()) {
	if len(want) > 1 && !strings.Contains(","+props+",", ","+want+",") {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("PARGO_DEBUG") != "" {
				panic(r)
			}
			R.ob(props, "analysis-complete", "checker", token.NoPos, false, "undecided: the analysis failed: %v", r)
		}
	}()
	f()
}

func (R *Report) rulesS(want string) {
	R.group(want, "S01,S08", R.ruleSort)
	R.group(want, "S02,S03,S04,S08", R.ruleStable)
	R.group(want, "S05,S08", R.ruleIsSorted)
	R.group(want, "S06", R.rulesSlices)
}
