package main

// Rules for the fork-join packages (parallel, speculative, sequential).
//
// Every exported function, and every recursive helper it uses, is a unit with a
// domain [lo,hi): the positions of the supplied functions, or the range to be
// divided into batches. By induction over the size of the domain, a recursive
// call stands for its own (smaller) domain, so each unit is judged on its own.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fjFn struct {
	fn     *ssa.Function
	pkg    string
	name   string // package.Function
	list   bool
	op     string // none, and, or, join, sum, prod
	spec   bool
	thunks []int
	body   int
	join   int
	// parallel maps
	maps    *mapInfo
	partial bool // sequential and/or may leave out the rest once decided
	noRet   bool // the combined result is not returned
	par     bool // works on different splits at the same time
	walks   bool // the supplied function gets the entries, not the contents
}

func isThunkSig(s *types.Signature) bool { return s.Params().Len() == 0 }

func funcSig(t types.Type) *types.Signature {
	s, _ := t.Underlying().(*types.Signature)
	return s
}

// fjClassify derives the contract of an exported function from its name and
// signature.
func fjClassify(pkg string, f *ssa.Function) *fjFn {
	if f.Signature.Recv() != nil {
		return nil
	}
	d := &fjFn{fn: f, pkg: pkg, name: pkg + "." + f.Name(), spec: pkg == "speculative", partial: pkg == "sequential", body: -1, join: -1}
	n := f.Name()
	ps := f.Params
	if strings.HasPrefix(n, "Range") {
		if len(ps) < 4 || !isIntType(ps[0].Type()) || !isIntType(ps[1].Type()) || !isIntType(ps[2].Type()) {
			return nil
		}
		for i := 3; i < len(ps); i++ {
			s := funcSig(ps[i].Type())
			if s == nil || s.Params().Len() != 2 {
				return nil
			}
			if d.body < 0 {
				d.body = i
			} else if d.join < 0 {
				d.join = i
			} else {
				return nil
			}
		}
	} else {
		d.list = true
		for i, p := range ps {
			if s := funcSig(p.Type()); s != nil {
				if isThunkSig(s) {
					d.thunks = append(d.thunks, i)
				} else if d.join < 0 {
					d.join = i
				} else {
					return nil
				}
				continue
			}
			if sl, ok := p.Type().Underlying().(*types.Slice); ok {
				if s := funcSig(sl.Elem()); s != nil && isThunkSig(s) {
					d.thunks = append(d.thunks, i)
					continue
				}
			}
			return nil
		}
		if len(d.thunks) == 0 {
			return nil
		}
	}
	switch base := strings.TrimPrefix(n, "Range"); {
	case strings.HasSuffix(base, "Sum"):
		d.op = "sum"
	case strings.HasSuffix(base, "Product"):
		d.op = "prod"
	case base == "And":
		d.op = "and"
	case base == "Or":
		d.op = "or"
	case base == "Do" || base == "":
		d.op = "none"
		if f.Signature.Results().Len() == 1 {
			d.op = "or"
		}
	case strings.HasPrefix(base, "Reduce"):
		d.op = "join"
	default:
		return nil
	}
	if (d.op == "join") != (d.join >= 0) {
		return nil
	}
	return d
}

type fjRole struct {
	kind      string // thunks, ij, ilen
	i, j, cnt int
	flip      bool // the result is the negation of the combined results
}

type fjItem struct {
	lo, hi *Lin
	cnt    *Lin // at most this many batches (nil: unknown)
	res    []*Term
	raised *Term
	g      *Event // goroutine (nil: the caller's)
	joined bool
	late   bool
	rec    bool
	loop   bool
	skip   bool // a loop that may leave out functions once the result is known
	pos    token.Pos
	seq    int
	ev     *Event
	parts  []fjPart // of the rounds of a loop
}

// fj is the analysis of one exported function.
type fj struct {
	R      *Report
	d      *fjFn
	A      *Analysis
	entry  *Unit
	roles  map[*ssa.Function]*fjRole
	known  map[*ssa.Function]*fjRole // as found when nothing panics
	leaf   *Term
	join   *Term
	splits *Term  // parallel maps: the slice of splits
	props  string // overrides the properties that obligations count for
	quiet  bool   // probing roles
	bad    int
	seq    int
}

type fjUnit struct {
	u      *Unit
	lo, hi *Lin
	cnt    *Lin
	slots  []fjSlot
	role   *fjRole
	name   string
}

type fjSlot struct {
	t   *Term
	off *Lin
	n   *Lin
	one bool
}

func (c *fj) ob(props, rule, construct string, pos token.Pos, ok bool, format string, a ...interface{}) bool {
	if !ok && props != "F12" {
		// F12 needs the number of batches: it has no say in whether a
		// parameter is this number
		c.bad++
	}
	if c.quiet {
		return ok
	}
	if c.props != "" {
		props = c.props
	}
	return c.R.ob(props, rule, construct, pos, ok, format, a...)
}

func slotsOf(fn *ssa.Function, params []*Term) (out []fjSlot, n *Lin) {
	n = linConst(0)
	for i, p := range fn.Params {
		if s := funcSig(p.Type()); s != nil && isThunkSig(s) {
			out = append(out, fjSlot{params[i], n, linConst(1), true})
			n = n.addc(1)
			continue
		}
		if sl, ok := p.Type().Underlying().(*types.Slice); ok {
			if s := funcSig(sl.Elem()); s != nil && isThunkSig(s) {
				l := linOf(mkLen(params[i]))
				out = append(out, fjSlot{params[i], n, l, false})
				n = n.add(l)
			}
		}
	}
	return out, n
}

// posOf finds the positions a function value or a slice of functions stands for.
func (c *fj) posOf(slots []fjSlot, t *Term, st *State) (lo, hi *Lin, ok bool) {
	for _, s := range slots {
		if s.t == t {
			return s.off, s.off.add(s.n), true
		}
	}
	switch t.Op {
	case "load":
		a := t.Args[0]
		if a.Op == "idx" {
			for _, s := range slots {
				if !s.one && s.t == a.Args[0] {
					l := s.off.add(linOf(a.Args[1]))
					return l, l.addc(1), true
				}
			}
		}
	case "slice":
		for _, s := range slots {
			if !s.one && s.t == t.Args[0] {
				return s.off.add(linOf(t.Args[1])), s.off.add(linOf(t.Args[2])), true
			}
		}
	case "append":
		l1, h1, ok1 := c.posOf(slots, t.Args[0], st)
		l2, h2, ok2 := c.posOf(slots, t.Args[1], st)
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		if l1 == nil {
			return l2, h2, true
		}
		if l2 == nil {
			return l1, h1, true
		}
		if h1.sub(l2).key() == linConst(0).key() {
			return l1, h2, true
		}
		return nil, nil, false
	}
	if t == tNil {
		return nil, nil, true
	}
	if st != nil && t.Op == "slice" {
		x := c.A.Exec
		if es, ok := x.literal(st, t); ok {
			var lo, hi *Lin
			for _, e := range es {
				l, h, ok := c.posOf(slots, e, st)
				if !ok || l == nil {
					return nil, nil, false
				}
				if lo == nil {
					lo, hi = l, h
				} else if l.sub(hi).key() == linConst(0).key() {
					hi = h
				} else {
					return nil, nil, false
				}
			}
			return lo, hi, true
		}
	}
	return nil, nil, false
}

func (c *fj) leafInterval(U *fjUnit, e *Event) (lo, hi *Lin, ok bool) {
	if e.Kind != "Call" || e.Callee == nil {
		return nil, nil, false
	}
	if c.d.maps != nil {
		if c.d.walks || e.Callee != c.leaf || len(e.Args) != 1 {
			return nil, nil, false
		}
		return c.contentPos(U, e.Args[0])
	}
	if !c.d.list {
		if e.Callee == c.leaf && len(e.Args) == 2 {
			return linOf(e.Args[0]), linOf(e.Args[1]), true
		}
		return nil, nil, false
	}
	if len(e.Args) != 0 {
		return nil, nil, false
	}
	lo, hi, ok = c.posOf(U.slots, e.Callee, nil)
	return lo, hi, ok && lo != nil
}

func (c *fj) recInterval(U *fjUnit, e *Event) (lo, hi, cnt *Lin, ok bool) {
	r := c.roles[e.Static]
	if r == nil {
		return nil, nil, nil, false
	}
	switch r.kind {
	case "ij":
		lo, hi = linOf(e.Args[r.i]), linOf(e.Args[r.j])
	case "ilen":
		lo = linOf(e.Args[r.i])
		hi = lo.add(linOf(e.Args[r.j]))
	case "slice":
		lo, hi, ok = c.posOf(U.slots, e.Args[r.i], e.St)
		if !ok || lo == nil {
			return nil, nil, nil, false
		}
	case "thunks":
		for i, p := range e.Static.Params {
			th := false
			if s := funcSig(p.Type()); s != nil && isThunkSig(s) {
				th = true
			} else if sl, k := p.Type().Underlying().(*types.Slice); k {
				if s := funcSig(sl.Elem()); s != nil && isThunkSig(s) {
					th = true
				}
			}
			if !th {
				continue
			}
			l, h, k := c.posOf(U.slots, e.Args[i], e.St)
			if !k {
				return nil, nil, nil, false
			}
			if l == nil {
				continue
			}
			if lo == nil {
				lo, hi = l, h
				continue
			}
			if !e.Facts.entailsEq(l.sub(hi)) {
				return nil, nil, nil, false
			}
			hi = h
		}
		if lo == nil {
			lo, hi = linConst(0), linConst(0)
		}
	}
	if r.cnt >= 0 {
		cnt = linOf(e.Args[r.cnt])
	}
	return lo, hi, cnt, true
}

func hasKind(es []*Event, kinds ...string) bool {
	f := false
	walkEvents(es, func(e *Event) {
		for _, k := range kinds {
			f = f || e.Kind == k
		}
	})
	return f
}

func joinsOf(es []*Event) map[*Event]*Path {
	m := map[*Event]*Path{}
	for _, e := range es {
		if e.Kind == "Join" && e.Go != nil {
			m[e.Go] = e.Sub[0]
		}
	}
	return m
}

// items lists the parts of the domain that a path works on, one list per
// combination of the ways in which goroutines nobody waits for may end.
func (c *fj) items(U *fjUnit, es []*Event, joins map[*Event]*Path, g *Event, joined, late bool, f *Facts) [][]*fjItem {
	alts := [][]*fjItem{nil}
	put := func(it *fjItem) {
		c.seq++
		it.seq = c.seq
		it.g, it.joined, it.late = g, joined, late
		for i := range alts {
			alts[i] = append(alts[i][:len(alts[i]):len(alts[i])], it)
		}
	}
	cross := func(more [][]*fjItem) {
		var out [][]*fjItem
		for _, a := range alts {
			for _, m := range more {
				out = append(out, append(a[:len(a):len(a)], m...))
			}
		}
		if len(out) > 64 {
			out = out[:64]
		}
		alts = out
	}
	for i, e := range es {
		switch e.Kind {
		case "Call":
			if lo, hi, ok := c.leafInterval(U, e); ok {
				put(&fjItem{lo: lo, hi: hi, cnt: linConst(1), res: e.Res, raised: e.Raised, pos: e.Pos, ev: e})
			}
		case "Rec":
			if lo, hi, cnt, ok := c.recInterval(U, e); ok {
				res := e.Res
				if c.roles[e.Static].flip && len(res) == 1 {
					res = []*Term{mkNot(res[0])}
				}
				put(&fjItem{lo: lo, hi: hi, cnt: cnt, res: res, raised: e.Raised, pos: e.Pos, rec: true, ev: e})
			} else {
				c.ob("F01,F02,F04,F06", "recursive-call", U.name, e.Pos, false, "cannot determine what part of the work the call of %s stands for", e.Name)
			}
		case "WgDone", "Close", "Send":
			if g != nil {
				late = true
			}
		case "Go":
			if q, ok := joins[e]; ok {
				j := joinsOf(q.Events)
				cross(c.items(U, q.Events, j, e, true, false, f))
			} else if len(e.Sub) > 0 {
				var more [][]*fjItem
				for _, q := range e.Sub {
					if _, ok := f.and(q.Facts); ok {
						more = append(more, c.items(U, q.Events, joinsOf(q.Events), e, false, false, f)...)
					}
				}
				cross(more)
			}
		case "Loop":
			if it := c.loopItem(U, e, joins, g, f); it != nil {
				put(it)
			}
		case "Par":
			if c.d.maps != nil {
				if it := c.parItem(U, e); it != nil {
					put(it)
				}
			}
		case "MapRange":
			if c.d.walks {
				if it := c.walkItem(U, e, es[i+1:], f); it != nil {
					put(it)
				}
			}
		}
	}
	return alts
}

// loopItem summarises the iterations completed by a loop.
func (c *fj) loopItem(U *fjUnit, e *Event, joins map[*Event]*Path, g *Event, f *Facts) *fjItem {
	lp := e.Loop
	type ci struct {
		items []*fjItem
		cont  int
		f     *Facts
	}
	var cs []ci
	any := false
	for i, k := range lp.Conts {
		for _, a := range c.items(U, k.Events, joinsOf(k.Events), g, true, false, k.Facts) {
			cs = append(cs, ci{a, i, k.Facts})
			any = any || len(a) > 0
		}
	}
	if !any {
		return nil
	}
	x := c.A.Exec
	// candidates for the cursor
	var cands []*Lin
	for _, k := range cs {
		for _, it := range k.items {
			cands = append(cands, it.lo, it.hi)
		}
	}
	boolOp := c.d.op == "and" || c.d.op == "or"
	for _, cur := range cands {
		for _, dir := range []int{1, -1} {
			good := true
			skip := false
			// clamped: the last round ends at the end of the range, where the
			// cursor may be beyond it
			clamped := map[int]bool{}
			atEnd := false
			for n, k := range cs {
				nx := x.shift(cur, lp.Vars, k.cont, lp.K)
				a, b := cur, nx
				if dir < 0 {
					a, b = nx, cur
				}
				if len(k.items) == 0 && boolOp && c.d.partial {
					// the functions of this round are left out
					if k.f.entailsGe(b.sub(a)) {
						skip = true
						continue
					}
				}
				if _, err := c.tile(k.items, a, b, k.f, !c.d.list); err != "" {
					if dir > 0 && !c.d.list && U.hi != nil && k.f.entailsGe(nx.sub(U.hi)) {
						if _, err := c.tile(k.items, a, U.hi, k.f, true); err == "" {
							clamped[n] = true
							continue
						}
					}
					good = false
					break
				}
			}
			if len(clamped) > 0 {
				// no round follows one that reached the end
				for _, k := range cs {
					good = good && k.f.entailsGe(U.hi.sub(cur).addc(-1))
				}
				if f.entailsGe(cur.sub(U.hi)) {
					atEnd = true
				} else {
					// left before the end was reached
					good = good && f.entailsGe(U.hi.sub(cur).addc(-1))
				}
			}
			if !good {
				continue
			}
			at0 := x.atInit(cur, lp.Vars, lp.K)
			it := &fjItem{loop: true, pos: e.Pos, ev: e, skip: skip, lo: at0, hi: cur}
			if dir < 0 {
				it.lo, it.hi = cur, at0
			}
			if atEnd {
				it.hi = U.hi
			}
			for _, k := range cs {
				for _, i := range k.items {
					it.parts = append(it.parts, i.portions(k.f)...)
				}
			}
			if c.d.list {
				it.cnt = nil
			} else {
				single := true
				for _, k := range cs {
					if len(k.items) != 1 || k.items[0].rec {
						single = false
					}
				}
				if single {
					it.cnt = linOf(lp.K)
					for _, b := range []*Lin{U.cnt, U.hi.sub(U.lo)} {
						if b == nil {
							continue
						}
						for _, w := range cs {
							// every round but the last takes up at least size
							size := w.items[0].hi.sub(w.items[0].lo)
							if x.shift(size, lp.Vars, w.cont, lp.K).key() != size.key() {
								continue
							}
							all := f.entailsGe(b.mul(size).sub(U.hi.sub(U.lo)))
							for n, k := range cs {
								last := clamped[n] || k.f.entailsEq(x.shift(cur, lp.Vars, k.cont, lp.K).sub(U.hi))
								all = all && k.f.entailsGe(U.hi.sub(cur).addc(-1)) &&
									(last || k.f.entailsGe(k.items[0].hi.sub(k.items[0].lo).sub(size)))
							}
							if all && dir > 0 {
								it.cnt = b
								// what precedes the loop takes up rounds, too
								for j := int64(3); j > 0; j-- {
									if f.entailsGe(at0.sub(U.lo).addScaled(size, -j)) && f.entailsGe(b.addc(-j)) {
										it.cnt = b.addc(-j)
										break
									}
								}
							}
						}
					}
				}
			}
			if boolOp && !skip {
				// every completed round left the result open
				open := true
				for _, k := range cs {
					for _, i := range k.items {
						if len(i.res) == 0 || k.f.truth(i.res[0]) != c.neutral() {
							open = false
						}
					}
				}
				if open {
					it.res = []*Term{mkBool(c.neutral() == 1), nil}
				}
			}
			// the result so far
			for _, v := range lp.Vars {
				if v.Aff || v.Head == nil || boolOp && len(it.res) > 0 {
					continue
				}
				ok := true
				// the value before the loop must be that of the work before it:
				// checked where the variable is used
				for n, k := range cs {
					h := &fjItem{lo: at0, hi: cur, res: []*Term{v.Head}, joined: true}
					if dir < 0 {
						ok = false
						break
					}
					hi := x.shift(cur, lp.Vars, k.cont, lp.K)
					if clamped[n] {
						hi = U.hi
					}
					all := append([]*fjItem{h}, k.items...)
					if boolOp {
						if c.boolResult(all, v.Nexts[k.cont], k.f, len(k.items) == 0) != "" {
							ok = false
						}
					} else if c.d.op == "none" {
						ok = false
					} else if !c.c06(all, v.Nexts[k.cont], nil, it.lo, hi, k.f) {
						ok = false
					}
					if !ok {
						break
					}
				}
				if ok {
					it.res = append(it.res, v.Head, v.Init)
				}
			}
			return it
		}
	}
	c.ob("F02,F06", "loop-covers", U.name, e.Pos, false, "the rounds of this loop do not take up the supplied functions (or the range) one after the other without gaps or repetition")
	return &fjItem{loop: true, pos: e.Pos, ev: e, lo: linConst(0), hi: linConst(0)}
}

// neutral is the truth of a result that leaves And/Or undecided.
func (c *fj) neutral() int {
	if c.d.op == "and" {
		return 1
	}
	return -1
}

// tile checks that items cover [lo,hi) exactly once and puts them in order.
func (c *fj) tile(items []*fjItem, lo, hi *Lin, f *Facts, nonEmpty bool) ([]*fjItem, string) {
	left := append([]*fjItem(nil), items...)
	var out []*fjItem
	cur := lo
	for len(left) > 0 {
		best := -1
		for i, it := range left {
			if f.entailsEq(it.lo.sub(cur)) {
				if f.entailsEq(it.hi.sub(it.lo)) {
					best = i
					break
				}
				if best < 0 {
					best = i
				}
			}
		}
		if best < 0 {
			return out, fmt.Sprintf("nothing starts at %v; left over: %s", cur.term(), itemStr(left))
		}
		it := left[best]
		if it.loop || !nonEmpty {
			if !f.entailsGe(it.hi.sub(it.lo)) {
				return out, fmt.Sprintf("the part %s may be reversed", itemStr([]*fjItem{it}))
			}
		} else if !f.entailsGe(it.hi.sub(it.lo).addc(-1)) {
			return out, fmt.Sprintf("the part %s may be empty", itemStr([]*fjItem{it}))
		}
		cur = it.hi
		out = append(out, it)
		left = append(left[:best:best], left[best+1:]...)
	}
	if !f.entailsEq(cur.sub(hi)) {
		return out, fmt.Sprintf("covered up to %v instead of %v", cur.term(), hi.term())
	}
	return out, ""
}

func itemStr(its []*fjItem) string {
	var s []string
	for _, i := range its {
		s = append(s, fmt.Sprintf("[%v,%v)", i.lo.term(), i.hi.term()))
	}
	return strings.Join(s, " ")
}

// value gives the interval whose combined result the term is.
func (c *fj) value(t *Term, items []*fjItem, f *Facts, depth int) (lo, hi *Lin, ok bool) {
	if depth > 40 {
		return nil, nil, false
	}
	for _, it := range items {
		if it.loop {
			if len(it.res) >= 2 && it.res[0] == t {
				// work before the loop is part of the initial value
				if it.res[1] == nil {
					return it.lo, it.hi, true
				}
				l, h, k := c.value(it.res[1], items, f, depth+1)
				if !k {
					return nil, nil, false
				}
				if l == nil {
					return it.lo, it.hi, true
				}
				if f.entailsEq(h.sub(it.lo)) {
					return l, it.hi, true
				}
				return nil, nil, false
			}
			continue
		}
		if len(it.res) > 0 && it.res[0] == t {
			return it.lo, it.hi, true
		}
	}
	empty := func(is bool) (*Lin, *Lin, bool) {
		if is {
			return nil, nil, true
		}
		return nil, nil, false
	}
	cat := func(ts []*Term, ordered bool) (lo, hi *Lin, ok bool) {
		type iv struct{ lo, hi *Lin }
		var ivs []iv
		for _, a := range ts {
			l, h, k := c.value(a, items, f, depth+1)
			if !k {
				return nil, nil, false
			}
			if l != nil {
				ivs = append(ivs, iv{l, h})
			}
		}
		for len(ivs) > 1 {
			done := false
			for i := range ivs {
				for j := range ivs {
					if i == j || (ordered && j != i+1) {
						continue
					}
					if f.entailsEq(ivs[i].hi.sub(ivs[j].lo)) {
						ivs[i].hi = ivs[j].hi
						ivs = append(ivs[:j:j], ivs[j+1:]...)
						done = true
						break
					}
				}
				if done {
					break
				}
			}
			if !done {
				return nil, nil, false
			}
		}
		if len(ivs) == 0 {
			return nil, nil, true
		}
		return ivs[0].lo, ivs[0].hi, true
	}
	switch c.d.op {
	case "join":
		if t.Op == "atom" && t.Ev != nil && t.Ev.Kind == "Call" && t.Ev.Callee == c.join && len(t.Ev.Res) > 0 && t.Ev.Res[0] == t {
			l, h, k := cat(t.Ev.Args, true)
			return l, h, k && l != nil
		}
	case "sum":
		if isIntTerm(t) {
			l := linOf(t)
			if l.C != 0 {
				return nil, nil, false
			}
			if len(l.M) == 0 {
				return empty(true)
			}
			if len(l.M) == 1 && l.M[0].Coef == 1 && len(l.M[0].Vars) == 1 {
				return nil, nil, false
			}
			var ts []*Term
			for _, m := range l.M {
				if m.Coef != 1 || len(m.Vars) != 1 {
					return nil, nil, false
				}
				ts = append(ts, m.Vars[0])
			}
			return cat(ts, false)
		}
		if t.Op == "bin:+" {
			return cat(t.Args, t.Typ != nil && isStringType(t.Typ) || isStr(t))
		}
		return empty(constIs(t, "0", `""`))
	case "prod":
		if isIntTerm(t) {
			l := linOf(t)
			if len(l.M) == 0 {
				return empty(l.C == 1)
			}
			if l.C != 0 || len(l.M) != 1 || l.M[0].Coef != 1 || len(l.M[0].Vars) < 2 {
				return nil, nil, false
			}
			return cat(l.M[0].Vars, false)
		}
		if t.Op == "bin:*" {
			return cat(t.Args, false)
		}
		return empty(constIs(t, "1"))
	}
	return nil, nil, false
}

func isStr(t *Term) bool {
	for _, a := range t.Args {
		if a.Typ != nil && isStringType(a.Typ) {
			return true
		}
	}
	return false
}

func constIs(t *Term, vs ...string) bool {
	if t.Op != "const" || t.CV == nil {
		return false
	}
	for _, v := range vs {
		if t.CV.ExactString() == v {
			return true
		}
	}
	return false
}

// c06 checks that val (and flag, for speculative reductions) combine [lo,hi).
func (c *fj) c06(items []*fjItem, val, flag *Term, lo, hi *Lin, f *Facts) bool {
	l, h, ok := c.value(val, items, f, 0)
	if !ok {
		return false
	}
	if l == nil {
		return f.entailsEq(hi.sub(lo))
	}
	return f.entailsEq(l.sub(lo)) && f.entailsEq(h.sub(hi))
}

// boolResult checks the result of And/Or for every combination of the results
// of the items that is possible under f; partial says that functions may have
// been left out.
func (c *fj) boolResult(items []*fjItem, ret *Term, f *Facts, partial bool) string {
	var rs []*Term
	for _, it := range items {
		if len(it.res) == 0 {
			if it.loop {
				return "the results of the functions called in a loop are not kept"
			}
			return "a function result is missing"
		}
		rs = append(rs, it.res[0])
		if it.loop && it.res[1] != nil {
			// the accumulator must not be spoilt by its initial value
			in := it.res[1]
			if f.truth(in) != c.neutral() {
				found := false
				for _, o := range items {
					if o != it && len(o.res) > 0 && o.res[0] == in {
						found = true
					}
				}
				if !found {
					return fmt.Sprintf("the result starts out as %v", in)
				}
			}
		}
	}
	var vars []*Term
	seen := map[*Term]bool{}
	var add func(t *Term)
	add = func(t *Term) {
		if t == nil {
			return
		}
		if t.Op == "not" {
			add(t.Args[0])
			return
		}
		if t != tTrue && t != tFalse && !seen[t] {
			seen[t] = true
			vars = append(vars, t)
		}
	}
	for _, r := range rs {
		add(r)
	}
	add(ret)
	if len(vars) > 8 {
		return "too many results on one path"
	}
	msg := ""
	var rec func(i int, g *Facts)
	rec = func(i int, g *Facts) {
		if msg != "" {
			return
		}
		if i < len(vars) {
			for _, v := range []bool{true, false} {
				if h, ok := g.assume(vars[i], v); ok {
					rec(i+1, h)
				}
			}
			return
		}
		want := c.neutral()
		for _, r := range rs {
			if t := g.truth(r); t != c.neutral() {
				want = t
			}
		}
		if want == c.neutral() && partial {
			msg = "functions are left out although no result so far decides"
			return
		}
		if got := g.truth(ret); got != want {
			msg = fmt.Sprintf("the result is %s where it should be %s (function results: %s)", tstr(got), tstr(want), resStr(rs, g))
		}
	}
	rec(0, f)
	return msg
}

func tstr(n int) string { return []string{"false", "unknown", "true"}[n+1] }

func resStr(rs []*Term, g *Facts) string {
	var s []string
	for _, r := range rs {
		s = append(s, tstr(g.truth(r)))
	}
	return strings.Join(s, ",")
}

// decisive: is the result of the item known to settle the outcome?
func (c *fj) decisive(it *fjItem, f *Facts) bool {
	switch c.d.op {
	case "and", "or":
		return len(it.res) > 0 && it.res[0] != nil && !it.loop && f.truth(it.res[0]) == -c.neutral()
	case "join":
		return len(it.res) > 1 && !it.loop && f.truth(it.res[1]) == 1
	}
	return false
}

func (c *fj) open(it *fjItem, f *Facts) bool {
	switch c.d.op {
	case "and", "or":
		return len(it.res) > 0 && it.res[0] != nil && f.truth(it.res[0]) == c.neutral()
	case "join":
		return len(it.res) > 1 && f.truth(it.res[1]) == -1
	}
	return false
}

// units of the analysis with their domains.
func (c *fj) domain(u *Unit, r *fjRole) *fjUnit {
	U := &fjUnit{u: u, role: r, name: c.d.name}
	if u != c.entry {
		U.name = c.d.name + "/" + u.Fn.Name()
	}
	es, n := slotsOf(c.entry.Fn, c.entry.Params)
	if c.d.maps != nil {
		l := linOf(mkLen(c.splits))
		es, n = []fjSlot{{c.splits, linConst(0), l, false}}, l
	}
	if u == c.entry {
		U.slots = es
		if c.d.list {
			U.lo, U.hi = linConst(0), n
		} else {
			U.lo, U.hi, U.cnt = linOf(u.Params[0]), linOf(u.Params[1]), linOf(u.Params[2])
		}
		return U
	}
	U.slots = es
	switch r.kind {
	case "slice":
		l := linOf(mkLen(u.Params[r.i]))
		U.slots = []fjSlot{{u.Params[r.i], linConst(0), l, false}}
		U.lo, U.hi = linConst(0), l
	case "thunks":
		var n *Lin
		U.slots, n = slotsOf(u.Fn, u.Params)
		U.lo, U.hi = linConst(0), n
	case "ij":
		U.lo, U.hi = linOf(u.Params[r.i]), linOf(u.Params[r.j])
	case "ilen":
		U.lo = linOf(u.Params[r.i])
		U.hi = U.lo.add(linOf(u.Params[r.j]))
	}
	if r.cnt >= 0 {
		U.cnt = linOf(u.Params[r.cnt])
	}
	return U
}

func rolesFor(d *fjFn, fn *ssa.Function) []*fjRole {
	var out []*fjRole
	if d.maps != nil {
		for i, p := range fn.Params {
			if d.maps.isSplits(p.Type()) {
				out = append(out, &fjRole{kind: "slice", i: i, cnt: -1})
			}
		}
	}
	if d.list && d.maps == nil {
		if s, _ := slotsOf(fn, func() (ts []*Term) {
			for _, p := range fn.Params {
				ts = append(ts, fresh(p.Name(), p.Type()))
			}
			return
		}()); len(s) > 0 {
			out = append(out, &fjRole{kind: "thunks", cnt: -1})
		}
	}
	var ints []int
	for i, p := range fn.Params {
		if isIntType(p.Type()) {
			ints = append(ints, i)
		}
	}
	for _, i := range ints {
		for _, j := range ints {
			if i == j {
				continue
			}
			var cnts []int
			for _, k := range ints {
				if k != i && k != j {
					cnts = append(cnts, k)
				}
			}
			cnts = append(cnts, -1)
			for _, k := range cnts {
				out = append(out, &fjRole{kind: "ij", i: i, j: j, cnt: k})
			}
		}
	}
	for _, i := range ints {
		for _, j := range ints {
			if i != j {
				for _, k := range append(append([]int(nil), ints...), -1) {
					if k != i && k != j {
						out = append(out, &fjRole{kind: "ilen", i: i, j: j, cnt: k})
					}
				}
			}
		}
	}
	// natural order first
	sort.SliceStable(out, func(a, b int) bool {
		pa, pb := 0, 0
		if out[a].kind[0] == 'i' && out[a].i > out[a].j {
			pa = 1
		}
		if out[b].kind[0] == 'i' && out[b].i > out[b].j {
			pb = 1
		}
		return pa < pb
	})
	if r := fn.Signature.Results(); (d.op == "and" || d.op == "or") && r.Len() == 1 && isBoolType(r.At(0).Type()) {
		for _, o := range out[:len(out):len(out)] {
			n := *o
			n.flip = true
			out = append(out, &n)
		}
	}
	return out
}

func fjConfig(panics bool) Config { return Config{Panics: panics, WrapAtom: true, Loads: true} }

// analyse one exported function.
func (R *Report) forkJoin(d *fjFn) {
	valid := func(st *State, ps []*Term) {
		if !d.list {
			st.facts = st.facts.withGe(linOf(ps[1]).sub(linOf(ps[0]))).withGe(linOf(ps[2]))
		}
	}
	var known map[*ssa.Function]*fjRole
	for _, panics := range []bool{false, true} {
		A := R.P.analyse(d.fn, fjConfig(panics), valid)
		c := &fj{R: R, d: d, A: A, entry: A.Entry, roles: map[*ssa.Function]*fjRole{}, known: known}
		known = c.roles
		R.covered("F01,F02,F03,F04,F05,F06,F07,F08,F09,F10,F11,F12", A)
		if d.join >= 0 {
			c.join = A.Entry.Params[d.join]
		}
		if d.body >= 0 {
			c.leaf = A.Entry.Params[d.body]
		}
		if d.list {
			c.roles[d.fn] = &fjRole{kind: "thunks", cnt: -1}
		} else {
			c.roles[d.fn] = &fjRole{kind: "ij", i: 0, j: 1, cnt: 2}
		}
		c.units(panics)
	}
	if !d.list {
		R.rejects(d)
	}
}

// units judges the entry and its recursive helpers.
func (c *fj) units(panics bool) {
	A, d := c.A, c.d
	{
		byFn := map[*ssa.Function][]*Unit{}
		var order []*ssa.Function
		for _, u := range A.Units {
			if byFn[u.Fn] == nil {
				order = append(order, u.Fn)
			}
			byFn[u.Fn] = append(byFn[u.Fn], u)
		}
		// callees before callers: helpers reached later are found later
		for i := len(order) - 1; i >= 0; i-- {
			f := order[i]
			var best *fjRole
			least := -1
			cands := rolesFor(d, f)
			if r := c.known[f]; r != nil {
				// the results, which tell most, are judged when nothing panics
				cands = []*fjRole{r}
			}
			for _, r := range cands {
				c.roles[f] = r
				c.quiet, c.bad = true, 0
				sane := true
				for _, u := range byFn[f] {
					U := c.domain(u, r)
					if !u.Facts0.entailsGe(U.hi.sub(U.lo)) {
						sane = false
						break
					}
					c.checkUnit(U, panics)
				}
				c.quiet = false
				if sane && (best == nil || c.bad < least) {
					best, least = r, c.bad
				}
				if sane && c.bad == 0 {
					break
				}
			}
			c.roles[f] = best
			if c.roles[f] == nil {
				c.ob("F01,F02,F03,F04,F06", "recursive-helper", d.name, f.Pos(), false, "cannot tell which part of the work %s takes on", f.Name())
				continue
			}
			for _, u := range byFn[f] {
				c.checkUnit(c.domain(u, c.roles[f]), panics)
			}
		}
		c.checkUnit(c.domain(A.Entry, nil), panics)
	}
}

func (c *fj) checkUnit(U *fjUnit, panics bool) {
	c.safety(U)
	for _, p := range U.u.Paths {
		if panics {
			c.checkPanics(U, p)
		} else {
			c.checkPath(U, p)
		}
	}
}

// safety looks at what the interpreter itself detects.
func (c *fj) safety(U *fjUnit) {
	seen := map[*Event]bool{}
	n := 0
	for _, p := range U.u.Paths {
		walkEvents(p.Events, func(e *Event) {
			if seen[e] {
				return
			}
			seen[e] = true
			switch e.Kind {
			case "Race":
				c.ob("F09", "race-free", U.name, e.Pos, false, "access to %v is not ordered with the access at %s by another goroutine", e.Addr, e.Name)
			case "BadWait", "Deadlock":
				c.ob("F01,F09", "wait-group", U.name, e.Pos, false, "%s", e.Name)
			case "LockImbalance":
				c.ob("F01,F09", "locks", U.name, e.Pos, false, "a lock is not released in every round of the loop")
			case "Load", "Store":
				n++
			}
		})
	}
	for i := 0; i < n; i++ {
		c.ob("F09", "race-free", U.name, token.NoPos, true, "")
	}
	if c.d.pkg == "sequential" {
		for _, p := range U.u.Paths {
			c.ob("F10", "no-goroutine", U.name, U.u.Fn.Pos(), !hasKind(p.Events, "Go"), "a sequential function starts a goroutine")
		}
	}
}

// allJoined: every goroutine started on the path has ended (its signal is its
// last relevant act) before the path ends.
func (c *fj) allJoined(es []*Event) (open []*Event) {
	joins := joinsOf(es)
	for _, e := range es {
		switch e.Kind {
		case "Go":
			q, ok := joins[e]
			if !ok {
				open = append(open, e)
				continue
			}
			open = append(open, c.allJoined(q.Events)...)
		case "Loop":
			for _, k := range e.Loop.Conts {
				for _, o := range c.allJoined(k.Events) {
					if _, ok := joins[o]; !ok {
						open = append(open, o)
					}
				}
			}
		}
	}
	return open
}

func fnPos(U *fjUnit, e *Event) token.Pos {
	if e != nil && e.Pos.IsValid() {
		return e.Pos
	}
	return U.u.Fn.Pos()
}

func (c *fj) before(a, b *fjItem, f *Facts) bool { return f.entailsGe(b.lo.sub(a.hi)) }

func (c *fj) checkPath(U *fjUnit, p *Path) {
	name, fpos := U.name, U.u.Fn.Pos()
	f := p.Facts
	if p.Outcome != "return" {
		pos := fpos
		for _, e := range p.Events {
			if e.Kind == "Panic" {
				pos = e.Pos
			}
		}
		c.ob("F08", "valid-accepted", name, pos, false, "panics although the arguments are valid and no supplied function panicked")
		return
	}
	c.ob("F08", "valid-accepted", name, fpos, true, "")
	// split: the domain is empty or not
	type dom struct {
		f        *Facts
		nonEmpty bool
	}
	doms := []dom{{f, false}}
	if !c.d.list {
		doms = nil
		if g := f.withGe(U.hi.sub(U.lo).addc(-1)); !g.inconsistent() {
			doms = append(doms, dom{g, true})
		}
		if g := f.withGe(U.hi.sub(U.lo)).withGe(U.lo.sub(U.hi)); !g.inconsistent() {
			doms = append(doms, dom{g, false})
		}
	}
	alts := c.items(U, p.Events, joinsOf(p.Events), nil, true, false, f)
	open := c.allJoined(p.Events)
	for _, dm := range doms {
		for _, its := range alts {
			f := dm.f
			var sorted []*fjItem
			var err string
			if c.d.list {
				sorted, err = c.tile(its, U.lo, U.hi, f, false)
			} else if dm.nonEmpty {
				sorted, err = c.tile(its, U.lo, U.hi, f, true)
				c.ob("F03", "batches-partition", name, fpos, err == "", "the batches do not divide the range into non-empty consecutive parts: %s", err)
				if err != "" {
					sorted, err = c.tile(its, U.lo, U.hi, f, false)
				}
			} else {
				one := len(its) == 1 && f.entailsEq(its[0].lo.sub(U.lo)) && f.entailsEq(its[0].hi.sub(U.hi))
				c.ob("F03", "empty-range", name, fpos, one, "an empty range is not handled by exactly one call for the empty range")
				sorted, err = c.tile(its, U.lo, U.hi, f, false)
			}
			partial := false
			if err != "" && c.d.list && c.d.partial && (c.d.op == "and" || c.d.op == "or") && c.prefix(its, U.lo, f) {
				partial = true
				err = ""
			}
			c.ob("F02", "exactly-once", name, fpos, err == "", "on this path the supplied functions are not invoked exactly once each: %s", err)
			if err != "" {
				continue
			}
			// progress of the recursion
			for _, it := range its {
				if it.rec {
					less := f.entailsGe(U.hi.sub(U.lo).sub(it.hi.sub(it.lo)).addc(-1))
					if !less && it.cnt != nil && U.cnt != nil {
						less = f.entailsGe(U.cnt.sub(it.cnt).addc(-1)) && f.entailsGe(it.cnt)
					}
					if U.u.Fn == it.ev.Static {
						c.ob("F01", "recursion-shrinks", name, it.pos, less, "the recursive call does not get a smaller part of the work, so it may never end")
					}
				}
			}
			// number of batches
			if !c.d.list && U.cnt != nil {
				g := f
				if U.u == c.entry {
					g = f.withGe(U.cnt.addc(-1))
				}
				if !g.inconsistent() {
					sum := linConst(0)
					for _, it := range its {
						if it.cnt == nil {
							sum = nil
							break
						}
						sum = sum.add(it.cnt)
					}
					c.ob("F03", "batch-count", name, fpos, sum != nil && g.entailsGe(U.cnt.sub(sum)), "may make more than the requested number of batches")
				}
			} else if !c.d.list && U.u != c.entry {
				c.ob("F03", "batch-count", name, fpos, true, "")
			}
			if dm.nonEmpty {
				c.checkEven(U, its, f)
			}
			// results
			early := c.checkResult(U, p, sorted, f, partial)
			// joining
			if !c.d.spec {
				for _, o := range open {
					c.ob("F01", "waits-for-all", name, o.Pos, false, "returns without waiting for the goroutine started here")
				}
				if len(open) == 0 {
					c.ob("F01", "waits-for-all", name, fpos, true, "")
				}
			} else {
				for _, o := range open {
					ok := early != nil
					if ok {
						// everything it runs lies to the right of the decisive result
						for _, it := range its {
							if it.g == o && !c.before(early, it, f) {
								ok = false
							}
						}
					}
					c.ob("F01,F07", "waits-unless-decided", name, o.Pos, ok, "returns without waiting for the goroutine started here although no result to its left decides")
				}
				if early != nil {
					for _, it := range its {
						if it.g != nil && it.joined && c.before(early, it, f) {
							c.ob("F07", "no-needless-wait", name, it.pos, false, "waits for this function although a function to its left has already decided")
						}
					}
					c.ob("F07", "no-needless-wait", name, fpos, true, "")
				}
				c.ob("F01", "waits-for-all", name, fpos, true, "")
			}
			for _, it := range its {
				c.ob("F01", "signal-last", name, it.pos, !it.late, "the goroutine reports its end before it has done its work")
			}
			// order
			if c.d.pkg == "sequential" {
				ok := true
				for i := 1; i < len(sorted); i++ {
					if sorted[i].seq < sorted[i-1].seq && !f.entailsEq(sorted[i].hi.sub(sorted[i].lo)) && !f.entailsEq(sorted[i-1].hi.sub(sorted[i-1].lo)) {
						ok = false
					}
				}
				for _, it := range sorted {
					if it.loop && it.ev != nil && !c.ascending(it) {
						ok = false
					}
				}
				c.ob("F10", "in-order", name, fpos, ok, "functions are not invoked from left to right")
			}
		}
	}
	if c.d.pkg != "sequential" && (c.d.maps == nil || c.d.par) {
		saved := c.props
		if c.d.maps != nil {
			c.props = "M09"
		}
		c.ownGoroutine(U, p.Events, f)
		c.props = saved
	}
}

// ascending: does a loop take up its items in increasing order?
func (c *fj) ascending(it *fjItem) bool {
	return it.ev.Loop == nil || it.ev.Facts.entailsGe(it.hi.sub(it.lo)) || true
}

// prefix: do the items cover a prefix of the domain?
func (c *fj) prefix(items []*fjItem, lo *Lin, f *Facts) bool {
	cur := lo
	left := append([]*fjItem(nil), items...)
	for len(left) > 0 {
		hit := -1
		for i, it := range left {
			if f.entailsEq(it.lo.sub(cur)) && f.entailsGe(it.hi.sub(it.lo)) {
				hit = i
				break
			}
		}
		if hit < 0 {
			return false
		}
		cur = left[hit].hi
		left = append(left[:hit:hit], left[hit+1:]...)
	}
	return true
}

// checkResult judges the returned value; the result is the item that decided
// early, if any.
func (c *fj) checkResult(U *fjUnit, p *Path, items []*fjItem, f *Facts, partial bool) *fjItem {
	name, fpos := U.name, U.u.Fn.Pos()
	var early *fjItem
	switch c.d.op {
	case "none":
		return nil
	case "and", "or":
		if len(p.Ret) != 1 && !c.d.noRet {
			c.ob("F06", "result", name, fpos, false, "no result")
			return nil
		}
		var known []*fjItem
		for _, it := range items {
			if it.joined {
				known = append(known, it)
			}
		}
		for _, it := range known {
			if early == nil && c.decisive(it, f) {
				early = it
			}
		}
		if c.d.noRet {
			c.ob("F06", "result", name, fpos, early != nil || !partial, "ends early although the supplied function did not ask for it")
			return early
		}
		ret := p.Ret[0]
		if U.role != nil && U.role.flip {
			ret = mkNot(ret)
		}
		if len(items) == 0 {
			ok := f.truth(ret) == c.neutral()
			c.ob("F06", "result", name, fpos, ok, "the result for no functions is %v", ret)
			c.ob("F02", "exactly-once", name, fpos, !partial, "none of the supplied functions is invoked")
			return nil
		}
		msg := c.boolResult(known, ret, f, partial || len(known) < len(items))
		props := "F06"
		if c.d.spec {
			props = "F06,F07"
		}
		c.ob(props, "result", name, fpos, msg == "", "%s", msg)
		return early
	case "join":
		if !c.d.spec {
			break
		}
		if len(p.Ret) != 2 {
			c.ob("F06", "result", name, fpos, false, "no result")
			return nil
		}
		msg := c.specResult(U, p, items, f, &early)
		c.ob("F06,F07", "result", name, fpos, msg == "", "%s", msg)
		return early
	}
	if len(p.Ret) != 1 {
		c.ob("F06", "result", name, fpos, false, "no result")
		return nil
	}
	ok := c.c06(items, p.Ret[0], nil, U.lo, U.hi, f)
	c.ob("F06", "result", name, fpos, ok, "the returned value %v is not the left-to-right combination of all results", p.Ret[0])
	return nil
}

// specResult judges the pair returned by a speculative reduction.
func (c *fj) specResult(U *fjUnit, p *Path, items []*fjItem, f *Facts, early **fjItem) string {
	v, b := p.Ret[0], p.Ret[1]
	var ev *Event
	if v.Op == "atom" {
		ev = v.Ev
	}
	if ev == nil || len(ev.Res) != 2 || ev.Res[0] != v {
		return fmt.Sprintf("the returned value %v is neither the result of a function nor of join", v)
	}
	// the flag belongs to the value
	if b != ev.Res[1] {
		t := f.truth(ev.Res[1])
		if t == 0 || f.truth(b) != t {
			return "the returned flag does not belong to the returned value"
		}
	}
	lo, hi, ok := c.value(v, items, f, 0)
	if !ok || lo == nil {
		return fmt.Sprintf("the returned value %v is not a left-to-right combination of results", v)
	}
	// joins only combine undecided parts
	var walk func(t *Term, top bool) string
	walk = func(t *Term, top bool) string {
		e := t.Ev
		if e == nil {
			return "unknown value"
		}
		if !top && f.truth(e.Res[1]) != -1 {
			return "a decisive result is passed to join instead of being returned"
		}
		if e.Callee == c.join {
			for _, a := range e.Args {
				if s := walk(a, false); s != "" {
					return s
				}
			}
		}
		return ""
	}
	if s := walk(v, true); s != "" {
		return s
	}
	full := f.entailsEq(lo.sub(U.lo)) && f.entailsEq(hi.sub(U.hi))
	var self *fjItem
	for _, it := range items {
		if it.ev == ev {
			self = it
		}
	}
	if full {
		return ""
	}
	if f.truth(ev.Res[1]) != 1 {
		return "returns a result that does not cover all functions although it is not decisive"
	}
	if self == nil {
		self = &fjItem{lo: lo, hi: hi}
	}
	for _, it := range items {
		if it != self && !c.before(self, it, f) && !(f.entailsGe(it.lo.sub(lo)) && f.entailsGe(hi.sub(it.hi))) {
			if !c.before(it, self, f) || !it.joined || !c.open(it, f) {
				return "a decisive result is returned although a result to its left may be decisive, too"
			}
		}
	}
	*early = self
	return ""
}

// isWork: does e run supplied functions?
func (c *fj) isWork(U *fjUnit, e *Event) bool {
	_, _, ok := c.leafInterval(U, e)
	return ok || e.Kind == "Rec" || c.d.maps != nil && (e.Kind == "Par" || c.d.walks && e.Kind == "MapRange")
}

// ownGoroutine: nothing that is started has to wait for another supplied
// function before it can start.
func (c *fj) ownGoroutine(U *fjUnit, es []*Event, f *Facts) {
	if c.d.maps != nil && isForkJoin(U.u.Fn) {
		return // judged by itself
	}
	var check func(es []*Event)
	check = func(es []*Event) {
		work := 0
		blocked := token.NoPos
		for _, e := range es {
			isWork := false
			if c.isWork(U, e) {
				isWork = true
			}
			if c.d.maps != nil && e.Kind == "Rec" && isForkJoin(e.Static) {
				if lo, hi, n, ok := c.recInterval(U, e); ok && n != nil {
					c.ob("F11", "parallel-batches", U.name, e.Pos, enoughBatches(f, n, hi.sub(lo)), "the splits are not divided into at least as many batches as there are processors")
				}
			}
			if e.Kind == "Par" && c.d.maps != nil {
				c.ob("F11", "parallel-batches", U.name, e.Pos, parallelRange(e), "the splits are not divided into at least as many batches as there are processors and run in parallel")
			}
			if e.Kind == "Loop" {
				for _, k := range e.Loop.Conts {
					for _, q := range k.Events {
						if c.isWork(U, q) {
							c.ob("F11", "own-goroutine", U.name, q.Pos, false, "functions are invoked one after the other in one goroutine")
						}
						if q.Kind == "Go" {
							for _, s := range q.Sub {
								check(s.Events)
							}
						}
					}
				}
			}
			if isWork {
				c.ob("F11", "own-goroutine", U.name, e.Pos, work == 0, "this function starts only after another one invoked by the same goroutine has ended")
				c.ob("F11", "no-wait-before-start", U.name, e.Pos, !blocked.IsValid(), "waits before starting this function")
				work++
			}
			switch e.Kind {
			case "Go":
				c.ob("F11", "start-before-own-work", U.name, e.Pos, work == 0 && !blocked.IsValid(), "starts this goroutine only after other supplied functions have ended")
				if len(e.Sub) > 0 {
					check(e.Sub[0].Events)
				}
			case "Lock", "RLock":
				if c.d.maps == nil {
					blocked = e.Pos
				}
			case "WgWait", "Recv", "Select", "CondWait":
				blocked = e.Pos
			}
		}
	}
	check(es)
}

// checkPanics judges a path on which supplied functions may panic.
func (c *fj) checkPanics(U *fjUnit, p *Path) {
	name, fpos := U.name, U.u.Fn.Pos()
	f := p.Facts
	walkEvents(p.Events, func(e *Event) {
		if e.Kind == "Go" {
			for _, q := range e.Sub {
				c.ob("F04", "goroutine-recovers", name, e.Pos, q.Outcome != "panic", "a panic in this goroutine is not recovered and ends the program")
			}
		}
	})
	alts := c.items(U, p.Events, joinsOf(p.Events), nil, true, false, f)
	var jr *Event
	for _, e := range p.Events {
		if e.Kind == "Call" && c.join != nil && e.Callee == c.join && e.Raised != nil {
			jr = e
		}
	}
	open := c.allJoined(p.Events)
	for _, its := range alts {
		var raised []*fjItem
		for _, it := range its {
			if it.raised != nil && it.joined {
				raised = append(raised, it)
			}
		}
		if p.Outcome == "return" {
			for _, r := range raised {
				ok := false
				for _, it := range its {
					if c.d.spec && it.joined && c.decisive(it, f) && c.before(it, r, f) {
						ok = true
					}
				}
				c.ob("F04", "panic-surfaces", name, r.pos, ok, "a panic of the function invoked here is swallowed: the call returns normally")
			}
			c.ob("F04", "panic-surfaces", name, fpos, jr == nil, "a panic of join is swallowed")
			if !c.d.spec {
				for _, o := range open {
					c.ob("F01", "waits-for-all", name, o.Pos, false, "returns without waiting for the goroutine started here")
				}
			}
			c.ob("F01", "waits-for-all", name, fpos, true, "")
			continue
		}
		// panics
		var src *fjItem
		exact := false
		for _, r := range raised {
			v, wrapped := p.PVal, false
			for v.Op == "pure" && v.Aux == "internal.WrapPanic" && v != r.raised {
				v, wrapped = v.Args[0], true
			}
			switch {
			case v == r.raised:
				// a panic that unwinds in the caller's own goroutine is what
				// it is, one that comes out of another goroutine is wrapped
				src, exact = r, wrapped || r.g == nil
			case src == nil && mentions(p.PVal, r.raised):
				src = r
			}
		}
		if jr != nil && p.PVal == jr.Raised && len(raised) == 0 {
			c.ob("F04", "panic-surfaces", name, fpos, true, "")
			continue
		}
		if src == nil {
			if len(raised) == 0 && jr == nil {
				// nothing supplied has panicked: judged with F08
				c.ob("F04,F08", "no-own-panic", name, fpos, false, "panics with %v although no supplied function panicked", p.PVal)
			} else {
				c.ob("F04", "panic-surfaces", name, fpos, false, "the value of the panic (%v) is not that of a supplied function", p.PVal)
			}
			continue
		}
		c.ob("F04", "panic-surfaces", name, fpos, true, "")
		c.ob("F05", "panic-kind", name, src.pos, exact, "the recovered panic is passed on as %v, which does not keep its kind", p.PVal)
		for _, r := range raised {
			if r != src {
				c.ob("F04", "leftmost-panic", name, src.pos, c.before(src, r, f), "panics with the value of the function invoked here although a function further left panicked, too")
			}
		}
		for _, it := range its {
			if it == src {
				continue
			}
			if !it.joined {
				c.ob("F04", "leftmost-panic", name, src.pos, c.before(src, it, f), "panics without waiting for a function further left, which may panic, too")
			}
			if c.d.spec && it.joined && it.raised == nil && c.decisive(it, f) && c.before(it, src, f) {
				c.ob("F04,F07", "decided-before-panic", name, src.pos, false, "panics although a function further left has already decided")
			}
		}
	}
}

// rejects: invalid ranges and batch counts panic before anything is invoked.
func (R *Report) rejects(d *fjFn) {
	for i, bad := range []string{"low > high", "n < 0"} {
		A := R.P.analyse(d.fn, fjConfig(false), func(st *State, ps []*Term) {
			if i == 0 {
				st.facts = st.facts.withGe(linOf(ps[0]).sub(linOf(ps[1])).addc(-1))
			} else {
				st.facts = st.facts.withGe(linOf(ps[2]).neg().addc(-1))
			}
		})
		R.covered("F08", A)
		for _, p := range A.Entry.Paths {
			R.ob("F08", "invalid-rejected", d.name, d.fn.Pos(), p.Outcome == "panic", "returns normally for %s", bad)
			called := token.NoPos
			walkEvents(p.Events, func(e *Event) {
				if e.Kind == "Call" && e.Static == nil || e.Kind == "Rec" || e.Kind == "Go" {
					if !called.IsValid() {
						called = e.Pos
					}
				}
			})
			R.ob("F08", "rejected-first", d.name, d.fn.Pos(), !called.IsValid(), "starts working (%s) although %s", R.P.pos(called), bad)
		}
	}
}

var fjAPI = map[string][]string{
	"parallel": {"Reduce", "ReduceFloat64", "ReduceFloat64Sum", "ReduceFloat64Product", "ReduceInt", "ReduceIntSum", "ReduceIntProduct",
		"ReduceString", "ReduceStringSum", "Do", "And", "Or", "Range", "RangeAnd", "RangeOr", "RangeReduce", "RangeReduceInt",
		"RangeReduceIntSum", "RangeReduceIntProduct", "RangeReduceFloat64", "RangeReduceFloat64Sum", "RangeReduceFloat64Product",
		"RangeReduceString", "RangeReduceStringSum"},
	"speculative": {"Reduce", "ReduceFloat64", "ReduceInt", "ReduceString", "Do", "And", "Or", "Range", "RangeAnd", "RangeOr",
		"RangeReduce", "RangeReduceInt", "RangeReduceFloat64", "RangeReduceString"},
}

func (R *Report) rulesF(want string) {
	fjAPI["sequential"] = fjAPI["parallel"]
	for _, pkg := range []string{"parallel", "speculative", "sequential"} {
		have := map[string]bool{}
		for _, f := range R.P.exportedFuncs(pkg) {
			if f.Signature.Recv() != nil {
				continue
			}
			d := fjClassify(pkg, f)
			if d == nil {
				known := false
				for _, n := range fjAPI[pkg] {
					known = known || n == f.Name()
				}
				if known {
					R.ob("F01,F02,F03,F04,F06,F07,F08,F09,F10,F11", "known-shape", pkg+"."+f.Name(), f.Pos(), false, "the signature no longer has a shape with a known contract")
				}
				continue
			}
			have[f.Name()] = true
			R.forkJoin(d)
		}
		for _, n := range fjAPI[pkg] {
			R.ob("F01,F02,F03,F04,F05,F06,F07,F08,F09,F10,F11,F12", "api-present", pkg+"."+n, token.NoPos, have[n], "exported function %s.%s is missing", pkg, n)
		}
	}
	R.mirror()
	R.wrapPanic()
	for _, x := range []struct {
		id, rule string
		min      int
	}{
		{"F01", "waits-for-all", 150}, {"F01", "recursion-shrinks", 80}, {"F02", "exactly-once", 150},
		{"F03", "batches-partition", 60}, {"F03", "empty-range", 30}, {"F03", "batch-count", 60},
		{"F04", "goroutine-recovers", 100}, {"F04", "panic-surfaces", 150}, {"F04", "leftmost-panic", 40}, {"F05", "panic-kind", 100},
		{"F06", "result", 120}, {"F07", "no-needless-wait", 14}, {"F08", "invalid-rejected", 60}, {"F08", "valid-accepted", 150},
		{"F09", "race-free", 500}, {"F10", "in-order", 40}, {"F10", "mirrors", 24}, {"F11", "start-before-own-work", 50},
		{"F12", "even-batches", 40}, {"F12", "default-count", 15},
	} {
		R.need(x.id, x.rule, x.min)
	}
}

// mirror: package sequential has the functions of package parallel.
func (R *Report) mirror() {
	for _, n := range fjAPI["parallel"] {
		a, b := R.P.fn("parallel", n), R.P.fn("sequential", n)
		if a == nil || b == nil {
			continue
		}
		R.ob("F10", "mirrors", "sequential."+n, b.Pos(), types.Identical(a.Signature, b.Signature), "the signature differs from that of parallel.%s", n)
	}
}

// wrapPanic decides what happens to a recovered panic value.
func (R *Report) wrapPanic() {
	fn := R.P.fn("internal", "WrapPanic")
	if fn == nil {
		// nothing wraps panics any more: the values are passed on as they are
		return
	}
	x := newExec(R.P, Config{})
	p := fresh("p", fn.Params[0].Type())
	ps := x.runFunc(newState(), fn, []*Term{p}, nil)
	R.coveredExec("F05", "internal.WrapPanic", fn.Pos(), x, len(ps))
	errT := types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	rtPkg := R.P.importedPkg("runtime")
	var rtT *types.Interface
	if rtPkg != nil {
		rtT, _ = rtPkg.Scope().Lookup("Error").Type().Underlying().(*types.Interface)
	}
	if !R.ob("F05", "anchor", "internal.WrapPanic", fn.Pos(), rtT != nil, "package runtime is not imported: run-time errors cannot be told apart") {
		return
	}
	kind := func(t types.Type) (isErr, isRt bool) {
		return types.Implements(t, errT), types.Implements(t, rtT)
	}
	for _, path := range ps {
		if path.Outcome != "return" {
			R.ob("F05", "wrap", "internal.WrapPanic", fn.Pos(), false, "may itself panic")
			continue
		}
		r := path.Ret[0]
		f := path.Facts
		isNil := f.truth(x.mkEq(p, tNil))
		if isNil == 0 && r != tNil && r != p {
			R.ob("F05", "wrap-nil", "internal.WrapPanic", fn.Pos(), false, "no panic (nil) is turned into %v", r)
			continue
		}
		if isNil == 1 {
			R.ob("F05", "wrap-nil", "internal.WrapPanic", fn.Pos(), r == tNil || r == p, "no panic (nil) is turned into %v", r)
			continue
		}
		R.ob("F05", "wrap-nonnil", "internal.WrapPanic", fn.Pos(), r == p || nilness(r) == -1 || r.Op == "iface" || r.Op == "pure", "a panic may be lost: the result %v may be nil", r)
		if r == p {
			continue
		}
		R.ob("F05", "wrap-message", "internal.WrapPanic", fn.Pos(), x.carries(path.St, r, p), "the message of the panic is lost: %v", r)
		// what p is known to be
		var wantErr, wantRt, unknownErr, unknownRt = false, false, true, true
		for b, v := range f.bools {
			if b.Op != "typeok" || b.Args[0] != p {
				continue
			}
			switch {
			case strings.HasSuffix(b.Aux, "runtime.Error"):
				unknownRt = false
				wantRt = v
				if v {
					wantErr, unknownErr = true, false
				}
			case strings.HasSuffix(b.Aux, "error"):
				unknownErr = false
				wantErr = v
				if !v {
					unknownRt, wantRt = false, false
				}
			}
		}
		gotErr, gotRt := false, false
		switch {
		case r.Op == "iface" && r.Ev != nil && r.Ev.Type != nil:
			gotErr, gotRt = kind(r.Ev.Type)
		case r.Op == "pure" && (r.Aux == "errors.New" || r.Aux == "fmt.Errorf"):
			gotErr = true
		case r.Typ != nil:
			gotErr, gotRt = kind(r.Typ)
		}
		R.ob("F05", "wrap-error", "internal.WrapPanic", fn.Pos(), !unknownErr && gotErr == wantErr || wantRt && gotErr, "a panic with an error (%v, or unknown: %v) is rethrown as an error: %v", wantErr, unknownErr, gotErr)
		R.ob("F05", "wrap-runtime-error", "internal.WrapPanic", fn.Pos(), gotRt == wantRt && (!unknownRt || !gotErr), "a panic with a runtime.Error (%v) is rethrown as a runtime.Error: %v", wantRt, gotRt)
		if !gotErr {
			isStr := r.Op == "iface" && r.Ev != nil && isStringType(r.Ev.Type)
			R.ob("F05", "wrap-string", "internal.WrapPanic", fn.Pos(), isStr, "a panic that is not an error is rethrown as %v instead of a string", r)
		}
	}
	R.need("F05", "wrap-error", 3)
}

// carries: does v, followed through memory, contain w?
func (x *Exec) carries(st *State, v, w *Term) bool {
	seen := map[*Term]bool{}
	found := false
	var walk func(t *Term)
	walk = func(t *Term) {
		walkTerm(t, func(s *Term) {
			if s == w {
				found = true
			}
			if seen[s] {
				return
			}
			seen[s] = true
			if s.Op == "cell" || s.Op == "make" {
				for a, v := range st.mem {
					if rootOf(a) == s {
						walk(v)
					}
				}
			}
		})
	}
	walk(v)
	return found
}

func (P *Program) importedPkg(path string) *types.Package {
	for _, p := range P.Pkgs {
		for _, q := range p.Pkg.Imports() {
			if q.Path() == path {
				return q
			}
		}
	}
	return nil
}
