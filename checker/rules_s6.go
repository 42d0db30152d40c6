package main

// The predefined slice types of package sort (S06).

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type sliceType struct {
	R     *Report
	named *types.Named
	elem  types.Type
	kind  string // int, float, string
	name  string
}

func (R *Report) sliceTypes() []*sliceType {
	var out []*sliceType
	scope := R.P.tpkg("sort").Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		sl, ok := nt.Underlying().(*types.Slice)
		if !ok {
			continue
		}
		t := &sliceType{R: R, named: nt, elem: sl.Elem(), name: n}
		switch {
		case isIntType(sl.Elem()):
			t.kind = "int"
		case isFloatType(sl.Elem()):
			t.kind = "float"
		case isStringType(sl.Elem()):
			t.kind = "string"
		default:
			continue
		}
		out = append(out, t)
	}
	return out
}

func (t *sliceType) method(name string) *ssa.Function {
	return t.R.P.method("sort", t.name, name)
}

// run interprets a method for a fresh receiver and arguments.
func (t *sliceType) run(x *Exec, st *State, f *ssa.Function, params []*Term) []*Path {
	ps := x.runFunc(st, f, params, nil)
	t.R.coveredExec("S06", "sort."+t.name+"."+f.Name(), f.Pos(), x, len(ps))
	return ps
}

func (t *sliceType) exec(f *ssa.Function) *Exec {
	cfg := t.R.P.sortCfg(f)
	cfg.PureCall = func(m *types.Func) bool { return m.Name() == "Len" || m.Name() == "Less" }
	return newExec(t.R.P, cfg)
}

func (t *sliceType) ob(rule, m string, pos token.Pos, ok bool, format string, a ...interface{}) {
	t.R.ob("S06", rule, "sort."+t.name+"."+m, pos, ok, format, a...)
}

// foreign lists the changes of memory other than the function's own.
func foreign(p *Path) []*Event {
	var out []*Event
	for _, e := range flatEvents(p.Events) {
		switch e.Kind {
		case "Store", "Copy":
			a := e.Addr
			if e.Kind == "Copy" {
				a = e.Args[0]
			}
			if r := rootOf(a); r.Op != "cell" && r.Op != "make" {
				out = append(out, e)
			}
		case "Call", "Go", "Par", "Rec", "Race", "Send", "Recv", "Select":
			out = append(out, e)
		}
	}
	return out
}

func flatEvents(es []*Event) []*Event {
	var out []*Event
	walkEvents(es, func(e *Event) { out = append(out, e) })
	return out
}

// stdSliceOrder is the order of the slice types of the standard library.
func stdSliceOrder(key, kind string) bool {
	switch kind {
	case "int":
		return strings.HasSuffix(key, "sort.IntSlice")
	case "float":
		return strings.HasSuffix(key, "sort.Float64Slice")
	case "string":
		return strings.HasSuffix(key, "sort.StringSlice")
	}
	return false
}

func isStdSort(f *ssa.Function, name string) bool {
	return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "sort" && f.Name() == name
}

// judgeLess: do the paths of a comparison return whether a sorts before b, where
// va and vb are the values of the elements?
func (t *sliceType) judgeLess(ps []*Path, va, vb, s, i, j *Term) (bool, string) {
	for _, p := range ps {
		if p.Outcome != "return" || len(p.Ret) != 1 {
			return false, "a comparison may panic"
		}
		if fs := foreign(p); len(fs) > 0 {
			return false, "a comparison has side effects"
		}
		r := p.Ret[0]
		if r.Op == "pure" && len(r.Args) == 3 && stdLessName(r.Aux, t.kind) && stripConv(r.Args[0]) == s && r.Args[1] == i && r.Args[2] == j && len(p.Facts.bools) == 0 {
			continue
		}
		for _, sc := range scenarios(t.kind) {
			want := sc.ord < 0
			if sc.nanA || sc.nanB {
				want = sc.nanA && !sc.nanB
			}
			f := p.Facts
			possible := true
			if t.kind == "int" {
				d := linOf(va).sub(linOf(vb))
				switch {
				case sc.ord < 0:
					f = f.withGe(d.neg().addc(-1))
				case sc.ord > 0:
					f = f.withGe(d.addc(-1))
				default:
					f = f.withGe(d).withGe(d.neg())
				}
				possible = !f.inconsistent()
			}
			for b, v := range p.Facts.bools {
				if e := sc.eval(b, va, vb); e != 0 && (e > 0) != v {
					possible = false
				}
			}
			if !possible {
				continue
			}
			got := sc.eval(r, va, vb)
			if got == 0 {
				got = f.truth(r)
			}
			if got == 0 {
				return false, "the result for " + sc.String() + " is not known"
			}
			if (got > 0) != want {
				return false, "the result is wrong for " + sc.String()
			}
		}
	}
	return len(ps) > 0, "nothing to judge"
}

func stdLessName(aux, kind string) bool {
	switch kind {
	case "int":
		return aux == "(sort.IntSlice).Less"
	case "float":
		return aux == "(sort.Float64Slice).Less"
	case "string":
		return aux == "(sort.StringSlice).Less"
	}
	return false
}

type scenario struct {
	ord        int
	nanA, nanB bool
}

func (s scenario) String() string {
	switch {
	case s.nanA && s.nanB:
		return "two NaN values"
	case s.nanA:
		return "a NaN value before another value"
	case s.nanB:
		return "a NaN value after another value"
	case s.ord < 0:
		return "a smaller before a larger element"
	case s.ord > 0:
		return "a larger before a smaller element"
	}
	return "equal elements"
}

func scenarios(kind string) []scenario {
	out := []scenario{{ord: -1}, {}, {ord: 1}}
	if kind == "float" {
		out = append(out, scenario{nanA: true}, scenario{nanB: true}, scenario{nanA: true, nanB: true})
	}
	return out
}

// eval decides a condition on two values: 1 true, -1 false, 0 unknown.
func (s scenario) eval(c, a, b *Term) int {
	sgn := func(v bool) int {
		if v {
			return 1
		}
		return -1
	}
	which := func(t *Term) int {
		switch t {
		case a:
			return 1
		case b:
			return 2
		}
		return 0
	}
	switch c.Op {
	case "true":
		return 1
	case "false":
		return -1
	case "not":
		return -s.eval(c.Args[0], a, b)
	case "lt", "le", "eq":
		if len(c.Args) != 2 {
			return 0
		}
		x, y := which(c.Args[0]), which(c.Args[1])
		if x == 0 || y == 0 {
			return 0
		}
		if (x == 1 || y == 1) && s.nanA || (x == 2 || y == 2) && s.nanB {
			return -1
		}
		o := 0
		if x == 1 && y == 2 {
			o = s.ord
		}
		if x == 2 && y == 1 {
			o = -s.ord
		}
		switch c.Op {
		case "lt":
			return sgn(o < 0)
		case "le":
			return sgn(o <= 0)
		}
		return sgn(o == 0)
	case "pure", "call":
		if strings.HasSuffix(c.Aux, "math.IsNaN") && len(c.Args) == 1 {
			switch which(c.Args[0]) {
			case 1:
				return sgn(s.nanA)
			case 2:
				return sgn(s.nanB)
			}
		}
	}
	return 0
}

func (R *Report) rulesSlices() {
	for _, t := range R.sliceTypes() {
		if t.method("SequentialSort") == nil {
			continue
		}
		t.judgeLen()
		t.judgeLessMethod()
		t.judgeSwap()
		t.judgeNewTemp()
		t.judgeAssign()
		t.judgeSequential()
	}
	R.need("S06", "swap", 2)
	R.need("S06", "order", 2)
	R.need("S06", "temp", 2)
	R.need("S06", "assign", 2)
	R.need("S06", "sequential", 2)
}

func (t *sliceType) judgeLen() {
	f := t.method("Len")
	if f == nil {
		return
	}
	x := t.exec(f)
	s := x.freshOf("s", t.named, nil)
	for _, p := range t.run(x, newState(), f, []*Term{s}) {
		t.ob("length", "Len", f.Pos(), p.Outcome == "return" && len(p.Ret) == 1 && p.Facts.entailsEq(linOf(p.Ret[0]).sub(linOf(mkLen(s)))) && len(foreign(p)) == 0,
			"the result is not the length of the slice")
	}
}

// start is a state with a receiver and indices within it.
func (t *sliceType) start(x *Exec, n int) (st *State, ps []*Term) {
	st = newState()
	s := x.freshOf("s", t.named, nil)
	ps = append(ps, s)
	for k := 0; k < n; k++ {
		i := x.freshOf("i", types.Typ[types.Int], nil)
		ps = append(ps, i)
		st.facts = st.facts.withGe(linOf(i)).withGe(linOf(mkLen(s)).sub(linOf(i)).addc(-1))
	}
	return
}

func (t *sliceType) judgeLessMethod() {
	f := t.method("Less")
	if f == nil {
		return
	}
	x := t.exec(f)
	st, ps := t.start(x, 2)
	a := x.read(st, elemAddr(ps[0], ps[1]), t.elem)
	b := x.read(st, elemAddr(ps[0], ps[2]), t.elem)
	x.data = map[*Term]bool{a: true, b: true}
	paths := t.run(x, st, f, ps)
	ok, why := t.judgeLess(paths, a, b, ps[0], ps[1], ps[2])
	t.ob("order", "Less", f.Pos(), ok, "this is not the order of the sequential sort: %s", why)
}

func (t *sliceType) judgeSwap() {
	f := t.method("Swap")
	if f == nil {
		return
	}
	for _, same := range []bool{false, true} {
		x := t.exec(f)
		st, ps := t.start(x, 2)
		s, i, j := ps[0], ps[1], ps[2]
		if same {
			j = i
		} else {
			st.facts = st.facts.withNe(linOf(i).sub(linOf(j)))
		}
		ai, aj := elemAddr(s, i), elemAddr(s, j)
		a, b := x.read(st, ai, t.elem), x.read(st, aj, t.elem)
		for _, p := range t.run(x, st, f, []*Term{s, i, j}) {
			if !t.okReturn("swap", "Swap", f, p) {
				continue
			}
			for _, e := range foreign(p) {
				t.ob("swap", "Swap", e.Pos, e.Kind == "Store" && (e.Addr == ai || e.Addr == aj), "something else than the two elements is changed")
			}
			na, nb := x.read(p.St, ai, t.elem), x.read(p.St, aj, t.elem)
			t.ob("swap", "Swap", f.Pos(), na == b && nb == a, "the two elements are not exchanged")
		}
	}
}

func (t *sliceType) okReturn(rule, m string, f *ssa.Function, p *Path) bool {
	if p.Facts.inconsistent() {
		return false
	}
	t.ob(rule, m, f.Pos(), p.Outcome == "return", "%s may panic for valid arguments", m)
	return p.Outcome == "return"
}

func (t *sliceType) judgeNewTemp() {
	f := t.method("NewTemp")
	if f == nil {
		return
	}
	x := t.exec(f)
	st, ps := t.start(x, 0)
	for _, p := range t.run(x, st, f, ps) {
		if !t.okReturn("temp", "NewTemp", f, p) {
			continue
		}
		r := p.Ret[0]
		same := r.Op == "iface" && r.Aux == typeKey(t.named)
		v := stripConv(r)
		root := rootOf(v)
		for root.Op == "slice" {
			root = root.Args[0]
		}
		own := root.Op == "make" || root.Op == "cell"
		if root.Op == "append" {
			own = isEmptySlice(root.Args[0])
		}
		t.ob("temp", "NewTemp", f.Pos(), same, "the temporary collection has another type")
		t.ob("temp", "NewTemp", f.Pos(), own, "the temporary collection may share memory with the original")
		t.ob("temp", "NewTemp", f.Pos(), p.Facts.entailsEq(linOf(mkLen(v)).sub(linOf(mkLen(ps[0])))), "the temporary collection has another length")
		for _, e := range foreign(p) {
			t.ob("temp", "NewTemp", e.Pos, false, "NewTemp changes something else (%s)", e.Kind)
		}
	}
}

func baseLoHi(s *Term) (base *Term, lo, hi *Lin) {
	s = stripConv(s)
	if s.Op == "slice" {
		return stripConv(s.Args[0]), linOf(s.Args[1]), linOf(s.Args[2])
	}
	return s, linConst(0), linOf(mkLen(s))
}

func (t *sliceType) judgeAssign() {
	f := t.method("Assign")
	if f == nil {
		return
	}
	x := t.exec(f)
	st, ps := t.start(x, 0)
	dst := ps[0]
	src := x.freshOf("source", t.named, nil)
	iv := mk("iface", typeKey(t.named), f.Params[1].Type(), src)
	if iv.Ev == nil {
		iv.Ev = &Event{Kind: "type", Type: t.named}
	}
	for _, p := range t.run(x, st, f, []*Term{dst, iv}) {
		if !t.okReturn("assign", "Assign", f, p) {
			continue
		}
		for _, e := range foreign(p) {
			t.ob("assign", "Assign", e.Pos, false, "Assign changes something before its result is called (%s)", e.Kind)
		}
		fv := p.Ret[0]
		s2 := p.St.clone()
		s2.stack, s2.trace = nil, nil
		s2.outcome = ""
		i := x.freshOf("i", types.Typ[types.Int], nil)
		j := x.freshOf("j", types.Typ[types.Int], nil)
		n := x.freshOf("len", types.Typ[types.Int], nil)
		for _, l := range []*Lin{linOf(i), linOf(j), linOf(n), linOf(mkLen(dst)).sub(linOf(i)).sub(linOf(n)), linOf(mkLen(src)).sub(linOf(j)).sub(linOf(n))} {
			s2.facts = s2.facts.withGe(l)
		}
		qs := x.callValue(s2, fv, []*Term{i, j, n})
		t.R.coveredExec("S06", "sort."+t.name+".Assign", f.Pos(), x, len(qs))
		t.ob("assign", "Assign", f.Pos(), len(qs) > 0, "the function that is returned is not known")
		for _, q := range qs {
			if !t.okReturn("assign", "Assign", f, q) {
				continue
			}
			t.judgeCopy(f, q, dst, src, linOf(i), linOf(j), linOf(n))
		}
	}
}

// judgeCopy: the path assigns dst[i:i+n] = src[j:j+n] and nothing else.
func (t *sliceType) judgeCopy(f *ssa.Function, q *Path, dst, src *Term, i, j, n *Lin) {
	done := false
	for _, e := range q.Events {
		switch e.Kind {
		case "Copy":
			db, dl, dh := baseLoHi(e.Args[0])
			sb, sl, sh := baseLoHi(e.Args[1])
			if rootOf(db).Op == "cell" {
				continue
			}
			F := e.Facts
			ok := db == dst && sb == src && F.entailsEq(dl.sub(i)) && F.entailsEq(sl.sub(j))
			ln, rn := dh.sub(dl).sub(n), sh.sub(sl).sub(n)
			ok = ok && (F.entailsEq(ln) && F.entailsGe(rn) || F.entailsEq(rn) && F.entailsGe(ln))
			t.ob("assign", "Assign", e.Pos, ok && !done, "this does not copy source[j:j+len] to receiver[i:i+len]")
			done = true
		case "Loop":
			if len(foreign(&Path{Events: []*Event{e}})) == 0 {
				continue
			}
			ok := !done
			for _, c := range e.Loop.Conts {
				stores := foreign(&Path{Events: c.Events})
				if len(stores) != 1 || stores[0].Kind != "Store" || stores[0].Addr.Op != "idx" || stores[0].Val == nil {
					ok = false
					continue
				}
				a, v := stores[0].Addr, stores[0].Val
				if v.Op != "load" || v.Args[0].Op != "idx" || a.Args[0] != dst || v.Args[0].Args[0] != src {
					ok = false
					continue
				}
				F := c.Facts
				od, os := linOf(a.Args[1]).sub(i), linOf(v.Args[0].Args[1]).sub(j)
				k := linOf(e.Loop.K)
				ok = ok && F.entailsEq(od.sub(os)) && (F.entailsEq(od.sub(k)) || F.entailsEq(od.sub(n.addc(-1).sub(k)))) && F.entailsGe(n.sub(k).addc(-1))
			}
			t.ob("assign", "Assign", f.Pos(), ok && q.Facts.entailsEq(linOf(e.Loop.K).sub(n)), "this loop does not copy source[j:j+len] to receiver[i:i+len]")
			done = true
		default:
			if fs := foreign(&Path{Events: []*Event{e}}); len(fs) > 0 {
				t.ob("assign", "Assign", e.Pos, false, "something else is changed (%s)", e.Kind)
			}
		}
	}
	if !done {
		t.ob("assign", "Assign", f.Pos(), q.Facts.entailsEq(n), "nothing may be copied although the range is not empty")
	}
}

func (t *sliceType) judgeSequential() {
	f := t.method("SequentialSort")
	x := t.exec(f)
	st, ps := t.start(x, 0)
	i := x.freshOf("i", types.Typ[types.Int], nil)
	j := x.freshOf("j", types.Typ[types.Int], nil)
	for _, l := range []*Lin{linOf(i), linOf(j).sub(linOf(i)), linOf(mkLen(ps[0])).sub(linOf(j))} {
		st.facts = st.facts.withGe(l)
	}
	// the elements that the part may be addressed by
	for _, p := range t.run(x, st, f, []*Term{ps[0], i, j}) {
		if !t.okReturn("sequential", "SequentialSort", f, p) {
			continue
		}
		n := 0
		for _, e := range foreign(p) {
			n++
			ok, why := t.sorts(x, p, e, ps[0], i, j)
			t.ob("sequential", "SequentialSort", e.Pos, ok, "%s", why)
		}
		small := p.Facts.entailsGe(linOf(i).sub(linOf(j)).addc(1))
		t.ob("sequential", "SequentialSort", f.Pos(), n == 1 || n == 0 && small, "the range is sorted %d times", n)
	}
}

// sorts: does the call sort s[i:j] stably by the order of Less?
func (t *sliceType) sorts(x *Exec, p *Path, e *Event, s, i, j *Term) (bool, string) {
	f := e.Static
	if e.Kind != "Call" || f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sort" || len(e.Args) == 0 {
		return false, "this is not a sorting function that is known to be stable"
	}
	b, lo, hi := baseLoHi(e.Args[0])
	if b != s || !e.Facts.entailsEq(lo.sub(linOf(i))) || !e.Facts.entailsEq(hi.sub(linOf(j))) {
		return false, "another part of the slice than the requested range is sorted"
	}
	order := false
	if a := e.Args[0]; a.Op == "iface" {
		order = stdSliceOrder(a.Aux, t.kind) && !strings.Contains(a.Aux, "pargo") || a.Aux == typeKey(t.named)
	}
	switch f.Name() {
	case "Stable":
		return order, "the order of this sort is not that of Less"
	case "Sort":
		return order && t.kind != "float", "this sort is not stable, or its order is not that of Less"
	case "Ints":
		return t.kind == "int", "this sort has another order than Less"
	case "Strings":
		return t.kind == "string", "this sort has another order than Less"
	case "SliceStable", "Slice":
		if f.Name() == "Slice" && t.kind == "float" {
			return false, "this sort is not stable"
		}
		st := p.St.clone()
		st.stack, st.trace, st.outcome = nil, nil, ""
		a := x.freshOf("a", types.Typ[types.Int], nil)
		c := x.freshOf("b", types.Typ[types.Int], nil)
		for _, l := range []*Lin{linOf(a), linOf(c), linOf(j).sub(linOf(i)).sub(linOf(a)).addc(-1), linOf(j).sub(linOf(i)).sub(linOf(c)).addc(-1)} {
			st.facts = st.facts.withGe(l)
		}
		ia, ic := add(i, a), add(i, c)
		va, vc := x.read(st, elemAddr(s, ia), t.elem), x.read(st, elemAddr(s, ic), t.elem)
		x.data = map[*Term]bool{va: true, vc: true}
		ok, why := t.judgeLess(x.callValue(st, e.Args[1], []*Term{a, c}), va, vc, s, ia, ic)
		return ok, "the order of this sort is not that of Less: " + why
	}
	return false, "this is not a sorting function that is known to be stable"
}
