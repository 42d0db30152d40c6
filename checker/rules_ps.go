package main

// The predefined sources of a pipeline (P09).

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// srcRun is one way a source is made.
type srcRun struct {
	d     *pipe
	name  string
	x     *Exec
	obj   *Term
	named *types.Named
	value *Term // what it is made from
	st    *State
	pos   token.Pos
	ctx   *Term
	n     *Term
	size  *Term // announced
	fetch *Term // the function of a Func
	given *Term
	// copies that were made of values
	copies map[*Term]*Term
}

func (r *srcRun) construct() string { return "pipeline." + r.named.Obj().Name() + " (" + r.name + ")" }

func (r *srcRun) ob(rule string, pos token.Pos, ok bool, f string, a ...interface{}) bool {
	if !pos.IsValid() {
		pos = r.pos
	}
	return r.d.R.ob("P09", rule, r.construct(), pos, ok, f, a...)
}

func (r *srcRun) method(name string) *ssa.Function {
	return r.d.R.P.methodOf(types.NewPointer(r.named), name)
}

func (d *pipe) srcExec() *Exec {
	return newExec(d.R.P, Config{Loads: true, Stable: true, Keep: func(v *types.Var) bool {
		return v.Pkg() != nil && d.R.P.inModule(v.Pkg())
	}})
}

func (d *pipe) ruleSources() {
	R := d.R
	scope := R.P.tpkg("pipeline").Scope()
	iface := d.source.Underlying().(*types.Interface)
	var runs []*srcRun
	made := func(x *Exec, p *Path, v *Term, name string, pos token.Pos, value *Term) {
		r := &srcRun{d: d, name: name, x: x, st: x.reset(p.St), pos: pos, value: value, copies: map[*Term]*Term{}}
		for _, e := range flatEvents(p.Events) {
			if e.Kind == "Call" && e.Name == "(reflect.Value).Set" && len(e.Args) == 2 {
				if n := pureOf(e.Args[0], "(reflect.Value).Elem"); n != nil && n.Ev != nil && n.Ev.Name == "reflect.New" {
					r.copies[e.Args[0]] = e.Args[1]
				}
			}
		}
		if v.Op == "iface" {
			v = v.Args[0]
		}
		if p, ok := v.Typ.(*types.Pointer); ok && v.Op == "cell" {
			r.named, _ = p.Elem().(*types.Named)
		}
		if !R.ob("P09", "made", name, pos, r.named != nil, "it is not clear which source is made") {
			return
		}
		r.obj = v
		runs = append(runs, r)
	}
	for _, name := range scope.Names() {
		o, ok := scope.Lookup(name).(*types.Func)
		if !ok || !o.Exported() {
			continue
		}
		sig := o.Type().(*types.Signature)
		if sig.Results().Len() != 1 || !types.Implements(sig.Results().At(0).Type(), iface) {
			continue
		}
		fn := R.P.fn("pipeline", name)
		x := d.srcExec()
		var ps []*Term
		for _, p := range fn.Params {
			ps = append(ps, x.freshOf(p.Name(), p.Type(), nil))
		}
		for _, p := range x.runFunc(newState(), fn, ps, nil) {
			if p.Facts.inconsistent() || p.Outcome != "return" || len(p.Ret) != 1 {
				continue
			}
			var value *Term
			given, fetch := (*Term)(nil), (*Term)(nil)
			for i, q := range fn.Params {
				if isIntType(q.Type()) {
					given = ps[i]
				} else if _, ok := q.Type().Underlying().(*types.Signature); ok {
					fetch = ps[i]
				} else {
					value = ps[i]
				}
			}
			n := len(runs)
			made(x, p, p.Ret[0], name, fn.Pos(), value)
			if len(runs) > n {
				runs[n].given, runs[n].fetch = given, fetch
			}
		}
		R.coveredExec("P09", "pipeline."+name, fn.Pos(), x, x.paths)
	}
	if fn := R.P.method("pipeline", "Pipeline", "Source"); R.ob("P09", "anchor", "pipeline.Pipeline.Source", token.NoPos, fn != nil, "the method no longer exists") {
		x := d.srcExec()
		pl := mk("cell", fresh("cell:pipeline", nil).Aux, types.NewPointer(d.pipeline))
		src := x.freshOf("source", fn.Params[1].Type(), nil)
		s := d.pipeline.Underlying().(*types.Struct)
		var field *Term
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), d.source) {
				field = mkField(pl, s, i)
			}
		}
		if R.ob("P09", "anchor", "pipeline.Pipeline.Source", fn.Pos(), field != nil, "the pipeline has no source") {
			typed := false
			for _, p := range x.runFunc(newState(), fn, []*Term{pl, src}, nil) {
				if p.Facts.inconsistent() || p.Outcome != "return" {
					continue
				}
				v := x.read(p.St, field, d.source)
				if v == src || v.Op == "assert" {
					typed = true
					R.ob("P09", "made", "pipeline.Pipeline.Source", fn.Pos(), v == src || v.Args[0] == src, "the source of the pipeline is not the one given")
					continue
				}
				made(x, p, v, "Source", fn.Pos(), src)
			}
			R.ob("P09", "made", "pipeline.Pipeline.Source", fn.Pos(), typed, "sources made by the program are not accepted")
			R.coveredExec("P09", "pipeline.Pipeline.Source", fn.Pos(), x, x.paths)
		}
	}
	for _, r := range runs {
		r.check()
	}
	R.need("P09", "delivers", 6)
	R.need("P09", "size", 4)
	R.need("P09", "made", 4)
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

func pureOf(t *Term, name string) *Term {
	if t != nil && t.Op == "pure" && t.Aux == name && len(t.Args) > 0 {
		return t.Args[0]
	}
	return nil
}

// fields of the source.
func (r *srcRun) fields() []fieldPath { return r.d.nodeFields(r.named) }

func (r *srcRun) check() {
	x := r.x
	prep, fetch, data := r.method("Prepare"), r.method("Fetch"), r.method("Data")
	if !r.ob("anchor", r.pos, prep != nil && fetch != nil && data != nil, "the source lacks a method") {
		return
	}
	r.ctx = x.freshOf("ctx", prep.Params[1].Type(), nil)
	any := false
	for _, p := range x.runFunc(r.st, prep, []*Term{r.obj, r.ctx}, nil) {
		if p.Facts.inconsistent() {
			continue
		}
		if !r.ob("size", prep.Pos(), p.Outcome == "return" && len(p.Ret) == 1, "preparing the source may panic") {
			continue
		}
		any = true
		q := *r
		q.size = p.Ret[0]
		q.n = x.freshOf("n", types.Typ[types.Int], nil)
		st := x.reset(p.St)
		st.facts = p.Facts.withGe(linOf(q.n).addc(-1))
		q.prepared(st, p.Facts, fetch)
	}
	r.ob("size", prep.Pos(), any, "preparing the source never ends")
	r.d.R.coveredExec("P09", r.construct(), r.pos, x, x.paths)
}

// prepared decides how the source gets at its elements.
func (r *srcRun) prepared(st *State, f *Facts, fetch *ssa.Function) {
	x := r.x
	run := func(st *State) []*Path { return x.runFunc(x.reset(st), fetch, []*Term{r.obj, r.n}, nil) }
	stored := map[*Term]*types.Var{}
	typ := map[*Term]types.Type{}
	pulls, calls, slices := 0, 0, 0
	for round := 0; round < 3; round++ {
		for _, p := range run(st) {
			walkEvents(p.Events, func(e *Event) {
				switch {
				case e.Kind == "Store" && rootOf(e.Addr) == r.obj:
					stored[e.Addr] = fieldVars[e.Addr]
					typ[e.Addr] = derefType(e.Addr)
				case e.Kind == "Call" && (e.Name == "reflect.Select" || e.Name == "(*bufio.Scanner).Scan"):
					pulls++
				case e.Kind == "Call" && r.fetch != nil && e.Callee == r.fetch:
					calls++
				case e.Kind == "Pure" && strings.HasPrefix(e.Name, "(reflect.Value).Slice"):
					slices++
				}
			})
		}
		if slices > 0 && pulls == 0 {
			break
		}
		for a, v := range stored {
			name := "field"
			if v != nil {
				name = v.Name()
			}
			st.mem[a] = x.freshOf(name, typ[a], nil)
		}
	}
	switch {
	case r.fetch != nil && calls > 0:
		r.ob("size", fetch.Pos(), r.size == r.given, "the announced size is not the one given")
		r.funcSource(run(st))
	case pulls > 0:
		n, ok := intVal(r.size)
		r.ob("size", fetch.Pos(), ok && n == -1, "the size is not reported as unknown")
		r.reports(st)
		r.pullSource(st, run(st))
	case slices > 0:
		r.reports(st)
		r.sliceSource(st, stored, typ, run)
	default:
		r.ob("delivers", fetch.Pos(), false, "it is not clear where the elements come from")
	}
}

// dataOf reads what Data returns after a path of Fetch.
func (r *srcRun) dataOf(p *Path) *Term {
	m := r.method("Data")
	for _, q := range r.x.runFunc(r.x.reset(p.St), m, []*Term{r.obj}, nil) {
		if q.Facts.inconsistent() {
			continue
		}
		if q.Outcome == "return" && len(q.Ret) == 1 {
			return q.Ret[0]
		}
	}
	return nil
}

// reports: the error of a source that reads is that of its reader, and other
// sources have none.
func (r *srcRun) reports(st *State) {
	m := r.method("Err")
	if !r.ob("anchor", r.pos, m != nil, "the source lacks a method") {
		return
	}
	reads := false
	for _, g := range r.fields() {
		reads = reads || typeKey(g.typ) == "*bufio.Scanner" || typeKey(g.typ) == "bufio.Scanner"
	}
	for _, p := range r.x.runFunc(r.x.reset(st), m, []*Term{r.obj}, nil) {
		if p.Facts.inconsistent() {
			continue
		}
		r.keeps(p)
		ok := p.Outcome == "return" && len(p.Ret) == 1
		if ok && reads {
			ok = false
			for _, e := range flatEvents(p.Events) {
				ok = ok || (e.Kind == "Call" || e.Kind == "Pure") && e.Name == "(*bufio.Scanner).Err" && len(e.Res) == 1 && e.Res[0] == p.Ret[0]
			}
			r.ob("error", m.Pos(), ok, "the error is not that of the reader")
			continue
		}
		r.ob("error", m.Pos(), ok && p.Ret[0] == tNil, "reports an error although nothing can fail")
	}
}

// keeps: asking for the error does not change it.
func (r *srcRun) keeps(p *Path) {
	walkEvents(p.Events, func(e *Event) {
		if e.Kind == "Store" && rootOf(e.Addr) == r.obj {
			r.ob("error", e.Pos, false, "asking for the error changes the source")
		}
	})
}

func (r *srcRun) funcSource(paths []*Path) {
	for _, p := range paths {
		if p.Facts.inconsistent() {
			continue
		}
		var call *Event
		n := 0
		for _, e := range flatEvents(p.Events) {
			if e.Kind == "Call" && e.Callee == r.fetch {
				call = e
				n++
			}
		}
		pos := r.method("Fetch").Pos()
		if !r.ob("delivers", pos, n == 1 && p.Outcome == "return" && len(p.Ret) == 1 && len(call.Res) == 3 && len(call.Args) == 1, "the function is called %d times for a batch", n) {
			continue
		}
		r.ob("delivers", call.Pos, call.Args[0] == r.n, "the function is not called with the requested size")
		r.ob("delivers", call.Pos, p.Ret[0] == call.Res[1], "the size of the batch is not the one that the function returned")
		r.ob("delivers", call.Pos, r.dataOf(p) == call.Res[0], "the batch is not the one that the function returned")
		var err *Term
		for _, q := range r.x.runFunc(r.x.reset(p.St), r.method("Err"), []*Term{r.obj}, nil) {
			if q.Outcome == "return" && len(q.Ret) == 1 {
				err = q.Ret[0]
			}
			r.keeps(q)
		}
		r.ob("error", call.Pos, err == call.Res[2], "the error is not the one that the function returned")
	}
}

// ---- slices ----

// span says which part of the underlying value a reflected value is.
func (r *srcRun) span(f *Facts, v *Term, whole *Term, alias map[*Term]bool, direct *bool) (lo, hi *Lin, ok bool) {
	if v == whole || alias[v] {
		if v == whole && direct != nil {
			*direct = true
		}
		return linConst(0), linOf(r.total(whole)), true
	}
	if b := pureOf(v, "(reflect.Value).Slice"); b != nil && len(v.Args) == 3 {
		l, _, ok := r.span(f, b, whole, alias, nil)
		if !ok {
			return nil, nil, false
		}
		return l.add(linOf(v.Args[1])), l.add(linOf(v.Args[2])), true
	}
	return nil, nil, false
}

func (r *srcRun) total(whole *Term) *Term {
	return mk("pure", "(reflect.Value).Len", types.Typ[types.Int], whole)
}

func (r *srcRun) sliceSource(st *State, stored map[*Term]*types.Var, typ map[*Term]types.Type, run func(*State) []*Path) {
	x := r.x
	whole := mk("pure", "reflect.ValueOf", nil, r.value)
	total := r.total(whole)
	T := linOf(total)
	f := st.facts.withGe(T)
	pos := r.method("Fetch").Pos()
	r.ob("size", pos, f.entailsEq(linOf(r.size).sub(T)), "the announced size is not that of the slice")
	// copies of an array that can be sliced
	alias := map[*Term]bool{}
	k := linOf(mk("pure", "(reflect.Value).Kind", types.Typ[types.Uint], whole))
	canBeArray := !f.entailsEq(k.addc(-23)) && !f.entailsEq(k.addc(-24)) && f.truth(mkEq0(k.addc(-17))) != -1
	for a, v := range r.copies {
		alias[a] = v == whole
	}
	var vf, ints []*Term // fields that change
	for a := range stored {
		switch {
		case isReflectValue(typ[a]):
			vf = append(vf, a)
		case isIntType(typ[a]):
			ints = append(ints, a)
		}
	}
	// the field with the value
	var vaddr *Term
	for _, g := range r.fields() {
		if isReflectValue(g.typ) {
			a := g.at(r.obj)
			if vaddr != nil {
				vaddr = nil
				break
			}
			vaddr = a
		}
	}
	if !r.ob("delivers", pos, vaddr != nil && len(vf) <= 1, "it is not clear which value holds the elements") {
		return
	}
	v0 := x.read(st, vaddr, typ[vaddr])
	direct := false
	lo, hi, ok := r.span(f, v0, whole, alias, &direct)
	if !r.ob("delivers", r.pos, ok && f.entailsEq(lo) && f.entailsEq(hi.sub(T)), "the source does not begin with the whole value") {
		return
	}
	if b := pureOf(v0, "(reflect.Value).Slice"); b == whole || direct {
		r.ob("delivers", r.pos, !canBeArray, "a part is taken of a value that may be an array, of which only a copy can be sliced")
	}
	// what the numbers mean
	done := x.freshOf("delivered", types.Typ[types.Int], nil)
	D := linOf(done)
	meaning := map[*Term]func(d *Lin) *Lin{}
	for _, a := range ints {
		v := linOf(x.read(st, a, typ[a]))
		switch {
		case f.entailsEq(v):
			meaning[a] = func(d *Lin) *Lin { return d }
		case f.entailsEq(v.sub(T)):
			meaning[a] = func(d *Lin) *Lin { return T.sub(d) }
		default:
			r.ob("delivers", r.pos, false, "it is not clear what %s stands for", fieldName(a))
			return
		}
	}
	f = f.withGe(D).withGe(T.sub(D))
	invalid := false
	moved := len(vf) == 1
	state := func(exhausted bool) *State {
		s := x.reset(st)
		g := f
		if exhausted {
			g = g.withGe(D.sub(T))
		}
		s.facts = g
		for a := range stored {
			switch {
			case meaning[a] != nil:
				s.mem[a] = meaning[a](D).term()
			case a == vaddr && exhausted:
				s.mem[a] = mk("pure", "reflect.ValueOf", typ[a], tNil)
			case a == vaddr:
				s.mem[a] = mk("pure", "(reflect.Value).Slice", typ[a], baseOf(v0), done, total)
			default:
				s.mem[a] = x.freshOf("field", typ[a], nil)
			}
		}
		return s
	}
	for _, exhausted := range []bool{false, true} {
		if exhausted && !invalid {
			continue
		}
		for _, p := range run(state(exhausted)) {
			if p.Facts.inconsistent() {
				continue
			}
			pp := pos
			if n := len(p.Events); n > 0 {
				pp = p.Events[n-1].Pos
			}
			if !r.ob("delivers", pp, p.Outcome == "return" && len(p.Ret) == 1, "fetching a batch may panic") {
				continue
			}
			g := p.Facts
			for _, e := range flatEvents(p.Events) {
				if e.Kind != "Pure" || !strings.HasPrefix(e.Name, "(reflect.Value).") || len(e.Args) == 0 {
					continue
				}
				l, h, ok := r.span(e.Facts, e.Args[0], whole, alias, nil)
				if !r.ob("delivers", e.Pos, ok, "a value is used that is not part of the elements (any more)") {
					continue
				}
				if e.Name == "(reflect.Value).Slice" && len(e.Args) == 3 {
					a, b := linOf(e.Args[1]), linOf(e.Args[2])
					in := e.Facts.entailsGe(a) && e.Facts.entailsGe(b.sub(a)) && e.Facts.entailsGe(h.sub(l).sub(b))
					r.ob("delivers", e.Pos, in, "the part taken may not lie within the elements")
				}
			}
			F := linOf(p.Ret[0])
			next := D.add(F)
			data := r.dataOf(p)
			switch {
			case g.entailsEq(F):
				r.ob("ends", pp, g.entailsGe(D.sub(T)), "no elements are reported although there are more")
			case g.entailsGe(F.addc(-1)):
				r.ob("at-most", pp, g.entailsGe(linOf(r.n).sub(F)), "a batch may be larger than requested")
				b := pureOf(data, "(reflect.Value).Interface")
				ok := b != nil
				if ok {
					var l, h *Lin
					l, h, ok = r.span(g, b, whole, alias, nil)
					ok = ok && g.entailsEq(l.sub(D)) && g.entailsEq(h.sub(next))
				}
				r.ob("delivers", pp, ok, "a batch does not consist of the next elements, as many as reported")
			default:
				r.ob("delivers", pp, false, "it is not clear whether there are elements")
			}
			for a := range stored {
				v := x.read(p.St, a, typ[a])
				if m := meaning[a]; m != nil {
					r.ob("delivers", pp, g.entailsEq(linOf(v).sub(m(next))), "%s does not fit the elements delivered after the batch", fieldName(a))
				} else if a == vaddr && moved {
					l, h, ok := r.span(g, v, whole, alias, nil)
					ok = ok && g.entailsEq(l.sub(next)) && g.entailsEq(h.sub(T))
					if !ok && g.entailsGe(next.sub(T)) {
						ok, invalid = true, true // nothing is left
					}
					r.ob("delivers", pp, ok, "what is kept is not what remains")
				}
			}
		}
	}
}

func fieldName(a *Term) string {
	if v := fieldVars[a]; v != nil {
		return v.Name()
	}
	return a.String()
}

// baseOf is what a slice was taken of, if it was.
func baseOf(v *Term) *Term {
	for {
		b := pureOf(v, "(reflect.Value).Slice")
		if b == nil {
			return v
		}
		v = b
	}
}

// ---- channels and scanners ----

// pull is an attempt to get one more element.
type pull struct {
	e    *Event
	ok   int // 1: got one, -1: there is none
	toks []*Term
	raw  bool // what it gives does not last
}

func (r *srcRun) pullSource(st *State, paths []*Path) {
	pos := r.method("Fetch").Pos()
	own := int64(-1) // the case of the channel
	var casesT *Term
	var elem types.Type
	for _, p := range paths {
		for _, e := range flatEvents(p.Events) {
			if e.Kind == "Call" && e.Name == "reflect.Select" && casesT == nil {
				casesT = e.Args[0]
				elem = sliceOf(e.Static.Signature.Params().At(0).Type())
			}
		}
	}
	if casesT != nil {
		own = r.cases(st, casesT, elem)
		if own < 0 {
			return
		}
	}
	for _, p := range paths {
		if p.Facts.inconsistent() {
			continue
		}
		pp := pos
		if n := len(p.Events); n > 0 {
			pp = p.Events[n-1].Pos
		}
		if !r.ob("delivers", pp, p.Outcome == "return" && len(p.Ret) == 1, "fetching a batch may panic") {
			continue
		}
		data := r.dataOf(p)
		if data == nil {
			r.ob("delivers", pp, false, "the batch is not available")
			continue
		}
		count, fails, ok := r.delivered(p.St, p.Events, p.Facts, data, own, casesT, pp, true)
		if !ok {
			continue
		}
		F := linOf(p.Ret[0])
		r.ob("delivers", pp, p.Facts.entailsEq(F.sub(count)), "the reported size is not the number of elements in the batch")
		r.ob("at-most", pp, p.Facts.entailsGe(linOf(r.n).sub(F)), "a batch may be larger than requested")
		r.ob("ends", pp, p.Facts.entailsGe(F.addc(-1)) || fails, "no elements are reported although there may be more")
	}
}

// cases finds the channel among the cases of a select.
func (r *srcRun) cases(st *State, t *Term, elem types.Type) int64 {
	pos := r.method("Fetch").Pos()
	as, ok := r.x.elemAddrs(t)
	if !r.ob("cases", pos, ok, "it is not clear what is selected from") {
		return -1
	}
	s, ok := elem.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	own, done := int64(-1), 0
	for i, a := range as {
		for k := 0; k < s.NumFields(); k++ {
			v := r.x.read(st, mkField(a, s, k), s.Field(k).Type())
			switch s.Field(k).Name() {
			case "Dir":
				n, ok := intVal(v)
				r.ob("cases", pos, ok && n == 2, "case %d does not receive", i)
			case "Chan":
				c := pureOf(v, "reflect.ValueOf")
				if c != nil && c.Op == "iface" {
					c = c.Args[0]
				}
				switch {
				case c != nil && c == r.value:
					r.ob("cases", pos, own < 0, "the channel is selected from twice")
					own = int64(i)
				case c != nil && doneOf(c) == r.ctx:
					done++
				default:
					r.ob("cases", pos, false, "case %d receives from something else", i)
				}
			}
		}
	}
	r.ob("cases", pos, own >= 0, "the channel is not received from")
	r.ob("cases", pos, done > 0, "fetching blocks although the pipeline is cancelled")
	return own
}

// elemAddrs lists the addresses of the elements of a slice of known length.
func (x *Exec) elemAddrs(s *Term) ([]*Term, bool) {
	switch {
	case s == tNil:
		return nil, true
	case s.Op == "slice" && (s.Args[0].Op == "cell" || s.Args[0].Op == "make"):
		lo, ok1 := intVal(s.Args[1])
		hi, ok2 := intVal(s.Args[2])
		if !ok1 || !ok2 {
			return nil, false
		}
		var out []*Term
		for k := lo; k < hi; k++ {
			out = append(out, elemAddr(s.Args[0], mkInt(k)))
		}
		return out, true
	case s.Op == "append":
		a, ok1 := x.elemAddrs(s.Args[0])
		b, ok2 := x.elemAddrs(s.Args[1])
		return append(a, b...), ok1 && ok2
	}
	return nil, false
}

// pulls finds the attempts among events, with the elements they give.
func (r *srcRun) pulls(es []*Event, f *Facts, own int64, cases *Term) []*pull {
	var out []*pull
	for _, e := range es {
		if e.Kind != "Call" {
			continue
		}
		switch e.Name {
		case "reflect.Select":
			p := &pull{e: e}
			if len(e.Res) == 3 && len(e.Args) == 1 && e.Args[0] == cases {
				is := f.truth(mkEq0(linOf(e.Res[0]).addc(-own)))
				ok := f.truth(e.Res[2])
				if is == 1 && ok == 1 {
					p.ok = 1
				} else if is == -1 || ok == -1 {
					p.ok = -1
				}
				p.toks = []*Term{e.Res[1]}
			}
			out = append(out, p)
		case "(*bufio.Scanner).Scan":
			p := &pull{e: e}
			if len(e.Res) == 1 {
				p.ok = f.truth(e.Res[0])
			}
			out = append(out, p)
		case "(*bufio.Scanner).Text", "(*bufio.Scanner).Bytes":
			if n := len(out); n > 0 && len(e.Res) == 1 && len(e.Args) == 1 && len(out[n-1].e.Args) == 1 && e.Args[0] == out[n-1].e.Args[0] {
				out[n-1].toks = append(out[n-1].toks, e.Res[0])
			}
		}
	}
	return out
}

// delivered: the data are the elements got along the path, in order.
func (r *srcRun) delivered(st *State, es []*Event, f *Facts, data *Term, own int64, cases *Term, pos token.Pos, whole bool) (*Lin, bool, bool) {
	for {
		if b := pureOf(data, "(reflect.Value).Interface"); b != nil {
			data = b
		} else if data.Op == "iface" && len(data.Args) == 1 {
			data = data.Args[0]
		} else {
			break
		}
	}
	last := -1
	for i, e := range es {
		if e.Kind == "Loop" && r.pullsIn(e) {
			last = i
		}
	}
	ps := r.pulls(es[last+1:], f, own, cases)
	toks, base := r.chain(st, data)
	count := linConst(0)
	fails := false
	for _, p := range ps {
		r.ob("delivers", p.e.Pos, p.ok != 0, "an element may be lost: it is not known whether there is one")
		if p.ok == 0 {
			return nil, false, false
		}
		fails = fails || p.ok == -1
	}
	var got []*pull
	for _, p := range ps {
		if p.ok == 1 {
			got = append(got, p)
		}
	}
	// a single element instead of a slice
	if whole && last < 0 && len(got) == 1 && len(toks) == 0 && r.isTok(st, es, got[0], data) {
		return linConst(1), fails, true
	}
	if whole && last < 0 && len(got) == 0 {
		if len(toks) == 0 {
			return linConst(0), fails, true // whatever the data are
		}
	}
	if !r.matches(st, es, toks, got, pos) {
		return nil, false, false
	}
	count = count.addc(int64(len(toks)))
	if last < 0 {
		r.ob("not-shared", pos, r.empty(es, base), "a batch does not begin with a slice of its own")
		return count, fails, true
	}
	e := es[last]
	lp := e.Loop
	for _, v := range lp.Vars {
		if v.Head != base {
			continue
		}
		for i, c := range lp.Conts {
			t, b := r.chain(c.St, v.Nexts[i])
			var g []*pull
			for _, p := range r.pulls(c.Events, c.Facts, own, cases) {
				r.ob("delivers", p.e.Pos, p.ok == 1, "an element may be lost, or fetching goes on although there is none")
				if p.ok == 1 {
					g = append(g, p)
				}
			}
			for _, q := range c.Events {
				r.ob("delivers", q.Pos, q.Kind != "Loop" || !r.pullsIn(q), "elements are fetched in nested loops")
			}
			if !r.ob("delivers", e.Pos, b == v.Head && len(t) == 1, "an iteration does not add one element") || !r.matches(c.St, c.Events, t, g, e.Pos) {
				return nil, false, false
			}
		}
		n, fl, ok := r.delivered(st, es[:last], f, v.Init, own, cases, pos, false)
		if !ok {
			return nil, false, false
		}
		return n.add(count).add(linOf(lp.K)), fails || fl, true
	}
	r.ob("delivers", pos, false, "the batch does not consist of the elements fetched")
	return nil, false, false
}

func (r *srcRun) pullsIn(e *Event) bool {
	for _, q := range flatEvents([]*Event{e}) {
		if q.Kind == "Call" && (q.Name == "reflect.Select" || q.Name == "(*bufio.Scanner).Scan") {
			return true
		}
	}
	return false
}

// chain splits appends of single elements off a slice.
func (r *srcRun) chain(st *State, t *Term) ([]*Term, *Term) {
	var out []*Term
	for {
		var l []*Term
		switch {
		case t.Op == "append" && len(t.Args) == 2:
			m, ok := r.x.literal(st, t.Args[1])
			if !ok {
				return out, t
			}
			l = m
		case t.Op == "pure" && t.Aux == "reflect.Append" && len(t.Args) == 2 && t.Args[1].Op == "list":
			l = t.Args[1].Args
		default:
			return out, t
		}
		out = append(append([]*Term(nil), l...), out...)
		t = t.Args[0]
	}
}

func (r *srcRun) matches(st *State, es []*Event, toks []*Term, got []*pull, pos token.Pos) bool {
	ok := len(toks) == len(got)
	for i := range toks {
		ok = ok && r.isTok(st, es, got[i], toks[i])
	}
	return r.ob("delivers", pos, ok, "the batch does not consist of the elements fetched, each one once and in order")
}

// isTok: is the value the element that was fetched, or a copy of it?
func (r *srcRun) isTok(st *State, es []*Event, p *pull, v *Term) bool {
	bytes := func(t *Term) bool { return t.Ev != nil && t.Ev.Name == "(*bufio.Scanner).Bytes" }
	for _, t := range p.toks {
		if v == t {
			return r.ob("not-shared", p.e.Pos, !bytes(t), "a batch keeps bytes that the scanner overwrites later")
		}
		switch {
		case v.Op == "append" && len(v.Args) == 2 && v.Args[1] == t:
			return r.ob("not-shared", p.e.Pos, isEmptySlice(v.Args[0]) || v.Args[0] == tNil, "bytes are not copied into memory of their own")
		case strings.HasPrefix(v.Op, "conv") && len(v.Args) == 1 && v.Args[0] == t:
			return true
		case rootOf(v).Op == "make" || v.Op == "slice" && v.Args[0].Op == "make":
			for _, e := range es {
				if e.Kind == "Copy" && len(e.Args) == 2 && e.Args[0] == v && e.Args[1] == t {
					return e.Facts.entailsEq(linOf(mkLen(v)).sub(linOf(mkLen(t))))
				}
			}
		}
	}
	return false
}

// empty: an empty slice that no earlier batch shares.
func (r *srcRun) empty(es []*Event, t *Term) bool {
	if t == tNil || pureOf(t, "reflect.Zero") != nil {
		return true
	}
	if isEmptySlice(t) {
		return isLocalRoot(rootOf(t)) && rootOf(t).ID > r.n.ID
	}
	if t.Op == "pure" && t.Aux == "reflect.MakeSlice" {
		if c, ok := intVal(t.Args[2]); ok && c == 0 {
			return true
		}
		for _, e := range es {
			if e.Kind == "Pure" && len(e.Res) == 1 && e.Res[0] == t {
				n, ok := intVal(t.Args[1])
				return ok && n == 0
			}
		}
	}
	return false
}
