package main

// The predefined filters of package pipeline (P10 - P13, P15).

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pipe describes package pipeline through its exported names.
type pipe struct {
	R                                 *Report
	filter, receiver, finalizer, kind types.Type
	node, source                      types.Type
	pipeline                          *types.Named
	kinds                             map[string]int64
	ordinary                          []string // names of the constants in order
	ntypes                            []*nodeType
	convs                             []conversion
	convDone                          bool
	runA                              *Analysis
	runParams                         []*Term
}

func (R *Report) pipeInfo() *pipe {
	d := &pipe{R: R, kinds: map[string]int64{}}
	scope := R.P.tpkg("pipeline").Scope()
	typ := func(n string) types.Type {
		o, ok := scope.Lookup(n).(*types.TypeName)
		if !ok {
			panic("type " + n + " not found in package pipeline")
		}
		return o.Type()
	}
	d.filter, d.receiver, d.finalizer = typ("Filter"), typ("Receiver"), typ("Finalizer")
	d.kind, d.node, d.source = typ("NodeKind"), typ("Node"), typ("Source")
	d.pipeline = typ("Pipeline").(*types.Named)
	for _, n := range []string{"Ordered", "Sequential", "Parallel"} {
		c, ok := scope.Lookup(n).(*types.Const)
		if !ok {
			panic("constant " + n + " not found in package pipeline")
		}
		var v int64
		fmt.Sscan(c.Val().ExactString(), &v)
		d.kinds[n] = v
		d.ordinary = append(d.ordinary, n)
	}
	return d
}

// opaque functions of the pipeline that filters call.
func (d *pipe) opaque(f *ssa.Function) bool {
	n := recvNamed(f)
	if n == nil || n.Obj() != d.pipeline.Obj() {
		return false
	}
	switch f.Name() {
	case "SetErr", "Cancel", "Err", "Context":
		return true
	}
	return false
}

func isCtxCancel(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" && n.Obj().Name() == "CancelFunc"
}

// cancels: does the event cancel the pipeline?
func (d *pipe) cancels(e *Event) bool {
	if e.Kind != "Call" {
		return false
	}
	if e.Static != nil {
		return e.Static.Name() == "Cancel" && d.opaque(e.Static)
	}
	return e.Callee != nil && e.Callee.Typ != nil && isCtxCancel(e.Callee.Typ)
}

func (d *pipe) setsErr(e *Event) bool {
	return e.Kind == "Call" && e.Static != nil && e.Static.Name() == "SetErr" && d.opaque(e.Static)
}

// filterRun is one way a constructor creates a filter.
type filterRun struct {
	d      *pipe
	name   string
	fn     *ssa.Function
	x      *Exec
	params []*Term
	st     *State // after the constructor
	f      *Term  // the filter
	node   *Term  // the node it was put into, if any
	size0  *Term  // the size announced to the filter
	size   *Term  // its address
	pl     *Term
	props  string
}

// begun is a filter applied to a node of some kind.
type begun struct {
	*filterRun
	kind  string
	st    *State
	evs   []*Event
	recv  *Term
	fin   *Term
	mark  int
	facts *Facts
}

func (x *Exec) reset(st *State) *State {
	s := st.clone()
	s.outcome, s.ret, s.pval, s.stack, s.trace = "", nil, nil, nil, nil
	return s
}

// constructor interprets an exported function that returns a filter or a node.
func (d *pipe) constructor(name, props string) []*filterRun {
	fn := d.R.P.fn("pipeline", name)
	if fn == nil {
		d.R.ob(props, "anchor", "pipeline."+name, token.NoPos, false, "the function no longer exists")
		return nil
	}
	x := newExec(d.R.P, Config{Stable: true, Loads: true, Opaque: d.opaque})
	var params []*Term
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Pointer); ok {
			c := mk("cell", fresh("cell:"+p.Name(), nil).Aux, p.Type())
			c.Note = p.Name()
			params = append(params, c)
			continue
		}
		params = append(params, x.freshOf(p.Name(), p.Type(), nil))
	}
	st := newState()
	for _, p := range params {
		if p.Op == "cell" {
			st.rootEp[p] = fresh("epoch", nil)
		}
	}
	var out []*filterRun
	for _, p := range x.runFunc(st, fn, params, nil) {
		if p.Outcome != "return" || len(p.Ret) != 1 {
			d.R.ob(props, "constructed", "pipeline."+name, fn.Pos(), false, "the constructor may panic")
			continue
		}
		r := p.Ret[0]
		base := &filterRun{d: d, name: name, fn: fn, x: x, params: params, st: x.reset(p.St), props: props}
		if types.Identical(fn.Signature.Results().At(0).Type(), d.filter) {
			base.f = r
			out = append(out, base)
			continue
		}
		base.node = r
		for _, f := range d.filtersOf(x, p.St, r) {
			b := *base
			b.f = f
			out = append(out, &b)
		}
	}
	return out
}

// note records what the analyses of a constructor covered.
func (d *pipe) note(props string, rs []*filterRun) {
	for _, r := range rs {
		d.R.coveredExec(props, r.construct(), r.fn.Pos(), r.x, r.x.paths)
	}
}

// filtersOf lists the filters stored in a new node.
func (d *pipe) filtersOf(x *Exec, st *State, node *Term) []*Term {
	if node.Op == "iface" {
		node = node.Args[0]
	}
	var out []*Term
	for a, v := range st.mem {
		if rootOf(a) == node && a != node && v.Typ != nil {
			if s, ok := fieldTypeOf(a).(*types.Slice); ok && types.Identical(s.Elem(), d.filter) {
				if fs, ok := x.literal(st, v); ok {
					out = append(out, fs...)
				}
			}
		}
	}
	return out
}

func fieldTypeOf(a *Term) types.Type {
	if v := fieldVars[a]; v != nil {
		return v.Type().Underlying()
	}
	return nil
}

func (r *filterRun) construct() string { return "pipeline." + r.name }

func (r *filterRun) ob(prop, rule string, pos token.Pos, ok bool, format string, a ...interface{}) bool {
	return r.d.R.ob(prop, rule, r.construct(), pos, ok, format, a...)
}

// begin applies the filter for a kind of node.
func (r *filterRun) begin(kind string, assume func(s *State, size *Term)) []*begun {
	x := r.x
	r.pl = fresh("pipeline", types.NewPointer(r.d.pipeline))
	r.size = mk("cell", fresh("cell:size", nil).Aux, types.NewPointer(types.Typ[types.Int]))
	r.size0 = fresh("size", types.Typ[types.Int])
	st := x.reset(r.st)
	st.mem[r.size] = r.size0
	st.facts = st.facts.withGe(linOf(r.size0).addc(1)) // -1: unknown
	if assume != nil {
		assume(st, r.size0)
	}
	x.base = 0
	if r.f.Op != "closure" && r.f.Op != "fn" {
		r.ob(r.props, "filter", r.fn.Pos(), false, "the filter is not a known function")
		return nil
	}
	var out []*begun
	for _, p := range x.callValue(st, r.f, []*Term{r.pl, mkInt(r.d.kinds[kind]), r.size}) {
		if p.Outcome != "return" || len(p.Ret) != 2 {
			r.ob(r.props, "filter-returns", r.f.Fn.Pos(), false, "the filter may panic for a node of kind %s", kind)
			continue
		}
		b := &begun{filterRun: r, kind: kind, st: x.reset(p.St), evs: flatEvents(p.Events), recv: p.Ret[0], fin: p.Ret[1], facts: p.Facts, mark: termSeq}
		ok := true
		for _, v := range []*Term{b.recv, b.fin} {
			given := false
			for _, p := range r.params {
				given = given || v == p
			}
			if given { // the user's own function
				ok = false
			} else if v != tNil && v.Op != "closure" && v.Op != "fn" {
				r.ob(r.props, "filter", r.f.Fn.Pos(), false, "the receiver or finalizer for a node of kind %s is not a known function", kind)
				ok = false
			}
		}
		if ok {
			out = append(out, b)
		}
	}
	return out
}

func (b *begun) pos(v *Term) token.Pos {
	if v != nil && v.Fn != nil {
		return v.Fn.Pos()
	}
	return b.fn.Pos()
}

// receive runs the receiver on a batch.
func (b *begun) receive(st *State, data *Term) []*Path {
	return b.atOnce(b.x.callValue(b.x.reset(st), b.recv, []*Term{fresh("seqNo", types.Typ[types.Int]), data}))
}

func (b *begun) finish(st *State) []*Path {
	if b.fin == tNil {
		s := b.x.reset(st)
		return []*Path{{Facts: s.facts, Outcome: "return", St: s}}
	}
	return b.atOnce(b.x.callValue(b.x.reset(st), b.fin, nil))
}

// atOnce: receivers and finalizers leave no goroutine behind.
func (b *begun) atOnce(ps []*Path) []*Path {
	if b.props == "P15" {
		return ps
	}
	for _, p := range ps {
		var started token.Pos
		for _, e := range p.Events {
			switch e.Kind {
			case "Go":
				started = e.Pos
			case "WgWait", "Recv":
				started = token.NoPos
			}
		}
		b.ob(b.props, "at-once", b.pos(b.recv), !started.IsValid(), "a part of the work is left to another goroutine, which may not have ended when the pipeline has")
	}
	return ps
}

// concurrent puts the interpreter into a mode in which other goroutines run the
// same receiver.
func (b *begun) concurrent(st *State) (*State, func()) {
	x := b.x
	cfg, base := x.cfg, x.base
	x.cfg.Stable = false
	x.base = termSeq
	s := x.reset(st)
	for k := range s.mem {
		if r := rootOf(k); isLocalRoot(r) && b.shared(s, r) {
			s.escaped[r] = true
		}
	}
	for _, p := range b.params {
		if p.Op == "cell" {
			s.escaped[p] = true
		}
	}
	return s, func() { x.cfg, x.base = cfg, base }
}

// shared: is the variable written by any receiver?
func (b *begun) shared(st *State, r *Term) bool {
	for _, w := range b.written() {
		if rootOf(w) == r {
			return true
		}
	}
	return false
}

// written lists the addresses that the receiver changes.
func (b *begun) written() []*Term {
	x := b.x
	base := x.base
	defer func() { x.base = base }()
	seen := map[*Term]bool{}
	var out []*Term
	mark := termSeq
	for _, p := range b.receive(b.st, fresh("data", types.NewInterfaceType(nil, nil))) {
		for _, e := range flatEvents(p.Events) {
			if e.Kind == "Store" {
				r := rootOf(e.Addr)
				if isLocalRoot(r) && r.ID > mark {
					continue
				}
				if !seen[e.Addr] {
					seen[e.Addr] = true
					out = append(out, e.Addr)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

func newData() *Term { return fresh("data", types.NewInterfaceType(nil, nil)) }

// ---- P10 ----

type predSpec struct {
	name     string
	deciding bool // the outcome of the predicate that decides the result
	result   bool // the decided result
}

var predSpecs = []predSpec{{"Every", false, false}, {"NotEvery", false, true}, {"Some", true, true}, {"NotAny", true, false}}

func (d *pipe) rulePredicates() {
	for _, s := range predSpecs {
		runs := d.constructor(s.name, "P10")
		defer d.note("P10", runs)
		for _, r := range runs {
			if len(r.params) != 3 {
				r.ob("P10", "signature", r.fn.Pos(), false, "unexpected parameters")
				continue
			}
			for _, k := range d.ordinary {
				for _, b := range r.begin(k, nil) {
					b.judgePredicate(s)
				}
			}
		}
	}
	d.R.need("P10", "truth", 12)
	d.R.need("P10", "cancel", 12)
	d.R.need("P10", "pass-on", 12)
}

// predicate finds the call of the user's predicate on a path of the receiver.
func predCalls(p *Path, pred *Term) []*Event {
	var out []*Event
	for _, e := range flatEvents(p.Events) {
		if e.Kind == "Call" && e.Callee == pred {
			out = append(out, e)
		}
	}
	return out
}

type predState struct {
	st      *State
	decided bool
}

func (b *begun) judgePredicate(s predSpec) {
	x := b.x
	result, cancel, pred := b.params[0], b.params[1], b.params[2]
	at := fmt.Sprintf("in a node of kind %s", b.kind)
	for _, e := range b.evs {
		b.ob("P10", "cancel", e.Pos, !b.d.cancels(e) && !b.d.setsErr(e), "the filter itself cancels the pipeline %s", at)
	}
	if b.recv == tNil {
		b.ob("P10", "truth", b.pos(b.f), false, "there is no receiver %s", at)
		return
	}
	addrs := b.written()
	widened := map[*Term]int64{}
	star := map[*Term]*Term{}
	canon := func(st *State) (*State, string) {
		key := ""
		for _, a := range addrs {
			v, ok := st.mem[a]
			if !ok {
				v = x.read(st, a, derefType(a))
			}
			if m, ok := widened[a]; ok && st.facts.entailsGe(linOf(v).addc(-m)) {
				if star[a] == nil {
					star[a] = fresh("count", types.Typ[types.Int])
				}
				v = star[a]
				st.mem[a] = v
				st.facts = st.facts.withGe(linOf(v).addc(-m))
			}
			key += fmt.Sprintf("%d;", v.ID)
		}
		return st, key
	}
	states := map[string]*predState{}
	var all []*predState
	var queue []*predState
	push := func(st *State, decided bool) {
		s := x.reset(st)
		s.facts = b.facts
		for _, a := range addrs {
			if v := s.mem[a]; v != nil && v.Op == "lin" || v != nil && !concrete(v) {
				// keep what is known about the value
				s.facts = st.facts
			}
		}
		s, key := canon(s)
		key = fmt.Sprintf("%v|%s", decided, key)
		if states[key] == nil {
			q := &predState{s, decided}
			states[key] = q
			all = append(all, q)
			queue = append(queue, q)
		}
	}
	push(b.st, false)
	for len(queue) > 0 {
		if len(states) > 8 && len(widened) == 0 {
			// counters: keep lower bounds only
			for _, a := range addrs {
				lo, ints, diff := int64(1<<62), true, false
				var first *Term
				for _, q := range all {
					v := q.st.mem[a]
					if v == nil {
						ints = false
						break
					}
					c, ok := intVal(v)
					if !ok {
						ints = false
						break
					}
					if q.decided && c < lo {
						lo = c
					}
					if first != nil && first != v {
						diff = true
					}
					first = v
				}
				if ints && diff {
					widened[a] = lo
				}
			}
			old := all
			states, all, queue = map[string]*predState{}, nil, nil
			for _, q := range old {
				push(q.st, q.decided)
			}
		}
		if len(states) > 20 {
			b.ob("P10", "truth", b.pos(b.recv), false, "undecided: the receiver has too many states %s", at)
			return
		}
		q := queue[0]
		queue = queue[1:]
		data := newData()
		for _, p := range b.receive(q.st, data) {
			pos := b.pos(b.recv)
			if p.Outcome != "return" || len(p.Ret) != 1 {
				b.ob("P10", "pass-on", pos, false, "the receiver may panic %s", at)
				continue
			}
			b.ob("P10", "pass-on", pos, same(p.Facts, p.Ret[0], data, x), "the receiver does not pass the batch on unmodified %s", at)
			cs := predCalls(p, pred)
			if !b.ob("P10", "predicate", pos, len(cs) == 1 && len(cs[0].Args) == 1 && cs[0].Args[0] == data, "the predicate is not called exactly once with the batch %s", at) {
				continue
			}
			for _, v := range []bool{false, true} {
				f, ok := p.Facts.assume(cs[0].Res[0], v)
				if !ok {
					continue
				}
				n := p.St.clone()
				n.facts = f
				for _, a := range addrs {
					if w := n.mem[a]; w != nil && isBoolTerm(w) {
						if t := f.truth(w); t != 0 {
							n.mem[a] = mkBool(t > 0)
						}
					}
				}
				deciding := v == s.deciding
				push(n, q.decided || deciding)
				var could bool
				for _, e := range flatEvents(p.Events) {
					if b.d.cancels(e) {
						could = true
						b.ob("P10", "cancel", e.Pos, f.truth(cancel) == 1 && (deciding || q.decided), "the pipeline is cancelled although that was not requested or no batch has decided the result %s", at)
					}
				}
				if deciding && !q.decided {
					b.ob("P10", "cancel", pos, could || f.truth(cancel) == -1, "the pipeline is not cancelled although a batch has decided the result %s", at)
				}
			}
		}
	}
	for _, q := range all {
		for _, p := range b.finish(q.st) {
			want := s.result == q.decided
			v := x.read(p.St, result, types.Typ[types.Bool])
			b.ob("P10", "truth", b.pos(b.recv), p.Outcome == "return" && p.Facts.truth(v) == map[bool]int{true: 1, false: -1}[want],
				"the result is not %v after batches that have %s the result %s", want, map[bool]string{true: "decided", false: "not decided"}[q.decided], at)
			for _, e := range flatEvents(p.Events) {
				b.ob("P10", "cancel", e.Pos, !b.d.cancels(e), "the finalizer cancels the pipeline")
			}
		}
	}
	if b.kind == "Parallel" {
		b.judgeInterleaving(s, addrs, all, widened, at)
		b.judgeParallel("P10")
	}
}

func isBoolTerm(t *Term) bool {
	if t.Typ != nil && isBoolType(t.Typ) {
		return true
	}
	switch t.Op {
	case "ge0", "eq0", "not", "eq", "lt", "le":
		return true
	}
	return false
}

func concrete(v *Term) bool {
	if _, ok := intVal(v); ok {
		return true
	}
	return v == tTrue || v == tFalse || v == tNil || v.Op == "const"
}

func derefType(a *Term) types.Type {
	var t types.Type = types.Typ[types.Int]
	if p, ok := a.Typ.(*types.Pointer); ok {
		t = p.Elem()
	} else if v := fieldVars[a]; v != nil {
		t = v.Type()
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" {
		switch n.Obj().Name() {
		case "Bool":
			return types.Typ[types.Bool]
		case "Int32":
			return types.Typ[types.Int32]
		}
		return types.Typ[types.Int64]
	}
	return t
}

// same: the receiver hands on the batch it got.
func same(f *Facts, ret, data *Term, x *Exec) bool {
	return ret == data || ret == tNil && isNilData(f, data, x) == 1
}

// judgeInterleaving: with several receivers at the same time, every single
// access keeps a decided result decided and an undecided one undecided.
func (b *begun) judgeInterleaving(s predSpec, addrs []*Term, all []*predState, widened map[*Term]int64, at string) {
	pos := b.pos(b.recv)
	if len(addrs) == 0 {
		return
	}
	if !b.ob("P10", "interleaving", pos, len(addrs) == 1, "undecided: the receiver keeps its state in several variables %s", at) {
		return
	}
	a := addrs[0]
	var und []*Term
	for _, q := range all {
		if !q.decided {
			und = append(und, b.x.read(q.st, a, derefType(a)))
		}
	}
	pred := b.params[2]
	st, done := b.concurrent(b.st)
	defer done()
	data := newData()
	equal := func(f *Facts, v, w *Term) int {
		if v == w {
			return 1
		}
		if isBoolTerm(v) || v == tTrue || v == tFalse {
			tv, tw := f.truth(v), f.truth(w)
			if tv != 0 && tw != 0 {
				return tv * tw
			}
			return 0
		}
		return f.truth(mkEq0(linOf(v).sub(linOf(w))))
	}
	isDec := func(f *Facts, v *Term) bool {
		// every undecided value is excluded
		for _, u := range und {
			if equal(f, u, v) != -1 {
				return false
			}
		}
		return true
	}
	for _, p := range b.receive(st, data) {
		cs := predCalls(p, pred)
		if len(cs) != 1 {
			continue
		}
		// values come from the domain
		f := p.Facts
		var last *Term
		for _, e := range flatEvents(p.Events) {
			if (e.Kind == "Load" || e.Kind == "Store") && e.Addr == a {
				for _, l := range readsIn(e) {
					if m, ok := widened[a]; ok {
						lo := m
						for _, u := range und {
							if c, ok := intVal(u); ok && c < lo {
								lo = c
							}
						}
						f = f.withGe(linOf(l).addc(-lo))
					}
				}
			}
		}
		deciding, known := false, false
		if t := f.truth(cs[0].Res[0]); t != 0 {
			known, deciding = true, (t > 0) == s.deciding
		}
		settled := false
		for _, e := range flatEvents(p.Events) {
			if strings.HasSuffix(e.Kind, "ock") {
				last = nil
			}
			if e.Addr != a {
				continue
			}
			switch e.Kind {
			case "Load":
				last = e.Val
				settled = settled || isDec(f, e.Val)
			case "Store":
				set := known && deciding && isDec(f, e.Val)
				ok := set || last != nil && !e.Atomic && equal(f, last, e.Val) == 1
				settled = settled || set
				b.ob("P10", "interleaving", e.Pos, ok, "a receiver may overwrite the outcome of a concurrent one %s", at)
			}
		}
		if !known || deciding {
			b.ob("P10", "interleaving", pos, known && settled, "a receiver may lose a deciding batch while others run %s", at)
		}
	}
}

// readsIn lists the unknown values in an access.
func readsIn(e *Event) []*Term {
	var out []*Term
	walkTerm(e.Val, func(t *Term) {
		if t.Op == "atom" && strings.HasPrefix(t.Aux, "atomic#") || t.Op == "load" {
			out = append(out, t)
		}
	})
	return out
}

// ---- batches ----

// valueOf: is v reflect.ValueOf(data)?
func valueOf(v, data *Term) bool {
	return v.Op == "pure" && v.Aux == "reflect.ValueOf" && len(v.Args) == 1 && v.Args[0] == data
}

func isPure(v *Term, name string, n int) bool {
	return v != nil && v.Op == "pure" && v.Aux == name && len(v.Args) == n
}

// lenOf is the number of elements of a batch.
func lenOf(data *Term) *Term {
	v := mk("pure", "reflect.ValueOf", nil, data)
	return mk("pure", "(reflect.Value).Len", types.Typ[types.Int], v)
}

// isNilData: 1 the batch has no data, -1 it has, 0 unknown.
func isNilData(f *Facts, data *Term, x *Exec) int {
	if data == tNil {
		return 1
	}
	return f.truth(x.mkEq(data, tNil))
}

// reads and writes through package reflect
func reflectWrite(e *Event) *Term {
	if e.Kind == "Call" && e.Static != nil && strings.HasPrefix(e.Name, "(reflect.Value).Set") && len(e.Args) > 0 {
		return e.Args[0]
	}
	return nil
}

var reflectPeek = map[string]bool{"Kind": true, "Type": true, "CanSet": true, "CanAddr": true, "Elem": true, "IsValid": true}

func reflectRead(e *Event) *Term {
	if e.Kind != "Pure" || len(e.Args) == 0 {
		return nil
	}
	switch {
	case strings.HasPrefix(e.Name, "(reflect.Value)."):
		if reflectPeek[strings.TrimPrefix(e.Name, "(reflect.Value).")] {
			return nil
		}
		return e.Args[0]
	case e.Name == "reflect.Append" || e.Name == "reflect.AppendSlice":
		return e.Args[0]
	}
	return nil
}

// ---- P11 ----

func (d *pipe) ruleCollect() {
	rs, rc := d.constructor("Slice", "P11"), d.constructor("Count", "P11")
	for _, r := range rs {
		for _, k := range d.ordinary {
			for _, b := range r.begin(k, nil) {
				b.judgeSlice()
			}
		}
	}
	for _, r := range rc {
		for _, k := range d.ordinary {
			for _, b := range r.begin(k, nil) {
				b.judgeCount()
			}
		}
	}
	d.note("P11", append(rs, rc...))
	d.R.need("P11", "append", 3)
	d.R.need("P11", "count", 4)
	d.R.need("P11", "pass-on", 6)
	d.R.need("P11", "result-kind", 3)
}

func (b *begun) judgeSlice() {
	x := b.x
	at := fmt.Sprintf("in a node of kind %s", b.kind)
	res := mk("pure", "(reflect.Value).Elem", nil, mk("pure", "reflect.ValueOf", nil, b.params[0]))
	kind := mk("pure", "(reflect.Value).Kind", nil, res)
	canSet := mk("pure", "(reflect.Value).CanSet", nil, res)
	slice := b.facts.entailsEq(linOf(kind).addc(-23)) // reflect.Slice
	settable := b.facts.truth(canSet) == 1
	failed := false
	for _, e := range b.evs {
		if b.d.setsErr(e) {
			failed = true
			b.ob("P11", "result-kind", e.Pos, len(e.Args) == 2 && nonNil(e.Args[1]), "the error for an unusable result may be nil")
		}
		b.ob("P11", "result-kind", e.Pos, !b.d.cancels(e), "the filter cancels the pipeline")
	}
	if failed || b.recv == tNil {
		b.ob("P11", "result-kind", b.pos(b.f), failed && b.recv == tNil && b.fin == tNil || failed && !slice, "a result that cannot be used is not reported, or the filter goes on nevertheless %s", at)
		b.ob("P11", "result-kind", b.pos(b.f), b.facts.truth(mkEq0(linOf(kind).addc(-23))) == -1 || b.facts.truth(canSet) == -1, "a settable slice is reported as an error %s", at)
		return
	}
	b.ob("P11", "result-kind", b.pos(b.f), slice && settable, "a result that is not a settable slice is not reported %s", at)
	b.ob("P11", "append", b.pos(b.f), b.fin == tNil, "undecided: the filter also has a finalizer")
	if b.kind == "Parallel" {
		b.judgeParallel("P11")
	}
	for _, data := range []*Term{newData(), tNil} {
		for _, p := range b.receive(b.st, data) {
			pos := b.pos(b.recv)
			if !b.ob("P11", "pass-on", pos, p.Outcome == "return" && len(p.Ret) == 1 && same(p.Facts, p.Ret[0], data, x), "the batch is not passed on unmodified %s", at) {
				continue
			}
			var sets []*Event
			for _, e := range flatEvents(p.Events) {
				if reflectWrite(e) != nil {
					sets = append(sets, e)
				}
				b.ob("P11", "append", e.Pos, !(e.Kind == "Call" && reflectWrite(e) == nil) && e.Kind != "Go", "undecided: the receiver calls something unknown")
			}
			if isNilData(p.Facts, data, x) == 1 {
				b.ob("P11", "append", pos, len(sets) == 0, "something is appended for an empty batch %s", at)
				continue
			}
			if !b.ob("P11", "append", pos, len(sets) == 1, "a batch is appended %d times %s", len(sets), at) {
				continue
			}
			e := sets[0]
			v := e.Args[len(e.Args)-1]
			ok := e.Name == "(reflect.Value).Set" && e.Args[0] == res && isPure(v, "reflect.AppendSlice", 2) && v.Args[0] == res && valueOf(v.Args[1], data)
			b.ob("P11", "append", e.Pos, ok, "the batch is not appended as a whole at the end of the result %s", at)
		}
	}
}

func nonNil(t *Term) bool {
	if t.Op == "iface" {
		return true
	}
	return t.Op == "pure" && (t.Aux == "errors.New" || t.Aux == "fmt.Errorf")
}

// judgeCount: find the variable that accumulates the sizes.
func (b *begun) judgeCount() {
	x := b.x
	at := fmt.Sprintf("in a node of kind %s", b.kind)
	result := b.params[0]
	intT := types.Typ[types.Int]
	known := b.facts.entailsGe(linOf(b.size0))
	pos := b.pos(b.f)
	sz := x.read(b.st, b.size, intT)
	b.ob("P11", "count", pos, sz == b.size0 || b.facts.eq(sz, b.size0), "the announced size is changed %s", at)
	for _, e := range b.evs {
		b.ob("P11", "count", e.Pos, !b.d.cancels(e) && !b.d.setsErr(e), "the filter cancels the pipeline")
	}
	if b.recv == tNil {
		ok := known
		for _, p := range b.finish(b.st) {
			v := x.read(p.St, result, intT)
			ok = ok && p.Outcome == "return" && p.Facts.eq(v, b.size0)
		}
		b.ob("P11", "count", pos, ok, "without a receiver the result is not a known size %s", at)
		return
	}
	addrs := b.written()
	if !b.ob("P11", "count", b.pos(b.recv), len(addrs) == 1, "undecided: the sizes are not accumulated in exactly one variable %s", at) {
		return
	}
	a := addrs[0]
	start := x.read(b.st, a, intT)
	// from any total so far
	st := x.reset(b.st)
	total := fresh("total", intT)
	st.mem[a] = total
	for _, data := range []*Term{newData(), tNil} {
		for _, p := range b.receive(st, data) {
			pos := b.pos(b.recv)
			if !b.ob("P11", "pass-on", pos, p.Outcome == "return" && len(p.Ret) == 1 && same(p.Facts, p.Ret[0], data, x), "the batch is not passed on unmodified %s", at) {
				continue
			}
			n := x.read(p.St, a, intT)
			want := linOf(total)
			if isNilData(p.Facts, data, x) != 1 {
				want = want.add(linOf(lenOf(data)))
			}
			b.ob("P11", "count", pos, p.Facts.entailsEq(linOf(n).sub(want)), "the total does not grow by the size of the batch %s", at)
		}
	}
	// the final result
	for _, p := range b.finish(st) {
		v := x.read(p.St, result, intT)
		b.ob("P11", "count", b.pos(b.fin), p.Outcome == "return" && p.Facts.entailsEq(linOf(v).sub(linOf(total)).add(linOf(start))), "the result is not the total of all sizes %s", at)
	}
	if b.kind != "Parallel" {
		return
	}
	b.judgeParallel("P11")
	// each step is a single read-modify-write
	cs, done := b.concurrent(b.st)
	defer done()
	data := newData()
	for _, p := range b.receive(cs, data) {
		var last *Term
		old := map[*Term]bool{}
		for _, e := range flatEvents(p.Events) {
			if strings.HasSuffix(e.Kind, "ock") {
				last = nil
			}
			if e.Addr != a {
				continue
			}
			switch e.Kind {
			case "Load":
				old[e.Val] = true
				if len(e.Locks) > 0 {
					last = e.Val
				}
			case "Store":
				// the increment relative to the value right before
				ok := false
				for _, l := range append(readsIn(e), last) {
					if l == nil || l != last && (!e.Atomic || old[l]) {
						continue
					}
					d := linOf(e.Val).sub(linOf(l))
					ok = ok || p.Facts.entailsEq(d.sub(linOf(lenOf(data)))) || isNilData(p.Facts, data, x) == 1 && p.Facts.entailsEq(d)
				}
				b.ob("P11", "count", e.Pos, ok, "the step of the total is not a single atomic update %s", at)
			}
		}
	}
}

// ---- P12 ----

// passed describes which elements [lo, hi) of a batch of n elements a receiver
// passes on.
func passed(ret, data *Term) (lo, hi *Lin, ok bool) {
	n := linOf(lenOf(data))
	switch {
	case ret == tNil:
		return linConst(0), linConst(0), true
	case ret == data:
		return linConst(0), n, true
	case isPure(ret, "(reflect.Value).Interface", 1):
		v := ret.Args[0]
		switch {
		case valueOf(v, data):
			return linConst(0), n, true
		case isPure(v, "(reflect.Value).Slice", 3) && valueOf(v.Args[0], data):
			return linOf(v.Args[1]), linOf(v.Args[2]), true
		}
	}
	return nil, nil, false
}

func (d *pipe) ruleBorder() {
	rl, rs := d.constructor("Limit", "P12"), d.constructor("Skip", "P12")
	for _, r := range append(append([]*filterRun{}, rl...), rs...) {
		limit := r.name == "Limit"
		if len(r.params) < 1 || limit && len(r.params) != 2 {
			r.ob("P12", "signature", r.fn.Pos(), false, "unexpected parameters")
			continue
		}
		if r.node != nil {
			r.ob("P12", "ordered", r.fn.Pos(), d.orderedNode(r), "the filter does not run in an ordered node")
		}
		for _, b := range r.begin("Ordered", nil) {
			b.judgeBorder(limit)
		}
	}
	d.note("P12", append(rl, rs...))
	d.R.need("P12", "border", 6)
	d.R.need("P12", "size", 6)
	d.R.need("P12", "limit-cancel", 2)
	d.R.need("P12", "ordered", 2)
}

// orderedNode: is the node of the same type and configuration as those that
// Ord or StrictOrd return?
func (d *pipe) orderedNode(r *filterRun) bool {
	mine := nodeKey(r.st, r.node)
	for _, n := range []string{"Ord", "StrictOrd"} {
		fn := d.R.P.fn("pipeline", n)
		if fn == nil {
			continue
		}
		x := newExec(d.R.P, Config{Stable: true, Loads: true})
		var ps []*Term
		for _, p := range fn.Params {
			ps = append(ps, x.freshOf(p.Name(), p.Type(), nil))
		}
		for _, p := range x.runFunc(newState(), fn, ps, nil) {
			if p.Outcome == "return" && len(p.Ret) == 1 && nodeKey(p.St, p.Ret[0]) == mine {
				return true
			}
		}
	}
	return false
}

// nodeKey identifies the concrete type and the scalar fields of a new node.
func nodeKey(st *State, node *Term) string {
	if node.Op != "iface" || node.Args[0].Op != "cell" {
		return fmt.Sprintf("?%d", node.ID)
	}
	var ks []string
	for a, v := range st.mem {
		if rootOf(a) != node.Args[0] || a == node.Args[0] {
			continue
		}
		if _, ok := fieldTypeOf(a).(*types.Basic); ok {
			if c, ok := intVal(v); ok && c == 0 || v == tFalse {
				continue
			}
			ks = append(ks, fmt.Sprintf("%s=%d", fieldVars[a].Name(), v.ID))
		}
	}
	sort.Strings(ks)
	return node.Aux + ":" + strings.Join(ks, ",")
}

// counter is an interpretation of the receiver's state: the number of elements
// seen so far is sign*(v - start).
type counter struct {
	addr  *Term
	sign  int64
	start *Term
}

func (b *begun) judgeBorder(limit bool) {
	x := b.x
	n := b.params[0] // the limit, or the number of elements to skip
	nl := linOf(n)
	pos := b.pos(b.f)
	intT := types.Typ[types.Int]
	what := "all but the first n"
	if limit {
		what = "the first n"
	}
	f0 := b.facts
	negative := f0.entailsGe(nl.neg().addc(-1))
	if !negative && !f0.entailsGe(nl) {
		// judge both cases
		for _, l := range []*Lin{nl, nl.neg().addc(-1)} {
			c := *b
			c.st = x.reset(b.st)
			c.st.facts = f0.withGe(l)
			c.facts = c.st.facts
			if !c.facts.inconsistent() {
				c.judgeBorder(limit)
			}
		}
		return
	}
	old, now := linOf(b.size0), linOf(x.read(b.st, b.size, intT))
	unknown := func(g *Facts) *Facts { return g.withGe(old.neg().addc(-1)) }
	given := func(g *Facts) *Facts { return g.withGe(old) }
	// the size announced to later filters
	sizes := func() bool {
		u := unknown(f0)
		if !u.inconsistent() {
			ok := u.entailsGe(now.neg().addc(-1))
			if (limit && u.entailsEq(nl) || !limit && negative) && u.entailsEq(now) {
				ok = true
			}
			if !ok {
				return false
			}
		}
		g := given(f0)
		if g.inconsistent() {
			return true
		}
		switch {
		case limit && negative:
			return g.entailsEq(now.sub(old))
		case limit:
			lo, hi := g.withGe(nl.sub(old)), g.withGe(old.sub(nl))
			return (lo.inconsistent() || lo.entailsEq(now.sub(old))) && (hi.inconsistent() || hi.entailsEq(now.sub(nl)))
		case negative:
			return g.entailsEq(now)
		default:
			lo, hi := g.withGe(nl.sub(old)), g.withGe(old.sub(nl))
			return (lo.inconsistent() || lo.entailsEq(now)) && (hi.inconsistent() || hi.entailsEq(now.sub(old).add(nl)))
		}
	}
	b.ob("P12", "size", pos, sizes(), "the announced size does not become that of %s elements", what)
	cancelled, failed := false, false
	for _, e := range b.evs {
		if b.d.cancels(e) {
			cancelled = true
			b.ob("P12", "limit-cancel", e.Pos, limit && f0.entailsEq(nl) && f0.truth(b.params[1]) == 1, "the pipeline is cancelled before the limit is reached or without being asked to")
		}
		if b.d.setsErr(e) {
			failed = true
			b.ob("P12", "negative", e.Pos, !limit && negative && len(e.Args) == 2 && nonNil(e.Args[1]), "an error is set although the argument is valid, or a nil error is set")
		}
	}
	if negative && !limit {
		b.ob("P12", "negative", pos, failed, "a negative number of elements to skip is not reported as an error")
	}
	if limit && !negative {
		z := f0.withGe(nl.neg())
		if !z.inconsistent() {
			b.ob("P12", "limit-cancel", pos, cancelled || z.truth(b.params[1]) == -1, "a limit of 0 does not cancel the pipeline")
		}
	}
	if b.fin != tNil {
		for _, p := range b.finish(b.st) {
			b.ob("P12", "border", b.pos(b.fin), p.Outcome == "return" && len(foreign(p)) == 0, "undecided: the filter has a finalizer with effects")
		}
	}
	if b.recv == tNil {
		var all bool
		switch {
		case limit && negative:
			all = true
		case limit: // cannot be exceeded
			all = f0.entailsGe(old) && f0.entailsGe(nl.sub(old))
		default:
			all = !negative && f0.entailsGe(nl.neg())
		}
		b.ob("P12", "border", pos, all, "all elements are passed on although only %s are wanted", what)
		return
	}
	// how the receiver counts
	var cs []counter
	for _, a := range b.written() {
		v := x.read(b.st, a, derefType(a))
		if isIntType(derefType(a)) {
			cs = append(cs, counter{a, 1, v}, counter{a, -1, v})
		}
	}
	if len(cs) == 0 {
		cs = append(cs, counter{})
	}
	var best []obRec
	for i, c := range cs {
		for _, bounded := range []bool{true, false} {
			v := b.judgeReceiver(limit, negative, c, bounded, what)
			if i == 0 && bounded || failures(v) < failures(best) {
				best = v
			}
		}
	}
	for _, o := range best {
		b.ob("P12", o.rule, o.pos, o.ok, "%s", o.msg)
	}
}

type obRec struct {
	rule string
	pos  token.Pos
	ok   bool
	msg  string
}

func failures(v []obRec) int {
	n := 0
	for _, o := range v {
		if !o.ok {
			n++
		}
	}
	return n
}

func (b *begun) judgeReceiver(limit, negative bool, c counter, bounded bool, what string) (out []obRec) {
	x := b.x
	n := linOf(b.params[0])
	pos := b.pos(b.recv)
	ob := func(rule string, ok bool, format string, a ...interface{}) bool {
		out = append(out, obRec{rule, pos, ok, fmt.Sprintf(format, a...)})
		return ok
	}
	st := x.reset(b.st)
	st.facts = b.facts
	ghost := fresh("seen", types.Typ[types.Int])
	st.facts = st.facts.withGe(linOf(ghost))
	seenAt := func(s *State) *Lin {
		if c.addr == nil { // no count: whatever was seen before
			return linOf(ghost)
		}
		d := linOf(x.read(s, c.addr, types.Typ[types.Int])).sub(linOf(c.start))
		if c.sign < 0 {
			d = d.neg()
		}
		return d
	}
	if c.addr != nil {
		st.mem[c.addr] = fresh("counter", types.Typ[types.Int])
		s := seenAt(st)
		st.facts = st.facts.withGe(s)
		if bounded && !negative {
			st.facts = st.facts.withGe(n.sub(s))
		}
	}
	seen := seenAt(st)
	for _, data := range []*Term{newData(), tNil} {
		for _, p := range b.receive(st, data) {
			if !ob("border", p.Outcome == "return" && len(p.Ret) == 1, "the receiver may panic") {
				continue
			}
			now := seenAt(p.St)
			f := p.Facts
			for _, e := range flatEvents(p.Events) {
				ob("border", !(e.Kind == "Go" || b.d.setsErr(e) || reflectWrite(e) != nil), "undecided: the receiver does something unexpected")
			}
			var cancel bool
			for _, e := range flatEvents(p.Events) {
				cancel = cancel || b.d.cancels(e)
			}
			nl := isNilData(f, data, x) == 1
			size := linConst(0)
			if !nl {
				size = linOf(lenOf(data))
				f = f.withGe(size)
				if b.facts.entailsGe(linOf(b.size0)) {
					// the announced size is the number of all elements
					f = f.withGe(linOf(b.size0).sub(seen).sub(size))
				}
				if f.inconsistent() {
					continue
				}
			}
			lo, hi, ok := passed(p.Ret[0], data)
			if nl {
				ok = p.Ret[0] == tNil || p.Ret[0] == data
				lo, hi = linConst(0), linConst(0)
			}
			if !ob("border", ok, "the batch passed on is not a part of the batch received") {
				continue
			}
			// impossible shows that a situation cannot occur
			impossible := func(ls ...*Lin) bool {
				g := f
				for _, l := range ls {
					g = g.withGe(l)
				}
				return g.inconsistent()
			}
			count := hi.sub(lo)
			left := n.sub(seen) // up to the border
			switch {
			case limit && negative:
				ob("border", f.entailsEq(lo) && f.entailsEq(hi.sub(size)), "elements are dropped although there is no limit")
			case !limit && negative:
				ob("border", f.entailsEq(count), "elements are passed on although all of them are to be skipped")
			case limit:
				// count == min(size, max(0, left)), from the start
				ob("border", f.entailsEq(lo) || f.entailsEq(count), "the batch on the border does not start with the first element")
				ob("border", impossible(count.sub(left).addc(-1), count.addc(-1)), "more elements than the limit are passed on")
				ob("border", impossible(left.sub(count).addc(-1), size.sub(count).addc(-1)), "elements below the limit are dropped")
				ob("border", f.entailsGe(size.sub(hi)), "more elements than there are in the batch are passed on")
			default:
				// lo == min(size, max(0, left)), up to the end
				ob("border", f.entailsEq(hi.sub(size)) || impossible(size.sub(left).addc(-1)) && f.entailsEq(count), "the batch on the border does not end with the last element")
				skipped := size.sub(count)
				ob("border", impossible(skipped.sub(left).addc(-1), skipped.addc(-1)), "too many elements are skipped")
				ob("border", impossible(left.sub(skipped).addc(-1), count.addc(-1)), "too few elements are skipped")
			}
			if negative {
				ob("limit-cancel", !cancel, "the pipeline is cancelled although there is no limit")
				continue
			}
			// the count: exact up to the border
			total := seen.add(size)
			if c.addr != nil {
				if bounded {
					ob("border", f.entailsGe(n.sub(now)), "undecided: the number of elements seen may exceed the border")
				}
				// below the border: exact
				ob("border", impossible(n.sub(total).addc(-1), now.sub(total).addc(-1)) && impossible(n.sub(total).addc(-1), total.sub(now).addc(-1)), "the number of elements seen is not updated correctly before the border")
				ob("border", impossible(total.sub(n), n.sub(now).addc(-1)), "the number of elements seen is not updated correctly at the border")
			}
			if limit && !b.facts.entailsGe(n.neg()) {
				asked := f.truth(b.params[1])
				if cancel {
					ob("limit-cancel", asked == 1 && impossible(n.sub(total).addc(-1)), "the pipeline is cancelled before the limit is reached or without being asked to")
				} else {
					ob("limit-cancel", asked == -1 || impossible(total.sub(n), n.sub(seen).addc(-1)), "the pipeline is not cancelled when the limit is reached")
				}
			} else if cancel {
				ob("limit-cancel", limit && f.truth(b.params[1]) == 1, "the pipeline is cancelled without being asked to")
			}
		}
	}
	return out
}

// ---- P13 ----

func (d *pipe) filterNames() []string {
	var out []string
	scope := d.R.P.tpkg("pipeline").Scope()
	for _, n := range scope.Names() {
		f, ok := scope.Lookup(n).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Results().Len() == 1 && types.Identical(sig.Results().At(0).Type(), d.filter) {
			out = append(out, n)
		}
	}
	return out
}

func (d *pipe) ruleParallel() {
	for _, n := range d.filterNames() {
		rs := d.constructor(n, "P13")
		for _, r := range rs {
			for _, b := range r.begin("Parallel", nil) {
				if b.recv.Op == "closure" || b.recv.Op == "fn" {
					b.judgeParallel("P13")
				}
			}
		}
		d.note("P13", rs)
	}
	d.R.need("P13", "shared-access", 6)
	d.R.need("P13", "released", 6)
}

type useRec struct {
	e      *Event
	write  bool
	atomic bool
}

func (b *begun) judgeParallel(props string) {
	pos := b.pos(b.recv)
	mark := termSeq
	st, done := b.concurrent(b.st)
	defer done()
	uses := map[*Term][]useRec{}
	var order []*Term
	add := func(a *Term, u useRec) {
		if uses[a] == nil {
			order = append(order, a)
		}
		uses[a] = append(uses[a], u)
	}
	own := func(a *Term) bool {
		r := rootOf(a)
		return isLocalRoot(r) && r.ID > mark
	}
	data := newData()
	fromData := func(t *Term) bool { return mentions(t, data) }
	paths := b.receive(st, data)
	for _, p := range paths {
		held := false
		for _, v := range p.St.locks {
			held = held || v != 0
		}
		b.ob(props, "released", pos, !held && p.Outcome == "return", "a lock is still held when the receiver returns")
		for _, e := range flatEvents(p.Events) {
			switch e.Kind {
			case "Load", "Store":
				if !own(e.Addr) {
					add(e.Addr, useRec{e, e.Kind == "Store", e.Atomic})
				}
			case "MapSet", "MapDelete", "Copy":
				b.ob(props, "shared-access", e.Pos, false, "undecided: a receiver changes a map or copies into a slice")
			}
			if t := reflectWrite(e); t != nil && !fromData(t) {
				add(t, useRec{e, true, false})
			}
			if t := reflectRead(e); t != nil && !fromData(t) {
				add(t, useRec{e, false, false})
			}
		}
	}
	n := 0
	for _, a := range order {
		us := uses[a]
		written := false
		for _, u := range us {
			written = written || u.write
		}
		if !written {
			continue
		}
		n++
		atomics := 0
		var common map[*Term]bool
		for _, u := range us {
			if u.atomic {
				atomics++
				continue
			}
			have := map[*Term]bool{}
			for l, k := range u.e.Locks {
				if k >= 1000 || !u.write && k > 0 {
					have[l] = true
				}
			}
			if common == nil {
				common = have
			} else {
				for l := range common {
					if !have[l] {
						delete(common, l)
					}
				}
			}
		}
		for l := range common {
			// every invocation must use the same lock
			if own(l) {
				delete(common, l)
			}
		}
		if atomics == len(us) {
			b.ob(props, "shared-access", us[0].e.Pos, true, "")
			continue
		}
		for _, u := range us {
			if !u.atomic {
				b.ob(props, "shared-access", u.e.Pos, atomics == 0 && len(common) > 0, "concurrent receivers access %s without a common lock or atomic operation", nameOf(a))
			}
		}
	}
	// atomic updates that depend on an earlier read
	for _, p := range paths {
		b.lostUpdates(props, p, uses)
	}
	if n == 0 {
		b.ob(props, "shared-access", pos, true, "")
	}
}

// lostUpdates: a value written must not depend on a value that was read before
// under another hold of the lock or by another atomic operation.
func (b *begun) lostUpdates(props string, p *Path, uses map[*Term][]useRec) {
	hold := 0
	type rd struct {
		v    *Term
		hold int
		ev   *Event
	}
	reads := map[*Term][]rd{}
	note := func(a, v *Term, e *Event) {
		h := -1
		if len(e.Locks) > 0 {
			h = hold
		}
		reads[a] = append(reads[a], rd{v, h, e})
	}
	for _, e := range flatEvents(p.Events) {
		if e.Kind == "Lock" || e.Kind == "RLock" {
			hold++
		}
		var a, v *Term
		if e.Kind == "Store" {
			a, v = e.Addr, e.Val
		}
		if t := reflectWrite(e); t != nil {
			a, v = t, e.Args[len(e.Args)-1]
		}
		if a != nil && uses[a] != nil {
			h := -1
			if len(e.Locks) > 0 {
				h = hold
			}
			for _, r := range reads[a] {
				if r.hold >= 0 && r.hold == h || r.v == nil || !mentions(v, r.v) {
					continue
				}
				b.ob(props, "shared-access", e.Pos, false, "the value written to %s depends on one read before another receiver may have changed it", nameOf(a))
			}
		}
		switch {
		case e.Kind == "Load":
			note(e.Addr, e.Val, e)
		case reflectRead(e) != nil:
			note(reflectRead(e), e.Res[0], e)
		}
	}
}

func nameOf(a *Term) string {
	r := rootOf(a)
	if r.Note != "" {
		return r.Note
	}
	return r.String()
}

// ---- P15 ----

func (d *pipe) ruleEmpty() {
	names := append(d.filterNames(), "Limit", "Skip")
	for _, n := range names {
		rs := d.constructor(n, "P15")
		for _, r := range rs {
			for _, k := range d.ordinary {
				for _, b := range r.begin(k, nil) {
					if b.recv.Op == "closure" || b.recv.Op == "fn" {
						b.judgeEmpty()
					}
				}
			}
		}
		d.note("P15", rs)
	}
	d.R.need("P15", "empty-batch", 18)
	d.R.need("P15", "dropped", 2)
}

func (b *begun) judgeEmpty() {
	x := b.x
	at := fmt.Sprintf("in a node of kind %s", b.kind)
	pos := b.pos(b.recv)
	pred := b.name == "Every" || b.name == "NotEvery" || b.name == "Some" || b.name == "NotAny"
	// any state that earlier batches may have left
	st := x.reset(b.st)
	for _, a := range b.written() {
		t := derefType(a)
		v := x.freshOf("state", t, nil)
		st.mem[a] = v
	}
	for _, p := range b.receive(st, tNil) {
		if p.Facts.inconsistent() {
			continue
		}
		b.ob("P15", "empty-batch", pos, p.Outcome == "return", "the receiver may panic on an empty batch %s", at)
		for _, e := range flatEvents(p.Events) {
			if e.Kind == "Pure" && len(e.Args) > 0 && strings.HasPrefix(e.Name, "(reflect.Value).") || e.Kind == "Call" && strings.HasPrefix(e.Name, "(reflect.Value).") {
				t := strings.TrimPrefix(e.Name, "(reflect.Value).")
				if valueOf(e.Args[0], tNil) && t != "IsValid" && t != "Kind" {
					b.ob("P15", "empty-batch", e.Pos, false, "%s fails for a batch without data %s", e.Name, at)
				}
			}
			if e.Kind == "Pure" && (e.Name == "reflect.AppendSlice" || e.Name == "reflect.Append" || e.Name == "reflect.Indirect") {
				for _, v := range e.Args {
					if valueOf(v, tNil) {
						b.ob("P15", "empty-batch", e.Pos, false, "%s fails for a batch without data %s", e.Name, at)
					}
				}
			}
			if reflectWrite(e) != nil {
				b.ob("P15", "empty-batch", e.Pos, false, "a batch without data changes the result %s", at)
			}
			if e.Kind == "Store" && !pred {
				old := x.read(st, e.Addr, derefType(e.Addr))
				same := e.Val == old
				if isIntTerm(e.Val) || isIntType(e.Val.Typ) {
					same = p.Facts.eq(e.Val, old)
				}
				if !(isLocalRoot(rootOf(e.Addr)) && rootOf(e.Addr).ID > b.mark) {
					b.ob("P15", "empty-batch", e.Pos, same, "a batch without data changes %s %s", nameOf(e.Addr), at)
				}
			}
		}
		if p.Outcome == "return" && len(p.Ret) == 1 {
			b.ob("P15", "empty-batch", pos, p.Ret[0] == tNil || pred, "a batch without data becomes one with data %s", at)
		}
	}
	if b.node == nil {
		return
	}
	// a batch that is dropped becomes one without data
	data := newData()
	for _, p := range b.receive(st, data) {
		if p.Outcome != "return" || len(p.Ret) != 1 {
			continue
		}
		_, _, ok := passed(p.Ret[0], data)
		b.ob("P15", "dropped", pos, ok, "what is handed on is neither a part of the batch nor an empty batch")
	}
}

// ruleGiven: filters made of functions are these functions.
func (d *pipe) ruleGiven() {
	is := func(t types.Type, want types.Type) bool {
		return types.Identical(t, want) || types.Identical(t.Underlying(), want.Underlying())
	}
	for _, n := range []string{"Receive", "Finalize", "ReceiveAndFinalize", "Identity"} {
		name := "pipeline." + n
		ob := func(pos token.Pos, ok bool, f string, a ...interface{}) {
			d.R.ob("P17", "given", name, pos, ok, f, a...)
		}
		fn := d.R.P.fn("pipeline", n)
		if fn == nil {
			ob(token.NoPos, false, "the function no longer exists")
			continue
		}
		var rs []*filterRun
		if n == "Identity" {
			x := newExec(d.R.P, Config{Stable: true, Loads: true, Opaque: d.opaque})
			f := mk("fn", fn.String(), fn.Signature)
			f.Fn = fn
			rs = append(rs, &filterRun{d: d, name: n, fn: fn, x: x, st: newState(), f: f, props: "P17"})
		} else {
			rs = d.constructor(n, "P17")
		}
		for _, r := range rs {
			var recv, fin *Term
			for i, p := range fn.Params {
				if i >= len(r.params) {
					break
				}
				switch {
				case is(p.Type(), d.receiver):
					recv = r.params[i]
				case is(p.Type(), d.finalizer):
					fin = r.params[i]
				}
			}
			if r.f.Op != "closure" && r.f.Op != "fn" {
				ob(fn.Pos(), false, "what is returned is not a known function")
				continue
			}
			for _, k := range d.ordinary {
				x := r.x
				pl := fresh("pipeline", types.NewPointer(d.pipeline))
				size := fresh("size", types.NewPointer(types.Typ[types.Int]))
				for _, p := range x.callValue(x.reset(r.st), r.f, []*Term{pl, mkInt(d.kinds[k]), size}) {
					if p.Facts.inconsistent() {
						continue
					}
					if p.Outcome != "return" || len(p.Ret) != 2 {
						ob(fn.Pos(), false, "the filter may panic in a node of kind %s", k)
						continue
					}
					for _, e := range flatEvents(p.Events) {
						ob(e.Pos, e.Kind != "Call" && e.Kind != "Go" && (e.Kind != "Store" || isLocalRoot(rootOf(e.Addr))), "the filter does more than to return its functions")
					}
					for i, want := range []*Term{recv, fin} {
						what := []string{"receiver", "finalizer"}[i]
						got := p.Ret[i]
						switch {
						case want == nil:
							ob(fn.Pos(), isNilT(p.Facts, got) == 1, "a %s is returned that was not given, in a node of kind %s", what, k)
						case got == want:
							ob(fn.Pos(), true, "")
						case isNilT(p.Facts, want) == 1 && isNilT(p.Facts, got) == 1:
							ob(fn.Pos(), true, "")
						default:
							ob(fn.Pos(), isNilT(p.Facts, want) == -1 && d.calls(x, p.St, got, want, i), "the %s returned is not the one given, in a node of kind %s", what, k)
						}
					}
				}
			}
		}
		d.note("P17", rs)
	}
	d.R.need("P17", "given", 12)
}

// calls: the function got only calls the function want.
func (d *pipe) calls(x *Exec, st *State, got, want *Term, kind int) bool {
	if got.Op != "closure" && got.Op != "fn" {
		return false
	}
	var args []*Term
	if kind == 0 {
		args = []*Term{fresh("seqNo", types.Typ[types.Int]), newData()}
	}
	ps := x.callValue(x.reset(st), got, args)
	for _, p := range ps {
		if p.Facts.inconsistent() {
			continue
		}
		var c *Event
		for _, e := range flatEvents(p.Events) {
			switch {
			case e.Kind == "Call" && e.Callee == want && c == nil:
				c = e
			case e.Kind == "Load":
			default:
				return false
			}
		}
		if p.Outcome != "return" || c == nil || len(c.Args) != len(args) {
			return false
		}
		for i := range args {
			if c.Args[i] != args[i] {
				return false
			}
		}
		if kind == 0 && (len(p.Ret) != 1 || len(c.Res) != 1 || p.Ret[0] != c.Res[0]) {
			return false
		}
	}
	return len(ps) > 0
}

func (R *Report) rulesP(want string) {
	d := R.pipeInfo()
	R.group(want, "P05,P06,P08,P14", func() { d.ruleRun("P05,P06,P08,P14") })
	R.group(want, "P07", d.ruleErr)
	R.group(want, "P14", d.ruleAdd)
	for _, p := range []string{"P01", "P02", "P03", "P04", "P05", "P06", "P14"} {
		if want == "P" || want == p {
			props := p
			if want == "P" {
				props = "P01,P02,P03,P04,P05,P06,P14"
			}
			R.group(want, props, func() { d.ruleNodes(props) })
			break
		}
	}
	R.group(want, "P09", d.ruleSources)
	R.group(want, "P10", d.rulePredicates)
	R.group(want, "P11", d.ruleCollect)
	R.group(want, "P12", d.ruleBorder)
	R.group(want, "P13", d.ruleParallel)
	R.group(want, "P17", d.ruleGiven)
	R.group(want, "P15", d.ruleEmpty)
}
