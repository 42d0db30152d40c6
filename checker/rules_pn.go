package main

// The nodes of a pipeline (P01 - P06, P14): every kind of node that the
// constructors, merging and the conversions of a run can produce is begun, fed
// and ended, and its goroutines are followed batch by batch.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// slots are the fields of a node that hold filters, receivers and finalizers.
type fieldPath struct {
	v   *types.Var
	at  func(base *Term) *Term
	typ types.Type
}

// nodeFields lists the fields of a node, those of nested structs included.
func (d *pipe) nodeFields(n *types.Named) []fieldPath {
	var out []fieldPath
	var add func(s *types.Struct, at func(*Term) *Term)
	add = func(s *types.Struct, at func(*Term) *Term) {
		for i := 0; i < s.NumFields(); i++ {
			i := i
			v := s.Field(i)
			here := func(b *Term) *Term { return mkField(at(b), s, i) }
			out = append(out, fieldPath{v, here, v.Type()})
			if m, ok := v.Type().(*types.Named); ok && m.Obj().Pkg() != nil && d.R.P.inModule(m.Obj().Pkg()) {
				if t, ok := m.Underlying().(*types.Struct); ok {
					add(t, here)
				}
			} else if t, ok := v.Type().(*types.Struct); ok {
				add(t, here)
			}
		}
	}
	if s, ok := n.Underlying().(*types.Struct); ok {
		add(s, func(b *Term) *Term { return b })
	}
	return out
}

func sliceOf(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func isBasic(t types.Type) bool {
	_, ok := t.Underlying().(*types.Basic)
	return ok
}

// slotOf says what a field holds: a filter, receiver or finalizer slice.
func (d *pipe) slotOf(v *types.Var) types.Type {
	e := sliceOf(v.Type())
	for _, t := range []types.Type{d.filter, d.receiver, d.finalizer} {
		if e != nil && types.Identical(e, t) {
			return t
		}
	}
	return nil
}

// nodeCfg is one way a node can be configured, and what was promised for it.
type nodeCfg struct {
	named  *types.Named
	from   string
	fields map[*types.Var]*Term // values of the basic fields
	conv   map[*types.Var]*Term // changed after Begin
	facts  *Facts
	order  int     // 2: processed in encounter order, 1: handed on in encounter order
	bounds []*Term // at most so many batches at a time
	limits bool    // or at most a number that the node chooses
	merged bool
	pos    token.Pos
}

func (c *nodeCfg) construct() string { return "pipeline." + c.named.Obj().Name() + " (" + c.from + ")" }

func (c *nodeCfg) key() string {
	var parts []string
	for v, t := range c.fields {
		s := "sym"
		if _, ok := intVal(t); ok || t == tTrue || t == tFalse {
			s = t.String()
		}
		parts = append(parts, v.Name()+"="+s)
	}
	for v, t := range c.conv {
		parts = append(parts, v.Name()+"->"+t.String())
	}
	sort.Strings(parts)
	one := false
	for _, b := range c.bounds {
		if n, ok := intVal(b); ok && n == 1 {
			one = true
		}
	}
	n := len(c.bounds)
	if n > 2 {
		n = 2
	}
	return fmt.Sprint(c.named, parts, c.order, one, n, c.limits)
}

// nodeCfgs lists the configurations that the constructors make.
func (d *pipe) nodeCfgs(props string) []*nodeCfg {
	one := []*Term{mkInt(1)}
	type spec struct {
		name  string
		kind  string
		order int
		bound []*Term
	}
	specs := []spec{
		{"Ord", "", 2, one}, {"Seq", "", 0, one}, {"Par", "", 0, nil}, {"StrictOrd", "", 2, one}, {"LimitedPar", "", 0, nil},
		{"NewNode", "Ordered", 2, one}, {"NewNode", "Sequential", 0, one}, {"NewNode", "Parallel", 0, nil},
	}
	var out []*nodeCfg
	for _, s := range specs {
		fn := d.R.P.fn("pipeline", s.name)
		if fn == nil {
			d.R.ob(props, "anchor", "pipeline."+s.name, token.NoPos, false, "the function no longer exists")
			continue
		}
		from := s.name
		x := newExec(d.R.P, Config{Stable: true})
		var ps []*Term
		var limit *Term
		for _, p := range fn.Params {
			t := x.freshOf(p.Name(), p.Type(), nil)
			if types.Identical(p.Type(), d.kind) && s.kind != "" {
				t = mkInt(d.kinds[s.kind])
				from = "NewNode " + s.kind
			} else if isIntType(p.Type()) {
				limit = t
			}
			ps = append(ps, t)
		}
		for _, p := range x.runFunc(newState(), fn, ps, nil) {
			if p.Facts.inconsistent() {
				continue
			}
			c := d.cfgOf(x, p)
			if !d.R.ob(props, "constructed", "pipeline."+s.name, fn.Pos(), c != nil, "it is not clear which node is made") {
				continue
			}
			c.from, c.pos, c.order, c.bounds = from, fn.Pos(), s.order, s.bound
			d.R.ob(d.only(props, "P01"), "given-filters", "pipeline."+s.name, fn.Pos(), d.givenFilters(x, p, ps), "the node does not get exactly the filters that were given")
			if limit != nil && c.facts.entailsGe(linOf(limit).addc(-1)) {
				c.bounds = []*Term{limit}
			} else if limit != nil && !c.facts.entailsGe(linOf(limit).neg()) {
				d.R.ob(props, "constructed", "pipeline."+s.name, fn.Pos(), false, "limits below one are not told apart from others")
			} else if limit != nil {
				c.limits = true
			}
			out = append(out, c)
		}
		d.R.coveredExec(props, "pipeline."+s.name, fn.Pos(), x, x.paths)
	}
	return out
}

// cfgOf reads the node that a path returns.
func (d *pipe) cfgOf(x *Exec, p *Path) *nodeCfg {
	if p.Outcome != "return" || len(p.Ret) != 1 || p.Ret[0].Op != "iface" || p.Ret[0].Ev == nil {
		return nil
	}
	pt, ok := p.Ret[0].Ev.Type.(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok {
		return nil
	}
	c := &nodeCfg{named: n, fields: map[*types.Var]*Term{}, conv: map[*types.Var]*Term{}, facts: p.Facts}
	for _, f := range d.nodeFields(n) {
		if v := x.read(p.St, f.at(p.Ret[0].Args[0]), f.typ); isBasic(f.typ) || madeAlong(v) {
			c.fields[f.v] = v
		}
	}
	return c
}

// givenFilters: the node that the path returns holds the filters among the
// parameters, and neither receivers nor finalizers.
func (d *pipe) givenFilters(x *Exec, p *Path, ps []*Term) bool {
	var given *Term
	for _, t := range ps {
		if e := sliceOf(t.Typ); e != nil && types.Identical(e, d.filter) {
			given = t
		}
	}
	n := p.Ret[0].Ev.Type.(*types.Pointer).Elem().(*types.Named)
	ok := false
	for _, f := range d.nodeFields(n) {
		sl := d.slotOf(f.v)
		if sl == nil {
			continue
		}
		v := x.read(p.St, f.at(p.Ret[0].Args[0]), f.typ)
		none := v == tNil || isEmptySlice(v)
		if !types.Identical(sl, d.filter) {
			if !none {
				return false
			}
			continue
		}
		if given != nil && !none {
			copied := v.Op == "append" && len(v.Args) == 2 && (isEmptySlice(v.Args[0]) || v.Args[0] == tNil) && wholeOf(p.Facts, v.Args[1], given)
			for _, e := range p.Events {
				if e.Kind == "Copy" && len(e.Args) == 2 && e.Args[0] == v && wholeOf(p.Facts, e.Args[1], given) {
					copied = p.Facts.entailsEq(linOf(mkLen(v)).sub(linOf(mkLen(given))))
				}
			}
			if !copied && !wholeOf(p.Facts, v, given) && !d.appendedOneByOne(x, p, v, tNil, given) {
				return false
			}
			ok = true
		}
	}
	return ok || given != nil && p.Facts.entailsGe(linOf(mkLen(given)).neg())
}

// mergedCfgs adds what TryMerge can make of two nodes (P14).
func (d *pipe) mergedCfgs(props string, cfgs []*nodeCfg) []*nodeCfg {
	others := d.nodeCfgs("")
	seen := map[string]bool{}
	all := append([]*nodeCfg(nil), cfgs...)
	for _, c := range cfgs {
		seen[c.key()] = true
	}
	type pair struct{ a, b string }
	done := map[pair]bool{}
	for i := 0; i < len(all) && len(all) < 60; i++ {
		a := all[i]
		for _, b := range others {
			k := pair{a.key(), b.key()}
			if done[k] {
				continue
			}
			done[k] = true
			for _, m := range d.tryMerge(props, a, b) {
				if !seen[m.key()] {
					seen[m.key()] = true
					all = append(all, m)
				}
			}
		}
	}
	return all
}

func joinFacts(a, b *Facts) *Facts {
	f := a
	for _, l := range b.ge {
		f = f.withGe(l)
	}
	for _, l := range b.ne {
		f = f.withNe(l)
	}
	for t, v := range b.bools {
		f = f.withBool(t, v)
	}
	return f
}

func (d *pipe) tryMerge(props string, a, b *nodeCfg) []*nodeCfg {
	m := d.R.P.methodOf(types.NewPointer(a.named), "TryMerge")
	if m == nil {
		d.R.ob(props, "anchor", a.construct(), a.pos, false, "the node has no method TryMerge")
		return nil
	}
	x := newExec(d.R.P, Config{Loads: true, Keep: func(v *types.Var) bool { return true }})
	na := mk("cell", fresh("cell:node", nil).Aux, types.NewPointer(a.named))
	nb := mk("cell", fresh("cell:next", nil).Aux, types.NewPointer(b.named))
	st := newState()
	st.facts = joinFacts(a.facts, b.facts)
	set := func(n *Term, c *nodeCfg) {
		for _, f := range d.nodeFields(c.named) {
			if v := c.fields[f.v]; v != nil {
				x.write(st, f.at(n), v, f.typ)
			}
			if sl := d.slotOf(f.v); sl != nil {
				x.write(st, f.at(n), x.freshOf(f.v.Name(), f.typ, nil), f.typ)
			}
		}
	}
	set(na, a)
	set(nb, b)
	ob := func(pos token.Pos, ok bool, f string, v ...interface{}) bool {
		return d.R.ob(d.only(props, "P14"), "merge", a.construct()+" with "+b.construct(), pos, ok, f, v...)
	}
	arg := mk("iface", typeKey(nb.Typ), d.node, nb)
	if arg.Ev == nil {
		arg.Ev = &Event{Kind: "Type", Type: nb.Typ}
	}
	var out []*nodeCfg
	for _, p := range x.runFunc(st, m, []*Term{na, arg}, nil) {
		if p.Facts.inconsistent() {
			continue
		}
		if !ob(m.Pos(), p.Outcome == "return" && len(p.Ret) == 1 && p.Facts.truth(p.Ret[0]) != 0, "merging may panic or have an unknown outcome") {
			continue
		}
		if p.Facts.truth(p.Ret[0]) == -1 {
			for _, e := range flatEvents(p.Events) {
				if e.Kind == "Store" && (rootOf(e.Addr) == na || rootOf(e.Addr) == nb) {
					ob(e.Pos, x.read(p.St, e.Addr, derefType(e.Addr)) == x.read(st, e.Addr, derefType(e.Addr)), "a node is changed although merging is refused")
				}
			}
			continue
		}
		c := &nodeCfg{named: a.named, from: a.from + "+" + b.from, fields: map[*types.Var]*Term{}, conv: map[*types.Var]*Term{}, facts: p.Facts, merged: true, pos: m.Pos(), order: a.order, limits: a.limits || b.limits, bounds: append(append([]*Term(nil), a.bounds...), b.bounds...)}
		if len(c.from) > 40 {
			c.from = "merged"
		}
		if b.order > c.order {
			c.order = b.order
		}
		for _, f := range d.nodeFields(a.named) {
			end := x.read(p.St, f.at(na), f.typ)
			if isBasic(f.typ) || madeAlong(end) {
				c.fields[f.v] = end
			}
			sl := d.slotOf(f.v)
			if sl == nil {
				continue
			}
			own := x.read(st, f.at(na), f.typ)
			var other *Term
			for _, g := range d.nodeFields(b.named) {
				if s := d.slotOf(g.v); s != nil && types.Identical(s, sl) {
					other = x.read(st, g.at(nb), g.typ)
				}
			}
			if !ob(m.Pos(), other != nil, "the merged node has nowhere its %s come from", f.v.Name()) {
				continue
			}
			none := p.Facts.entailsGe(linOf(mkLen(other)).neg())
			ok := end.Op == "append" && len(end.Args) == 2 && end.Args[0] == own && wholeOf(p.Facts, end.Args[1], other) || none && end == own ||
				d.appendedOneByOne(x, p, end, own, other)
			ob(m.Pos(), ok, "after merging, the %s are not those of the first node followed by those of the second", f.v.Name())
		}
		out = append(out, c)
	}
	return out
}

// wholeOf: t is the slice sl, or all of it.
func wholeOf(f *Facts, t, sl *Term) bool {
	return t == sl || sliceIs(f, t, sl, mkInt(0), mkLen(sl))
}

// appendedOneByOne: a loop appends the elements of other to own.
func (d *pipe) appendedOneByOne(x *Exec, p *Path, end, own, other *Term) bool {
	for _, e := range p.Events {
		if e.Kind != "Loop" {
			continue
		}
		for _, v := range e.Loop.Vars {
			if v.Head != end || v.Init != own {
				continue
			}
			ok := len(e.Loop.Conts) > 0
			var j *Term
			for i, c := range e.Loop.Conts {
				n := v.Nexts[i]
				if n.Op != "append" || len(n.Args) != 2 || n.Args[0] != v.Head {
					return false
				}
				l, lit := x.literal(c.St, n.Args[1])
				if !lit || len(l) != 1 {
					return false
				}
				j = elemIn(l[0], other)
				ok = ok && j != nil && c.Facts.entailsEq(x.atInit(linOf(j), e.Loop.Vars, e.Loop.K)) && c.Facts.entailsEq(x.shift(linOf(j), e.Loop.Vars, i, e.Loop.K).sub(linOf(j).addc(1)))
			}
			return ok && p.Facts.entailsGe(linOf(j).sub(linOf(mkLen(other))))
		}
	}
	return false
}

// only keeps the properties of a list that are also wanted.
func (d *pipe) only(props, of string) string {
	var out []string
	for _, p := range strings.Split(of, ",") {
		if strings.Contains(","+props+",", ","+p+",") {
			out = append(out, p)
		}
	}
	return strings.Join(out, ",")
}

// conversion is a field that a run changes in nodes before a strictly ordered one.
type conversion struct {
	ptr types.Type
	v   *types.Var
	val *Term
	pos token.Pos
}

func (d *pipe) conversions() []conversion {
	if d.convDone {
		return d.convs
	}
	d.convDone = true
	fn := d.R.P.method("pipeline", "Pipeline", "RunWithContext")
	if fn == nil {
		return nil
	}
	A := d.runAnalysis(fn)
	for _, p := range A.Entry.Paths {
		for _, e := range flatEvents(p.Events) {
			if e.Kind != "Store" || e.Addr.Op != "field" || rootOf(e.Addr).Op != "assert" {
				continue
			}
			r := rootOf(e.Addr)
			c := conversion{nil, fieldVars[e.Addr], e.Val, e.Pos}
			for _, t := range d.nodeTypes() {
				if r.Aux == typeKey(t.ptr) {
					c.ptr = t.ptr
				}
			}
			dup := c.ptr == nil
			for _, o := range d.convs {
				dup = dup || o.ptr == c.ptr && o.v == c.v && o.val == c.val
			}
			if !dup {
				d.convs = append(d.convs, c)
			}
		}
	}
	return d.convs
}

// converted lists the nodes that conversions make of the given ones.
func (d *pipe) converted(cfgs []*nodeCfg) []*nodeCfg {
	var out []*nodeCfg
	seen := map[string]bool{}
	for _, c := range cfgs {
		n := *c
		n.conv = map[*types.Var]*Term{}
		for _, k := range d.conversions() {
			if types.Identical(k.ptr, types.NewPointer(c.named)) {
				n.conv[k.v] = k.val
			}
		}
		if len(n.conv) == 0 {
			continue
		}
		n.from += ", converted"
		if n.order < 1 {
			n.order = 1
		}
		if !seen[n.key()] {
			seen[n.key()] = true
			out = append(out, &n)
		}
	}
	return out
}

// ---- one configuration ----

type nodeRun struct {
	d     *pipe
	c     *nodeCfg
	x     *Exec
	props string
	node  *Term
	pl    *Term
	ctx   *Term
	state map[*types.Var]bool // fields that change while batches are fed
	priv  map[*types.Var]bool // of these, fields only the goroutines use
	out   []finding
	// what Feed does
	chans            map[*Term]bool // channels Feed sends to
	roles            map[int]string // fields of what it sends
	whole            string         // or what it sends itself is
	turn             *types.Var     // the field that says whose turn it is
	lock             *Term
	waits            map[*Term]bool // condition variables Feed waits for
	turns            bool           // every batch is sent in turn
	sends            int
	feedGo           bool
	nodes            *Term // the nodes of the pipeline once batches are fed
	recvs            *Term // receivers once batches are fed
	fins             *Term
	path             *Path
	workers          *Lin
	feeding          bool
	index            *Term
	seq              *Term
	data             *Term
	wg               *Term
	filters          *Term
	phase            map[*types.Var]bool
	inWorker         bool
	unturned         bool
	needExp          bool
	lastKey          *Lin
	beginIndex, size *Term
	allStash         map[*Term]map[int]string
}

func (r *nodeRun) ob(prop, rule string, pos token.Pos, ok bool, format string, a ...interface{}) bool {
	for _, id := range r.alsoProps(prop, rule) {
		if !ok || strings.Contains(","+r.props+",", ","+id+",") {
			r.out = append(r.out, finding{id, rule, pos, ok, fmt.Sprintf(format, a...)})
		}
	}
	return ok
}

// alsoProps lists the properties that an obligation belongs to.
func (r *nodeRun) alsoProps(prop, rule string) []string {
	out := []string{prop}
	if rule == "kept-until-turn" || rule == "next-in-order" {
		out = append(out, "P01")
	}
	if r.c.merged && (prop == "P02" || prop == "P03") {
		out = append(out, "P14")
	}
	return out
}

// keep: which fields does nobody else change?
func (r *nodeRun) keep(v *types.Var) bool {
	if r.state[v] && !r.priv[v] {
		return false
	}
	if v.Pkg() != nil && v.Pkg().Path() == "sync" {
		return true
	}
	if r.d.keepPipeline(v) {
		return true
	}
	for _, f := range r.d.nodeFields(r.c.named) {
		if f.v == v {
			return true
		}
	}
	return false
}

// fresher forgets what may change between Begin and the first batch.
func (r *nodeRun) fresher(st *State) {
	forget := func(a *Term, v *types.Var, typ types.Type) {
		delete(st.mem, a)
		st.mem[a] = r.x.freshOf(v.Name(), typ, nil)
	}
	for _, f := range r.d.nodeFields(r.c.named) {
		a := f.at(r.node)
		if sl := r.d.slotOf(f.v); sl != nil {
			forget(a, f.v, f.typ)
			switch {
			case types.Identical(sl, r.d.receiver):
				if r.recvs == nil {
					r.recvs = st.mem[a]
				}
				st.mem[a] = r.recvs
			case types.Identical(sl, r.d.finalizer):
				if r.fins == nil {
					r.fins = st.mem[a]
				}
				st.mem[a] = r.fins
			}
		}
		if v := r.c.conv[f.v]; v != nil {
			st.mem[a] = v
		}
	}
	s := r.d.pipeline.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		v := s.Field(i)
		if e := sliceOf(v.Type()); e != nil && types.Identical(e, r.d.node) {
			if r.nodes == nil {
				r.nodes = r.x.freshOf("nodes", v.Type(), nil)
			}
			st.mem[mkField(r.pl, s, i)] = r.nodes
		}
	}
}

// batch is a batch of data on its way.
type batch struct {
	index     []*Term // all of these denote the node
	seq, data *Term
}

type got struct {
	key     *Lin
	val, ok *Term
}

type nodeState struct {
	cur      *batch // in hand, not yet processed
	curOK    *Term  // it is one only if this holds
	fwd      *batch // processed, not yet handed on
	idx      []*Term
	ctx      bool // cancellation was looked for since the last batch
	done     bool // the pipeline is cancelled
	closed   bool
	recvOK   []*Term
	recvd    bool
	exp      *Lin
	clean    bool // no batch is kept that could be processed now
	gots     []got
	turnV    *Term // the turn, as seen in the current critical section
	turnF    *types.Var
	turnLock *Term
	lastTurn *Term // the turn as last seen
	noDone   bool  // the pipeline was not cancelled, as seen in the current section
	incs     int   // turns taken since the last batch was received
	owed     bool  // the turn was not announced yet
	dones    int
	adds     *Lin
	sent     int
	locked   map[*Term]bool // acquired since the cancellation was seen
	told     map[*Term]bool // broadcasts after that
	starts   int
	closes   int
	wait     bool // the goroutines were waited for
	fin      bool
	dead     bool // this cannot happen
}

func (s *nodeState) clone() *nodeState {
	t := *s
	t.idx = append([]*Term(nil), s.idx...)
	t.gots = append([]got(nil), s.gots...)
	t.recvOK = append([]*Term(nil), s.recvOK...)
	t.locked = map[*Term]bool{}
	for k := range s.locked {
		t.locked[k] = true
	}
	t.told = map[*Term]bool{}
	for k := range s.told {
		t.told[k] = true
	}
	return &t
}

// settle takes note of what the branches taken since say.
func (r *nodeRun) settle(s *nodeState, f *Facts) {
	if s.curOK != nil {
		switch f.truth(s.curOK) {
		case 1:
			s.curOK = nil
		case -1:
			s.cur, s.curOK, s.closed = nil, nil, true
			s.incs = 1
		}
	}
	if s.cur != nil && s.curOK == nil && s.fwd == nil && r.recvs != nil && f.entailsGe(linOf(mkLen(r.recvs)).neg()) && r.last(s.cur, f) {
		s.cur = nil // nothing to do and nobody to tell
	}
	if s.fwd != nil && r.last(s.fwd, f) {
		s.fwd = nil
	}
	if !s.clean && s.exp != nil {
		for _, g := range s.gots {
			if f.entailsEq(g.key.sub(s.exp)) && f.truth(g.ok) == -1 {
				s.clean = true
			}
		}
	}
}

// last: no node follows.
func (r *nodeRun) last(b *batch, f *Facts) bool {
	for _, i := range b.index {
		if r.nodes != nil && f.entailsGe(linOf(i).addc(1).sub(linOf(mkLen(r.nodes)))) {
			return true
		}
	}
	return false
}

// doneOf is the context that a channel is the Done channel of.
func doneOf(ch *Term) *Term {
	if ch != nil && ch.Op == "pure" && ch.Aux == "(context.Context).Done" && len(ch.Args) == 1 {
		return ch.Args[0]
	}
	return nil
}

func (r *nodeRun) isDone(ch *Term) bool {
	c := doneOf(ch)
	return c != nil && r.isCtx(c)
}

func (r *nodeRun) isCtx(c *Term) bool {
	if c == nil {
		return false
	}
	if c.Op == "load" {
		v := fieldVars[c.Args[0]]
		return v != nil && fieldOfP(c.Args[0], r.pl) == v
	}
	return c.Ev != nil && c.Ev.Kind == "Call" && c.Ev.Static != nil && c.Ev.Static.Name() == "Context" && recvNamed(c.Ev.Static) == r.d.pipeline
}

func (r *nodeRun) walk(es []*Event, s *nodeState) *nodeState {
	for i, e := range es {
		if s.dead = s.dead || r.infeasible(s, e.Facts); s.dead {
			return s
		}
		r.settle(s, e.Facts)
		if e.Kind == "Loop" {
			after := r.path.Facts
			if i+1 < len(es) {
				after = es[i+1].Facts
			}
			s = r.loop(e, s, after)
			continue
		}
		r.event(e, s)
	}
	s.dead = s.dead || r.infeasible(s, r.path.Facts)
	r.settle(s, r.path.Facts)
	return s
}

// infeasible: all batches of a node have the same index.
func (r *nodeRun) infeasible(s *nodeState, f *Facts) bool {
	if r.nodes == nil || len(s.idx) < 2 {
		return false
	}
	last, more := false, false
	for _, i := range s.idx {
		n := linOf(mkLen(r.nodes)).sub(linOf(i)).addc(-2) // not negative if a node follows
		last = last || f.entailsGe(n.neg().addc(-1))
		more = more || f.entailsGe(n)
	}
	return last && more
}

func (r *nodeRun) isReceiver(e *Event) bool {
	return e.Kind == "Call" && e.Static == nil && e.Callee != nil && e.Callee.Typ != nil && types.Identical(e.Callee.Typ, r.d.receiver)
}

func (r *nodeRun) isFinalizer(e *Event) bool {
	return e.Kind == "Call" && e.Static == nil && e.Callee != nil && e.Callee.Typ != nil && types.Identical(e.Callee.Typ, r.d.finalizer)
}

// latProp: what a field that changes late is needed for.
func (r *nodeRun) latProp(v *types.Var) string {
	if r.d.slotOf(v) != nil {
		return "P14"
	}
	return "P05"
}

// hold: the critical section ends or begins.
func (s *nodeState) section() { s.turnV, s.noDone = nil, false }

func (r *nodeRun) event(e *Event, s *nodeState) {
	f := e.Facts
	switch e.Kind {
	case "Load":
		if v := fieldVars[e.Addr]; v != nil && rootOf(e.Addr) == r.node {
			if r.inWorker && !s.recvd && r.phase[v] {
				r.ob(r.latProp(v), "read-late", e.Pos, false, "a goroutine reads %s before it receives a batch, when merging or a strictly ordered node may still change it", v.Name())
			}
			if r.state[v] && isIntType(v.Type()) && len(e.Locks) > 0 {
				s.turnV, s.turnF, s.lastTurn, s.turnLock = e.Val, v, e.Val, nil
				for l, n := range e.Locks {
					if n >= 1000 && (s.turnLock == nil || l == r.lock) {
						s.turnLock = l
					}
				}
			}
		}
	case "Store":
		v := fieldVars[e.Addr]
		if v == nil || rootOf(e.Addr) != r.node {
			return
		}
		if r.turn == v && r.turns {
			ok := !r.feeding && r.inWorker && r.lock != nil && e.Locks[r.lock] >= 1000 && s.turnV != nil && f.entailsEq(linOf(e.Val).sub(linOf(s.turnV)).addc(-1))
			r.ob("P02", "turn", e.Pos, ok, "the turn is not advanced by one, in a critical section of its own lock, by the goroutine that received the batch")
			s.incs++
			s.owed = true
			s.turnV = e.Val
		}
		if r.inWorker && r.phase[v] {
			r.ob(r.latProp(v), "read-late", e.Pos, false, "a goroutine changes %s", v.Name())
		}
	case "Select":
		r.selectEv(e, s)
	case "Recv", "Send":
		r.ob("P04", "can-be-cancelled", e.Pos, false, "a goroutine may block here forever when the pipeline is cancelled")
		if e.Kind == "Send" {
			r.send(e.Addr, e.Val, e, s)
		} else if len(e.Res) == 2 {
			r.receive(e.Addr, e.Res[0], e.Res[1], e, s)
		}
	case "Lock", "RLock":
		s.section()
		if s.done {
			s.locked[e.Addr] = true
		}
	case "Unlock", "RUnlock":
		s.section()
	case "CondWait":
		r.ob("P04", "wait-checked", e.Pos, s.noDone, "a goroutine waits without having checked, since it has the lock, that the pipeline is not cancelled: it may miss the wake-up")
		own := r.condLock(e)
		r.ob("P04", "wait-checked", e.Pos, own != nil && e.Locks[own] >= 1000, "the lock of the condition variable is not held")
		if r.feeding {
			r.waits[e.Addr] = true
			if r.lock == nil {
				r.lock = own
			}
			later := s.turnV != nil && f.truth(mkEq0(linOf(s.turnV).sub(linOf(r.seq)))) == -1
			r.ob("P05", "wait-for-turn", e.Pos, later, "a feeder waits although it may be its turn")
			r.ob("P05", "wait-for-turn", e.Pos, own == r.lock, "feeders wait with different locks")
		} else {
			r.ob("P05", "wait-for-turn", e.Pos, false, "a goroutine that processes batches waits for a condition")
		}
		s.section()
	case "CondBroadcast":
		s.owed = false
		if s.done {
			for l := range s.locked {
				if l == r.lock {
					s.told[e.Addr] = true
				}
			}
		}
	case "Race":
		r.ob("P02", "race-free", e.Pos, false, "a variable shared by the node's goroutines is accessed without synchronisation (see %s)", e.Name)
	case "WgAdd":
		if r.wg == nil {
			r.wg = e.Addr
		}
		if s.adds == nil {
			s.adds = linConst(0)
		}
		s.adds = s.adds.add(linOf(e.Val))
		r.ob("P06", "counted", e.Pos, e.Addr == r.wg, "several wait groups are used")
		r.ob("P06", "counted", e.Pos, !r.inWorker, "a goroutine raises the wait group itself, when the node may already be waiting")
	case "WgDone":
		s.dones++
		r.ob("P06", "counted", e.Pos, r.wg == nil || e.Addr == r.wg, "another wait group is counted down")
	case "Go":
		r.goEvent(e, s)
	case "MapSet":
		r.mapSet(e, s)
	case "MapGet":
		if len(e.Res) == 2 && isIntTerm(e.Args[0]) {
			s.gots = append(s.gots, got{linOf(e.Args[0]), e.Res[0], e.Res[1]})
		}
	case "Call":
		switch {
		case r.isReceiver(e):
			r.ob("P01", "all-receivers", e.Pos, false, "a receiver is called outside of a pass through all receivers")
		case r.isFinalizer(e):
			r.ob("P06", "finalize", e.Pos, false, "a finalizer is called outside of a pass through all finalizers")
		case ifaceCall(e, "Node") == "Feed":
			r.forward(e, s)
		case e.Name == "(context.Context).Err" && r.isCtx(e.Callee) && len(e.Res) == 1:
			switch isNilT(r.path.Facts, e.Res[0]) {
			case 1:
				s.ctx, s.noDone = true, true
			case -1:
				s.done = true
			}
		}
	}
}

// condLock: the lock is the mutex that the condition variable was made with.
func (r *nodeRun) condLock(e *Event) *Term {
	if l := condLocks[e.Addr]; l != nil {
		return l.Args[0]
	}
	return nil
}

// madeAlong: t is a condition variable or a channel made with the node.
func madeAlong(t *Term) bool { return t.Op == "chan" || condLocks[t] != nil }

func (r *nodeRun) selectEv(e *Event, s *nodeState) {
	offered := false
	for i, c := range e.Cases {
		if !c.Send && r.isDone(c.Chan) {
			offered = true
			if e.Chosen == i {
				s.done = true
			}
		}
	}
	r.ob("P04", "can-be-cancelled", e.Pos, offered || e.Dflt, "a goroutine may block here forever when the pipeline is cancelled")
	if s.done {
		return
	}
	if offered {
		s.ctx = true
		if e.Dflt && e.Chosen == -1 {
			s.noDone = true
		}
	}
	if e.Chosen < 0 {
		return
	}
	c := e.Cases[e.Chosen]
	switch {
	case c.Send:
		r.send(c.Chan, c.Val, e, s)
	case len(e.Res) == 2:
		r.receive(c.Chan, e.Res[0], e.Res[1], e, s)
	}
}

// send: a batch is sent to the node's goroutines.
func (r *nodeRun) send(ch, val *Term, e *Event, s *nodeState) {
	if !r.feeding {
		r.ob("P01", "fed-once", e.Pos, !r.chans[ch], "a batch is sent by a goroutine of the node itself")
		return
	}
	r.chans[ch] = true
	roles := map[int]string{}
	if val.Op == "struct" {
		for i, a := range val.Args {
			for n, t := range map[string]*Term{"index": r.index, "seq": r.seq, "data": r.data} {
				if a == t {
					roles[i] = n
				}
			}
		}
	}
	r.ob("P01", "fed-in-full", e.Pos, madeAlong(ch), "a batch is sent to a channel that was not made before: it is never received")
	ok := len(roles) == 3 && roles[0] != roles[1] && roles[0] != roles[2] && roles[1] != roles[2] || len(roles) == 3 && len(val.Args) > 3
	if r.roles != nil && ok {
		ok = len(r.roles) == len(roles)
		for k, v := range roles {
			ok = ok && r.roles[k] == v
		}
	}
	if r.ob("P01", "fed-in-full", e.Pos, ok, "what is sent to the node's goroutines is not the batch with its index and sequence number") && r.roles == nil {
		r.roles = roles
	}
	r.ob("P01", "fed-once", e.Pos, s.cur != nil, "a batch is sent twice")
	s.cur = nil
	s.sent++
	r.sends++
	turned := false
	if s.lastTurn != nil && e.Facts.eq(s.lastTurn, r.seq) {
		// only the goroutine that receives this batch can take the next turn,
		// so the lock may have been released since
		if r.lock == nil {
			r.lock = s.turnLock
		}
		turned = r.lock != nil && r.lock == s.turnLock && (r.turn == nil || r.turn == s.turnF)
		if turned {
			r.turn = s.turnF
		}
	}
	if !turned {
		r.unturned = true
	}
}

func (r *nodeRun) receive(ch, val, ok *Term, e *Event, s *nodeState) {
	if !r.chans[ch] {
		return
	}
	r.idle(s, e.Pos)
	s.recvd = true
	b := &batch{}
	if val.Op == "struct" {
		for i, a := range val.Args {
			switch r.roles[i] {
			case "index":
				b.index = []*Term{a}
				s.idx = append(s.idx, a)
			case "seq":
				b.seq = a
			case "data":
				b.data = a
			}
		}
	}
	if b.seq == nil || b.data == nil {
		return // reported by send
	}
	s.cur, s.curOK = b, ok
	s.incs, s.owed = 0, false
}

// idle: before the next batch is received nothing is left to do.
func (r *nodeRun) idle(s *nodeState, pos token.Pos) {
	r.ob("P01", "processed-once", pos, s.cur == nil, "a batch is neither processed nor kept")
	r.ob("P01", "forwarded", pos, s.fwd == nil, "the result of a batch is not handed on to the following node")
	if r.turns {
		r.ob("P02", "turn", pos, s.incs == 1, "the turn is advanced %d times for a batch", s.incs)
		r.ob("P05", "announce", pos, !s.owed, "the next turn is not announced to all feeders")
	}
	if r.needExp {
		r.ob(r.orderProp(), "kept-until-turn", pos, s.clean, "a batch that was kept until its turn may never be processed")
	}
}

func (r *nodeRun) orderProp() string {
	if len(r.c.conv) > 0 {
		return "P05"
	}
	return "P02"
}

func (r *nodeRun) mapSet(e *Event, s *nodeState) {
	f := e.Facts
	if s.cur == nil || s.curOK != nil {
		return
	}
	roles := map[int]string{}
	if e.Val == s.cur.data {
		roles[-1] = "data"
	} else if e.Val.Op == "struct" {
		for i, a := range e.Val.Args {
			switch {
			case a == s.cur.data:
				roles[i] = "data"
			case a == s.cur.seq:
				roles[i] = "seq"
			case len(s.cur.index) > 0 && a == s.cur.index[0]:
				roles[i] = "index"
			}
		}
	}
	data := false
	for _, n := range roles {
		data = data || n == "data"
	}
	ok := data && isIntTerm(e.Args[0]) && f.eq(e.Args[0], s.cur.seq)
	if !r.ob("P01", "kept-whole", e.Pos, ok, "a batch is not kept under its own sequence number") {
		return
	}
	r.allStash[e.Addr] = roles
	var gs []got
	for _, g := range s.gots {
		if f.truth(mkEq0(g.key.sub(linOf(e.Args[0])))) == -1 {
			gs = append(gs, g)
		}
	}
	s.gots = gs
	if s.exp == nil || f.truth(mkEq0(linOf(s.cur.seq).sub(s.exp))) != -1 {
		s.clean = false
	}
	s.cur = nil
}

// take finds the batch that is processed.
func (r *nodeRun) take(seq, data *Term, s *nodeState, f *Facts) *batch {
	if c := s.cur; c != nil && s.curOK == nil && data == c.data && f.eq(seq, c.seq) {
		s.cur = nil
		return c
	}
	for i, g := range s.gots {
		if f.truth(g.ok) != 1 {
			continue
		}
		roles := r.stashRoles()
		b := &batch{seq: seq, data: data, index: append([]*Term(nil), s.idx...)}
		hit, same := g.val == data, f.entailsEq(linOf(seq).sub(g.key))
		for j, n := range roles {
			if j < 0 {
				continue
			}
			if isFieldOf(data, g.val, j) && n == "data" {
				hit = true
			}
			if isFieldOf(seq, g.val, j) && n == "seq" {
				same = true
			}
			if n == "index" {
				t := fieldOf(g.val, j, types.Typ[types.Int])
				b.index = append(b.index, t)
				s.idx = append(s.idx, t)
			}
		}
		if hit && same {
			b.seq = seq
			s.gots = append(append([]got(nil), s.gots[:i]...), s.gots[i+1:]...)
			r.lastKey = g.key
			return b
		}
	}
	return nil
}

func isFieldOf(t, v *Term, j int) bool {
	if v.Op == "struct" {
		return j < len(v.Args) && v.Args[j] == t
	}
	return t.Op == "fieldof" && t.Args[0] == v && t.Aux == fmt.Sprint(j)
}

func (r *nodeRun) stashRoles() map[int]string {
	out := map[int]string{}
	for _, m := range r.allStash {
		for k, v := range m {
			out[k] = v
		}
	}
	return out
}

// processed: the checks at the point where a batch is passed to the receivers.
func (r *nodeRun) processed(b *batch, e *Event, s *nodeState) {
	f := e.Facts
	r.ob("P04", "stops", e.Pos, s.ctx && !s.done, "a batch is processed without looking whether the pipeline is cancelled")
	s.ctx = false
	r.ob("P05", "unlocked", e.Pos, len(e.Locks) == 0, "a lock is held while a batch is processed")
	r.ob("P06", "counted", e.Pos, s.dones == 0, "a batch is processed after the goroutine has reported its end")
	if r.turns && r.inWorker {
		r.ob("P05", "announce", e.Pos, s.incs == 1 && !s.owed, "a batch is processed before the next turn is announced to all feeders")
	}
	if r.needExp {
		ok := s.exp != nil && b.seq != nil && f.entailsEq(linOf(b.seq).sub(s.exp))
		if !ok && r.lastKey != nil && s.exp != nil {
			ok = f.entailsEq(r.lastKey.sub(s.exp))
		}
		r.ob(r.orderProp(), "in-order", e.Pos, ok, "a batch with sequence number %v may be processed when %s is the next one", b.seq, linStr(s.exp))
		if s.exp != nil {
			s.exp = s.exp.addc(1)
		}
		s.clean = false
	}
	r.lastKey = nil
	if (len(r.c.bounds) > 0 || r.c.limits) && r.feeding {
		r.ob("P03", "own-goroutine", e.Pos, false, "batches are processed by the feeders, so as many at a time as there are feeders")
	}
	if len(r.c.bounds) == 0 && !r.c.limits && r.c.order == 0 {
		r.ob("P03", "own-goroutine", e.Pos, !r.feeding, "a parallel node processes batches one after the other if they are fed one after the other")
	}
}

// pass is a loop over the receivers.
func (r *nodeRun) pass(e *Event, s *nodeState, after *Facts) *nodeState {
	lp := e.Loop
	var dv *LoopVar
	var seq *Term
	ok := r.each(e, after, r.recvs, r.isReceiver, func(i int, q *Event) bool {
		if len(q.Args) != 2 || len(q.Res) != 1 || seq != nil && seq != q.Args[0] {
			return false
		}
		seq = q.Args[0]
		for _, v := range lp.Vars {
			if v.Head == q.Args[1] && (dv == nil || dv == v) {
				dv = v
				return v.Nexts[i] == q.Res[0]
			}
		}
		return false
	})
	if !r.ob("P01", "all-receivers", e.Pos, ok && dv != nil, "a batch is not passed through all receivers in order, each one receiving what the one before it returned") {
		s.cur = nil
		return s
	}
	b := r.take(seq, dv.Init, s, e.Facts)
	if !r.ob("P01", "processed-once", e.Pos, b != nil, "what is processed is not a batch that was received and not processed yet, with its own sequence number") {
		s.cur = nil
		return s
	}
	r.ob("P01", "forwarded", e.Pos, s.fwd == nil, "the result of a batch is not handed on to the following node")
	r.processed(b, e, s)
	s.fwd = &batch{index: b.index, seq: b.seq, data: dv.Head}
	return s
}

// each: the loop calls every element of a slice once, in order.
func (r *nodeRun) each(e *Event, after *Facts, base *Term, is func(*Event) bool, arg func(i int, q *Event) bool) bool {
	lp := e.Loop
	var j *Term
	for i, c := range lp.Conts {
		if inGoroutine(c.Events, is) {
			return false
		}
		var calls []*Event
		for _, q := range flatEvents(c.Events) {
			if is(q) {
				calls = append(calls, q)
			}
		}
		if len(calls) != 1 {
			return false
		}
		q := calls[0]
		k := elemIn(q.Callee, base)
		if k == nil || arg != nil && !arg(i, q) {
			return false
		}
		if !c.Facts.entailsEq(r.x.atInit(linOf(k), lp.Vars, lp.K)) || !c.Facts.entailsEq(r.x.shift(linOf(k), lp.Vars, i, lp.K).sub(linOf(k).addc(1))) {
			return false
		}
		j = k
	}
	return j != nil && after.entailsGe(linOf(j).sub(linOf(mkLen(base))))
}

// inGoroutine: is there such an event in a goroutine that the events start?
func inGoroutine(es []*Event, is func(*Event) bool) bool {
	for _, e := range flatEvents(es) {
		if e.Kind != "Go" {
			continue
		}
		for _, p := range e.Sub {
			for _, q := range flatEvents(p.Events) {
				if is(q) {
					return true
				}
			}
		}
	}
	return false
}

// forward: a result is fed to the following node.
func (r *nodeRun) forward(e *Event, s *nodeState) {
	f := e.Facts
	if s.fwd == nil && s.cur != nil && s.curOK == nil && r.recvs != nil && f.entailsGe(linOf(mkLen(r.recvs)).neg()) {
		r.processed(s.cur, e, s)
		s.fwd, s.cur = s.cur, nil // no receivers
	}
	if !r.ob("P01", "forwarded", e.Pos, s.fwd != nil, "a result is handed on twice, or before the batch was processed") {
		return
	}
	r.ob("P05", "unlocked", e.Pos, len(e.Locks) == 0, "a lock is held while a batch is handed on")
	r.ob("P06", "counted", e.Pos, s.dones == 0, "a batch is handed on after the goroutine has reported its end")
	ok := len(e.Args) == 4 && e.Args[0] == r.pl && f.eq(e.Args[2], s.fwd.seq) && e.Args[3] == s.fwd.data
	at := false
	if ok {
		k := elemIn(e.Callee, r.nodes)
		for _, i := range s.fwd.index {
			at = at || k != nil && f.eq(k, addc(i, 1)) && f.eq(e.Args[1], addc(i, 1))
		}
	}
	r.ob("P01", "forwarded", e.Pos, ok, "what is handed on is not the result of the last receiver with the batch's own sequence number")
	r.ob("P01", "forwarded", e.Pos, !ok || at, "a result is not handed on to the node that follows")
	s.fwd = nil
}

func (r *nodeRun) works(es []*Event) bool {
	for _, e := range flatEvents(es) {
		if r.isReceiver(e) || ifaceCall(e, "Node") == "Feed" {
			return true
		}
		for _, c := range e.Cases {
			if e.Kind == "Select" && r.chans[c.Chan] {
				return true
			}
		}
		if e.Kind == "Recv" && r.chans[e.Addr] {
			return true
		}
	}
	return false
}

// goEvent: a goroutine is started while batches are fed or processed.
func (r *nodeRun) goEvent(e *Event, s *nodeState) {
	work := false
	for _, p := range e.Sub {
		work = work || r.works(p.Events)
	}
	if !work {
		return
	}
	r.feedGo = true
	r.ob("P03", "own-goroutine", e.Pos, len(r.c.bounds) == 0 && !r.c.limits, "a goroutine is started for each batch, so the number of batches processed at a time is not limited")
	if r.inWorker {
		r.ob("P06", "counted", e.Pos, false, "a goroutine is started by a goroutine of the node")
	}
	r.ob("P02", "in-order", e.Pos, r.c.order == 0, "batches of an ordered node are processed by goroutines of their own")
	s.starts++
	adds := s.adds
	if adds == nil {
		adds = linConst(0)
	}
	r.ob("P06", "counted", e.Pos, e.Facts.entailsGe(adds.addc(int64(-s.starts))), "a goroutine is started before the wait group is raised for it")
	for _, p := range e.Sub {
		if p.Facts.inconsistent() {
			continue
		}
		t := s.clone()
		t.dones, t.ctx, t.recvd = 0, false, true
		save, in, fd := r.path, r.inWorker, r.feeding
		r.path, r.inWorker, r.feeding = p, true, false
		t = r.walk(p.Events, t)
		r.exit(t, p, e.Pos, false)
		r.path, r.inWorker, r.feeding = save, in, fd
	}
	s.cur = nil
	s.sent++
}

// exit: a goroutine ends.
func (r *nodeRun) exit(s *nodeState, p *Path, pos token.Pos, worker bool) {
	if s.dead {
		return
	}
	f := p.Facts
	if n := len(p.Events); n > 0 {
		pos = p.Events[n-1].Pos
	}
	if p.Outcome != "return" {
		// a panic for a sequence number that cannot occur
		ok := s.cur != nil && s.curOK == nil && (r.needExp && s.exp != nil && f.entailsGe(s.exp.sub(linOf(s.cur.seq)).addc(-1)) ||
			r.turns && s.lastTurn != nil && f.truth(mkEq0(linOf(s.lastTurn).sub(linOf(s.cur.seq)))) == -1)
		r.ob("P01", "processed-once", pos, ok, "a goroutine of the node may panic")
		return
	}
	r.ob("P06", "counted", pos, s.dones == 1, "a goroutine reports its end %d times", s.dones)
	r.ob("P05", "unlocked", pos, len(p.St.locks) == 0, "a goroutine ends with a lock held")
	if s.done {
		for c := range r.waits {
			r.ob("P04", "wakes-feeders", pos, s.told[c], "feeders that wait for their turn are not woken up, under their lock, after a cancellation")
		}
		return
	}
	if worker {
		r.ob("P01", "runs-on", pos, s.closed, "a goroutine ends although more batches may be fed and the pipeline is not cancelled")
	}
	r.idle(s, pos)
}

// ---- loops ----

func (r *nodeRun) loop(e *Event, s *nodeState, after *Facts) *nodeState {
	lp := e.Loop
	recv, other, fin := false, false, false
	for _, c := range lp.Conts {
		for _, q := range flatEvents(c.Events) {
			recv = recv || r.isReceiver(q)
			fin = fin || r.isFinalizer(q)
			if q.Kind == "Select" || q.Kind == "Recv" || ifaceCall(q, "Node") == "Feed" || q.Loop != nil || q.Kind == "MapGet" {
				other = true
			}
		}
	}
	if fin {
		r.ob("P06", "finalize", e.Pos, !r.inWorker && !r.feeding && r.fins != nil && r.each(e, after, r.fins, r.isFinalizer, nil), "the finalizers are not each called once, in order")
		if !r.inWorker && !r.feeding {
			r.ob("P06", "finalize", e.Pos, s.wait, "finalizers are called before all goroutines of the node have ended")
			r.ob("P06", "finalize", e.Pos, !s.fin, "finalizers are called twice")
		}
		s.fin = true
		return s
	}
	if recv && !other {
		return r.pass(e, s, after)
	}
	type cand struct {
		exp  *Lin
		g    []got
		vars []int
	}
	var cands []cand
	exps := []*Lin{s.exp}
	if s.exp != nil && r.needExp {
		exps = nil
		for _, v := range lp.Vars {
			if v.Head == nil || v.Init == nil || v.Typ == nil || !isIntType(v.Typ) {
				continue
			}
			d := s.exp.sub(linOf(v.Init))
			if _, c := d.isConst(); c {
				exps = append(exps, linOf(v.Head).add(d))
			}
		}
		exps = append(exps, s.exp.add(linOf(lp.K)), s.exp)
	}
	type carry struct {
		g      got
		vi, oi int
	}
	var carried []carry
	for _, g := range s.gots {
		if s.exp == nil || !e.Facts.entailsEq(g.key.sub(s.exp)) {
			continue
		}
		for i, v := range lp.Vars {
			for k, o := range lp.Vars {
				if v.Init == g.val && o.Init == g.ok && v.Head != nil && o.Head != nil {
					carried = append(carried, carry{got{nil, v.Head, o.Head}, i, k})
				}
			}
		}
	}
	for _, x := range exps {
		for _, c := range carried {
			cands = append(cands, cand{x, []got{{x, c.g.val, c.g.ok}}, []int{c.vi, c.oi}})
		}
		cands = append(cands, cand{exp: x})
	}
	save := r.out
	bad := -1
	var best []finding
	var bestSt *nodeState
	for _, c := range cands {
		r.out = nil
		h := s.clone()
		h.exp = c.exp
		h.gots = append([]got(nil), c.g...)
		h.ctx = false
		h.section()
		for i, ct := range lp.Conts {
			pth := r.path
			r.path = &Path{Facts: ct.Facts, St: ct.St}
			n := r.walk(ct.Events, h.clone())
			r.path = pth
			r.cont(e, i, ct, s, h, n, c.g, c.vars)
		}
		k := 0
		for _, o := range r.out {
			if !o.ok {
				k++
			}
		}
		if bad < 0 || k < bad {
			bad, best, bestSt = k, r.out, h
		}
		if k == 0 {
			break
		}
	}
	r.out = append(save, best...)
	return bestSt
}

func (r *nodeRun) cont(e *Event, i int, ct *Cont, s, h, n *nodeState, g []got, vars []int) {
	if n.dead {
		return
	}
	lp := e.Loop
	f := ct.Facts
	pos := e.Pos
	if k := len(ct.Events); k > 0 {
		pos = ct.Events[k-1].Pos
	}
	if n.done {
		r.ob("P04", "stops", pos, false, "the node goes on after it has seen that the pipeline is cancelled")
		return
	}
	if r.feeding {
		for l, k := range ct.St.locks {
			free := k == 0
			for _, q := range ct.Events {
				if q.Kind == "CondWait" && r.condLock(q) == l || (q.Kind == "Unlock" || q.Kind == "RUnlock") && q.Addr == l {
					free = true
				}
			}
			r.ob("P05", "wait-for-turn", pos, free, "a feeder keeps a lock while it looks again and again whether it is its turn")
		}
	}
	if r.inWorker && n.closed && !h.closed && !r.leaves(lp, i, f) {
		r.ob("P06", "counted", pos, false, "a goroutine goes on after it was told that no more batches follow")
	}
	if h.cur == nil || r.inWorker {
		if n.cur != h.cur {
			r.ob("P01", "processed-once", pos, false, "a batch is neither processed nor kept")
		}
		r.ob("P01", "forwarded", pos, n.fwd == h.fwd, "the result of a batch is not handed on to the following node")
	} else {
		r.ob("P01", "fed-once", pos, n.cur == h.cur && n.sent == h.sent, "a batch may be sent to the node's goroutines more than once")
	}
	if r.turns {
		r.ob("P02", "turn", pos, n.incs == h.incs, "the turn is advanced %d times for a batch", n.incs)
		r.ob("P05", "announce", pos, n.owed == h.owed, "the next turn is not announced to all feeders")
	}
	r.ob("P06", "counted", pos, n.dones == h.dones && n.starts == h.starts, "goroutines are started or ended in a loop")
	if r.needExp && r.inWorker {
		ok := h.exp == nil && n.exp == nil || h.exp != nil && n.exp != nil && f.entailsEq(r.x.shift(h.exp, lp.Vars, i, lp.K).sub(n.exp))
		r.ob(r.orderProp(), "next-in-order", pos, ok, "it is not clear which batch is the next one to be processed")
		r.ob(r.orderProp(), "kept-until-turn", pos, n.clean || !h.clean, "a batch that was kept until its turn may never be processed")
		for range g {
			next := false
			for _, q := range n.gots {
				if q.val == lp.Vars[vars[0]].Nexts[i] && q.ok == lp.Vars[vars[1]].Nexts[i] && n.exp != nil && f.entailsEq(q.key.sub(n.exp)) {
					next = true
				}
			}
			r.ob(r.orderProp(), "kept-until-turn", pos, next, "it is not clear which batch that was kept is looked at")
		}
	}
}

// leaves: a condition of the loop has changed.
func (r *nodeRun) leaves(lp *Loop, i int, f *Facts) bool {
	for _, v := range lp.Vars {
		if v.Head != nil && v.Typ != nil && isBoolType(v.Typ) && v.Nexts[i] != v.Head && f.truth(v.Nexts[i]) != f.truth(v.Head) {
			return true
		}
	}
	return false
}

// ---- driver ----

func (d *pipe) ruleNodes(props string) {
	base := d.nodeCfgs(props)
	cfgs := base
	cfgs = d.mergedCfgs(props, cfgs)
	if d.only(props, "P01,P02,P04,P05,P06") != "" {
		cfgs = append(cfgs, d.converted(cfgs)...)
	}
	phase := d.phaseFields(cfgs)
	if d.only(props, "P01,P02,P03,P04,P05,P06,P14") != "" {
		for _, c := range cfgs {
			r := &nodeRun{d: d, c: c, props: props, state: map[*types.Var]bool{}, priv: map[*types.Var]bool{}, phase: phase}
			r.run()
			for _, o := range r.out {
				if strings.Contains(","+props+",", ","+o.prop+",") {
					d.R.ob(o.prop, o.rule, c.construct(), o.pos, o.ok, "%s", o.msg)
				}
			}
			d.R.coveredExec(props, c.construct(), c.pos, r.x, r.x.paths)
		}
	}
	for _, n := range []struct {
		prop, rule string
		min        int
	}{{"P01", "processed-once", 4}, {"P01", "forwarded", 4}, {"P01", "fed-in-full", 3}, {"P01", "all-receivers", 4}, {"P01", "compose", 4}, {"P01", "given-filters", 6}, {"P02", "in-order", 1}, {"P02", "turn", 2}, {"P03", "parallelism", 3}, {"P03", "kind", 4},
		{"P04", "can-be-cancelled", 4}, {"P04", "stops", 4}, {"P05", "converted-node", 1}, {"P05", "unlocked", 4}, {"P06", "finalize", 4}, {"P06", "counted", 4}, {"P14", "merge", 6}} {
		if strings.Contains(","+props+",", ","+n.prop+",") {
			d.R.need(n.prop, n.rule, n.min)
		}
	}
}

// phaseFields may change after Begin.
func (d *pipe) phaseFields(cfgs []*nodeCfg) map[*types.Var]bool {
	out := map[*types.Var]bool{}
	for _, c := range cfgs {
		for _, f := range d.nodeFields(c.named) {
			if d.slotOf(f.v) != nil {
				out[f.v] = true
			}
		}
		for v := range c.conv {
			out[v] = true
		}
	}
	return out
}

func (r *nodeRun) method(name string) *ssa.Function {
	return r.d.R.P.methodOf(types.NewPointer(r.c.named), name)
}

// begin runs Begin on a node as configured.
func (r *nodeRun) begin() []*Path {
	r.x = newExec(r.d.R.P, Config{Loads: true, Opaque: r.d.opaque, Keep: r.keep, Spawn: func(st *State) { r.fresher(st) }})
	m := r.method("Begin")
	st := newState()
	st.facts = r.c.facts
	for _, f := range r.d.nodeFields(r.c.named) {
		if v := r.c.fields[f.v]; v != nil {
			r.x.write(st, f.at(r.node), v, f.typ)
			if l := condLocks[v]; l != nil {
				condMade(st, v, l)
			}
		}
	}
	for _, f := range r.d.nodeFields(r.c.named) {
		if sl := r.d.slotOf(f.v); sl != nil && types.Identical(sl, r.d.filter) {
			r.filters = r.x.read(st, f.at(r.node), f.typ)
		}
	}
	var out []*Path
	for _, p := range r.x.runFunc(st, m, []*Term{r.node, r.pl, r.beginIndex, r.size}, nil) {
		if p.Outcome != "return" || len(p.Ret) != 1 || p.Facts.truth(p.Ret[0]) != 0 {
			out = append(out, p)
			continue
		}
		for _, b := range []bool{true, false} {
			q, t := *p, *p.St
			f, ok := p.Facts.assume(p.Ret[0], b)
			if !ok {
				continue
			}
			q.Facts, t.facts = f, f
			q.St = &t
			out = append(out, &q)
		}
	}
	return out
}

// after is the state in which batches are fed after a path of Begin.
func (r *nodeRun) after(p *Path) *State {
	st := r.x.reset(p.St)
	st.pending = nil
	st.wgAdd = map[*Term]*Lin{}
	for v := range r.state {
		if r.priv[v] {
			continue
		}
		for _, f := range r.d.nodeFields(r.c.named) {
			if f.v == v {
				delete(st.mem, f.at(r.node))
				st.classEp[memClass(f.at(r.node))] = fresh("epoch", nil)
			}
		}
	}
	r.fresher(st)
	return st
}

func (r *nodeRun) feed(p *Path) []*Path {
	x := r.x
	spawn, base := x.cfg.Spawn, x.base
	x.cfg.Spawn = nil
	defer func() { x.cfg.Spawn, x.base = spawn, base }()
	return x.runFunc(r.after(p), r.method("Feed"), []*Term{r.node, r.pl, r.index, r.seq, r.data}, nil)
}

func kept(p *Path) int {
	if p.Outcome != "return" || len(p.Ret) != 1 {
		return 0
	}
	return p.Facts.truth(p.Ret[0])
}

func (r *nodeRun) run() {
	d := r.d
	intT := types.Typ[types.Int]
	r.node = fresh("node", types.NewPointer(r.c.named))
	r.pl = fresh("pipeline", types.NewPointer(d.pipeline))
	r.beginIndex = fresh("position", intT)
	r.size = fresh("dataSize", types.NewPointer(intT))
	r.index, r.seq, r.data = fresh("index", intT), fresh("seqNo", intT), newData()
	for _, m := range []string{"Begin", "Feed", "End"} {
		if r.method(m) == nil {
			r.x = newExec(d.R.P, Config{})
			r.ob(r.props, "anchor", r.c.pos, false, "the node has no method %s", m)
			return
		}
	}
	var paths []*Path
	feeds := map[*Path][]*Path{}
	// which fields change while batches are fed?
	for round := 0; round < 4; round++ {
		r.recvs, r.fins, r.nodes = nil, nil, nil
		paths = r.begin()
		more := false
		used := map[*types.Var]bool{}
		note := func(es []*Event, feeding bool) {
			walkEvents(es, func(e *Event) {
				v := fieldVars[e.Addr]
				if (e.Kind != "Store" && e.Kind != "Load") || v == nil || rootOf(e.Addr) != r.node {
					return
				}
				if e.Kind == "Store" && !r.state[v] {
					r.state[v], more = true, true
				}
				if feeding {
					used[v] = true
				}
			})
		}
		for _, p := range paths {
			if kept(p) != 1 || p.Facts.inconsistent() {
				continue
			}
			for _, e := range flatEvents(p.Events) {
				if e.Kind == "Go" {
					for _, q := range e.Sub {
						note(q.Events, false)
					}
				}
			}
			feeds[p] = r.feed(p)
			for _, q := range feeds[p] {
				note(q.Events, true)
			}
		}
		for v := range r.state {
			if p := !used[v]; p != r.priv[v] {
				r.priv[v], more = p, true
			}
		}
		if !more {
			break
		}
		feeds = map[*Path][]*Path{}
	}
	any := false
	for _, p := range paths {
		if p.Facts.inconsistent() {
			continue
		}
		c := r.c
		if !r.ob("P01", "begins", r.method("Begin").Pos(), kept(p) != 0, "Begin may panic, or it is unknown whether it keeps the node") {
			continue
		}
		r.compose(p)
		if kept(p) == 1 {
			any = true
			r.judge(p, feeds[p])
		}
		r.c = c
	}
	r.ob("P01", "begins", r.method("Begin").Pos(), any, "the node is never kept")
}

// compose: the filters of a node are applied once and in order, and nothing is lost.
func (r *nodeRun) compose(p *Path) {
	d := r.d
	pos := r.method("Begin").Pos()
	f := p.Facts
	filters := r.filters
	var rv, fv *Term
	for _, g := range d.nodeFields(r.c.named) {
		sl := d.slotOf(g.v)
		a := g.at(r.node)
		switch {
		case sl == nil:
		case types.Identical(sl, d.receiver):
			rv = r.x.read(p.St, a, g.typ)
		case types.Identical(sl, d.finalizer):
			fv = r.x.read(p.St, a, g.typ)
		}
	}
	if !r.ob("P01", "compose", pos, filters != nil && rv != nil && fv != nil, "the node's filters are not used") {
		return
	}
	isFilter := func(e *Event) bool {
		return e.Kind == "Call" && e.Static == nil && e.Callee != nil && e.Callee.Typ != nil && types.Identical(e.Callee.Typ, d.filter)
	}
	r.ob("P01", "compose", pos, !inGoroutine(p.Events, isFilter), "a filter is applied by another goroutine")
	done := f.entailsGe(linOf(mkLen(filters)).neg())
	for i, e := range p.Events {
		if e.Kind != "Loop" {
			r.ob("P01", "compose", e.Pos, !isFilter(e), "a filter is applied outside of a pass through all filters")
			continue
		}
		has := false
		for _, c := range e.Loop.Conts {
			for _, q := range flatEvents(c.Events) {
				has = has || isFilter(q)
			}
		}
		if !has {
			continue
		}
		after := f
		if i+1 < len(p.Events) {
			after = p.Events[i+1].Facts
		}
		lp := e.Loop
		var rvar, fvar *LoopVar
		for _, v := range lp.Vars {
			if v.Of != nil || v.Typ == nil || v.Init != tNil && !isEmptySlice(v.Init) {
				continue
			}
			if el := sliceOf(v.Typ); el != nil && types.Identical(el, d.receiver) {
				rvar = v
			} else if el != nil && types.Identical(el, d.finalizer) {
				fvar = v
			}
		}
		if !r.ob("P01", "compose", e.Pos, rvar != nil && fvar != nil && !done, "receivers and finalizers are not collected, or filters are applied twice") {
			return
		}
		w := &runWalk{d: d, x: r.x}
		ok := r.each(e, after, filters, isFilter, func(i int, q *Event) bool {
			r.kindOf(q)
			if len(q.Args) != 3 || len(q.Res) != 2 || q.Args[0] != r.pl || q.Args[2] != r.size {
				return false
			}
			c := lp.Conts[i]
			for k, v := range []*LoopVar{rvar, fvar} {
				n := v.Nexts[i]
				switch isNilT(c.Facts, q.Res[k]) {
				case 1:
					if n != v.Head {
						return false
					}
				case -1:
					if !w.extended(c.St, n, v.Head, q.Res[k]) {
						return false
					}
				default:
					return false
				}
			}
			return true
		})
		r.ob("P01", "compose", e.Pos, ok, "the filters are not each applied once and in order to the pipeline and the announced size, with their receivers and finalizers collected in this order unless nil")
		r.ob("P01", "compose", e.Pos, rvar.Head == rv && fvar.Head == fv, "the receivers and finalizers collected are not those of the node")
		done = true
	}
	r.ob("P01", "compose", pos, done, "the filters of the node are not applied")
	if kept(p) == -1 {
		empty := f.entailsGe(linOf(mkLen(rv)).neg()) && f.entailsGe(linOf(mkLen(fv)).neg())
		r.ob("P14", "keeps-node", pos, empty, "a node that still has receivers or finalizers asks to be dropped")
	}
}

// kindOf: filters are told what their node guarantees.
func (r *nodeRun) kindOf(q *Event) {
	if len(q.Args) != 3 {
		return
	}
	k, ok := intVal(q.Args[1])
	one := false
	for _, b := range r.c.bounds {
		one = one || q.Facts.entailsGe(linOf(b).neg().addc(1))
	}
	K := r.d.kinds
	if r.c.limits && !one && ok && k != K["Parallel"] {
		// the node promises more than it was asked for
		one = true
		c := *r.c
		c.bounds = append(append([]*Term(nil), c.bounds...), mkInt(1))
		r.c = &c
	}
	var want []int64
	switch {
	case r.c.order == 2:
		want = []int64{K["Ordered"]}
	case one && len(r.c.bounds) > 0:
		want = []int64{K["Sequential"]}
		for _, b := range r.c.bounds {
			if _, c := intVal(b); !c {
				want = append(want, K["Parallel"])
			}
		}
	case r.c.order == 1 && len(r.c.conv) > 0:
		want = []int64{K["Sequential"], K["Ordered"], K["Parallel"]}
	default:
		want = []int64{K["Parallel"]}
	}
	hit := false
	for _, n := range want {
		hit = hit || ok && n == k
	}
	r.ob("P03", "kind", q.Pos, hit, "the filters are told that the node is %s", r.kindName(q.Args[1]))
}

func (r *nodeRun) kindName(t *Term) string {
	k, ok := intVal(t)
	for n, v := range r.d.kinds {
		if ok && v == k {
			return n
		}
	}
	return "of an unknown kind"
}

// judge follows a node that was begun along path p.
func (r *nodeRun) judge(p *Path, feeds []*Path) {
	r.chans, r.waits, r.roles = map[*Term]bool{}, map[*Term]bool{}, nil
	r.turn, r.lock, r.turns, r.unturned, r.feedGo, r.needExp, r.wg, r.sends = nil, nil, false, false, false, false, nil, 0
	r.allStash = map[*Term]map[int]string{}
	for _, e := range flatEvents(p.Events) {
		if e.Kind == "WgAdd" && r.wg == nil {
			r.wg = e.Addr
		}
	}
	r.feeds(feeds)
	r.turns = r.sends > 0 && !r.unturned && r.turn != nil
	r.needExp = r.c.order >= 1 && !r.turns
	if r.turns {
		r.ob("P02", "turn", r.method("Feed").Pos(), r.startsAtZero(), "the first turn is not that of the first batch")
	} else if len(r.waits) > 0 {
		r.ob("P05", "wait-for-turn", r.method("Feed").Pos(), false, "feeders wait although batches are not sent in turn")
	}
	if len(r.c.conv) > 0 {
		r.ob("P05", "converted-node", r.method("Feed").Pos(), true, "")
	}
	r.start(p)
	r.end(p)
}

// startsAtZero: the turn begins with sequence number zero.
func (r *nodeRun) startsAtZero() bool {
	v := r.c.fields[r.turn]
	n, ok := int64(0), false
	if v != nil {
		n, ok = intVal(v)
	}
	return ok && n == 0
}

func (r *nodeRun) feeds(paths []*Path) {
	r.feeding, r.inWorker = true, false
	defer func() { r.feeding = false }()
	for _, q := range paths {
		if q.Facts.inconsistent() {
			continue
		}
		r.path = q
		pos := r.method("Feed").Pos()
		if n := len(q.Events); n > 0 {
			pos = q.Events[n-1].Pos
		}
		s := &nodeState{cur: &batch{index: []*Term{r.index}, seq: r.seq, data: r.data}, idx: []*Term{r.index}, incs: 1, clean: true, locked: map[*Term]bool{}, told: map[*Term]bool{}}
		s = r.walk(q.Events, s)
		r.ob("P05", "unlocked", pos, len(q.St.locks) == 0, "feeding a batch ends with a lock held")
		if !r.ob("P01", "fed-once", pos, q.Outcome == "return", "feeding a batch may panic") || s.done {
			continue
		}
		r.ob("P01", "fed-once", pos, s.cur == nil && s.fwd == nil, "a batch is lost although the pipeline is not cancelled")
		if adds := s.adds; s.starts > 0 && adds != nil {
			r.ob("P06", "counted", pos, q.Facts.entailsEq(adds.addc(int64(-s.starts))), "the wait group is raised by another number than that of the goroutines")
		}
	}
}

// start: the goroutines that Begin starts.
func (r *nodeRun) start(p *Path) {
	r.path = p
	adds, n := linConst(0), linConst(0)
	pos := r.method("Begin").Pos()
	var subs []*Event
	count := func(es []*Event, adds, n *Lin) (*Lin, *Lin) {
		for _, e := range es {
			switch e.Kind {
			case "WgAdd":
				r.ob("P06", "counted", e.Pos, e.Addr == r.wg, "several wait groups are used")
				adds = adds.add(linOf(e.Val))
			case "Go":
				work := false
				for _, q := range e.Sub {
					work = work || r.works(q.Events)
				}
				if !work {
					continue
				}
				subs = append(subs, e)
				n = n.addc(1)
				r.ob("P06", "counted", e.Pos, e.Facts.entailsGe(adds.sub(n)), "a goroutine is started before the wait group is raised for it")
			case "Race":
				r.ob("P02", "race-free", e.Pos, false, "a variable shared by the node's goroutines is accessed without synchronisation (see %s)", e.Name)
			}
		}
		return adds, n
	}
	for i, e := range p.Events {
		if e.Kind != "Loop" {
			adds, n = count([]*Event{e}, adds, n)
			continue
		}
		lp := e.Loop
		var da, dn *Lin
		for _, c := range lp.Conts {
			// per iteration: find the increments first
			a0, n0 := linConst(0), linConst(0)
			for _, q := range c.Events {
				if q.Kind == "WgAdd" {
					a0 = a0.add(linOf(q.Val))
				}
				if q.Kind == "Go" {
					work := false
					for _, g := range q.Sub {
						work = work || r.works(g.Events)
					}
					if work {
						n0 = n0.addc(1)
					}
				}
				r.ob("P06", "counted", q.Pos, q.Kind != "Loop" || !r.startsIn(q), "goroutines are started in nested loops")
			}
			if da != nil && (da.sub(a0).key() != linConst(0).key() || dn.sub(n0).key() != linConst(0).key()) {
				r.ob("P06", "counted", e.Pos, false, "the number of goroutines started in a loop is not known")
			}
			da, dn = a0, n0
		}
		if da == nil {
			continue
		}
		K := linOf(lp.K)
		for _, c := range lp.Conts {
			count(c.Events, adds.add(da.mul(K)), n.add(dn.mul(K)))
		}
		_ = i
		adds, n = adds.add(da.mul(K)), n.add(dn.mul(K))
	}
	f := p.Facts
	if len(subs) > 0 || len(r.chans) > 0 {
		r.ob("P06", "counted", pos, f.entailsEq(adds.sub(n)), "the wait group is raised by another number than that of the goroutines")
		r.ob("P01", "some-goroutine", pos, f.entailsGe(n.addc(-1)), "there may be no goroutine that receives batches")
	}
	if len(r.chans) > 0 || len(r.c.bounds) > 0 {
		for _, b := range r.c.bounds {
			r.ob("P03", "parallelism", pos, f.entailsGe(linOf(b).sub(n)), "%s goroutines process batches, but at most %v may", linStr(n), b)
		}
		if len(subs) > 0 && len(r.chans) > 0 && len(r.c.bounds) > 0 {
			all := false
			for _, b := range r.c.bounds {
				all = all || f.entailsGe(n.sub(linOf(b)))
			}
			r.ob("P03", "uses-limit", pos, all, "only %s goroutines process batches although %v may", linStr(n), r.c.bounds[0])
		}
		if len(r.c.bounds) == 0 {
			r.ob("P03", "parallelism", pos, len(subs) > 0 && f.entailsGe(n.addc(-1)), "there may be no goroutine that receives batches")
		}
	}
	if r.needExp || r.c.order == 2 {
		r.ob(r.orderProp(), "in-order", pos, f.entailsGe(n.neg().addc(1)), "several goroutines process batches that are to be processed in order")
	}
	for v := range r.priv {
		if r.state[v] && r.priv[v] {
			r.ob("P02", "race-free", pos, f.entailsGe(n.neg().addc(1)), "several goroutines change %s without being the only one to use it", v.Name())
		}
	}
	for _, e := range subs {
		for _, q := range e.Sub {
			if q.Facts.inconsistent() {
				continue
			}
			for round := 0; round < 2; round++ { // the first one learns how batches are kept
				out := r.out
				s := &nodeState{incs: 1, clean: true, exp: linConst(0), locked: map[*Term]bool{}, told: map[*Term]bool{}}
				r.path, r.inWorker = q, true
				s = r.walk(q.Events, s)
				r.exit(s, q, e.Pos, true)
				r.inWorker = false
				if round == 0 {
					r.out = out
				}
			}
		}
	}
}

func (r *nodeRun) startsIn(e *Event) bool {
	for _, q := range flatEvents([]*Event{e}) {
		if q.Kind == "Go" {
			return true
		}
	}
	return false
}

// end: the node is ended.
func (r *nodeRun) end(p *Path) {
	x := r.x
	spawn := x.cfg.Spawn
	x.cfg.Spawn = nil
	defer func() { x.cfg.Spawn = spawn }()
	for _, q := range x.runFunc(r.after(p), r.method("End"), []*Term{r.node}, nil) {
		if q.Facts.inconsistent() {
			continue
		}
		pos := r.method("End").Pos()
		if !r.ob("P06", "finalize", pos, q.Outcome == "return", "ending the node may panic") {
			continue
		}
		r.path = q
		s := &nodeState{locked: map[*Term]bool{}, told: map[*Term]bool{}}
		for i, e := range q.Events {
			switch e.Kind {
			case "Close":
				if r.chans[e.Addr] {
					s.closes++
					r.ob("P06", "finalize", e.Pos, !s.wait, "the goroutines of the node are awaited before they are told that no more batches follow")
				}
			case "WgWait":
				r.ob("P06", "finalize", e.Pos, e.Addr == r.wg || r.wg == nil, "another wait group is awaited")
				s.wait = true
			case "Loop":
				after := q.Facts
				if i+1 < len(q.Events) {
					after = q.Events[i+1].Facts
				}
				s = r.loop(e, s, after)
			case "Call":
				r.ob("P06", "finalize", e.Pos, !r.isFinalizer(e), "a finalizer is called outside of a pass through all finalizers")
			}
		}
		if len(r.chans) > 0 {
			r.ob("P06", "finalize", pos, s.closes == 1, "the goroutines of the node are told %d times that no more batches follow", s.closes)
		}
		r.ob("P06", "finalize", pos, s.wait, "the goroutines of the node are not awaited")
		r.ob("P06", "finalize", pos, s.fin || r.fins != nil && q.Facts.entailsGe(linOf(mkLen(r.fins)).neg()), "the finalizers are not called")
	}
}
