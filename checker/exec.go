package main

// A path-sensitive abstract interpreter over SSA. Loops are summarised by
// inferred invariants, goroutines by their effects between start and join,
// calls to unknown functions by events with unconstrained results.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one observable step on a path.
type Event struct {
	Kind   string
	Name   string // callee, for calls
	Pos    token.Pos
	In     *ssa.Function
	Callee *Term         // the called value or receiver
	Static *ssa.Function // the called function, if known
	Args   []*Term
	Res    []*Term
	Addr   *Term
	Val    *Term
	Write  bool
	Atomic bool
	Raised *Term // the call does not return but panics with this value
	Loop   *Loop
	Sub    []*Path   // Go: the paths of the goroutine
	Par    [][]*Path // parallel models: paths of every branch
	Dflt   bool      // Select with default
	Cases  []SelCase
	Chosen int
	Type   types.Type
	Facts  *Facts
	Vol    bool   // volatile: value may have been changed by others
	St     *State // Rec: the state at the call
	Branch int
	Locks  map[*Term]int // locks held by this goroutine
	Params []*Term       // parallel models: the parameters of the body
	Defer  bool
	Go     *Event // Join: the start of the goroutine
	NoRet  bool
}

type SelCase struct {
	Send bool
	Chan *Term
	Val  *Term
}

type Trace struct {
	prev *Trace
	ev   *Event
	n    int
}

func (t *Trace) list(until *Trace) []*Event {
	n := 0
	for x := t; x != nil && x != until; x = x.prev {
		n++
	}
	out := make([]*Event, n)
	for x := t; x != nil && x != until; x = x.prev {
		n--
		out[n] = x.ev
	}
	return out
}

// Path is a finished path.
type Path struct {
	Events  []*Event
	Facts   *Facts
	Outcome string // return, panic
	Ret     []*Term
	PVal    *Term
	St      *State
}

type deferRec struct {
	c callInfo
}

type Frame struct {
	fn        *ssa.Function
	blk       *ssa.BasicBlock
	prev      *ssa.BasicBlock
	pc        int
	env       map[ssa.Value]*Term
	defers    []callInfo
	retTo     ssa.Value
	isDefer   bool // runs as a deferred call of the frame below
	unwinding bool
	pval      *Term
	recovered bool
	deferRun  bool // the caller is executing RunDefers (normal exit)
	bind      []*Term
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]*Term, len(f.env)+4)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]callInfo(nil), f.defers...)
	return &g
}

// Pending is a goroutine that has not been joined.
type Pending struct {
	Ev     *Event
	Many   bool
	Paths  []*Path
	Access []access
	Wg     *Term // joined through this wait group (nil: none)
	Chan   *Term // joined through closing or sending on this channel
	After  bool  // has effects after the signal
	Late   []access
}

type access struct {
	Addr   *Term
	Write  bool
	Atomic bool
	Locks  string
	Pos    token.Pos
}

type State struct {
	stack   []*Frame
	mem     map[*Term]*Term
	rootEp  map[*Term]*Term // havocked local roots
	classEp map[string]*Term
	epoch   *Term
	facts   *Facts
	trace   *Trace
	pending []*Pending
	escaped map[*Term]bool
	outcome string
	ret     []*Term
	pval    *Term
	cont    *ssa.BasicBlock // arrived at this loop header by a back edge
	wgAdd   map[*Term]*Lin
	depth   int
	locks   map[*Term]int
}

func (s *State) clone() *State {
	t := *s
	t.stack = make([]*Frame, len(s.stack))
	for i, f := range s.stack {
		t.stack[i] = f.clone()
	}
	t.mem = make(map[*Term]*Term, len(s.mem)+4)
	for k, v := range s.mem {
		t.mem[k] = v
	}
	t.rootEp = cloneMap(s.rootEp)
	t.classEp = make(map[string]*Term, len(s.classEp))
	for k, v := range s.classEp {
		t.classEp[k] = v
	}
	t.pending = append([]*Pending(nil), s.pending...)
	t.escaped = make(map[*Term]bool, len(s.escaped))
	for k := range s.escaped {
		t.escaped[k] = true
	}
	t.wgAdd = make(map[*Term]*Lin, len(s.wgAdd))
	for k, v := range s.wgAdd {
		t.wgAdd[k] = v
	}
	t.locks = make(map[*Term]int, len(s.locks))
	for k, v := range s.locks {
		t.locks[k] = v
	}
	return &t
}

func cloneMap(m map[*Term]*Term) map[*Term]*Term {
	r := make(map[*Term]*Term, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *State) top() *Frame { return s.stack[len(s.stack)-1] }

func (s *State) emit(e *Event) *Event {
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	if e.Facts == nil {
		e.Facts = s.facts
	}
	if len(s.locks) > 0 && e.Locks == nil {
		e.Locks = make(map[*Term]int, len(s.locks))
		for k, v := range s.locks {
			e.Locks[k] = v
		}
	}
	s.trace = &Trace{s.trace, e, n}
	return e
}

// Config selects what the interpreter models and how.
type Config struct {
	Panics   bool                               // functions supplied by the user may panic
	NoPanic  func(e *Event) bool                // exceptions to Panics
	Models   bool                               // use the contracts of package parallel & co
	Opaque   func(f *ssa.Function) bool         // do not look into f: emit a Call
	Stable   bool                               // foreign memory does not change at yields
	Havoc    func(x *Exec, st *State, e *Event) // effects of an unknown call
	Loads    bool                               // emit events for reads and writes of foreign memory
	MaxPath  int
	Merge    bool                     // join the paths of small pure helpers that return an integer
	PureCall func(m *types.Func) bool // methods whose result depends on the receiver and arguments only
	Keep     func(v *types.Var) bool  // fields that nobody else changes
	Spawn    func(st *State)          // called with the state in which a goroutine starts
	WrapAtom bool                     // treat internal.WrapPanic as an uninterpreted function that preserves nil
}

type Exec struct {
	P     *Program
	cfg   Config
	sum   map[*ssa.Function]bool // recursive functions: emit Rec events
	chain []*ssa.Function        // functions on the stack of the spawning goroutine
	errs  []string
	steps int
	paths int
	// statistics
	funcs     map[*ssa.Function]bool
	calls     int
	nloop     int
	instr     int
	inGo      int
	keptClass map[string]bool
	base      int // terms up to this one exist outside of the goroutine or unit under analysis
	pars      int
	data      map[*Term]bool // values of any size: arithmetic on them may overflow
}

func newExec(P *Program, cfg Config) *Exec {
	return &Exec{P: P, cfg: cfg, sum: map[*ssa.Function]bool{}, funcs: map[*ssa.Function]bool{}}
}

func (x *Exec) fail(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	for _, e := range x.errs {
		if e == s {
			return
		}
	}
	x.errs = append(x.errs, s)
}

func newState() *State {
	return &State{
		mem: map[*Term]*Term{}, rootEp: map[*Term]*Term{}, classEp: map[string]*Term{},
		epoch: mk("epoch", "0", nil), facts: newFacts(), escaped: map[*Term]bool{}, wgAdd: map[*Term]*Lin{},
		locks: map[*Term]int{},
	}
}

func (x *Exec) pushFrame(st *State, fn *ssa.Function, args, binds []*Term, retTo ssa.Value) *Frame {
	x.funcs[fn] = true
	f := &Frame{fn: fn, env: map[ssa.Value]*Term{}, retTo: retTo, bind: binds}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		} else {
			x.fail("%s: missing argument", fn)
			f.env[p] = fresh(p.Name(), p.Type())
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			f.env[v] = binds[i]
		} else {
			f.env[v] = fresh(v.Name(), v.Type())
		}
	}
	f.blk = fn.Blocks[0]
	st.stack = append(st.stack, f)
	return f
}

// runFunc interprets fn from st with the given arguments.
func (x *Exec) runFunc(st *State, fn *ssa.Function, args, binds []*Term) []*Path {
	s := st.clone()
	s.stack = nil
	start := s.trace
	x.pushFrame(s, fn, args, binds, nil)
	return x.paths2(x.run(s, nil), start)
}

func (x *Exec) paths2(sts []*State, start *Trace) []*Path {
	var out []*Path
	for _, s := range sts {
		out = append(out, &Path{Events: s.trace.list(start), Facts: s.facts, Outcome: s.outcome, Ret: s.ret, PVal: s.pval, St: s})
	}
	return out
}

// callValue interprets a call of a function value.
func (x *Exec) callValue(st *State, fv *Term, args []*Term) []*Path {
	switch fv.Op {
	case "closure":
		return x.runFunc(st, fv.Fn, args, fv.Args)
	case "fn":
		if fv.Fn.Blocks != nil {
			return x.runFunc(st, fv.Fn, args, nil)
		}
	}
	return nil
}

const maxSteps = 6000000

// run explores until every state ended or stop holds.
func (x *Exec) run(st *State, stop func(*State) bool) []*State {
	var done []*State
	work := []*State{st}
	max := x.cfg.MaxPath
	if max == 0 {
		max = 60000
	}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for {
			if s.outcome != "" || (stop != nil && stop(s)) {
				done = append(done, s)
				x.paths++
				break
			}
			x.steps++
			if x.steps > maxSteps || len(done) > max {
				x.fail("analysis budget exceeded in %s", s.top().fn)
				return done
			}
			next := x.step(s)
			if len(next) == 0 {
				break
			}
			s = next[0]
			work = append(work, next[1:]...)
		}
	}
	return done
}

// val evaluates an operand.
func (x *Exec) val(st *State, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		return mkConst(c)
	case *ssa.Function:
		return mkFn(c)
	case *ssa.Global:
		t := mk("global", c.String(), c.Type())
		return t
	case *ssa.Builtin:
		return mk("builtin", c.Name(), c.Type())
	}
	f := st.top()
	if t, ok := f.env[v]; ok {
		return t
	}
	x.fail("%s: value %s not available", f.fn, v.Name())
	t := fresh(v.Name(), v.Type())
	f.env[v] = t
	return t
}

func (x *Exec) step(st *State) []*State {
	f := st.top()
	if f.unwinding {
		return x.unwind(st)
	}
	if f.pc >= len(f.blk.Instrs) {
		x.fail("%s: fell off block", f.fn)
		return nil
	}
	in := f.blk.Instrs[f.pc]
	f.pc++
	x.instr++
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		c := fresh("cell:"+i.Comment, i.Type())
		c = mk("cell", c.Aux, i.Type())
		c.Note = i.Comment
		f.env[i] = c
	case *ssa.BinOp:
		f.env[i] = x.binop(st, i.Op, x.val(st, i.X), x.val(st, i.Y), i.X.Type(), i.Type())
	case *ssa.UnOp:
		return x.unop(st, i)
	case *ssa.Call:
		return x.doCall(st, x.evalCall(st, i), i, false)
	case *ssa.ChangeInterface:
		f.env[i] = x.val(st, i.X)
	case *ssa.ChangeType:
		f.env[i] = x.val(st, i.X)
	case *ssa.Convert:
		f.env[i] = x.convert(st, x.val(st, i.X), i.X.Type(), i.Type())
	case *ssa.MultiConvert:
		f.env[i] = mk("conv", typeKey(i.Type()), i.Type(), x.val(st, i.X))
	case *ssa.Defer:
		f.defers = append(f.defers, x.evalCall(st, i))
	case *ssa.Extract:
		t := x.val(st, i.Tuple)
		if t.Op == "tuple" && i.Index < len(t.Args) {
			f.env[i] = t.Args[i.Index]
		} else {
			f.env[i] = mk("extract", fmt.Sprint(i.Index), i.Type(), t)
		}
	case *ssa.Field:
		f.env[i] = fieldOf(x.val(st, i.X), i.Field, i.Type())
	case *ssa.FieldAddr:
		f.env[i] = x.fieldAddr(x.val(st, i.X), i)
	case *ssa.Go:
		return x.doGo(st, x.evalCall(st, i), i.Pos())
	case *ssa.If:
		return x.branch(st, x.val(st, i.Cond))
	case *ssa.Index:
		xv, iv := x.val(st, i.X), x.val(st, i.Index)
		if isStringType(i.X.Type()) {
			f.env[i] = mk("strindex", "", i.Type(), xv, iv)
		} else if xv.Op == "array" {
			if c, ok := intVal(iv); ok && int(c) < len(xv.Args) {
				f.env[i] = xv.Args[c]
				break
			}
			f.env[i] = mk("index", "", i.Type(), xv, iv)
		} else {
			f.env[i] = mk("index", "", i.Type(), xv, iv)
		}
	case *ssa.IndexAddr:
		f.env[i] = elemAddr(x.val(st, i.X), x.val(st, i.Index))
	case *ssa.Jump:
		return x.jump(st, f.blk.Succs[0])
	case *ssa.Lookup:
		x.lookup(st, i)
	case *ssa.MakeChan:
		t := mk("chan", fresh("chan", nil).Aux, i.Type(), x.val(st, i.Size))
		f.env[i] = t
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range i.Bindings {
			b = append(b, x.val(st, v))
		}
		f.env[i] = mkClosure(i.Fn.(*ssa.Function), b)
	case *ssa.MakeInterface:
		v := x.val(st, i.X)
		t := mk("iface", typeKey(i.X.Type()), i.Type(), v)
		if t.Ev == nil {
			t.Ev = &Event{Kind: "type", Type: i.X.Type()}
		}
		f.env[i] = t
	case *ssa.MakeMap:
		t := mk("map", fresh("map", nil).Aux, i.Type())
		f.env[i] = t
	case *ssa.MakeSlice:
		t := mk("make", fresh("make", nil).Aux, i.Type(), x.val(st, i.Len), x.val(st, i.Cap))
		f.env[i] = mk("slice", "", i.Type(), t, mkInt(0), x.val(st, i.Len))
	case *ssa.MapUpdate:
		x.mapSet(st, x.val(st, i.Map), x.val(st, i.Key), x.val(st, i.Value), i.Pos())
	case *ssa.Next:
		it := x.val(st, i.Iter)
		tt := i.Type().(*types.Tuple)
		ok := fresh("next.ok", types.Typ[types.Bool])
		var k, v *Term
		if i.IsString {
			k, v = fresh("next.i", types.Typ[types.Int]), fresh("next.r", types.Typ[types.Rune])
		} else {
			k, v = fresh("next.k", tt.At(1).Type()), fresh("next.v", tt.At(2).Type())
		}
		st.emit(&Event{Kind: "MapNext", Pos: i.Pos(), In: f.fn, Addr: it, Res: []*Term{ok, k, v}})
		f.env[i] = mk("tuple", "", i.Type(), ok, k, v)
	case *ssa.Panic:
		st.emit(&Event{Kind: "Panic", Pos: i.Pos(), In: f.fn, Val: x.val(st, i.X)})
		f.unwinding, f.pval = true, x.val(st, i.X)
	case *ssa.Range:
		m := x.val(st, i.X)
		it := mk("iter", fresh("iter", nil).Aux, i.Type(), m)
		st.emit(&Event{Kind: "MapRange", Pos: i.Pos(), In: f.fn, Addr: m, Val: it})
		f.env[i] = it
	case *ssa.Return:
		var rs []*Term
		for _, r := range i.Results {
			rs = append(rs, x.val(st, r))
		}
		x.ret(st, rs)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			c := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.pc-- // come back until there are none left
			return x.doCall(st, c, nil, true)
		}
	case *ssa.Select:
		return x.doSelect(st, i)
	case *ssa.Send:
		ch := x.val(st, i.Chan)
		st.emit(&Event{Kind: "Send", Pos: i.Pos(), In: f.fn, Addr: ch, Val: x.val(st, i.X)})
		x.yield(st, nil)
	case *ssa.Slice:
		f.env[i] = x.slice(st, i)
	case *ssa.SliceToArrayPointer:
		f.env[i] = mk("s2a", typeKey(i.Type()), i.Type(), x.val(st, i.X))
	case *ssa.Store:
		x.store(st, x.val(st, i.Addr), x.val(st, i.Val), i.Val.Type(), i.Pos(), false)
	case *ssa.TypeAssert:
		return x.typeAssert(st, i)
	case *ssa.Phi:
		x.fail("%s: stray phi", f.fn)
	default:
		x.fail("%s: unsupported instruction %T at %s", f.fn, in, x.P.pos(in.Pos()))
		if v, ok := in.(ssa.Value); ok {
			f.env[v] = fresh("?", v.Type())
		}
	}
	return []*State{st}
}

func (x *Exec) fieldAddr(base *Term, i *ssa.FieldAddr) *Term {
	s := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return mkField(base, s, i.Field)
}

var fieldVars = map[*Term]*types.Var{}

// condLocks are the locks that condition variables were made with.
var condLocks = map[*Term]*Term{}

func mkField(base *Term, s *types.Struct, k int) *Term {
	v := s.Field(k)
	t := mk("field", v.Name(), types.NewPointer(v.Type()), base)
	fieldVars[t] = v
	return t
}

func fieldOf(s *Term, k int, typ types.Type) *Term {
	if s.Op == "struct" && k < len(s.Args) {
		return s.Args[k]
	}
	return mk("fieldof", fmt.Sprint(k), typ, s)
}

// ---- control ----

func (x *Exec) branch(st *State, c *Term) []*State {
	f := st.top()
	tb, fb := f.blk.Succs[0], f.blk.Succs[1]
	switch st.facts.truth(c) {
	case 1:
		return x.jump(st, tb)
	case -1:
		return x.jump(st, fb)
	}
	var out []*State
	tf, ok := st.facts.assume(c, true)
	ff, ok2 := st.facts.assume(c, false)
	if ok && ok2 {
		o := st.clone()
		o.facts = ff
		st.facts = tf
		out = append(out, x.jump(st, tb)...)
		out = append(out, x.jump(o, fb)...)
		return out
	}
	if ok {
		st.facts = tf
		return x.jump(st, tb)
	}
	if ok2 {
		st.facts = ff
		return x.jump(st, fb)
	}
	return nil
}

func (x *Exec) jump(st *State, to *ssa.BasicBlock) []*State {
	f := st.top()
	from := f.blk
	loops := x.P.loopsOf(f.fn)
	body, isHeader := loops[to]
	// phi values for this edge
	var idx = -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	vals := make([]*Term, len(phis))
	for i, p := range phis {
		vals[i] = x.val(st, p.Edges[idx])
	}
	f.prev, f.blk, f.pc = from, to, len(phis)
	for i, p := range phis {
		f.env[p] = vals[i]
	}
	if isHeader {
		if body[from] { // back edge
			st.cont = to
			return []*State{st}
		}
		return x.loop(st, phis, to, body)
	}
	return []*State{st}
}

// ret returns from the top frame.
func (x *Exec) ret(st *State, rs []*Term) {
	n := len(st.stack)
	f := st.stack[n-1]
	st.stack = st.stack[:n-1]
	if n == 1 {
		st.outcome, st.ret = "return", rs
		return
	}
	if f.isDefer {
		return // results are dropped; RunDefers or unwinding goes on
	}
	if f.retTo != nil {
		st.top().env[f.retTo] = tupleOf(rs, f.retTo.Type())
	}
}

func tupleOf(rs []*Term, typ types.Type) *Term {
	if _, ok := typ.(*types.Tuple); ok {
		return mk("tuple", "", typ, rs...)
	}
	if len(rs) == 1 {
		return rs[0]
	}
	return mk("tuple", "", typ, rs...)
}

// unwind continues a panic in the top frame.
func (x *Exec) unwind(st *State) []*State {
	f := st.top()
	if f.recovered {
		f.unwinding, f.recovered, f.pval = false, false, nil
		// the remaining deferred calls run, then the function returns
		if f.fn.Recover != nil {
			f.blk, f.pc, f.prev = f.fn.Recover, 0, nil
			// the Recover block only loads results; run defers first
			if len(f.defers) > 0 {
				f.deferRun = true
			}
		} else {
			f.blk, f.pc, f.prev = nil, 0, nil
		}
		if len(f.defers) > 0 {
			f.unwinding = true
			f.recovered = true
			n := len(f.defers)
			c := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return x.doCall(st, c, nil, true)
		}
		if f.blk == nil {
			var rs []*Term
			r := f.fn.Signature.Results()
			for i := 0; i < r.Len(); i++ {
				rs = append(rs, zeroOf(r.At(i).Type()))
			}
			x.ret(st, rs)
		}
		return []*State{st}
	}
	if n := len(f.defers); n > 0 {
		c := f.defers[n-1]
		f.defers = f.defers[:n-1]
		return x.doCall(st, c, nil, true)
	}
	// propagate
	n := len(st.stack)
	st.stack = st.stack[:n-1]
	if n == 1 {
		st.outcome, st.pval = "panic", f.pval
		return []*State{st}
	}
	p := st.top()
	p.unwinding, p.pval, p.recovered = true, f.pval, false
	return []*State{st}
}

func (x *Exec) raise(st *State, v *Term) {
	f := st.top()
	f.unwinding, f.pval, f.recovered = true, v, false
}

// ---- memory ----

func rootOf(a *Term) *Term {
	for {
		switch a.Op {
		case "field", "idx", "slice", "mapelem", "arrelem":
			a = a.Args[0]
		default:
			return a
		}
	}
}

func isLocalRoot(r *Term) bool {
	return r.Op == "cell" || r.Op == "make" || r.Op == "map"
}

func memClass(a *Term) string {
	switch a.Op {
	case "field":
		if v := fieldVars[a]; v != nil {
			return fmt.Sprintf("f%p", v)
		}
		return "f" + a.Aux
	case "idx":
		return "idx"
	case "mapelem":
		return "map"
	}
	return "deref"
}

func (x *Exec) epochFor(st *State, a *Term) *Term {
	if x.immutableAddr(a) {
		return mk("epoch", "0", nil)
	}
	ep := st.epoch
	if x.kept(a) {
		ep = mk("epoch", "0", nil)
	}
	if c, ok := st.classEp[memClass(a)]; ok {
		ep = c
	}
	return ep
}

func (x *Exec) immutableAddr(a *Term) bool {
	if a.Op == "field" {
		if v := fieldVars[a]; v != nil && x.P.immutableField(v) {
			return true
		}
	}
	return false
}

// kept: no other goroutine or function changes the field.
func (x *Exec) kept(a *Term) bool {
	if x.cfg.Keep == nil || a.Op != "field" {
		return false
	}
	v := fieldVars[a]
	if v == nil || !x.cfg.Keep(v) {
		return false
	}
	if x.keptClass == nil {
		x.keptClass = map[string]bool{}
	}
	x.keptClass[memClass(a)] = true
	return true
}

// keptEpochs are the epochs that survive a yield.
func (x *Exec) keptEpochs(st *State) map[string]*Term {
	m := map[string]*Term{}
	for c, e := range st.classEp {
		if x.keptClass[c] {
			m[c] = e
		}
	}
	return m
}

func (x *Exec) read(st *State, a *Term, typ types.Type) *Term {
	if v, ok := st.mem[a]; ok {
		return v
	}
	root := rootOf(a)
	// elements of appended slices
	if a.Op == "idx" && a.Args[0].Op == "append" {
		ap := a.Args[0]
		n := mkLen(ap.Args[0])
		if st.facts.le(a.Args[1], n, 1) {
			return x.read(st, elemAddr(ap.Args[0], a.Args[1]), typ)
		}
		if st.facts.le(n, a.Args[1], 0) {
			return x.read(st, elemAddr(ap.Args[1], sub(a.Args[1], n)), typ)
		}
	}
	if a.Op == "idx" && (root.Op == "cell" || root.Op == "make") {
		// an equal index under another name
		for k, v := range st.mem {
			if k.Op == "idx" && k.Args[0] == a.Args[0] {
				if st.facts.eq(k.Args[1], a.Args[1]) {
					return v
				}
			}
		}
		for k := range st.mem {
			if k.Op == "idx" && k.Args[0] == a.Args[0] && !x.distinctIdx(st, k.Args[1], a.Args[1]) {
				return fresh("elem", typ)
			}
		}
	}
	if s, ok := typ.Underlying().(*types.Struct); ok {
		if own := x.ownStruct(typ); own || isLocalRoot(root) && x.anyField(st, a, s) {
			args := make([]*Term, s.NumFields())
			for k := range args {
				args[k] = x.read(st, mkField(a, s, k), s.Field(k).Type())
			}
			return mk("struct", typeKey(typ), typ, args...)
		}
	}
	if at, ok := typ.Underlying().(*types.Array); ok && isLocalRoot(root) && at.Len() <= 32 {
		args := make([]*Term, at.Len())
		for k := range args {
			args[k] = x.read(st, elemAddr(a, mkInt(int64(k))), at.Elem())
		}
		return mk("array", "", typ, args...)
	}
	if isLocalRoot(root) {
		// a struct stored as a whole
		if a.Op == "field" {
			if v, ok := st.mem[a.Args[0]]; ok {
				if k := fieldIndex(a, v.Typ); k >= 0 {
					return fieldOf(v, k, typ)
				}
				return mk("fieldof", a.Aux, typ, v)
			}
		}
		if ep, ok := st.rootEp[root]; ok {
			t := mk("load", "", typ, a, ep)
			return t
		}
		return zeroOf(typ)
	}
	return mk("load", "", typ, a, x.epochFor(st, a))
}

func (x *Exec) ownStruct(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg() != nil && x.P.inModule(n.Obj().Pkg())
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (x *Exec) anyField(st *State, a *Term, s *types.Struct) bool {
	for k := 0; k < s.NumFields(); k++ {
		if _, ok := st.mem[mkField(a, s, k)]; ok {
			return true
		}
	}
	return false
}

// fieldIndex finds the field that a field address names in a struct type.
func fieldIndex(a *Term, t types.Type) int {
	v := fieldVars[a]
	if v == nil || t == nil {
		return -1
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for k := 0; k < s.NumFields(); k++ {
		if s.Field(k) == v {
			return k
		}
	}
	return -1
}

func (x *Exec) distinctIdx(st *State, i, j *Term) bool {
	d := linOf(i).sub(linOf(j))
	return st.facts.truth(mkEq0(d)) == -1
}

func (x *Exec) load(st *State, a *Term, typ types.Type, pos token.Pos) *Term {
	v := x.read(st, a, typ)
	vol := x.checkAccess(st, a, false, false, pos)
	if vol {
		v = fresh("racy", typ)
	}
	if x.traced(a) {
		st.emit(&Event{Kind: "Load", Pos: pos, In: st.top().fn, Addr: a, Val: v})
	}
	return v
}

// traced addresses appear in the trace: captured variables and foreign memory.
func (x *Exec) traced(a *Term) bool {
	r := rootOf(a)
	if r.Op == "global" {
		return true
	}
	if isLocalRoot(r) {
		return true
	}
	return x.cfg.Loads && !x.immutableAddr(a)
}

func (x *Exec) store(st *State, a, v *Term, typ types.Type, pos token.Pos, atomic bool) {
	x.checkAccess(st, a, true, atomic, pos)
	if x.traced(a) {
		st.emit(&Event{Kind: "Store", Pos: pos, In: st.top().fn, Addr: a, Val: v, Write: true, Atomic: atomic})
	}
	x.write(st, a, v, typ)
}

func (x *Exec) write(st *State, a, v *Term, typ types.Type) {
	root := rootOf(a)
	if s, ok := typ.Underlying().(*types.Struct); ok && x.ownStruct(typ) {
		for k := 0; k < s.NumFields(); k++ {
			x.write(st, mkField(a, s, k), fieldOf(v, k, s.Field(k).Type()), s.Field(k).Type())
		}
		return
	} else if ok {
		// a struct of another module is kept whole
		for k := 0; k < s.NumFields(); k++ {
			delete(st.mem, mkField(a, s, k))
		}
	}
	if a.Op == "field" {
		// part of a struct that was stored whole
		up := a.Args[0]
		if w, ok := st.mem[up]; ok && w.Typ != nil {
			if s, ok := w.Typ.Underlying().(*types.Struct); ok {
				delete(st.mem, up)
				for k := 0; k < s.NumFields(); k++ {
					st.mem[mkField(up, s, k)] = fieldOf(w, k, s.Field(k).Type())
				}
			}
		}
	}
	if v.Op == "array" {
		at := typ.Underlying().(*types.Array)
		for k, e := range v.Args {
			x.write(st, elemAddr(a, mkInt(int64(k))), e, at.Elem())
		}
		return
	}
	switch {
	case a.Op == "idx":
		for k := range st.mem {
			if k == a || !underIdx(k) {
				continue
			}
			ki := idxPart(k)
			if ki.Args[0] == a.Args[0] {
				if x.distinctIdx(st, ki.Args[1], a.Args[1]) {
					continue
				}
			} else if isLocalRoot(rootOf(k)) && isLocalRoot(root) && rootOf(k) != root {
				continue
			} else if isLocalRoot(rootOf(k)) != isLocalRoot(root) && !st.escaped[root] && !st.escaped[rootOf(k)] {
				continue
			}
			delete(st.mem, k)
			if isLocalRoot(rootOf(k)) {
				st.rootEp[rootOf(k)] = fresh("epoch", nil)
			}
		}
		if !isLocalRoot(root) {
			st.classEp["idx"] = fresh("epoch", nil)
		}
	case !isLocalRoot(root):
		c := memClass(a)
		for k := range st.mem {
			if k != a && memClass(k) == c && !isLocalRoot(rootOf(k)) && rootOf(k) != root {
				delete(st.mem, k)
			}
		}
		st.classEp[c] = fresh("epoch", nil)
	}
	st.mem[a] = v
}

func underIdx(k *Term) bool { return idxPart(k) != nil }

func idxPart(k *Term) *Term {
	for {
		switch k.Op {
		case "idx":
			return k
		case "field":
			k = k.Args[0]
		default:
			return nil
		}
	}
}

// yield: other goroutines or unknown code may run here.
func (x *Exec) yield(st *State, e *Event) {
	if x.cfg.Havoc != nil {
		x.cfg.Havoc(x, st, e)
		return
	}
	x.havocForeign(st)
}

func (x *Exec) havocForeign(st *State) {
	if x.cfg.Stable {
		return
	}
	st.epoch = fresh("epoch", nil)
	st.classEp = x.keptEpochs(st)
	for k := range st.mem {
		if x.kept(k) {
			continue
		}
		r := rootOf(k)
		if isLocalRoot(r) {
			if st.escaped[r] && !x.immutableAddr(k) {
				delete(st.mem, k)
				st.rootEp[r] = fresh("epoch", nil)
			}
			continue
		}
		if !x.immutableAddr(k) {
			delete(st.mem, k)
		}
	}
}

// escape marks local memory reachable from t as visible to unknown code.
func (x *Exec) escape(st *State, t *Term) {
	switch t.Op {
	case "cell", "make", "map":
		if st.escaped[t] {
			return
		}
		st.escaped[t] = true
		for k, v := range st.mem {
			if rootOf(k) == t {
				x.escape(st, v)
			}
		}
	case "closure", "iface", "struct", "tuple", "slice", "field", "idx", "append", "conv":
		for _, a := range t.Args {
			x.escape(st, a)
		}
	}
}

// ---- operators ----

// onData: is this value computed from data of any size?
func (x *Exec) onData(v *Term) bool {
	if len(x.data) == 0 {
		return false
	}
	for _, m := range linOf(v).M {
		for _, a := range m.Vars {
			if x.data[a] {
				return true
			}
		}
	}
	return false
}

func (x *Exec) binop(st *State, op token.Token, a, b *Term, at, rt types.Type) *Term {
	if isIntType(at) {
		if isUnsigned(at) {
			// unsigned arithmetic wraps around
			wraps := false
			switch op {
			case token.SUB:
				wraps = !st.facts.entailsGe(linOf(a).sub(linOf(b)))
			case token.ADD, token.MUL, token.SHL:
				wraps = !x.small(st, a) || !x.small(st, b)
				if op == token.MUL && (a.Op == "quo" && a.Args[1] == b || b.Op == "quo" && b.Args[1] == a) {
					wraps = false // (h/n)*n is at most h
				}
			}
			if wraps {
				return mk("bin:"+op.String(), "", rt, a, b)
			}
		}
		switch op {
		case token.ADD, token.SUB, token.MUL, token.SHL:
			if x.onData(a) || x.onData(b) {
				return mk("bin:"+op.String(), "", rt, a, b)
			}
		}
		switch op {
		case token.ADD:
			return add(a, b)
		case token.SUB:
			return sub(a, b)
		case token.MUL:
			return linOf(a).mul(linOf(b)).term()
		case token.QUO:
			return mkQuo(a, b)
		case token.REM:
			return mkRem(a, b)
		case token.SHL:
			if c, ok := intVal(b); ok && c >= 0 && c < 40 {
				return linOf(a).mul(linConst(1 << uint(c))).term()
			}
		case token.SHR:
			if c, ok := intVal(b); ok && c >= 0 && c < 40 {
				if st.facts.entailsGe(linOf(a)) {
					return mkQuo(a, mkInt(1<<uint(c)))
				}
				return mk("fdiv", "", types.Typ[types.Int], a, mkInt(1<<uint(c)))
			}
		case token.LSS:
			return mkGe0(linOf(b).sub(linOf(a)).addc(-1))
		case token.LEQ:
			return mkGe0(linOf(b).sub(linOf(a)))
		case token.GTR:
			return mkGe0(linOf(a).sub(linOf(b)).addc(-1))
		case token.GEQ:
			return mkGe0(linOf(a).sub(linOf(b)))
		case token.EQL:
			return mkEq0(linOf(a).sub(linOf(b)))
		case token.NEQ:
			return mkNot(mkEq0(linOf(a).sub(linOf(b))))
		}
		return mk("bin:"+op.String(), "", rt, a, b)
	}
	switch op {
	case token.EQL:
		return x.mkEq(a, b)
	case token.NEQ:
		return mkNot(x.mkEq(a, b))
	case token.LSS:
		return mk("lt", typeKind(at), rt, a, b)
	case token.GTR:
		return mk("lt", typeKind(at), rt, b, a)
	case token.LEQ:
		if isStringType(at) {
			return mkNot(mk("lt", typeKind(at), rt, b, a))
		}
		return mk("le", typeKind(at), rt, a, b)
	case token.GEQ:
		if isStringType(at) {
			return mkNot(mk("lt", typeKind(at), rt, a, b))
		}
		return mk("le", typeKind(at), rt, b, a)
	}
	if a.CV != nil && b.CV != nil && op == token.ADD && a.CV.Kind() == constant.String {
		t := mk("const", "string:"+constant.BinaryOp(a.CV, token.ADD, b.CV).ExactString(), rt)
		t.CV = constant.BinaryOp(a.CV, token.ADD, b.CV)
		return t
	}
	return mk("bin:"+op.String(), "", rt, a, b)
}

func typeKind(t types.Type) string {
	switch {
	case isFloatType(t):
		return "float"
	case isStringType(t):
		return "string"
	}
	return typeKey(t)
}

func (x *Exec) mkEq(a, b *Term) *Term {
	if a == b && !(a.Typ != nil && isFloatType(a.Typ)) {
		return tTrue
	}
	if a == tTrue || a == tFalse {
		a, b = b, a
	}
	if b == tTrue {
		return a
	}
	if b == tFalse {
		return mkNot(a)
	}
	if a == tNil {
		a, b = b, a
	}
	if b == tNil {
		switch nilness(a) {
		case 1:
			return tTrue
		case -1:
			return tFalse
		}
		if a.Op == "pure" && a.Aux == "internal.WrapPanic" {
			return x.mkEq(a.Args[0], tNil)
		}
		if a.Op == "slice" || a.Op == "append" {
			return mk("eq", "", types.Typ[types.Bool], a, b)
		}
		return mk("eq", "", types.Typ[types.Bool], a, b)
	}
	if a.CV != nil && b.CV != nil {
		return mkBool(constant.Compare(a.CV, token.EQL, b.CV))
	}
	if a.Op == "iface" && b.Op == "iface" {
		if a.Aux != b.Aux {
			return tFalse
		}
		if isIntTerm(a.Args[0]) {
			return mkEq0(linOf(a.Args[0]).sub(linOf(b.Args[0])))
		}
		return x.mkEq(a.Args[0], b.Args[0])
	}
	if (a.Op == "cell" || a.Op == "chan" || a.Op == "map") && (b.Op == "cell" || b.Op == "chan" || b.Op == "map") {
		return mkBool(a == b)
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk("eq", "", types.Typ[types.Bool], a, b)
}

// nilness: 1 nil, -1 not nil, 0 unknown.
func nilness(a *Term) int {
	switch a.Op {
	case "nil":
		return 1
	case "cell", "closure", "fn", "iface", "field", "idx", "make", "map", "chan", "pval", "struct", "global":
		return -1
	case "pure":
		if strings.HasPrefix(a.Aux, "errors.New") || strings.HasPrefix(a.Aux, "fmt.Errorf") {
			return -1
		}
	}
	return 0
}

func (x *Exec) convert(st *State, v *Term, from, to types.Type) *Term {
	if isIntType(from) && isIntType(to) {
		if v.Op == "conv" && types.Identical(v.Typ, from) && len(v.Args) == 1 && isIntTerm(v.Args[0]) {
			// there and back
			if t := v.Args[0].Typ; t != nil && types.Identical(t, to) && x.bits(from) >= x.bits(to) {
				return v.Args[0]
			}
		}
		if x.fits(st, v, from, to) {
			return v
		}
		return mk("conv", typeKey(to.Underlying()), to, v)
	}
	if isStringType(from) && isStringType(to) {
		return v
	}
	if isIntTerm(v) && isFloatType(to) {
		return mk("conv", typeKey(to.Underlying()), to, v)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return mk("conv", typeKey(to.Underlying()), to, v)
}

// bits is the size of an integer type.
func (x *Exec) bits(t types.Type) int {
	return int(x.P.sizes().Sizeof(t.Underlying())) * 8
}

// fits: does converting v keep its value?
func (x *Exec) fits(st *State, v *Term, from, to types.Type) bool {
	fb, tb := x.bits(from), x.bits(to)
	fu, tu := isUnsigned(from), isUnsigned(to)
	switch {
	case fu == tu && tb >= fb, fu && !tu && tb > fb:
		return true
	case !fu && tu && tb >= fb:
		return st.facts.entailsGe(linOf(v))
	case fu && !tu && tb == fb:
		return x.small(st, v)
	}
	// the target is narrower
	n := uint(tb)
	if !tu {
		n--
	}
	if n > 62 {
		n = 62
	}
	if !st.facts.entailsGe(linConst(1<<n - 1).sub(linOf(v))) {
		return false
	}
	if tu {
		return st.facts.entailsGe(linOf(v))
	}
	return st.facts.entailsGe(linOf(v).addc(1 << n))
}

// small: is the unsigned value v certainly not above the largest signed one?
func (x *Exec) small(st *State, v *Term) bool {
	if c, ok := intVal(v); ok {
		return c >= 0
	}
	if v.Op == "conv" && isIntTerm(v.Args[0]) && v.Args[0].Typ != nil && x.bits(v.Args[0].Typ) < x.bits(types.Typ[types.Int]) && isUnsigned(v.Args[0].Typ) {
		return true
	}
	if st.facts.entailsGe(linConst(1 << 40).sub(linOf(v))) {
		return true
	}
	hit := false
	seen := map[*Term]bool{}
	walkTerm(v, func(w *Term) {
		if hit || seen[w] || len(seen) > 12 {
			return
		}
		if w.Op == "len" || w.Op == "cap" || w.Op == "atom" && w.Typ != nil && isIntType(w.Typ) && !isUnsigned(w.Typ) {
			seen[w] = true
			hit = st.facts.entailsGe(linOf(w).sub(linOf(v)))
		}
	})
	return hit
}

func (x *Exec) slice(st *State, i *ssa.Slice) *Term {
	v := x.val(st, i.X)
	var lo, hi *Term
	lo = mkInt(0)
	if i.Low != nil {
		lo = x.val(st, i.Low)
	}
	if isStringType(i.X.Type()) {
		if i.High != nil {
			hi = x.val(st, i.High)
		} else {
			hi = mkLen(v)
		}
		return mk("substr", "", i.Type(), v, lo, hi)
	}
	if p, ok := i.X.Type().Underlying().(*types.Pointer); ok {
		n := p.Elem().Underlying().(*types.Array).Len()
		if i.High != nil {
			hi = x.val(st, i.High)
		} else {
			hi = mkInt(n)
		}
		return mk("slice", "", i.Type(), v, lo, hi)
	}
	if i.High != nil {
		hi = x.val(st, i.High)
	} else {
		hi = mkLen(v)
	}
	if v == tNil {
		return tNil
	}
	return mkSlice(v, lo, hi, i.Type())
}

func (x *Exec) unop(st *State, i *ssa.UnOp) []*State {
	f := st.top()
	v := x.val(st, i.X)
	switch i.Op {
	case token.MUL:
		f.env[i] = x.load(st, v, i.Type(), i.Pos())
	case token.NOT:
		f.env[i] = mkNot(v)
	case token.SUB:
		if isIntType(i.Type()) && !x.onData(v) {
			f.env[i] = linOf(v).neg().term()
		} else {
			f.env[i] = mk("neg", "", i.Type(), v)
		}
	case token.ARROW:
		return x.recv(st, i, v)
	default:
		f.env[i] = mk("un:"+i.Op.String(), "", i.Type(), v)
	}
	return []*State{st}
}

func (x *Exec) recv(st *State, i *ssa.UnOp, ch *Term) []*State {
	f := st.top()
	et := ch.Typ
	var elem types.Type
	if c, ok := i.X.Type().Underlying().(*types.Chan); ok {
		elem = c.Elem()
	}
	_ = et
	e := st.emit(&Event{Kind: "Recv", Pos: i.Pos(), In: f.fn, Addr: ch})
	v := x.freshOf("recv", elem, e)
	ok := fresh("recv.ok", types.Typ[types.Bool])
	e.Res = []*Term{v, ok}
	if i.CommaOk {
		f.env[i] = mk("tuple", "", i.Type(), v, ok)
	} else {
		f.env[i] = v
	}
	sts := x.join(st, nil, ch, i.Pos())
	for _, s := range sts {
		if j := s.trace.ev; j.Kind == "Join" && j != e {
			// the one sender has been found: this is what it sends
			if k := signalAt(j.Sub[0], nil, ch); k >= 0 {
				got := j.Sub[0].Events[k]
				val, okv := v, ok
				if got.Kind == "Send" && got.Val != nil {
					val, okv = got.Val, tTrue
				} else if got.Kind == "Close" {
					val, okv = zeroOf(elem), tFalse
				}
				if i.CommaOk {
					s.top().env[i] = mk("tuple", "", i.Type(), val, okv)
				} else {
					s.top().env[i] = val
				}
			}
		}
		x.yield(s, e)
	}
	return sts
}

// freshOf makes an unknown value; repository structs become structs of unknowns.
func (x *Exec) freshOf(note string, t types.Type, e *Event) *Term {
	if t == nil {
		return fresh(note, nil)
	}
	if s, ok := t.Underlying().(*types.Struct); ok && x.ownStruct(t) {
		args := make([]*Term, s.NumFields())
		for k := range args {
			args[k] = x.freshOf(note+"."+s.Field(k).Name(), s.Field(k).Type(), e)
		}
		return mk("struct", typeKey(t), t, args...)
	}
	v := fresh(note, t)
	v.Ev = e
	return v
}

func (x *Exec) typeAssert(st *State, i *ssa.TypeAssert) []*State {
	f := st.top()
	v := x.val(st, i.X)
	res, ok := x.assertType(v, i.AssertedType)
	if i.CommaOk {
		if ok == tFalse {
			res = zeroOf(i.AssertedType)
		}
		f.env[i] = mk("tuple", "", i.Type(), res, ok)
		return []*State{st}
	}
	f.env[i] = res
	if st.facts.truth(ok) == 1 {
		return []*State{st}
	}
	out := []*State{st}
	if x.cfg.Panics || ok == tFalse {
		o := st.clone()
		if g, cons := o.facts.assume(ok, false); cons {
			o.facts = g
			pv := mk("pval", fresh("assert", nil).Aux, nil)
			o.emit(&Event{Kind: "Panic", Pos: i.Pos(), In: f.fn, Val: pv, Name: "type assertion"})
			x.raise(o, pv)
			out = append(out, o)
		}
	}
	if g, cons := st.facts.assume(ok, true); cons {
		st.facts = g
		return out
	}
	return out[1:]
}

func (x *Exec) assertType(v *Term, t types.Type) (res, ok *Term) {
	_, isIface := t.Underlying().(*types.Interface)
	if v == tNil {
		return zeroOf(t), tFalse
	}
	if v.Op == "iface" && v.Ev != nil {
		dt := v.Ev.Type
		if isIface {
			if types.Implements(dt, t.Underlying().(*types.Interface)) {
				return v, tTrue
			}
			return tNil, tFalse
		}
		if types.Identical(dt, t) {
			return v.Args[0], tTrue
		}
		return zeroOf(t), tFalse
	}
	aux := typeKey(t)
	if isIface {
		if v.Typ != nil {
			if _, isI := v.Typ.Underlying().(*types.Interface); isI && types.Implements(v.Typ, t.Underlying().(*types.Interface)) {
				return v, mkNot(mk("eq", "", types.Typ[types.Bool], v, tNil))
			}
		}
		return v, mk("typeok", "?"+aux, types.Typ[types.Bool], v)
	}
	return mk("assert", aux, t, v), mk("typeok", aux, types.Typ[types.Bool], v)
}

// ---- maps ----

func mapElem(m, k *Term) *Term { return mk("mapelem", "", nil, m, k) }

func (x *Exec) lookup(st *State, i *ssa.Lookup) {
	f := st.top()
	m, k := x.val(st, i.X), x.val(st, i.Index)
	if isStringType(i.X.Type()) {
		f.env[i] = mk("strindex", "", i.Type(), m, k)
		return
	}
	et := i.X.Type().Underlying().(*types.Map).Elem()
	a := mapElem(m, k)
	x.checkAccess(st, m, false, false, i.Pos())
	tup, ok := st.mem[a]
	if !ok {
		tup = mk("tuple", "", nil, fresh("mapval", et), fresh("mapok", types.Typ[types.Bool]))
		st.mem[a] = tup
	}
	st.emit(&Event{Kind: "MapGet", Pos: i.Pos(), In: f.fn, Addr: m, Args: []*Term{k}, Res: tup.Args})
	if i.CommaOk {
		f.env[i] = tup
	} else {
		f.env[i] = tup.Args[0]
	}
}

func (x *Exec) mapSet(st *State, m, k, v *Term, pos token.Pos) {
	x.checkAccess(st, m, true, false, pos)
	st.emit(&Event{Kind: "MapSet", Pos: pos, In: st.top().fn, Addr: m, Args: []*Term{k}, Val: v, Write: true})
	x.mapWrite(st, m, k, mk("tuple", "", nil, v, tTrue))
}

func (x *Exec) mapWrite(st *State, m, k, tup *Term) {
	for a := range st.mem {
		if a.Op != "mapelem" || (a.Args[0] == m && a.Args[1] == k) {
			continue
		}
		if a.Args[0] == m && isIntTerm(k) && x.distinctIdx(st, a.Args[1], k) {
			continue
		}
		if a.Args[0] != m && isLocalRoot(m) && !st.escaped[m] {
			continue
		}
		delete(st.mem, a)
	}
	st.mem[mapElem(m, k)] = tup
}

func (x *Exec) mapDel(st *State, m, k *Term, mt types.Type, pos token.Pos) {
	x.checkAccess(st, m, true, false, pos)
	st.emit(&Event{Kind: "MapDel", Pos: pos, In: st.top().fn, Addr: m, Args: []*Term{k}, Write: true})
	z := tNil
	if mm, ok := mt.Underlying().(*types.Map); ok {
		z = zeroOf(mm.Elem())
	}
	x.mapWrite(st, m, k, mk("tuple", "", nil, z, tFalse))
}

// ---- select ----

func (x *Exec) doSelect(st *State, i *ssa.Select) []*State {
	f := st.top()
	var cases []SelCase
	for _, s := range i.States {
		c := SelCase{Send: s.Dir == types.SendOnly, Chan: x.val(st, s.Chan)}
		if s.Send != nil {
			c.Val = x.val(st, s.Send)
		}
		cases = append(cases, c)
	}
	n := len(cases)
	var out []*State
	total := n
	if !i.Blocking {
		total++
	}
	base := st
	for k := 0; k < total; k++ {
		s := base
		if k < total-1 {
			s = base.clone()
		}
		ff := s.top()
		chosen := k
		if k == n {
			chosen = -1
		}
		e := s.emit(&Event{Kind: "Select", Pos: i.Pos(), In: f.fn, Cases: cases, Chosen: chosen, Dflt: !i.Blocking})
		ok := fresh("recv.ok", types.Typ[types.Bool])
		rs := []*Term{mkInt(int64(chosen)), ok}
		for j, sc := range i.States {
			if sc.Dir != types.RecvOnly {
				continue
			}
			et := sc.Chan.Type().Underlying().(*types.Chan).Elem()
			if j == k {
				v := x.freshOf("recv", et, e)
				e.Res = []*Term{v, ok}
				rs = append(rs, v)
			} else {
				rs = append(rs, zeroOf(et))
			}
		}
		ff.env[i] = mk("tuple", "", i.Type(), rs...)
		x.yield(s, e)
		if k < n && !cases[k].Send {
			out = append(out, x.join(s, nil, cases[k].Chan, i.Pos())...)
		} else {
			out = append(out, s)
		}
	}
	return out
}
