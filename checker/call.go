package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callInfo struct {
	fn     *Term       // called value (nil for invokes)
	recv   *Term       // receiver of an invoke
	method *types.Func // invoked method
	args   []*Term
	pos    token.Pos
	sig    *types.Signature
	argT   []types.Type
}

func short(s string) string {
	return strings.ReplaceAll(s, "github.com/exascience/", "")
}

func (x *Exec) evalCall(st *State, ci ssa.CallInstruction) callInfo {
	cc := ci.Common()
	c := callInfo{pos: ci.Pos(), sig: cc.Signature()}
	if !c.pos.IsValid() {
		c.pos = cc.Pos()
	}
	if cc.IsInvoke() {
		c.recv, c.method = x.val(st, cc.Value), cc.Method
	} else {
		c.fn = x.val(st, cc.Value)
	}
	for _, a := range cc.Args {
		c.args = append(c.args, x.val(st, a))
		c.argT = append(c.argT, a.Type())
	}
	return c
}

func (x *Exec) setRes(st *State, ret ssa.Value, rs ...*Term) {
	if ret != nil {
		if len(rs) == 0 {
			st.top().env[ret] = mk("tuple", "", nil)
			return
		}
		st.top().env[ret] = tupleOf(rs, ret.Type())
	}
}

// doCall executes a call in st (which it owns).
func (x *Exec) doCall(st *State, c callInfo, ret ssa.Value, deferred bool) []*State {
	x.calls++
	one := []*State{st}
	if c.method != nil { // interface method
		if c.recv.Op == "iface" && c.recv.Ev != nil {
			if f := x.lookupMethod(c.recv.Ev.Type, c.method); f != nil {
				c.args = append([]*Term{c.recv.Args[0]}, c.args...)
				c.argT = append([]types.Type{c.recv.Ev.Type}, c.argT...)
				c.fn = mkFn(f)
				c.method = nil
				return x.doCall(st, c, ret, deferred)
			}
		}
		return x.invoke(st, c, ret)
	}
	switch c.fn.Op {
	case "builtin":
		return x.builtin(st, c, ret)
	case "fn", "closure":
		f := c.fn.Fn
		name := short(f.String())
		if sts, ok := x.intrinsic(st, c, f, name, ret, deferred); ok {
			return sts
		}
		if g := x.P.std[name]; g != nil && f.Blocks == nil {
			f = g
		}
		if f.Blocks == nil {
			return x.external(st, c, f, name, ret)
		}
		if x.cfg.Opaque != nil && x.cfg.Opaque(f) {
			return x.unknown(st, c, name, f, c.fn, ret, x.cfg.Panics)
		}
		if x.onStack(st, f) || x.sum[f] {
			return x.rec(st, c, f, name, ret)
		}
		if len(st.stack) > 40 {
			x.fail("call depth exceeded at %s", x.P.pos(c.pos))
			return nil
		}
		if x.cfg.Merge && !deferred && mergeable(f) {
			return x.merged(st, c, f, ret)
		}
		fr := x.pushFrame(st, f, c.args, c.fn.Args, ret)
		fr.isDefer = deferred
		return one
	}
	if c.fn == tNil {
		pv := mk("pval", fresh("nilcall", nil).Aux, nil)
		st.emit(&Event{Kind: "Panic", Pos: c.pos, In: st.top().fn, Val: pv, Name: "nil function call"})
		x.raise(st, pv)
		return one
	}
	return x.unknown(st, c, "", nil, c.fn, ret, x.cfg.Panics)
}

func (x *Exec) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	sel := x.P.SSA.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return x.P.SSA.MethodValue(sel)
}

func (x *Exec) onStack(st *State, f *ssa.Function) bool {
	for _, g := range st.stack {
		if g.fn == f {
			return true
		}
	}
	for _, g := range x.chain {
		if g == f {
			return true
		}
	}
	return false
}

func (x *Exec) results(sig *types.Signature, note string, e *Event) []*Term {
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, x.freshOf(note, sig.Results().At(i).Type(), e))
	}
	return rs
}

// unknown is a call whose body is not looked into.
func (x *Exec) unknown(st *State, c callInfo, name string, static *ssa.Function, callee *Term, ret ssa.Value, panics bool) []*State {
	mkE := func() *Event {
		return &Event{Kind: "Call", Name: name, Pos: c.pos, In: st.top().fn, Callee: callee, Static: static, Args: c.args}
	}
	for _, a := range c.args {
		x.escape(st, a)
	}
	if callee != nil {
		x.escape(st, callee)
	}
	var out []*State
	if panics {
		e := mkE()
		if x.cfg.NoPanic == nil || !x.cfg.NoPanic(e) {
			o := st.clone()
			e.Raised = mk("pval", fresh("panic", nil).Aux, nil)
			o.emit(e)
			x.yield(o, e)
			x.raise(o, e.Raised)
			out = append(out, o)
		}
	}
	e := st.emit(mkE())
	note := "res"
	if name != "" {
		note = name[strings.LastIndexByte(name, '.')+1:]
	} else if callee != nil && callee.Note != "" {
		note = callee.Note
	}
	e.Res = x.results(c.sig, note, e)
	x.yield(st, e)
	x.setRes(st, ret, e.Res...)
	return append([]*State{st}, out...)
}

// rec is a call of a function that is being analysed already: its effect is
// given by induction.
func (x *Exec) rec(st *State, c callInfo, f *ssa.Function, name string, ret ssa.Value) []*State {
	mkE := func(s *State) *Event {
		return &Event{Kind: "Rec", Name: name, Pos: c.pos, In: st.top().fn, Callee: c.fn, Static: f, Args: c.args}
	}
	snap := st.clone()
	var out []*State
	if x.cfg.Panics {
		o := st.clone()
		e := mkE(o)
		e.St = snap
		e.Raised = mk("pval", fresh("panic", nil).Aux, nil)
		o.emit(e)
		x.yield(o, e)
		x.raise(o, e.Raised)
		out = append(out, o)
	}
	e := st.emit(mkE(st))
	e.St = snap
	e.Res = x.results(c.sig, f.Name(), e)
	x.yield(st, e)
	x.setRes(st, ret, e.Res...)
	return append([]*State{st}, out...)
}

// invoke is a method call on an interface value of unknown type.
func (x *Exec) invoke(st *State, c callInfo, ret ssa.Value) []*State {
	name := short(c.method.FullName())
	switch name {
	case "(sync.Locker).Lock":
		x.lock(st, c.recv, "Lock", c.pos)
		x.setRes(st, ret)
		return []*State{st}
	case "(sync.Locker).Unlock":
		x.unlock(st, c.recv, "Unlock", c.pos)
		x.setRes(st, ret)
		return []*State{st}
	case "(context.Context).Done", "(reflect.Type).Elem", "(reflect.Type).Kind", "(context.Context).Value", "(error).Error":
		x.setRes(st, ret, mk("pure", name, c.sig.Results().At(0).Type(), append([]*Term{c.recv}, c.args...)...))
		return []*State{st}
	case "(pargo/sync.Hasher).Hash":
		// the hash value is a function of the key
		sts := x.unknown(st, c, name, nil, c.recv, ret, x.cfg.Panics)
		for _, s := range sts {
			e := s.trace.ev
			if e.Raised == nil && len(e.Res) == 1 {
				e.Res = []*Term{mk("pure", "Hash", c.sig.Results().At(0).Type(), c.recv)}
				x.setRes(s, ret, e.Res...)
			}
		}
		return sts
	case "(context.Context).Err":
		e := st.emit(&Event{Kind: "Call", Name: name, Pos: c.pos, In: st.top().fn, Callee: c.recv})
		e.Res = x.results(c.sig, "ctxErr", e)
		x.setRes(st, ret, e.Res...)
		return []*State{st}
	}
	if x.cfg.PureCall != nil && x.cfg.PureCall(c.method) && c.sig.Results().Len() == 1 {
		t := mk("pure", c.method.Name(), c.sig.Results().At(0).Type(), append([]*Term{c.recv}, c.args...)...)
		st.emit(&Event{Kind: "Pure", Name: name, Pos: c.pos, In: st.top().fn, Callee: c.recv, Args: c.args, Res: []*Term{t}})
		if c.method.Name() == "Len" {
			st.facts = st.facts.withGe(linOf(t))
		}
		x.setRes(st, ret, t)
		return []*State{st}
	}
	return x.unknown(st, c, name, nil, c.recv, ret, x.cfg.Panics)
}

// mergeable: a helper without loops that computes an integer and branches a lot.
func mergeable(f *ssa.Function) bool {
	r := f.Signature.Results()
	if r.Len() != 1 || !isIntType(r.At(0).Type()) || f.Recover != nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.Send, *ssa.MapUpdate:
				return false
			}
		}
	}
	return true
}

// merged runs a mergeable function and joins its paths if there are many: the
// result is an unknown integer within bounds that hold on every path.
func (x *Exec) merged(st *State, c callInfo, f *ssa.Function, ret ssa.Value) []*State {
	base := st.clone()
	start := st.trace
	depth := len(st.stack)
	x.pushFrame(st, f, c.args, c.fn.Args, ret)
	outs := x.run(st, func(q *State) bool { return len(q.stack) == depth && !q.top().unwinding })
	var ends, other []*State
	for _, o := range outs {
		if o.outcome == "" && len(o.stack) == depth && lockKey(o.locks) == lockKey(base.locks) && len(o.pending) == len(base.pending) {
			ends = append(ends, o)
		} else {
			other = append(other, o)
		}
	}
	if len(ends) < 4 || ret == nil {
		return outs
	}
	for _, o := range ends { // nothing but the result may differ
		for k, v := range base.mem {
			if w, ok := o.mem[k]; ok && w != v {
				return outs
			}
		}
	}
	m := ends[0].clone()
	for _, o := range ends[1:] {
		for k := range m.mem {
			if w, ok := o.mem[k]; !ok || w != m.mem[k] {
				delete(m.mem, k)
				m.rootEp[rootOf(k)] = fresh("epoch", nil)
			}
		}
		for k := range o.escaped {
			m.escaped[k] = true
		}
	}
	m.epoch = fresh("epoch", nil)
	m.classEp = map[string]*Term{}
	r := fresh(f.Name(), f.Signature.Results().At(0).Type())
	facts := base.facts
	var ints []*Lin
	for i, a := range c.args {
		if i < len(f.Params) && isIntType(f.Params[i].Type()) {
			ints = append(ints, linOf(a))
		}
	}
	for i, n := 0, len(ints); i < n; i++ {
		for j := i + 1; j < n; j++ {
			ints = append(ints, ints[i].add(ints[j]))
		}
	}
	try := func(l *Lin) bool { // l >= 0 with r for the result
		for _, o := range ends {
			if !o.facts.entailsGe(l.subst(map[*Term]*Lin{r: linOf(o.top().env[ret])})) {
				return false
			}
		}
		facts = facts.withGe(l)
		return true
	}
	for _, l := range ints {
		_ = try(linOf(r).sub(l).addc(-1)) || try(linOf(r).sub(l))
		_ = try(l.sub(linOf(r)).addc(-1)) || try(l.sub(linOf(r)))
	}
	try(linOf(r))
	m.facts = facts
	m.trace = start
	m.emit(&Event{Kind: "Alt", Name: short(f.String()), Pos: c.pos, In: m.top().fn, Static: f, Args: c.args, Res: []*Term{r}, Sub: x.altPaths(ends, start)})
	x.setRes(m, ret, r)
	return append(other, m)
}

func (x *Exec) altPaths(sts []*State, start *Trace) []*Path {
	ps := x.paths2(sts, start)
	for _, p := range ps {
		p.Outcome = "return"
	}
	return ps
}

var pureFns = map[string]bool{
	"runtime.GOMAXPROCS": true, "runtime.NumCPU": true, "fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true,
	"errors.New": true, "runtime/debug.Stack": true, "math.IsNaN": true, "math.Inf": true, "math.NaN": true,
	"reflect.ValueOf": true, "reflect.TypeOf": true, "reflect.Zero": true, "reflect.SliceOf": true, "reflect.MakeSlice": true,
	"reflect.Append": true, "reflect.AppendSlice": true, "reflect.Indirect": true,
	"(reflect.Value).Len": true, "(reflect.Value).Kind": true, "(reflect.Value).Elem": true, "(reflect.Value).Type": true,
	"(reflect.Value).Slice": true, "(reflect.Value).Interface": true, "(reflect.Value).CanSet": true, "(reflect.Value).IsNil": true,
	"(reflect.Value).IsValid": true, "(reflect.Value).Index": true, "(reflect.Value).CanAddr": true, "(reflect.Value).Slice3": true,
	"(reflect.Kind).String": true, "context.Background": true, "context.TODO": true, "strings.Join": true, "strings.Repeat": true,
	"strconv.Itoa": true, "strings.Compare": true, "bytes.Clone": true,
	"(sort.IntSlice).Less": true, "(sort.Float64Slice).Less": true, "(sort.StringSlice).Less": true,
	"(sort.IntSlice).Len": true, "(sort.Float64Slice).Len": true, "(sort.StringSlice).Len": true,
}

// pureArg resolves literal argument lists so that the term shows the elements.
func (x *Exec) pureArg(st *State, a *Term) *Term {
	if a.Op == "slice" && a.Args[0].Op == "cell" {
		lo, ok1 := intVal(a.Args[1])
		hi, ok2 := intVal(a.Args[2])
		if ok1 && ok2 && hi-lo <= 16 {
			var es []*Term
			for k := lo; k < hi; k++ {
				v, ok := st.mem[elemAddr(a.Args[0], mkInt(k))]
				if !ok {
					return a
				}
				es = append(es, v)
			}
			return mk("list", "", a.Typ, es...)
		}
	}
	return a
}

// external is a call of a function outside the module.
func (x *Exec) external(st *State, c callInfo, f *ssa.Function, name string, ret ssa.Value) []*State {
	if pureFns[name] && f.Signature.Results().Len() == 1 {
		args := make([]*Term, len(c.args))
		for i, a := range c.args {
			args[i] = x.pureArg(st, a)
		}
		t := mk("pure", name, f.Signature.Results().At(0).Type(), args...)
		if name == "(reflect.Value).Len" {
			t = reflectLen(args[0])
			st.facts = st.facts.withGe(linOf(t))
		}
		st.emit(&Event{Kind: "Pure", Name: name, Pos: c.pos, In: st.top().fn, Args: c.args, Res: []*Term{t}})
		x.setRes(st, ret, t)
		return []*State{st}
	}
	return x.unknown(st, c, name, f, c.fn, ret, false)
}

func (x *Exec) lock(st *State, mu *Term, kind string, pos token.Pos) {
	st.emit(&Event{Kind: kind, Pos: pos, In: st.top().fn, Addr: mu})
	if kind == "RLock" {
		st.locks[mu] += 1
	} else {
		st.locks[mu] += 1000
	}
	x.yield(st, nil)
}

func (x *Exec) unlock(st *State, mu *Term, kind string, pos token.Pos) {
	st.emit(&Event{Kind: kind, Pos: pos, In: st.top().fn, Addr: mu})
	if kind == "RUnlock" {
		st.locks[mu] -= 1
	} else {
		st.locks[mu] -= 1000
	}
	if st.locks[mu] == 0 {
		delete(st.locks, mu)
	}
}

// intrinsic handles calls with a meaning of their own.
func (x *Exec) intrinsic(st *State, c callInfo, f *ssa.Function, name string, ret ssa.Value, deferred bool) ([]*State, bool) {
	one := []*State{st}
	in := st.top().fn
	arg := func(i int) *Term { return c.args[i] }
	res1 := func() types.Type { return f.Signature.Results().At(0).Type() }
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		x.lock(st, arg(0), "Lock", c.pos)
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		x.unlock(st, arg(0), "Unlock", c.pos)
	case "(*sync.RWMutex).RLocker":
		rl := f.Pkg.Pkg.Scope().Lookup("rlocker")
		if rl == nil {
			return nil, false
		}
		t := types.NewPointer(rl.Type())
		r := mk("iface", typeKey(t), res1(), arg(0))
		if r.Ev == nil {
			r.Ev = &Event{Kind: "type", Type: t}
		}
		x.setRes(st, ret, r)
		return one, true
	case "(*sync.RWMutex).RLock", "(*sync.rlocker).Lock":
		x.lock(st, arg(0), "RLock", c.pos)
	case "(*sync.RWMutex).RUnlock", "(*sync.rlocker).Unlock":
		x.unlock(st, arg(0), "RUnlock", c.pos)
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		o := st.clone()
		x.setRes(o, ret, tFalse)
		x.lock(st, arg(0), "Lock", c.pos)
		x.setRes(st, ret, tTrue)
		return []*State{st, o}, true
	case "(*sync.WaitGroup).Add":
		st.emit(&Event{Kind: "WgAdd", Pos: c.pos, In: in, Addr: arg(0), Val: arg(1)})
		if x.addsLate(st, arg(0)) {
			st.emit(&Event{Kind: "BadWait", Pos: c.pos, In: in, Addr: arg(0), Name: "wait group is not raised for every goroutine before it starts"})
		}
		if old, ok := st.wgAdd[arg(0)]; ok {
			st.wgAdd[arg(0)] = old.add(linOf(arg(1)))
		} else {
			st.wgAdd[arg(0)] = linOf(arg(1))
		}
	case "(*sync.WaitGroup).Done":
		st.emit(&Event{Kind: "WgDone", Pos: c.pos, In: in, Addr: arg(0)})
	case "(*sync.WaitGroup).Wait":
		st.emit(&Event{Kind: "WgWait", Pos: c.pos, In: in, Addr: arg(0)})
		x.setRes(st, ret)
		sts := x.join(st, arg(0), nil, c.pos)
		for _, s := range sts {
			x.yield(s, nil)
		}
		return sts, true
	case "(*sync.WaitGroup).Go":
		wg := arg(0)
		st.emit(&Event{Kind: "WgAdd", Pos: c.pos, In: in, Addr: wg, Val: mkInt(1)})
		if old, ok := st.wgAdd[wg]; ok {
			st.wgAdd[wg] = old.addc(1)
		} else {
			st.wgAdd[wg] = linConst(1)
		}
		x.setRes(st, ret)
		return x.spawn(st, callInfo{fn: arg(1), pos: c.pos, sig: arg(1).Fn.Signature}, c.pos, wg), true
	case "(*sync.Cond).Wait":
		st.emit(&Event{Kind: "CondWait", Pos: c.pos, In: in, Addr: arg(0)})
		x.yield(st, nil)
	case "(*sync.Cond).Broadcast", "(*sync.Cond).Signal":
		st.emit(&Event{Kind: "Cond" + f.Name(), Pos: c.pos, In: in, Addr: arg(0)})
	case "sync.NewCond":
		t := mk("cell", fresh("cond", nil).Aux, res1())
		t.Note = "cond"
		condMade(st, t, arg(0))
		if arg(0).Op == "iface" {
			condLocks[t] = arg(0)
		}
		st.emit(&Event{Kind: "NewCond", Pos: c.pos, In: in, Addr: t, Val: arg(0)})
		x.setRes(st, ret, t)
		return one, true
	case "(*sync.Once).Do":
		st.emit(&Event{Kind: "Once", Pos: c.pos, In: in, Addr: arg(0), Val: arg(1)})
		o := st.clone()
		x.setRes(o, ret)
		d := callInfo{fn: arg(1), pos: c.pos, sig: types.NewSignatureType(nil, nil, nil, nil, nil, false)}
		return append(x.doCall(st, d, ret, false), o), true
	default:
		if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.") {
			return x.atomic(st, c, f, name, ret), true
		}
		if x.cfg.WrapAtom && f == x.P.fn("internal", "WrapPanic") {
			var r *Term
			if arg(0) == tNil {
				r = tNil
			} else {
				r = mk("pure", "internal.WrapPanic", res1(), arg(0))
			}
			st.emit(&Event{Kind: "Pure", Name: "internal.WrapPanic", Pos: c.pos, In: in, Args: c.args, Res: []*Term{r}})
			x.setRes(st, ret, r)
			return one, true
		}
		if x.cfg.Models {
			if sts, ok := x.model(st, c, f, name, ret); ok {
				return sts, true
			}
		}
		return nil, false
	}
	x.setRes(st, ret)
	return one, true
}

func (x *Exec) atomic(st *State, c callInfo, f *ssa.Function, name string, ret ssa.Value) []*State {
	in := st.top().fn
	op := f.Name()
	a := c.args[0]
	var typ types.Type = types.Typ[types.Int64]
	if p, ok := c.argT[0].Underlying().(*types.Pointer); ok {
		typ = p.Elem()
		if _, ok := typ.Underlying().(*types.Struct); ok { // atomic.Int32 and friends
			switch {
			case strings.Contains(name, "Bool"):
				typ = types.Typ[types.Bool]
			case strings.Contains(name, "Int32"):
				typ = types.Typ[types.Int32]
			default:
				typ = types.Typ[types.Int64]
			}
		}
	}
	old := x.read(st, a, typ)
	if r := rootOf(a); x.checkAccess(st, a, !strings.HasPrefix(op, "Load"), true, c.pos) || isLocalRoot(r) && r.ID <= x.base {
		// other goroutines may access the variable at the same time
		old = fresh("atomic", typ)
	}
	ev := func(s *State, kind string, v *Term, w bool) {
		s.emit(&Event{Kind: kind, Name: op, Pos: c.pos, In: in, Addr: a, Val: v, Write: w, Atomic: true})
	}
	switch {
	case strings.HasPrefix(op, "Load"):
		ev(st, "Load", old, false)
		x.setRes(st, ret, old)
	case strings.HasPrefix(op, "Store"):
		ev(st, "Store", c.args[1], true)
		st.mem[a] = c.args[1]
		x.setRes(st, ret)
	case strings.HasPrefix(op, "Add"):
		n := add(old, c.args[1])
		ev(st, "Store", n, true)
		st.mem[a] = n
		x.setRes(st, ret, n)
	case strings.HasPrefix(op, "Swap"):
		ev(st, "Store", c.args[1], true)
		st.mem[a] = c.args[1]
		x.setRes(st, ret, old)
	case strings.HasPrefix(op, "CompareAndSwap"):
		var eq *Term
		if isIntTerm(old) {
			eq = mkEq0(linOf(old).sub(linOf(c.args[1])))
		} else {
			eq = x.mkEq(old, c.args[1])
		}
		var out []*State
		o := st.clone()
		if g, ok := st.facts.assume(eq, true); ok {
			st.facts = g
			ev(st, "Store", c.args[2], true)
			st.mem[a] = c.args[2]
			x.setRes(st, ret, tTrue)
			out = append(out, st)
		}
		if g, ok := o.facts.assume(eq, false); ok {
			o.facts = g
			ev(o, "Load", old, false)
			x.setRes(o, ret, tFalse)
			out = append(out, o)
		}
		return out
	default:
		x.fail("unsupported atomic operation %s", name)
		x.setRes(st, ret, x.results(f.Signature, op, nil)...)
	}
	return []*State{st}
}

func (x *Exec) builtin(st *State, c callInfo, ret ssa.Value) []*State {
	f := st.top()
	name := c.fn.Aux
	switch name {
	case "len":
		v := c.args[0]
		if _, ok := c.argT[0].Underlying().(*types.Map); ok {
			x.checkAccess(st, v, false, false, c.pos)
			n := fresh("maplen", types.Typ[types.Int])
			st.facts = st.facts.withGe(linOf(n))
			st.emit(&Event{Kind: "MapLen", Pos: c.pos, In: f.fn, Addr: v, Res: []*Term{n}})
			x.setRes(st, ret, n)
			break
		}
		if a, ok := c.argT[0].Underlying().(*types.Array); ok {
			x.setRes(st, ret, mkInt(a.Len()))
			break
		}
		x.setRes(st, ret, mkLen(v))
	case "cap":
		x.setRes(st, ret, mk("cap", "", types.Typ[types.Int], c.args[0]))
	case "append":
		a, b := c.args[0], c.args[1]
		st.emit(&Event{Kind: "Append", Pos: c.pos, In: f.fn, Args: []*Term{a, b}})
		if n, ok := intVal(mkLen(b)); ok && n == 0 && b.Op == "slice" {
			x.setRes(st, ret, a)
			break
		}
		t := x.mkAppend(st, a, b, ret.Type())
		x.setRes(st, ret, t)
	case "copy":
		st.emit(&Event{Kind: "Copy", Pos: c.pos, In: f.fn, Args: c.args, Write: true})
		r := rootOf(c.args[0])
		for k := range st.mem {
			if rootOf(k) == r && k != r {
				delete(st.mem, k)
			}
		}
		if isLocalRoot(r) {
			st.rootEp[r] = fresh("epoch", nil)
		} else {
			st.classEp["idx"] = fresh("epoch", nil)
		}
		x.setRes(st, ret, fresh("copied", types.Typ[types.Int]))
	case "delete":
		x.mapDel(st, c.args[0], c.args[1], c.argT[0], c.pos)
	case "close":
		st.emit(&Event{Kind: "Close", Pos: c.pos, In: f.fn, Addr: c.args[0]})
	case "recover":
		v := tNil
		n := len(st.stack)
		if f.isDefer && n >= 2 {
			if p := st.stack[n-2]; p.unwinding && !p.recovered {
				v = p.pval
				p.recovered = true
				st.emit(&Event{Kind: "Recover", Pos: c.pos, In: f.fn, Val: v})
			}
		}
		x.setRes(st, ret, v)
	case "print", "println":
	case "ssa:wrapnilchk":
		x.setRes(st, ret, c.args[0])
	case "clear":
		x.mapWrite(st, c.args[0], fresh("any", nil), tNil)
		st.emit(&Event{Kind: "MapClear", Pos: c.pos, In: f.fn, Addr: c.args[0], Write: true})
	case "min", "max":
		a, b := c.args[0], c.args[1]
		if len(c.args) == 2 && isIntTerm(a) {
			cond := mkGe0(linOf(b).sub(linOf(a))) // a <= b
			if name == "max" {
				a, b = b, a
			}
			o := st.clone()
			var out []*State
			if g, ok := st.facts.assume(cond, true); ok {
				st.facts = g
				x.setRes(st, ret, a)
				out = append(out, st)
			}
			if g, ok := o.facts.assume(cond, false); ok {
				o.facts = g
				x.setRes(o, ret, b)
				out = append(out, o)
			}
			return out
		}
		x.setRes(st, ret, fresh(name, ret.Type()))
	default:
		x.fail("unsupported builtin %s at %s", name, x.P.pos(c.pos))
		if ret != nil {
			x.setRes(st, ret, x.freshOf(name, ret.Type(), nil))
		}
	}
	return []*State{st}
}

// mkAppend keeps the structure of appended slices; literal parts become lists.
func (x *Exec) mkAppend(st *State, a, b *Term, typ types.Type) *Term {
	if a == tNil || isEmptySlice(a) {
		if b.Op == "slice" || b.Op == "append" || b.Op == "atom" || b.Op == "load" {
			return mk("append", "", typ, tNil, b)
		}
	}
	return mk("append", "", typ, a, b)
}

func isEmptySlice(a *Term) bool {
	n, ok := intVal(mkLen(a))
	return ok && n == 0
}

// ---- goroutines ----

func (x *Exec) doGo(st *State, c callInfo, pos token.Pos) []*State {
	return x.spawn(st, c, pos, nil)
}

// spawn analyses the body of a goroutine from the current memory. wg is the
// wait group that the start function itself counts down (WaitGroup.Go).
func (x *Exec) spawn(st *State, c callInfo, pos token.Pos, wg *Term) []*State {
	s := st.clone()
	s.stack, s.trace, s.pending = nil, nil, nil
	s.locks = map[*Term]int{}
	s.wgAdd = map[*Term]*Lin{}
	if x.cfg.Spawn != nil {
		x.cfg.Spawn(s)
	}
	saved := x.chain
	for _, f := range st.stack {
		x.chain = append(x.chain[:len(x.chain):len(x.chain)], f.fn)
	}
	// a synthetic frame executes the call
	fr := &Frame{fn: st.top().fn, env: map[ssa.Value]*Term{}}
	s.stack = []*Frame{fr}
	fr.blk = goTail(st.top().fn)
	x.inGo++
	base := x.base
	x.base = termSeq
	var outs []*State
	for _, r := range x.doCall(s, c, nil, false) {
		outs = append(outs, x.run(r, func(q *State) bool {
			return len(q.stack) == 1 && q.stack[0] == q.top() && q.top().blk == nil && !q.top().unwinding
		})...)
	}
	x.inGo--
	x.base = base
	x.chain = saved
	for _, o := range outs {
		if o.outcome == "" {
			o.outcome = "return"
		}
		if wg != nil {
			o.emit(&Event{Kind: "WgDone", Pos: pos, Addr: wg})
		}
	}
	ps := x.paths2(outs, nil)
	e := st.emit(&Event{Kind: "Go", Pos: pos, In: st.top().fn, Callee: c.fn, Args: c.args, Sub: ps})
	if c.fn != nil && (c.fn.Op == "closure" || c.fn.Op == "fn") {
		e.Static = c.fn.Fn
	}
	p := &Pending{Ev: e, Paths: ps, Access: accessesOf(ps)}
	for _, q := range st.pending {
		x.crossCheck(st, q.Access, p.Access, pos)
	}
	st.pending = append(st.pending, p)
	return []*State{st}
}

func goTail(f *ssa.Function) *ssa.BasicBlock { return nil }

// accessesOf collects the memory accesses of paths, nested goroutines included.
func accessesOf(ps []*Path) []access {
	var out []access
	seen := map[access]bool{}
	for _, p := range ps {
		walkEvents(p.Events, func(e *Event) {
			var a access
			switch e.Kind {
			case "Load", "Store", "MapGet", "MapSet", "MapDel", "MapRange", "MapClear", "MapLen":
				a = access{Addr: e.Addr, Write: e.Write, Atomic: e.Atomic, Locks: lockKey(e.Locks), Pos: e.Pos}
			case "Copy":
				a = access{Addr: e.Args[0], Write: true, Locks: lockKey(e.Locks), Pos: e.Pos}
			default:
				return
			}
			if !seen[a] {
				seen[a] = true
				out = append(out, a)
			}
		})
	}
	return out
}

func lockKey(m map[*Term]int) string {
	if len(m) == 0 {
		return ""
	}
	var b strings.Builder
	ids := map[int]bool{}
	for k := range m {
		ids[k.ID] = true
	}
	for i := 0; len(ids) > 0 && i <= termSeq; i++ {
		if ids[i] {
			b.WriteString(",")
			b.WriteString(mkInt(int64(i)).String())
			delete(ids, i)
		}
	}
	b.WriteString(",")
	return b.String()
}

func locksDisjoint(a, b string) bool {
	if a == "" || b == "" {
		return true
	}
	for _, s := range strings.Split(strings.Trim(a, ","), ",") {
		if strings.Contains(b, ","+s+",") {
			return false
		}
	}
	return true
}

// walkEvents visits events, including those of loop bodies, goroutines and
// parallel branches.
func walkEvents(es []*Event, f func(*Event)) {
	for _, e := range es {
		f(e)
		if e.Loop != nil {
			for _, c := range e.Loop.Conts {
				walkEvents(c.Events, f)
			}
		}
		if e.Kind == "Go" || e.Kind == "Alt" {
			for _, p := range e.Sub {
				walkEvents(p.Events, f)
			}
		}
		for _, b := range e.Par {
			for _, p := range b {
				walkEvents(p.Events, f)
			}
		}
	}
}

// overlap: may the two addresses denote overlapping memory?
func (x *Exec) overlap(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := rootOf(a), rootOf(b)
	if ra != rb {
		return false
	}
	for k := a; ; k = k.Args[0] {
		if k == b {
			return true
		}
		if k.Op != "field" && k.Op != "idx" {
			break
		}
	}
	for k := b; ; k = k.Args[0] {
		if k == a {
			return true
		}
		if k.Op != "field" && k.Op != "idx" {
			break
		}
	}
	if a.Op == "idx" && b.Op == "idx" && a.Args[0] == b.Args[0] {
		return !x.distinctIdx(st, a.Args[1], b.Args[1])
	}
	return false
}

// checkAccess reports accesses that race with a running goroutine; the result
// says that the goroutine may change the value.
func (x *Exec) checkAccess(st *State, a *Term, write, atomic bool, pos token.Pos) bool {
	vol := false
	if len(st.pending) == 0 {
		return false
	}
	locks := lockKey(st.locks)
	for _, p := range st.pending {
		acc := p.Access
		if p.After {
			acc = p.Late
		}
		for _, b := range acc {
			if !b.Write && !write {
				continue
			}
			if !x.overlap(st, a, b.Addr) {
				continue
			}
			if b.Write {
				vol = true
			}
			if (atomic && b.Atomic) || !locksDisjoint(locks, b.Locks) {
				continue
			}
			st.emit(&Event{Kind: "Race", Pos: pos, In: st.top().fn, Addr: a, Name: x.P.pos(b.Pos), Write: write})
		}
	}
	return vol
}

func (x *Exec) crossCheck(st *State, as, bs []access, pos token.Pos) {
	for _, a := range as {
		for _, b := range bs {
			if !a.Write && !b.Write || (a.Atomic && b.Atomic) || !locksDisjoint(a.Locks, b.Locks) {
				continue
			}
			if x.overlap(st, a.Addr, b.Addr) {
				st.emit(&Event{Kind: "Race", Pos: a.Pos, In: st.top().fn, Addr: a.Addr, Name: x.P.pos(b.Pos), Write: a.Write})
			}
		}
	}
}

// signal finds the position of the event by which a path reports its end; -1:
// none, -2: more than one.
func signalAt(p *Path, wg, ch *Term) int {
	at := -1
	for i, e := range p.Events {
		hit := false
		if wg != nil {
			hit = e.Kind == "WgDone" && e.Addr == wg
			if e.Loop != nil {
				walkEvents([]*Event{e}, func(e *Event) {
					if e.Kind == "WgDone" && e.Addr == wg {
						at = -2
					}
				})
			}
		} else {
			hit = (e.Kind == "Close" || e.Kind == "Send") && e.Addr == ch
			if e.Kind == "Select" && e.Chosen >= 0 && e.Cases[e.Chosen].Send && e.Cases[e.Chosen].Chan == ch {
				hit = true
			}
		}
		if at == -2 {
			return -2
		}
		if hit {
			if at >= 0 {
				return -2
			}
			at = i
		}
	}
	return at
}

// join applies the effects of the goroutines that wg.Wait (or a receive from
// ch) waits for. It forks over the ways in which they can end.
func (x *Exec) join(st *State, wg, ch *Term, pos token.Pos) []*State {
	if len(st.pending) == 0 {
		if wg != nil {
			if n, ok := st.wgAdd[wg]; ok {
				own := x.ownDones(st, wg)
				if d, c := n.addc(-own).isConst(); c && d > 0 && isLocalRoot(rootOf(wg)) && x.inGo == 0 {
					st.emit(&Event{Kind: "Deadlock", Pos: pos, In: st.top().fn, Addr: wg, Name: "wait group counter never reaches zero"})
				}
			}
		}
		return []*State{st}
	}
	if ch != nil && ch.Op != "chan" {
		return []*State{st}
	}
	var joined, rest []*Pending
	for _, p := range st.pending {
		if p.After || len(p.Paths) == 0 {
			rest = append(rest, p)
			continue
		}
		all := true
		for _, q := range p.Paths {
			if signalAt(q, wg, ch) < 0 {
				all = false
			}
		}
		if all && (ch == nil || len(joined) == 0) {
			joined = append(joined, p)
		} else {
			rest = append(rest, p)
		}
	}
	if wg != nil {
		n := st.wgAdd[wg]
		if n == nil {
			n = linConst(0)
		}
		cnt := int64(len(joined)) + x.ownDones(st, wg)
		many := false
		for _, p := range joined {
			many = many || p.Many
		}
		d := n.addc(-cnt)
		c, isC := d.isConst()
		switch {
		case many:
		case isC && c == 0:
		case isC && c > 0:
			if isLocalRoot(rootOf(wg)) {
				st.emit(&Event{Kind: "Deadlock", Pos: pos, In: st.top().fn, Addr: wg, Name: "wait group counter never reaches zero"})
			}
		default:
			st.emit(&Event{Kind: "BadWait", Pos: pos, In: st.top().fn, Addr: wg, Name: "wait group is not raised for every goroutine before it starts"})
			return []*State{st}
		}
		delete(st.wgAdd, wg)
	}
	sts := []*State{st}
	for _, p := range joined {
		var next []*State
		for _, s := range sts {
			for k, q := range p.Paths {
				o := s
				if k < len(p.Paths)-1 {
					o = s.clone()
				}
				if x.applyPath(o, p, q, k, signalAt(q, wg, ch), pos) {
					next = append(next, o)
				}
			}
		}
		sts = next
	}
	for _, s := range sts {
		var late []*Pending
		for _, p := range s.pending {
			if p.After {
				late = append(late, p)
			}
		}
		r := append([]*Pending(nil), rest...)
		for _, l := range late {
			dup := false
			for _, q := range r {
				dup = dup || q == l
			}
			if !dup {
				r = append(r, l)
			}
		}
		s.pending = r
	}
	return sts
}

// addsLate: goroutines that count wg down have been started although its counter
// is too low for all of them.
func (x *Exec) addsLate(st *State, wg *Term) bool {
	r := rootOf(wg)
	if !isLocalRoot(r) {
		return false
	}
	n, ok := st.wgAdd[wg]
	if !ok {
		if r.ID <= x.base {
			return false // raised by whoever made it
		}
		n = linConst(0)
	}
	c, isC := n.isConst()
	cnt := x.ownDones(st, wg)
	for _, p := range st.pending {
		if p.After {
			continue
		}
		for _, q := range p.Paths {
			if signalAt(q, wg, nil) != -1 {
				cnt++
				break
			}
		}
	}
	return isC && c < cnt
}

func (x *Exec) ownDones(st *State, wg *Term) int64 {
	var n int64
	for t := st.trace; t != nil; t = t.prev {
		if t.ev.Kind == "WgDone" && t.ev.Addr == wg {
			n++
		}
		if t.ev.Kind == "WgWait" && t.ev.Addr == wg && t != st.trace {
			break
		}
	}
	return n
}

func (x *Exec) applyPath(s *State, p *Pending, q *Path, k, sig int, pos token.Pos) bool {
	g, ok := s.facts.and(q.Facts)
	if !ok {
		return false
	}
	s.facts = g
	var early, late []*Event
	early, late = q.Events[:sig+1], q.Events[sig+1:]
	lateAcc := accessesOf([]*Path{{Events: late}})
	lateW := map[*Term]bool{}
	for _, a := range lateAcc {
		if a.Write {
			lateW[a.Addr] = true
		}
	}
	for _, a := range accessesOf([]*Path{{Events: early}}) {
		if !a.Write {
			continue
		}
		if v, ok := q.St.mem[a.Addr]; ok {
			if lateW[a.Addr] {
				v = fresh("racy", v.Typ)
			}
			s.mem[a.Addr] = v
		} else {
			delete(s.mem, a.Addr)
		}
		r := rootOf(a.Addr)
		if ep, ok := q.St.rootEp[r]; ok {
			s.rootEp[r] = ep
		}
	}
	for a := range q.St.escaped {
		s.escaped[a] = true
	}
	if p.Many {
		for _, a := range p.Access {
			if a.Write {
				delete(s.mem, a.Addr)
				s.rootEp[rootOf(a.Addr)] = fresh("epoch", nil)
			}
		}
	}
	s.emit(&Event{Kind: "Join", Pos: pos, In: s.top().fn, Go: p.Ev, Sub: []*Path{q}, Branch: k})
	useful := len(lateAcc) > 0
	for _, e := range late {
		switch e.Kind {
		case "Call", "Rec", "Go", "Send", "Recv":
			useful = true
		}
	}
	if useful {
		s.pending = append(s.pending, &Pending{Ev: p.Ev, Paths: p.Paths, After: true, Late: lateAcc})
	}
	return true
}

// condMade: the condition variable t was made with lock l.
func condMade(st *State, t, l *Term) {
	s := t.Typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "L" {
			st.mem[mkField(t, s, i)] = l
		}
	}
}
