package main

// Contracts of the fork-join functions, used when packages built on top of them
// are analysed. The contracts themselves are what the F properties decide.

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// literal returns the elements of a slice built in place.
func (x *Exec) literal(st *State, s *Term) ([]*Term, bool) {
	if s == tNil {
		return nil, true
	}
	if s.Op == "slice" && (s.Args[0].Op == "cell" || s.Args[0].Op == "make") {
		lo, ok1 := intVal(s.Args[1])
		hi, ok2 := intVal(s.Args[2])
		if !ok1 || !ok2 {
			return nil, false
		}
		var out []*Term
		for k := lo; k < hi; k++ {
			v, ok := st.mem[elemAddr(s.Args[0], mkInt(k))]
			if !ok {
				return nil, false
			}
			out = append(out, v)
		}
		return out, true
	}
	if s.Op == "append" {
		a, ok1 := x.literal(st, s.Args[0])
		b, ok2 := x.literal(st, s.Args[1])
		return append(a, b...), ok1 && ok2
	}
	return nil, false
}

// subRun analyses a call of fv from the current memory, as another goroutine.
func (x *Exec) subRun(st *State, c callInfo, assume func(s *State) bool) []*Path {
	s := st.clone()
	s.dropPending()
	s.stack, s.trace = nil, nil
	s.locks = map[*Term]int{}
	if assume != nil && !assume(s) {
		return nil
	}
	saved := x.chain
	for _, f := range st.stack {
		x.chain = append(x.chain[:len(x.chain):len(x.chain)], f.fn)
	}
	fr := &Frame{fn: st.top().fn, env: map[ssa.Value]*Term{}}
	// results are delivered to a placeholder
	s.stack = []*Frame{fr}
	x.inGo++
	base := x.base
	x.base = termSeq
	var outs []*State
	var ph ssa.Value = &ssa.Phi{}
	for _, r := range x.doCall(s, c, ph, false) {
		outs = append(outs, x.run(r, func(q *State) bool {
			return len(q.stack) == 1 && q.top().blk == nil && !q.top().unwinding
		})...)
	}
	x.inGo--
	x.base = base
	x.chain = saved
	for _, o := range outs {
		if o.outcome == "" {
			o.outcome = "return"
			if v := o.stack[0].env[ph]; v != nil {
				if v.Op == "tuple" {
					o.ret = v.Args
				} else {
					o.ret = []*Term{v}
				}
			}
		}
	}
	return x.paths2(outs, nil)
}

func (x *Exec) model(st *State, c callInfo, f *ssa.Function, name string, ret ssa.Value) ([]*State, bool) {
	if f.Pkg == nil {
		return nil, false
	}
	var pkg string
	switch {
	case strings.HasPrefix(name, "pargo/parallel."):
		pkg = "parallel"
	case strings.HasPrefix(name, "pargo/speculative."):
		pkg = "speculative"
	default:
		return nil, false
	}
	if st.top().fn.Pkg == f.Pkg {
		return nil, false
	}
	nm := f.Name()
	mark := termSeq
	var branches [][]*Path
	var params []*Term
	var bodies []callInfo
	sigOf := func(t *Term) *types.Signature {
		if t.Fn != nil {
			return t.Fn.Signature
		}
		s, _ := t.Typ.Underlying().(*types.Signature)
		return s
	}
	switch nm {
	case "Do", "And", "Or":
		fs, ok := x.literal(st, c.args[0])
		if !ok {
			return nil, false
		}
		for _, fv := range fs {
			if sigOf(fv) == nil {
				return nil, false
			}
			ci := callInfo{fn: fv, pos: c.pos, sig: sigOf(fv)}
			bodies = append(bodies, ci)
			branches = append(branches, x.subRun(st, ci, nil))
		}
	case "Range", "RangeAnd", "RangeOr":
		fv := c.args[3]
		if sigOf(fv) == nil {
			return nil, false
		}
		lo, hi := fresh("batch.low", types.Typ[types.Int]), fresh("batch.high", types.Typ[types.Int])
		params = []*Term{lo, hi}
		ci := callInfo{fn: fv, pos: c.pos, sig: sigOf(fv), args: params}
		bodies = append(bodies, ci)
		branches = append(branches, x.subRun(st, ci, func(s *State) bool {
			g := s.facts.withGe(linOf(lo).sub(linOf(c.args[0])))
			g = g.withGe(linOf(hi).sub(linOf(lo)))
			g = g.withGe(linOf(c.args[1]).sub(linOf(hi)))
			s.facts = g
			return true
		}))
	default:
		return nil, false
	}
	e := &Event{Kind: "Par", Name: pkg + "." + nm, Pos: c.pos, In: st.top().fn, Args: c.args, Par: branches, Params: params, Static: f}
	for i := range branches {
		for j := i; j < len(branches); j++ {
			if i == j && len(params) == 0 {
				continue
			}
			as, bs := accessesOf(branches[i]), accessesOf(branches[j])
			if i == j {
				// what a batch allocates is its own
				as, bs = notNewer(as, mark), notNewer(bs, mark)
			}
			x.crossCheck(st, as, bs, c.pos)
		}
		if len(st.pending) > 0 {
			for _, q := range st.pending {
				acc := q.Access
				if q.After {
					acc = q.Late
				}
				x.crossCheck(st, acc, accessesOf(branches[i]), c.pos)
			}
		}
	}
	// effects: whatever a branch writes is unknown afterwards
	for _, b := range branches {
		for _, a := range accessesOf(b) {
			if a.Write {
				for k := range st.mem {
					if x.overlap(st, k, a.Addr) {
						delete(st.mem, k)
					}
				}
				delete(st.mem, a.Addr)
				st.rootEp[rootOf(a.Addr)] = fresh("epoch", nil)
			}
		}
		for _, p := range b {
			for r := range p.St.escaped {
				st.escaped[r] = true
			}
		}
	}
	x.yield(st, e)
	var out []*State
	if x.cfg.Panics {
		may := false
		for _, b := range branches {
			for _, p := range b {
				may = may || p.Outcome == "panic"
			}
		}
		if may {
			o := st.clone()
			pe := *e
			pe.Raised = mk("pval", fresh("panic", nil).Aux, nil)
			o.emit(&pe)
			x.raise(o, pe.Raised)
			out = append(out, o)
		}
	}
	st.emit(e)
	if r := f.Signature.Results(); r.Len() > 0 {
		e.Res = x.results(f.Signature, nm, e)
	}
	x.setRes(st, ret, e.Res...)
	return append([]*State{st}, out...), true
}

func notNewer(as []access, mark int) []access {
	var out []access
	for _, a := range as {
		if r := rootOf(a.Addr); !isLocalRoot(r) || r.ID <= mark {
			out = append(out, a)
		}
	}
	return out
}
