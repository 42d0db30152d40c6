package main

// Analysis of a function together with the recursive functions it uses. A
// recursive function is analysed once for arbitrary parameters that satisfy a
// precondition; the precondition is the largest set of candidate relations that
// hold at the first call and are preserved by every recursive call.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Unit is the analysis of one function for symbolic parameters.
type Unit struct {
	Fn     *ssa.Function
	Params []*Term
	Paths  []*Path
	Pre    []*Lin
	First  *Event // the call from outside (nil for the entry)
	Facts0 *Facts
}

type Analysis struct {
	Entry *Unit
	Units []*Unit // recursive helpers, one per distinct context
	Exec  *Exec
	Of    map[*Event]*Unit // the unit that a call from outside enters
}

// recsIn collects the Rec events of paths, nested ones included.
func recsIn(ps []*Path) []*Event {
	var out []*Event
	seen := map[*Event]bool{}
	for _, p := range ps {
		walkEvents(p.Events, func(e *Event) {
			if e.Kind == "Rec" && !seen[e] {
				seen[e] = true
				out = append(out, e)
			}
		})
	}
	return out
}

// analyse runs fn with the given configuration. assume may restrict the
// parameters.
func (P *Program) analyse(fn *ssa.Function, cfg Config, assume func(st *State, params []*Term)) *Analysis {
	x := newExec(P, cfg)
	A := &Analysis{Exec: x, Of: map[*Event]*Unit{}}
	var params []*Term
	for _, p := range fn.Params {
		params = append(params, x.freshOf(p.Name(), p.Type(), nil))
	}
	st := newState()
	if assume != nil {
		assume(st, params)
	}
	for try := 0; try < 6; try++ {
		ps := x.runFunc(st, fn, params, nil)
		A.Entry = &Unit{Fn: fn, Params: params, Paths: ps, Facts0: st.facts}
		more := false
		for _, r := range recsIn(ps) {
			if r.Static != fn && !x.sum[r.Static] {
				x.sum[r.Static] = true
				more = true
			}
		}
		if !more {
			break
		}
	}
	// contexts: first calls from the entry, then first calls from other units
	done := map[string]*Unit{}
	queue := recsIn(A.Entry.Paths)
	for len(queue) > 0 && len(A.Units) < 60 {
		r := queue[0]
		queue = queue[1:]
		if r.Static == fn || r.Raised != nil {
			continue
		}
		key := fmt.Sprintf("%p", r.Static)
		for _, a := range r.Args {
			key += fmt.Sprintf(",%d", a.ID)
		}
		if r.Callee != nil {
			key += fmt.Sprintf("|%d", r.Callee.ID)
		}
		for _, l := range r.Facts.ge {
			key += ";" + l.key()
		}
		if u := done[key]; u != nil {
			A.Of[r] = u
			continue
		}
		u := x.unit(r)
		done[key] = u
		A.Of[r] = u
		A.Units = append(A.Units, u)
		for _, q := range recsIn(u.Paths) {
			if q.Static != r.Static {
				queue = append(queue, q)
			}
		}
	}
	return A
}

type quant struct {
	name string
	at   func(args []*Term) *Lin
}

func (x *Exec) quants(fn *ssa.Function) []quant {
	var qs []quant
	for i, p := range fn.Params {
		i := i
		switch {
		case isIntType(p.Type()):
			qs = append(qs, quant{p.Name(), func(a []*Term) *Lin { return linOf(a[i]) }})
		default:
			if _, ok := p.Type().Underlying().(*types.Slice); ok {
				qs = append(qs, quant{"len(" + p.Name() + ")", func(a []*Term) *Lin { return linOf(mkLen(a[i])) }})
			}
		}
	}
	return qs
}

// unit analyses the recursive function called by first.
func (x *Exec) unit(first *Event) *Unit {
	fn := first.Static
	// parameters that never change keep the value of the first call
	keep := make([]bool, len(fn.Params))
	for i := range keep {
		keep[i] = true
	}
	saveSum := x.sum[fn]
	x.sum[fn] = false // the body is analysed; recursive calls are found on the stack
	base := x.base
	x.base = termSeq
	defer func() { x.sum[fn], x.base = saveSum, base }()
	havoc := map[*Term]bool{}
	var binds []*Term
	if first.Callee != nil {
		binds = first.Callee.Args
	}
	qs := x.quants(fn)
	type cand struct {
		at func(args []*Term) *Lin
	}
	var cands []cand
	var dead []bool
	addC := func(at func(args []*Term) *Lin) {
		if first.Facts.entailsGe(at(first.Args)) {
			cands = append(cands, cand{at})
			dead = append(dead, false)
		}
	}
	outer := []*Lin{}
	for _, q := range qs {
		l := q.at(first.Args)
		if _, c := l.isConst(); !c {
			outer = append(outer, l)
		}
	}
	for _, l := range outer {
		for _, m := range l.M {
			if len(m.Vars) != 1 {
				continue
			}
			a := linOf(m.Vars[0])
			known := false
			for _, o := range outer {
				known = known || o.key() == a.key()
			}
			if !known {
				outer = append(outer, a)
			}
		}
	}
	for i, q := range qs {
		q := q
		for _, c := range []int64{1, 0, -1, -2} {
			c := c
			addC(func(a []*Term) *Lin { return q.at(a).addc(c) })
		}
		for _, c := range []int64{0, 1, 2} {
			c := c
			addC(func(a []*Term) *Lin { return q.at(a).neg().addc(c) })
		}
		for _, o := range outer {
			o := o
			addC(func(a []*Term) *Lin { return o.sub(q.at(a)) })
			addC(func(a []*Term) *Lin { return q.at(a).sub(o) })
		}
		for j, r := range qs {
			if i == j {
				continue
			}
			r := r
			for _, c := range []int64{1, 0, -1} {
				c := c
				addC(func(a []*Term) *Lin { return q.at(a).sub(r.at(a)).addc(c) })
			}
			if i < j {
				for _, o := range outer {
					o := o
					addC(func(a []*Term) *Lin { return o.sub(q.at(a)).sub(r.at(a)) })
				}
			}
		}
	}
	var params []*Term
	mkParams := func() {
		params = nil
		for i, p := range fn.Params {
			if keep[i] {
				params = append(params, first.Args[i])
			} else {
				params = append(params, x.freshOf(p.Name(), p.Type(), nil))
			}
		}
	}
	mkParams()
	for round := 0; round < 40; round++ {
		st := first.St.clone()
		st.dropPending()
		st.stack, st.trace = nil, nil
		st.locks = map[*Term]int{}
		st.wgAdd = map[*Term]*Lin{}
		st.facts = first.Facts
		var pre []*Lin
		for i, c := range cands {
			if !dead[i] {
				l := c.at(params)
				pre = append(pre, l)
				st.facts = st.facts.withGe(l)
			}
		}
		for a := range havoc {
			delete(st.mem, a)
			st.rootEp[rootOf(a)] = fresh("epoch", nil)
		}
		ps := x.runFunc(st, fn, params, binds)
		u := &Unit{Fn: fn, Params: params, Paths: ps, Pre: pre, First: first, Facts0: st.facts}
		again := false
		for _, r := range recsIn(ps) {
			if r.Static != fn {
				continue
			}
			for i := range keep {
				if keep[i] && r.Args[i] != params[i] {
					keep[i] = false
					again = true
				}
			}
		}
		if again {
			mkParams()
			continue
		}
		for _, r := range recsIn(ps) {
			if r.Static != fn {
				continue
			}
			for i, c := range cands {
				if !dead[i] && !r.Facts.entailsGe(c.at(r.Args)) {
					dead[i] = true
					again = true
				}
			}
		}
		if again {
			continue
		}
		// captured variables that the body writes
		for _, p := range ps {
			for _, a := range accessesOf([]*Path{p}) {
				if a.Write && x.existsIn(first.St, rootOf(a.Addr)) && !havoc[a.Addr] {
					havoc[a.Addr] = true
					again = true
				}
			}
		}
		if again {
			continue
		}
		return u
	}
	x.fail("no precondition found for %s", fn)
	return &Unit{Fn: fn, Params: params, First: first, Facts0: first.Facts}
}

func (x *Exec) existsIn(st *State, r *Term) bool {
	if isLocalRoot(r) {
		return r.ID <= x.base
	}
	for k := range st.mem {
		if rootOf(k) == r {
			return true
		}
	}
	return false
}

// dropPending forgets the goroutines under way, and with them the contents of
// the variables they may write at any time.
func (s *State) dropPending() {
	for _, p := range s.pending {
		for _, a := range accessesOf(p.Paths) {
			if !a.Write {
				continue
			}
			delete(s.mem, a.Addr)
			s.rootEp[rootOf(a.Addr)] = fresh("epoch", nil)
		}
	}
	s.pending = nil
}
