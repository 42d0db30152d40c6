package main

// The pipeline itself (P07, P08) and its part in P05, P06 and P14.

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// keepPipeline: the fields of a pipeline other than its error do not change
// while it runs, except by the pipeline itself.
func (d *pipe) keepPipeline(v *types.Var) bool {
	if types.Identical(v.Type(), types.Universe.Lookup("error").Type()) {
		return false
	}
	s, ok := d.pipeline.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i) == v {
			return true
		}
	}
	return false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// fieldOfP: a field of the pipeline pl, possibly nested.
func fieldOfP(a, pl *Term) *types.Var {
	if a == nil || a.Op != "field" || rootOf(a) != pl {
		return nil
	}
	return fieldVars[a]
}

// ---- P07 ----

func (d *pipe) ruleErr() {
	R := d.R
	touched := map[*types.Var][]*Event{} // accesses of the error
	locksOf := map[*Event]map[*types.Var]int{}
	analysed := map[*ssa.Function]bool{}
	errField := map[*types.Var]bool{}
	cancelField := map[*types.Var]bool{}
	type run struct {
		m      *ssa.Function
		A      *Analysis
		params []*Term
	}
	var runs []*run
	for _, m := range R.P.exportedMethods("pipeline", "Pipeline") {
		var params []*Term
		A := R.P.analyse(m, Config{Loads: true}, func(st *State, ps []*Term) {
			params = ps
			if m.Name() == "SetErr" && len(ps) == 2 {
				st.facts, _ = st.facts.assume(mk("eq", "", types.Typ[types.Bool], ps[1], tNil), false)
			}
		})
		R.covered("P07", A)
		for f := range A.Exec.funcs {
			analysed[f] = true
		}
		r := &run{m, A, params}
		runs = append(runs, r)
		name := "pipeline.Pipeline." + m.Name()
		for _, u := range append([]*Unit{A.Entry}, A.Units...) {
			for _, p := range u.Paths {
				R.ob("P07", "released", name, u.Fn.Pos(), len(p.St.locks) == 0, "ends (%s) while still holding a lock", p.Outcome)
				if m.Name() != "Run" && m.Name() != "RunWithContext" {
					pos, ok := started(p.Events)
					R.ob("P07", "at-once", name, pos, ok, "leaves a part of its work to another goroutine")
				}
				for _, e := range flatEvents(p.Events) {
					switch e.Kind {
					case "LockImbalance":
						R.ob("P07", "released", name, e.Pos, false, "a lock is not released in every round of the loop")
					case "Lock", "RLock":
						R.ob("P07", "no-nesting", name, e.Pos, e.Locks[e.Addr] == 0, "acquires a lock that it already holds")
					case "Unlock":
						R.ob("P07", "unlock-held", name, e.Pos, e.Locks[e.Addr] >= 1000, "unlocks %v, which is not locked", e.Addr)
					case "RUnlock":
						R.ob("P07", "unlock-held", name, e.Pos, e.Locks[e.Addr]%1000 > 0, "unlocks %v, which is not locked for reading", e.Addr)
					}
					if e.Kind != "Load" && e.Kind != "Store" || e.Addr == nil || e.Addr.Op != "field" {
						continue
					}
					v := fieldVars[e.Addr]
					if v == nil || !isErrorType(v.Type()) || !d.pipelineField(e.Addr) {
						continue
					}
					errField[v] = true
					touched[v] = append(touched[v], e)
					ls := map[*types.Var]int{}
					for mu, n := range e.Locks {
						if mv := fieldVars[mu]; mv != nil && rootOf(mu) == rootOf(e.Addr) {
							ls[mv] = n
						} else if w := fieldVars[derefTarget(mu)]; w != nil {
							ls[w] = n
						}
					}
					locksOf[e] = ls
				}
			}
		}
	}
	R.ob("P07", "anchor", "pipeline.Pipeline", d.pipeline.Obj().Pos(), len(errField) > 0, "no field of type error is accessed by the methods of a pipeline")
	// every access is under one lock, changes exclusively so
	for v, es := range touched {
		common := map[*types.Var]bool{}
		for i, e := range es {
			cur := map[*types.Var]bool{}
			for m, n := range locksOf[e] {
				if n >= 1000 || e.Kind == "Load" && n > 0 {
					cur[m] = true
				}
			}
			if i == 0 {
				common = cur
			}
			for m := range common {
				if !cur[m] {
					delete(common, m)
				}
			}
			R.ob("P07", "locked", "pipeline."+short(e.In.String()), e.Pos, len(cur) > 0, "the error of the pipeline is %s without its lock", map[bool]string{true: "changed", false: "read"}[e.Kind == "Store"])
		}
		R.ob("P07", "one-lock", "pipeline.Pipeline", v.Pos(), len(common) > 0, "no lock protects all accesses to the error of the pipeline")
		for _, f := range R.P.accessors(v) {
			R.ob("P07", "covered", short(f.String()), f.Pos(), analysed[f], "accesses the error of a pipeline outside of its methods")
		}
	}
	ctxField := map[*types.Var]bool{}
	for _, r := range runs {
		switch r.m.Name() {
		case "RunWithContext":
			if len(r.params) != 3 {
				continue
			}
			pl, ctx, cancel := r.params[0], r.params[1], r.params[2]
			for _, p := range r.A.Entry.Paths {
				set, setCtx := false, false
				for _, e := range flatEvents(p.Events) {
					if e.Kind == "Store" && e.Val == cancel && fieldOfP(e.Addr, pl) != nil {
						cancelField[fieldOfP(e.Addr, pl)] = true
						set = true
					}
					if e.Kind == "Store" && e.Val == ctx && fieldOfP(e.Addr, pl) != nil {
						ctxField[fieldOfP(e.Addr, pl)] = true
						setCtx = true
					}
					if e.Kind == "Call" && (strings.HasPrefix(e.Name, "(pargo/pipeline.Node)") || strings.HasPrefix(e.Name, "(pargo/pipeline.Source)")) {
						R.ob("P07", "cancel-known", "pipeline.Pipeline.RunWithContext", e.Pos, set && setCtx, "the pipeline's context and cancel function are not set yet when nodes or the source may need them")
						break
					}
				}
			}
		}
	}
	for _, r := range runs {
		switch r.m.Name() {
		case "SetErr":
			if len(r.params) == 2 {
				d.judgeSetErr(r.A, r.params, errField, cancelField)
			}
		case "Err":
			for _, p := range r.A.Entry.Paths {
				ok := p.Outcome == "return" && len(p.Ret) == 1
				if ok {
					ok = false
					for _, e := range p.Events {
						ok = ok || e.Kind == "Load" && errField[fieldVars[e.Addr]] && rootOf(e.Addr) == r.params[0] && e.Val == p.Ret[0]
					}
				}
				R.ob("P07", "err", "pipeline.Pipeline.Err", r.m.Pos(), ok, "does not return the error of the pipeline")
			}
		case "Context":
			for _, p := range r.A.Entry.Paths {
				ok := false
				for _, e := range p.Events {
					ok = ok || e.Kind == "Load" && ctxField[fieldOfP(e.Addr, r.params[0])] && p.Outcome == "return" && len(p.Ret) == 1 && e.Val == p.Ret[0]
				}
				R.ob("P07", "context", "pipeline.Pipeline.Context", r.m.Pos(), ok, "does not return the context of the run")
			}
		case "Cancel":
			for _, p := range r.A.Entry.Paths {
				n := 0
				for _, e := range flatEvents(p.Events) {
					if d.cancels(e) {
						n++
					}
				}
				R.ob("P07", "cancels", "pipeline.Pipeline.Cancel", r.m.Pos(), n == 1 && p.Outcome == "return", "does not call the cancel function once")
			}
		}
	}
	R.need("P07", "locked", 3)
	R.need("P07", "set", 2)
	R.need("P07", "err", 1)
	R.need("P07", "cancel-known", 1)
	R.need("P07", "context", 1)
}

// started: do the events start no goroutine? Otherwise, where?
func started(es []*Event) (token.Pos, bool) {
	for _, e := range flatEvents(es) {
		if e.Kind == "Go" {
			return e.Pos, false
		}
	}
	return token.NoPos, true
}

func derefTarget(a *Term) *Term {
	if a != nil && a.Op == "load" && len(a.Args) > 0 {
		return a.Args[0]
	}
	return nil
}

// pipelineField: is the address a field of a pipeline?
func (d *pipe) pipelineField(a *Term) bool {
	for a.Op == "field" {
		if v := fieldVars[a]; v != nil && d.hasField(v) {
			return true
		}
		a = a.Args[0]
	}
	return false
}

func (d *pipe) hasField(v *types.Var) bool {
	s, ok := d.pipeline.Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if s.Field(i) == v {
			return true
		}
	}
	return false
}

func (d *pipe) judgeSetErr(A *Analysis, params []*Term, errField, cancelField map[*types.Var]bool) {
	pl, err := params[0], params[1]
	fn := A.Entry.Fn
	ob := func(pos token.Pos, ok bool, f string, a ...interface{}) {
		d.R.ob("P07", "set", "pipeline.Pipeline.SetErr", pos, ok, f, a...)
	}
	for _, p := range A.Entry.Paths {
		if p.Facts.inconsistent() {
			continue
		}
		if p.Outcome != "return" || len(p.Ret) != 1 {
			ob(fn.Pos(), false, "may panic")
			continue
		}
		var last *Term // the error as last seen in this section
		hold := false
		stores, cancels := 0, 0
		wasSet := false
		for _, e := range flatEvents(p.Events) {
			switch e.Kind {
			case "Unlock", "RUnlock":
				if last != nil && p.Facts.truth(mk("eq", "", types.Typ[types.Bool], last, tNil)) == -1 {
					wasSet = true
				}
				last, hold = nil, false
			case "Lock":
				hold = true
			case "Load":
				if errField[fieldVars[e.Addr]] && rootOf(e.Addr) == pl {
					last = e.Val
					if p.Facts.truth(mk("eq", "", types.Typ[types.Bool], last, tNil)) == -1 {
						wasSet = true
					}
				}
			case "Store":
				if errField[fieldVars[e.Addr]] && rootOf(e.Addr) == pl {
					stores++
					free := last != nil && hold && e.Facts.truth(mk("eq", "", types.Typ[types.Bool], last, tNil)) == 1
					ob(e.Pos, free, "an error is set without checking, in the same critical section, that there is none yet")
					ob(e.Pos, e.Val == err, "the error that is set is not the given one")
				}
			}
			if d.cancels(e) {
				cancels++
				known := e.Callee == nil
				if e.Callee != nil && e.Callee.Op == "load" {
					v := fieldVars[e.Callee.Args[0]]
					known = v != nil && cancelField[v] && rootOf(e.Callee.Args[0]) == pl
				}
				ob(e.Pos, known, "the function called is not the cancel function of the pipeline")
				ob(e.Pos, len(e.Locks) == 0, "the cancel function is called while a lock is held")
				ob(e.Pos, stores == 1, "the pipeline is cancelled although, or before, its error has been set")
			}
		}
		if stores > 0 {
			ob(fn.Pos(), stores == 1, "the error is set more than once")
			ob(fn.Pos(), cancels == 1, "the pipeline is cancelled %d times after its error was set", cancels)
			ob(fn.Pos(), p.Facts.truth(p.Ret[0]) == 1, "success is not reported although the error was set")
		} else {
			ob(fn.Pos(), wasSet, "the error is not set although there may be none yet")
			ob(fn.Pos(), cancels == 0, "the pipeline is cancelled although the error was not set")
			ob(fn.Pos(), p.Facts.truth(p.Ret[0]) == -1, "success is reported although the error was not set")
		}
	}
}
