package main

// Rules for the parallel map (package sync).

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mapInfo names the parts of the map's representation: a map has a slice of
// splits, and a split has a lock and its content.
type mapInfo struct {
	mapT, splitT  *types.Named
	mapS, splitS  *types.Struct
	splits, cont  int // field indices
	splitsV, conV *types.Var
}

func (R *Report) mapInfo() *mapInfo {
	pkg := R.P.tpkg("sync")
	if pkg == nil {
		return nil
	}
	d := &mapInfo{splits: -1, cont: -1}
	named := func(n string) (*types.Named, *types.Struct) {
		o, _ := pkg.Scope().Lookup(n).(*types.TypeName)
		if o == nil {
			return nil, nil
		}
		t, _ := o.Type().(*types.Named)
		if t == nil {
			return nil, nil
		}
		s, _ := t.Underlying().(*types.Struct)
		return t, s
	}
	d.mapT, d.mapS = named("Map")
	d.splitT, d.splitS = named("Split")
	if d.mapS == nil || d.splitS == nil {
		return nil
	}
	for i := 0; i < d.mapS.NumFields(); i++ {
		if d.isSplits(d.mapS.Field(i).Type()) {
			d.splits, d.splitsV = i, d.mapS.Field(i)
		}
	}
	for i := 0; i < d.splitS.NumFields(); i++ {
		if _, ok := d.splitS.Field(i).Type().Underlying().(*types.Map); ok {
			d.cont, d.conV = i, d.splitS.Field(i)
		}
	}
	if d.splits < 0 || d.cont < 0 {
		return nil
	}
	return d
}

func (m *mapInfo) isSplits(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), m.splitT)
}

// content: is t the content of a split? Gives the address of the split.
func (m *mapInfo) content(t *Term) *Term {
	if t == nil || t.Op != "load" {
		return nil
	}
	return m.contentAddr(t.Args[0])
}

func (m *mapInfo) contentAddr(a *Term) *Term {
	if a != nil && a.Op == "field" && fieldVars[a] == m.conV {
		return a.Args[0]
	}
	return nil
}

func (m *mapInfo) lockOf(a *Term) *Term {
	if a != nil && a.Op == "field" && (a.Args[0].Op == "idx" || a.Args[0].Op == "atom") {
		if v := fieldVars[a]; v != nil {
			for i := 0; i < m.splitS.NumFields(); i++ {
				if m.splitS.Field(i) == v {
					return a.Args[0]
				}
			}
		}
	}
	return nil
}

// held tells how the lock of a split is held: 0 not, 1 shared, 2 exclusively.
func (m *mapInfo) held(locks map[*Term]int, split *Term, f *Facts) int {
	best := 0
	for l, n := range locks {
		s := m.lockOf(l)
		if s == nil || n <= 0 {
			continue
		}
		if s != split && !(s.Op == "idx" && split.Op == "idx" && s.Args[0] == split.Args[0] && f != nil && f.eq(s.Args[1], split.Args[1])) {
			continue
		}
		k := 1
		if n >= 1000 {
			k = 2
		}
		if k > best {
			best = k
		}
	}
	return best
}

func (c *fj) contentPos(U *fjUnit, t *Term) (lo, hi *Lin, ok bool) {
	s := c.d.maps.content(t)
	if s == nil || s.Op != "idx" {
		return nil, nil, false
	}
	base, i := s.Args[0], s.Args[1]
	l, _, ok := c.posOf(U.slots, base, nil)
	if !ok || l == nil {
		return nil, nil, false
	}
	l = l.add(linOf(i))
	return l, l.addc(1), true
}

// walkItem judges the walk over the entries of one split: every entry is passed
// to the function until it returns false.
func (c *fj) walkItem(U *fjUnit, e *Event, rest []*Event, f *Facts) *fjItem {
	lo, hi, ok := c.contentPos(U, e.Addr)
	if !ok {
		return nil
	}
	it := &fjItem{lo: lo, hi: hi, pos: e.Pos, ev: e}
	open := 0 // 0: nothing fetched, 1: fetched and not yet passed on, 2: passed on, 3: ended
	var k, v, res *Term
	bad := func(pos token.Pos, msg string) {
		c.ob("M06", "walk", U.name, pos, false, "%s", msg)
		it.hi = it.lo
	}
	step := func(q *Event, g *Facts) bool {
		switch {
		case q.Kind == "MapNext" && q.Addr == e.Val:
			switch {
			case open == 1:
				bad(q.Pos, "an entry is not passed to the function")
				return false
			case open == 2 && res != nil && g.truth(res) != 1:
				bad(q.Pos, "the walk goes on although the function may have returned false")
				return false
			case open == 3:
				return true
			}
			switch g.truth(q.Res[0]) {
			case -1:
				open = 3
			case 1:
				open, k, v = 1, q.Res[1], q.Res[2]
			default:
				bad(q.Pos, "cannot tell whether the entries have run out")
				return false
			}
		case q.Kind == "Call" && q.Callee == c.leaf:
			if open != 1 || len(q.Args) != 2 || q.Args[0] != k || q.Args[1] != v {
				bad(q.Pos, "the function is not invoked with the next entry")
				return false
			}
			if q.Raised != nil {
				it.raised = q.Raised
			}
			open, res = 2, nil
			if len(q.Res) > 0 {
				res = q.Res[0]
			}
		}
		return true
	}
	for _, q := range rest {
		if q.Kind == "MapRange" || q.Kind == "Par" || q.Kind == "Rec" {
			break
		}
		if q.Kind == "Loop" {
			mine := false
			walkEvents([]*Event{q}, func(w *Event) {
				mine = mine || w.Kind == "MapNext" && w.Addr == e.Val
			})
			if !mine {
				continue
			}
			at := open
			for _, ct := range q.Loop.Conts {
				open = at
				for _, w := range ct.Events {
					if !step(w, ct.Facts) {
						return it
					}
				}
				if open != 2 || res != nil && ct.Facts.truth(res) != 1 {
					bad(q.Pos, "a round of the walk does not pass exactly one entry to the function, or goes on after false")
					return it
				}
			}
			open = 0
			continue
		}
		if !step(q, f) {
			return it
		}
	}
	switch {
	case open == 3:
		it.res = []*Term{tTrue}
	case open == 2 && it.raised != nil:
	case open == 2 && res != nil:
		if f.truth(res) == 1 {
			bad(e.Pos, "the walk ends although entries may be left and the function returned true")
			return it
		}
		it.res = []*Term{res}
	default:
		bad(e.Pos, "the walk ends although entries may be left")
	}
	return it
}

// parItem judges the batches of a parallel range over splits.
func (c *fj) parItem(U *fjUnit, e *Event) *fjItem {
	if len(e.Params) != 2 || len(e.Par) != 1 || len(e.Args) < 3 {
		return nil
	}
	// does it concern splits at all?
	lo, hi := linOf(e.Params[0]), linOf(e.Params[1])
	sub := *U
	sub.lo, sub.hi, sub.cnt = lo, hi, nil
	sub.name = U.name + "/batch"
	boolOp := c.d.op == "and" || c.d.op == "or"
	spec := e.Static.Pkg.Pkg.Name() == "speculative"
	it := &fjItem{lo: linOf(e.Args[0]), hi: linOf(e.Args[1]), pos: e.Pos, ev: e, raised: e.Raised}
	neg := false // the batch result is the negation of the combination
	hasRes := false
	switch e.Static.Name() {
	case "RangeAnd":
		hasRes, neg = true, c.d.op == "or"
	case "RangeOr":
		hasRes, neg = true, c.d.op == "and"
	case "Range":
		if spec {
			hasRes, neg = true, c.d.op == "and"
		}
	}
	if spec && !c.d.spec {
		c.ob("F01", "waits-for-all", U.name, e.Pos, false, "the batches may still be running when this operation returns")
	}
	if f := e.Facts; f != nil {
		c.ob("F08", "valid-accepted", U.name, e.Pos, f.entailsGe(it.hi.sub(it.lo)) && f.entailsGe(linOf(e.Args[2])), "the range or the number of batches may be invalid")
	}
	any := false
	for _, q := range e.Par[0] {
		if q.Outcome != "return" {
			continue
		}
		for _, its := range c.items(&sub, q.Events, joinsOf(q.Events), nil, true, false, q.Facts) {
			any = any || len(its) > 0
			sorted, err := c.tile(its, lo, hi, q.Facts, false)
			partial := false
			if err != "" && boolOp && c.prefix(its, lo, q.Facts) {
				partial, err = true, ""
				sorted = its
			}
			c.ob("F02", "exactly-once", sub.name, e.Pos, err == "", "a batch does not visit each of its splits exactly once: %s", err)
			for _, o := range c.allJoined(q.Events) {
				c.ob("F01", "waits-for-all", sub.name, o.Pos, false, "the batch ends without waiting for the goroutine started here")
			}
			if err != "" || !boolOp {
				continue
			}
			if c.d.noRet {
				c.stops(&sub, sorted, q.Facts, partial)
			}
			if hasRes {
				if len(q.Ret) != 1 {
					c.ob("F06", "result", sub.name, e.Pos, false, "no result")
					continue
				}
				r := q.Ret[0]
				if neg {
					r = mkNot(r)
				}
				msg := ""
				if len(sorted) == 0 && partial {
					msg = "none of the splits is visited"
				} else if len(sorted) == 0 {
					if q.Facts.truth(r) != c.neutral() {
						msg = "the result for no splits is wrong"
					}
				} else {
					msg = c.boolResult(sorted, r, q.Facts, partial)
				}
				c.ob("F06", "result", sub.name, e.Pos, msg == "", "result of a batch: %s", msg)
			}
		}
	}
	if !any {
		return nil
	}
	if hasRes && len(e.Res) == 1 {
		r := e.Res[0]
		if neg {
			r = mkNot(r)
		}
		it.res = []*Term{r}
	}
	return it
}

// parallelRange: is e a range function with at least as many batches as
// processors?
func parallelRange(e *Event) bool {
	if e.Static == nil || len(e.Args) < 3 {
		return false
	}
	n := linOf(e.Args[2])
	return isForkJoin(e.Static) && (e.Facts.entailsEq(n) || enoughBatches(e.Facts, n, linOf(e.Args[1]).sub(linOf(e.Args[0]))))
}

func isForkJoin(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg == nil {
		return false
	}
	n := fn.Pkg.Pkg.Name()
	return n == "parallel" || n == "speculative"
}

// enoughBatches: are n batches at least as many as elements or processors?
func enoughBatches(f *Facts, n, size *Lin) bool {
	return f.entailsGe(n.sub(size)) || manyAsProcessors(f, n)
}

func manyAsProcessors(f *Facts, n *Lin) bool {
	for _, a := range atomsOf(append(f.ge[:len(f.ge):len(f.ge)], n)) {
		if a.Op == "pure" && a.Aux == "runtime.GOMAXPROCS" && f.entailsGe(n.sub(linOf(a))) {
			return true
		}
	}
	return false
}

// oneAfterTheOther: a sequential traversal starts no goroutines.
func (c *fj) oneAfterTheOther() {
	allPaths(c.A, func(u *Unit, p *Path, own bool) {
		pos := token.NoPos
		var look func(es []*Event)
		look = func(es []*Event) {
			for _, e := range es {
				switch {
				case e.Kind == "Go", e.Kind == "Par" && e.Static != nil && isForkJoin(e.Static):
					pos = e.Pos
				case e.Kind == "Loop":
					for _, k := range e.Loop.Conts {
						look(k.Events)
					}
				}
			}
		}
		look(p.Events)
		c.R.ob("M09", "one-after-the-other", c.d.name, pos, !pos.IsValid(), "a sequential operation starts a goroutine")
	})
}

// stops: an operation without a result goes on exactly as long as its function
// returns true.
func (c *fj) stops(U *fjUnit, items []*fjItem, f *Facts, partial bool) {
	for i, it := range items {
		if it.ev != nil && it.ev.Kind == "Par" {
			continue
		}
		if it.loop {
			ok := len(it.res) > 0 && it.res[0] == mkBool(c.neutral() == 1)
			c.ob("M06", "stops-when-told", U.name, it.pos, ok, "goes on to the next split although the function may have asked to stop")
			continue
		}
		if i < len(items)-1 {
			c.ob("M06", "stops-when-told", U.name, it.pos, c.open(it, f), "goes on to the next split although the function may have asked to stop")
		} else if partial {
			c.ob("M06", "stops-when-told", U.name, it.pos, c.decisive(it, f), "leaves out splits although the function did not ask to stop")
		}
	}
	if len(items) == 0 || items[len(items)-1].loop {
		c.ob("M06", "stops-when-told", U.name, U.u.Fn.Pos(), !partial, "leaves out splits although the function did not ask to stop")
	}
}

type mapOp struct {
	prop  string
	op    string // of the combination
	spec  bool
	walks bool
	noRet bool
}

var mapTraversals = map[string]mapOp{
	"Range":            {"M06", "and", false, true, true},
	"ParallelRange":    {"M06", "none", false, true, true},
	"SpeculativeRange": {"M06", "and", true, true, true},
	"And":              {"M06", "and", false, false, false},
	"ParallelAnd":      {"M06", "and", false, false, false},
	"SpeculativeAnd":   {"M06", "and", true, false, false},
	"Or":               {"M06", "or", false, false, false},
	"ParallelOr":       {"M06", "or", false, false, false},
	"SpeculativeOr":    {"M06", "or", true, false, false},
}

func init() {
	for _, p := range []string{"", "Parallel"} {
		for _, t := range []string{"", "Float64", "Int", "String"} {
			mapTraversals[p+"Reduce"+t] = mapOp{"M07", "join", false, false, false}
			if t != "" {
				mapTraversals[p+"Reduce"+t+"Sum"] = mapOp{"M07", "sum", false, false, false}
			}
			if t == "Float64" || t == "Int" {
				mapTraversals[p+"Reduce"+t+"Product"] = mapOp{"M07", "prod", false, false, false}
			}
		}
	}
	for _, t := range []string{"", "Float64", "Int", "String"} {
		mapTraversals["SpeculativeReduce"+t] = mapOp{"M07", "join", true, false, false}
	}
}

var mapSingle = []string{"Delete", "Load", "LoadOrStore", "LoadOrCompute", "DeleteOrStore", "DeleteOrCompute", "Modify"}

func (R *Report) rulesM(want string) {
	all := "M01,M02,M03,M04,M05,M06,M07,M09"
	d := R.mapInfo()
	if !R.ob(all, "anchor", "sync.Map", token.NoPos, d != nil, "the types Map and Split of package sync (a slice of splits; a lock and a built-in map) are not there") {
		return
	}
	have := map[string]*ssa.Function{}
	var fns []*ssa.Function
	for _, f := range R.P.exportedFuncs("sync") {
		fns = append(fns, f)
		if recvNamed(f) == d.mapT {
			have[f.Name()] = f
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for n, o := range mapTraversals {
		R.ob(o.prop+",M01,M02,M03,M09", "api-present", "sync.Map."+n, token.NoPos, have[n] != nil, "method %s is missing", n)
	}
	for _, n := range append([]string{"Split"}, mapSingle...) {
		R.ob(all, "api-present", "sync.Map."+n, token.NoPos, have[n] != nil, "method %s is missing", n)
	}
	R.ob("M05", "splits-fixed", "sync.Map."+d.splitsV.Name(), d.splitsV.Pos(), R.P.immutableField(d.splitsV), "the slice of splits is changed after the map has been created")
	R.newMap(d)
	split := R.splitOf(d, have["Split"])
	for _, f := range fns {
		o, ok := mapTraversals[f.Name()]
		ok = ok && recvNamed(f) == d.mapT
		fd := &fjFn{fn: f, pkg: "sync", name: "sync." + short(f.Name()), list: true, partial: true, maps: d, body: -1, join: -1}
		if n := recvNamed(f); n != nil {
			fd.name = "sync." + n.Obj().Name() + "." + f.Name()
		}
		if ok {
			fd.op, fd.spec, fd.walks, fd.noRet = o.op, o.spec, o.walks, o.noRet
			fd.par = strings.HasPrefix(f.Name(), "Parallel") || strings.HasPrefix(f.Name(), "Speculative")
			for i, p := range f.Params {
				if s := funcSig(p.Type()); s != nil {
					if fd.body < 0 {
						fd.body = i
					} else if fd.join < 0 {
						fd.join = i
					}
				}
			}
			good := fd.body >= 0 && (fd.op == "join") == (fd.join >= 0)
			if !R.ob(o.prop, "known-shape", fd.name, f.Pos(), good, "the signature no longer has a shape with a known contract") {
				continue
			}
		}
		var known map[*ssa.Function]*fjRole
		for _, panics := range []bool{false, true} {
			var m *Term
			cfg := Config{Panics: panics, WrapAtom: true, Loads: true, Models: true}
			A := R.P.analyse(f, cfg, func(st *State, ps []*Term) {
				if recvNamed(f) == d.mapT {
					m = ps[0]
					x := newExec(R.P, cfg)
					sp := x.read(st, mkField(m, d.mapS, d.splits), d.splitsV.Type())
					st.facts = st.facts.withGe(linOf(mkLen(sp)).addc(-1))
					m = sp
				}
			})
			R.covered("M01,M02,M03", A)
			c := &fj{R: R, d: fd, A: A, entry: A.Entry, roles: map[*ssa.Function]*fjRole{}, known: known, splits: m}
			known = c.roles
			R.lockRules(d, fd, A, panics)
			if !panics && split != nil && recvNamed(f) == d.mapT {
				R.keyRules(d, fd, A, split)
			}
			if !ok || panics && o.prop == "M06" {
				continue
			}
			c.props = o.prop
			R.covered(o.prop, A)
			if fd.join >= 0 {
				c.join = A.Entry.Params[fd.join]
			}
			c.leaf = A.Entry.Params[fd.body]
			c.roles[f] = &fjRole{kind: "none", cnt: -1}
			if !panics {
				R.covered("M09", A)
				if !fd.par {
					c.oneAfterTheOther()
				}
			}
			c.units(panics)
		}
	}
	for _, x := range []struct {
		id, rule string
		min      int
	}{
		{"M01", "content-locked", 60}, {"M02", "released", 80}, {"M02", "no-nesting", 60}, {"M03", "callback-locked", 30},
		{"M04", "outcome", 10}, {"M05", "same-split", 7}, {"M05", "in-bounds", 1}, {"M05", "size", 2}, {"M05", "content-made", 1},
		{"M06", "exactly-once", 12}, {"M06", "result", 8}, {"M07", "exactly-once", 40}, {"M07", "result", 40}, {"M07", "panic-surfaces", 40},
		{"M09", "one-after-the-other", 12}, {"M09", "own-goroutine", 1}, {"M09", "start-before-own-work", 1},
	} {
		R.need(x.id, x.rule, x.min)
	}
}

func recvNamed(f *ssa.Function) *types.Named {
	r := f.Signature.Recv()
	if r == nil {
		return nil
	}
	t := r.Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// allPaths visits every path of an analysis, those of goroutines and parallel
// batches included; own tells whether the path is the main one of a unit.
func allPaths(A *Analysis, visit func(u *Unit, p *Path, own bool)) {
	seen := map[*Path]bool{}
	var sub func(u *Unit, es []*Event)
	one := func(u *Unit, p *Path, own bool) {
		if seen[p] {
			return
		}
		seen[p] = true
		visit(u, p, own)
		sub(u, p.Events)
	}
	sub = func(u *Unit, es []*Event) {
		for _, e := range es {
			for _, q := range e.Sub {
				if e.Kind != "Join" {
					one(u, q, false)
				}
			}
			for _, b := range e.Par {
				for _, q := range b {
					one(u, q, false)
				}
			}
			if e.Kind == "Loop" {
				for _, k := range e.Loop.Conts {
					sub(u, k.Events)
				}
			}
		}
	}
	for _, u := range append([]*Unit{A.Entry}, A.Units...) {
		for _, p := range u.Paths {
			one(u, p, true)
		}
	}
}

// flat visits the events of a path and of the loops on it, but not those of
// goroutines and batches.
func flat(es []*Event, f func(e *Event)) {
	for _, e := range es {
		f(e)
		if e.Kind == "Loop" {
			for _, k := range e.Loop.Conts {
				flat(k.Events, f)
			}
		}
	}
}

// lockRules: M01, M02 and the lock part of M03.
func (R *Report) lockRules(d *mapInfo, fd *fjFn, A *Analysis, panics bool) {
	name := fd.name
	isParam := func(t *Term) int {
		for i, p := range A.Entry.Params {
			if p == t {
				return i
			}
		}
		return -1
	}
	seen := map[*Event]bool{}
	allPaths(A, func(u *Unit, p *Path, own bool) {
		R.ob("M02", "released", name, u.Fn.Pos(), len(p.St.locks) == 0, "ends (%s) while still holding a lock", p.Outcome)
		flat(p.Events, func(e *Event) {
			if seen[e] {
				return
			}
			seen[e] = true
			var s *Term
			needed := 1
			switch e.Kind {
			case "MapGet", "MapRange", "MapLen":
				s = d.content(e.Addr)
			case "MapNext":
				if e.Addr.Op == "iter" {
					s = d.content(e.Addr.Args[0])
				}
			case "MapSet", "MapDel", "MapClear":
				s = d.content(e.Addr)
				needed = 2
			case "Load":
				s = d.contentAddr(e.Addr)
			case "Store":
				s = d.contentAddr(e.Addr)
				needed = 2
			case "Race":
				R.ob("M01", "race-free", name, e.Pos, false, "access to %v is not ordered with the access at %s by another goroutine", e.Addr, e.Name)
			case "BadWait", "Deadlock":
				R.ob("M02", "wait-group", name, e.Pos, false, "%s", e.Name)
			case "LockImbalance":
				R.ob("M02", "released", name, e.Pos, false, "a lock is not released in every round of the loop")
			case "Lock", "RLock":
				if d.lockOf(e.Addr) != nil {
					for l, n := range e.Locks {
						if n > 0 && d.lockOf(l) != nil {
							R.ob("M02", "no-nesting", name, e.Pos, false, "acquires a lock of the map while holding one")
						}
					}
					R.ob("M02", "no-nesting", name, e.Pos, true, "")
				}
			case "Unlock":
				R.ob("M02", "unlock-held", name, e.Pos, e.Locks[e.Addr] >= 1000, "unlocks %v, which is not locked", e.Addr)
			case "RUnlock":
				R.ob("M02", "unlock-held", name, e.Pos, e.Locks[e.Addr]%1000 > 0, "unlocks %v, which is not locked for reading", e.Addr)
			case "Go", "Par", "WgWait", "Rec", "Recv", "Select":
				for l := range e.Locks {
					if d.lockOf(l) != nil {
						R.ob("M02", "no-waiting", name, e.Pos, false, "starts or waits for other goroutines while holding a lock of the map")
					}
				}
			case "Call":
				i := isParam(e.Callee)
				for _, a := range e.Args {
					sp := d.content(a)
					if sp == nil {
						continue
					}
					ok := d.held(e.Locks, sp, e.Facts) == 2
					R.ob("M01", "content-locked", name, e.Pos, ok, "passes on the content of a split without holding its lock exclusively")
					if i >= 0 {
						R.ob("M03", "callback-locked", name, e.Pos, ok, "invokes the function without the lock of the visited split")
					}
				}
				if i >= 0 && fd.walks && i == fd.body {
					// the entry of which split?
					var from *Term
					flat(p.Events, func(q *Event) {
						if q.Kind == "MapNext" && len(e.Args) == 2 && q.Res[1] == e.Args[0] && q.Addr.Op == "iter" {
							from = d.content(q.Addr.Args[0])
						}
					})
					ok := from != nil && d.held(e.Locks, from, e.Facts) == 2
					R.ob("M03,M01", "callback-locked", name, e.Pos, ok, "invokes the function without the lock of the visited split")
				}
			}
			if s != nil && !isLocalRoot(rootOf(s)) {
				R.ob("M01", "content-locked", name, e.Pos, d.held(e.Locks, s, e.Facts) >= needed, "accesses the content of a split (%s) without the lock this needs", e.Kind)
			}
		})
		if own && p.Outcome == "return" {
			for _, r := range p.Ret {
				R.ob("M01", "content-kept", name, u.Fn.Pos(), d.content(r) == nil, "returns the content of a split")
			}
		}
	})
}

// splitOf is the selection of a split for a key, as the map's Split does it.
type splitSel struct {
	m, key *Term
	paths  []*Path
	idx    []*Term
}

func (R *Report) splitOf(d *mapInfo, f *ssa.Function) *splitSel {
	if f == nil || len(f.Params) != 2 {
		return nil
	}
	s := &splitSel{}
	cfg := Config{Loads: true, Models: true}
	var sp *Term
	A := R.P.analyse(f, cfg, func(st *State, ps []*Term) {
		x := newExec(R.P, cfg)
		sp = x.read(st, mkField(ps[0], d.mapS, d.splits), d.splitsV.Type())
		st.facts = st.facts.withGe(linOf(mkLen(sp)).addc(-1))
	})
	R.covered("M05", A)
	s.m, s.key = A.Entry.Params[0], A.Entry.Params[1]
	for _, p := range A.Entry.Paths {
		ok := p.Outcome == "return" && len(p.Ret) == 1 && p.Ret[0].Op == "idx" && p.Ret[0].Args[0] == sp
		if !R.ob("M05", "split-of-key", "sync.Map.Split", f.Pos(), ok, "does not return one of the map's splits") {
			continue
		}
		i := p.Ret[0].Args[1]
		R.ob("M05", "in-bounds", "sync.Map.Split", f.Pos(), p.Facts.entailsGe(linOf(i)) && p.Facts.entailsGe(linOf(mkLen(sp)).sub(linOf(i)).addc(-1)),
			"the index %v may be outside the slice of splits", i)
		n := 0
		bad := false
		walkTerm(i, func(t *Term) {
			if t.Op == "pure" && t.Aux == "Hash" && t.Args[0] == s.key {
				n++
			}
			if t.Op == "atom" && t != s.key && t != s.m {
				bad = true
			}
		})
		R.ob("M05", "by-hash", "sync.Map.Split", f.Pos(), !bad, "the split does not depend on the key's hash value and the number of splits alone: %v", i)
		s.paths = append(s.paths, p)
		s.idx = append(s.idx, i)
	}
	return s
}

// sameSplit: is the index the one that Split selects?
func (s *splitSel) same(idx, m, key *Term, f *Facts) bool {
	sub := map[*Term]*Term{s.m: m, s.key: key}
	for k, p := range s.paths {
		g := f
		for _, l := range p.Facts.ge {
			g = g.withGe(linOf(substTerm(l.term(), sub)))
		}
		if g.inconsistent() {
			continue
		}
		if !g.entailsEq(linOf(idx).sub(linOf(substTerm(s.idx[k], sub)))) {
			return false
		}
	}
	return len(s.paths) > 0
}

type section struct {
	split *Term
	excl  bool
	n     int
}

// keyRules: the single-key operations (M03, M04, M05).
func (R *Report) keyRules(d *mapInfo, fd *fjFn, A *Analysis, split *splitSel) {
	f := fd.fn
	single := false
	for _, n := range mapSingle {
		single = single || n == f.Name()
	}
	var key *Term
	for i, p := range f.Params {
		if n, ok := p.Type().(*types.Named); ok && n.Obj().Name() == "Hasher" {
			key = A.Entry.Params[i]
		}
	}
	if key == nil {
		R.ob("M04,M05", "known-shape", fd.name, f.Pos(), !single, "has no key")
		return
	}
	m := A.Entry.Params[0]
	name := fd.name
	if single {
		R.covered("M04,M05", A)
	}
	for _, p := range A.Entry.Paths {
		flat(p.Events, func(e *Event) {
			var s *Term
			switch e.Kind {
			case "Lock", "RLock":
				s = d.lockOf(e.Addr)
			case "MapGet", "MapSet", "MapDel", "MapRange", "MapClear":
				s = d.content(e.Addr)
			}
			if s == nil {
				return
			}
			ok := s.Op == "idx" && s.Args[0].Op == "load" && rootOf(s.Args[0].Args[0]) == m && split.same(s.Args[1], m, key, p.Facts)
			R.ob("M05", "same-split", name, e.Pos, ok, "works on another split than the one that Split returns for the key")
			switch e.Kind {
			case "MapGet", "MapSet", "MapDel":
				R.ob("M04,M05", "same-key", name, e.Pos, e.Args[0] == key, "works on another key than the given one")
			}
		})
		if single {
			R.keyPath(d, fd, A, p, key)
		}
	}
	if !single {
		return
	}
}

// keyPath compares what one path does to the entry with the documentation.
func (R *Report) keyPath(d *mapInfo, fd *fjFn, A *Analysis, p *Path, key *Term) {
	f := fd.fn
	name := fd.name
	var fun, value *Term
	for i, q := range f.Params {
		t := A.Entry.Params[i]
		if t == key || i == 0 {
			continue
		}
		if funcSig(q.Type()) != nil {
			fun = t
		} else {
			value = t
		}
	}
	if p.Outcome != "return" {
		R.ob("M04", "outcome", name, f.Pos(), false, "panics although no user function did")
		return
	}
	type eff struct {
		e   *Event
		sec int
	}
	sec, excl := 0, false
	var effs []eff
	var gets []eff
	var calls []eff
	secExcl := map[int]bool{}
	weird := token.NoPos
	for _, e := range p.Events {
		switch e.Kind {
		case "Lock", "RLock", "Unlock", "RUnlock":
			if d.lockOf(e.Addr) != nil {
				sec++
				excl = e.Kind == "Lock"
				secExcl[sec] = excl
			}
		case "MapGet":
			if d.content(e.Addr) != nil {
				gets = append(gets, eff{e, sec})
			}
		case "MapSet", "MapDel":
			if d.content(e.Addr) != nil {
				effs = append(effs, eff{e, sec})
			}
		case "MapClear", "MapRange":
			weird = e.Pos
		case "Call":
			if fun != nil && e.Callee == fun {
				calls = append(calls, eff{e, sec})
			}
		case "Go", "Par", "Rec":
			weird = e.Pos
		case "Loop":
			flat([]*Event{e}, func(q *Event) {
				switch q.Kind {
				case "MapSet", "MapDel", "Lock", "RLock", "Go", "Par", "Rec":
					weird = q.Pos
				case "Call":
					if fun != nil && q.Callee == fun {
						weird = q.Pos
					}
				}
			})
		}
	}
	if !R.ob("M03,M04", "straight", name, weird, !weird.IsValid(), "cannot decide what this does to the entry of the key") {
		return
	}
	// one exclusive section for all effects
	for _, q := range effs {
		R.ob("M04", "one-section", name, q.e.Pos, q.sec == effs[0].sec && secExcl[q.sec], "the entry is changed in more than one critical section, or in one that is not exclusive")
	}
	// the read that decides
	var dec *eff
	for i := range gets {
		g := &gets[i]
		if len(effs) > 0 {
			if g.sec == effs[0].sec && g.e.Pos != token.NoPos && before(p.Events, g.e, effs[0].e) {
				if dec == nil {
					dec = g
				}
			}
		} else {
			dec = g
		}
	}
	// calls of the user function
	name2 := map[string]int{"LoadOrCompute": 1, "DeleteOrCompute": 1, "Modify": 1}[f.Name()]
	if fun != nil {
		R.ob("M03", "call-count", name, f.Pos(), len(calls) <= name2 && (f.Name() != "Modify" || len(calls) == 1), "invokes the function %d times", len(calls))
	}
	for _, q := range calls {
		// the lookup that the call depends on
		var dec *eff
		for i := range gets {
			if g := &gets[i]; before(p.Events, g.e, q.e) && (dec == nil || dec.sec != q.sec) {
				dec = g
			}
		}
		switch f.Name() {
		case "LoadOrCompute":
			free := true
			for l, n := range q.e.Locks {
				if n > 0 && d.lockOf(l) != nil {
					free = false
				}
			}
			R.ob("M03", "callback-unlocked", name, q.e.Pos, free, "invokes the function while holding a lock of the map")
			absent := false
			for _, g := range gets {
				if before(p.Events, g.e, q.e) && p.Facts.truth(g.e.Res[1]) == -1 {
					absent = true
				}
			}
			R.ob("M03", "call-if-absent", name, q.e.Pos, absent, "invokes the function although the key was not found absent before")
		case "DeleteOrCompute":
			R.ob("M03", "callback-locked", name, q.e.Pos, dec != nil && q.sec == dec.sec && secExcl[q.sec], "invokes the function outside the exclusive critical section that found the key absent")
			R.ob("M03", "call-if-absent", name, q.e.Pos, dec != nil && before(p.Events, dec.e, q.e) && p.Facts.truth(dec.e.Res[1]) == -1, "invokes the function although the key was not found absent before")
		case "Modify":
			R.ob("M03", "callback-locked", name, q.e.Pos, dec != nil && q.sec == dec.sec && secExcl[q.sec], "invokes the function outside the exclusive critical section that looked the key up")
			ok := dec != nil && len(q.e.Args) == 2 && before(p.Events, dec.e, q.e)
			if ok {
				same := func(a, b *Term) bool {
					return a == b || p.Facts.truth(a) != 0 && p.Facts.truth(a) == p.Facts.truth(b)
				}
				ok = same(q.e.Args[1], dec.e.Res[1]) && (q.e.Args[0] == dec.e.Res[0] || q.e.Args[0] == tNil && p.Facts.truth(dec.e.Res[1]) == -1)
			}
			R.ob("M03", "callback-args", name, q.e.Pos, ok, "does not pass the key's current value and presence to the function")
		}
	}
	decides := f.Name() != "Delete"
	if decides && !R.ob("M04", "decides-locked", name, f.Pos(), dec != nil, "acts on the entry without having looked it up in the same critical section") {
		return
	}
	if f.Name() == "Modify" && len(effs) == 0 {
		// nothing was changed: still the lookup must have been exclusive with the call
		R.ob("M04", "decides-locked", name, f.Pos(), secExcl[dec.sec], "the entry is looked up without the exclusive lock")
	}
	// outcome, for the entry present or absent at the deciding read
	for _, present := range []bool{true, false} {
		g := p.Facts
		ok := true
		pres := 0
		val := (*Term)(nil)
		if dec != nil {
			g, ok = g.assume(dec.e.Res[1], present)
			val = dec.e.Res[0]
		}
		if !ok {
			continue
		}
		pres = -1
		if present {
			pres = 1
		}
		// final state of the entry
		fp, fv := pres, val
		for _, q := range effs {
			if q.e.Kind == "MapSet" {
				fp, fv = 1, q.e.Val
			} else {
				fp, fv = -1, nil
			}
		}
		var res []*Term
		if len(calls) > 0 {
			res = calls[0].e.Res
		}
		nv := value
		if fun != nil && len(res) > 0 {
			nv = res[0]
		}
		eqv := func(a, b *Term) bool {
			if a == nil || b == nil {
				return a == b
			}
			return a == b || g.truth(A.Exec.mkEq(a, b)) == 1
		}
		msg := ""
		wantRet := func(v *Term, b int) {
			if len(p.Ret) != 2 {
				msg = "does not return two results"
				return
			}
			if !(eqv(p.Ret[0], v) || v == nil && p.Ret[0] == tNil) && msg == "" {
				msg = fmt.Sprintf("returns %v where the documentation asks for %v", p.Ret[0], v)
			}
			if g.truth(p.Ret[1]) != b && msg == "" {
				msg = fmt.Sprintf("returns %s instead of %s as second result", tstr(g.truth(p.Ret[1])), tstr(b))
			}
		}
		wantEntry := func(pr int, v *Term) {
			if msg != "" {
				return
			}
			if fp != pr || pr == 1 && !eqv(fv, v) {
				msg = fmt.Sprintf("leaves the entry %s with value %v, it should be %s with value %v", pstr(fp), fv, pstr(pr), v)
			}
		}
		switch f.Name() {
		case "Load":
			wantEntry(pres, val)
			if present {
				wantRet(val, 1)
			} else if len(p.Ret) == 2 && p.Ret[0] == val {
				wantRet(val, -1)
			} else {
				wantRet(nil, -1)
			}
		case "Delete":
			wantEntry(-1, nil)
		case "LoadOrStore", "LoadOrCompute":
			if present {
				wantEntry(1, val)
				wantRet(val, 1)
			} else {
				wantEntry(1, nv)
				wantRet(nv, -1)
			}
		case "DeleteOrStore", "DeleteOrCompute":
			if present {
				wantEntry(-1, nil)
				wantRet(val, 1)
			} else {
				wantEntry(1, nv)
				wantRet(nv, -1)
			}
		case "Modify":
			if len(res) != 2 {
				msg = "the modifier is not invoked"
				break
			}
			for _, store := range []bool{true, false} {
				g2, ok := g.assume(res[1], store)
				if !ok {
					continue
				}
				if store {
					wantEntry(1, res[0])
				} else {
					wantEntry(-1, nil)
				}
				if len(p.Ret) != 2 || p.Ret[0] != res[0] && g2.truth(A.Exec.mkEq(p.Ret[0], res[0])) != 1 || g2.truth(p.Ret[1]) != map[bool]int{true: 1, false: -1}[store] {
					if msg == "" {
						msg = "does not return what the modifier returned"
					}
				}
			}
		}
		R.ob("M04", "outcome", name, f.Pos(), msg == "", "if the key is %s: %s", pstr(pres), msg)
	}
}

func pstr(n int) string {
	if n == 1 {
		return "present"
	}
	return "absent"
}

func before(es []*Event, a, b *Event) bool {
	for _, e := range es {
		if e == a {
			return true
		}
		if e == b {
			return false
		}
	}
	return false
}

// newMap: M05 for the constructor.
func (R *Report) newMap(d *mapInfo) {
	f := R.P.fn("sync", "NewMap")
	if !R.ob("M05", "api-present", "sync.NewMap", token.NoPos, f != nil && len(f.Params) == 1 && isIntType(f.Params[0].Type()), "function NewMap(size) is missing") {
		return
	}
	A := R.P.analyse(f, Config{Loads: true, Models: true}, nil)
	R.covered("M05", A)
	size := linOf(A.Entry.Params[0])
	x := A.Exec
	for _, p := range A.Entry.Paths {
		if !R.ob("M05", "size", "sync.NewMap", f.Pos(), p.Outcome == "return" && len(p.Ret) == 1 && isLocalRoot(rootOf(p.Ret[0])), "does not return a new map") {
			continue
		}
		sp := x.read(p.St, mkField(p.Ret[0], d.mapS, d.splits), d.splitsV.Type())
		base, lo, hi := sliceParts(sp)
		grown := R.grown(d, p.Events, base)
		if !R.ob("M05", "size", "sync.NewMap", f.Pos(), grown || isLocalRoot(rootOf(base)), "the slice of splits is not new: %v", sp) {
			continue
		}
		n := linOf(mkLen(sp))
		if g := p.Facts.withGe(size.addc(-1)); !g.inconsistent() {
			R.ob("M05", "size", "sync.NewMap", f.Pos(), g.entailsEq(n.sub(size)), "the map has %v splits instead of the requested number", n.term())
		}
		if g := p.Facts.withGe(size.neg()); !g.inconsistent() {
			R.ob("M05", "size", "sync.NewMap", f.Pos(), g.entailsGe(n.addc(-1)), "the map has %v splits for a size below one", n.term())
		}
		// every split gets a content of its own
		if grown {
			R.ob("M05", "content-made", "sync.NewMap", f.Pos(), true, "")
			continue
		}
		var done []*fjItem
		for _, e := range p.Events {
			if e.Kind != "Loop" {
				continue
			}
			if it := R.fillLoop(d, x, e, base); it != nil {
				done = append(done, it)
			}
		}
		c := &fj{R: R, d: &fjFn{}}
		_, err := c.tile(done, linOf(lo), linOf(hi), p.Facts, false)
		R.ob("M05", "content-made", "sync.NewMap", f.Pos(), err == "", "not every split gets a content of its own: %s", err)
	}
}

// grown: sp has been empty and a loop has appended splits to it that have a
// new built-in map each.
func (R *Report) grown(d *mapInfo, events []*Event, sp *Term) bool {
	for _, e := range events {
		if e.Kind != "Loop" {
			continue
		}
		for _, v := range e.Loop.Vars {
			if v.Head != sp || v.Init == nil || len(v.Nexts) != len(e.Loop.Conts) || len(v.Nexts) == 0 {
				continue
			}
			base, lo, hi := sliceParts(v.Init)
			if v.Init != tNil && (lo != hi || !isLocalRoot(rootOf(base))) {
				continue
			}
			ok := true
			for k, n := range v.Nexts {
				ok = ok && n.Op == "append" && n.Args[0] == sp && d.newSplits(e.Loop, e.Loop.Conts[k], n.Args[1])
			}
			return ok
		}
	}
	return false
}

// newSplits: one split with a built-in map that is new in this iteration.
func (d *mapInfo) newSplits(lp *Loop, k *Cont, s *Term) bool {
	base, lo, hi := sliceParts(s)
	if n, ok := linOf(hi).sub(linOf(lo)).isConst(); !ok || n != 1 {
		return false
	}
	ok := false
	for _, q := range k.Events {
		if q.Kind == "Store" && q.Addr.Op == "idx" && q.Addr.Args[0] == base {
			v := q.Val
			ok = q.Addr.Args[1] == lo && v.Op == "struct" && len(v.Args) == d.splitS.NumFields() && v.Args[d.cont].Op == "map" && v.Args[d.cont].ID >= lp.K.ID
		}
	}
	return ok
}

// fillLoop: a loop that stores a new built-in map into consecutive splits.
func (R *Report) fillLoop(d *mapInfo, x *Exec, e *Event, base *Term) *fjItem {
	lp := e.Loop
	var idx [][]*Term
	for _, k := range lp.Conts {
		var is []*Term
		for _, q := range k.Events {
			if q.Kind != "Store" {
				continue
			}
			var a *Term
			v := q.Val
			if a = d.contentAddr(q.Addr); a == nil {
				if q.Addr.Op == "idx" && v.Op == "struct" && len(v.Args) == d.splitS.NumFields() {
					a, v = q.Addr, v.Args[d.cont]
				}
			}
			if a == nil || a.Op != "idx" || a.Args[0] != base {
				continue
			}
			if v.Op != "map" || v.ID < lp.K.ID {
				return nil
			}
			is = append(is, a.Args[1])
		}
		if len(is) != 1 {
			return nil
		}
		idx = append(idx, is)
	}
	if len(idx) == 0 {
		return nil
	}
	cur := linOf(idx[0][0])
	if len(idx) > 1 {
		for _, is := range idx {
			if linOf(is[0]).key() != cur.key() {
				return nil
			}
		}
	}
	at0 := x.atInit(cur, lp.Vars, lp.K)
	for _, dir := range []int64{1, -1} {
		ok := true
		for k := range lp.Conts {
			if dl, c := x.shift(cur, lp.Vars, k, lp.K).sub(cur).isConst(); !c || dl != dir {
				ok = false
			}
		}
		if ok {
			if dir > 0 {
				return &fjItem{lo: at0, hi: cur, loop: true}
			}
			return &fjItem{lo: cur.addc(1), hi: at0.addc(1), loop: true}
		}
	}
	return nil
}
