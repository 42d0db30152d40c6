package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loop summarises a loop: its variables at the header in an arbitrary
// iteration, and one path per way through the body back to the header.
type Loop struct {
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	Vars   []*LoopVar
	K      *Term // iteration counter, an atom
	Conts  []*Cont
	Inv    []*Lin
	Exits  int
	Facts0 *Facts // facts at entry
}

type LoopVar struct {
	Phi   *ssa.Phi
	Addr  *Term
	Typ   types.Type
	Init  *Term
	Head  *Term // value at the header in iteration K
	Step  int64 // affine: Head = Init + Step*K
	Aff   bool
	Nexts []*Term    // per Cont
	Base  *Term      // slices that stay parts of one slice
	Parts []*LoopVar // their bounds
	Of    *LoopVar
}

func (v *LoopVar) key() string {
	switch {
	case v.Of != nil:
		if v.Of.Parts[0] == v {
			return "lo:" + v.Of.key()
		}
		return "hi:" + v.Of.key()
	case v.Phi != nil:
		return v.Phi.Name()
	}
	return v.Addr.String()
}

func sliceParts(t *Term) (base, lo, hi *Term) {
	if t.Op == "slice" {
		return t.Args[0], t.Args[1], t.Args[2]
	}
	return t, mkInt(0), mkLen(t)
}

// split adds variables for the bounds of slices.
func splitSlice(v *LoopVar) []*LoopVar {
	if v.Typ == nil || v.Init == nil || v.Init == tNil {
		return nil
	}
	if _, ok := v.Typ.Underlying().(*types.Slice); !ok {
		return nil
	}
	b, lo, hi := sliceParts(v.Init)
	switch b.Op {
	case "atom", "cell", "make", "load":
	default:
		return nil
	}
	v.Base = b
	v.Parts = []*LoopVar{{Typ: types.Typ[types.Int], Init: lo, Of: v}, {Typ: types.Typ[types.Int], Init: hi, Of: v}}
	return v.Parts
}

// Cont is a path through the body back to the header.
type Cont struct {
	Events []*Event
	Facts  *Facts
	St     *State
}

// loop analyses the loop whose header st just entered from outside.
func (x *Exec) loop(st *State, phis []*ssa.Phi, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) []*State {
	x.nloop++
	fr := st.top()
	fn := fr.fn
	depth := len(st.stack)
	var vars []*LoopVar
	for _, p := range phis {
		v := &LoopVar{Phi: p, Typ: p.Type(), Init: fr.env[p]}
		vars = append(append(vars, v), splitSlice(v)...)
	}
	memVar := map[*Term]bool{}
	dead := map[*Term]bool{} // addresses forgotten at the header
	deadRoot := map[*Term]bool{}
	epochs := false
	mapDirty := false
	classes := map[string]bool{}
	k := fresh("k", types.Typ[types.Int])
	var inv []*Lin
	var invDone bool
	var same []*LoopVar // variables that keep their known initial (boolean or nil) value in every round
	keeps := func(v *LoopVar, t *Term) *Term {
		if isBoolType(v.Typ) {
			if st.facts.truth(v.Init) == 1 {
				return t
			}
			return mkNot(t)
		}
		return x.mkEq(t, tNil)
	}
	killed := map[string]bool{}
	for round := 0; round < 24; round++ {
		hs := st.clone()
		hf := hs.top()
		lp := &Loop{Fn: fn, Header: header, K: k, Vars: vars, Inv: inv, Facts0: st.facts}
		hs.facts = hs.facts.withGe(linOf(k))
		for _, v := range vars {
			v.Nexts = nil
			if v.Aff {
				v.Head = linOf(v.Init).add(linOf(k).mul(linConst(v.Step))).term()
			} else if v.Parts == nil && (v.Head == nil || v.Head == v.Init) {
				note := "loopvar"
				if v.Phi != nil && v.Phi.Comment != "" {
					note = v.Phi.Comment
				} else if v.Addr != nil {
					note = "mem"
				}
				v.Head = fresh(note, v.Typ)
			}
		}
		for _, v := range vars {
			if v.Of != nil {
				continue
			}
			if v.Parts != nil {
				v.Head = mkSlice(v.Base, v.Parts[0].Head, v.Parts[1].Head, v.Typ)
			}
			if v.Phi != nil {
				hf.env[v.Phi] = v.Head
			} else {
				hs.mem[v.Addr] = v.Head
			}
		}
		if epochs {
			hs.epoch = fresh("epoch", nil)
			hs.classEp = x.keptEpochs(hs)
			for a := range hs.mem {
				r := rootOf(a)
				if isLocalRoot(r) && !hs.escaped[r] || x.immutableAddr(a) || memVar[a] || x.kept(a) {
					continue
				}
				delete(hs.mem, a)
				if isLocalRoot(r) {
					hs.rootEp[r] = fresh("epoch", nil)
				}
			}
		}
		for c := range classes {
			hs.classEp[c] = fresh("epoch", nil)
			for a := range hs.mem {
				if memClass(a) == c && !isLocalRoot(rootOf(a)) && !memVar[a] {
					delete(hs.mem, a)
				}
			}
		}
		for a := range dead {
			delete(hs.mem, a)
		}
		for r := range deadRoot {
			hs.rootEp[r] = fresh("epoch", nil)
		}
		if mapDirty {
			for a := range hs.mem {
				if a.Op == "mapelem" {
					delete(hs.mem, a)
				}
			}
		}
		for _, l := range inv {
			hs.facts = hs.facts.withGe(l)
		}
		for _, v := range same {
			if g, ok := hs.facts.assume(keeps(v, v.Head), true); ok {
				hs.facts = g
			}
		}
		hs.emit(&Event{Kind: "Loop", Pos: loopPos(header), In: fn, Loop: lp})
		start := hs.trace
		hs.cont = nil
		headMem := cloneMap(hs.mem)
		headEp := hs.epoch
		headPend := len(hs.pending)
		headRoot := cloneMap(hs.rootEp)
		headClass := map[string]*Term{}
		for c, e := range hs.classEp {
			headClass[c] = e
		}
		headLocks := lockKey(hs.locks)
		hs0 := hs.clone()
		ends := x.run(hs, func(s *State) bool {
			if len(s.stack) < depth {
				return true
			}
			f := s.stack[depth-1]
			if len(s.stack) == depth {
				if s.cont == header {
					return true
				}
				if !body[f.blk] {
					return true
				}
			}
			return false
		})
		var exits []*State
		var conts []*State
		for _, e := range ends {
			if e.outcome == "" && len(e.stack) == depth && e.cont == header && e.stack[depth-1].blk == header {
				conts = append(conts, e)
			} else {
				exits = append(exits, e)
			}
		}
		changed := false
		lp.Conts = nil
		var manyPend []*Pending
		for _, c := range conts {
			lp.Conts = append(lp.Conts, &Cont{Events: c.trace.list(start), Facts: c.facts, St: c})
			for _, v := range vars {
				if v.Of != nil {
					continue
				}
				var n *Term
				if v.Phi != nil {
					n = c.top().env[v.Phi]
				} else {
					n = x.read(c, v.Addr, v.Typ)
				}
				v.Nexts = append(v.Nexts, n)
				if v.Parts != nil {
					b, lo, hi := sliceParts(n)
					if b != v.Base {
						v.Parts, v.Base, v.Head = nil, nil, nil
						changed = true
						inv, same, invDone = nil, nil, false
						continue
					}
					v.Parts[0].Nexts = append(v.Parts[0].Nexts, lo)
					v.Parts[1].Nexts = append(v.Parts[1].Nexts, hi)
				}
			}
			var kept []*LoopVar
			for _, v := range vars {
				if v.Of == nil || v.Of.Parts != nil {
					kept = append(kept, v)
				}
			}
			vars = kept
			if c.epoch != headEp && !epochs {
				epochs, changed = true, true
			}
			for cl, e := range c.classEp {
				if headClass[cl] != e && !classes[cl] {
					classes[cl], changed = true, true
				}
			}
			for r, e := range c.rootEp {
				if headRoot[r] != e && !deadRoot[r] && x.existedBefore(st, r) {
					deadRoot[r], changed = true, true
				}
			}
			for a, v := range c.mem {
				if memVar[a] || headMem[a] == v || dead[a] {
					continue
				}
				if a.Op == "mapelem" {
					if _, ok := headMem[a]; ok || true {
						if !mapDirty {
							mapDirty, changed = true, true
						}
					}
					continue
				}
				r := rootOf(a)
				if isLocalRoot(r) && !x.existedBefore(st, r) {
					continue // allocated in the body
				}
				if varies(a, vars, k) {
					// element addresses that differ per iteration
					if !deadRoot[r] {
						deadRoot[r], changed = true, true
					}
					continue
				}
				init, known := st.mem[a]
				typ := v.Typ
				if p, ok := a.Typ.(*types.Pointer); ok && a.Typ != nil {
					typ = p.Elem()
				}
				if typ == nil && known {
					typ = init.Typ
				}
				if typ == nil {
					dead[a] = true
					changed = true
					continue
				}
				if !known {
					init = x.read(st, a, typ)
				}
				memVar[a] = true
				v := &LoopVar{Addr: a, Typ: typ, Init: init}
				vars = append(append(vars, v), splitSlice(v)...)
				changed = true
			}
			for a := range headMem {
				if _, ok := c.mem[a]; !ok && !dead[a] && !memVar[a] {
					dead[a] = true
					changed = true
				}
			}
			if len(c.pending) > headPend {
				for _, p := range c.pending[headPend:] {
					manyPend = append(manyPend, &Pending{Ev: p.Ev, Many: true, Paths: p.Paths, Access: p.Access, After: p.After, Late: p.Late})
				}
			}
			if lockKey(c.locks) != headLocks {
				c.emit(&Event{Kind: "LockImbalance", Pos: header.Instrs[0].Pos(), In: fn})
				lp.Conts[len(lp.Conts)-1].Events = c.trace.list(start)
			}
		}
		if changed {
			continue
		}
		// affine variables
		for _, v := range vars {
			if v.Aff || !isIntType(v.Typ) || len(conts) == 0 {
				continue
			}
			if killed[v.key()] {
				continue
			}
			var step int64
			ok := true
			for i, n := range v.Nexts {
				d := linOf(n).sub(linOf(v.Head))
				c, isC := d.isConst()
				if !isC || (i > 0 && c != step) {
					ok = false
					break
				}
				step = c
			}
			if ok {
				v.Aff, v.Step = true, step
				v.Head = nil
				changed = true
			}
		}
		if changed {
			continue
		}
		for _, v := range vars { // verify
			if v.Aff {
				for _, n := range v.Nexts {
					if c, ok := linOf(n).sub(linOf(v.Head)).isConst(); !ok || c != v.Step {
						v.Aff, v.Head = false, nil
						changed = true
						inv, same, invDone = nil, nil, false // they were about the old head
						killed[v.key()] = true
						break
					}
				}
			}
		}
		if changed {
			continue
		}
		if !invDone && len(conts) > 0 {
			invDone = true
			for _, v := range vars {
				if v.Of != nil || v.Aff || v.Typ == nil || v.Init == nil || v.Parts != nil {
					continue
				}
				if isBoolType(v.Typ) && st.facts.truth(v.Init) != 0 || v.Init == tNil {
					good := true
					for i, c := range conts {
						if v.Nexts[i] == v.Head {
							continue
						}
						good = good && c.facts.truth(keeps(v, v.Nexts[i])) == 1
					}
					if good {
						same = append(same, v)
					}
				}
			}
			if cand := x.candidates(st, lp, vars, conts, k); len(cand) > 0 {
				inv = cand
				continue
			}
			if len(same) > 0 {
				continue
			}
		}
		// the candidates were assumed: keep those that are inductive
		if len(inv) > 0 {
			var keep []*Lin
			for _, l := range inv {
				good := true
				for i, c := range conts {
					if !c.facts.entailsGe(x.shift(l, vars, i, k)) {
						good = false
						break
					}
				}
				if good {
					keep = append(keep, l)
				}
			}
			if len(keep) != len(inv) {
				inv = keep
				continue
			}
		}
		if len(same) > 0 {
			var keep []*LoopVar
			for _, v := range same {
				good := true
				for i, c := range conts {
					good = good && c.facts.truth(keeps(v, v.Nexts[i])) == 1
				}
				if good {
					keep = append(keep, v)
				}
			}
			if len(keep) != len(same) {
				same = keep
				continue
			}
		}
		if ex, ok := x.rotate(st, hs0, lp, vars, header, body, depth, start, conts, exits); ok {
			exits = ex
		}
		lp.Exits = len(exits)
		for _, e := range exits {
			if e.cont == header {
				e.cont = nil
			}
			if len(manyPend) > 0 {
				have := map[*Event]bool{}
				for _, p := range e.pending {
					have[p.Ev] = true
				}
				for _, p := range manyPend {
					e.pending = append(e.pending, p)
				}
			}
		}
		x.restoreCont(exits)
		return exits
	}
	x.fail("%s: no loop invariant found for the loop at %s", fn, x.P.pos(header.Instrs[0].Pos()))
	return nil
}

func (x *Exec) restoreCont(sts []*State) {}

// condBlocks are the blocks of a loop that are reached from its header and do
// nothing but evaluate the loop's condition.
func condBlocks(header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if out[b] || !body[b] {
			return
		}
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType, *ssa.If, *ssa.Jump, *ssa.DebugRef, *ssa.Extract:
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					return
				}
			case *ssa.Call:
				if b, ok := i.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
					return
				}
			default:
				return
			}
		}
		out[b] = true
		for _, s := range b.Succs {
			visit(s)
		}
	}
	visit(header)
	for _, in := range header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return nil
		}
	}
	return out
}

// rotate tells the last round of a loop from the others, for loops that end
// because a boolean variable has changed: the rounds of the summary are then
// those that another one follows, and the loop is left right away, from within
// a round, or after a last round that leads out of the loop.
func (x *Exec) rotate(st, hs *State, lp *Loop, vars []*LoopVar, header *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, depth int, start *Trace, conts, exits []*State) ([]*State, bool) {
	flag := false
	for _, v := range vars {
		if v.Typ == nil || v.Of != nil || v.Head == nil || v.Head.Op != "atom" || !isBoolType(v.Typ) || len(v.Nexts) == 0 {
			continue
		}
		for _, e := range exits {
			flag = flag || e.facts.truth(v.Head) != 0
		}
	}
	region := condBlocks(header, body)
	if !flag || len(region) == 0 || len(conts) == 0 || len(conts) > 12 {
		return nil, false
	}
	// leave evaluates the condition: the states that leave the loop, and those
	// that enter the body
	leave := func(s *State) (out, in []*State, ok bool) {
		s.cont = nil
		ends := x.run(s, func(s *State) bool {
			if len(s.stack) != depth {
				return true
			}
			f := s.stack[depth-1]
			return s.cont == header || !region[f.blk]
		})
		for _, e := range ends {
			switch {
			case e.outcome != "" || len(e.stack) != depth || e.cont == header:
				return nil, nil, false
			case body[e.stack[depth-1].blk]:
				in = append(in, e)
			default:
				out = append(out, e)
			}
		}
		return out, in, true
	}
	_, in, ok := leave(hs.clone())
	if !ok {
		return nil, false
	}
	// nothing is done: the loop is left at once
	zero, _, ok := leave(st.clone())
	if !ok {
		return nil, false
	}
	all := zero
	var rounds []*State
	for _, s := range in {
		for _, e := range x.run(s, func(s *State) bool {
			if len(s.stack) < depth {
				return true
			}
			return len(s.stack) == depth && (s.cont == header || !body[s.stack[depth-1].blk])
		}) {
			if e.outcome == "" && len(e.stack) == depth && e.cont == header && e.stack[depth-1].blk == header {
				rounds = append(rounds, e)
			} else {
				all = append(all, e)
			}
		}
	}
	var cs []*Cont
	var nexts [][]*Term
	for _, c := range rounds {
		after := c.clone()
		out, again, ok := leave(after)
		if !ok {
			return nil, false
		}
		all = append(all, out...)
		for _, a := range again {
			cs = append(cs, &Cont{Events: c.trace.list(start), Facts: a.facts, St: c})
			var ns []*Term
			for _, v := range vars {
				if v.Of != nil {
					ns = append(ns, nil)
					continue
				}
				if v.Phi != nil {
					ns = append(ns, c.top().env[v.Phi])
				} else {
					ns = append(ns, x.read(c, v.Addr, v.Typ))
				}
			}
			nexts = append(nexts, ns)
		}
	}
	lp.Conts = cs
	for i, v := range vars {
		if v.Of != nil {
			continue
		}
		v.Nexts = nil
		for _, p := range v.Parts {
			p.Nexts = nil
		}
		for _, ns := range nexts {
			v.Nexts = append(v.Nexts, ns[i])
			if v.Parts != nil {
				_, lo, hi := sliceParts(ns[i])
				v.Parts[0].Nexts = append(v.Parts[0].Nexts, lo)
				v.Parts[1].Nexts = append(v.Parts[1].Nexts, hi)
			}
		}
	}
	return all, true
}

func (x *Exec) existedBefore(st *State, r *Term) bool {
	if st.escaped[r] {
		return true
	}
	// a root allocated before the loop has a smaller ID than the loop's atoms;
	// looking through memory and environments is exact enough
	for k, v := range st.mem {
		if rootOf(k) == r || mentions(v, r) {
			return true
		}
	}
	for _, f := range st.stack {
		for _, v := range f.env {
			if mentions(v, r) {
				return true
			}
		}
		for _, d := range f.defers {
			for _, a := range d.args {
				if mentions(a, r) {
					return true
				}
			}
			if d.fn != nil && mentions(d.fn, r) {
				return true
			}
		}
	}
	return false
}

func varies(a *Term, vars []*LoopVar, k *Term) bool {
	if a.Op != "idx" && idxPart(a) == nil {
		return false
	}
	bad := mentions(a, k)
	for _, v := range vars {
		if v.Head != nil && v.Head.Op == "atom" && mentions(a, v.Head) {
			bad = true
		}
	}
	return bad
}

// lengthOf is the length of a slice, or of a reflected one; nil for other values.
func lengthOf(v *Term, typ types.Type) *Term {
	if typ == nil {
		return nil
	}
	if _, ok := typ.Underlying().(*types.Slice); ok {
		return mkLen(v)
	}
	if n, ok := typ.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value" {
		return reflectLen(v)
	}
	return nil
}

// reflectLen is the length of a reflected slice, string or array, whose
// operations have not panicked.
func reflectLen(v *Term) *Term {
	if v.Op == "pure" {
		switch v.Aux {
		case "(reflect.Value).Slice":
			if len(v.Args) == 3 {
				return sub(v.Args[2], v.Args[1])
			}
		case "reflect.Append":
			if len(v.Args) == 2 && v.Args[1].Op == "list" {
				return add(reflectLen(v.Args[0]), mkInt(int64(len(v.Args[1].Args))))
			}
		case "reflect.Zero":
			if t := v.Args[0]; t.Op == "pure" && t.Aux == "reflect.SliceOf" {
				return mkInt(0)
			}
		case "reflect.MakeSlice":
			return v.Args[1]
		}
	}
	return mk("pure", "(reflect.Value).Len", types.Typ[types.Int], v)
}

// shift is l in the next iteration along continuation i.
func (x *Exec) shift(l *Lin, vars []*LoopVar, i int, k *Term) *Lin {
	sub := map[*Term]*Lin{k: linOf(k).addc(1)}
	for _, v := range vars {
		if !v.Aff && isIntType(v.Typ) && v.Head.Op == "atom" && i < len(v.Nexts) {
			sub[v.Head] = linOf(v.Nexts[i])
		} else if v.Head.Op == "atom" && v.Parts == nil && i < len(v.Nexts) {
			if n := lengthOf(v.Head, v.Typ); n != nil {
				sub[n] = linOf(lengthOf(v.Nexts[i], v.Typ))
			}
		}
	}
	return l.subst(sub)
}

func (x *Exec) atInit(l *Lin, vars []*LoopVar, k *Term) *Lin {
	sub := map[*Term]*Lin{k: linConst(0)}
	for _, v := range vars {
		if !v.Aff && isIntType(v.Typ) && v.Head.Op == "atom" {
			sub[v.Head] = linOf(v.Init)
		} else if v.Head.Op == "atom" && v.Parts == nil {
			if n := lengthOf(v.Head, v.Typ); n != nil {
				sub[n] = linOf(lengthOf(v.Init, v.Typ))
			}
		}
	}
	return l.subst(sub)
}

func maxHead(heads map[*Term]bool) int {
	n := 0
	for t := range heads {
		if t.ID > n {
			n = t.ID
		}
	}
	return n
}

// candidates proposes invariants that hold at entry: monotone variables, linear
// relations between variables, and the guards of the body weakened by one.
func (x *Exec) candidates(st *State, lp *Loop, vars []*LoopVar, conts []*State, k *Term) []*Lin {
	var out []*Lin
	seen := map[string]bool{}
	put := func(l *Lin) {
		l = tighten(l)
		if _, c := l.isConst(); c {
			return
		}
		if seen[l.key()] {
			return
		}
		seen[l.key()] = true
		if st.facts.withGe(linOf(k)).entailsGe(x.atInit(l, vars, k)) {
			out = append(out, l)
		}
	}
	headAtoms := map[*Term]bool{k: true}
	var ints []*LoopVar
	for _, v := range vars {
		if isIntType(v.Typ) {
			ints = append(ints, v)
			if !v.Aff {
				headAtoms[v.Head] = true
			}
		}
	}
	for _, v := range ints {
		if v.Aff {
			continue
		}
		put(linOf(v.Head).sub(linOf(v.Init)))
		put(linOf(v.Init).sub(linOf(v.Head)))
		put(linOf(v.Head))
		put(linOf(v.Head).addc(-1))
	}
	// equalities sum c_i (v_i - init_i) = 0 with c_i in {-1,0,1}, up to three variables
	var nv []*LoopVar
	for _, v := range ints {
		nv = append(nv, v)
	}
	coefs := []int64{-1, 1}
	diff := func(v *LoopVar) *Lin { return linOf(v.Head).sub(linOf(v.Init)) }
	try := func(l *Lin) {
		if _, c := l.isConst(); c {
			return
		}
		for i, c := range conts {
			d := x.shift(l, vars, i, k).sub(l)
			if !c.facts.entailsEq(d) {
				return
			}
		}
		put(l)
		put(l.neg())
	}
	for i := range nv {
		for j := i + 1; j < len(nv); j++ {
			for _, c := range coefs {
				try(diff(nv[i]).addScaled(diff(nv[j]), c))
				for m := j + 1; m < len(nv) && len(nv) <= 7; m++ {
					for _, d := range coefs {
						try(diff(nv[i]).addScaled(diff(nv[j]), c).addScaled(diff(nv[m]), d))
					}
				}
			}
		}
	}
	// what is known of the initial value may remain true
	for _, v := range ints {
		if v.Aff || v.Init == nil || v.Init.Op != "atom" || v.Init == v.Head {
			continue
		}
		for _, l := range st.facts.ge {
			if len(l.M) > 3 {
				continue
			}
			uses := false
			for _, m := range l.M {
				uses = uses || len(m.Vars) == 1 && m.Vars[0] == v.Init
			}
			if uses {
				put(l.subst(map[*Term]*Lin{v.Init: linOf(v.Head)}))
			}
		}
	}
	// the lengths of slices that grow
	for _, v := range vars {
		if v.Parts != nil || v.Of != nil || v.Head == nil || v.Head.Op != "atom" || len(conts) == 0 || len(v.Nexts) != len(conts) {
			continue
		}
		n := lengthOf(v.Head, v.Typ)
		if n == nil {
			continue
		}
		var step int64
		ok, grows := true, true
		for i, t := range v.Nexts {
			c, isC := linOf(lengthOf(t, v.Typ)).sub(linOf(n)).isConst()
			ok = ok && isC && (i == 0 || c == step)
			grows = grows && isC && c >= 0
			step = c
		}
		if grows && !ok {
			headAtoms[n] = true
			put(linOf(n).sub(linOf(lengthOf(v.Init, v.Typ))))
			put(linOf(n).addc(-1))
		}
		if ok && step != 0 {
			headAtoms[n] = true
			try(linOf(n).sub(linOf(lengthOf(v.Init, v.Typ))).addScaled(linOf(k), -step))
		}
	}
	// guards
	base := map[string]bool{}
	for _, l := range st.facts.ge {
		base[l.key()] = true
	}
	for _, c := range conts {
		for _, l := range c.facts.ge {
			if base[l.key()] {
				continue
			}
			has, foreign := false, false
			for _, m := range l.M {
				for _, v := range m.Vars {
					if headAtoms[v] {
						has = true
					} else if v.ID > k.ID && (v.Op == "atom") {
						foreign = true
					}
				}
			}
			if !has || foreign {
				continue
			}
			put(l)
			put(l.addc(1))
			for _, v := range ints {
				if v.Aff && v.Step > 1 {
					put(l.addc(v.Step))
				}
			}
		}
	}
	for _, c := range conts {
		for _, l := range c.facts.ne {
			for _, m := range l.M {
				if len(m.Vars) == 1 && headAtoms[m.Vars[0]] && newest(l) <= maxHead(headAtoms) {
					put(l)
					put(l.neg())
					break
				}
			}
		}
	}
	// relations between a variable and loop-invariant bounds that hold at entry
	for i := range ints {
		for j := range ints {
			if i != j && !(ints[i].Aff && ints[j].Aff) {
				put(linOf(ints[i].Head).sub(linOf(ints[j].Head)))
				put(linOf(ints[i].Head).sub(linOf(ints[j].Head)).addc(1))
				put(linOf(ints[i].Head).sub(linOf(ints[j].Head)).addc(-1))
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].key() < out[j].key() })
	return out
}

// loopPos is a position in the source for a loop.
func loopPos(h *ssa.BasicBlock) token.Pos {
	for _, b := range append([]*ssa.BasicBlock{h}, h.Succs...) {
		for _, i := range b.Instrs {
			if _, phi := i.(*ssa.Phi); !phi && i.Pos().IsValid() {
				return i.Pos()
			}
		}
	}
	return h.Instrs[0].Pos()
}
