package main

// Running a pipeline: the source is drained in sequence (P08), nodes are ended
// once and in order (P06), started, dropped and merged without loss (P14), and
// converted where a strictly ordered node needs it (P05).

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type finding struct {
	prop, rule string
	pos        token.Pos
	ok         bool
	msg        string
}

// runWalk follows the paths of RunWithContext.
type runWalk struct {
	d       *pipe
	x       *Exec
	pl, ctx *Term
	inc     *types.Var // fields set by SetVariableBatchSize
	max     *types.Var
	nof     *types.Var // field set by NofBatches
	path    *Path
	out     []finding
}

const (
	phReady = iota
	phFetched
	phFed
)

type runState struct {
	prepared bool
	size     *Term // announced by the source
	src      *Term
	phase    int
	r        *Term // result of the last fetch
	data     *Term
	src0     []*Term // errors of the source seen since the last batch was fed
	pErr     []*Term
	ctxErr   []*Term
	ctxOK    bool
	srcOK    bool // known from before the loop or from the iteration before
	pOK      bool
	ctxDone  bool
	fetched  bool // ever
	exp      *Lin // next sequence number
	prev     *Term
	pend     *Term
	vals     map[*types.Var]*Term // current values of the pipeline's fields
	orig     map[*types.Var]*Term
	nodes    *Term
	srcErrs  []*Term // since the last fetch
	setErr   []*Term
	ended    *Lin // nodes ended so far
	any      bool // some node was ended
	failed   bool
	begun    bool
	noStrict *Lin // no strictly ordered node at or after this index
	convTo   *Lin // all nodes before this index are converted
	fixed    *Lin // all nodes from here to the last strictly ordered node are converted
}

func (s *runState) clone() *runState {
	t := *s
	t.vals = map[*types.Var]*Term{}
	for k, v := range s.vals {
		t.vals[k] = v
	}
	t.orig = map[*types.Var]*Term{}
	for k, v := range s.orig {
		t.orig[k] = v
	}
	return &t
}

func (w *runWalk) ob(prop, rule string, pos token.Pos, ok bool, format string, a ...interface{}) bool {
	w.out = append(w.out, finding{prop, rule, pos, ok, fmt.Sprintf(format, a...)})
	return ok
}

func isNilT(f *Facts, t *Term) int {
	if t == tNil {
		return 1
	}
	return f.truth(mk("eq", "", types.Typ[types.Bool], t, tNil))
}

func anyNil(f *Facts, ts []*Term, want int) bool {
	for _, t := range ts {
		if isNilT(f, t) == want {
			return true
		}
	}
	return false
}

func allNil(f *Facts, ts []*Term) bool {
	for _, t := range ts {
		if isNilT(f, t) != 1 {
			return false
		}
	}
	return len(ts) > 0
}

// callOf: the method of an interface of package pipeline that is called.
func ifaceCall(e *Event, iface string) string {
	if e.Kind != "Call" || e.Static != nil {
		return ""
	}
	p := "(pargo/pipeline." + iface + ")."
	if strings.HasPrefix(e.Name, p) {
		return e.Name[len(p):]
	}
	return ""
}

func (w *runWalk) pipeCall(e *Event) string {
	if e.Kind == "Call" && e.Static != nil && w.opaque(e.Static) && len(e.Args) > 0 && e.Args[0] == w.pl {
		return e.Static.Name()
	}
	return ""
}

func (w *runWalk) opaque(f *ssa.Function) bool {
	return w.d.opaque(f) && f.Name() != "Context"
}

// relevant: does the event list take part in the run?
func relevant(es []*Event) (feed, end bool) {
	for _, e := range flatEvents(es) {
		switch ifaceCall(e, "Source") {
		case "Prepare", "Fetch", "Data":
			feed = true
		}
		switch ifaceCall(e, "Node") {
		case "Feed":
			feed = true
		case "End":
			end = true
		}
	}
	return
}

func (w *runWalk) walk(es []*Event, s *runState) *runState {
	for i, e := range es {
		after := w.path.Facts
		if i+1 < len(es) {
			after = es[i+1].Facts
		}
		w.event(e, s, after)
		if e.Kind == "Loop" {
			s = w.loop(e, s, after)
		}
	}
	return s
}

func (w *runWalk) fieldVal(s *runState, v *types.Var) *Term { return s.vals[v] }

func (w *runWalk) event(e *Event, s *runState, after *Facts) {
	f := e.Facts
	switch e.Kind {
	case "Load", "Store":
		if v := fieldOfP(e.Addr, w.pl); v != nil {
			if s.orig[v] == nil {
				s.orig[v] = e.Val
				if e.Kind == "Store" { // whatever it was before
					s.orig[v] = fresh("before", v.Type())
				}
			}
			s.vals[v] = e.Val
			if sl, ok := v.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), w.d.node) {
				s.nodes = e.Val
			}
		}
		return
	case "Go":
		for _, p := range e.Sub {
			a, b := relevant(p.Events)
			w.ob("P08", "sequence", e.Pos, !a, "batches are fetched or fed by another goroutine")
			w.ob("P06", "end-order", e.Pos, !b, "a node is ended by another goroutine")
		}
		return
	case "Select":
		for i, c := range e.Cases {
			if !c.Send && w.isDone(c.Chan) {
				if e.Chosen == i {
					s.ctxDone = true
				} else if e.Dflt && e.Chosen == -1 {
					s.ctxOK = true
				}
			}
		}
		return
	}
	switch ifaceCall(e, "Source") {
	case "Prepare":
		w.ob("P08", "prepared-once", e.Pos, !s.prepared, "the source is prepared more than once")
		w.ob("P08", "prepared-once", e.Pos, len(e.Args) == 1 && e.Args[0] == w.ctx, "the source is not prepared with the context of the run")
		s.prepared = true
		s.src = e.Callee
		if len(e.Res) == 1 {
			s.size = e.Res[0]
		}
	case "Fetch":
		w.ob("P08", "prepared-once", e.Pos, s.prepared && e.Callee == s.src, "a source is fetched from that has not been prepared")
		w.ob("P08", "feed-each", e.Pos, s.phase != phFetched || isEmpty(f, s.r), "the next batch is fetched although the last one may not have been fed")
		w.ob("P08", "stops-when-empty", e.Pos, s.phase != phFetched || !isEmpty(f, s.r), "the source is asked again after an empty fetch")
		if s.phase == phFed {
			w.ob("P08", "checks-errors", e.Pos, s.srcOK || allNil(f, s.src0), "the next batch is fetched without knowing that the source has no error")
			w.ob("P08", "checks-errors", e.Pos, s.pOK || allNil(f, s.pErr), "the next batch is fetched without knowing that the pipeline has no error")
			w.ob("P08", "checks-errors", e.Pos, s.ctxOK || allNil(f, s.ctxErr), "the next batch is fetched without knowing that the pipeline has not been cancelled")
		} else if s.phase == phReady {
			w.ob("P08", "checks-errors", e.Pos, s.pOK || allNil(f, s.pErr), "the first batch is fetched without knowing that the pipeline had no error when its nodes had begun")
		}
		w.ob("P06", "end-order", e.Pos, !s.any, "a batch is fetched after a node was ended")
		if len(e.Args) == 1 && len(e.Res) == 1 {
			w.batchSize(e, s)
			s.r = e.Res[0]
		}
		s.data = nil
		s.phase = phFetched
		s.fetched = true
		s.srcErrs = nil
	case "Data":
		if len(e.Res) == 1 && s.phase == phFetched && e.Callee == s.src {
			s.data = e.Res[0]
		}
	case "Err":
		if len(e.Res) == 1 && (s.src == nil || e.Callee == s.src) {
			s.src0 = append(append([]*Term(nil), s.src0...), e.Res[0])
			s.srcErrs = append(append([]*Term(nil), s.srcErrs...), e.Res[0])
		}
	}
	switch ifaceCall(e, "Node") {
	case "Feed":
		ok := e.Callee != nil && e.Callee.Op == "load" && s.nodes != nil && e.Callee.Args[0] == elemAddr(s.nodes, mkInt(0)) && len(e.Args) == 4 && e.Args[0] == w.pl && f.eq(e.Args[1], mkInt(0))
		w.ob("P08", "feed-first", e.Pos, ok, "a batch is not fed to the first node")
		if ok {
			w.ob("P08", "feed-first", e.Pos, f.entailsGe(linOf(mkLen(s.nodes)).addc(-1)), "a batch is fed although there may be no node")
		}
		if len(e.Args) == 4 {
			w.ob("P08", "sequence", e.Pos, s.exp != nil && f.entailsEq(linOf(e.Args[2]).sub(s.exp)), "a batch is fed with sequence number %v instead of %v", e.Args[2], linStr(s.exp))
			w.ob("P08", "feed-each", e.Pos, s.data != nil && e.Args[3] == s.data && s.phase == phFetched, "what is fed is not the batch that was fetched last")
			w.ob("P08", "feed-each", e.Pos, s.phase == phFetched && nonEmpty(f, s.r), "an empty batch or the same batch again is fed")
		}
		w.ob("P06", "end-order", e.Pos, !s.any, "a batch is fed after a node was ended")
		conv := s.nodes != nil && (s.noStrict != nil && f.entailsGe(s.noStrict.neg()) || s.fixed != nil && f.entailsGe(s.fixed.neg()) || s.fixed != nil && s.convTo != nil && f.entailsGe(s.convTo.sub(s.fixed)))
		w.ob("P05", "converted", e.Pos, conv, "batches are fed although sequential or limited nodes before a strictly ordered node may not keep the encounter order")
		s.phase = phFed
		if s.exp != nil {
			s.exp = s.exp.addc(1)
		}
		s.src0, s.pErr, s.ctxErr, s.ctxOK, s.srcOK, s.pOK = nil, nil, nil, false, false, false
	case "End":
		w.end(e, s, f)
	case "Begin":
		w.ob("P08", "prepared-once", e.Pos, s.prepared, "a node is begun before the source is prepared")
		w.ob("P06", "end-order", e.Pos, !s.fetched, "a node is begun after batches were fed")
		s.begun = true
		s.pErr, s.pOK = nil, false
	}
	switch w.pipeCall(e) {
	case "Err":
		if len(e.Res) == 1 {
			s.pErr = append(append([]*Term(nil), s.pErr...), e.Res[0])
		}
	case "SetErr":
		if len(e.Args) == 2 {
			w.ob("P08", "source-error", e.Pos, isNilT(f, e.Args[1]) == -1, "an error is set that may be nil")
			s.setErr = append(append([]*Term(nil), s.setErr...), e.Args[1])
			s.failed = true
		}
	}
	if e.Kind == "Call" && e.Name == "(context.Context).Err" && e.Callee == w.ctx && len(e.Res) == 1 {
		s.ctxErr = append(append([]*Term(nil), s.ctxErr...), e.Res[0])
	}
}

func linStr(l *Lin) string {
	if l == nil {
		return "an unknown number"
	}
	return l.term().String()
}

func (w *runWalk) isDone(ch *Term) bool {
	c := doneOf(ch)
	return c != nil && c == w.ctx
}

// A fetch returns no negative size.
func nonEmpty(f *Facts, r *Term) bool {
	return f.withGe(linOf(r)).entailsGe(linOf(r).addc(-1))
}

func isEmpty(f *Facts, r *Term) bool { return f.entailsGe(linOf(r).neg()) }

// ---- batch sizes ----

// effective values of a configured number: its value if positive, else a default.
func (w *runWalk) effective(s *runState, v *types.Var, f *Facts, consts []*Term) []*Term {
	if v == nil {
		return nil
	}
	cur, orig := s.vals[v], s.orig[v]
	if cur != nil && f.entailsGe(linOf(cur).addc(-1)) {
		if orig == nil || cur == orig || f.entailsGe(linOf(orig).neg()) {
			return []*Term{cur}
		}
		return nil // a configured value is replaced
	}
	if orig != nil && f.entailsGe(linOf(orig).neg()) {
		return consts
	}
	return nil
}

// isMin: v = min(prev+inc, max).
func isMin(f *Facts, v, prev, inc, max *Term) bool {
	lv := linOf(v)
	sum := linOf(prev).add(linOf(inc))
	if f.entailsEq(lv.sub(sum)) && f.entailsGe(linOf(max).sub(sum)) {
		return true
	}
	return f.entailsEq(lv.sub(linOf(max))) && f.entailsGe(sum.sub(linOf(max)))
}

func (w *runWalk) grows(s *runState, f *Facts, v, prev *Term) bool {
	var consts []*Term
	for _, l := range []*Lin{linOf(v).sub(linOf(prev)), linOf(v)} {
		if c, ok := l.isConst(); ok && c > 0 {
			consts = append(consts, mkInt(c))
		}
	}
	// defaults that stay local show as constants that bound the value
	for _, g := range f.ge {
		if c, ok := g.sub(linOf(v).neg()).isConst(); ok && c > 0 {
			consts = append(consts, mkInt(c))
		}
		if c, ok := g.sub(linOf(v)).isConst(); ok && c < 0 {
			consts = append(consts, mkInt(-c))
		}
		if c, ok := g.add(linOf(prev)).isConst(); ok && c != 0 {
			for _, k := range append([]*Term(nil), consts...) {
				if n, _ := intVal(k); n+c > 0 {
					consts = append(consts, mkInt(n+c))
				}
			}
		}
	}
	for _, i := range w.effective(s, w.inc, f, consts) {
		for _, m := range w.effective(s, w.max, f, consts) {
			if isMin(f, v, prev, i, m) {
				return true
			}
		}
	}
	return false
}

func (w *runWalk) batchSize(e *Event, s *runState) {
	f := e.Facts
	a := e.Args[0]
	positive := f.entailsGe(linOf(a).addc(-1))
	if !positive && s.size != nil {
		positive = true
		for _, g := range []*Facts{f.withGe(linOf(s.size).addc(-1)), f.withGe(linOf(s.size).neg())} {
			positive = positive && (g.entailsGe(linOf(a).addc(-1)) || g.inconsistent())
		}
	}
	w.ob("P08", "batch-positive", e.Pos, positive, "a batch of size %v, which may not be positive, is requested", a)
	if s.size == nil {
		return
	}
	D := linOf(s.size)
	switch {
	case f.entailsGe(D):
		n := w.effective(s, w.nof, f, nil)
		ok := f.entailsGe(D.neg())
		f := f.withGe(D.addc(-1)) // any size will do for no elements
		ok = ok || f.inconsistent()
		for _, N := range n {
			b := linOf(a)
			enough := b.mul(linOf(N)).sub(D)
			more := D.sub(b.addc(-1).mul(linOf(N)))
			ok = ok || f.entailsGe(enough) && (f.entailsGe(more) || f.entailsEq(b.addc(-1)))
		}
		w.ob("P08", "batch-number", e.Pos, ok, "a batch size of %v does not yield the configured number of batches for a source of known size", a)
		w.ob("P08", "batch-number", e.Pos, s.prev == nil || f.eq(s.prev, a), "the batch size changes although the size of the source is known")
		s.prev, s.pend = a, nil
	case f.entailsGe(D.neg()):
		ok := false
		if s.pend != nil {
			ok = f.eq(s.pend, a)
		} else {
			prev := s.prev
			if prev == nil {
				prev = mkInt(0)
			}
			ok = w.grows(s, f, a, prev)
		}
		w.ob("P08", "batch-growth", e.Pos, ok, "a batch size of %v is not the last one plus the configured increment, up to the configured maximum", a)
		s.prev, s.pend = a, nil
	default:
		w.ob("P08", "batch-growth", e.Pos, false, "the batch size does not depend on whether the size of the source is known")
	}
}

// ---- loops ----

func (w *runWalk) loop(e *Event, s *runState, after *Facts) *runState {
	lp := e.Loop
	feed, end, begin, merge := false, false, false, false
	for _, c := range lp.Conts {
		a, b := relevant(c.Events)
		feed, end = feed || a, end || b
		for _, q := range flatEvents(c.Events) {
			begin = begin || ifaceCall(q, "Node") == "Begin"
			merge = merge || ifaceCall(q, "Node") == "TryMerge"
		}
	}
	h := s.clone()
	for _, v := range lp.Vars { // fields that change in the loop
		if v.Addr != nil {
			if fv := fieldOfP(v.Addr, w.pl); fv != nil && v.Of == nil {
				h.vals[fv] = v.Head
				if sl, ok := fv.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), w.d.node) {
					s.nodes = v.Init
					h.nodes = v.Head
				}
			}
		}
	}
	if begin {
		w.beginLoop(e, s, h, after)
		h.begun = true
		h.pErr, h.pOK = nil, false
	}
	if merge {
		w.mergeLoop(e, s, h, after)
	}
	switch {
	case end && !feed:
		return w.endLoop(e, s, h)
	case feed:
		return w.feedLoop(e, s, h)
	}
	if !begin && !merge {
		w.convertLoop(e, s, h, after)
	} else {
		h.noStrict, h.fixed, h.convTo = nil, nil, nil
	}
	for _, c := range lp.Conts {
		for _, q := range flatEvents(c.Events) {
			if q.Kind != "Loop" {
				t := h.clone()
				w.event(q, t, c.Facts)
			}
		}
	}
	return h
}

// feedLoop finds a state that every iteration keeps.
func (w *runWalk) feedLoop(e *Event, s, h *runState) *runState {
	lp := e.Loop
	type cand struct {
		st   *runState
		prev *LoopVar
		pend *LoopVar
		r    *LoopVar
		none bool
		src  bool // known at the head to be without error
		pe   bool
		cx   bool
	}
	var cands []*cand
	base := h.clone()
	if s.exp != nil {
		base.exp = s.exp.add(linOf(lp.K))
	}
	var rvars []*LoopVar
	if s.phase == phFetched {
		for _, v := range lp.Vars {
			if v.Init == s.r {
				rvars = append(rvars, v)
			}
		}
	}
	if rvars == nil {
		rvars = []*LoopVar{nil}
	}
	prev0 := s.prev
	if prev0 == nil {
		prev0 = mkInt(0)
	}
	for mask := 7; mask >= 0; mask-- {
		f := e.Facts
		src, pe, cx := mask&4 != 0, mask&2 != 0, mask&1 != 0
		if s.phase == phFed && (src && !s.srcOK && !allNil(f, s.src0) || pe && !s.pOK && !allNil(f, s.pErr) || cx && !s.ctxOK && !allNil(f, s.ctxErr)) {
			continue
		}
		if s.phase == phReady && pe && !s.pOK && !allNil(f, s.pErr) {
			continue
		}
		if s.phase == phFetched && mask != 7 {
			continue
		}
		for _, rv := range rvars {
			mkc := func() *cand {
				c := &cand{st: base.clone(), r: rv, src: src, pe: pe, cx: cx}
				c.st.phase = phFed
				if s.phase == phFetched {
					c.st.phase = phFetched
				}
				c.st.src0, c.st.pErr, c.st.ctxErr = nil, nil, nil
				c.st.srcOK, c.st.pOK, c.st.ctxOK = src, pe, cx
				if rv != nil {
					c.st.r = rv.Head
				}
				c.st.srcErrs = nil
				return c
			}
			c := mkc()
			c.none = true
			c.st.prev, c.st.pend = s.prev, s.pend
			cands = append(cands, c)
			for _, v := range lp.Vars {
				if !isIntType(v.Typ) || v == rv {
					continue
				}
				if e.Facts.eq(v.Init, prev0) && s.pend == nil {
					c := mkc()
					c.prev = v
					c.st.prev = v.Head
					cands = append(cands, c)
				}
				if s.pend == nil && w.grows(s, e.Facts, v.Init, prev0) || s.pend != nil && e.Facts.eq(s.pend, v.Init) {
					c := mkc()
					c.pend = v
					c.st.pend = v.Head
					cands = append(cands, c)
				}
			}
		}
	}
	var best []finding
	var bestSt *runState
	bad := -1
	save := w.out
	for _, c := range cands {
		w.out = nil
		if s.phase == phFetched && c.r == nil {
			w.ob("P08", "feed-each", e.Pos, false, "a batch may be fetched before a loop and not fed in it")
		}
		for i, ct := range lp.Conts {
			pth := w.path
			w.path = &Path{Facts: ct.Facts}
			n := w.walk(ct.Events, c.st.clone())
			w.path = pth
			fed := n.exp != nil && base.exp != nil && n.exp.sub(base.exp).key() == linConst(1).key()
			w.ob("P08", "feed-each", e.Pos, fed, "an iteration does not feed exactly one batch")
			f := ct.Facts
			switch c.st.phase {
			case phFetched:
				ok := n.phase == phFetched && c.r != nil && c.r.Nexts[i] == n.r
				w.ob("P08", "feed-each", e.Pos, ok, "the result of the last fetch is not the one the next iteration looks at")
			case phFed:
				ok := n.phase == phFed
				w.ob("P08", "feed-each", e.Pos, ok, "a batch is fetched but not fed")
				w.ob("P08", "checks-errors", e.Pos, !ok || (!c.src || allNil(f, n.src0)) && (!c.pe || allNil(f, n.pErr)) && (!c.cx || n.ctxOK || allNil(f, n.ctxErr)), "the next batch is fetched without knowing that there was neither an error nor a cancellation")
			}
			if s.size != nil {
				switch {
				case c.prev != nil:
					w.ob("P08", "batch-growth", e.Pos, n.pend == nil && n.prev != nil && f.eq(n.prev, c.prev.Nexts[i]), "the batch size is forgotten")
				case c.pend != nil:
					if n.pend == nil && n.prev != nil && f.entailsGe(linOf(s.size)) {
						w.ob("P08", "batch-number", e.Pos, f.eq(c.pend.Nexts[i], n.prev), "the batch size changes although the size of the source is known")
					} else {
						w.ob("P08", "batch-growth", e.Pos, n.pend == nil && n.prev != nil && w.grows(n, f, c.pend.Nexts[i], n.prev), "the batch size does not grow by the configured increment up to the configured maximum")
					}
				default:
					// the size must be the same in every round
					ok := n.prev == nil || f.entailsGe(linOf(s.size)) && !varies(n.prev, lp.Vars, lp.K)
					w.ob("P08", "batch-growth", e.Pos, ok, "the batch size is not derived from the last one")
				}
			}
		}
		k := 0
		for _, o := range w.out {
			if !o.ok {
				k++
			}
		}
		if os.Getenv("PARGO_DEBUG") == "2" {
			fmt.Println("cand phase", c.st.phase, "prev", c.prev != nil, "pend", c.pend != nil, "bad", k)
			for _, o := range w.out {
				if !o.ok {
					fmt.Println("   ", o.msg)
				}
			}
		}
		if bad < 0 || k < bad {
			bad, best = k, w.out
			bestSt = c.st
		}
		if k == 0 {
			break
		}
	}
	w.out = append(save, best...)
	bestSt.fetched = bestSt.fetched || s.fetched
	return bestSt
}

// end handles one call of End.
func (w *runWalk) end(e *Event, s *runState, f *Facts) {
	var idx *Term
	if e.Callee != nil && e.Callee.Op == "load" && s.nodes != nil {
		idx = indexIn(e.Callee.Args[0], s.nodes)
	}
	ok := idx != nil && s.ended != nil && f.entailsEq(linOf(idx).sub(s.ended))
	w.ob("P06", "end-order", e.Pos, ok, "the nodes are not ended one after the other from the first to the last")
	w.ob("P06", "end-order", e.Pos, s.phase == phReady || s.phase == phFed || isEmpty(f, s.r), "a node is ended although a fetched batch was not fed")
	if s.ended != nil {
		s.ended = s.ended.addc(1)
	}
	s.any = true
}

// indexIn is the index of an element address in a slice.
func indexIn(a, sl *Term) *Term {
	b, lo, _ := sliceParts(sl)
	if a.Op != "idx" || a.Args[0] != b {
		return nil
	}
	if lo == nil {
		return a.Args[1]
	}
	return sub(a.Args[1], lo)
}

func (w *runWalk) endLoop(e *Event, s, h *runState) *runState {
	lp := e.Loop
	h.any = true
	if s.ended != nil {
		h.ended = s.ended.add(linOf(lp.K))
	}
	for _, c := range lp.Conts {
		pth := w.path
		w.path = &Path{Facts: c.Facts}
		n := w.walk(c.Events, h.clone())
		w.path = pth
		ok := n.ended != nil && h.ended != nil && n.ended.sub(h.ended).key() == linConst(1).key()
		w.ob("P06", "end-order", e.Pos, ok, "an iteration does not end exactly one node")
	}
	return h
}

// ---- the end of the run ----

func (w *runWalk) finish(s *runState) {
	p := w.path
	f := p.Facts
	fn := token.NoPos
	if len(p.Events) > 0 {
		fn = p.Events[len(p.Events)-1].Pos
	}
	if p.Outcome != "return" {
		w.ob("P08", "returns", fn, false, "the run may panic")
		return
	}
	if !s.prepared {
		w.ob("P08", "reason-to-stop", fn, anyNil(f, s.pErr, -1), "the run ends without preparing the source although there is no error")
		return
	}
	none := s.nodes != nil && f.entailsGe(linOf(mkLen(s.nodes)).neg())
	if s.any || !s.failed && !anyNil(f, s.pErr, -1) {
		done := none || s.ended != nil && s.nodes != nil && s.any && f.entailsGe(s.ended.sub(linOf(mkLen(s.nodes))))
		w.ob("P06", "end-all", fn, done, "the run ends although not all nodes have been ended")
	}
	if s.failed || anyNil(f, s.pErr, -1) {
		if s.phase == phFetched {
			w.ob("P08", "feed-each", fn, isEmpty(f, s.r), "a batch is fetched but not fed")
		}
		return
	}
	cancelled := s.ctxDone || anyNil(f, s.ctxErr, -1)
	switch s.phase {
	case phFetched:
		w.ob("P08", "reason-to-stop", fn, isEmpty(f, s.r), "the run ends although a batch was fetched that has not been fed")
	case phFed:
		w.ob("P08", "reason-to-stop", fn, cancelled, "the run ends although the source may have more batches and there is neither an error nor a cancellation")
	default:
		w.ob("P08", "reason-to-stop", fn, none || cancelled, "the run ends without asking the source for batches")
	}
	if s.fetched {
		w.ob("P08", "source-error", fn, anyNil(f, s.srcErrs, 1), "the run ends without looking for an error of the source after the last fetch")
	}
}

// ---- starting, dropping and merging nodes ----

// sliceIs: t is base[lo:hi] in terms of the elements of sl.
func sliceIs(f *Facts, t, sl, lo, hi *Term) bool {
	b, l, h := sliceParts(t)
	b2, l2, _ := sliceParts(sl)
	if b != b2 {
		return false
	}
	if f.eq(lo, hi) && f.eq(l, h) {
		return true
	}
	return f.eq(l, add(l2, lo)) && f.eq(h, add(l2, hi))
}

// without: next is nodes without element j.
func without(f *Facts, next, nodes, j *Term, es []*Event) bool {
	n := mkLen(nodes)
	if next.Op == "append" && len(next.Args) == 2 {
		a, b := next.Args[0], next.Args[1]
		if f.eq(j, mkInt(0)) && (a == tNil || isEmptySlice(a)) {
			return sliceIs(f, b, nodes, addc(j, 1), n)
		}
		return sliceIs(f, a, nodes, mkInt(0), j) && sliceIs(f, b, nodes, addc(j, 1), n)
	}
	if f.eq(addc(j, 1), n) && sliceIs(f, next, nodes, mkInt(0), j) {
		return true
	}
	if f.eq(j, mkInt(0)) && sliceIs(f, next, nodes, mkInt(1), n) {
		return true
	}
	if sliceIs(f, next, nodes, mkInt(0), addc(n, -1)) {
		for _, e := range es {
			if e.Kind == "Copy" && len(e.Args) == 2 && sliceIs(f, e.Args[0], nodes, j, n) && sliceIs(f, e.Args[1], nodes, addc(j, 1), n) {
				return true
			}
		}
	}
	return false
}

// extended: next is prev with v appended.
func (w *runWalk) extended(st *State, next, prev, v *Term) bool {
	if next.Op != "append" || len(next.Args) != 2 {
		return false
	}
	if next.Args[0] != prev && !((next.Args[0] == tNil || isEmptySlice(next.Args[0])) && (prev == tNil || isEmptySlice(prev))) {
		return false
	}
	l, ok := w.x.literal(st, next.Args[1])
	return ok && len(l) == 1 && sameNode(l[0], v)
}

// sameNode: the same element of a slice, whenever it was read.
func sameNode(a, b *Term) bool {
	if a == b {
		return true
	}
	return a.Op == "load" && b.Op == "load" && a.Args[0] == b.Args[0]
}

// elemIn: the index of a loaded element of a slice.
func elemIn(v, sl *Term) *Term {
	if v == nil || v.Op != "load" {
		return nil
	}
	return indexIn(v.Args[0], sl)
}

// elemOf splits a loaded slice element.
func elemOf(v *Term) (base, idx *Term) {
	if v != nil && v.Op == "load" && v.Args[0].Op == "idx" {
		return v.Args[0].Args[0], v.Args[0].Args[1]
	}
	return nil, nil
}

func (w *runWalk) nodeVars(lp *Loop) []*LoopVar {
	var out []*LoopVar
	for _, v := range lp.Vars {
		if sl, ok := v.Typ.Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), w.d.node) && v.Of == nil {
			out = append(out, v)
		}
	}
	return out
}

func nodeCalls(es []*Event, name string) []*Event {
	var out []*Event
	for _, e := range flatEvents(es) {
		if ifaceCall(e, "Node") == name {
			out = append(out, e)
		}
	}
	return out
}

func (w *runWalk) beginLoop(e *Event, s, h *runState, after *Facts) {
	lp := e.Loop
	ends := w.path.Facts
	done := false
	for i, c := range lp.Conts {
		bs := nodeCalls(c.Events, "Begin")
		if len(bs) != 1 || len(bs[0].Res) != 1 {
			w.ob("P14", "begin-each", e.Pos, false, "an iteration does not begin exactly one node")
			return
		}
		b := bs[0]
		f := c.Facts
		keep := f.truth(b.Res[0])
		var own, out *LoopVar
		var j, base *Term
		for _, v := range w.nodeVars(lp) {
			if isEmptySlice(v.Init) || v.Init == tNil {
				out = v
			} else if q := elemIn(b.Callee, v.Head); q != nil && v.Init == s.nodes {
				own, j, base = v, q, v.Head
			}
		}
		if own == nil && s.nodes != nil {
			j, base = elemIn(b.Callee, s.nodes), s.nodes
		}
		if !w.ob("P14", "begin-each", b.Pos, j != nil && keep != 0, "it is not clear which node is begun, or its answer is ignored") {
			return
		}
		next := w.x.shift(linOf(j), lp.Vars, i, lp.K)
		w.ob("P14", "begin-each", b.Pos, f.entailsEq(w.x.atInit(linOf(j), lp.Vars, lp.K)), "the first node is not begun")
		w.ob("P14", "begin-each", b.Pos, len(b.Args) == 3 && b.Args[0] == w.pl, "a node is not begun with its pipeline")
		switch {
		case own != nil: // removed in place
			n := own.Nexts[i]
			if keep == 1 {
				w.ob("P14", "keep-or-drop", b.Pos, n == base && f.entailsEq(next.sub(linOf(j).addc(1))), "a node that is to be kept is lost or begun again")
			} else {
				w.ob("P14", "keep-or-drop", b.Pos, without(f, n, base, j, c.Events) && f.entailsEq(next.sub(linOf(j))), "a node that is not to be kept is kept, or another node is lost or skipped with it")
			}
			done = ends.entailsGe(linOf(j).sub(linOf(mkLen(base))))
		case out != nil && base == s.nodes: // collected
			n := out.Nexts[i]
			if keep == 1 {
				w.ob("P14", "keep-or-drop", b.Pos, w.extended(c.St, n, out.Head, b.Callee), "a node that is to be kept is lost")
			} else {
				w.ob("P14", "keep-or-drop", b.Pos, n == out.Head, "a node that is not to be kept is kept")
			}
			w.ob("P14", "begin-each", b.Pos, f.entailsEq(next.sub(linOf(j).addc(1))), "a node is skipped or begun twice")
			done = ends.entailsGe(linOf(j).sub(linOf(mkLen(base))))
			stored := out.Addr != nil
			for _, q := range w.path.Events {
				if q.Kind == "Store" && q.Val == out.Head && fieldOfP(q.Addr, w.pl) != nil {
					stored = true
				}
			}
			w.ob("P14", "keep-or-drop", e.Pos, stored, "the nodes that are kept do not become the nodes of the pipeline")
		default:
			w.ob("P14", "keep-or-drop", b.Pos, keep == 1, "a node that is not to be kept is not removed")
			w.ob("P14", "begin-each", b.Pos, base == s.nodes && f.entailsEq(next.sub(linOf(j).addc(1))), "a node is skipped or begun twice")
			done = ends.entailsGe(linOf(j).sub(linOf(mkLen(base))))
		}
		if len(b.Args) == 3 {
			at := linOf(b.Args[1])
			ok := f.entailsEq(at.sub(linOf(j)))
			if out != nil {
				// of the nodes that are kept
				ok = ok || f.entailsEq(at.sub(linOf(mkLen(out.Head))))
			}
			w.ob("P08", "begin-index", b.Pos, ok, "a node is begun with index %v, which is not its own", b.Args[1])
		}
		// the size announced to the nodes
		if len(b.Args) == 3 && s.size != nil {
			w.ob("P08", "size-announced", b.Pos, w.announced(e, lp, b.Args[2], s), "the nodes are not told the size that the source announced")
		}
	}
	w.ob("P14", "begin-each", e.Pos, done, "some node may not be begun")
}

// announced: before the loop the size of the source was stored at addr.
func (w *runWalk) announced(loop *Event, lp *Loop, addr *Term, s *runState) bool {
	for _, c := range lp.Conts {
		for _, q := range flatEvents(c.Events) {
			if q.Kind == "Store" && q.Addr == addr {
				return false
			}
		}
	}
	var last *Term
	for _, q := range w.path.Events {
		if q == loop {
			break
		}
		if q.Kind == "Store" && q.Addr == addr {
			last = q.Val
		}
	}
	return last == s.size
}

// mergeLoop: merging adjacent nodes removes exactly the node that was merged.
func (w *runWalk) mergeLoop(e *Event, s, h *runState, after *Facts) {
	lp := e.Loop
	for i, c := range lp.Conts {
		ms := nodeCalls(c.Events, "TryMerge")
		if len(ms) == 0 {
			for _, v := range w.nodeVars(lp) {
				w.ob("P14", "merge-adjacent", e.Pos, v.Nexts[i] == v.Head, "the nodes change although none were merged")
			}
			continue
		}
		m := ms[0]
		if len(ms) != 1 || len(m.Args) != 1 || len(m.Res) != 1 {
			w.ob("P14", "merge-adjacent", e.Pos, false, "an iteration merges more than one pair of nodes")
			continue
		}
		f := c.Facts
		merged := f.truth(m.Res[0])
		var own, out *LoopVar
		var j, j2, base, base2 *Term
		for _, v := range w.nodeVars(lp) {
			a, b := elemIn(m.Callee, v.Head), elemIn(m.Args[0], v.Head)
			if v.Init == s.nodes && a != nil && b != nil {
				own, j, j2, base, base2 = v, a, b, v.Head, v.Head
			} else if own == nil && a != nil && v.Init != s.nodes {
				out, j, base = v, a, v.Head
			}
		}
		if own == nil && s.nodes != nil {
			j2, base2 = elemIn(m.Args[0], s.nodes), s.nodes
		}
		if !w.ob("P14", "merge-adjacent", m.Pos, j != nil && j2 != nil && merged != 0, "it is not clear which nodes are merged, or whether they were") {
			continue
		}
		w.ob("P14", "begun-first", m.Pos, s.begun && !s.fetched, "nodes are merged before they were begun, or after batches were fed")
		switch {
		case own != nil:
			w.ob("P14", "merge-adjacent", m.Pos, f.eq(j2, addc(j, 1)), "nodes that are not adjacent are merged")
			n := own.Nexts[i]
			if merged == 1 {
				w.ob("P14", "merge-removes", m.Pos, without(f, n, base, j2, c.Events), "after a merge the merged node stays, or another node is removed")
			} else {
				w.ob("P14", "merge-removes", m.Pos, n == base, "a node is removed that was not merged")
			}
		case out != nil && base2 == s.nodes:
			w.ob("P14", "merge-adjacent", m.Pos, f.eq(j, addc(mkLen(out.Head), -1)), "nodes that are not adjacent are merged")
			n := out.Nexts[i]
			if merged == 1 {
				w.ob("P14", "merge-removes", m.Pos, n == out.Head, "after a merge the merged node stays")
			} else {
				w.ob("P14", "merge-removes", m.Pos, w.extended(c.St, n, out.Head, m.Args[0]), "a node is removed that was not merged")
			}
			next := w.x.shift(linOf(j2), lp.Vars, i, lp.K)
			w.ob("P14", "merge-adjacent", m.Pos, f.entailsEq(next.sub(linOf(j2).addc(1))) && w.path.Facts.entailsGe(linOf(j2).sub(linOf(mkLen(base2)))), "a node is skipped when nodes are merged")
			w.ob("P14", "merge-adjacent", m.Pos, sliceIs(f, out.Init, s.nodes, mkInt(0), mkInt(1)) && f.entailsEq(w.x.atInit(linOf(j2), lp.Vars, lp.K).addc(-1)), "merging does not begin with the first two nodes")
			stored := out.Addr != nil
			for _, q := range w.path.Events {
				if q.Kind == "Store" && q.Val == out.Head && fieldOfP(q.Addr, w.pl) != nil {
					stored = true
				}
			}
			w.ob("P14", "merge-removes", e.Pos, stored, "the nodes left after merging do not become the nodes of the pipeline")
		default:
			w.ob("P14", "merge-adjacent", m.Pos, false, "it is not clear how the nodes change by the merge")
		}
	}
}

// ---- conversion before strictly ordered nodes ----

func (w *runWalk) convertLoop(e *Event, s, h *runState, after *Facts) {
	lp := e.Loop
	d := w.d
	if s.nodes == nil || h.nodes != s.nodes {
		return
	}
	touches := false
	for _, c := range lp.Conts {
		for _, q := range flatEvents(c.Events) {
			if q.Kind == "Load" && indexIn(q.Addr, s.nodes) != nil {
				touches = true
			}
		}
	}
	if !touches {
		return
	}
	c0 := linOf(mkLen(s.nodes))
	inF := false
	switch {
	case s.noStrict != nil:
		c0 = s.noStrict
	case s.fixed != nil:
		c0, inF = s.fixed, true
	}
	ch := c0.sub(linOf(lp.K))
	// a flag that is set once a strictly ordered node was found
	var flag *LoopVar
	for _, v := range lp.Vars {
		if isBoolType(v.Typ) && e.Facts.truth(v.Init) == -1 {
			flag = v
		}
	}
	type verdict struct {
		pos token.Pos
		ok  bool
		msg string
	}
	try := func(flag *LoopVar) []verdict {
		var out []verdict
		for i, c := range lp.Conts {
			f := c.Facts
			strict, conv, seen := w.nodeAt(f, c.Events, s.nodes, ch.addc(-1))
			modes := []bool{inF}
			if flag != nil {
				switch f.truth(flag.Head) {
				case 1:
					modes = []bool{true}
				case -1:
					modes = []bool{false}
				default:
					modes = []bool{false, true}
				}
			}
			for _, mode := range modes {
				next := mode
				if mode {
					out = append(out, verdict{e.Pos, seen && conv, "a node before a strictly ordered node is not converted"})
				} else {
					out = append(out, verdict{e.Pos, seen && strict != 0, "a node is passed over without looking whether it is strictly ordered"})
					next = strict == 1
				}
				switch {
				case flag == nil:
					out = append(out, verdict{e.Pos, next == inF, "a strictly ordered node is passed over"})
				case flag.Nexts[i] == flag.Head:
					out = append(out, verdict{e.Pos, next == mode, "a strictly ordered node is forgotten"})
				default:
					out = append(out, verdict{e.Pos, f.truth(flag.Nexts[i]) == map[bool]int{true: 1, false: -1}[next], "a strictly ordered node is forgotten"})
				}
			}
		}
		return out
	}
	best := try(nil)
	bad := func(vs []verdict) int {
		n := 0
		for _, v := range vs {
			if !v.ok {
				n++
			}
		}
		return n
	}
	used := false
	if flag != nil && !inF {
		if o := try(flag); bad(o) < bad(best) {
			best, used = o, true
		}
	}
	if bad(best) > 0 && inF {
		// or forward from the first node
		all := true
		for _, c := range lp.Conts {
			_, conv, seen := w.nodeAt(c.Facts, c.Events, s.nodes, linOf(lp.K))
			all = all && conv && seen
		}
		if all {
			w.ob("P05", "converted", e.Pos, true, "")
			h.convTo = linOf(lp.K)
			return
		}
	}
	if bad(best) > 0 && !inF && after.entailsGe(linOf(lp.K).sub(linOf(mkLen(s.nodes)))) {
		// or the index of the last strictly ordered node, found from the first node on
		for _, v := range lp.Vars {
			if b, ok := v.Typ.Underlying().(*types.Basic); !ok || b.Kind() != types.Int || v.Aff || !e.Facts.entailsGe(linOf(v.Init).neg().addc(-1)) {
				continue
			}
			all := true
			for i, c := range lp.Conts {
				strict, _, seen := w.nodeAt(c.Facts, c.Events, s.nodes, linOf(lp.K))
				here := c.Facts.entailsEq(linOf(v.Nexts[i]).sub(linOf(lp.K)))
				all = all && seen && (here || strict == -1 && c.Facts.entailsEq(linOf(v.Nexts[i]).sub(linOf(v.Head))))
			}
			if all {
				w.ob("P05", "converted", e.Pos, true, "")
				h.noStrict, h.fixed = nil, linOf(v.Head)
				return
			}
		}
	}
	for _, v := range best {
		w.ob("P05", "converted", v.pos, v.ok, "%s", v.msg)
	}
	h.noStrict, h.fixed = nil, nil
	if bad(best) > 0 {
		return
	}
	switch {
	case used:
		h.noStrict, h.fixed = ch, ch
	case inF:
		h.fixed = ch
	default:
		h.noStrict = ch
		if strict, _, _ := w.nodeAt(w.path.Facts, nil, s.nodes, ch.addc(-1)); strict == 1 {
			h.noStrict, h.fixed = nil, ch.addc(-1)
		}
	}
	_ = d
}

// nodeAt: is the node at an index strictly ordered, and do the events convert it?
func (w *runWalk) nodeAt(f *Facts, es []*Event, nodes *Term, at *Lin) (strict int, conv, seen bool) {
	vals := map[*Term]bool{}
	for b := range f.bools {
		if b.Op == "typeok" {
			if v := b.Args[0]; v.Op == "load" {
				if i := indexIn(v.Args[0], nodes); i != nil && f.entailsEq(linOf(i).sub(at)) {
					vals[v] = true
				}
			}
		}
	}
	for _, q := range flatEvents(es) {
		if q.Kind == "Load" && q.Val != nil && q.Val.Op == "load" {
			if i := indexIn(q.Addr, nodes); i != nil && q.Facts.entailsEq(linOf(i).sub(at)) {
				vals[q.Val] = true
			}
		}
	}
	ts := w.d.nodeTypes()
	is := map[*nodeType]int{}
	for v := range vals {
		seen = true
		for _, t := range ts {
			if r := f.truth(mk("typeok", typeKey(t.ptr), types.Typ[types.Bool], v)); r != 0 {
				is[t] = r
			}
		}
	}
	conv = true
	for _, t := range ts {
		if t.strict && is[t] != 0 {
			strict = is[t]
		}
		if is[t] == 1 && !t.strict {
			strict = -1
		}
		if !t.needs || is[t] == -1 {
			continue
		}
		known := false
		for u, r := range is {
			if u != t && r == 1 {
				known = true
			}
		}
		if known {
			continue
		}
		ok := false
		for _, q := range flatEvents(es) {
			if q.Kind == "Store" && q.Addr.Op == "field" && q.Addr.Args[0].Op == "assert" && vals[q.Addr.Args[0].Args[0]] && q.Addr.Args[0].Aux == typeKey(t.ptr) {
				ok = ok || w.d.orders(t, fieldVars[q.Addr], q.Val)
			}
		}
		conv = conv && ok
	}
	return
}

// nodeType is a type of nodes of package pipeline.
type nodeType struct {
	ptr    types.Type
	named  *types.Named
	strict bool // made by StrictOrd: feeding waits for earlier batches
	needs  bool // a batch may be held up behind a later one unless converted
}

func (d *pipe) nodeTypes() []*nodeType {
	if d.ntypes != nil {
		return d.ntypes
	}
	add := func(name string, strict, needs bool) {
		fn := d.R.P.fn("pipeline", name)
		if fn == nil {
			return
		}
		x := newExec(d.R.P, Config{Stable: true})
		var ps []*Term
		for _, p := range fn.Params {
			ps = append(ps, x.freshOf(p.Name(), p.Type(), nil))
		}
		for _, p := range x.runFunc(newState(), fn, ps, nil) {
			if p.Outcome != "return" || len(p.Ret) != 1 || p.Ret[0].Op != "iface" || p.Ret[0].Ev == nil {
				continue
			}
			dt := p.Ret[0].Ev.Type
			var t *nodeType
			for _, o := range d.ntypes {
				if types.Identical(o.ptr, dt) {
					t = o
				}
			}
			if t == nil {
				t = &nodeType{ptr: dt}
				if pt, ok := dt.(*types.Pointer); ok {
					t.named, _ = pt.Elem().(*types.Named)
				}
				d.ntypes = append(d.ntypes, t)
			}
			t.strict = t.strict || strict
			t.needs = t.needs || needs
		}
	}
	add("StrictOrd", true, false)
	add("Ord", false, true)
	add("Seq", false, true)
	add("LimitedPar", false, true)
	add("Par", false, false)
	return d.ntypes
}

// orders: does setting the field make a node of this type keep the encounter order?
func (d *pipe) orders(t *nodeType, v *types.Var, val *Term) bool {
	if v == nil {
		return false
	}
	if types.Identical(v.Type(), d.kind) {
		n, ok := intVal(val)
		return ok && n == d.kinds["Ordered"]
	}
	return val == tTrue
}

// ---- driver ----

func (d *pipe) ruleRun(props string) {
	R := d.R
	fn := R.P.method("pipeline", "Pipeline", "RunWithContext")
	if fn == nil {
		R.ob(props, "anchor", "pipeline.Pipeline.RunWithContext", token.NoPos, false, "the method no longer exists")
		return
	}
	w := &runWalk{d: d}
	w.configFields()
	if strings.Contains(","+props+",", ",P08,") {
		w.ruleConfig()
		w.ruleStart()
	}
	A := d.runAnalysis(fn)
	params := d.runParams
	R.covered(props, A)
	if len(params) != 3 {
		R.ob(props, "anchor", "pipeline.Pipeline.RunWithContext", fn.Pos(), false, "unexpected parameters")
		return
	}
	w.x, w.pl, w.ctx = A.Exec, params[0], params[1]
	for _, p := range A.Entry.Paths {
		if p.Facts.inconsistent() {
			continue
		}
		w.path = p
		at, ok := started(p.Events)
		for _, id := range []string{"P05", "P06", "P08", "P14"} {
			w.ob(id, "at-once", at, ok, "a part of the run is left to another goroutine")
		}
		s := &runState{vals: map[*types.Var]*Term{}, orig: map[*types.Var]*Term{}, exp: linConst(0), ended: linConst(0)}
		s = w.walk(p.Events, s)
		w.finish(s)
	}
	for _, o := range w.out {
		if strings.Contains(","+props+",", ","+o.prop+",") {
			R.ob(o.prop, o.rule, "pipeline.Pipeline.RunWithContext", o.pos, o.ok, "%s", o.msg)
		}
	}
	for _, n := range []struct {
		prop, rule string
		min        int
	}{{"P08", "sequence", 2}, {"P08", "feed-each", 4}, {"P08", "batch-growth", 2}, {"P08", "batch-number", 1}, {"P08", "source-error", 1}, {"P06", "end-order", 1}, {"P06", "end-all", 1}, {"P14", "keep-or-drop", 2}, {"P14", "merge-removes", 2}, {"P05", "converted", 3}} {
		if strings.Contains(","+props+",", ","+n.prop+",") {
			R.need(n.prop, n.rule, n.min)
		}
	}
}

// runAnalysis interprets RunWithContext once.
func (d *pipe) runAnalysis(fn *ssa.Function) *Analysis {
	if d.runA == nil {
		w := &runWalk{d: d}
		d.runA = d.R.P.analyse(fn, Config{Loads: true, Opaque: w.opaque, Keep: d.keepPipeline}, func(st *State, ps []*Term) { d.runParams = ps })
	}
	return d.runA
}

// ruleConfig: the numbers that a user configures are those that are kept.
func (w *runWalk) ruleConfig() {
	R := w.d.R
	for _, c := range []struct {
		name   string
		fields []*types.Var
	}{{"NofBatches", []*types.Var{w.nof}}, {"SetVariableBatchSize", []*types.Var{w.inc, w.max}}} {
		fn := R.P.method("pipeline", "Pipeline", c.name)
		name := "pipeline.Pipeline." + c.name
		if fn == nil {
			R.ob("P08", "configured", name, token.NoPos, false, "the method no longer exists")
			continue
		}
		var ps []*Term
		A := R.P.analyse(fn, Config{Loads: true}, func(st *State, q []*Term) { ps = q })
		R.covered("P08", A)
		if len(ps) != len(c.fields)+1 {
			R.ob("P08", "configured", name, fn.Pos(), false, "unexpected parameters")
			continue
		}
		for _, p := range A.Entry.Paths {
			if p.Facts.inconsistent() {
				continue
			}
			R.ob("P08", "configured", name, fn.Pos(), p.Outcome == "return", "may panic")
			for k, v := range c.fields {
				if v == nil {
					R.ob("P08", "configured", name, fn.Pos(), false, "the number given is not kept")
					continue
				}
				var first, last *Term // of the field, on this path
				stored := false
				for _, e := range flatEvents(p.Events) {
					if e.Kind != "Load" && e.Kind != "Store" || fieldOfP(e.Addr, ps[0]) != v {
						continue
					}
					if e.Kind == "Load" && first == nil && !stored {
						first = e.Val
					}
					stored = stored || e.Kind == "Store"
					last = e.Val
				}
				n := linOf(ps[k+1])
				if g := p.Facts.withGe(n.addc(-1)); !g.inconsistent() {
					ok := stored && last != nil && g.entailsEq(linOf(last).sub(n))
					if !stored && first != nil {
						ok = g.entailsEq(linOf(first).sub(n))
					}
					R.ob("P08", "configured", name, fn.Pos(), ok, "a positive number that is given is not the one that is kept")
					if len(p.Ret) == 1 && isIntType(p.Ret[0].Typ) {
						R.ob("P08", "configured", name, fn.Pos(), g.entailsEq(linOf(p.Ret[0]).sub(n)), "returns %v instead of the number that was set", p.Ret[0])
					}
				}
				if g := p.Facts.withGe(n.neg()); !g.inconsistent() && len(p.Ret) == 1 {
					// only asks for the number
					r := linOf(p.Ret[0])
					if first == nil {
						R.ob("P08", "configured", name, fn.Pos(), false, "does not look at the configured number when asked for it")
						continue
					}
					if h := g.withGe(linOf(first).addc(-1)); !h.inconsistent() {
						R.ob("P08", "configured", name, fn.Pos(), h.entailsEq(linOf(last).sub(linOf(first))) && h.entailsEq(r.sub(linOf(first))), "asking for the configured number changes it or returns another one")
					}
					if h := g.withGe(linOf(first).neg()); !h.inconsistent() {
						R.ob("P08", "configured", name, fn.Pos(), h.entailsGe(r.addc(-1)), "the default number %v may not be positive", p.Ret[0])
						R.ob("P08", "default-number", name, fn.Pos(), manyAsProcessors(h, r), "the default number %v of batches may be smaller than that of the processors", p.Ret[0])
					}
				}
			}
		}
	}
	R.need("P08", "configured", 4)
}

// ruleStart: Run runs the pipeline with a context of its own, which it cancels
// at the end and not before.
func (w *runWalk) ruleStart() {
	R := w.d.R
	name := "pipeline.Pipeline.Run"
	fn := R.P.method("pipeline", "Pipeline", "Run")
	if fn == nil {
		R.ob("P08", "run", name, token.NoPos, false, "the method no longer exists")
		return
	}
	var ps []*Term
	A := R.P.analyse(fn, Config{Loads: true, Opaque: w.opaque, Keep: w.d.keepPipeline}, func(st *State, q []*Term) { ps = q })
	R.covered("P08", A)
	if len(ps) != 1 {
		R.ob("P08", "run", name, fn.Pos(), false, "unexpected parameters")
		return
	}
	v := &runWalk{d: w.d, x: A.Exec, pl: ps[0]}
	for _, p := range A.Entry.Paths {
		if p.Facts.inconsistent() {
			continue
		}
		var ctx, cancel *Term
		prepared, cancelled, failed := false, false, false
		for _, e := range flatEvents(p.Events) {
			switch {
			case e.Kind == "Go":
				R.ob("P08", "run", name, e.Pos, false, "a part of the run is left to another goroutine")
			case e.Name == "context.WithCancel" && len(e.Res) == 2 && len(e.Args) == 1:
				if b := e.Args[0]; b.Op == "pure" && (b.Aux == "context.Background" || b.Aux == "context.TODO") && ctx == nil {
					ctx, cancel = e.Res[0], e.Res[1]
				}
			case e.Kind == "Call" && cancel != nil && e.Callee == cancel:
				cancelled = true
			case ifaceCall(e, "Source") == "Prepare":
				R.ob("P08", "run", name, e.Pos, ctx != nil && len(e.Args) == 1 && e.Args[0] == ctx, "the pipeline is not run with a context of its own")
				R.ob("P08", "run", name, e.Pos, !cancelled, "the pipeline is cancelled before it is run")
				prepared = true
			case v.pipeCall(e) == "Err" && len(e.Res) == 1:
				failed = failed || isNilT(p.Facts, e.Res[0]) == -1
			}
		}
		R.ob("P08", "run", name, fn.Pos(), prepared || failed, "the source may not be prepared although the pipeline has not failed")
		R.ob("P08", "run", name, fn.Pos(), cancelled || p.Outcome != "return", "the context made for the run is not cancelled at the end")
	}
	R.need("P08", "run", 4)
}

// configFields learns which fields hold the configured batch sizes.
func (w *runWalk) configFields() {
	learn := func(name string, k int) *types.Var {
		fn := w.d.R.P.method("pipeline", "Pipeline", name)
		if fn == nil {
			return nil
		}
		x := newExec(w.d.R.P, Config{Loads: true})
		var ps []*Term
		for _, p := range fn.Params {
			ps = append(ps, x.freshOf(p.Name(), p.Type(), nil))
		}
		if k >= len(ps) {
			return nil
		}
		for _, p := range x.runFunc(newState(), fn, ps, nil) {
			for _, e := range flatEvents(p.Events) {
				if e.Kind == "Store" && e.Val == ps[k] {
					if v := fieldOfP(e.Addr, ps[0]); v != nil {
						return v
					}
				}
			}
		}
		return nil
	}
	w.nof = learn("NofBatches", 1)
	w.inc = learn("SetVariableBatchSize", 1)
	w.max = learn("SetVariableBatchSize", 2)
}

// ruleAdd: every added node becomes the last one or is merged into the last one.
func (d *pipe) ruleAdd() {
	R := d.R
	name := "pipeline.Pipeline.Add"
	fn := R.P.method("pipeline", "Pipeline", "Add")
	if fn == nil {
		R.ob("P14", "anchor", name, token.NoPos, false, "the method no longer exists")
		return
	}
	w := &runWalk{d: d}
	var params []*Term
	A := R.P.analyse(fn, Config{Loads: true, Opaque: w.opaque, Keep: d.keepPipeline}, func(st *State, ps []*Term) { params = ps })
	R.covered("P14", A)
	if len(params) != 2 {
		R.ob("P14", "anchor", name, fn.Pos(), false, "unexpected parameters")
		return
	}
	w.x, w.pl = A.Exec, params[0]
	ob := func(pos token.Pos, ok bool, f string, a ...interface{}) {
		R.ob("P14", "add", name, pos, ok, f, a...)
	}
	added := params[1]
	for _, p := range A.Entry.Paths {
		if p.Facts.inconsistent() {
			continue
		}
		ob(fn.Pos(), p.Outcome == "return", "adding nodes may panic")
		var count *Lin = linConst(0) // nodes handled so far
		var cur *Term
		// step checks one piece of straight-line code
		step := func(es []*Event, st *State, f *Facts, start *Term, from *Lin) (*Term, *Lin) {
			cur, n := start, from
			var refused, taken *Term
			for _, e := range es {
				switch {
				case e.Kind == "Load" && w.isNodes(e.Addr):
					if cur == nil {
						cur = e.Val
					}
				case ifaceCall(e, "Node") == "TryMerge" && len(e.Args) == 1 && len(e.Res) == 1:
					j, i := elemIn(e.Callee, cur), elemIn(e.Args[0], added)
					ok := cur != nil && j != nil && i != nil && e.Facts.eq(j, addc(mkLen(cur), -1))
					ob(e.Pos, ok, "a node is merged into another one than the last")
					ob(e.Pos, cur != nil && e.Facts.entailsGe(linOf(mkLen(cur)).addc(-1)), "a node may be merged into the last one although there is none")
					ob(e.Pos, i != nil && e.Facts.entailsEq(linOf(i).sub(n)), "the added nodes are not merged one after the other")
					ob(e.Pos, refused == nil && taken == nil, "an added node is merged twice")
					switch f.truth(e.Res[0]) {
					case 1:
						taken = e.Args[0]
						n = n.addc(1)
					case -1:
						refused = e.Args[0]
					default:
						ob(e.Pos, false, "whether the node was merged is ignored")
					}
				case e.Kind == "Store" && w.isNodes(e.Addr):
					ok := false
					if e.Val.Op == "append" && cur != nil && (e.Val.Args[0] == cur || e.Val.Args[0] == tNil && (isEmptySlice(cur) || e.Facts.eq(mkLen(cur), mkInt(0)))) {
						if l, is := w.x.literal(st, e.Val.Args[1]); is && len(l) == 1 {
							i := elemIn(l[0], added)
							ok = i != nil && e.Facts.entailsEq(linOf(i).sub(n))
						}
					}
					ob(e.Pos, ok, "the added nodes are not appended one after the other")
					ob(e.Pos, taken == nil, "an added node is appended although it was merged")
					cur = e.Val
					n = n.addc(1)
					refused = nil
				}
			}
			ob(fn.Pos(), refused == nil, "a node that was not merged is not added")
			return cur, n
		}
		var straight []*Event
		for _, e := range p.Events {
			if e.Kind != "Loop" {
				straight = append(straight, e)
				continue
			}
			cur, count = step(straight, p.St, p.Facts, cur, count)
			straight = nil
			lp := e.Loop
			var nv *LoopVar
			for _, v := range lp.Vars {
				if v.Addr != nil && w.isNodes(v.Addr) {
					nv = v
				}
			}
			if nv == nil {
				continue
			}
			for i, c := range lp.Conts {
				end, n := step(c.Events, c.St, c.Facts, nv.Head, count.add(linOf(lp.K)))
				ob(e.Pos, end == nv.Nexts[i], "the nodes change in an unknown way")
				ob(e.Pos, n.sub(count).sub(linOf(lp.K)).key() == linConst(1).key(), "a node is neither added nor merged, or twice so")
			}
			cur, count = nv.Head, count.add(linOf(lp.K))
		}
		_, count = step(straight, p.St, p.Facts, cur, count)
		ob(fn.Pos(), p.Facts.entailsGe(count.sub(linOf(mkLen(added)))), "some node may be neither added nor merged")
	}
	R.need("P14", "add", 4)
}

func (w *runWalk) isNodes(a *Term) bool {
	v := fieldOfP(a, w.pl)
	if v == nil {
		return false
	}
	sl, ok := v.Type().Underlying().(*types.Slice)
	return ok && types.Identical(sl.Elem(), w.d.node)
}
