package main

// Parallel sorting, merging and checking of large ranges (S08).

// maxSequential is the size up to which a range may be worked on sequentially.
const maxSequential = 1 << 16

func (sp span) size() *Lin { return sp.hi.sub(sp.lo) }

func small(f *Facts, n *Lin) bool { return f.entailsGe(linConst(maxSequential).sub(n)) }

// atMost: part is at most num/den of all, up to a few elements.
func atMost(f *Facts, part, all *Lin, num, den int64) bool {
	return f.entailsGe(linConst(32).addScaled(all, num).addScaled(part, -den))
}

// together judges the parts that a path of Sort sorts.
func (s *sortA) together(v *verdicts, a pieceAlt, f *Facts) {
	for i, p := range a.ps {
		if p.rec == nil {
			v.ob("S08", "small-sequential", p.ev.Pos, small(f, p.size()), "a range of any size may be sorted sequentially")
		}
		for _, q := range a.ps[:i] {
			if p.par != nil && p.par == q.par && p.br != q.br {
				continue
			}
			v.ob("S08", "at-the-same-time", p.ev.Pos, small(f, p.size()) || small(f, q.size()), "%v is sorted only after %v", p.span, q.span)
		}
	}
}

// inTurns finds a second piece of work of a goroutine.
func inTurns(es []*Event, work func(e *Event) bool) *Event {
	has := func(es []*Event) bool {
		t := false
		walkEvents(es, func(e *Event) { t = t || work(e) })
		return t
	}
	n := 0
	for _, e := range es {
		w := work(e)
		for _, b := range e.Par {
			for _, q := range b {
				if x := inTurns(q.Events, work); x != nil {
					return x
				}
				w = w || has(q.Events)
			}
		}
		if e.Kind == "Loop" {
			for _, c := range e.Loop.Conts {
				if has(c.Events) {
					return e
				}
			}
		}
		if w {
			if n++; n > 1 {
				return e
			}
		}
	}
	return nil
}

// mergesTogether judges a path of a function that merges two ranges.
func (s *stableA) mergesTogether(v *verdicts, u *Unit, m *mrole, p *Path) {
	all := span{m.l.lo, m.r.hi}.size()
	any := false
	rec := func(e *Event) bool { return e.Kind == "Rec" && s.merges[s.unitOf(u, e)] }
	walkEvents(p.Events, func(e *Event) { any = any || rec(e) })
	if !any {
		l, r := m.l.size(), m.r.size()
		all = l.add(r)
		if p.Facts.entailsGe(l.neg()) || p.Facts.entailsGe(r.neg()) {
			return // nothing to merge
		}
		v.ob("S08", "small-sequential", u.Fn.Pos(), small(p.Facts, all), "ranges of any size may be merged sequentially")
		return
	}
	e := inTurns(p.Events, rec)
	pos := u.Fn.Pos()
	if e != nil {
		pos = e.Pos
	}
	v.ob("S08", "at-the-same-time", pos, e == nil || small(p.Facts, all), "parts of a merge wait for each other")
}

// testsTogether judges a path of IsSorted that examines the range of r.
func (s *sortA) testsTogether(v *verdicts, u *Unit, r *role, p *Path) {
	f, ok := p.Facts.assume(p.Ret[0], r.good)
	if !ok || f.inconsistent() {
		return
	}
	rec := func(e *Event) bool {
		return e.Kind == "Rec" && s.role[s.unitOf(u, e)] != nil
	}
	any := false
	walkEvents(p.Events, func(e *Event) { any = any || rec(e) })
	pos := u.Fn.Pos()
	for _, e := range p.Events {
		// a range function with enough batches
		if len(e.Params) == 2 && len(e.Par) == 1 && s.touches(e.Par[0]) {
			v.ob("S08", "small-sequential", e.Pos, parallelRange(e), "the range is examined in too few batches")
			return
		}
	}
	if !any {
		v.ob("S08", "small-sequential", pos, small(f, r.s.size()), "a range of any size may be examined sequentially")
		return
	}
	e := inTurns(p.Events, rec)
	if e != nil {
		pos = e.Pos
	}
	v.ob("S08", "at-the-same-time", pos, e == nil || small(f, r.s.size()), "parts of the range wait for each other")
	if u == s.A.Entry {
		return
	}
	for _, e := range recsIn([]*Path{p}) {
		if s.unitOf(u, e) == u {
			v.ob("S08", "divided", e.Pos, atMost(e.Facts, r.at(e.Args).size(), r.s.size(), 1, 2), "a part is larger than half of the range")
		}
	}
}
