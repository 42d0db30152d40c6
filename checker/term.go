package main

// Value numbering: every value the abstract interpreter handles is a
// hash-consed term, so that equal terms are equal pointers.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is a hash-consed abstract value.
type Term struct {
	ID   int
	Op   string
	Args []*Term
	Aux  string
	Typ  types.Type
	Fn   *ssa.Function  // closure, fn
	CV   constant.Value // const
	Lin  *Lin           // op "lin" only
	Ev   *Event         // atoms: the event that produced them
	Note string         // atoms: a printable origin
}

// Lin is an integer polynomial: a constant and a sum of coef * monomial, where
// a monomial is a sorted product of atomic terms.
type Lin struct {
	C int64
	M []Mono
}

// Mono is one coef * x1*x2*... summand; Key is the canonical key of the product.
type Mono struct {
	Coef int64
	Vars []*Term
	Key  string
}

var (
	termTab  = map[string]*Term{}
	termSeq  int
	freshSeq int
)

func intern(key string, mk func() *Term) *Term {
	if t, ok := termTab[key]; ok {
		return t
	}
	t := mk()
	termSeq++
	t.ID = termSeq
	termTab[key] = t
	return t
}

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

// mk makes (or finds) the term op[aux](args).
func mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	return intern(b.String(), func() *Term {
		return &Term{Op: op, Aux: aux, Typ: typ, Args: append([]*Term(nil), args...)}
	})
}

// fresh makes a new atom.
func fresh(note string, typ types.Type) *Term {
	freshSeq++
	t := mk("atom", fmt.Sprintf("%s#%d", note, freshSeq), typ)
	t.Note = note
	return t
}

func mkFn(f *ssa.Function) *Term {
	t := mk("fn", fmt.Sprintf("%p", f), f.Signature)
	t.Fn = f
	return t
}

func mkClosure(f *ssa.Function, binds []*Term) *Term {
	t := mk("closure", fmt.Sprintf("%p", f), f.Signature, binds...)
	t.Fn = f
	return t
}

var (
	tTrue  = mk("true", "", types.Typ[types.Bool])
	tFalse = mk("false", "", types.Typ[types.Bool])
	tNil   = mk("nil", "", types.Typ[types.UntypedNil])
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// mkConst makes the term of a constant.
func mkConst(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch {
	case c.Value.Kind() == constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case isIntType(c.Type()):
		if v, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return mkInt(v)
		}
	}
	t := mk("const", typeKey(c.Type().Underlying())+":"+c.Value.ExactString(), c.Type())
	t.CV = c.Value
	return t
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			x := mk("const", "string:\"\"", t)
			x.CV = constant.MakeString("")
			return x
		case u.Info()&types.IsFloat != 0:
			x := mk("const", typeKey(u)+":0", t)
			x.CV = constant.MakeInt64(0)
			return x
		}
		return tNil
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			args[i] = zeroOf(u.Field(i).Type())
		}
		return mk("struct", typeKey(t), t, args...)
	case *types.Array:
		return mk("zeroarray", typeKey(t), t)
	}
	return tNil
}

// ---- linear (polynomial) integer terms ----

func linConst(c int64) *Lin { return &Lin{C: c} }

func monoKey(vs []*Term) string {
	var b strings.Builder
	for i, v := range vs {
		if i > 0 {
			b.WriteByte('*')
		}
		fmt.Fprintf(&b, "%d", v.ID)
	}
	return b.String()
}

func linOf(t *Term) *Lin {
	if t.Op == "lin" {
		return t.Lin
	}
	return &Lin{M: []Mono{{Coef: 1, Vars: []*Term{t}, Key: monoKey([]*Term{t})}}}
}

func (a *Lin) norm() *Lin {
	sort.Slice(a.M, func(i, j int) bool { return a.M[i].Key < a.M[j].Key })
	out := a.M[:0]
	for _, m := range a.M {
		if n := len(out); n > 0 && out[n-1].Key == m.Key {
			out[n-1].Coef += m.Coef
			if out[n-1].Coef == 0 {
				out = out[:n-1]
			}
			continue
		}
		if m.Coef != 0 {
			out = append(out, m)
		}
	}
	a.M = out
	return a
}

func (a *Lin) addScaled(b *Lin, k int64) *Lin {
	r := &Lin{C: a.C + k*b.C, M: make([]Mono, 0, len(a.M)+len(b.M))}
	i, j := 0, 0
	for i < len(a.M) || j < len(b.M) {
		switch {
		case j == len(b.M) || i < len(a.M) && a.M[i].Key < b.M[j].Key:
			r.M = append(r.M, a.M[i])
			i++
		case i == len(a.M) || b.M[j].Key < a.M[i].Key:
			m := b.M[j]
			if m.Coef *= k; m.Coef != 0 {
				r.M = append(r.M, m)
			}
			j++
		default:
			m := a.M[i]
			if m.Coef += k * b.M[j].Coef; m.Coef != 0 {
				r.M = append(r.M, m)
			}
			i++
			j++
		}
	}
	return r
}

func (a *Lin) add(b *Lin) *Lin        { return a.addScaled(b, 1) }
func (a *Lin) sub(b *Lin) *Lin        { return a.addScaled(b, -1) }
func (a *Lin) addc(c int64) *Lin      { return &Lin{C: a.C + c, M: a.M} }
func (a *Lin) neg() *Lin              { return linConst(0).sub(a) }
func (a *Lin) isConst() (int64, bool) { return a.C, len(a.M) == 0 }

func (a *Lin) mul(b *Lin) *Lin {
	r := &Lin{C: a.C * b.C}
	for _, m := range a.M {
		if b.C != 0 {
			r.M = append(r.M, Mono{m.Coef * b.C, m.Vars, m.Key})
		}
	}
	for _, m := range b.M {
		if a.C != 0 {
			r.M = append(r.M, Mono{m.Coef * a.C, m.Vars, m.Key})
		}
	}
	for _, x := range a.M {
		for _, y := range b.M {
			vs := append(append([]*Term(nil), x.Vars...), y.Vars...)
			sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
			r.M = append(r.M, Mono{x.Coef * y.Coef, vs, monoKey(vs)})
		}
	}
	return r.norm()
}

func (a *Lin) key() string {
	b := make([]byte, 0, 16+12*len(a.M))
	b = strconv.AppendInt(b, a.C, 10)
	for _, m := range a.M {
		if m.Coef >= 0 {
			b = append(b, '+')
		}
		b = strconv.AppendInt(b, m.Coef, 10)
		b = append(b, '.')
		b = append(b, m.Key...)
	}
	return string(b)
}

// term converts a Lin back to a term.
func (a *Lin) term() *Term {
	if len(a.M) == 1 && a.C == 0 && a.M[0].Coef == 1 && len(a.M[0].Vars) == 1 {
		return a.M[0].Vars[0]
	}
	return intern("lin|"+a.key(), func() *Term {
		return &Term{Op: "lin", Lin: a, Typ: types.Typ[types.Int]}
	})
}

// subst replaces atoms by polynomials.
func (a *Lin) subst(sub map[*Term]*Lin) *Lin {
	r := linConst(a.C)
	for _, m := range a.M {
		p := linConst(m.Coef)
		for _, v := range m.Vars {
			if s, ok := sub[v]; ok {
				p = p.mul(s)
			} else {
				p = p.mul(linOf(v))
			}
		}
		r = r.add(p)
	}
	return r
}

func mkInt(c int64) *Term { return linConst(c).term() }

func add(a, b *Term) *Term        { return linOf(a).add(linOf(b)).term() }
func sub(a, b *Term) *Term        { return linOf(a).sub(linOf(b)).term() }
func addc(a *Term, c int64) *Term { return linOf(a).addc(c).term() }

func intVal(t *Term) (int64, bool) {
	if t.Op == "lin" {
		return t.Lin.isConst()
	}
	return 0, false
}

// mkQuo makes the (truncated) quotient a/b.
func mkQuo(a, b *Term) *Term {
	if c, ok := intVal(b); ok {
		if c == 1 {
			return a
		}
		if d, ok := intVal(a); ok && c != 0 {
			return mkInt(d / c)
		}
	}
	return mk("quo", "", types.Typ[types.Int], a, b)
}

func mkRem(a, b *Term) *Term {
	if c, ok := intVal(b); ok && c != 0 {
		if d, ok := intVal(a); ok {
			return mkInt(d % c)
		}
	}
	return linOf(a).sub(linOf(b).mul(linOf(mkQuo(a, b)))).term()
}

// mkGe0 is the boolean term l >= 0.
func mkGe0(l *Lin) *Term {
	if c, ok := l.isConst(); ok {
		return mkBool(c >= 0)
	}
	return mk("ge0", "", types.Typ[types.Bool], l.term())
}

func mkEq0(l *Lin) *Term {
	if c, ok := l.isConst(); ok {
		return mkBool(c == 0)
	}
	if l.M[0].Coef < 0 {
		l = l.neg()
	}
	return mk("eq0", "", types.Typ[types.Bool], l.term())
}

func mkNot(t *Term) *Term {
	switch t.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return t.Args[0]
	case "ge0": // !(l>=0)  <=>  -l-1 >= 0
		return mkGe0(linOf(t.Args[0]).neg().addc(-1))
	}
	return mk("not", "", types.Typ[types.Bool], t)
}

func mkLen(t *Term) *Term {
	switch t.Op {
	case "slice":
		return sub(t.Args[2], t.Args[1])
	case "nil":
		return mkInt(0)
	case "const":
		if t.CV != nil && t.CV.Kind() == constant.String {
			return mkInt(int64(len(constant.StringVal(t.CV))))
		}
	case "append":
		return add(mkLen(t.Args[0]), mkLen(t.Args[1]))
	}
	return mk("len", "", types.Typ[types.Int], t)
}

// mkSlice is the part [lo,hi) of base; base is never itself a "slice".
func mkSlice(base, lo, hi *Term, typ types.Type) *Term {
	if base.Op == "slice" {
		off := base.Args[1]
		return mkSlice(base.Args[0], add(off, lo), add(off, hi), typ)
	}
	if c, ok := intVal(lo); ok && c == 0 && hi == mkLen(base) && base.Op != "cell" {
		return base
	}
	return mk("slice", "", typ, base, lo, hi)
}

// elemAddr is the address of element i of the slice value s.
func elemAddr(s, i *Term) *Term {
	if s.Op == "slice" {
		return elemAddr(s.Args[0], add(s.Args[1], i))
	}
	return mk("idx", "", nil, s, i)
}

func (t *Term) String() string { return termStr(t, 0) }

func termStr(t *Term, d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 8 {
		return "…"
	}
	arg := func(i int) string { return termStr(t.Args[i], d+1) }
	switch t.Op {
	case "lin":
		var b strings.Builder
		first := true
		for _, m := range t.Lin.M {
			c := m.Coef
			if c < 0 {
				b.WriteString("-")
				c = -c
			} else if !first {
				b.WriteString("+")
			}
			first = false
			if c != 1 {
				fmt.Fprintf(&b, "%d*", c)
			}
			for i, v := range m.Vars {
				if i > 0 {
					b.WriteByte('*')
				}
				b.WriteString(termStr(v, d+1))
			}
		}
		if t.Lin.C != 0 || first {
			if t.Lin.C >= 0 && !first {
				b.WriteString("+")
			}
			fmt.Fprintf(&b, "%d", t.Lin.C)
		}
		return b.String()
	case "atom":
		return t.Note + t.Aux[strings.LastIndexByte(t.Aux, '#'):]
	case "const":
		return t.CV.ExactString()
	case "true", "false", "nil":
		return t.Op
	case "quo":
		return "(" + arg(0) + ")/(" + arg(1) + ")"
	case "slice":
		return arg(0) + "[" + arg(1) + ":" + arg(2) + "]"
	case "idx":
		return "&" + arg(0) + "[" + arg(1) + "]"
	case "field":
		return arg(0) + "." + t.Aux
	case "cell":
		return "cell:" + t.Note
	case "fn":
		return t.Fn.String()
	case "closure":
		return "closure:" + t.Fn.Name()
	case "load":
		return "*" + arg(0)
	case "ge0":
		return "(" + arg(0) + ">=0)"
	case "eq0":
		return "(" + arg(0) + "==0)"
	case "not":
		return "!" + arg(0)
	}
	var parts []string
	for i := range t.Args {
		parts = append(parts, arg(i))
	}
	aux := t.Aux
	if len(aux) > 40 {
		aux = aux[strings.LastIndexByte(aux, '.')+1:]
	}
	if aux != "" {
		aux = "[" + aux + "]"
	}
	return t.Op + aux + "(" + strings.Join(parts, ", ") + ")"
}

// mentions reports whether x occurs in t.
func mentions(t, x *Term) bool {
	if t == x {
		return true
	}
	if t.Op == "lin" {
		for _, m := range t.Lin.M {
			for _, v := range m.Vars {
				if mentions(v, x) {
					return true
				}
			}
		}
		return false
	}
	for _, a := range t.Args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

// walkTerm visits t and all of its subterms.
func walkTerm(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		f(t)
		if t.Op == "lin" {
			for _, m := range t.Lin.M {
				for _, v := range m.Vars {
					rec(v)
				}
			}
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
}

// substTerm replaces subterms.
func substTerm(t *Term, sub map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if s, ok := sub[t]; ok {
			return s
		}
		if s, ok := memo[t]; ok {
			return s
		}
		r := t
		switch {
		case t.Op == "lin":
			m := map[*Term]*Lin{}
			for _, mo := range t.Lin.M {
				for _, v := range mo.Vars {
					if nv := rec(v); nv != v {
						m[v] = linOf(nv)
					}
				}
			}
			if len(m) > 0 {
				r = t.Lin.subst(m).term()
			}
		case len(t.Args) > 0:
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			if ch {
				switch t.Op {
				case "ge0":
					r = mkGe0(linOf(args[0]))
				case "eq0":
					r = mkEq0(linOf(args[0]))
				case "not":
					r = mkNot(args[0])
				case "len":
					r = mkLen(args[0])
				case "slice":
					r = mkSlice(args[0], args[1], args[2], t.Typ)
				case "quo":
					r = mkQuo(args[0], args[1])
				case "idx":
					r = elemAddr(args[0], args[1])
				default:
					r = mk(t.Op, t.Aux, t.Typ, args...)
					r.Fn, r.CV, r.Ev, r.Note = t.Fn, t.CV, t.Ev, t.Note
				}
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}
