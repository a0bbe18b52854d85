package main

// Reductions for the character matchers of the parser-combinator library. Each of them
// loops over alternatives and performs the same action whichever alternative matches, so
// instead of one path per alternative the disjunction is decided once and the library's own
// closure then runs with the alternatives replaced by one that agrees with the decision.

const tkStr = "github.com/shellyln/takenoco/string."

func captured(m *M, c *Closure, i int) V {
	// a captured variable is a pointer to its cell
	if o, ok := c.fv[i].p.(*Obj); ok {
		return o.get(int(c.fv[i].n))
	}
	return c.fv[i]
}

func withCapture(m *M, c *Closure, i int, v V) *Closure {
	n := &Closure{f: c.f, fv: append([]V(nil), c.fv...)}
	if _, ok := c.fv[i].p.(*Obj); ok {
		o := m.newObj(1, "cc")
		o.c = []V{v}
		n.fv[i] = V{p: o}
	} else {
		n.fv[i] = v
	}
	return n
}

// context layout: offsets of Str and Position in ParserContext
func (m *M) ctxField(c *Closure, name string) int {
	t := m.eng.types.get(c.f.f.Signature.Params().At(0).Type())
	for i := range t.fields {
		if t.fields[i].name == name {
			return t.fields[i].off
		}
	}
	m.unsupported("parser context has no %s", name)
	return 0
}

func rangeIntr(neg bool) func(m *M, c *Closure, args []V) (V, bool) {
	return func(m *M, c *Closure, args []V) (V, bool) {
		if m.mon != nil || len(c.fv) != 1 || args[0].p == nil {
			return V{}, false
		}
		ctx := args[0].p.(*Agg).c
		sv, pv := ctx[m.ctxField(c, "Str")], ctx[m.ctxField(c, "SourcePosition")]
		if pv.p != nil {
			return V{}, false
		}
		s := sv.str()
		i := int(pv.n)
		if s == nil || s.b == nil || i < 0 || i >= len(s.b) {
			return V{}, false
		}
		ch, n := m.decodeRune(s, i)
		if n == 0 || ch.p == nil {
			return V{}, false
		}
		e := ch.p.(*Expr)
		sl, _ := captured(m, c, 0).p.(*Slice)
		if sl == nil {
			return V{}, false
		}
		or := m.b.tFalse
		for k := 0; k < sl.len; k++ {
			lo, hi := sl.o.get(sl.off+2*k), sl.o.get(sl.off+2*k+1)
			if lo.p != nil || hi.p != nil {
				return V{}, false
			}
			or = m.b.Or(or, m.b.And(m.b.Not(m.b.Cmp(OSlt, e, m.b.Const(32, lo.n))), m.b.Not(m.b.Cmp(OSlt, m.b.Const(32, hi.n), e))))
		}
		var rv V
		if m.decide(or) {
			o := m.newObj(2, "range")
			o.c = []V{{n: 0}, {n: 0x7fffffff}}
			rv = V{p: &Slice{o: o, len: 1, cap: 1}}
		}
		return m.callBody(c.f, args, withCapture(m, c, 0, rv).fv), true
	}
}

func classIntr(m *M, c *Closure, args []V) (V, bool) {
	if m.mon != nil || len(c.fv) != 1 || args[0].p == nil {
		return V{}, false
	}
	ctx := args[0].p.(*Agg).c
	sv, pv := ctx[m.ctxField(c, "Str")], ctx[m.ctxField(c, "SourcePosition")]
	if pv.p != nil {
		return V{}, false
	}
	s := sv.str()
	i := int(pv.n)
	if s == nil || s.b == nil || i < 0 || i >= len(s.b) {
		return V{}, false
	}
	sl, _ := captured(m, c, 0).p.(*Slice)
	if sl == nil || sl.len < 2 {
		return V{}, false
	}
	var keep []V
	for k := 0; k < sl.len; {
		x := sl.o.get(sl.off + k)
		n := x.str().len()
		if i+n > len(s.b) {
			k++
			continue
		}
		w := m.substr(s, i, i+n)
		or := m.b.tFalse
		for ; k < sl.len; k++ {
			y := sl.o.get(sl.off + k)
			if y.str().len() != n {
				break
			}
			or = m.b.Or(or, m.ex(m.strEq(w.str(), y.str()), 0))
		}
		if m.decide(or) {
			keep = []V{w}
			break
		}
	}
	var rv V
	if keep != nil {
		rv = m.mkSlice(keep)
	}
	return m.callBody(c.f, args, withCapture(m, c, 0, rv).fv), true
}

func closureIntrinsic(name string) func(m *M, c *Closure, args []V) (V, bool) {
	switch name {
	case tkStr + "CharRange$1":
		return rangeIntr(false)
	case tkStr + "CharRangeN$1":
		return rangeIntr(true)
	case tkStr + "CharClass$1", tkStr + "CharClassN$1":
		return classIntr
	}
	return nil
}
