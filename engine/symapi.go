package main

import (
	"fmt"
)

const symPkg = "soqlverif/sym"

func (m *M) symName(v V) string {
	s, _ := cstr(v)
	return s
}

func symIntrinsics() {
	in := func(name string, f func(m *M, a []V) V) { intrinsics[symPkg+"."+name] = f }
	in("Byte", func(m *M, a []V) V {
		return m.val(m.newByte(m.symName(a[0]), Set{}.not()))
	})
	in("ByteIn", func(m *M, a []V) V {
		s, _ := cstr(a[1])
		var d Set
		for i := 0; i < len(s); i++ {
			d.add(uint64(s[i]))
		}
		return m.val(m.newByte(m.symName(a[0]), d))
	})
	in("ByteRange", func(m *M, a []V) V {
		return m.val(m.newByte(m.symName(a[0]), rng(int(a[1].n), int(a[2].n))))
	})
	in("Bool", func(m *M, a []V) V {
		e := m.newByte(m.symName(a[0]), rng(0, 1))
		return m.val(m.b.Eq(e, m.b.Const(8, 1)))
	})
	in("Choice", func(m *M, a []V) V {
		n := m.cint(a[1])
		if n < 1 || n > 256 {
			panic("sym.Choice range")
		}
		e := m.newByte(m.symName(a[0]), rng(0, n-1))
		return V{n: m.concretize(e)}
	})
	in("Int", func(m *M, a []V) V { // symbolic int in 0..n-1, not forked
		n := m.cint(a[1])
		e := m.newByte(m.symName(a[0]), rng(0, n-1))
		return m.val(m.b.Zext(e, 64))
	})
	in("Int64", func(m *M, a []V) V { return V{p: m.newWide(m.symName(a[0]), 64)} })
	in("Str", func(m *M, a []V) V {
		n := m.cint(a[1])
		set, _ := cstr(a[2])
		d := Set{}.not()
		if set != "" {
			d = Set{}
			for i := 0; i < len(set); i++ {
				d.add(uint64(set[i]))
			}
		}
		b := make([]*Expr, n)
		for i := range b {
			b[i] = m.newByte(m.symName(a[0]), d)
		}
		return m.mkStr(b)
	})
	in("Case", func(m *M, a []V) V {
		s := m.mustCstr(a[0])
		b := make([]*Expr, len(s))
		for i := 0; i < len(s); i++ {
			c := s[i]
			if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
				var d Set
				d.add(uint64(c | 32))
				d.add(uint64(c &^ 32))
				b[i] = m.newByte("case", d)
			} else {
				b[i] = m.b.Const(8, uint64(c))
			}
		}
		return m.mkStr(b)
	})
	in("Assume", func(m *M, a []V) V {
		if a[0].p == nil {
			if a[0].n == 0 {
				panic(&pathAbort{abAssume, ""})
			}
			return V{}
		}
		m.assume(a[0].p.(*Expr))
		return V{}
	})
	in("Assert", func(m *M, a []V) V {
		label, _ := cstr(a[1])
		m.assert(m.ex(a[0], 0), label)
		return V{}
	})
	in("Reach", func(m *M, a []V) V {
		label, _ := cstr(a[0])
		m.reached[label] = true
		return V{}
	})
	in("ObserveStr", func(m *M, a []V) V {
		m.obs = append(m.obs, obsEnt{m.symName(a[0]), a[1], 's'})
		return V{}
	})
	in("ObserveInt", func(m *M, a []V) V {
		m.obs = append(m.obs, obsEnt{m.symName(a[0]), a[1], 'i'})
		return V{}
	})
	in("ObserveBool", func(m *M, a []V) V {
		m.obs = append(m.obs, obsEnt{m.symName(a[0]), a[1], 'b'})
		return V{}
	})
	in("And", func(m *M, a []V) V { return m.val(m.b.And(m.ex(a[0], 0), m.ex(a[1], 0))) })
	in("Or", func(m *M, a []V) V { return m.val(m.b.Or(m.ex(a[0], 0), m.ex(a[1], 0))) })
	in("Not", func(m *M, a []V) V { return m.notV(a[0]) })
	in("Implies", func(m *M, a []V) V { return m.val(m.b.Or(m.b.Not(m.ex(a[0], 0)), m.ex(a[1], 0))) })
	in("Iff", func(m *M, a []V) V {
		x, y := m.ex(a[0], 0), m.ex(a[1], 0)
		if x.isConst() || y.isConst() {
			return m.val(m.b.Eq(x, y))
		}
		if x.h > y.h {
			x, y = y, x
		}
		return V{p: m.b.mk(ekey{op: OEq}, x, y, nil)} // left to the solver, not simplified
	})
	in("IteInt", func(m *M, a []V) V {
		return m.val(m.b.Ite(m.ex(a[0], 0), m.ex(a[1], 64), m.ex(a[2], 64)))
	})
	in("EqStr", func(m *M, a []V) V { return m.rawEq(a[0], a[1], false) })
	in("EqFold", func(m *M, a []V) V { return m.rawEq(a[0], a[1], true) })
	in("MapOrder", func(m *M, a []V) V { m.mapMode = m.cint(a[0]); return V{} })
	in("Tier", func(m *M, a []V) V { return intV(m.eng.tier) })
	in("Engine", func(m *M, a []V) V { return V{n: 1} })
	in("Input", func(m *M, a []V) V {
		m.obs = append(m.obs, obsEnt{"input", a[0], 's'})
		return V{}
	})
	in("Concrete", func(m *M, a []V) V { return str(m.mustCstr(a[0])) })
	in("ConcreteInt", func(m *M, a []V) V { return intV(m.cint(a[0])) })
	in("Panics", func(m *M, a []V) V {
		// runs fn; true when it panicked
		r := V{}
		depth, slab, sp := m.depth, m.slab, m.sp
		func() {
			defer func() {
				if x := recover(); x != nil {
					if g, ok := x.(*GoPanic); ok {
						m.depth, m.slab, m.sp = depth, slab, sp
						m.lastPanic = g
						r = V{n: 1}
						return
					}
					panic(x)
				}
			}()
			m.callV(a[0], nil)
		}()
		return r
	})
	in("Concurrently", func(m *M, a []V) V {
		m.mon = newMonitor()
		n := m.cint(a[0])
		for i := 0; i < n; i++ {
			m.gen++
			m.mon.thread()
			m.callV(a[1], []V{intV(i)})
		}
		mon := m.mon
		m.mon = nil
		m.gen++
		r := mon.report(m)
		m.lastRace = r
		return str(r)
	})
	in("Unsupported", func(m *M, a []V) V { m.unsupported("harness: %s", m.symName(a[0])); return V{} })
	_ = fmt.Sprint
}

// rawEq is equality of two strings (up to the case of ASCII letters when fold) whose
// symbolic bytes are left to the solver: unlike strEq it is not resolved by the engine's
// own simplifications. Comparisons the engine already knows to be false stay false.
func (m *M) rawEq(x, y V, fold bool) V {
	a, b := x.str(), y.str()
	easy := func() V {
		if fold {
			return m.equalFold(x, y)
		}
		return m.strEq(a, b)
	}
	if a.len() != b.len() || a == nil || a.b == nil && b.b == nil {
		return easy()
	}
	xs, ys := m.sbytes(a), m.sbytes(b)
	t := m.caseTab(false)
	r := m.b.tTrue
	for i := range xs {
		p, q := xs[i], ys[i]
		if fold {
			for _, e := range []*Expr{p, q} {
				if m.quick(m.b.Cmp(OUlt, e, m.b.Const(8, 0x80))) != 1 {
					return easy()
				}
			}
			p, q = m.b.Tab(t, p), m.b.Tab(t, q)
		}
		if p == q {
			continue
		}
		if p.isConst() && q.isConst() {
			return V{}
		}
		if p.h > q.h {
			p, q = q, p
		}
		r = m.b.And(r, m.b.mk(ekey{op: OEq}, p, q, nil))
	}
	if r.isConst() {
		return V{n: r.val}
	}
	return V{p: r}
}
