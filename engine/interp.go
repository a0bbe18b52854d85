package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"runtime"

	"golang.org/x/tools/go/ssa"
)

type deferEnt struct {
	in   *Ins
	fn   V
	args []V
	recv *Iface
}

type deferFrame struct {
	defers    []deferEnt
	panicking bool
	recovered bool
	pv        V
	up        *deferFrame
}

func (m *M) pool(f *Func) []V {
	for f.id >= len(m.pools) {
		m.pools = append(m.pools, nil)
	}
	if p := m.pools[f.id]; p != nil {
		return p
	}
	p := make([]V, len(f.consts)+1)
	for i, c := range f.consts {
		if _, ok := c.p.(globalRef); ok {
			p[i] = V{p: m.global(int(c.n))}
		} else {
			p[i] = c
		}
	}
	m.pools[f.id] = p
	return p
}

func (m *M) alloc(n int) []V {
	if m.sp+n > len(m.slab) {
		sz := 1 << 16
		if n > sz {
			sz = n
		}
		m.slab = make([]V, sz)
		m.sp = 0
	}
	r := m.slab[m.sp : m.sp+n : m.sp+n]
	m.sp += n
	return r
}

func (m *M) goPanic(v V) {
	panic(&GoPanic{v: v})
}

func (m *M) rtPanic(msg string) {
	m.goPanic(V{p: &Iface{t: m.eng.rtErrType, v: str("runtime error: " + msg)}})
}

// call executes f with args
func (m *M) call(f *Func, args []V) V {
	if f.intr != nil {
		if !m.inRun || m.mon == nil || true {
			return f.intr(m, args)
		}
	}
	return m.callBody(f, args, nil)
}

func (m *M) callBody(f *Func, args []V, fv []V) V {
	f.ensure()
	if f.bad != "" {
		m.unsupported("%s", f.bad)
	}
	if m.inRun {
		m.fnUsed[f]++
	}
	m.depth++
	if m.depth > 3000 {
		m.unsupported("call depth in %s", f.name)
	}
	slab, sp := m.slab, m.sp
	regs := m.alloc(f.nregs)
	copy(regs, args)
	if len(fv) > 0 {
		copy(regs[f.nparams:], fv)
	}
	var r V
	if f.hasDef {
		r = m.execDef(f, regs)
	} else {
		r = m.exec(f, regs, nil, 0)
	}
	for i := range regs {
		regs[i] = V{}
	}
	m.slab, m.sp = slab, sp
	m.depth--
	return r
}

func (m *M) execDef(f *Func, regs []V) (ret V) {
	fr := &deferFrame{up: nil}
	depth := m.depth
	slab, sp := m.slab, m.sp
	run := func(pc int) (r V, pn *GoPanic) {
		defer func() {
			if x := recover(); x != nil {
				if g, ok := x.(*GoPanic); ok {
					pn = g
					m.depth = depth
					m.slab, m.sp = slab, sp
					return
				}
				panic(x)
			}
		}()
		return m.exec(f, regs, fr, pc), nil
	}
	r, pn := run(0)
	for pn != nil {
		fr.panicking, fr.recovered, fr.pv = true, false, pn.v
		pn = nil
		for len(fr.defers) > 0 && pn == nil {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			func() {
				defer func() {
					if x := recover(); x != nil {
						if g, ok := x.(*GoPanic); ok {
							pn = g
							m.depth = depth
							m.slab, m.sp = slab, sp
							return
						}
						panic(x)
					}
				}()
				m.runDefer(fr, d)
			}()
			if pn == nil && fr.recovered {
				break
			}
		}
		if pn != nil {
			continue
		}
		if !fr.recovered {
			panic(&GoPanic{v: fr.pv})
		}
		fr.panicking = false
		if f.recPC >= 0 {
			r, pn = run(f.recPC)
		} else {
			// no named results: zero results
			r = V{}
			if f.f.Signature.Results().Len() > 1 {
				r = V{p: &Agg{c: make([]V, f.f.Signature.Results().Len())}}
			}
			// remaining defers
			for len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				m.runDefer(fr, d)
			}
		}
	}
	return r
}

func (m *M) runDefer(fr *deferFrame, d deferEnt) {
	old := m.panicFr
	m.panicFr = fr
	m.pendingRec = true
	defer func() { m.panicFr = old }()
	switch Opc(d.in.n) {
	case iCall:
		m.call(d.in.fn, d.args)
	case iCallDyn:
		m.callV(d.fn, d.args)
	case iInvoke:
		m.invoke(d.in, d.fn, d.args)
	case iBuiltin:
		m.builtin(d.in, d.args)
	}
}

func (m *M) callV(fv V, args []V) V {
	switch c := fv.p.(type) {
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case *Closure:
		if c.f.intr != nil && len(c.fv) == 0 {
			return c.f.intr(m, args)
		}
		if c.f.clIntr != nil {
			if r, ok := c.f.clIntr(m, c, args); ok {
				return r
			}
		}
		return m.callBody(c.f, args, c.fv)
	case *BoundIntr:
		return c.fn(m, args)
	}
	m.unsupported("call of %T", fv.p)
	return V{}
}

func (e *Engine) method(t *RType, meth *types.Func) *Func {
	name := meth.Name()
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.methods == nil {
		t.methods = map[string]*Func{}
	}
	if f, ok := t.methods[name]; ok {
		return f
	}
	var f *Func
	if sf := e.prog.LookupMethod(t.t, meth.Pkg(), name); sf != nil {
		f = e.fnOf(sf)
	}
	t.methods[name] = f
	return f
}

func (e *Engine) methodByName(t *RType, name string) *Func {
	ms := e.prog.MethodSets.MethodSet(t.t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return e.fnOf(e.prog.MethodValue(s))
		}
	}
	return nil
}

func (m *M) invoke(in *Ins, recv V, args []V) V {
	if recv.p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	i := recv.p.(*Iface)
	var f *Func
	if x, ok := in.cache.Load(i.t); ok {
		f = x.(*Func)
	} else {
		if i.t == m.eng.rtErrType {
			if in.name == "Error" || in.name == "String" {
				return i.v
			}
			m.unsupported("method %s on runtime error", in.name)
		}
		f = m.eng.method(i.t, in.meth)
		if f == nil {
			m.unsupported("no method %s on %v", in.name, i.t)
		}
		in.cache.Store(i.t, f)
	}
	a := make([]V, len(args)+1)
	a[0] = i.v
	copy(a[1:], args)
	return m.call(f, a)
}

func (m *M) checkSteps(n int) {
	m.steps += n
	if m.steps > m.stepLimit {
		panic(&pathAbort{abSteps, "step limit in " + m.where()})
	}
	if m.eng.stopped() {
		panic(&pathAbort{abEnd, ""})
	}
}

func (m *M) where() string {
	if m.curFn != nil {
		return m.curFn.name
	}
	return "?"
}

func (m *M) exec(f *Func, regs []V, fr *deferFrame, pc int) V {
	cs := m.pool(f)
	code := f.code
	m.curFn = f
	get := func(i int32) V {
		if i >= 0 {
			return regs[i]
		}
		return cs[^i]
	}
	cnt := 0
	defer0 := fr
	_ = defer0
	for {
		in := &code[pc]
		pc++
		switch in.op {
		case iMove:
			regs[in.dst] = get(in.a)
		case iLoad:
			p := get(in.a)
			o, ok := p.p.(*Obj)
			if !ok {
				m.badPtr(p)
			}
			t := in.t
			if t.kind < KStruct && m.mon == nil {
				i := int(p.n)
				if i < len(o.c) {
					v := o.c[i]
					if ps, ok := v.p.(poison); ok {
						m.unsupported("read of uninitialised package state (%s) in %s", ps.why, f.name)
					}
					regs[in.dst] = v
				} else {
					regs[in.dst] = V{}
				}
			} else {
				v := m.load(o, int(p.n), t)
				if ps, ok := v.p.(poison); ok {
					m.unsupported("read of uninitialised package state (%s)", ps.why)
				}
				regs[in.dst] = v
			}
		case iStore:
			p := get(in.a)
			o, ok := p.p.(*Obj)
			if !ok {
				m.badPtr(p)
			}
			m.store(o, int(p.n), in.t, get(in.b))
		case iAlloc:
			regs[in.dst] = V{p: m.newObj(in.t.size, in.name)}
		case iFieldAddr:
			p := get(in.a)
			if p.p == nil {
				m.badPtr(p)
			}
			p.n += uint64(in.n)
			regs[in.dst] = p
		case iField:
			p := get(in.a)
			if p.p == nil {
				regs[in.dst] = V{}
			} else if in.t.agg() {
				regs[in.dst] = V{p: &Agg{c: p.p.(*Agg).c[in.n : in.n+in.t.size]}}
			} else {
				regs[in.dst] = p.p.(*Agg).c[in.n]
			}
		case iBin:
			x, y := get(in.a), get(in.b)
			if x.p == nil && y.p == nil {
				regs[in.dst] = m.binConc(in, x.n, y.n)
			} else {
				regs[in.dst] = m.binSym(in, x, y)
			}
		case iBinStr:
			regs[in.dst] = m.binStr(in.tok, get(in.a), get(in.b))
		case iFloatBin:
			regs[in.dst] = m.binFloat(in, get(in.a), get(in.b))
		case iEq:
			regs[in.dst] = m.eqV(get(in.a), get(in.b), in.t)
		case iNe:
			regs[in.dst] = m.notV(m.eqV(get(in.a), get(in.b), in.t))
		case iNot:
			regs[in.dst] = m.notV(get(in.a))
		case iNeg:
			x := get(in.a)
			if in.t.kind == KFloat {
				if x.p != nil {
					m.unsupported("float neg of symbolic")
				}
				if in.w == 32 {
					regs[in.dst] = V{n: math.Float64bits(float64(-float32(x.f64())))}
				} else {
					regs[in.dst] = V{n: math.Float64bits(-x.f64())}
				}
			} else if x.p == nil {
				regs[in.dst] = V{n: -x.n & mask(in.w)}
			} else {
				regs[in.dst] = m.val(m.b.Bin(OSub, m.b.Const(in.w, 0), m.ex(x, in.w)))
			}
		case iXorUn:
			x := get(in.a)
			if x.p == nil {
				regs[in.dst] = V{n: ^x.n & mask(in.w)}
			} else {
				regs[in.dst] = m.val(m.b.Bin(OXor, m.ex(x, in.w), m.b.Const(in.w, mask(in.w))))
			}
		case iIndexAddr:
			x := get(in.a)
			idx := get(in.b)
			if in.n >= 0 {
				if x.p == nil {
					m.badPtr(x)
				}
				i := m.index(idx, in.n, in.t2, nil)
				x.n += uint64(i * in.t.size)
				regs[in.dst] = x
			} else {
				s, _ := x.p.(*Slice)
				n := 0
				if s != nil {
					n = s.len
				}
				i := m.index(idx, n, in.t2, s)
				regs[in.dst] = V{n: uint64(s.off + i*in.t.size), p: s.o}
			}
		case iIndex:
			x := get(in.a)
			i := m.index(get(in.b), in.t.n, in.t2, nil)
			es := in.t.elem.size
			if x.p == nil {
				regs[in.dst] = V{}
			} else if in.t.elem.agg() {
				regs[in.dst] = V{p: &Agg{c: x.p.(*Agg).c[i*es : (i+1)*es]}}
			} else {
				regs[in.dst] = x.p.(*Agg).c[i]
			}
		case iIndexStr:
			regs[in.dst] = m.indexStr(get(in.a).str(), get(in.b), in.t2)
		case iLookup:
			mp, _ := get(in.a).p.(*Map)
			v, ok := m.mapGet(mp, get(in.b))
			if in.commaOk {
				regs[in.dst] = V{p: &Agg{c: []V{v, boolV(ok)}}}
			} else {
				regs[in.dst] = v
			}
		case iMapUpdate:
			mp, _ := get(in.a).p.(*Map)
			if mp == nil {
				m.goPanic(V{p: &Iface{t: m.eng.rtErrType, v: str("assignment to entry in nil map")}})
			}
			m.mapSet(mp, get(in.b), get(in.c))
		case iMakeIface:
			regs[in.dst] = V{p: &Iface{t: in.t, v: get(in.a)}}
		case iMakeClosure:
			cl := &Closure{f: in.fn, fv: make([]V, len(in.args))}
			for i, a := range in.args {
				cl.fv[i] = get(a)
			}
			regs[in.dst] = V{p: cl}
		case iMakeMap:
			regs[in.dst] = V{p: m.newMap(in.t)}
		case iMakeSlice:
			l, c := m.cint(get(in.a)), m.cint(get(in.b))
			if l < 0 || c < l {
				m.rtPanic("makeslice: len out of range")
			}
			if c > 1<<24 {
				m.unsupported("huge make")
			}
			regs[in.dst] = V{p: &Slice{o: m.newObj(c*in.t.size, "makeslice"), len: l, cap: c}}
		case iSlice:
			regs[in.dst] = m.slice(in, get(in.a), optReg(get, in.b), optReg(get, in.c), optReg(get, in.d))
		case iConvert:
			regs[in.dst] = m.convert(get(in.a), in.t, in.t2)
		case iTypeAssert:
			regs[in.dst] = m.typeAssert(in, get(in.a))
		case iExtract:
			t := get(in.a)
			if t.p == nil {
				regs[in.dst] = V{}
			} else {
				regs[in.dst] = t.p.(*Agg).c[in.n]
			}
		case iRange:
			x := get(in.a)
			if in.t.kind == KString {
				regs[in.dst] = V{p: &MapIter{str: x.str(), isStr: true}}
			} else {
				mp, _ := x.p.(*Map)
				it := &MapIter{m: mp}
				if mp != nil {
					if m.mon != nil && mp.gen < m.gen {
						m.mon.readMap(m, mp)
					}
					it.order = m.mapOrder(mp)
				}
				regs[in.dst] = V{p: it}
			}
		case iNext:
			regs[in.dst] = m.next(get(in.a).p.(*MapIter))
		case iJump:
			cnt += pc
			pc = m.take(&in.e1, regs, cs)
			m.steps += 8
			if m.steps > m.stepLimit {
				m.checkSteps(0)
			}
		case iIf:
			c := get(in.a)
			var t bool
			if c.p == nil {
				t = c.n != 0
			} else {
				ce := c.p.(*Expr)
				switch m.quick(ce) {
				case 1:
					t = true
				case 0:
				default:
					if in.merge != nil {
						npc, ret, rv, done := m.tryMerge(f, in.merge, in, ce, regs, cs)
						if done {
							m.curFn = f
							m.steps += 8
							if ret {
								return rv
							}
							pc = npc
							continue
						}
					}
					t = m.decide(ce)
					m.curFn = f
				}
			}
			if t {
				pc = m.take(&in.e1, regs, cs)
			} else {
				pc = m.take(&in.e2, regs, cs)
			}
			m.steps += 8
			if m.steps > m.stepLimit {
				m.checkSteps(0)
			}
		case iReturn:
			m.steps += 8
			switch len(in.args) {
			case 0:
				return V{}
			case 1:
				return get(in.args[0])
			}
			a := &Agg{c: make([]V, len(in.args))}
			for i, r := range in.args {
				a.c[i] = get(r)
			}
			return V{p: a}
		case iRunDefers:
			for len(fr.defers) > 0 {
				d := fr.defers[len(fr.defers)-1]
				fr.defers = fr.defers[:len(fr.defers)-1]
				m.runDefer(fr, d)
			}
		case iPanic:
			v := get(in.a)
			if v.p == nil {
				m.rtPanic("panic called with nil argument")
			}
			m.goPanic(v)
		case iDefer:
			d := deferEnt{in: in, args: make([]V, len(in.args))}
			for i, a := range in.args {
				d.args[i] = get(a)
			}
			if Opc(in.n) == iCallDyn || Opc(in.n) == iInvoke {
				d.fn = get(in.a)
			}
			fr.defers = append(fr.defers, d)
		case iCall:
			var buf [6]V
			args := buf[:0]
			for _, a := range in.args {
				args = append(args, get(a))
			}
			if in.fn.intr != nil {
				args = append([]V(nil), args...)
				regs[in.dst] = in.fn.intr(m, args)
			} else {
				regs[in.dst] = m.callBody(in.fn, args, nil)
			}
			m.curFn = f
		case iCallDyn:
			args := make([]V, len(in.args))
			for i, a := range in.args {
				args[i] = get(a)
			}
			regs[in.dst] = m.callV(get(in.a), args)
			m.curFn = f
		case iInvoke:
			args := make([]V, len(in.args))
			for i, a := range in.args {
				args[i] = get(a)
			}
			regs[in.dst] = m.invoke(in, get(in.a), args)
			m.curFn = f
		case iBuiltin:
			args := make([]V, len(in.args))
			for i, a := range in.args {
				args[i] = get(a)
			}
			if in.name == "recover" {
				regs[in.dst] = m.recover()
			} else {
				regs[in.dst] = m.builtin(in, args)
			}
		case iSliceToArr:
			s, _ := get(in.a).p.(*Slice)
			if s == nil {
				if in.t.n > 0 {
					m.rtPanic("cannot convert slice to array pointer")
				}
				regs[in.dst] = V{}
			} else {
				if s.len < in.t.n {
					m.rtPanic("cannot convert slice with length to array pointer")
				}
				regs[in.dst] = V{n: uint64(s.off), p: s.o}
			}
		default:
			m.unsupported("%s in %s", in.name, f.name)
		}
	}
}

func optReg(get func(int32) V, i int32) *V {
	if i == noReg {
		return nil
	}
	v := get(i)
	return &v
}

func (m *M) take(e *edge, regs, cs []V) int {
	if len(e.moves) == 0 {
		return int(e.pc)
	}
	if !e.tmp {
		for _, mv := range e.moves {
			if mv.src >= 0 {
				regs[mv.dst] = regs[mv.src]
			} else {
				regs[mv.dst] = cs[^mv.src]
			}
		}
		return int(e.pc)
	}
	var buf [8]V
	tmp := buf[:0]
	for _, mv := range e.moves {
		if mv.src >= 0 {
			tmp = append(tmp, regs[mv.src])
		} else {
			tmp = append(tmp, cs[^mv.src])
		}
	}
	for i, mv := range e.moves {
		regs[mv.dst] = tmp[i]
	}
	return int(e.pc)
}

func (m *M) badPtr(p V) {
	if p.p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	m.unsupported("pointer %T", p.p)
}

func (m *M) recover() V {
	// recover is only effective in a function called directly by the deferring machinery;
	// the frame is identified by panicFr.
	fr := m.panicFr
	if fr == nil || !fr.panicking || fr.recovered {
		return V{}
	}
	fr.recovered = true
	return fr.pv
}

func (m *M) index(idx V, n int, it *RType, s *Slice) int {
	if idx.p == nil {
		i := int(int64(idx.n))
		if it.signed {
			i = int(sext(idx.n, it.w))
		}
		if i < 0 || i >= n || !it.signed && idx.n >= uint64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return i
	}
	e := idx.p.(*Expr)
	if n < 1<<30 && uint64(n) <= mask(it.w) {
		inb := m.b.Cmp(OUlt, e, m.b.Const(it.w, uint64(n)))
		if !m.decide(inb) {
			m.rtPanic("index out of range")
		}
	}
	return int(m.concretize(e))
}

func (m *M) indexStr(s *Str, idx V, it *RType) V {
	n := s.len()
	if idx.p != nil {
		e := idx.p.(*Expr)
		if s != nil && s.b == nil && n <= 256 && e.vars() != nil && len(e.vars()) == 1 {
			// lookup in a constant string table
			inb := m.b.Cmp(OUlt, e, m.b.Const(it.w, uint64(n)))
			if uint64(n) <= mask(it.w) && !m.decide(inb) {
				m.rtPanic("index out of range")
			}
			var vals [256]uint64
			for i := 0; i < n; i++ {
				vals[i] = uint64(s.s[i])
			}
			ix := e
			if ix.w > 8 {
				ix = m.b.Trunc(e, 8)
			}
			return m.val(m.b.Tab(m.b.table(8, &vals), ix))
		}
	}
	i := m.index(idx, n, it, nil)
	if s.b != nil {
		return m.val(s.b[i])
	}
	return V{n: uint64(s.s[i])}
}

func (m *M) notV(v V) V {
	if v.p == nil {
		return V{n: v.n ^ 1}
	}
	return m.val(m.b.Not(v.p.(*Expr)))
}

func (m *M) binConc(in *Ins, x, y uint64) V {
	w := in.w
	switch in.tok {
	case token.ADD:
		return V{n: (x + y) & mask(w)}
	case token.SUB:
		return V{n: (x - y) & mask(w)}
	case token.EQL:
		return boolV(x == y)
	case token.NEQ:
		return boolV(x != y)
	case token.LSS:
		if in.sg {
			return boolV(sext(x, w) < sext(y, w))
		}
		return boolV(x < y)
	case token.LEQ:
		if in.sg {
			return boolV(sext(x, w) <= sext(y, w))
		}
		return boolV(x <= y)
	case token.GTR:
		if in.sg {
			return boolV(sext(x, w) > sext(y, w))
		}
		return boolV(x > y)
	case token.GEQ:
		if in.sg {
			return boolV(sext(x, w) >= sext(y, w))
		}
		return boolV(x >= y)
	case token.MUL:
		return V{n: (x * y) & mask(w)}
	case token.QUO, token.REM:
		if y == 0 {
			m.rtPanic("integer divide by zero")
		}
		op := OUdiv
		if in.tok == token.REM {
			op = OUrem
		}
		if in.sg {
			op++
			if in.tok == token.REM {
				op = OSrem
			} else {
				op = OSdiv
			}
		}
		r, _ := evalBin(op, w, x, y)
		return V{n: r}
	case token.AND:
		return V{n: x & y}
	case token.OR:
		return V{n: x | y}
	case token.XOR:
		return V{n: x ^ y}
	case token.AND_NOT:
		return V{n: x &^ y}
	case token.SHL, token.SHR:
		if in.t2.signed && sext(y, in.t2.w) < 0 {
			m.rtPanic("negative shift amount")
		}
		op := OShl
		if in.tok == token.SHR {
			op = OLshr
			if in.sg {
				op = OAshr
			}
		}
		r, _ := evalBin(op, w, x, y)
		return V{n: r}
	}
	m.unsupported("binop %v", in.tok)
	return V{}
}

func (m *M) binSym(in *Ins, x, y V) V {
	w := in.w
	a := m.ex(x, w)
	if in.tok == token.SHL || in.tok == token.SHR {
		yw := in.t2.w
		b := m.ex(y, yw)
		if in.t2.signed && !b.isConst() {
			if m.decide(m.b.Cmp(OSlt, b, m.b.Const(yw, 0))) {
				m.rtPanic("negative shift amount")
			}
		}
		// bring the count to width w, saturating
		if yw > w {
			big := m.b.Cmp(OUlt, m.b.Const(yw, uint64(w)-1), b)
			b = m.b.Ite(big, m.b.Const(w, uint64(w)), m.b.Trunc(b, w))
		} else {
			b = m.b.Zext(b, w)
		}
		op := OShl
		if in.tok == token.SHR {
			op = OLshr
			if in.sg {
				op = OAshr
			}
		}
		return m.val(m.b.Bin(op, a, b))
	}
	b := m.ex(y, w)
	if w == 0 {
		switch in.tok {
		case token.AND, token.LAND:
			return m.val(m.b.And(a, b))
		case token.OR, token.LOR:
			return m.val(m.b.Or(a, b))
		}
		m.unsupported("bool binop %v", in.tok)
	}
	lt := OUlt
	if in.sg {
		lt = OSlt
	}
	switch in.tok {
	case token.ADD:
		return m.val(m.b.Bin(OAdd, a, b))
	case token.SUB:
		return m.val(m.b.Bin(OSub, a, b))
	case token.MUL:
		return m.val(m.b.Bin(OMul, a, b))
	case token.EQL:
		return m.val(m.b.Eq(a, b))
	case token.NEQ:
		return m.val(m.b.Not(m.b.Eq(a, b)))
	case token.LSS:
		return m.val(m.b.Cmp(lt, a, b))
	case token.GTR:
		return m.val(m.b.Cmp(lt, b, a))
	case token.LEQ:
		return m.val(m.b.Not(m.b.Cmp(lt, b, a)))
	case token.GEQ:
		return m.val(m.b.Not(m.b.Cmp(lt, a, b)))
	case token.QUO, token.REM:
		if m.decide(m.b.Eq(b, m.b.Const(w, 0))) {
			m.rtPanic("integer divide by zero")
		}
		op := OUdiv
		switch {
		case in.tok == token.QUO && in.sg:
			op = OSdiv
		case in.tok == token.REM && in.sg:
			op = OSrem
		case in.tok == token.REM:
			op = OUrem
		}
		return m.val(m.b.Bin(op, a, b))
	case token.AND:
		return m.val(m.b.Bin(OBand, a, b))
	case token.OR:
		return m.val(m.b.Bin(OBor, a, b))
	case token.XOR:
		return m.val(m.b.Bin(OXor, a, b))
	case token.AND_NOT:
		return m.val(m.b.Bin(OBand, a, m.b.Bin(OXor, b, m.b.Const(w, mask(w)))))
	}
	m.unsupported("symbolic binop %v", in.tok)
	return V{}
}

func (m *M) binFloat(in *Ins, x, y V) V {
	if x.p != nil || y.p != nil {
		if in.tok == token.EQL || in.tok == token.NEQ {
			// equality of tokens / constants; NaN is not modelled for tokens
			c := m.b.Eq(m.ex(x, 64), m.ex(y, 64))
			if in.tok == token.NEQ {
				c = m.b.Not(c)
			}
			return m.val(c)
		}
		m.unsupported("symbolic float %v", in.tok)
	}
	a, b := x.f64(), y.f64()
	var r float64
	switch in.tok {
	case token.ADD:
		r = a + b
	case token.SUB:
		r = a - b
	case token.MUL:
		r = a * b
	case token.QUO:
		r = a / b
	case token.EQL:
		return boolV(a == b)
	case token.NEQ:
		return boolV(a != b)
	case token.LSS:
		return boolV(a < b)
	case token.LEQ:
		return boolV(a <= b)
	case token.GTR:
		return boolV(a > b)
	case token.GEQ:
		return boolV(a >= b)
	default:
		m.unsupported("float %v", in.tok)
	}
	if in.w == 32 {
		r = float64(float32(r))
	}
	return V{n: math.Float64bits(r)}
}

// ---- strings ----

func (m *M) mkStr(b []*Expr) V {
	if len(b) == 0 {
		return V{}
	}
	conc := true
	for _, e := range b {
		if !e.isConst() {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, e := range b {
			bs[i] = byte(e.val)
		}
		return V{p: &Str{s: string(bs)}}
	}
	return V{p: &Str{b: b}}
}

// normStr concretises bytes fixed by the path's domains
func (m *M) normStr(s *Str) V {
	if s.b == nil {
		return V{p: s}
	}
	nb := make([]*Expr, len(s.b))
	for i, e := range s.b {
		v := m.val(e)
		nb[i] = m.ex(v, 8)
	}
	return m.mkStr(nb)
}

func (m *M) sbytes(s *Str) []*Expr {
	if s == nil {
		return nil
	}
	if s.b != nil {
		return s.b
	}
	r := make([]*Expr, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = m.b.bytec[s.s[i]]
	}
	return r
}

func (m *M) concat(x, y V) V {
	a, b := x.str(), y.str()
	if a.len() == 0 {
		return y
	}
	if b.len() == 0 {
		return x
	}
	if a.b == nil && b.b == nil {
		return V{p: &Str{s: a.s + b.s}}
	}
	r := make([]*Expr, 0, a.len()+b.len())
	r = append(r, m.sbytes(a)...)
	r = append(r, m.sbytes(b)...)
	return V{p: &Str{b: r}}
}

func (m *M) substr(s *Str, i, j int) V {
	if i == j {
		return V{}
	}
	if s.b == nil {
		return V{p: &Str{s: s.s[i:j]}}
	}
	return m.mkStr(s.b[i:j])
}

func (m *M) strEq(a, b *Str) V {
	if a.len() != b.len() {
		return V{}
	}
	if a == nil || a == b {
		return V{n: 1}
	}
	if a.b == nil && b.b == nil {
		return boolV(a.s == b.s)
	}
	x, y := m.sbytes(a), m.sbytes(b)
	r := m.b.tTrue
	for i := range x {
		c := m.b.Eq(x[i], y[i])
		if q := m.quick(c); q == 0 {
			return V{}
		} else if q == 1 {
			continue
		}
		r = m.b.And(r, c)
	}
	return m.val(r)
}

func (m *M) strLess(a, b *Str) *Expr {
	x, y := m.sbytes(a), m.sbytes(b)
	n := min(len(x), len(y))
	r := m.b.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = m.b.Or(m.b.Cmp(OUlt, x[i], y[i]), m.b.And(m.b.Eq(x[i], y[i]), r))
	}
	return r
}

func (m *M) binStr(tok token.Token, x, y V) V {
	switch tok {
	case token.ADD:
		return m.concat(x, y)
	case token.EQL:
		return m.strEq(x.str(), y.str())
	case token.NEQ:
		return m.notV(m.strEq(x.str(), y.str()))
	}
	a, b := x.str(), y.str()
	sa, oka := cstr(x)
	sb, okb := cstr(y)
	if oka && okb {
		switch tok {
		case token.LSS:
			return boolV(sa < sb)
		case token.LEQ:
			return boolV(sa <= sb)
		case token.GTR:
			return boolV(sa > sb)
		case token.GEQ:
			return boolV(sa >= sb)
		}
	}
	switch tok {
	case token.LSS:
		return m.val(m.strLess(a, b))
	case token.LEQ:
		return m.val(m.b.Not(m.strLess(b, a)))
	case token.GTR:
		return m.val(m.strLess(b, a))
	case token.GEQ:
		return m.val(m.b.Not(m.strLess(a, b)))
	}
	m.unsupported("string op %v", tok)
	return V{}
}

// eqV compares two values of static type t
func (m *M) eqV(x, y V, t *RType) V {
	switch t.kind {
	case KBool:
		if x.p == nil && y.p == nil {
			return boolV(x.n == y.n)
		}
		return m.val(m.b.Eq(m.ex(x, 0), m.ex(y, 0)))
	case KInt:
		if x.p == nil && y.p == nil {
			return boolV(x.n == y.n)
		}
		return m.val(m.b.Eq(m.ex(x, t.w), m.ex(y, t.w)))
	case KFloat:
		if x.p == nil && y.p == nil {
			return boolV(x.f64() == y.f64())
		}
		return m.val(m.b.Eq(m.ex(x, 64), m.ex(y, 64)))
	case KString:
		return m.strEq(x.str(), y.str())
	case KPtr, KChan:
		return boolV(x.p == y.p && x.n == y.n)
	case KMap, KSlice, KFunc:
		// only comparison with nil is legal
		return boolV(x.p == nil && y.p == nil)
	case KIface:
		if x.p == nil || y.p == nil {
			return boolV(x.p == nil && y.p == nil)
		}
		a, ok1 := x.p.(*Iface)
		b, ok2 := y.p.(*Iface)
		if !ok1 || !ok2 {
			m.unsupported("iface eq %T %T", x.p, y.p)
		}
		if a.t != b.t {
			return V{}
		}
		switch a.t.kind {
		case KMap, KSlice, KFunc:
			m.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return m.eqV(a.v, b.v, a.t)
	case KStruct:
		r := m.b.tTrue
		a, b := m.aggCells(x, t.size), m.aggCells(y, t.size)
		for _, f := range t.fields {
			var p, q V
			if f.t.agg() {
				p, q = V{p: &Agg{c: a[f.off : f.off+f.t.size]}}, V{p: &Agg{c: b[f.off : f.off+f.t.size]}}
			} else {
				p, q = a[f.off], b[f.off]
			}
			r = m.b.And(r, m.ex(m.eqV(p, q, f.t), 0))
		}
		return m.val(r)
	case KArray:
		r := m.b.tTrue
		a, b := m.aggCells(x, t.size), m.aggCells(y, t.size)
		es := t.elem.size
		for i := 0; i < t.n; i++ {
			var p, q V
			if t.elem.agg() {
				p, q = V{p: &Agg{c: a[i*es : (i+1)*es]}}, V{p: &Agg{c: b[i*es : (i+1)*es]}}
			} else {
				p, q = a[i], b[i]
			}
			r = m.b.And(r, m.ex(m.eqV(p, q, t.elem), 0))
		}
		return m.val(r)
	}
	m.unsupported("eq on %v", t)
	return V{}
}

func (m *M) slice(in *Ins, x V, lo, hi, max *V) V {
	l := 0
	if lo != nil {
		l = m.cint(*lo)
	}
	switch {
	case in.t.kind == KString:
		s := x.str()
		h := s.len()
		if hi != nil {
			h = m.cint(*hi)
		}
		if h < 0 || h > s.len() {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, s.len()))
		}
		if l < 0 || l > h {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		return m.substr(s, l, h)
	case in.t.kind == KPtr:
		if x.p == nil {
			m.badPtr(x)
		}
		n := in.t2.n
		h, c := n, n
		if hi != nil {
			h = m.cint(*hi)
		}
		if max != nil {
			c = m.cint(*max)
		}
		if h < 0 || h > n || l < 0 || l > h || c > n || h > c {
			m.rtPanic("slice bounds out of range")
		}
		return V{p: &Slice{o: x.p.(*Obj), off: int(x.n) + l*in.t2.elem.size, len: h - l, cap: c - l}}
	}
	s, _ := x.p.(*Slice)
	if s == nil {
		h, c := 0, 0
		if hi != nil {
			h = m.cint(*hi)
		}
		if max != nil {
			c = m.cint(*max)
		}
		if l != 0 || h != 0 || c != 0 {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity 0", l, h))
		}
		return V{}
	}
	h, c := s.len, s.cap
	if hi != nil {
		h = m.cint(*hi)
	}
	if max != nil {
		c = m.cint(*max)
	}
	if c > s.cap || c < 0 || h < 0 || h > c || l < 0 || l > h {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, s.cap))
	}
	return V{p: &Slice{o: s.o, off: s.off + l*in.t2.size, len: h - l, cap: c - l}}
}

func (m *M) next(it *MapIter) V {
	if it.isStr {
		n := it.str.len()
		if it.i >= n {
			return V{p: &Agg{c: []V{{}, {}, {}}}}
		}
		pos := it.i
		r, sz := m.decodeRune(it.str, pos)
		it.i += sz
		return V{p: &Agg{c: []V{{n: 1}, intV(pos), r}}}
	}
	for it.pos < len(it.order) {
		i := it.order[it.pos]
		it.pos++
		if i < len(it.m.ents) {
			e := &it.m.ents[i]
			if e.del {
				continue
			}
			return V{p: &Agg{c: []V{{n: 1}, e.k, e.v}}}
		}
	}
	return V{p: &Agg{c: []V{{}, {}, {}}}}
}

func (m *M) typeAssert(in *Ins, x V) V {
	ok := false
	var r V
	if x.p != nil {
		i, isI := x.p.(*Iface)
		if !isI {
			m.unsupported("type assert on %T", x.p)
		}
		if in.n == 1 {
			if c, hit := in.cache.Load(i.t); hit {
				ok = c.(bool)
			} else {
				if i.t == m.eng.rtErrType {
					ok = true
				} else {
					ok = types.Implements(i.t.t, in.t.t.Underlying().(*types.Interface))
				}
				in.cache.Store(i.t, ok)
			}
			r = x
		} else {
			ok = i.t == in.t
			r = i.v
		}
	}
	if !ok {
		r = V{}
	}
	if in.commaOk {
		return V{p: &Agg{c: []V{r, boolV(ok)}}}
	}
	if !ok {
		have := "nil"
		if x.p != nil {
			have = x.p.(*Iface).t.String()
		}
		m.goPanic(V{p: &Iface{t: m.eng.rtErrType, v: str("interface conversion: interface is " + have + ", not " + in.t.String())}})
	}
	return r
}

func (m *M) convert(x V, from, to *RType) V {
	switch {
	case from.kind == KInt && to.kind == KInt:
		if x.p == nil {
			n := x.n
			if to.w > from.w && from.signed {
				n = uint64(sext(n, from.w))
			}
			return V{n: n & mask(to.w)}
		}
		e := x.p.(*Expr)
		switch {
		case to.w < from.w:
			e = m.b.Trunc(e, to.w)
		case to.w > from.w && from.signed:
			e = m.b.Sext(e, to.w)
		case to.w > from.w:
			e = m.b.Zext(e, to.w)
		}
		return m.val(e)
	case from.kind == KInt && to.kind == KFloat:
		if x.p != nil {
			return m.val(m.b.Tok("i2f", 64, []*Expr{x.p.(*Expr)}))
		}
		var f float64
		if from.signed {
			f = float64(sext(x.n, from.w))
		} else {
			f = float64(x.n)
		}
		if to.w == 32 {
			f = float64(float32(f))
		}
		return V{n: math.Float64bits(f)}
	case from.kind == KFloat && to.kind == KInt:
		if x.p != nil {
			m.unsupported("float to int of symbolic")
		}
		if to.signed {
			return V{n: uint64(int64(x.f64())) & mask(to.w)}
		}
		return V{n: uint64(x.f64()) & mask(to.w)}
	case from.kind == KFloat && to.kind == KFloat:
		if x.p != nil {
			return x
		}
		if to.w == 32 {
			return V{n: math.Float64bits(float64(float32(x.f64())))}
		}
		return x
	case from.kind == KInt && to.kind == KString:
		return m.runeStr(x, from)
	case from.kind == KString && to.kind == KSlice:
		s := x.str()
		if to.elem.kind == KInt && to.elem.w == 8 {
			n := s.len()
			o := m.newObj(n, "bytes")
			if n > 0 {
				cells := make([]V, n)
				for i := 0; i < n; i++ {
					if s.b != nil {
						cells[i] = m.val(s.b[i])
					} else {
						cells[i] = V{n: uint64(s.s[i])}
					}
				}
				o.c = cells
			}
			return V{p: &Slice{o: o, len: n, cap: n}}
		}
		// []rune
		var cells []V
		for i := 0; i < s.len(); {
			r, sz := m.decodeRune(s, i)
			cells = append(cells, r)
			i += sz
		}
		o := m.newObj(len(cells), "runes")
		o.c = cells
		return V{p: &Slice{o: o, len: len(cells), cap: len(cells)}}
	case from.kind == KSlice && to.kind == KString:
		s, _ := x.p.(*Slice)
		if s == nil {
			return V{}
		}
		if from.elem.w == 8 {
			return m.bytesToStr(s.o, s.off, s.len)
		}
		r := V{}
		for i := 0; i < s.len; i++ {
			r = m.concat(r, m.runeStr(s.o.get(s.off+i), from.elem))
		}
		return r
	case from.kind == KString && to.kind == KString, from.kind == to.kind && from.kind != KInt:
		return x
	case to.kind == KPtr || from.kind == KPtr:
		if to.kind == KInt {
			if x.p == nil {
				return V{n: x.n}
			}
			return x // uintptr carrying a pointer
		}
		return x
	}
	m.unsupported("convert %v -> %v", from, to)
	return V{}
}

func (m *M) bytesToStr(o *Obj, off, n int) V {
	if n == 0 {
		return V{}
	}
	if m.mon != nil && o.gen < m.gen {
		m.mon.read(m, o, off, n)
	}
	bs := make([]byte, n)
	for i := 0; i < n; i++ {
		v := o.get(off + i)
		if v.p != nil {
			b := make([]*Expr, n)
			for j := 0; j < n; j++ {
				b[j] = m.ex(o.get(off+j), 8)
			}
			return m.mkStr(b)
		}
		bs[i] = byte(v.n)
	}
	return V{p: &Str{s: string(bs)}}
}

func (m *M) builtin(in *Ins, args []V) V {
	switch in.name {
	case "len":
		return intV(m.length(args[0], in.t))
	case "cap":
		if s, ok := args[0].p.(*Slice); ok {
			return intV(s.cap)
		}
		if in.t.kind == KPtr {
			return intV(in.t.elem.n)
		}
		return intV(in.t.n)
	case "append":
		return m.appendV(in, args)
	case "copy":
		d, _ := args[0].p.(*Slice)
		if d == nil {
			return V{}
		}
		if in.t2.kind == KString {
			s := args[1].str()
			n := min(d.len, s.len())
			b := m.sbytes(s)
			for i := 0; i < n; i++ {
				m.setCell(d.o, d.off+i, m.val(b[i]))
			}
			return intV(n)
		}
		s, _ := args[1].p.(*Slice)
		if s == nil {
			return V{}
		}
		n := min(d.len, s.len)
		es := in.t.elem.size
		m.copyCells(d.o, d.off, s.o, s.off, n*es)
		return intV(n)
	case "delete":
		mp, _ := args[0].p.(*Map)
		m.mapDelete(mp, args[1])
		return V{}
	case "clear":
		switch c := args[0].p.(type) {
		case *Map:
			m.mapTouch(c)
			c.idx, c.ents, c.live, c.nsym = map[string]int{}, nil, 0, 0
		case *Slice:
			for i := 0; i < c.len*in.t.elem.size; i++ {
				m.setCell(c.o, c.off+i, V{})
			}
		}
		return V{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var less V
			li := *in
			li.tok = token.LSS
			li.w, li.sg = in.t.w, in.t.signed
			switch in.t.kind {
			case KInt:
				if a.p == nil && r.p == nil {
					less = m.binConc(&li, a.n, r.n)
				} else {
					less = m.binSym(&li, a, r)
				}
			case KFloat:
				less = m.binFloat(&li, a, r)
			case KString:
				less = m.binStr(token.LSS, a, r)
			}
			if m.cbool(less) == (in.name == "min") {
				r = a
			}
		}
		return r
	case "print", "println":
		return V{}
	case "panic":
		m.goPanic(args[0])
	case "String": // unsafe.String
		n := m.cint(args[1])
		if n == 0 {
			return V{}
		}
		return m.bytesToStr(args[0].p.(*Obj), int(args[0].n), n)
	case "StringData":
		s := args[0].str()
		o := m.newObj(s.len(), "strdata")
		for i, e := range m.sbytes(s) {
			m.setCell(o, i, m.val(e))
		}
		return V{p: o}
	case "SliceData":
		s, _ := args[0].p.(*Slice)
		if s == nil {
			return V{}
		}
		return V{p: s.o, n: uint64(s.off)}
	case "Slice":
		n := m.cint(args[1])
		if args[0].p == nil {
			return V{}
		}
		o := args[0].p.(*Obj)
		return V{p: &Slice{o: o, off: int(args[0].n), len: n, cap: n}}
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "recover":
		return m.recover()
	}
	m.unsupported("builtin %s", in.name)
	return V{}
}

func (m *M) length(x V, t *RType) int {
	switch t.kind {
	case KString:
		return x.str().len()
	case KSlice:
		if x.p == nil {
			return 0
		}
		return x.p.(*Slice).len
	case KMap:
		if x.p == nil {
			return 0
		}
		mp := x.p.(*Map)
		if m.mon != nil && mp.gen < m.gen {
			m.mon.readMap(m, mp)
		}
		return mp.live
	case KArray:
		return t.n
	case KPtr:
		return t.elem.n
	}
	m.unsupported("len of %v", t)
	return 0
}

func (m *M) appendV(in *Ins, args []V) V {
	s, _ := args[0].p.(*Slice)
	var add []V
	es := in.t.elem.size
	var n int
	if in.t2.kind == KString {
		b := m.sbytes(args[1].str())
		n = len(b)
		add = make([]V, n)
		for i, e := range b {
			add[i] = m.val(e)
		}
	} else {
		s2, _ := args[1].p.(*Slice)
		if s2 == nil || s2.len == 0 {
			return args[0]
		}
		n = s2.len
		if m.mon != nil && s2.o.gen < m.gen {
			m.mon.read(m, s2.o, s2.off, n*es)
		}
		add = make([]V, n*es)
		if s2.off < len(s2.o.c) {
			copy(add, s2.o.c[s2.off:])
		}
	}
	if n == 0 {
		return args[0]
	}
	if s == nil {
		c := growCap(0, n)
		o := m.newObj(c*es, "append")
		m.storeCells(o, 0, add)
		return V{p: &Slice{o: o, len: n, cap: c}}
	}
	if s.len+n <= s.cap {
		m.storeCells(s.o, s.off+s.len*es, add)
		return V{p: &Slice{o: s.o, off: s.off, len: s.len + n, cap: s.cap}}
	}
	c := growCap(s.cap, s.len+n)
	o := m.newObj(c*es, "append")
	if m.mon != nil && s.o.gen < m.gen {
		m.mon.read(m, s.o, s.off, s.len*es)
	}
	tmp := make([]V, s.len*es, (s.len+n)*es)
	if s.off < len(s.o.c) {
		copy(tmp, s.o.c[s.off:])
	}
	tmp = append(tmp, add...)
	o.c = tmp
	return V{p: &Slice{o: o, len: s.len + n, cap: c}}
}

func growCap(old, need int) int {
	c := old
	if need > 2*old {
		return need
	}
	if old < 256 {
		c = 2 * old
	} else {
		for c < need {
			c += (c + 3*256) / 4
		}
	}
	if c < need {
		c = need
	}
	return c
}

var _ = runtime.GC
var _ ssa.Value
