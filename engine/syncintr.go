package main

import "go/types"

// Summaries of sync/atomic, sync.Map and sync.Pool (sync.Once and the locks are in
// intrinsics.go).

func (m *M) atomicOp(p V, write bool, f func(old V) (V, bool, V)) V {
	o, ok := p.p.(*Obj)
	if !ok {
		m.badPtr(p)
	}
	i := int(p.n)
	mon := m.mon
	if mon != nil {
		mon.atomic(m, o, i, write)
	}
	m.mon = nil
	nv, set, r := f(o.get(i))
	if set {
		m.setCell(o, i, nv)
	}
	m.mon = mon
	if set && mon != nil && o.gen < m.gen {
		m.publish(nv)
	}
	return r
}

func (m *M) syncMap(p V, write bool, f func(mp *Map) V) V {
	return m.atomicOp(p, write, func(old V) (V, bool, V) {
		mp, _ := old.p.(*Map)
		set := false
		if mp == nil {
			any := types.NewInterfaceType(nil, nil)
			mp = m.newMap(m.eng.types.get(types.NewMap(any, any)))
			set = true
		}
		r := f(mp)
		return V{p: mp}, set, r
	})
}

func syncIntrinsics() {
	in := func(n string, f func(m *M, a []V) V) { intrinsics[n] = f }
	for n, w := range map[string]uint8{"Int32": 32, "Int64": 64, "Uint32": 32, "Uint64": 64, "Uintptr": 64, "Pointer": 0} {
		in("sync/atomic.Load"+n, func(m *M, a []V) V {
			return m.atomicOp(a[0], false, func(old V) (V, bool, V) { return V{}, false, old })
		})
		in("sync/atomic.Store"+n, func(m *M, a []V) V {
			return m.atomicOp(a[0], true, func(old V) (V, bool, V) { return a[1], true, V{} })
		})
		in("sync/atomic.Swap"+n, func(m *M, a []V) V {
			return m.atomicOp(a[0], true, func(old V) (V, bool, V) { return a[1], true, old })
		})
		in("sync/atomic.CompareAndSwap"+n, func(m *M, a []V) V {
			return m.atomicOp(a[0], true, func(old V) (V, bool, V) {
				eq := false
				if w == 0 {
					eq = old.p == a[1].p && old.n == a[1].n
				} else {
					eq = m.decide(m.b.Eq(m.ex(old, w), m.ex(a[1], w)))
				}
				return a[2], eq, boolV(eq)
			})
		})
		if w > 0 {
			in("sync/atomic.Add"+n, func(m *M, a []V) V {
				return m.atomicOp(a[0], true, func(old V) (V, bool, V) {
					r := m.val(m.b.Bin(OAdd, m.ex(old, w), m.ex(a[1], w)))
					return r, true, r
				})
			})
		}
	}
	in("(*sync/atomic.Value).Load", intrinsics["sync/atomic.LoadPointer"])
	in("(*sync/atomic.Value).Store", intrinsics["sync/atomic.StorePointer"])
	in("(*sync/atomic.Value).Swap", intrinsics["sync/atomic.SwapPointer"])

	in("(*sync.Map).Load", func(m *M, a []V) V {
		return m.syncMap(a[0], false, func(mp *Map) V {
			v, ok := m.mapGet(mp, a[1])
			return tup(v, boolV(ok))
		})
	})
	in("(*sync.Map).Store", func(m *M, a []V) V {
		if m.mon != nil {
			m.publish(a[2])
		}
		return m.syncMap(a[0], true, func(mp *Map) V { m.mapSet(mp, a[1], a[2]); return V{} })
	})
	in("(*sync.Map).LoadOrStore", func(m *M, a []V) V {
		if m.mon != nil {
			m.publish(a[2])
		}
		return m.syncMap(a[0], true, func(mp *Map) V {
			if v, ok := m.mapGet(mp, a[1]); ok {
				return tup(v, V{n: 1})
			}
			m.mapSet(mp, a[1], a[2])
			return tup(a[2], V{})
		})
	})
	in("(*sync.Map).LoadAndDelete", func(m *M, a []V) V {
		return m.syncMap(a[0], true, func(mp *Map) V {
			v, ok := m.mapGet(mp, a[1])
			m.mapDelete(mp, a[1])
			return tup(v, boolV(ok))
		})
	})
	in("(*sync.Map).Delete", func(m *M, a []V) V {
		return m.syncMap(a[0], true, func(mp *Map) V { m.mapDelete(mp, a[1]); return V{} })
	})
	in("(*sync.Map).Range", func(m *M, a []V) V {
		var es []ment
		m.syncMap(a[0], false, func(mp *Map) V {
			for _, i := range m.mapOrder(mp) {
				es = append(es, mp.ents[i])
			}
			return V{}
		})
		for _, e := range es {
			if !m.cbool(m.callV(a[1], []V{e.k, e.v})) {
				break
			}
		}
		return V{}
	})

	// A pool may hand out any item put back before, or none. Calls after one another get the
	// item put back last; while threads are recorded every thread gets new ones.
	in("(*sync.Pool).Get", func(m *M, a []V) V {
		if m.mon == nil {
			got := false
			r := m.atomicOp(a[0], true, func(old V) (V, bool, V) {
				l, _ := old.p.(*Agg)
				if l == nil || len(l.c) == 0 {
					return V{}, false, V{}
				}
				got = true
				n := len(l.c) - 1
				return V{p: &Agg{c: append([]V{}, l.c[:n]...)}}, true, l.c[n]
			})
			if got {
				return r
			}
		}
		o := a[0].p.(*Obj)
		pt := m.eng.types.get(m.eng.prog.ImportedPackage("sync").Type("Pool").Type())
		for _, f := range pt.fields {
			if f.name == "New" {
				if fn := m.load(o, int(a[0].n)+f.off, f.t); fn.p != nil {
					return m.callV(fn, nil)
				}
			}
		}
		return V{}
	})
	in("(*sync.Pool).Put", func(m *M, a []V) V {
		if m.mon != nil || a[1].p == nil {
			return V{}
		}
		return m.atomicOp(a[0], true, func(old V) (V, bool, V) {
			l, _ := old.p.(*Agg)
			var c []V
			if l != nil {
				c = append(c, l.c...)
			}
			return V{p: &Agg{c: append(c, a[1])}}, true, V{}
		})
	})
}
