package main

import "math/bits"

// Linear normal form of bit-vector expressions modulo 2^w, used to decide equalities of
// sums of digits without bit-blasting. A sum is a constant, one table per 8-bit variable
// and multiples of other terms. Every step is exact: sums in a narrower width are opened
// only where the intervals show that they do not wrap.
type linForm struct {
	w  uint8
	c  uint64
	f  map[uint64]*[256]uint64
	at map[*Expr]uint64
	n  int
}

func (m *M) linAdd(l *linForm, e *Expr, k uint64, d int) {
	l.n++
	exact := e.w >= l.w // ring operations of this width agree with those modulo 2^w
	if d > 64 || l.n > 4000 {
		l.atom(m, e, k)
		return
	}
	hi := func(x *Expr) (uint64, bool) {
		v, ok := m.ival(x, 0)
		return v.hi, ok
	}
	switch e.op {
	case OConst:
		l.c += k * e.val
		return
	case OUni:
		t := l.f[e.val]
		if t == nil {
			t = new([256]uint64)
			l.f[e.val] = t
		}
		for i := range t {
			t[i] += k * e.tbl.vals[i]
		}
		return
	case OAdd:
		ok := exact
		if !ok {
			a, o1 := hi(e.a)
			b, o2 := hi(e.b)
			s, c := bits.Add64(a, b, 0)
			ok = o1 && o2 && c == 0 && s <= mask(e.w)
		}
		if ok {
			m.linAdd(l, e.a, k, d+1)
			m.linAdd(l, e.b, k, d+1)
			return
		}
	case OSub:
		if exact {
			m.linAdd(l, e.a, k, d+1)
			m.linAdd(l, e.b, -k, d+1)
			return
		}
	case OMul:
		a, b := e.a, e.b
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			ok := exact
			if !ok {
				h, o := hi(a)
				x, y := bits.Mul64(h, b.val)
				ok = o && x == 0 && y <= mask(e.w)
			}
			if ok {
				m.linAdd(l, a, k*b.val, d+1)
				return
			}
		}
	case OShl:
		if e.b.isConst() && e.b.val < uint64(e.w) {
			ok := exact
			if !ok {
				h, o := hi(e.a)
				ok = o && bits.Len64(h)+int(e.b.val) <= int(e.w)
			}
			if ok {
				m.linAdd(l, e.a, k<<e.b.val, d+1)
				return
			}
		}
	case OZext:
		m.linAdd(l, e.a, k, d+1)
		return
	case OSext:
		if e.a.w >= l.w {
			m.linAdd(l, e.a, k, d+1)
			return
		}
		if h, o := hi(e.a); o && h <= mask(e.a.w)>>1 {
			m.linAdd(l, e.a, k, d+1)
			return
		}
	case OTrunc:
		if exact {
			m.linAdd(l, e.a, k, d+1)
			return
		}
		if h, o := hi(e.a); o && h <= mask(e.w) {
			m.linAdd(l, e.a, k, d+1)
			return
		}
	case OBand:
		a, b := e.a, e.b
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val&(b.val+1) == 0 {
			if h, o := hi(a); o && h <= b.val {
				m.linAdd(l, a, k, d+1)
				return
			}
		}
	}
	l.atom(m, e, k)
}

func (l *linForm) atom(m *M, e *Expr, k uint64) {
	if e.w < l.w {
		e = m.b.Zext(e, l.w)
	} else if e.w > l.w {
		e = m.b.Trunc(e, l.w)
	}
	l.at[e] += k
}

// linEq decides a == b by their linear forms: 1 equal, 0 different, -1 not decided
func (m *M) linEq(a, b *Expr) int {
	l := &linForm{w: a.w, f: map[uint64]*[256]uint64{}, at: map[*Expr]uint64{}}
	m.linAdd(l, a, 1, 0)
	m.linAdd(l, b, ^uint64(0), 0)
	mk := mask(a.w)
	for _, k := range l.at {
		if k&mk != 0 {
			return -1
		}
	}
	c := l.c
	for v, t := range l.f {
		dm := &m.dom[v]
		first, have := uint64(0), false
		for w := 0; w < 4; w++ {
			for x := dm[w]; x != 0; x &= x - 1 {
				y := t[w*64+bits.TrailingZeros64(x)] & mk
				if have && y != first {
					return -1
				}
				first, have = y, true
			}
		}
		c += first
	}
	if c&mk == 0 {
		return 1
	}
	return 0
}

func (m *M) linEq0(c *Expr) int {
	if c.a.w < 16 || c.a.isConst() || c.b.isConst() {
		return -1
	}
	return m.linEq(c.a, c.b)
}
