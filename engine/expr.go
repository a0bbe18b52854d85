package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Expressions are hash-consed per machine. w==0 means Bool.
type Op uint8

const (
	OConst Op = iota
	OVar      // wide variable (val = var index)
	OUni      // value of table tbl at 8-bit variable val
	OIn       // 8-bit variable val is in set (Bool)
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OSlt
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBand
	OBor
	OXor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OTrunc
	OTab // table lookup by 8-bit expression a (tbl)
	OTok // uninterpreted token: function name in tok, args
)

var opNames = [...]string{"const", "var", "uni", "in", "not", "and", "or", "eq", "ult", "slt", "ite", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "band", "bor", "xor", "shl", "lshr", "ashr", "zext", "sext", "trunc", "tab", "tok"}

type Set [4]uint64

func (s *Set) has(i uint64) bool { return s[(i>>6)&3]>>(i&63)&1 != 0 }
func (s *Set) add(i uint64)      { s[(i>>6)&3] |= 1 << (i & 63) }
func (s Set) and(t Set) Set {
	return Set{s[0] & t[0], s[1] & t[1], s[2] & t[2], s[3] & t[3]}
}
func (s Set) or(t Set) Set { return Set{s[0] | t[0], s[1] | t[1], s[2] | t[2], s[3] | t[3]} }
func (s Set) not() Set     { return Set{^s[0], ^s[1], ^s[2], ^s[3]} }
func (s Set) empty() bool  { return s[0]|s[1]|s[2]|s[3] == 0 }
func (s Set) count() int {
	return bits.OnesCount64(s[0]) + bits.OnesCount64(s[1]) + bits.OnesCount64(s[2]) + bits.OnesCount64(s[3])
}
func (s Set) first() uint64 {
	for i := 0; i < 4; i++ {
		if s[i] != 0 {
			return uint64(i*64 + bits.TrailingZeros64(s[i]))
		}
	}
	return 0
}

type Table struct {
	id   int
	h    uint64
	w    uint8
	vals [256]uint64
	inj  bool
	sent bool
}

type Expr struct {
	op      Op
	w       uint8
	val     uint64
	a, b, c *Expr
	set     Set
	tbl     *Table
	tok     string
	args    []*Expr
	id      uint32
	h       uint64 // structural hash, the same in every builder
	multi   bool   // depends on something other than exactly one 8-bit variable
	sets    *setDef
	stamp   uint32
	mv      uint64
	vs      []int // dependent vars (sorted), computed lazily
	vsDone  bool
}

type setDef struct {
	id   int
	sent bool
}

type ekey struct {
	op      Op
	w       uint8
	a, b, c uint32
	val     uint64
}
type inkey struct {
	v uint64
	s Set
}
type tabkey struct {
	op   Op
	w    uint8
	a, b int
	c    uint64
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + h<<6 + h>>2
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	return h
}

type Builder struct {
	ex     map[ekey]*Expr
	ins    map[inkey]*Expr
	toks   map[string]*Expr
	nid    uint32
	tabs   map[[256]uint64][]*Table
	tabIDs []*Table
	tabOps map[tabkey]*Table
	setOps map[tabkey]*Set
	setIDs map[Set]*setDef
	setLst []Set
	tTrue  *Expr
	tFalse *Expr
	stamp  uint32
	ident  *Table
	ntok   int
	bytec  [256]*Expr
}

func newBuilder() *Builder {
	b := &Builder{ex: map[ekey]*Expr{}, ins: map[inkey]*Expr{}, toks: map[string]*Expr{}, tabs: map[[256]uint64][]*Table{},
		tabOps: map[tabkey]*Table{}, setOps: map[tabkey]*Set{}, setIDs: map[Set]*setDef{}}
	b.tTrue = b.mk(ekey{op: OConst, w: 0, val: 1}, nil, nil, nil)
	b.tFalse = b.mk(ekey{op: OConst, w: 0, val: 0}, nil, nil, nil)
	var id [256]uint64
	for i := range id {
		id[i] = uint64(i)
	}
	b.ident = b.table(8, &id)
	for i := range b.bytec {
		b.bytec[i] = b.Const(8, uint64(i))
	}
	return b
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (b *Builder) mk(k ekey, x, y, z *Expr) *Expr {
	if x != nil {
		k.a = x.id + 1
	}
	if y != nil {
		k.b = y.id + 1
	}
	if z != nil {
		k.c = z.id + 1
	}
	if e, ok := b.ex[k]; ok {
		return e
	}
	e := &Expr{op: k.op, w: k.w, val: k.val, a: x, b: y, c: z, id: b.nid, multi: k.op != OConst}
	e.h = mix(mix(uint64(k.op)<<8|uint64(k.w), k.val), 0)
	if k.op == OTab {
		e.h = mix(uint64(k.op)<<8|uint64(k.w), b.tabIDs[k.val].h)
	}
	for _, s := range [...]*Expr{x, y, z} {
		if s != nil {
			e.h = mix(e.h, s.h)
		}
	}
	b.nid++
	b.ex[k] = e
	return e
}

func (b *Builder) Const(w uint8, v uint64) *Expr {
	return b.mk(ekey{op: OConst, w: w, val: v & mask(w)}, nil, nil, nil)
}
func (b *Builder) Bool(v bool) *Expr {
	if v {
		return b.tTrue
	}
	return b.tFalse
}

func (b *Builder) table(w uint8, vals *[256]uint64) *Table {
	for _, t := range b.tabs[*vals] {
		if t.w == w {
			return t
		}
	}
	t := &Table{id: len(b.tabIDs), w: w, vals: *vals, h: uint64(w)}
	for _, v := range vals {
		t.h = mix(t.h, v)
	}
	seen := map[uint64]bool{}
	t.inj = true
	for _, v := range vals {
		if seen[v] {
			t.inj = false
			break
		}
		seen[v] = true
	}
	b.tabs[*vals] = append(b.tabs[*vals], t)
	b.tabIDs = append(b.tabIDs, t)
	return t
}

// Uni: the value of t at 8-bit variable v
func (b *Builder) Uni(v uint64, t *Table) *Expr {
	c := true
	for i := 1; i < 256; i++ {
		if t.vals[i] != t.vals[0] {
			c = false
			break
		}
	}
	if c {
		return b.Const(t.w, t.vals[0])
	}
	k := ekey{op: OUni, w: t.w, val: v, a: uint32(t.id)}
	if e, ok := b.ex[k]; ok {
		return e
	}
	e := &Expr{op: OUni, w: t.w, val: v, tbl: t, id: b.nid, h: mix(mix(uint64(OUni), v), t.h)}
	b.nid++
	b.ex[k] = e
	return e
}

func (b *Builder) ByteVar(v int) *Expr { return b.Uni(uint64(v), b.ident) }

func (b *Builder) In(v uint64, s Set) *Expr {
	if s.empty() {
		return b.tFalse
	}
	if s.not().empty() {
		return b.tTrue
	}
	k := inkey{v, s}
	if e, ok := b.ins[k]; ok {
		return e
	}
	sd := b.setIDs[s]
	if sd == nil {
		sd = &setDef{id: len(b.setLst)}
		b.setIDs[s] = sd
		b.setLst = append(b.setLst, s)
	}
	e := &Expr{op: OIn, w: 0, val: v, set: s, id: b.nid, sets: sd}
	e.h = mix(mix(mix(mix(mix(uint64(OIn), v), s[0]), s[1]), s[2]), s[3])
	b.nid++
	b.ins[k] = e
	return e
}

func (b *Builder) WideVar(v int, w uint8) *Expr {
	return b.mk(ekey{op: OVar, w: w, val: uint64(v)}, nil, nil, nil)
}

func (e *Expr) isConst() bool { return e.op == OConst }

func evalBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUdiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSdiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m, true
			}
			return 1, true
		}
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OSrem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OBand:
		return x & y, true
	case OBor:
		return x | y, true
	case OXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m, true
	}
	return 0, false
}

func evalCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OEq:
		return x == y
	case OUlt:
		return x < y
	case OSlt:
		return sext(x, w) < sext(y, w)
	}
	panic("cmp")
}

// tables of single-variable operands
func (b *Builder) uniOf(e *Expr, v *uint64, have *bool) (tid int, get func(i int) uint64, ok bool) {
	switch e.op {
	case OConst:
		c := e.val
		return -1, func(int) uint64 { return c }, true
	case OUni:
		if *have && *v != e.val {
			return 0, nil, false
		}
		*v, *have = e.val, true
		t := e.tbl
		return t.id, func(i int) uint64 { return t.vals[i] }, true
	}
	return 0, nil, false
}

func (b *Builder) Bin(op Op, x, y *Expr) *Expr {
	w := x.w
	if x.w != y.w {
		panic(fmt.Sprintf("width mismatch %s %d %d", opNames[op], x.w, y.w))
	}
	if x.isConst() && y.isConst() {
		r, _ := evalBin(op, w, x.val, y.val)
		return b.Const(w, r)
	}
	// identities
	if y.isConst() {
		switch op {
		case OAdd, OSub, OBor, OXor, OShl, OLshr, OAshr:
			if y.val == 0 {
				return x
			}
		case OMul:
			if y.val == 1 {
				return x
			}
			if y.val == 0 {
				return y
			}
		case OBand:
			if y.val == 0 {
				return y
			}
			if y.val == mask(w) {
				return x
			}
		case OUdiv, OSdiv:
			if y.val == 1 {
				return x
			}
		}
		if op == OSub {
			return b.Bin(OAdd, x, b.Const(w, -y.val&mask(w)))
		}
		if op == OAdd && x.op == OAdd && x.b.isConst() {
			return b.Bin(OAdd, x.a, b.Const(w, x.b.val+y.val))
		}
		if op == OAdd && x.op == OAdd && x.b.op == OUni {
			return b.Bin(OAdd, x.a, b.Bin(OAdd, x.b, y)) // keeps digit tables small and unsigned
		}
	} else if x.isConst() {
		switch op {
		case OAdd, OMul, OBand, OBor, OXor:
			return b.Bin(op, y, x)
		}
	}
	if x == y {
		switch op {
		case OSub, OXor:
			return b.Const(w, 0)
		case OBand, OBor:
			return x
		}
	}
	var v uint64
	var have bool
	if ta, fa, ok := b.uniOf(x, &v, &have); ok {
		if tb, fb, ok := b.uniOf(y, &v, &have); ok {
			k := tabkey{op: op, w: w, a: ta, b: tb}
			if ta < 0 {
				k.c = x.val
			} else if tb < 0 {
				k.c = y.val
			}
			t := b.tabOps[k]
			if t == nil {
				var vals [256]uint64
				for i := range vals {
					vals[i], _ = evalBin(op, w, fa(i), fb(i))
				}
				t = b.table(w, &vals)
				b.tabOps[k] = t
			}
			return b.Uni(v, t)
		}
	}
	return b.mk(ekey{op: op, w: w}, x, y, nil)
}

func (b *Builder) Cmp(op Op, x, y *Expr) *Expr {
	if x.w != y.w {
		panic(fmt.Sprintf("width mismatch %s %d %d", opNames[op], x.w, y.w))
	}
	w := x.w
	if x == y {
		return b.Bool(op == OEq)
	}
	if x.isConst() && y.isConst() {
		return b.Bool(evalCmp(op, w, x.val, y.val))
	}
	if w == 0 { // bool equality
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.val == 1 {
				return x
			}
			return b.Not(x)
		}
		return b.Or(b.And(x, y), b.And(b.Not(x), b.Not(y)))
	}
	if op == OEq && x.isConst() {
		x, y = y, x
	}
	var v uint64
	var have bool
	if ta, fa, ok := b.uniOf(x, &v, &have); ok {
		if tb, fb, ok := b.uniOf(y, &v, &have); ok {
			k := tabkey{op: op, w: w, a: ta, b: tb}
			if ta < 0 {
				k.c = x.val
			} else if tb < 0 {
				k.c = y.val
			}
			s := b.setOps[k]
			if s == nil {
				s = new(Set)
				for i := 0; i < 256; i++ {
					if evalCmp(op, w, fa(i), fb(i)) {
						s.add(uint64(i))
					}
				}
				b.setOps[k] = s
			}
			return b.In(v, *s)
		}
	}
	if op == OEq {
		// zext/sext and injective tables
		if y.isConst() {
			switch x.op {
			case OZext:
				if y.val > mask(x.a.w) {
					return b.tFalse
				}
				return b.Cmp(OEq, x.a, b.Const(x.a.w, y.val))
			case OIte:
				if x.b.isConst() || x.c.isConst() {
					return b.IteB(x.a, b.Cmp(OEq, x.b, y), b.Cmp(OEq, x.c, y))
				}
			case OTab:
				var s []uint64
				for i, tv := range x.tbl.vals {
					if tv == y.val && uint64(i) <= mask(x.a.w) {
						s = append(s, uint64(i))
					}
				}
				if len(s) <= 2 {
					r := b.tFalse
					for _, i := range s {
						r = b.Or(r, b.Cmp(OEq, x.a, b.Const(x.a.w, i)))
					}
					return r
				}
			case OAdd:
				if x.b.isConst() {
					return b.Cmp(OEq, x.a, b.Const(w, y.val-x.b.val))
				}
			}
		}
		if x.op == OTab && y.op == OTab && x.tbl == y.tbl && x.tbl.inj {
			return b.Cmp(OEq, x.a, y.a)
		}
		if x.op == OZext && y.op == OZext && x.a.w == y.a.w {
			return b.Cmp(OEq, x.a, y.a)
		}
		if x.op == OTok || y.op == OTok {
			if x.op == OTok && y.op == OTok && x.tok == y.tok && len(x.args) == len(y.args) {
				r := b.tTrue
				for i := range x.args {
					if x.args[i].w != y.args[i].w {
						r = nil
						break
					}
					r = b.And(r, b.Cmp(OEq, x.args[i], y.args[i]))
				}
				if r == b.tTrue {
					return r
				}
			}
		}
		if x.h > y.h && !y.isConst() {
			x, y = y, x
		}
	}
	if op == OUlt && y.isConst() && y.val == 0 {
		return b.tFalse
	}
	return b.mk(ekey{op: op, w: 0}, x, y, nil)
}

func (b *Builder) Eq(x, y *Expr) *Expr { return b.Cmp(OEq, x, y) }

func (b *Builder) Not(x *Expr) *Expr {
	switch x.op {
	case OConst:
		return b.Bool(x.val == 0)
	case ONot:
		return x.a
	case OIn:
		return b.In(x.val, x.set.not())
	case OAnd:
		return b.mkBool(OOr, b.Not(x.a), b.Not(x.b))
	case OOr:
		return b.mkBool(OAnd, b.Not(x.a), b.Not(x.b))
	}
	return b.mk(ekey{op: ONot}, x, nil, nil)
}

func (b *Builder) mkBool(op Op, x, y *Expr) *Expr {
	if x.h > y.h {
		x, y = y, x
	}
	return b.mk(ekey{op: op}, x, y, nil)
}

func (b *Builder) And(x, y *Expr) *Expr {
	if x == y || y == b.tTrue {
		return x
	}
	if x == b.tTrue {
		return y
	}
	if x == b.tFalse || y == b.tFalse {
		return b.tFalse
	}
	if x.op == OIn && y.op == OIn && x.val == y.val {
		return b.In(x.val, x.set.and(y.set))
	}
	if b.Not(x) == y {
		return b.tFalse
	}
	// absorb into conjunct on the same variable
	if x.op == OAnd && y.op == OIn {
		if x.a.op == OIn && x.a.val == y.val {
			return b.And(b.And(x.a, y), x.b)
		}
		if x.b.op == OIn && x.b.val == y.val {
			return b.And(x.a, b.And(x.b, y))
		}
	}
	return b.mkBool(OAnd, x, y)
}

func (b *Builder) Or(x, y *Expr) *Expr {
	if x == y || y == b.tFalse {
		return x
	}
	if x == b.tFalse {
		return y
	}
	if x == b.tTrue || y == b.tTrue {
		return b.tTrue
	}
	if x.op == OIn && y.op == OIn && x.val == y.val {
		return b.In(x.val, x.set.or(y.set))
	}
	if b.Not(x) == y {
		return b.tTrue
	}
	if x.op == OOr && y.op == OIn {
		if x.a.op == OIn && x.a.val == y.val {
			return b.Or(b.Or(x.a, y), x.b)
		}
		if x.b.op == OIn && x.b.val == y.val {
			return b.Or(x.a, b.Or(x.b, y))
		}
	}
	return b.mkBool(OOr, x, y)
}

func (b *Builder) IteB(c, x, y *Expr) *Expr {
	if c.isConst() {
		if c.val == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	return b.Or(b.And(c, x), b.And(b.Not(c), y))
}

func (b *Builder) Ite(c, x, y *Expr) *Expr {
	if x.w == 0 {
		return b.IteB(c, x, y)
	}
	if c.isConst() {
		if c.val == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if c.op == OIn {
		v, have := c.val, true
		if _, fa, ok := b.uniOf(x, &v, &have); ok {
			if _, fb, ok := b.uniOf(y, &v, &have); ok {
				var vals [256]uint64
				for i := range vals {
					if c.set.has(uint64(i)) {
						vals[i] = fa(i)
					} else {
						vals[i] = fb(i)
					}
				}
				return b.Uni(v, b.table(x.w, &vals))
			}
		}
	}
	return b.mk(ekey{op: OIte, w: x.w}, c, x, y)
}

func (b *Builder) unTab(op Op, w uint8, t *Table, f func(uint64) uint64) *Table {
	k := tabkey{op: op, w: w, a: t.id, b: -2}
	r := b.tabOps[k]
	if r == nil {
		var vals [256]uint64
		for i := range vals {
			vals[i] = f(t.vals[i])
		}
		r = b.table(w, &vals)
		b.tabOps[k] = r
	}
	return r
}

func (b *Builder) Zext(x *Expr, w uint8) *Expr {
	if x.w == w {
		return x
	}
	switch x.op {
	case OConst:
		return b.Const(w, x.val)
	case OUni:
		return b.Uni(x.val, b.unTab(OZext, w, x.tbl, func(v uint64) uint64 { return v }))
	case OZext:
		return b.Zext(x.a, w)
	}
	return b.mk(ekey{op: OZext, w: w}, x, nil, nil)
}
func (b *Builder) Sext(x *Expr, w uint8) *Expr {
	if x.w == w {
		return x
	}
	sw := x.w
	switch x.op {
	case OConst:
		return b.Const(w, uint64(sext(x.val, sw)))
	case OUni:
		return b.Uni(x.val, b.unTab(OSext, w, x.tbl, func(v uint64) uint64 { return uint64(sext(v, sw)) & mask(w) }))
	case OZext:
		return b.Zext(x.a, w)
	}
	return b.mk(ekey{op: OSext, w: w}, x, nil, nil)
}
func (b *Builder) Trunc(x *Expr, w uint8) *Expr {
	if x.w == w {
		return x
	}
	switch x.op {
	case OConst:
		return b.Const(w, x.val)
	case OUni:
		return b.Uni(x.val, b.unTab(OTrunc, w, x.tbl, func(v uint64) uint64 { return v & mask(w) }))
	case OZext, OSext:
		if x.a.w == w {
			return x.a
		}
		if x.a.w > w {
			return b.Trunc(x.a, w)
		}
		if x.op == OZext {
			return b.Zext(x.a, w)
		}
		return b.Sext(x.a, w)
	}
	return b.mk(ekey{op: OTrunc, w: w}, x, nil, nil)
}

// Tab: table lookup; idx must be a BV of width <= 8
func (b *Builder) Tab(t *Table, idx *Expr) *Expr {
	switch idx.op {
	case OConst:
		return b.Const(t.w, t.vals[idx.val&255])
	case OUni:
		it := idx.tbl
		k := tabkey{op: OTab, w: t.w, a: it.id, b: t.id}
		r := b.tabOps[k]
		if r == nil {
			var vals [256]uint64
			for i := range vals {
				vals[i] = t.vals[it.vals[i]&255]
			}
			r = b.table(t.w, &vals)
			b.tabOps[k] = r
		}
		return b.Uni(idx.val, r)
	}
	k := ekey{op: OTab, w: t.w, val: uint64(t.id)}
	e := b.mk(k, idx, nil, nil)
	e.tbl = t
	return e
}

func (b *Builder) Tok(name string, w uint8, args []*Expr) *Expr {
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	fmt.Fprintf(&sb, ":%d", w)
	if e, ok := b.toks[sb.String()]; ok {
		return e
	}
	e := &Expr{op: OTok, w: w, tok: name, args: args, id: b.nid, multi: true, h: mix(uint64(OTok), uint64(w))}
	for _, c := range name {
		e.h = mix(e.h, uint64(c))
	}
	for _, a := range args {
		e.h = mix(e.h, a.h)
	}
	b.nid++
	b.toks[sb.String()] = e
	return e
}

// ---- evaluation under a model (byte vars and wide vars share the index space) ----

func (b *Builder) Eval(e *Expr, model []uint64) uint64 {
	b.stamp++
	return b.eval(e, model)
}

func mval(model []uint64, i uint64) uint64 {
	if i < uint64(len(model)) {
		return model[i]
	}
	return 0
}

func (b *Builder) eval(e *Expr, m []uint64) uint64 {
	switch e.op {
	case OConst:
		return e.val
	case OUni:
		return e.tbl.vals[mval(m, e.val)&255]
	case OIn:
		if e.set.has(mval(m, e.val)) {
			return 1
		}
		return 0
	case OVar:
		return mval(m, e.val) & mask(e.w)
	}
	if e.stamp == b.stamp {
		return e.mv
	}
	var r uint64
	bl := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	switch e.op {
	case ONot:
		r = 1 - b.eval(e.a, m)
	case OAnd:
		r = b.eval(e.a, m)
		if r == 1 {
			r = b.eval(e.b, m)
		}
	case OOr:
		r = b.eval(e.a, m)
		if r == 0 {
			r = b.eval(e.b, m)
		}
	case OEq, OUlt, OSlt:
		r = bl(evalCmp(e.op, e.a.w, b.eval(e.a, m), b.eval(e.b, m)))
	case OIte:
		if b.eval(e.a, m) == 1 {
			r = b.eval(e.b, m)
		} else {
			r = b.eval(e.c, m)
		}
	case OZext:
		r = b.eval(e.a, m)
	case OSext:
		r = uint64(sext(b.eval(e.a, m), e.a.w)) & mask(e.w)
	case OTrunc:
		r = b.eval(e.a, m) & mask(e.w)
	case OTab:
		r = e.tbl.vals[b.eval(e.a, m)&255]
	case OTok:
		h := uint64(1469598103934665603)
		for _, c := range e.tok {
			h = (h ^ uint64(c)) * 1099511628211
		}
		for _, a := range e.args {
			h = (h ^ b.eval(a, m)) * 1099511628211
		}
		r = h & mask(e.w)
	default:
		r, _ = evalBin(e.op, e.w, b.eval(e.a, m), b.eval(e.b, m))
	}
	e.stamp, e.mv = b.stamp, r
	return r
}

func mergeVars(x, y []int) []int {
	if len(x) == 0 {
		return y
	}
	if len(y) == 0 {
		return x
	}
	r := make([]int, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		switch {
		case j >= len(y) || i < len(x) && x[i] < y[j]:
			r = append(r, x[i])
			i++
		case i >= len(x) || y[j] < x[i]:
			r = append(r, y[j])
			j++
		default:
			r = append(r, x[i])
			i++
			j++
		}
	}
	return r
}

func (e *Expr) vars() []int {
	if e.vsDone {
		return e.vs
	}
	switch e.op {
	case OConst:
	case OUni, OIn, OVar:
		e.vs = []int{int(e.val)}
	case OTok:
		for _, a := range e.args {
			e.vs = mergeVars(e.vs, a.vars())
		}
	default:
		if e.a != nil {
			e.vs = e.a.vars()
		}
		if e.b != nil {
			e.vs = mergeVars(e.vs, e.b.vars())
		}
		if e.c != nil {
			e.vs = mergeVars(e.vs, e.c.vars())
		}
	}
	e.vsDone = true
	return e.vs
}

func (e *Expr) String() string {
	switch e.op {
	case OConst:
		return fmt.Sprintf("%d", e.val)
	case OUni:
		return fmt.Sprintf("t%d(v%d)", e.tbl.id, e.val)
	case OIn:
		if e.set.count() <= 3 {
			s := []string{}
			for i := uint64(0); i < 256; i++ {
				if e.set.has(i) {
					s = append(s, fmt.Sprint(i))
				}
			}
			return fmt.Sprintf("v%d∈{%s}", e.val, strings.Join(s, ","))
		}
		return fmt.Sprintf("v%d∈S%d(%d)", e.val, e.sets.id, e.set.count())
	case OVar:
		return fmt.Sprintf("w%d", e.val)
	case OTok:
		return fmt.Sprintf("%s%v", e.tok, e.args)
	}
	s := "(" + opNames[e.op]
	for _, x := range []*Expr{e.a, e.b, e.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}
