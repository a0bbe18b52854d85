package main

import (
	"go/token"
	"math/bits"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- interval reasoning used before asking the solver ----

type ival struct {
	lo, hi uint64
	tz     uint8 // number of low bits known to be zero
}

func (m *M) ival(e *Expr, d int) (ival, bool) {
	full := ival{0, mask(e.w), 0}
	if d > 80 {
		return full, false
	}
	switch e.op {
	case OConst:
		tz := uint8(64)
		if e.val != 0 {
			tz = uint8(bits.TrailingZeros64(e.val))
		}
		return ival{e.val, e.val, tz}, true
	case OUni:
		dm := &m.dom[e.val]
		lo, hi, or := ^uint64(0), uint64(0), uint64(0)
		for w := 0; w < 4; w++ {
			x := dm[w]
			for x != 0 {
				i := bits.TrailingZeros64(x)
				x &= x - 1
				v := e.tbl.vals[w*64+i]
				or |= v
				lo, hi = min(lo, v), max(hi, v)
			}
		}
		tz := uint8(64)
		if or != 0 {
			tz = uint8(bits.TrailingZeros64(or))
		}
		return ival{lo, hi, tz}, true
	case OZext:
		return m.ival(e.a, d+1)
	case OTrunc:
		a, ok := m.ival(e.a, d+1)
		if ok && a.hi <= mask(e.w) {
			return a, true
		}
	case OSext:
		a, ok := m.ival(e.a, d+1)
		if ok && a.hi <= mask(e.a.w)>>1 {
			return a, true
		}
	case OTab:
		lo, hi := ^uint64(0), uint64(0)
		for i := 0; i <= int(mask(min(e.a.w, 8))); i++ {
			v := e.tbl.vals[i]
			lo, hi = min(lo, v), max(hi, v)
		}
		return ival{lo, hi, 0}, true
	case OIte:
		a, ok1 := m.ival(e.b, d+1)
		b, ok2 := m.ival(e.c, d+1)
		if ok1 && ok2 {
			return ival{min(a.lo, b.lo), max(a.hi, b.hi), min(a.tz, b.tz)}, true
		}
	case OShl:
		a, ok := m.ival(e.a, d+1)
		if ok && e.b.isConst() && e.b.val < uint64(e.w) {
			s := e.b.val
			if bits.Len64(a.hi)+int(s) <= int(e.w) {
				return ival{a.lo << s, a.hi << s, uint8(min(64, uint64(a.tz)+s))}, true
			}
		}
	case OLshr:
		a, ok := m.ival(e.a, d+1)
		if ok && e.b.isConst() && e.b.val < 64 {
			return ival{a.lo >> e.b.val, a.hi >> e.b.val, 0}, true
		}
	case OBand:
		a, ok1 := m.ival(e.a, d+1)
		b, ok2 := m.ival(e.b, d+1)
		if ok1 || ok2 {
			return ival{0, min(a.hi, b.hi), max(a.tz, b.tz)}, true
		}
	case OBor, OAdd:
		a, ok1 := m.ival(e.a, d+1)
		b, ok2 := m.ival(e.b, d+1)
		if ok1 && ok2 {
			disj := a.tz < 64 && b.hi < 1<<a.tz || b.tz < 64 && a.hi < 1<<b.tz || a.tz == 64 || b.tz == 64
			if e.op == OAdd || disj {
				lo, c1 := bits.Add64(a.lo, b.lo, 0)
				hi, c2 := bits.Add64(a.hi, b.hi, 0)
				if c1 == 0 && c2 == 0 && hi <= mask(e.w) {
					return ival{lo, hi, min(a.tz, b.tz)}, true
				}
			}
			if e.op == OBor {
				n := bits.Len64(a.hi | b.hi)
				return ival{max(a.lo, b.lo), mask2(n), min(a.tz, b.tz)}, true
			}
		}
	case OMul:
		a, ok1 := m.ival(e.a, d+1)
		b, ok2 := m.ival(e.b, d+1)
		if ok1 && ok2 {
			h, l := bits.Mul64(a.hi, b.hi)
			if h == 0 && l <= mask(e.w) {
				return ival{a.lo * b.lo, l, 0}, true
			}
		}
	case OUdiv:
		a, ok := m.ival(e.a, d+1)
		if ok && e.b.isConst() && e.b.val != 0 {
			return ival{a.lo / e.b.val, a.hi / e.b.val, 0}, true
		}
	case OUrem:
		if e.b.isConst() && e.b.val != 0 {
			return ival{0, e.b.val - 1, 0}, true
		}
	}
	return full, false
}

func mask2(n int) uint64 {
	if n >= 64 {
		return ^uint64(0)
	}
	return 1<<n - 1
}

func (m *M) cmpIval(c *Expr) int {
	a, ok1 := m.ival(c.a, 0)
	b, ok2 := m.ival(c.b, 0)
	if c.op == OUlt && c.a.op == OAdd && (c.a.a == c.b || c.a.b == c.b) && ok1 {
		// x+y < x is the overflow test; the interval of x+y is known only when the sum does not wrap
		x, okx := m.ival(c.a.a, 0)
		y, oky := m.ival(c.a.b, 0)
		if okx && oky {
			if hi, cy := bits.Add64(x.hi, y.hi, 0); cy == 0 && hi <= mask(c.a.w) {
				return 0
			}
		}
	}
	if !ok1 && !ok2 {
		if c.op == OEq {
			return m.linEq0(c)
		}
		return -1
	}
	switch c.op {
	case OEq:
		if a.hi < b.lo || b.hi < a.lo {
			return 0
		}
		if a.lo == a.hi && b.lo == b.hi && a.lo == b.lo {
			return 1
		}
		return m.linEq0(c)
	case OSlt:
		h := mask(c.a.w) >> 1
		if a.hi > h || b.hi > h {
			return -1
		}
		fallthrough
	case OUlt:
		if a.hi < b.lo {
			return 1
		}
		if a.lo >= b.hi {
			return 0
		}
	}
	return -1
}

// ---- region merging: side-effect free diamonds are evaluated without forking ----

type regPred struct {
	from int // region index, -1 for the head
	edge int // 0 or 1
}

type regBlock struct {
	b      *ssa.BasicBlock
	first  int // first code index
	last   int // terminator code index
	preds  []regPred
	ret    bool
	ifTerm bool
}

type mergeInfo struct {
	blocks []regBlock
}

func pureIns(in *Ins) bool {
	switch in.op {
	case iBin:
		switch in.tok {
		case token.QUO, token.REM:
			return false
		case token.SHL, token.SHR:
			return !in.t2.signed || in.b < 0
		}
		return true
	case iBinStr, iNot, iXorUn, iMove, iField, iExtract, iIndexStr, iLoad, iFieldAddr, iIndexAddr:
		return true
	case iEq, iNe:
		switch in.t.kind {
		case KBool, KInt, KString:
			return true
		case KIface, KPtr, KSlice, KMap, KFunc:
			return in.a < 0 || in.b < 0
		}
		return false
	case iConvert:
		return in.t.kind == KInt && in.t2.kind == KInt
	case iBuiltin:
		return in.name == "len" && in.t.kind != KMap
	}
	return false
}

func findMerges(f *Func, c *compiler) {
	sf := f.f
	if len(sf.Blocks) < 3 {
		return
	}
	// code range per block
	type rngT struct{ first, last int }
	br := map[*ssa.BasicBlock]rngT{}
	pcs := make([]int, 0, len(sf.Blocks)+1)
	for _, b := range sf.Blocks {
		pcs = append(pcs, c.blkPC[b])
	}
	pcs = append(pcs, len(f.code))
	for i, b := range sf.Blocks {
		br[b] = rngT{pcs[i], pcs[i+1] - 1}
	}
	pure := map[*ssa.BasicBlock]int{} // 1 plain, 2 return
	for _, b := range sf.Blocks {
		r := br[b]
		if r.last < r.first {
			continue
		}
		ok := true
		for i := r.first; i < r.last; i++ {
			if !pureIns(&f.code[i]) {
				ok = false
				break
			}
		}
		if !ok || r.last-r.first > 24 {
			continue
		}
		t := &f.code[r.last]
		switch t.op {
		case iIf, iJump:
			pure[b] = 1
		case iReturn:
			if len(t.args) == 1 && sf.Signature.Results().Len() == 1 && c.rt(sf.Signature.Results().At(0).Type()).kind == KBool && !f.hasDef {
				pure[b] = 2
			}
		}
	}
	// reverse postorder
	rpo := map[*ssa.BasicBlock]int{}
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		order = append(order, b)
	}
	dfs(sf.Blocks[0])
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	for i, b := range order {
		rpo[b] = i
	}
	for _, b := range order {
		r := br[b]
		if r.last < r.first || f.code[r.last].op != iIf {
			continue
		}
		in := map[*ssa.BasicBlock]int{b: -1}
		var blocks []regBlock
		for _, cand := range order[rpo[b]+1:] {
			if len(blocks) >= 24 {
				break
			}
			if pure[cand] == 0 {
				continue
			}
			rb := regBlock{b: cand, first: br[cand].first, last: br[cand].last, ret: pure[cand] == 2}
			rb.ifTerm = f.code[rb.last].op == iIf
			dup := map[*ssa.BasicBlock]bool{}
			for _, p := range cand.Preds {
				pi, ok := in[p]
				if dup[p] || !ok {
					continue
				}
				dup[p] = true
				for k, s := range p.Succs {
					if s == cand {
						rb.preds = append(rb.preds, regPred{pi, k})
					}
				}
			}
			if len(rb.preds) == 0 {
				continue
			}
			in[cand] = len(blocks)
			blocks = append(blocks, rb)
		}
		if len(blocks) > 0 {
			f.code[r.last].merge = &mergeInfo{blocks: blocks}
		}
	}
}

type mergeFail struct{}

// pureExec evaluates one side-effect free instruction; ok=false when it cannot be
// evaluated without a fork or a fault.
func (m *M) pureExec(in *Ins, regs, cs []V) bool {
	get := func(i int32) V {
		if i >= 0 {
			return regs[i]
		}
		return cs[^i]
	}
	switch in.op {
	case iBin:
		x, y := get(in.a), get(in.b)
		if x.p == nil && y.p == nil {
			regs[in.dst] = m.binConc(in, x.n, y.n)
		} else {
			regs[in.dst] = m.binSym(in, x, y)
		}
	case iBinStr:
		if in.tok == token.ADD {
			return false
		}
		regs[in.dst] = m.binStr(in.tok, get(in.a), get(in.b))
	case iEq, iNe:
		v := m.eqV(get(in.a), get(in.b), in.t)
		if in.op == iNe {
			v = m.notV(v)
		}
		regs[in.dst] = v
	case iNot:
		regs[in.dst] = m.notV(get(in.a))
	case iXorUn:
		x := get(in.a)
		regs[in.dst] = m.val(m.b.Bin(OXor, m.ex(x, in.w), m.b.Const(in.w, mask(in.w))))
	case iMove:
		regs[in.dst] = get(in.a)
	case iConvert:
		regs[in.dst] = m.convert(get(in.a), in.t, in.t2)
	case iField:
		p := get(in.a)
		if p.p == nil {
			regs[in.dst] = V{}
		} else if in.t.agg() {
			regs[in.dst] = V{p: &Agg{c: p.p.(*Agg).c[in.n : in.n+in.t.size]}}
		} else {
			regs[in.dst] = p.p.(*Agg).c[in.n]
		}
	case iExtract:
		t := get(in.a)
		if t.p == nil {
			regs[in.dst] = V{}
		} else {
			regs[in.dst] = t.p.(*Agg).c[in.n]
		}
	case iBuiltin:
		v := get(in.args[0])
		if v.p != nil {
			if _, ok := v.p.(poison); ok {
				return false
			}
		}
		regs[in.dst] = intV(m.length(v, in.t))
	case iFieldAddr:
		p := get(in.a)
		if p.p == nil {
			return false
		}
		p.n += uint64(in.n)
		regs[in.dst] = p
	case iLoad:
		p := get(in.a)
		o, ok := p.p.(*Obj)
		if !ok || in.t.agg() {
			return false
		}
		v := o.get(int(p.n))
		if _, bad := v.p.(poison); bad {
			return false
		}
		regs[in.dst] = v
	case iIndexAddr:
		x, idx := get(in.a), get(in.b)
		if idx.p != nil || x.p == nil {
			return false
		}
		i := int(int64(idx.n))
		if in.n >= 0 {
			if i < 0 || i >= in.n {
				return false
			}
			x.n += uint64(i * in.t.size)
			regs[in.dst] = x
		} else {
			s, _ := x.p.(*Slice)
			if s == nil || i < 0 || i >= s.len {
				return false
			}
			regs[in.dst] = V{n: uint64(s.off + i*in.t.size), p: s.o}
		}
	case iIndexStr:
		s, idx := get(in.a).str(), get(in.b)
		if idx.p != nil || s == nil {
			return false
		}
		i := int(int64(idx.n))
		if i < 0 || i >= s.len() {
			return false
		}
		if s.b != nil {
			regs[in.dst] = m.val(s.b[i])
		} else {
			regs[in.dst] = V{n: uint64(s.s[i])}
		}
	default:
		return false
	}
	return true
}

type mexit struct {
	cond  *Expr
	pc    int
	moves []move
	vals  []V // values of the moves
	ret   bool
	rv    V
}

func (m *M) mergeable(x, y V) bool {
	if x == y {
		return true
	}
	sc := func(v V) (uint8, bool) {
		if v.p == nil {
			return 255, true
		}
		if e, ok := v.p.(*Expr); ok {
			return e.w, true
		}
		return 0, false
	}
	a, ok1 := sc(x)
	b, ok2 := sc(y)
	if !ok1 || !ok2 {
		return false
	}
	if a == 255 {
		a = b
	}
	if b == 255 {
		b = a
	}
	return a == b && a == 0 // only booleans of unequal value are merged
}

// tryMerge handles an If on an undecided condition. done=false: nothing happened.
func (m *M) tryMerge(f *Func, mi *mergeInfo, in *Ins, c *Expr, regs, cs []V) (pc int, ret bool, rv V, done bool) {
	if m.mon != nil {
		return
	}
	get := func(i int32) V {
		if i >= 0 {
			return regs[i]
		}
		return cs[^i]
	}
	n := len(mi.blocks)
	var cbuf, tbuf [24]*Expr
	conds := cbuf[:n] // reach condition of each block
	tconds := tbuf[:n]
	used := 0
	edgeCond := func(p regPred) *Expr {
		var base, t *Expr
		if p.from < 0 {
			base, t = m.b.tTrue, c
		} else {
			base, t = conds[p.from], tconds[p.from]
		}
		if t == nil {
			return base
		}
		if p.edge == 1 {
			t = m.b.Not(t)
		}
		return m.b.And(base, t)
	}
	edgeOf := func(p regPred) *edge {
		t := in
		if p.from >= 0 {
			t = &f.code[mi.blocks[p.from].last]
		}
		if p.edge == 1 {
			return &t.e2
		}
		return &t.e1
	}
	limit := n
blocks:
	for i := 0; i < n; i++ {
		rb := &mi.blocks[i]
		cond := m.b.tFalse
		// phis
		var phis []move
		var pv []V
		first := true
		ok := true
		for _, p := range rb.preds {
			if p.from >= limit {
				ok = false
				break
			}
			ec := edgeCond(p)
			if m.quick(ec) == 0 {
				continue
			}
			mv := edgeOf(p).moves
			if first {
				phis = mv
				pv = make([]V, len(mv))
				for k := range mv {
					pv[k] = get(mv[k].src)
				}
				first = false
			} else {
				if len(mv) != len(phis) {
					ok = false
					break
				}
				for k := range mv {
					if mv[k].dst != phis[k].dst {
						ok = false
						break
					}
					v := get(mv[k].src)
					if !m.mergeable(pv[k], v) {
						ok = false
						break
					}
					if pv[k] != v {
						pv[k] = m.val(m.b.IteB(ec, m.ex(v, 0), m.ex(pv[k], 0)))
					}
				}
				if !ok {
					break
				}
			}
			cond = m.b.Or(cond, ec)
		}
		if !ok {
			limit = i
			break blocks
		}
		conds[i] = cond
		if cond == m.b.tFalse {
			tconds[i] = nil
			if rb.ifTerm {
				tconds[i] = m.b.tFalse
			}
			continue
		}
		for k := range phis {
			regs[phis[k].dst] = pv[k]
		}
		nd := m.ndec
		for pc := rb.first; pc < rb.last; pc++ {
			if !m.pureExec(&f.code[pc], regs, cs) {
				limit = i
				break blocks
			}
		}
		if m.ndec != nd {
			panic("engine: fork inside a merged region")
		}
		used++
		tconds[i] = nil
		t := &f.code[rb.last]
		if t.op == iIf {
			tconds[i] = m.ex(get(t.a), 0)
		}
	}
	// blocks at index >= limit are outside: with a non-contiguous cut every block that has a
	// predecessor beyond the limit is itself beyond it (topological order), so edges leaving
	// the kept prefix are exits.
	if used == 0 {
		return
	}
	var exits []mexit
	add := func(p regPred) {
		ec := edgeCond(p)
		if m.quick(ec) == 0 {
			return
		}
		e := edgeOf(p)
		vals := make([]V, len(e.moves))
		for k, mv := range e.moves {
			vals[k] = get(mv.src)
		}
		for xi := range exits {
			x := &exits[xi]
			if x.ret || x.pc != int(e.pc) || len(x.moves) != len(e.moves) {
				continue
			}
			ok := true
			for k := range vals {
				if x.moves[k].dst != e.moves[k].dst || !m.mergeable(x.vals[k], vals[k]) {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			for k := range vals {
				if x.vals[k] != vals[k] {
					x.vals[k] = m.val(m.b.IteB(ec, m.ex(vals[k], 0), m.ex(x.vals[k], 0)))
				}
			}
			x.cond = m.b.Or(x.cond, ec)
			return
		}
		exits = append(exits, mexit{cond: ec, pc: int(e.pc), moves: e.moves, vals: vals})
	}
	inside := func(from int, pc int32) bool {
		for i := from + 1; i < limit; i++ {
			rb := &mi.blocks[i]
			if int(pc) == rb.first {
				return true
			}
		}
		return false
	}
	for i := -1; i < limit; i++ {
		t := in
		if i >= 0 {
			if conds[i] == m.b.tFalse {
				continue
			}
			t = &f.code[mi.blocks[i].last]
		}
		switch t.op {
		case iReturn:
			v := get(t.args[0])
			ec := conds[i]
			merged := false
			for xi := range exits {
				x := &exits[xi]
				if x.ret && m.mergeable(x.rv, v) {
					if x.rv != v {
						x.rv = m.val(m.b.IteB(ec, m.ex(v, 0), m.ex(x.rv, 0)))
					}
					x.cond = m.b.Or(x.cond, ec)
					merged = true
					break
				}
			}
			if !merged {
				exits = append(exits, mexit{cond: ec, ret: true, rv: v})
			}
		case iJump:
			if !inside(i, t.e1.pc) {
				add(regPred{i, 0})
			}
		case iIf:
			if !inside(i, t.e1.pc) {
				add(regPred{i, 0})
			}
			if !inside(i, t.e2.pc) {
				add(regPred{i, 1})
			}
		}
	}
	if len(exits) == 0 {
		return
	}
	sort.SliceStable(exits, func(i, j int) bool { return exits[i].pc < exits[j].pc })
	sel := len(exits) - 1
	for i := 0; i < len(exits)-1; i++ {
		if m.decide(exits[i].cond) {
			sel = i
			break
		}
	}
	x := &exits[sel]
	if x.ret {
		return 0, true, x.rv, true
	}
	for k, mv := range x.moves {
		regs[mv.dst] = x.vals[k]
	}
	return x.pc, false, V{}, true
}
