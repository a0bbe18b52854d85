package main

import (
	"fmt"
	"sort"
	"time"
)

// ---- path abort signals ----
type abortKind int

const (
	abAssume abortKind = iota // assumption infeasible
	abUnsupported
	abSteps
	abViolation
	abEnd
	abUnknown
)

type pathAbort struct {
	k   abortKind
	msg string
}

type Item struct {
	h     int
	nskip int
	hash  uint64 // hash of the decisions up to nskip
	model []uint64
}

type varInfo struct {
	name string
	w    uint8
}

type M struct {
	eng *Engine
	b   *Builder
	s   *Solver
	id  int

	globals []*Obj
	ginit   map[*Func]bool

	// trail for writes to init-time objects
	trail  []trailEnt
	mtrail []mtrailEnt
	inRun  bool

	// path state
	item     *Item
	model    []uint64
	vars     []varInfo
	dom      []Set
	ent      []bool
	known    map[uint32]bool
	mcs      []*Expr // multi-variable constraints
	ndec     int     // decision counter
	phash    uint64
	curStamp uint32
	dyn      pathDyn

	steps     int
	stepLimit int
	depth     int

	// slabs
	slab []V
	sp   int

	obs     []obsEnt
	jtoks   []jtok
	reached map[string]bool
	curFn   *Func
	fnUsed  map[*Func]int
	pathID  int
	mapMode int
	isoGen  uint32
	gen     uint32
	iso     bool
	out     func(Item)

	// statistics
	st      Stats
	hst     []Stats
	aborted bool

	// concurrency monitor
	mon *Monitor

	pools      [][]V
	runeSrc    map[uint32][]*Expr
	caseT      [2]*Table
	now        *Obj
	lastPanic  *GoPanic
	lastRace   string
	pendingRec bool
	builtSelf  bool
	lits       map[string]V
	panicFr    *deferFrame
}

type pathDyn struct {
	forks int
	nAlt  int
}

type trailEnt struct {
	o   *Obj
	i   int
	old V
	ln  int
}
type mtrailEnt struct {
	m    *Map
	idx  map[string]int
	ents []ment
	live int
	nsym int
}

type obsEnt struct {
	label string
	v     V
	kind  byte // s string, i int, b bool
}

type Stats struct {
	Paths, Complete, Pruned, Unsupported, StepOut                     int
	Unknown                                                           int
	Decisions, Branches                                               int
	Steps                                                             int64
	Asserts, AssertTrivial, AssertRange, Cross, CrossOK, AssertSolver int
	AltQueries                                                        int
	Cpu                                                               time.Duration
	Reasons                                                           map[string]int
}

func (m *M) unsupported(f string, a ...any) {
	panic(&pathAbort{abUnsupported, fmt.Sprintf(f, a...)})
}

// ---- symbolic inputs ----

func (m *M) newByte(name string, dom Set) *Expr {
	i := len(m.vars)
	m.vars = append(m.vars, varInfo{name, 8})
	m.dom = append(m.dom, dom)
	m.ent = append(m.ent, false)
	if i >= len(m.model) {
		m.model = append(m.model, dom.first())
	} else if !dom.has(m.model[i]) {
		m.model[i] = dom.first()
	}
	if dom.count() == 1 {
		return m.b.Const(8, dom.first())
	}
	return m.b.ByteVar(i)
}

func (m *M) newWide(name string, w uint8) *Expr {
	i := len(m.vars)
	m.vars = append(m.vars, varInfo{name, w})
	m.dom = append(m.dom, Set{})
	m.ent = append(m.ent, true)
	if i >= len(m.model) {
		m.model = append(m.model, 0)
	}
	return m.b.WideVar(i, w)
}

// eval under the path's model (cached per model stamp)
func (m *M) eval(e *Expr) uint64 {
	// all evaluations on one path share a stamp as long as the model is unchanged
	if m.b.stamp != m.curStamp {
		m.b.stamp++
		m.curStamp = m.b.stamp
	}
	return m.b.eval(e, m.model)
}

func (m *M) modelChanged() { m.b.stamp++; m.curStamp = m.b.stamp }

func (m *M) domOf(v int) (Set, uint8) {
	if v >= len(m.vars) {
		return Set{}.not(), 8
	}
	return m.dom[v], m.vars[v].w
}

// component of multi-variable constraints connected to e
func (m *M) component(e *Expr) []*Expr {
	want := map[int]bool{}
	for _, v := range e.vars() {
		want[v] = true
	}
	used := make([]bool, len(m.mcs))
	var cs []*Expr
	for changed := true; changed; {
		changed = false
		for i, c := range m.mcs {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars() {
				if want[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				cs = append(cs, c)
				for _, v := range c.vars() {
					want[v] = true
				}
				changed = true
			}
		}
	}
	return cs
}

// query: is PC ∧ c satisfiable?
func (m *M) query(c *Expr) solverRes {
	cs := append(m.component(c), c)
	r := m.s.check(cs, m.domOf)
	return r
}

func (m *M) addConstraint(c *Expr) {
	switch c.op {
	case OConst:
		return
	case OIn:
		v := int(c.val)
		m.dom[v] = m.dom[v].and(c.set)
		return
	case OAnd:
		m.addConstraint(c.a)
		m.addConstraint(c.b)
		m.known[c.id] = true
		return
	}
	m.known[c.id] = true
	if c.op == ONot {
		m.known[c.a.id] = false
	} else {
		m.known[m.b.Not(c).id] = false
	}
	m.mcs = append(m.mcs, c)
	for _, v := range c.vars() {
		m.ent[v] = true
	}
}

// quick: 1 true, 0 false, -1 undecided (without solver)
func (m *M) quick(c *Expr) int {
	switch c.op {
	case OConst:
		return int(c.val)
	case OIn:
		d := m.dom[c.val]
		x := d.and(c.set)
		if x.empty() {
			return 0
		}
		if x == d {
			return 1
		}
		return -1
	}
	if k, ok := m.known[c.id]; ok {
		if k {
			return 1
		}
		return 0
	}
	switch c.op {
	case OEq, OUlt, OSlt:
		return m.cmpIval(c)
	case ONot:
		q := m.quick(c.a)
		if q >= 0 {
			return 1 - q
		}
	case OAnd:
		q := m.quick(c.a)
		if q == 0 {
			return 0
		}
		r := m.quick(c.b)
		if r == 0 {
			return 0
		}
		if q == 1 && r == 1 {
			return 1
		}
	case OOr:
		q := m.quick(c.a)
		if q == 1 {
			return 1
		}
		r := m.quick(c.b)
		if r == 1 {
			return 1
		}
		if q == 0 && r == 0 {
			return 0
		}
	}
	return -1
}

// simpC simplifies a boolean under the path's domains
func (m *M) simpC(c *Expr) *Expr {
	switch c.op {
	case OConst, OIn, OEq, OUlt, OSlt:
		switch m.quick(c) {
		case 0:
			return m.b.tFalse
		case 1:
			return m.b.tTrue
		}
		return c
	case OAnd:
		x := m.simpC(c.a)
		if x == m.b.tFalse {
			return x
		}
		return m.b.And(x, m.simpC(c.b))
	case OOr:
		x := m.simpC(c.a)
		if x == m.b.tTrue {
			return x
		}
		return m.b.Or(x, m.simpC(c.b))
	case ONot:
		return m.b.Not(m.simpC(c.a))
	}
	return c
}

// decide returns the direction this path takes on c and schedules the other
// direction when it is feasible.
func (m *M) decide(c *Expr) bool {
	switch m.quick(c) {
	case 0:
		m.cross(c, false)
		return false
	case 1:
		m.cross(c, true)
		return true
	}
	c = m.simpC(c)
	if c.isConst() {
		return c.val == 1
	}
	m.ndec++
	m.st.Branches++
	if m.eng.verbose {
		m.st.Reasons["decide "+m.where()+" "+c.String()]++
	}
	dir := m.eval(c) == 1
	alt := m.b.Not(c)
	cur := c
	if !dir {
		alt, cur = c, alt
	}
	if m.ndec > m.item.nskip {
		m.pushAlt(alt)
	}
	m.phash = mix(m.phash, cur.h)
	if m.ndec == m.item.nskip && m.phash != m.item.hash {
		m.unsupported("engine: re-execution diverged")
	}
	m.addConstraint(cur)
	return dir
}

// cross asks the solver to confirm a decision made by domains, intervals or linear forms.
// A bounded number of different decisions per harness is confirmed, all of them with a
// small probability of repetition.
func (m *M) cross(c *Expr, val bool) {
	if c.isConst() {
		return
	}
	if !m.eng.crossWanted(m.item.h, c.h) {
		return
	}
	x := c
	if val {
		x = m.b.Not(c)
	}
	m.st.Cross++
	if m.intCheck(c, !val) == 0 {
		m.st.CrossOK++
		return
	}
	r := m.query(x)
	switch r.st {
	case 1:
		m.unsupported("engine: a fast decision is contradicted by the solver: " + c.String())
	case 0:
		m.st.CrossOK++
	}
}

func (m *M) pushAlt(alt *Expr) {
	vs := alt.vars()
	var nm []uint64
	if alt.op == OIn && !m.ent[alt.val] {
		d := m.dom[alt.val].and(alt.set)
		if d.empty() {
			return
		}
		nm = append([]uint64(nil), m.model[:len(m.vars)]...)
		nm[alt.val] = d.first()
	} else {
		m.st.AltQueries++
		r := m.query(alt)
		if r.st == 0 {
			return
		}
		if r.st < 0 {
			m.st.Unknown++
			return
		}
		nm = append([]uint64(nil), m.model[:len(m.vars)]...)
		for v, x := range r.model {
			if v < len(nm) {
				nm[v] = x
			}
		}
	}
	_ = vs
	m.dyn.nAlt++
	m.out(Item{h: m.item.h, nskip: m.ndec, hash: mix(m.phash, alt.h), model: nm})
}

// assume restricts the path
func (m *M) assume(c *Expr) {
	switch m.quick(c) {
	case 1:
		return
	case 0:
		panic(&pathAbort{abAssume, ""})
	}
	c = m.simpC(c)
	if m.eval(c) != 1 {
		if c.op == OIn && !m.ent[c.val] {
			d := m.dom[c.val].and(c.set)
			m.model[c.val] = d.first()
		} else {
			r := m.query(c)
			if r.st != 1 {
				if r.st < 0 {
					m.st.Unknown++
				}
				panic(&pathAbort{abAssume, ""})
			}
			for v, x := range r.model {
				if v < len(m.model) {
					m.model[v] = x
				}
			}
		}
		m.modelChanged()
	}
	m.addConstraint(c)
}

type Violation struct {
	Harness string
	Label   string
	Model   []uint64
	Vars    []varInfo
	Msg     string
}

// assert: the property must hold for every value on this path
func (m *M) assert(c *Expr, label string) {
	m.st.Asserts++
	if c.isConst() {
		if c.val == 1 {
			m.st.AssertTrivial++
			return
		}
		m.violation(label, m.model)
	}
	if m.eval(c) != 1 {
		m.violation(label, m.model)
	}
	if c.op != OIn && m.quick(c) == 1 {
		m.st.AssertRange++
		m.cross(c, true)
		return
	}
	m.st.AssertSolver++
	r := m.query(m.b.Not(c))
	if r.st == 1 {
		nm := append([]uint64(nil), m.model...)
		for v, x := range r.model {
			if v < len(nm) {
				nm[v] = x
			}
		}
		m.violation(label, nm)
	}
	if r.st < 0 {
		m.st.Unknown++
		if m.eng.verbose {
			m.st.Reasons["unknown "+c.String()]++
		}
		panic(&pathAbort{abUnknown, "solver gave no answer for assertion " + label})
	}
	m.known[c.id] = true
}

func (m *M) violation(label string, model []uint64) {
	m.eng.report(m, label, append([]uint64(nil), model[:min(len(m.vars), len(model))]...))
	panic(&pathAbort{abViolation, label})
}

// concretize forks over the values of e
// concretize forks over every value e can have on this path.
func (m *M) concretize(e *Expr) uint64 {
	if e.isConst() {
		return e.val
	}
	if e.w == 0 {
		if m.decide(e) {
			return 1
		}
		return 0
	}
	v := m.eval(e)
	is := func(x uint64) *Expr { return m.b.Eq(e, m.b.Const(e.w, x)) }
	cur := is(v)
	switch m.quick(cur) {
	case 1:
		return v
	case 0:
		panic("concretize: value of the model excluded")
	}
	m.ndec++
	m.st.Branches++
	if m.ndec > m.item.nskip {
		n := 0
		push := func(a *Expr, nm []uint64) {
			if n++; n > 4096 {
				m.unsupported("value with more than 4096 possibilities used where a concrete one is needed")
			}
			m.dyn.nAlt++
			m.out(Item{h: m.item.h, nskip: m.ndec, hash: mix(m.phash, a.h), model: nm})
		}
		if e.op == OUni && !m.ent[e.val] {
			seen := map[uint64]bool{v: true}
			d := m.dom[e.val]
			for w := 0; w < 4; w++ {
				for x := d[w]; x != 0; x &= x - 1 {
					i := w*64 + trailing(x)
					ev := e.tbl.vals[i]
					if seen[ev] {
						continue
					}
					seen[ev] = true
					nm := append([]uint64(nil), m.model[:len(m.vars)]...)
					nm[e.val] = uint64(i)
					push(is(ev), nm)
				}
			}
		} else {
			rest := m.b.Not(cur)
			for {
				m.st.AltQueries++
				r := m.query(rest)
				if r.st == 0 {
					break
				}
				if r.st < 0 {
					m.st.Unknown++
					break
				}
				nm := append([]uint64(nil), m.model[:len(m.vars)]...)
				for i, x := range r.model {
					if i < len(nm) {
						nm[i] = x
					}
				}
				old := m.model
				m.model = nm
				m.modelChanged()
				x := m.eval(e)
				m.model = old
				m.modelChanged()
				push(is(x), nm)
				rest = m.b.And(rest, m.b.Not(is(x)))
			}
		}
	}
	m.phash = mix(m.phash, cur.h)
	if m.ndec == m.item.nskip && m.phash != m.item.hash {
		m.unsupported("engine: re-execution diverged")
	}
	m.addConstraint(cur)
	return v
}

func (m *M) cint(v V) int {
	if e := v.sym(); e != nil {
		return int(sext(m.concretize(e), e.w))
	}
	return int(int64(v.n))
}

func (m *M) cbool(v V) bool {
	if v.p == nil {
		return v.n != 0
	}
	return m.decide(v.p.(*Expr))
}

// simplify an expression value under the current domain
func (m *M) val(e *Expr) V {
	switch e.op {
	case OConst:
		return V{n: e.val}
	case OUni:
		d := &m.dom[e.val]
		t := e.tbl
		first := t.vals[d.first()]
		for w := 0; w < 4; w++ {
			x := d[w]
			for x != 0 {
				i := trailing(x)
				x &= x - 1
				if t.vals[w*64+i] != first {
					return V{p: e}
				}
			}
		}
		return V{n: first}
	case OIn:
		switch m.quick(e) {
		case 0:
			return V{}
		case 1:
			return V{n: 1}
		}
		return V{p: e}
	}
	if e.w == 0 {
		switch m.quick(e) {
		case 0:
			return V{}
		case 1:
			return V{n: 1}
		}
	}
	return V{p: e}
}

// expr of a scalar value
func (m *M) ex(v V, w uint8) *Expr {
	if v.p == nil {
		return m.b.Const(w, v.n)
	}
	return v.p.(*Expr)
}

// ---- heap ----

func (m *M) newObj(size int, name string) *Obj {
	o := &Obj{size: size, name: name}
	if m.inRun {
		o.gen = m.gen
	} else {
		o.init = true
	}
	return o
}

func (m *M) setCell(o *Obj, i int, v V) {
	if i >= o.size {
		panic(fmt.Sprintf("engine: store out of object %s %d/%d", o.name, i, o.size))
	}
	if o.init && m.inRun {
		m.trail = append(m.trail, trailEnt{o, i, o.get(i), len(o.c)})
	}
	if m.mon != nil && o.gen < m.gen {
		m.mon.write(m, o, i)
		m.publish(v)
	}
	if i >= len(o.c) {
		n := i + 1
		if n > cap(o.c) {
			c := 2 * cap(o.c)
			if c < n {
				c = n
			}
			if c < 8 {
				c = 8
			}
			if c > o.size {
				c = o.size
			}
			nc := make([]V, n, c)
			copy(nc, o.c)
			o.c = nc
		} else {
			old := len(o.c)
			o.c = o.c[:n]
			for k := old; k < n; k++ {
				o.c[k] = V{}
			}
		}
	}
	o.c[i] = v
}

func (m *M) load(o *Obj, off int, t *RType) V {
	if m.mon != nil && o.gen < m.gen {
		m.mon.read(m, o, off, t.size)
	}
	if !t.agg() {
		return o.get(off)
	}
	a := &Agg{c: make([]V, t.size)}
	if off < len(o.c) {
		copy(a.c, o.c[off:])
	}
	return V{p: a}
}

func (m *M) store(o *Obj, off int, t *RType, v V) {
	if !t.agg() {
		m.setCell(o, off, v)
		return
	}
	if t.size == 0 {
		return
	}
	if v.p == nil {
		for i := 0; i < t.size; i++ {
			m.setCell(o, off+i, V{})
		}
		return
	}
	m.storeCells(o, off, v.p.(*Agg).c)
}

func (m *M) storeCells(o *Obj, off int, c []V) {
	if o.init && m.inRun || m.mon != nil {
		for i, x := range c {
			m.setCell(o, off+i, x)
		}
		return
	}
	if n := len(c); n > 0 {
		if off+n > len(o.c) {
			m.setCell(o, off+n-1, V{})
		}
		copy(o.c[off:], c)
	}
}

// copyCells moves n cells; ranges may overlap
func (m *M) copyCells(d *Obj, doff int, s *Obj, soff, n int) {
	if n == 0 {
		return
	}
	if m.mon != nil && s.gen < m.gen {
		m.mon.read(m, s, soff, n)
	}
	tmp := make([]V, n)
	if soff < len(s.c) {
		copy(tmp, s.c[soff:])
	}
	m.storeCells(d, doff, tmp)
}

func (m *M) undo() {
	for i := len(m.trail) - 1; i >= 0; i-- {
		t := m.trail[i]
		if t.i < len(t.o.c) {
			t.o.c[t.i] = t.old
		}
		if t.ln < len(t.o.c) {
			t.o.c = t.o.c[:t.ln]
		}
	}
	m.trail = m.trail[:0]
	for i := len(m.mtrail) - 1; i >= 0; i-- {
		t := m.mtrail[i]
		t.m.idx, t.m.ents, t.m.live, t.m.nsym = t.idx, t.ents, t.live, t.nsym
	}
	m.mtrail = m.mtrail[:0]
}

func (m *M) resetPath(it *Item) {
	m.item = it
	m.model = append([]uint64(nil), it.model...)
	m.vars = m.vars[:0]
	m.dom = m.dom[:0]
	m.ent = m.ent[:0]
	m.known = map[uint32]bool{}
	m.mcs = m.mcs[:0]
	m.ndec = 0
	m.phash = 0
	m.steps = 0
	m.depth = 0
	m.sp = 0
	m.obs = m.obs[:0]
	m.jtoks = m.jtoks[:0]
	m.reached = map[string]bool{}
	m.mapMode = 0
	m.gen = 1
	m.iso = false
	m.mon = nil
	m.panicFr = nil
	m.dyn = pathDyn{}
	m.modelChanged()
}

func trailing(x uint64) int {
	n := 0
	for x&1 == 0 {
		x >>= 1
		n++
	}
	return n
}

// ---- maps ----

func (m *M) keyStr(k V, t *RType) (string, bool) {
	switch t.kind {
	case KString:
		return cstr(k)
	case KInt, KBool, KFloat:
		if k.sym() != nil {
			e := k.sym()
			x := m.val(e)
			if x.p != nil {
				return "", false
			}
			k = x
		}
		return string([]byte{byte(k.n), byte(k.n >> 8), byte(k.n >> 16), byte(k.n >> 24), byte(k.n >> 32), byte(k.n >> 40), byte(k.n >> 48), byte(k.n >> 56)}), true
	case KIface:
		if k.p == nil {
			return "nil", true
		}
		i := k.p.(*Iface)
		s, ok := m.keyStr(i.v, i.t)
		return fmt.Sprintf("%d:%s", i.t.id, s), ok
	case KPtr:
		if k.p == nil {
			return "nil", true
		}
		return fmt.Sprintf("%p+%d", k.p, k.n), true
	case KStruct:
		s := ""
		ok := true
		for _, f := range t.fields {
			var c V
			if f.t.agg() {
				c = V{p: &Agg{c: m.aggCells(k, t.size)[f.off : f.off+f.t.size]}}
			} else {
				c = m.aggCells(k, t.size)[f.off]
			}
			x, o := m.keyStr(c, f.t)
			s += fmt.Sprintf("%d:%s,", len(x), x)
			ok = ok && o
		}
		return s, ok
	case KArray:
		s := ""
		ok := true
		for i := 0; i < t.n; i++ {
			x, o := m.keyStr(m.aggCells(k, t.size)[i], t.elem)
			s += fmt.Sprintf("%d:%s,", len(x), x)
			ok = ok && o
		}
		return s, ok
	}
	m.unsupported("map key type %v", t)
	return "", false
}

func (m *M) aggCells(v V, size int) []V {
	if v.p == nil {
		return make([]V, size)
	}
	return v.p.(*Agg).c
}

func (m *M) normKey(k V, t *RType) V {
	if t.kind == KString {
		if s := k.str(); s != nil && s.b != nil {
			return m.normStr(s)
		}
	}
	return k
}

// find entry index or -1
func (m *M) mapFind(mp *Map, k V) int {
	kt := mp.t.key
	k = m.normKey(k, kt)
	ks, conc := m.keyStr(k, kt)
	if conc {
		if i, ok := mp.idx[ks]; ok {
			return i
		}
		if mp.nsym == 0 {
			return -1
		}
	}
	for i := range mp.ents {
		e := &mp.ents[i]
		if e.del || conc && !e.sym {
			continue
		}
		c := m.eqV(e.k, k, kt)
		if m.cbool(c) {
			return i
		}
	}
	return -1
}

func (m *M) mapGet(mp *Map, k V) (V, bool) {
	if mp == nil {
		return V{}, false
	}
	if m.mon != nil && mp.gen < m.gen {
		m.mon.readMap(m, mp)
	}
	i := m.mapFind(mp, k)
	if i < 0 {
		return V{}, false
	}
	return mp.ents[i].v, true
}

func (m *M) mapTouch(mp *Map) {
	if m.mon != nil && mp.gen < m.gen {
		m.mon.writeMap(m, mp)
	}
	if mp.init && m.inRun {
		m.mtrail = append(m.mtrail, mtrailEnt{mp, mp.idx, mp.ents, mp.live, mp.nsym})
		ni := make(map[string]int, len(mp.idx))
		for k, v := range mp.idx {
			ni[k] = v
		}
		mp.idx = ni
		mp.ents = append([]ment(nil), mp.ents...)
	}
}

func (m *M) mapSet(mp *Map, k, v V) {
	m.mapTouch(mp)
	if m.mon != nil && mp.gen < m.gen {
		m.publish(k)
		m.publish(v)
	}
	i := m.mapFind(mp, k)
	if i >= 0 {
		mp.ents[i].v = v
		return
	}
	k = m.normKey(k, mp.t.key)
	ks, conc := m.keyStr(k, mp.t.key)
	mp.ents = append(mp.ents, ment{k: k, v: v, sym: !conc})
	mp.live++
	if conc {
		mp.idx[ks] = len(mp.ents) - 1
	} else {
		mp.nsym++
	}
}

func (m *M) mapDelete(mp *Map, k V) {
	if mp == nil {
		return
	}
	m.mapTouch(mp)
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	e := &mp.ents[i]
	e.del = true
	mp.live--
	if e.sym {
		mp.nsym--
	} else {
		ks, _ := m.keyStr(e.k, mp.t.key)
		delete(mp.idx, ks)
	}
}

func (m *M) newMap(t *RType) *Map {
	mp := &Map{t: t, idx: map[string]int{}}
	if m.inRun {
		mp.gen = m.gen
	} else {
		mp.init = true
	}
	return mp
}

func (m *M) mapOrder(mp *Map) []int {
	var r []int
	for i := range mp.ents {
		if !mp.ents[i].del {
			r = append(r, i)
		}
	}
	switch m.mapMode {
	case 1: // reverse
		for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	case 2: // sorted by key text
		ks := map[int]string{}
		for _, i := range r {
			ks[i], _ = m.keyStr(mp.ents[i].k, mp.t.key)
		}
		sort.SliceStable(r, func(a, b int) bool { return ks[r[a]] < ks[r[b]] })
	case 3: // any order: forked
		for i := 0; i+1 < len(r); i++ {
			n := len(r) - i
			if n > 8 {
				n = 8
			}
			var d Set
			for k := 0; k < n; k++ {
				d.add(uint64(k))
			}
			e := m.newByte("maporder", d)
			j := i + int(m.concretize(e))
			x := r[j]
			copy(r[i+1:j+1], r[i:j])
			r[i] = x
		}
	}
	return r
}
