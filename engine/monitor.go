package main

import (
	"bytes"
	"fmt"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// Monitor records what several calls, meant to run on a thread each, do to memory that
// more than one of them can reach: plain and atomic accesses cell by cell, and the
// operations of sync in between. The calls are executed one after the other; whether two
// of the accesses can happen at the same time in some other interleaving is then decided
// by z3 over the positions of all operations, as integers, under
//   - program order of each thread,
//   - exclusion of the sections of a lock, and Once bodies before the calls that skip them,
//   - every read before the two accesses still reads what it read in the recorded run,
//     so that both threads really reach them.
type Monitor struct {
	thr []*mthread
	cur *mthread
}

type mthread struct {
	sync   []mev
	acc    []maccess
	seen   map[maccess]bool
	passed map[string]bool
}

type mev struct {
	kind byte // L lock, U unlock, l/u the same for readers, B/E a Once body, P a Once passed
	key  string
}

type ckey struct {
	o  *Obj
	i  int
	mp *Map
}

type maccess struct {
	cell          ckey
	write, atomic bool
	seg           int
	where         string
}

func newMonitor() *Monitor { return &Monitor{} }

func (mo *Monitor) thread() {
	mo.cur = &mthread{seen: map[maccess]bool{}, passed: map[string]bool{}}
	mo.thr = append(mo.thr, mo.cur)
}

func (mo *Monitor) add(m *M, c ckey, write, atomic bool) {
	t := mo.cur
	if t == nil {
		return
	}
	a := maccess{cell: c, write: write, atomic: atomic, seg: len(t.sync)}
	if t.seen[a] {
		return
	}
	t.seen[a] = true
	a.where = m.where()
	t.acc = append(t.acc, a)
}

func (mo *Monitor) write(m *M, o *Obj, i int) { mo.add(m, ckey{o: o, i: i}, true, false) }
func (mo *Monitor) read(m *M, o *Obj, i, n int) {
	for k := i; k < i+n; k++ {
		mo.add(m, ckey{o: o, i: k}, false, false)
	}
}
func (mo *Monitor) writeMap(m *M, mp *Map) { mo.add(m, ckey{mp: mp}, true, false) }
func (mo *Monitor) readMap(m *M, mp *Map)  { mo.add(m, ckey{mp: mp}, false, false) }

func (mo *Monitor) ev(kind byte, key string) {
	if mo.cur != nil {
		mo.cur.sync = append(mo.cur.sync, mev{kind, key})
	}
}

func (mo *Monitor) once(m *M, o *Obj, i int, f V) V {
	key := fmt.Sprintf("once%p+%d", o, i)
	if o.get(i).n == 0 {
		mon := m.mon
		m.mon = nil
		m.setCell(o, i, V{n: 1})
		m.mon = mon
		mo.ev('B', key)
		m.callV(f, nil)
		mo.ev('E', key)
	}
	if mo.cur != nil && !mo.cur.passed[key] {
		mo.cur.passed[key] = true
		mo.ev('P', key)
	}
	return V{}
}

func (mo *Monitor) lock(m *M, p V, d int) {
	key := fmt.Sprintf("mu%p+%d", p.p, p.n)
	mo.ev(map[int]byte{1: 'L', -1: 'U', 2: 'l', -2: 'u'}[d], key)
}

// atomic is an atomic operation on a cell.
func (mo *Monitor) atomic(m *M, o *Obj, i int, write bool) {
	if o.gen < m.gen {
		mo.ev('A', "")
		mo.add(m, ckey{o: o, i: i}, write, true)
		if write {
			mo.add(m, ckey{o: o, i: i}, false, true)
		}
		mo.ev('A', "")
	}
}

// publish notes that v was stored where other threads may find it: what it leads to is
// shared from now on.
func (m *M) publish(v V) {
	switch p := v.p.(type) {
	case *Obj:
		if p.gen == m.gen && !p.init {
			p.gen = m.gen - 1
			for _, c := range p.c {
				m.publish(c)
			}
		}
	case *Slice:
		if p.o != nil {
			m.publish(V{p: p.o})
		}
	case *Iface:
		m.publish(p.v)
	case *Agg:
		for _, c := range p.c {
			m.publish(c)
		}
	case *Closure:
		for _, c := range p.fv {
			m.publish(c)
		}
	case *Map:
		if p.gen == m.gen && !p.init {
			p.gen = m.gen - 1
			for _, e := range p.ents {
				m.publish(e.k)
				m.publish(e.v)
			}
		}
	}
}

// report decides for every two threads whether two conflicting accesses can coincide.
func (mo *Monitor) report(m *M) string {
	found := map[string]bool{}
	for i := range mo.thr {
		for j := i + 1; j < len(mo.thr); j++ {
			mo.pair(m, mo.thr[i], mo.thr[j], found)
		}
	}
	var l []string
	for r := range found {
		l = append(l, r)
	}
	sort.Strings(l)
	if len(l) > 6 {
		l = l[:6]
	}
	return strings.Join(l, "; ")
}

type cellAcc struct{ a, b []int }

func (mo *Monitor) pair(m *M, A, B *mthread, found map[string]bool) {
	cells := map[ckey]*cellAcc{}
	for i, x := range A.acc {
		c := cells[x.cell]
		if c == nil {
			c = &cellAcc{}
			cells[x.cell] = c
		}
		c.a = append(c.a, i)
	}
	for i, x := range B.acc {
		if c := cells[x.cell]; c != nil {
			c.b = append(c.b, i)
		}
	}
	type pr struct{ x, y int }
	var pairs []pr
	wr := func(t *mthread, l []int) bool {
		for _, i := range l {
			if t.acc[i].write {
				return true
			}
		}
		return false
	}
	var shared []ckey // in the order of first access by A
	done := map[ckey]bool{}
	for _, x := range A.acc {
		c := cells[x.cell]
		if done[x.cell] || len(c.b) == 0 || !wr(A, c.a) && !wr(B, c.b) {
			continue
		}
		done[x.cell] = true
		shared = append(shared, x.cell)
		for _, i := range c.a {
			for _, j := range c.b {
				p, q := A.acc[i], B.acc[j]
				if (p.write || q.write) && !(p.atomic && q.atomic) {
					pairs = append(pairs, pr{i, j})
				}
			}
		}
	}
	if len(pairs) == 0 {
		return
	}
	if len(pairs) > 3000 {
		pairs = pairs[:3000]
	}
	var s bytes.Buffer
	s.WriteString("(set-logic QF_IDL)\n")
	sv := func(t string, k int) string { return fmt.Sprintf("s%s%d", t, k) }
	thr := func(n string, t *mthread) {
		for k := range t.sync {
			fmt.Fprintf(&s, "(declare-const %s Int)\n", sv(n, k))
			if k > 0 {
				fmt.Fprintf(&s, "(assert (< %s %s))\n", sv(n, k-1), sv(n, k))
			}
		}
	}
	thr("A", A)
	thr("B", B)
	type section struct {
		from, to int // sync events
		ex       bool
	}
	sections := func(t *mthread) map[string][]section {
		r := map[string][]section{}
		open := map[string]int{}
		for k, e := range t.sync {
			switch e.kind {
			case 'L', 'l':
				open[e.key+string(e.kind)] = k
			case 'U', 'u':
				o := e.key + string(e.kind-'U'+'L')
				if f, ok := open[o]; ok {
					r[e.key] = append(r[e.key], section{f, k, e.kind == 'U'})
					delete(open, o)
				}
			}
		}
		return r
	}
	sa, sb := sections(A), sections(B)
	for k, l := range sa {
		for _, x := range l {
			for _, y := range sb[k] {
				if x.ex || y.ex {
					fmt.Fprintf(&s, "(assert (or (< %s %s) (< %s %s)))\n", sv("A", x.to), sv("B", y.from), sv("B", y.to), sv("A", x.from))
				}
			}
		}
	}
	for k, e := range A.sync {
		for j, f := range B.sync {
			if e.kind == 'E' && f.kind == 'P' && e.key == f.key {
				fmt.Fprintf(&s, "(assert (< %s %s))\n", sv("A", k), sv("B", j))
			}
		}
	}
	used := map[string]map[int]bool{"A": {}, "B": {}}
	av := func(n string, t *mthread, i int) string {
		v := fmt.Sprintf("a%s%d", n, i)
		if used[n][i] {
			return v
		}
		used[n][i] = true
		fmt.Fprintf(&s, "(declare-const %s Int)\n", v)
		g := t.acc[i].seg
		if g > 0 {
			fmt.Fprintf(&s, "(assert (< %s %s))\n", sv(n, g-1), v)
		}
		if g < len(t.sync) {
			fmt.Fprintf(&s, "(assert (< %s %s))\n", v, sv(n, g))
		}
		for k := range used[n] {
			if k != i && t.acc[k].seg == g {
				a, b := k, i
				if a > b {
					a, b = b, a
				}
				fmt.Fprintf(&s, "(assert (< a%s%d a%s%d))\n", n, a, n, b)
			}
		}
		return v
	}
	// what is read: [writer in A, reader in B] and [reader in A, writer in B]
	var rfB, rfA [][2]int
	for _, k := range shared {
		c := cells[k]
		last, firstB := -1, -1
		for _, i := range c.a {
			if A.acc[i].write {
				last = i
			}
		}
		for _, j := range c.b {
			if B.acc[j].write {
				firstB = j
				break
			}
		}
		for _, j := range c.b {
			if !B.acc[j].write && last >= 0 && (firstB < 0 || j < firstB) {
				rfB = append(rfB, [2]int{last, j})
			}
		}
		for _, i := range c.a {
			if !A.acc[i].write && firstB >= 0 {
				rfA = append(rfA, [2]int{i, firstB})
			}
		}
	}
	for _, p := range pairs {
		av("A", A, p.x)
		av("B", B, p.y)
	}
	for _, r := range rfB {
		av("A", A, r[0])
		av("B", B, r[1])
	}
	for _, r := range rfA {
		av("A", A, r[0])
		av("B", B, r[1])
	}
	for _, p := range pairs {
		s.WriteString("(push)\n")
		for _, r := range rfB {
			if r[1] < p.y {
				fmt.Fprintf(&s, "(assert (< aA%d aB%d))\n", r[0], r[1])
			}
		}
		for _, r := range rfA {
			if r[0] < p.x {
				fmt.Fprintf(&s, "(assert (< aA%d aB%d))\n", r[0], r[1])
			}
		}
		fmt.Fprintf(&s, "(assert (= aA%d aB%d))\n(check-sat)\n(pop)\n", p.x, p.y)
	}
	t0 := time.Now()
	c := exec.Command(z3Path, "-in", "-smt2", "-t:20000")
	c.Stdin = &s
	out, err := c.Output()
	if err != nil && len(out) == 0 {
		panic(&pathAbort{abUnknown, "z3: " + err.Error()})
	}
	m.s.wall += time.Since(t0)
	res := strings.Fields(string(out))
	if len(res) != len(pairs) {
		panic(&pathAbort{abUnknown, "z3: " + firstLine(string(out))})
	}
	for i, p := range pairs {
		m.s.queries++
		switch res[i] {
		case "unsat":
			m.s.unsat++
		case "sat":
			m.s.sat++
			x, y := A.acc[p.x], B.acc[p.y]
			found[fmt.Sprintf("%s in %s races with %s in %s on %s", rw(x), x.where, rw(y), y.where, x.cell.name())] = true
		default:
			m.s.unknown++
			panic(&pathAbort{abUnknown, "race query"})
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func rw(a maccess) string {
	if a.write {
		return "write"
	}
	return "read"
}

func (c ckey) name() string {
	if c.mp != nil {
		return "map " + c.mp.t.String()
	}
	return c.o.name
}
