package main

import (
	"fmt"
	"io"
	"math/big"
	"strings"
	"time"
)

// Comparisons of sums and products as integer arithmetic: every bit-vector operation is
// written as the operation on integers modulo 2^w that it is (the modulus is left out
// where intervals show that nothing wraps), so that z3 decides with its arithmetic solver
// what would be hard to bit-blast. Only the domains of the variables are assumed: an
// unsat answer holds for the path, a sat answer says nothing.
type intPrinter struct {
	m    *M
	def  strings.Builder
	vars map[uint64]bool
	name map[uint32]string
	bad  bool
	n    int
}

func pow2(w uint8) string { return new(big.Int).Lsh(big.NewInt(1), uint(w)).String() }

func (p *intPrinter) wrap(e *Expr, t string) string {
	switch e.op {
	case OAdd, OMul, OShl:
		// an interval is known only where nothing wraps
		if v, ok := p.m.ival(e, 0); ok && v.hi < mask(e.w) {
			return t
		}
	}
	return "(mod " + t + " " + pow2(e.w) + ")"
}

func (p *intPrinter) v(i uint64) string {
	n := fmt.Sprintf("i%d", i)
	if !p.vars[i] {
		p.vars[i] = true
		d := p.m.dom[i]
		fmt.Fprintf(&p.def, "(declare-const %s Int)\n(assert (or", n)
		for _, r := range setRuns(&d) {
			fmt.Fprintf(&p.def, " (and (<= %d %s) (<= %s %d))", r[0], n, n, r[1])
		}
		p.def.WriteString("))\n")
	}
	return n
}

func (p *intPrinter) tab(t *Table, i uint64) string {
	x := p.v(i)
	d := p.m.dom[i]
	var s strings.Builder
	end := 0
	var l []uint64
	for k := uint64(0); k < 256; k++ {
		if d.has(k) {
			l = append(l, k)
		}
	}
	mk := mask(t.w)
	for a := 0; a < len(l); {
		b := a + 1
		v0 := new(big.Int).SetUint64(t.vals[l[a]] & mk)
		df := new(big.Int).Sub(v0, new(big.Int).SetUint64(l[a]))
		eq, lin := true, true
		for ; b < len(l); b++ {
			v := new(big.Int).SetUint64(t.vals[l[b]] & mk)
			e := eq && v.Cmp(v0) == 0
			li := lin && new(big.Int).Sub(v, new(big.Int).SetUint64(l[b])).Cmp(df) == 0
			if !e && !li {
				break
			}
			eq, lin = e, li
		}
		val := v0.String()
		if !eq {
			val = "(+ " + x + " " + smtInt(df) + ")"
		}
		if b == len(l) {
			s.WriteString(val)
			break
		}
		fmt.Fprintf(&s, "(ite (<= %s %d) %s ", x, l[b-1], val)
		end++
		a = b
	}
	return s.String() + strings.Repeat(")", end)
}

func smtInt(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func (p *intPrinter) ex(e *Expr) string {
	if e.op == OConst {
		return new(big.Int).SetUint64(e.val).String()
	}
	if n, ok := p.name[e.id]; ok {
		return n
	}
	p.n++
	if p.n > 2000 {
		p.bad = true
	}
	if p.bad {
		return "0"
	}
	r := ""
	switch e.op {
	case OUni:
		r = p.tab(e.tbl, e.val)
	case OAdd:
		r = p.wrap(e, "(+ "+p.ex(e.a)+" "+p.ex(e.b)+")")
	case OSub:
		r = p.wrap(e, "(- "+p.ex(e.a)+" "+p.ex(e.b)+")")
	case OMul:
		if !e.a.isConst() && !e.b.isConst() {
			p.bad = true
			return "0"
		}
		r = p.wrap(e, "(* "+p.ex(e.a)+" "+p.ex(e.b)+")")
	case OShl:
		if !e.b.isConst() || e.b.val >= uint64(e.w) {
			p.bad = true
			return "0"
		}
		r = p.wrap(e, "(* "+p.ex(e.a)+" "+pow2(uint8(e.b.val))+")")
	case OZext:
		r = p.ex(e.a)
	case OTrunc:
		r = "(mod " + p.ex(e.a) + " " + pow2(e.w) + ")"
	case OSext:
		a := p.ex(e.a)
		d := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(e.w)), new(big.Int).Lsh(big.NewInt(1), uint(e.a.w)))
		r = "(ite (< " + a + " " + pow2(e.a.w-1) + ") " + a + " (+ " + a + " " + d.String() + "))"
	case OBand:
		a, b := e.a, e.b
		if a.isConst() {
			a, b = b, a
		}
		if !b.isConst() || b.val&(b.val+1) != 0 || b.val == 0 || b.val == ^uint64(0) {
			p.bad = true
			return "0"
		}
		r = "(mod " + p.ex(a) + " " + new(big.Int).SetUint64(b.val+1).String() + ")"
	default:
		p.bad = true
		return "0"
	}
	n := fmt.Sprintf("j%d", e.id)
	fmt.Fprintf(&p.def, "(define-fun %s () Int %s)\n", n, r)
	p.name[e.id] = n
	return n
}

// intCheck asks whether the comparison c can have the truth value val: 0 no, -1 not known.
func (m *M) intCheck(c *Expr, val bool) int {
	for c.op == ONot {
		c, val = c.a, !val
	}
	if c.op != OEq && c.op != OUlt && c.op != OSlt || c.a.w < 16 {
		return -1
	}
	p := &intPrinter{m: m, vars: map[uint64]bool{}, name: map[uint32]string{}}
	a, b := p.ex(c.a), p.ex(c.b)
	if p.bad {
		return -1
	}
	t := ""
	switch c.op {
	case OEq:
		t = "(= " + a + " " + b + ")"
	case OUlt:
		t = "(< " + a + " " + b + ")"
	case OSlt:
		s := func(x string) string {
			return "(ite (< " + x + " " + pow2(c.a.w-1) + ") " + x + " (- " + x + " " + pow2(c.a.w) + "))"
		}
		t = "(< " + s(a) + " " + s(b) + ")"
	}
	if !val {
		t = "(not " + t + ")"
	}
	s := m.s
	if s.cmd == nil {
		s.start()
	}
	t0 := time.Now()
	q := "(push)\n(set-option :timeout 4000)\n" + p.def.String() + "(assert " + t + ")\n(check-sat)\n"
	if s.dumpAll {
		fmt.Println("---- query\n" + q)
	}
	if _, err := io.WriteString(s.in, q); err != nil {
		s.stop()
		return -1
	}
	line, err := s.out.ReadString('\n')
	s.wall += time.Since(t0)
	s.queries++
	if err != nil || strings.HasPrefix(line, "(error") {
		s.lastErr = line
		s.stop()
		s.unknown++
		return -1
	}
	fmt.Fprintf(s.in, "(pop)\n(set-option :timeout %d)\n", s.timeoutMs)
	switch strings.TrimSpace(line) {
	case "unsat":
		s.unsat++
		return 0
	case "sat":
		s.sat++
		return -1
	}
	s.unknown++
	return -1
}
