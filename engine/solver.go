package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// One z3 process per worker.
type Solver struct {
	b       *Builder
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	tabSent map[tabUse]int
	setSent map[int]bool
	cache   map[string]solverRes

	queries   int
	hits      int
	sat       int
	unsat     int
	unknown   int
	wall      time.Duration
	timeoutMs int
	lastErr   string
	dumpAll   bool
}

type solverRes struct {
	st    int // 1 sat, 0 unsat, -1 unknown
	model map[int]uint64
}

func newSolver(b *Builder) *Solver {
	return &Solver{b: b, cache: map[string]solverRes{}, timeoutMs: 20000}
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3Path, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.tabSent, s.setSent = map[tabUse]int{}, map[int]bool{}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(set-option :model.completion true)\n", s.timeoutMs)
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func bv(w uint8, v uint64) string { return fmt.Sprintf("(_ bv%d %d)", v, w) }

type printer struct {
	s      *Solver
	pre    strings.Builder // global definitions
	body   strings.Builder
	names  map[uint32]string
	vars   map[int]uint8
	toks   map[uint32]bool
	ntmp   int
	tokDec []string
	dom    func(v int) (Set, uint8)
}

// tab names a table as a function of a byte; over is the set of bytes it is asked for, the
// others may take any value.
func (p *printer) tab(t *Table, over Set) string {
	key := tabUse{t.id, over}
	id, ok := p.s.tabSent[key]
	if ok {
		return fmt.Sprintf("T%d", id)
	}
	id = len(p.s.tabSent)
	p.s.tabSent[key] = id
	name := fmt.Sprintf("T%d", id)
	rs := "Bool"
	if t.w > 0 {
		rs = fmt.Sprintf("(_ BitVec %d)", t.w)
	}
	// runs of either equal values or value = i + d
	fmt.Fprintf(&p.pre, "(define-fun %s ((x (_ BitVec 8))) %s ", name, rs)
	x := "x"
	switch {
	case t.w > 8:
		x = fmt.Sprintf("((_ zero_extend %d) x)", t.w-8)
	case t.w > 0 && t.w < 8:
		x = fmt.Sprintf("((_ extract %d 0) x)", t.w-1)
	}
	end := 0
	m := mask(t.w)
	for i := 0; i < 256; {
		for i < 255 && !over.has(uint64(i)) {
			i++
		}
		v, d := t.vals[i]&m, (t.vals[i]-uint64(i))&m
		eq, lin := true, t.w > 0
		j := i + 1
		for ; j < 256; j++ {
			if !over.has(uint64(j)) {
				continue
			}
			e, l := eq && t.vals[j]&m == v, lin && (t.vals[j]-uint64(j))&m == d
			if !e && !l {
				break
			}
			eq, lin = e, l
		}
		val := ""
		switch {
		case t.w == 0:
			val = [2]string{"false", "true"}[v&1]
		case eq:
			val = bv(t.w, v)
		case d == 0:
			val = x
		default:
			val = "(bvadd " + x + " " + bv(t.w, d) + ")"
		}
		rest := false
		for k := j; k < 256; k++ {
			rest = rest || over.has(uint64(k))
		}
		if !rest {
			p.pre.WriteString(val)
			break
		}
		fmt.Fprintf(&p.pre, "(ite (bvule x %s) %s ", bv(8, uint64(j-1)), val)
		end++
		i = j
	}
	p.pre.WriteString(strings.Repeat(")", end) + ")\n")
	return name
}

type tabUse struct {
	id   int
	over Set
}

var allBytes = Set{}.not()

func setRuns(st *Set) [][2]int {
	var r [][2]int
	i := 0
	for i < 256 {
		if !st.has(uint64(i)) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && st.has(uint64(j+1)) {
			j++
		}
		r = append(r, [2]int{i, j})
		i = j + 1
	}
	return r
}

func (p *printer) setName(id int, st *Set) string {
	name := fmt.Sprintf("S%d", id)
	if !p.s.setSent[id] {
		p.s.setSent[id] = true
		fmt.Fprintf(&p.pre, "(define-fun %s ((x (_ BitVec 8))) Bool (or false", name)
		for _, r := range setRuns(st) {
			if r[0] == r[1] {
				fmt.Fprintf(&p.pre, " (= x %s)", bv(8, uint64(r[0])))
			} else {
				fmt.Fprintf(&p.pre, " (and (bvule %s x) (bvule x %s))", bv(8, uint64(r[0])), bv(8, uint64(r[1])))
			}
		}
		p.pre.WriteString("))\n")
	}
	return name
}

func (p *printer) v(i int, w uint8) string {
	p.vars[i] = w
	return "v" + strconv.Itoa(i)
}

func (p *printer) ex(e *Expr) string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.val == 1 {
				return "true"
			}
			return "false"
		}
		return bv(e.w, e.val)
	case OVar:
		return p.v(int(e.val), e.w)
	case OUni:
		if e.tbl == p.s.b.ident {
			return p.v(int(e.val), 8)
		}
		d, w := p.dom(int(e.val))
		if w != 8 || d.empty() {
			d = allBytes
		}
		return "(" + p.tab(e.tbl, d) + " " + p.v(int(e.val), 8) + ")"
	case OIn:
		if e.set.count() == 1 {
			return "(= " + p.v(int(e.val), 8) + " " + bv(8, e.set.first()) + ")"
		}
		return "(" + p.setName(e.sets.id, &e.set) + " " + p.v(int(e.val), 8) + ")"
	}
	if n, ok := p.names[e.id]; ok {
		return n
	}
	var r string
	switch e.op {
	case OTok:
		n := fmt.Sprintf("K%d", e.id)
		srt := fmt.Sprintf("(_ BitVec %d)", e.w)
		if e.w == 0 {
			srt = "Bool"
		}
		p.tokDec = append(p.tokDec, "(declare-const "+n+" "+srt+")\n")
		p.names[e.id] = n
		return n
	case ONot:
		r = "(not " + p.ex(e.a) + ")"
	case OAnd:
		r = "(and " + p.ex(e.a) + " " + p.ex(e.b) + ")"
	case OOr:
		r = "(or " + p.ex(e.a) + " " + p.ex(e.b) + ")"
	case OEq:
		r = "(= " + p.ex(e.a) + " " + p.ex(e.b) + ")"
	case OUlt:
		r = "(bvult " + p.ex(e.a) + " " + p.ex(e.b) + ")"
	case OSlt:
		r = "(bvslt " + p.ex(e.a) + " " + p.ex(e.b) + ")"
	case OIte:
		r = "(ite " + p.ex(e.a) + " " + p.ex(e.b) + " " + p.ex(e.c) + ")"
	case OZext:
		r = fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, p.ex(e.a))
	case OSext:
		r = fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, p.ex(e.a))
	case OTrunc:
		r = fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, p.ex(e.a))
	case OTab:
		a := p.ex(e.a)
		if e.a.w < 8 {
			a = fmt.Sprintf("((_ zero_extend %d) %s)", 8-e.a.w, a)
		} else if e.a.w > 8 {
			a = fmt.Sprintf("((_ extract 7 0) %s)", a)
		}
		r = "(" + p.tab(e.tbl, allBytes) + " " + a + ")"
	default:
		ops := map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OSdiv: "bvsdiv", OUrem: "bvurem", OSrem: "bvsrem",
			OBand: "bvand", OBor: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr"}
		r = "(" + ops[e.op] + " " + p.ex(e.a) + " " + p.ex(e.b) + ")"
	}
	// name shared subterms
	if len(r) > 40 {
		p.ntmp++
		n := fmt.Sprintf("e%d", e.id)
		srt := "Bool"
		if e.w > 0 {
			srt = fmt.Sprintf("(_ BitVec %d)", e.w)
		}
		fmt.Fprintf(&p.body, "(define-fun %s () %s %s)\n", n, srt, r)
		p.names[e.id] = n
		return n
	}
	p.names[e.id] = r
	return r
}

// check satisfiability of the conjunction of cs where byte variables have the given domains
func (s *Solver) check(cs []*Expr, dom func(v int) (Set, uint8)) solverRes {
	// cache key
	var kb strings.Builder
	ids := make([]int, len(cs))
	vs := []int{}
	for i, c := range cs {
		ids[i] = int(c.id)
		vs = mergeVars(vs, c.vars())
	}
	sort.Ints(ids)
	for _, id := range ids {
		kb.WriteString(strconv.Itoa(id))
		kb.WriteByte(',')
	}
	for _, v := range vs {
		d, w := dom(v)
		if w == 8 {
			fmt.Fprintf(&kb, "|%d:%x", v, d)
		}
	}
	key := kb.String()
	if r, ok := s.cache[key]; ok {
		s.hits++
		return r
	}
	s.queries++
	t0 := time.Now()
	r := s.run(cs, vs, dom)
	s.wall += time.Since(t0)
	switch r.st {
	case 1:
		s.sat++
	case 0:
		s.unsat++
	default:
		s.unknown++
	}
	s.cache[key] = r
	return r
}

func (s *Solver) run(cs []*Expr, vs []int, dom func(v int) (Set, uint8)) solverRes {
	if s.cmd == nil {
		s.start()
	}
	p := &printer{s: s, dom: dom, names: map[uint32]string{}, vars: map[int]uint8{}}
	var asserts strings.Builder
	for _, c := range cs {
		asserts.WriteString("(assert " + p.ex(c) + ")\n")
	}
	for _, v := range vs {
		d, w := dom(v)
		if w == 8 && !d.not().empty() {
			p.v(v, 8)
			sd := s.b.setIDs[d]
			if sd == nil {
				sd = &setDef{id: len(s.b.setLst)}
				s.b.setIDs[d] = sd
				s.b.setLst = append(s.b.setLst, d)
			}
			fmt.Fprintf(&asserts, "(assert (%s %s))\n", p.setName(sd.id, &d), p.v(v, 8))
		}
	}
	var q strings.Builder
	q.WriteString(p.pre.String())
	q.WriteString("(push)\n")
	vl := make([]int, 0, len(p.vars))
	for v := range p.vars {
		vl = append(vl, v)
	}
	sort.Ints(vl)
	for _, v := range vl {
		fmt.Fprintf(&q, "(declare-const v%d (_ BitVec %d))\n", v, p.vars[v])
	}
	for _, d := range p.tokDec {
		q.WriteString(d)
	}
	q.WriteString(p.body.String())
	q.WriteString(asserts.String())
	q.WriteString("(check-sat)\n")
	if s.dumpAll {
		fmt.Println("---- query\n" + q.String())
	}
	if _, err := io.WriteString(s.in, q.String()); err != nil {
		s.stop()
		return solverRes{st: -1}
	}
	line, err := s.out.ReadString('\n')
	if err != nil {
		s.lastErr = "solver died"
		s.stop()
		return solverRes{st: -1}
	}
	line = strings.TrimSpace(line)
	res := solverRes{st: -1}
	switch line {
	case "unsat":
		res.st = 0
	case "sat":
		res.st = 1
		res.model = map[int]uint64{}
		if len(vl) > 0 {
			var g strings.Builder
			g.WriteString("(get-value (")
			for _, v := range vl {
				fmt.Fprintf(&g, " v%d", v)
			}
			g.WriteString("))\n")
			io.WriteString(s.in, g.String())
			depth := 0
			var txt strings.Builder
			for {
				l, err := s.out.ReadString('\n')
				if err != nil {
					s.stop()
					return solverRes{st: -1}
				}
				txt.WriteString(l)
				depth += strings.Count(l, "(") - strings.Count(l, ")")
				if depth <= 0 {
					break
				}
			}
			f := strings.FieldsFunc(txt.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
			for i := 0; i+1 < len(f); i += 2 {
				n, err := strconv.Atoi(strings.TrimPrefix(f[i], "v"))
				if err != nil {
					s.lastErr = "bad model: " + txt.String()
					break
				}
				var val uint64
				x := f[i+1]
				if strings.HasPrefix(x, "#x") {
					val, _ = strconv.ParseUint(x[2:], 16, 64)
				} else if strings.HasPrefix(x, "#b") {
					val, _ = strconv.ParseUint(x[2:], 2, 64)
				}
				res.model[n] = val
			}
		}
	case "unknown":
	default:
		s.lastErr = line
		if strings.HasPrefix(line, "(error") {
			// resynchronise: restart
			s.stop()
			return res
		}
	}
	io.WriteString(s.in, "(pop)\n")
	return res
}

var z3Path = "z3-new"
