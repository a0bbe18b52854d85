package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

var intrinsics map[string]func(m *M, args []V) V

func tup(v ...V) V { return V{p: &Agg{c: v}} }

func (m *M) mustCstr(v V) string {
	s := v.str()
	if s == nil {
		return ""
	}
	if s.b == nil {
		return s.s
	}
	b := make([]byte, len(s.b))
	for i, e := range s.b {
		b[i] = byte(m.concretize(e))
	}
	return string(b)
}

func rng(lo, hi int) Set {
	var s Set
	for i := lo; i <= hi; i++ {
		s.add(uint64(i))
	}
	return s
}

func (m *M) inSet(e *Expr, lo, hi uint64) *Expr {
	// lo <= e <= hi (unsigned 8 bit)
	b := m.b
	return b.And(b.Not(b.Cmp(OUlt, e, b.Const(8, lo))), b.Not(b.Cmp(OUlt, b.Const(8, hi), e)))
}

// decodeRune decodes at byte offset i (i < len)
func (m *M) decodeRune(s *Str, i int) (V, int) {
	if s.b == nil {
		r, n := utf8.DecodeRuneInString(s.s[i:])
		return V{n: uint64(uint32(r))}, n
	}
	b := m.b
	e0 := m.ex(m.val(s.b[i]), 8)
	lt80 := b.Cmp(OUlt, e0, b.Const(8, 0x80))
	if m.decide(lt80) {
		return m.val(b.Zext(e0, 32)), 1
	}
	n := len(s.b) - i
	if n > 4 {
		n = 4
	}
	conc := true
	bs := make([]byte, n)
	es := make([]*Expr, n)
	for k := 0; k < n; k++ {
		es[k] = m.ex(m.val(s.b[i+k]), 8)
		if es[k].isConst() {
			bs[k] = byte(es[k].val)
		} else {
			conc = false
		}
	}
	if conc {
		r, sz := utf8.DecodeRune(bs)
		return V{n: uint64(uint32(r))}, sz
	}
	bad := V{n: 0xFFFD}
	cont := func(k int) *Expr { return m.inSet(es[k], 0x80, 0xBF) }
	z := func(k int, msk uint64, sh uint64) *Expr {
		return b.Bin(OShl, b.Zext(b.Bin(OBand, es[k], b.Const(8, msk)), 32), b.Const(32, sh))
	}
	if n >= 2 {
		if m.decide(b.And(m.inSet(e0, 0xC2, 0xDF), cont(1))) {
			r := b.Bin(OBor, z(0, 0x1F, 6), z(1, 0x3F, 0))
			m.runeSrc[r.id] = es[:2]
			return m.val(r), 2
		}
	}
	if n >= 3 {
		v := b.Or(b.Or(b.And(m.inSet(e0, 0xE0, 0xE0), m.inSet(es[1], 0xA0, 0xBF)), b.And(m.inSet(e0, 0xED, 0xED), m.inSet(es[1], 0x80, 0x9F))),
			b.And(b.Or(m.inSet(e0, 0xE1, 0xEC), m.inSet(e0, 0xEE, 0xEF)), cont(1)))
		if m.decide(b.And(v, cont(2))) {
			r := b.Bin(OBor, b.Bin(OBor, z(0, 0x0F, 12), z(1, 0x3F, 6)), z(2, 0x3F, 0))
			m.runeSrc[r.id] = es[:3]
			return m.val(r), 3
		}
	}
	if n >= 4 {
		v := b.Or(b.Or(b.And(m.inSet(e0, 0xF0, 0xF0), m.inSet(es[1], 0x90, 0xBF)), b.And(m.inSet(e0, 0xF4, 0xF4), m.inSet(es[1], 0x80, 0x8F))),
			b.And(m.inSet(e0, 0xF1, 0xF3), cont(1)))
		if m.decide(b.And(v, b.And(cont(2), cont(3)))) {
			r := b.Bin(OBor, b.Bin(OBor, z(0, 0x07, 18), z(1, 0x3F, 12)), b.Bin(OBor, z(2, 0x3F, 6), z(3, 0x3F, 0)))
			m.runeSrc[r.id] = es[:4]
			return m.val(r), 4
		}
	}
	return bad, 1
}

func (m *M) runeStr(x V, t *RType) V {
	if x.p == nil {
		v := sext(x.n, t.w)
		if !t.signed {
			v = int64(x.n)
		}
		if v < 0 || v > 0x10FFFF {
			v = 0xFFFD
		}
		return str(string(rune(v)))
	}
	b := m.b
	e := x.p.(*Expr)
	if src, ok := m.runeSrc[e.id]; ok && e.w == 32 {
		return m.mkStr(src)
	}
	w := e.w
	if w < 32 {
		if t.signed {
			e = b.Sext(e, 32)
		} else {
			e = b.Zext(e, 32)
		}
		w = 32
	}
	c := func(v uint64) *Expr { return b.Const(w, v) }
	ult := func(v uint64) bool { return m.decide(b.Cmp(OUlt, e, c(v))) }
	part := func(sh, msk, or uint64) *Expr {
		return b.Bin(OBor, b.Trunc(b.Bin(OBand, b.Bin(OLshr, e, c(sh)), c(msk)), 8), b.Const(8, or))
	}
	mk := func(es ...*Expr) V {
		for i := range es {
			es[i] = m.ex(m.val(es[i]), 8)
		}
		return m.mkStr(es)
	}
	if ult(0x80) {
		return mk(b.Trunc(e, 8))
	}
	if ult(0x800) {
		return mk(part(6, 0x1F, 0xC0), part(0, 0x3F, 0x80))
	}
	if ult(0x10000) {
		if !ult(0xD800) && ult(0xE000) {
			return str("\uFFFD")
		}
		return mk(part(12, 0x0F, 0xE0), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80))
	}
	if ult(0x110000) {
		return mk(part(18, 0x07, 0xF0), part(12, 0x3F, 0x80), part(6, 0x3F, 0x80), part(0, 0x3F, 0x80))
	}
	return str("\uFFFD")
}

func (m *M) caseTab(upper bool) *Table {
	i := 0
	if upper {
		i = 1
	}
	if m.caseT[i] != nil {
		return m.caseT[i]
	}
	var vals [256]uint64
	for k := range vals {
		c := byte(k)
		if !upper && c >= 'A' && c <= 'Z' {
			c += 32
		}
		if upper && c >= 'a' && c <= 'z' {
			c -= 32
		}
		vals[k] = uint64(c)
	}
	m.caseT[i] = m.b.table(8, &vals)
	return m.caseT[i]
}

// all symbolic bytes are ASCII on this path (forks to find out); concrete
// non-ASCII bytes are reported through conc.
func (m *M) asciiBytes(s *Str) bool {
	for _, e := range s.b {
		if e.isConst() {
			if e.val >= 0x80 {
				return false
			}
			continue
		}
		if !m.decide(m.b.Cmp(OUlt, e, m.b.Const(8, 0x80))) {
			return false
		}
	}
	return true
}

func (m *M) toCase(v V, upper bool) V {
	s := v.str()
	if s == nil {
		return V{}
	}
	if s.b == nil {
		if upper {
			return str(strings.ToUpper(s.s))
		}
		return str(strings.ToLower(s.s))
	}
	if !m.asciiBytes(s) {
		// map each concrete or decoded rune separately
		r := V{}
		for i := 0; i < len(s.b); {
			ru, n := m.decodeRune(s, i)
			if ru.p == nil {
				var c string
				ch := rune(int32(ru.n))
				if upper {
					c = strings.ToUpper(string(ch))
				} else {
					c = strings.ToLower(string(ch))
				}
				r = m.concat(r, str(c))
			} else if e := ru.p.(*Expr); n == 1 {
				r = m.concat(r, m.mkStr([]*Expr{m.ex(m.val(m.b.Tab(m.caseTab(upper), m.b.Trunc(e, 8))), 8)}))
			} else {
				m.unsupported("case mapping of a symbolic non-ASCII rune")
			}
			i += n
		}
		return r
	}
	t := m.caseTab(upper)
	nb := make([]*Expr, len(s.b))
	for i, e := range s.b {
		nb[i] = m.ex(m.val(m.b.Tab(t, e)), 8)
	}
	return m.mkStr(nb)
}

func (m *M) equalFold(x, y V) V {
	a, b := x.str(), y.str()
	sa, oka := cstr(x)
	sb, okb := cstr(y)
	if oka && okb {
		return boolV(strings.EqualFold(sa, sb))
	}
	// non-ASCII folds (K, S have non-ASCII partners) only matter when a byte is >= 0x80
	ascii := func(s *Str) bool {
		if s == nil {
			return true
		}
		if s.b == nil {
			for i := 0; i < len(s.s); i++ {
				if s.s[i] >= 0x80 {
					return false
				}
			}
			return true
		}
		// cheap: decide once on the conjunction
		c := m.b.tTrue
		for _, e := range s.b {
			if !e.isConst() {
				c = m.b.And(c, m.b.Cmp(OUlt, e, m.b.Const(8, 0x80)))
			} else if e.val >= 0x80 {
				return false
			}
		}
		return m.decide(c)
	}
	if a.len() == b.len() {
		// fast refutation: some position where both are surely ASCII and differ
		xs, ys := m.sbytes(a), m.sbytes(b)
		t := m.caseTab(false)
		r := m.b.tTrue
		for i := range xs {
			c := m.b.Eq(m.b.Tab(t, xs[i]), m.b.Tab(t, ys[i]))
			r = m.b.And(r, c)
		}
		// ASCII comparison agrees with EqualFold unless non-ASCII bytes are involved:
		// K (U+212A) folds to k, U+017F folds to s; both are multi-byte, so two strings of
		// equal length where one is pure ASCII are equal under folding iff ASCII-equal
		// or the other contains such a rune (which then makes it shorter in runes).
		if isASCIIConst(a) || isASCIIConst(b) {
			// the ASCII side has len runes; the other side has len runes only if all its bytes are ASCII
			return m.val(r)
		}
		if ascii(a) && ascii(b) {
			return m.val(r)
		}
	} else if ascii(a) && ascii(b) {
		return V{}
	}
	m.unsupported("EqualFold on symbolic non-ASCII")
	return V{}
}

func isASCIIConst(s *Str) bool {
	if s == nil {
		return true
	}
	if s.b != nil {
		return false
	}
	for i := 0; i < len(s.s); i++ {
		if s.s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func (m *M) sliceStrs(v V) []V {
	s, _ := v.p.(*Slice)
	if s == nil {
		return nil
	}
	r := make([]V, s.len)
	for i := range r {
		r[i] = s.o.get(s.off + i)
	}
	return r
}

func (m *M) mkSlice(vs []V) V {
	o := m.newObj(len(vs), "slice")
	o.c = vs
	return V{p: &Slice{o: o, len: len(vs), cap: len(vs)}}
}

// format a value for %v / Sprint
func (m *M) fmtV(x V, verb byte) V {
	if x.p == nil {
		return str("<nil>")
	}
	i, ok := x.p.(*Iface)
	if !ok {
		m.unsupported("fmt of %T", x.p)
	}
	if i.t == m.eng.rtErrType {
		return i.v
	}
	if verb != 'd' {
		for _, n := range []string{"Error", "String"} {
			if f := m.eng.methodByName(i.t, n); f != nil && f.f.Signature.Params().Len() == 0 && f.f.Signature.Results().Len() == 1 {
				return m.call(f, []V{i.v})
			}
		}
	}
	switch i.t.kind {
	case KString:
		if verb == 'q' {
			return str(strconv.Quote(m.mustCstr(i.v)))
		}
		return i.v
	case KInt:
		n := i.v.n
		if e := i.v.sym(); e != nil {
			n = m.concretize(e)
		}
		if i.t.signed {
			return str(strconv.FormatInt(sext(n, i.t.w), 10))
		}
		return str(strconv.FormatUint(n, 10))
	case KBool:
		return str(strconv.FormatBool(m.cbool(i.v)))
	case KFloat:
		if i.v.p != nil {
			m.unsupported("fmt of symbolic float")
		}
		return str(strconv.FormatFloat(i.v.f64(), 'g', -1, 64))
	}
	m.unsupported("fmt of %v", i.t)
	return V{}
}

// hostVal is a concrete value for the formatting routines of the host.
func (m *M) hostVal(t *RType, v V, verb byte) (interface{}, bool) {
	if strings.IndexByte("vsq", verb) >= 0 || verb == 'w' {
		if t == m.eng.rtErrType {
			return s0(v.str()), true
		}
		for _, n := range []string{"Error", "String"} {
			if f := m.eng.methodByName(t, n); f != nil && f.f.Signature.Params().Len() == 0 && f.f.Signature.Results().Len() == 1 {
				return m.mustCstr(m.call(f, []V{v})), true
			}
		}
	}
	switch t.kind {
	case KString:
		if s := v.str(); s != nil && s.b != nil {
			return nil, false
		}
		return s0(v.str()), true
	case KInt:
		if v.p != nil {
			return nil, false
		}
		if t.signed {
			return sext(v.n, t.w), true
		}
		if t.w == 8 {
			return uint8(v.n), true
		}
		return v.n, true
	case KBool:
		if v.p != nil {
			return nil, false
		}
		return v.n != 0, true
	case KFloat:
		if v.p != nil {
			return nil, false
		}
		return v.f64(), true
	case KSlice:
		if t.elem == nil || t.elem.agg() {
			return nil, false
		}
		s, _ := v.p.(*Slice)
		if s == nil {
			return []interface{}{}, true
		}
		if t.elem.kind == KInt && t.elem.w == 8 {
			b := make([]byte, s.len)
			for i := range b {
				c := s.o.get(s.off + i)
				if c.p != nil {
					return nil, false
				}
				b[i] = byte(c.n)
			}
			return b, true
		}
		l := make([]interface{}, s.len)
		for i := range l {
			x := s.o.get(s.off + i)
			xt := t.elem
			if xt.kind == KIface {
				if x.p == nil {
					continue
				}
				xt, x = x.p.(*Iface).t, x.p.(*Iface).v
			}
			h, ok := m.hostVal(xt, x, verb)
			if !ok {
				return nil, false
			}
			l[i] = h
		}
		return l, true
	}
	return nil, false
}

func (m *M) sprintf(format string, args []V) V {
	r := V{}
	ai := 0
	lit := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		r = m.concat(r, str(format[lit:i]))
		from := i
		i++
		for i < len(format) && strings.IndexByte("+#0123456789.- ", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			r = m.concat(r, str("%!(NOVERB)"))
			lit = i
			break
		}
		verb := format[i]
		directive := format[from : i+1]
		lit = i + 1
		switch {
		case verb == '%':
			r = m.concat(r, str("%"))
			continue
		case verb == '*' || verb == '[':
			m.unsupported("fmt directive %s", directive)
		case ai >= len(args):
			r = m.concat(r, str("%!"+string(verb)+"(MISSING)"))
			continue
		}
		x := args[ai]
		ai++
		if x.p == nil {
			if verb == 'w' {
				directive = directive[:len(directive)-1] + "v"
			}
			r = m.concat(r, str(fmt.Sprintf(directive, nil)))
			continue
		}
		f, ok := x.p.(*Iface)
		if !ok {
			m.unsupported("fmt of %T", x.p)
		}
		if verb == 'T' {
			r = m.concat(r, str(fmt.Sprintf(strings.Replace(directive, "T", "s", 1), typeName(f.t))))
			continue
		}
		if h, ok := m.hostVal(f.t, f.v, verb); ok {
			if verb == 'w' {
				directive = directive[:len(directive)-1] + "v"
			}
			r = m.concat(r, str(fmt.Sprintf(directive, h)))
			continue
		}
		if len(directive) > 2 {
			m.unsupported("fmt directive %s of a symbolic value", directive)
		}
		switch verb {
		case 's', 'v', 'd', 'w':
			r = m.concat(r, m.fmtV(x, verb))
		case 'q':
			if f.t.kind != KString {
				m.unsupported("fmt directive %s of a symbolic value", directive)
			}
			r = m.concat(r, m.fmtV(x, verb))
		default:
			m.unsupported("fmt directive %s of a symbolic value", directive)
		}
	}
	if lit < len(format) {
		r = m.concat(r, str(format[lit:]))
	}
	if ai < len(args) {
		m.unsupported("fmt with surplus arguments")
	}
	return r
}

// errorf makes an error that wraps the operand of %w.
func (m *M) errorf(format string, args []V) V {
	msg := m.sprintf(format, args)
	at := -1
	for i, ai := 0, 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		for i++; i < len(format) && strings.IndexByte("+#0123456789.- ", format[i]) >= 0; i++ {
		}
		if i < len(format) && format[i] == '%' {
			continue
		}
		if i < len(format) && format[i] == 'w' {
			if at >= 0 {
				m.unsupported("fmt.Errorf with two errors")
			}
			at = ai
		}
		ai++
	}
	if at < 0 || at >= len(args) || args[at].p == nil {
		return m.errV(msg)
	}
	if m.eng.wrapErrType == nil {
		m.unsupported("fmt.wrapError not found")
	}
	o := m.newObj(2, "wrapError")
	m.setCell(o, 0, msg)
	m.setCell(o, 1, args[at])
	return V{p: &Iface{t: m.eng.wrapErrType, v: V{p: o}}}
}

func cmpStr(m *M, a []V) V {
	if m.cbool(m.binStr(token.LSS, a[0], a[1])) {
		return intV(-1)
	}
	return boolV(!m.cbool(m.binStr(token.EQL, a[0], a[1])))
}

// unwrapped gives the errors an error wraps.
func (m *M) unwrapped(e V) []V {
	f := e.p.(*Iface)
	if f.t == m.eng.rtErrType {
		return nil
	}
	u := m.eng.methodByName(f.t, "Unwrap")
	if u == nil || u.f.Signature.Params().Len() != 0 || u.f.Signature.Results().Len() != 1 {
		return nil
	}
	r := m.call(u, []V{f.v})
	switch r.p.(type) {
	case *Iface:
		return []V{r}
	case *Slice:
		return m.sliceStrs(r)
	}
	return nil
}

func (m *M) errorIs(e, target V, d int) V {
	if e.p == nil || target.p == nil {
		return boolV(e.p == nil && target.p == nil)
	}
	if d > 100 {
		m.unsupported("errors.Is depth")
	}
	f := e.p.(*Iface)
	if types.Comparable(target.p.(*Iface).t.t) && m.cbool(m.eqV(e, target, m.eng.anyType)) {
		return V{n: 1}
	}
	if f.t != m.eng.rtErrType {
		if is := m.eng.methodByName(f.t, "Is"); is != nil && is.f.Signature.Params().Len() == 1 {
			if m.cbool(m.call(is, []V{f.v, target})) {
				return V{n: 1}
			}
		}
	}
	for _, w := range m.unwrapped(e) {
		if w.p != nil && m.cbool(m.errorIs(w, target, d+1)) {
			return V{n: 1}
		}
	}
	return V{}
}

func (m *M) errorAs(e, target V, d int) V {
	if e.p == nil {
		return V{}
	}
	if d > 100 {
		m.unsupported("errors.As depth")
	}
	t, ok := target.p.(*Iface)
	if !ok || t.t.kind != KPtr || t.v.p == nil {
		m.unsupported("errors.As target")
	}
	f := e.p.(*Iface)
	want := m.eng.types.get(t.t.t.Underlying().(*types.Pointer).Elem())
	o := t.v.p.(*Obj)
	if want.kind == KIface {
		if f.t == m.eng.rtErrType || types.Implements(f.t.t, want.t.Underlying().(*types.Interface)) {
			m.store(o, int(t.v.n), want, e)
			return V{n: 1}
		}
	} else if f.t == want {
		m.store(o, int(t.v.n), want, f.v)
		return V{n: 1}
	}
	if f.t != m.eng.rtErrType {
		if as := m.eng.methodByName(f.t, "As"); as != nil && as.f.Signature.Params().Len() == 1 {
			if m.cbool(m.call(as, []V{f.v, target})) {
				return V{n: 1}
			}
		}
	}
	for _, w := range m.unwrapped(e) {
		if w.p != nil && m.cbool(m.errorAs(w, target, d+1)) {
			return V{n: 1}
		}
	}
	return V{}
}

func typeName(t *RType) string {
	return types.TypeString(t.t, func(p *types.Package) string { return p.Name() })
}

func (m *M) sprint(args []V, ln bool) V {
	r := V{}
	prevStr := true
	for i, x := range args {
		isS := x.p != nil && x.p.(*Iface).t.kind == KString
		if i > 0 && (ln || !isS && !prevStr) {
			r = m.concat(r, str(" "))
		}
		prevStr = isS
		if x.p != nil {
			if f, ok := x.p.(*Iface); ok {
				if h, ok := m.hostVal(f.t, f.v, 'v'); ok {
					r = m.concat(r, str(fmt.Sprint(h)))
					continue
				}
			}
		}
		r = m.concat(r, m.fmtV(x, 'v'))
	}
	if ln {
		r = m.concat(r, str("\n"))
	}
	return r
}

// fprint hands a text to an io.Writer.
func (m *M) fprint(w V, s V) V {
	if w.p == nil {
		m.unsupported("fmt to a nil writer")
	}
	f, ok := w.p.(*Iface)
	if !ok {
		m.unsupported("fmt to %T", w.p)
	}
	wr := m.eng.methodByName(f.t, "Write")
	if wr == nil {
		m.unsupported("fmt to %v", f.t)
	}
	t := s.str()
	n := t.len()
	vs := make([]V, n)
	for i := range vs {
		if t.b != nil {
			vs[i] = m.val(t.b[i])
		} else {
			vs[i] = V{n: uint64(t.s[i])}
		}
	}
	m.call(wr, []V{f.v, m.mkSlice(vs)})
	return tup(intV(n), V{})
}

// builder: cell 1 holds the accumulated string
func (m *M) sbAppend(p V, s V) {
	o, ok := p.p.(*Obj)
	if !ok {
		m.badPtr(p)
	}
	i := int(p.n) + 1
	m.setCell(o, i, m.concat(o.get(i), s))
}

func byteStr(m *M, v V) V {
	if v.p == nil {
		return str(string([]byte{byte(v.n)}))
	}
	return m.mkStr([]*Expr{v.p.(*Expr)})
}

func (m *M) errV(msg V) V {
	return m.callNamed("errors.New", msg)
}

func (m *M) callNamed(name string, args ...V) V {
	f := m.eng.byName[name]
	if f == nil {
		m.unsupported("function %s not found", name)
	}
	return m.call(f, args)
}

func (m *M) deepEq(x, y V, t *RType, d int) V {
	if d > 200 {
		m.unsupported("DeepEqual depth")
	}
	switch t.kind {
	case KIface:
		if x.p == nil || y.p == nil {
			return boolV(x.p == nil && y.p == nil)
		}
		a, b := x.p.(*Iface), y.p.(*Iface)
		if a.t != b.t {
			return V{}
		}
		return m.deepEq(a.v, b.v, a.t, d+1)
	case KPtr:
		if x.p == y.p && x.n == y.n {
			return V{n: 1}
		}
		if x.p == nil || y.p == nil || t.elem == nil {
			return V{}
		}
		return m.deepEq(m.load(x.p.(*Obj), int(x.n), t.elem), m.load(y.p.(*Obj), int(y.n), t.elem), t.elem, d+1)
	case KSlice:
		if (x.p == nil) != (y.p == nil) {
			return V{}
		}
		if x.p == nil {
			return V{n: 1}
		}
		a, b := x.p.(*Slice), y.p.(*Slice)
		if a.len != b.len {
			return V{}
		}
		r := m.b.tTrue
		for i := 0; i < a.len; i++ {
			es := t.elem.size
			c := m.deepEq(m.load(a.o, a.off+i*es, t.elem), m.load(b.o, b.off+i*es, t.elem), t.elem, d+1)
			r = m.b.And(r, m.ex(c, 0))
		}
		return m.val(r)
	case KMap:
		if (x.p == nil) != (y.p == nil) {
			return V{}
		}
		if x.p == nil {
			return V{n: 1}
		}
		a, b := x.p.(*Map), y.p.(*Map)
		if a.live != b.live {
			return V{}
		}
		r := m.b.tTrue
		for _, e := range a.ents {
			if e.del {
				continue
			}
			v, ok := m.mapGet(b, e.k)
			if !ok {
				return V{}
			}
			r = m.b.And(r, m.ex(m.deepEq(e.v, v, t.elem, d+1), 0))
		}
		return m.val(r)
	case KFunc:
		return boolV(x.p == nil && y.p == nil)
	case KStruct:
		a, b := m.aggCells(x, t.size), m.aggCells(y, t.size)
		r := m.b.tTrue
		for _, f := range t.fields {
			var p, q V
			if f.t.agg() {
				p, q = V{p: &Agg{c: a[f.off : f.off+f.t.size]}}, V{p: &Agg{c: b[f.off : f.off+f.t.size]}}
			} else {
				p, q = a[f.off], b[f.off]
			}
			r = m.b.And(r, m.ex(m.deepEq(p, q, f.t, d+1), 0))
		}
		return m.val(r)
	case KArray:
		a, b := m.aggCells(x, t.size), m.aggCells(y, t.size)
		r := m.b.tTrue
		es := t.elem.size
		for i := 0; i < t.n; i++ {
			var p, q V
			if t.elem.agg() {
				p, q = V{p: &Agg{c: a[i*es : (i+1)*es]}}, V{p: &Agg{c: b[i*es : (i+1)*es]}}
			} else {
				p, q = a[i], b[i]
			}
			r = m.b.And(r, m.ex(m.deepEq(p, q, t.elem, d+1), 0))
		}
		return m.val(r)
	}
	return m.eqV(x, y, t)
}

// stable insertion sort through the interpreted less function (order of calls is
// that of insertion sort; the result equals any stable sort for a strict weak order)
func (m *M) sortSlice(args []V) V {
	if args[0].p == nil {
		return V{}
	}
	i := args[0].p.(*Iface)
	s, _ := i.v.p.(*Slice)
	if s == nil {
		return V{}
	}
	es := i.t.elem.size
	t := i.t.elem
	for a := 1; a < s.len; a++ {
		for b := a; b > 0; b-- {
			if !m.cbool(m.callV(args[1], []V{intV(b), intV(b - 1)})) {
				break
			}
			x := m.load(s.o, s.off+b*es, t)
			y := m.load(s.o, s.off+(b-1)*es, t)
			m.store(s.o, s.off+b*es, t, y)
			m.store(s.o, s.off+(b-1)*es, t, x)
		}
	}
	return V{}
}

// cellSort is a slice of the program that the sort routines of the host permute.
type cellSort struct {
	m    *M
	s    *Slice
	t    *RType
	less V
}

func (c cellSort) Len() int           { return c.s.len }
func (c cellSort) Less(i, j int) bool { return c.m.cbool(c.m.callV(c.less, []V{intV(i), intV(j)})) }
func (c cellSort) Swap(i, j int) {
	x := c.m.load(c.s.o, c.s.off+i*c.t.size, c.t)
	y := c.m.load(c.s.o, c.s.off+j*c.t.size, c.t)
	c.m.store(c.s.o, c.s.off+i*c.t.size, c.t, y)
	c.m.store(c.s.o, c.s.off+j*c.t.size, c.t, x)
}

// unstableSort runs the algorithm of the library, which is not stable for more than 12 items.
func (m *M) unstableSort(args []V) V {
	if args[0].p == nil {
		return V{}
	}
	i := args[0].p.(*Iface)
	if s, _ := i.v.p.(*Slice); s != nil {
		sort.Sort(cellSort{m, s, i.t.elem, args[1]})
	}
	return V{}
}

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func (m *M) base64(b []*Expr) V {
	var vals [256]uint64
	for i := 0; i < 256; i++ {
		vals[i] = uint64(b64[i&63])
	}
	bl := m.b
	t := bl.table(8, &vals)
	c := func(v uint64) *Expr { return bl.Const(8, v) }
	var out []*Expr
	put := func(e *Expr) { out = append(out, m.ex(m.val(bl.Tab(t, e)), 8)) }
	or := func(x, y *Expr) *Expr { return bl.Bin(OBor, x, y) }
	for i := 0; i < len(b); i += 3 {
		n := len(b) - i
		put(bl.Bin(OLshr, b[i], c(2)))
		hi := bl.Bin(OShl, bl.Bin(OBand, b[i], c(3)), c(4))
		if n == 1 {
			put(hi)
			out = append(out, c('='), c('='))
			break
		}
		put(or(hi, bl.Bin(OLshr, b[i+1], c(4))))
		mid := bl.Bin(OShl, bl.Bin(OBand, b[i+1], c(15)), c(2))
		if n == 2 {
			put(mid)
			out = append(out, c('='))
			break
		}
		put(or(mid, bl.Bin(OLshr, b[i+2], c(6))))
		put(bl.Bin(OBand, b[i+2], c(63)))
	}
	return m.mkStr(out)
}

func (m *M) sliceBytes(v V) []*Expr {
	s, _ := v.p.(*Slice)
	if s == nil {
		return nil
	}
	r := make([]*Expr, s.len)
	for i := range r {
		r[i] = m.ex(s.o.get(s.off+i), 8)
	}
	return r
}

func init() {
	ident := func(m *M, a []V) V { return a[0] }
	nop := func(m *M, a []V) V { return V{} }
	intrinsics = map[string]func(m *M, args []V) V{
		"strings.ToLower":   func(m *M, a []V) V { return m.toCase(a[0], false) },
		"strings.ToUpper":   func(m *M, a []V) V { return m.toCase(a[0], true) },
		"strings.EqualFold": func(m *M, a []V) V { return m.equalFold(a[0], a[1]) },
		"strings.Join": func(m *M, a []V) V {
			r := V{}
			for i, x := range m.sliceStrs(a[0]) {
				if i > 0 {
					r = m.concat(r, a[1])
				}
				r = m.concat(r, x)
			}
			return r
		},
		"strings.Repeat": func(m *M, a []V) V {
			n := m.cint(a[1])
			if n < 0 {
				m.goPanic(V{p: &Iface{t: m.eng.rtErrType, v: str("strings: negative Repeat count")}})
			}
			r := V{}
			for i := 0; i < n; i++ {
				r = m.concat(r, a[0])
			}
			return r
		},
		"strings.Clone":              ident,
		"internal/stringslite.Clone": ident,
		"internal/abi.NoEscape":      ident,
		"internal/abi.Escape":        ident,
		"unicode/utf8.DecodeRuneInString": func(m *M, a []V) V {
			s := a[0].str()
			if s.len() == 0 {
				return tup(V{n: 0xFFFD}, V{})
			}
			r, n := m.decodeRune(s, 0)
			return tup(r, intV(n))
		},
		"(*strings.Builder).WriteString": func(m *M, a []V) V {
			m.sbAppend(a[0], a[1])
			return tup(intV(a[1].str().len()), V{})
		},
		"(*strings.Builder).WriteByte": func(m *M, a []V) V { m.sbAppend(a[0], byteStr(m, a[1])); return V{} },
		"(*strings.Builder).WriteRune": func(m *M, a []V) V {
			s := m.runeStr(a[1], m.eng.types.get(typInt32))
			m.sbAppend(a[0], s)
			return tup(intV(s.str().len()), V{})
		},
		"(*strings.Builder).Write": func(m *M, a []V) V {
			b := m.sliceBytes(a[1])
			m.sbAppend(a[0], m.mkStr(b))
			return tup(intV(len(b)), V{})
		},
		"(*strings.Builder).String": func(m *M, a []V) V { return a[0].p.(*Obj).get(int(a[0].n) + 1) },
		"(*strings.Builder).Len":    func(m *M, a []V) V { return intV(a[0].p.(*Obj).get(int(a[0].n) + 1).str().len()) },
		// The first field (the copy check's address, unused here) remembers that
		// memory was reserved.
		"(*strings.Builder).Grow": func(m *M, a []V) V {
			if n := m.cint(a[1]); n < 0 {
				m.goPanic(V{p: &Iface{t: m.eng.rtErrType, v: str("strings.Builder.Grow: negative count")}})
			} else if n > 0 {
				m.setCell(a[0].p.(*Obj), int(a[0].n), intV(1))
			}
			return V{}
		},
		"(*strings.Builder).Cap": func(m *M, a []V) V {
			o, i := a[0].p.(*Obj), int(a[0].n)
			if n := o.get(i + 1).str().len(); n > 0 {
				return intV(n)
			}
			return o.get(i)
		},
		"(*strings.Builder).Reset": func(m *M, a []V) V {
			m.setCell(a[0].p.(*Obj), int(a[0].n), V{})
			m.setCell(a[0].p.(*Obj), int(a[0].n)+1, V{})
			return V{}
		},
		"(*sync.Once).Do": func(m *M, a []V) V {
			o := a[0].p.(*Obj)
			i := int(a[0].n)
			if m.mon != nil {
				return m.mon.once(m, o, i, a[1])
			}
			if o.get(i).n == 0 {
				m.setCell(o, i, V{n: 1})
				m.callV(a[1], nil)
			}
			return V{}
		},
		"(*sync.Mutex).Lock":      func(m *M, a []V) V { m.lock(a[0], 1); return V{} },
		"(*sync.Mutex).Unlock":    func(m *M, a []V) V { m.lock(a[0], -1); return V{} },
		"(*sync.RWMutex).Lock":    func(m *M, a []V) V { m.lock(a[0], 1); return V{} },
		"(*sync.RWMutex).Unlock":  func(m *M, a []V) V { m.lock(a[0], -1); return V{} },
		"(*sync.RWMutex).RLock":   func(m *M, a []V) V { m.lock(a[0], 2); return V{} },
		"(*sync.RWMutex).RUnlock": func(m *M, a []V) V { m.lock(a[0], -2); return V{} },
		"time.Now": func(m *M, a []V) V {
			return m.load(m.nowObj(), 0, m.eng.timeType)
		},
		"time.runtimeNano":      func(m *M, a []V) V { return V{n: 1} },
		"time.runtimeNow":       func(m *M, a []V) V { return tup(V{n: 1700000000}, V{}, V{n: 1}) },
		"time.runtimeIsBubbled": func(m *M, a []V) V { return V{} },
		"time.Sleep":            nop,
		"time.initLocal":        nop, // the local zone is UTC
		"reflect.DeepEqual": func(m *M, a []V) V {
			return m.deepEq(a[0], a[1], m.eng.anyType, 0)
		},
		"maps.clone": func(m *M, a []V) V {
			f, ok := a[0].p.(*Iface)
			if !ok {
				return a[0]
			}
			mp, _ := f.v.p.(*Map)
			if mp == nil {
				return a[0]
			}
			r := m.newMap(mp.t)
			for _, i := range m.mapOrder(mp) {
				m.mapSet(r, mp.ents[i].k, mp.ents[i].v)
			}
			return V{p: &Iface{t: f.t, v: V{p: r}}}
		},
		"internal/bytealg.abigen_runtime_cmpstring": cmpStr,
		"internal/bytealg.CompareString":            cmpStr,
		"errors.Is":                                 func(m *M, a []V) V { return m.errorIs(a[0], a[1], 0) },
		"errors.As":                                 func(m *M, a []V) V { return m.errorAs(a[0], a[1], 0) },
		"sort.SliceStable":                          func(m *M, a []V) V { return m.sortSlice(a) },
		"sort.Slice":                                func(m *M, a []V) V { return m.unstableSort(a) },
		"sort.Strings": func(m *M, a []V) V {
			s, _ := a[0].p.(*Slice)
			if s == nil {
				return V{}
			}
			vs := m.sliceStrs(a[0])
			for i := 1; i < len(vs); i++ {
				for j := i; j > 0 && m.cbool(m.binStr(token.LSS, vs[j], vs[j-1])); j-- {
					vs[j], vs[j-1] = vs[j-1], vs[j]
				}
			}
			for i, v := range vs {
				m.setCell(s.o, s.off+i, v)
			}
			return V{}
		},
		"fmt.Sprint":   func(m *M, a []V) V { return m.sprint(m.sliceStrs(a[0]), false) },
		"fmt.Sprintln": func(m *M, a []V) V { return m.sprint(m.sliceStrs(a[0]), true) },
		"fmt.Sprintf":  func(m *M, a []V) V { return m.sprintf(m.mustCstr(a[0]), m.sliceStrs(a[1])) },
		"fmt.Errorf":   func(m *M, a []V) V { return m.errorf(m.mustCstr(a[0]), m.sliceStrs(a[1])) },
		"fmt.Fprint":   func(m *M, a []V) V { return m.fprint(a[0], m.sprint(m.sliceStrs(a[1]), false)) },
		"fmt.Fprintln": func(m *M, a []V) V { return m.fprint(a[0], m.sprint(m.sliceStrs(a[1]), true)) },
		"fmt.Fprintf": func(m *M, a []V) V {
			return m.fprint(a[0], m.sprintf(m.mustCstr(a[1]), m.sliceStrs(a[2])))
		},
		"fmt.Println": func(m *M, a []V) V { return tup(V{}, V{}) },
		"fmt.Printf":  func(m *M, a []V) V { return tup(V{}, V{}) },
		"math.Float64bits": func(m *M, a []V) V {
			if a[0].p != nil {
				return a[0]
			}
			return V{n: a[0].n}
		},
		"math.Float64frombits": func(m *M, a []V) V { return V{n: a[0].n, p: a[0].p} },
		"math.Float32bits":     func(m *M, a []V) V { return V{n: uint64(math.Float32bits(float32(a[0].f64())))} },
		"math.Float32frombits": func(m *M, a []V) V { return V{n: math.Float64bits(float64(math.Float32frombits(uint32(a[0].n))))} },
		"strconv.Itoa": func(m *M, a []V) V {
			return str(strconv.Itoa(m.cint(a[0])))
		},
		"strconv.ParseFloat": func(m *M, a []V) V {
			s := a[0].str()
			if s == nil || s.b == nil {
				f, err := strconv.ParseFloat(s0(s), m.cint(a[1]))
				if err != nil {
					return tup(V{n: math.Float64bits(f)}, m.errV(str(err.Error())))
				}
				return tup(V{n: math.Float64bits(f)}, V{})
			}
			return m.parseFloat(s, m.cint(a[1]))
		},
		"strconv.Quote": func(m *M, a []V) V { return str(strconv.Quote(m.mustCstr(a[0]))) },
		"strconv.FormatFloat": func(m *M, a []V) V {
			if a[0].p != nil {
				m.unsupported("FormatFloat of symbolic")
			}
			return str(strconv.FormatFloat(a[0].f64(), byte(a[1].n), m.cint(a[2]), m.cint(a[3])))
		},
		"(*encoding/base64.Encoding).EncodeToString": func(m *M, a []V) V { return m.base64(m.sliceBytes(a[1])) },
		"internal/bytealg.IndexByteString": func(m *M, a []V) V {
			b := m.sbytes(a[0].str())
			for i, e := range b {
				if m.decide(m.b.Eq(e, m.ex(a[1], 8))) {
					return intV(i)
				}
			}
			return intV(-1)
		},
		"internal/bytealg.CountString": func(m *M, a []V) V {
			n := 0
			for _, e := range m.sbytes(a[0].str()) {
				if m.decide(m.b.Eq(e, m.ex(a[1], 8))) {
					n++
				}
			}
			return intV(n)
		},
		"internal/bytealg.IndexByte": func(m *M, a []V) V {
			for i, e := range m.sliceBytes(a[0]) {
				if m.decide(m.b.Eq(e, m.ex(a[1], 8))) {
					return intV(i)
				}
			}
			return intV(-1)
		},
		"strings.Index":    strIndex,
		"strings.Contains": func(m *M, a []V) V { return boolV(int64(strIndex(m, a).n) >= 0) },
		"strings.HasPrefix": func(m *M, a []V) V {
			s, p := a[0].str(), a[1].str()
			if p.len() > s.len() {
				return V{}
			}
			if p.len() == 0 {
				return V{n: 1}
			}
			return m.strEq(m.substr(s, 0, p.len()).str(), p)
		},
		"strings.HasSuffix": func(m *M, a []V) V {
			s, p := a[0].str(), a[1].str()
			if p.len() > s.len() {
				return V{}
			}
			if p.len() == 0 {
				return V{n: 1}
			}
			return m.strEq(m.substr(s, s.len()-p.len(), s.len()).str(), p)
		},
		"runtime.GC":                                nop,
		"runtime.KeepAlive":                         nop,
		"internal/race.Acquire":                     nop,
		"internal/race.Release":                     nop,
		"internal/godebug.New":                      func(m *M, a []V) V { return V{p: m.newObj(64, "godebug")} },
		"(*internal/godebug.Setting).Value":         func(m *M, a []V) V { return V{} },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"internal/reflectlite.TypeOf":               nop,
	}
	symIntrinsics()
	jsonIntrinsics()
	syncIntrinsics()
	_ = sort.Ints
	_ = fmt.Sprint
}

func s0(s *Str) string {
	if s == nil {
		return ""
	}
	return s.s
}

func strIndex(m *M, a []V) V {
	sa, oka := cstr(a[0])
	sb, okb := cstr(a[1])
	if oka && okb {
		return intV(strings.Index(sa, sb))
	}
	s, p := a[0].str(), a[1].str()
	for i := 0; i+p.len() <= s.len(); i++ {
		if p.len() == 0 || m.cbool(m.strEq(m.substr(s, i, i+p.len()).str(), p)) {
			return intV(i)
		}
	}
	return intV(-1)
}

// symbolic float literal: the value is an uninterpreted function of the text, so only
// identity (same text, same value) is decided. Syntax validity is checked by the caller's
// grammar; range errors need an exponent and stay concrete.
func (m *M) parseFloat(s *Str, bits int) V {
	for _, e := range s.b {
		if e.isConst() && (e.val == 'e' || e.val == 'E') {
			m.unsupported("symbolic float with exponent")
		}
		if !e.isConst() {
			ok := m.b.Or(m.inSet(e, '0', '9'), m.b.Or(m.b.Eq(e, m.b.Const(8, '.')), m.b.Or(m.b.Eq(e, m.b.Const(8, '+')), m.b.Eq(e, m.b.Const(8, '-')))))
			if !m.decide(ok) {
				return tup(V{}, m.errV(str("invalid syntax")))
			}
		}
	}
	return tup(m.val(m.b.Tok("ParseFloat", 64, s.b)), V{})
}

func (m *M) lock(p V, d int) {
	if m.mon != nil {
		m.mon.lock(m, p, d)
	}
}

func (m *M) nowObj() *Obj {
	if m.now == nil {
		m.now = &Obj{size: m.eng.timeType.size, init: true, name: "now"}
		m.now.c = []V{{n: 0}, {n: 63835596800}, {}}
	}
	return m.now
}
