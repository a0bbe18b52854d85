package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"
)

// Summary of encoding/json. The text is real JSON over (possibly symbolic) bytes, with
// one exception: a symbolic number or point in time is written as the marker
// 0x01 kind index 0x02, which no JSON text contains, and read back as that value.
// MarshalJSON, UnmarshalJSON, MarshalText and UnmarshalText methods are executed.

type jtok struct {
	kind byte // 'i' integer, 'f' float, 't' time.Time
	e    *Expr
	time []V
	w    uint8
	sgn  bool
}

type jloc struct {
	o   *Obj // addressable when not nil
	off int
	v   V
}

func (m *M) jget(l jloc, t *RType) V {
	if l.o != nil {
		return m.load(l.o, l.off, t)
	}
	return l.v
}

func (m *M) jsub(l jloc, parent *RType, off int, t *RType) jloc {
	if l.o != nil {
		return jloc{o: l.o, off: l.off + off}
	}
	c := m.aggCells(l.v, parent.size)
	if t.agg() {
		return jloc{v: V{p: &Agg{c: c[off : off+t.size]}}}
	}
	return jloc{v: c[off]}
}

type jfield struct {
	name      string
	path      []jstep
	t         *RType
	omitempty bool
	omitzero  bool
	quoted    bool
	tagged    bool
}

type jstep struct {
	off   int
	t     *RType // type of the field at this step
	deref bool   // an embedded pointer to follow afterwards
}

func (e *Engine) jfields(t *RType) []jfield {
	if x, ok := e.jcache.Load(t); ok {
		return x.([]jfield)
	}
	type cand struct {
		jfield
		depth, order int
	}
	var all []cand
	var walk func(t *RType, path []jstep, depth int, seen map[*RType]bool)
	walk = func(t *RType, path []jstep, depth int, seen map[*RType]bool) {
		if seen[t] {
			return
		}
		s2 := map[*RType]bool{t: true}
		for k := range seen {
			s2[k] = true
		}
		for _, f := range t.fields {
			tag, _ := lookupTag(f.tag, "json")
			if tag == "-" {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			st := f.t
			deref := false
			if f.v.Embedded() && name == "" {
				if st.kind == KPtr {
					st, deref = st.elem, true
				}
				if st.kind == KStruct {
					walk(st, append(append([]jstep{}, path...), jstep{f.off, f.t, deref}), depth+1, s2)
					continue
				}
				st, deref = f.t, false
			}
			if !f.v.Exported() {
				continue
			}
			c := cand{depth: depth, order: len(all)}
			c.tagged = name != ""
			c.name = name
			if name == "" {
				c.name = f.name
			}
			c.t = f.t
			c.path = append(append([]jstep{}, path...), jstep{f.off, f.t, false})
			for _, o := range strings.Split(opts, ",") {
				switch o {
				case "omitempty":
					c.omitempty = true
				case "omitzero":
					c.omitzero = true
				case "string":
					switch f.t.kind {
					case KBool, KInt, KFloat, KString:
						c.quoted = true
					}
				}
			}
			all = append(all, c)
		}
	}
	walk(t, nil, 0, map[*RType]bool{})
	var r []jfield
	for _, c := range all {
		win := true
		for _, d := range all {
			if d.name != c.name || d.order == c.order {
				continue
			}
			if d.depth < c.depth || d.depth == c.depth && (d.tagged || !c.tagged) {
				win = false
			}
		}
		if win {
			r = append(r, c.jfield)
		}
	}
	e.jcache.Store(t, r)
	return r
}

func lookupTag(tag, key string) (string, bool) {
	for tag != "" {
		tag = strings.TrimLeft(tag, " ")
		i := strings.Index(tag, ":\"")
		if i < 0 {
			return "", false
		}
		name := tag[:i]
		tag = tag[i+1:]
		i = 1
		for i < len(tag) && tag[i] != '"' {
			if tag[i] == '\\' {
				i++
			}
			i++
		}
		if i >= len(tag) {
			return "", false
		}
		q := tag[:i+1]
		tag = tag[i+1:]
		if name == key {
			v, err := strconv.Unquote(q)
			return v, err == nil
		}
	}
	return "", false
}

// jmethod is the method of t (nil when it has none) with the given number of parameters
// (besides the receiver) and results.
func (e *Engine) jmethod(t *RType, name string, in, out int) *Func {
	if t.kind == KIface {
		return nil
	}
	type k struct {
		t *RType
		n string
	}
	if x, ok := e.jmeth.Load(k{t, name}); ok {
		return x.(*Func)
	}
	f := e.methodByName(t, name)
	if f != nil {
		var sig *types.Signature
		ms := e.prog.MethodSets.MethodSet(t.t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				sig = ms.At(i).Type().(*types.Signature)
			}
		}
		if sig == nil || sig.Params().Len() != in || sig.Results().Len() != out {
			f = nil
		}
	}
	e.jmeth.Store(k{t, name}, f)
	return f
}

func isRaw(t *RType) bool {
	return t.name == "encoding/json.RawMessage" || t.name == "encoding/json/jsontext.Value"
}

// ---- writing ----

type jw struct {
	m   *M
	out []*Expr
}

type jerr struct{ v V }

func (m *M) jfail(f string, a ...any) { panic(jerr{m.errV(str(fmt.Sprintf(f, a...)))}) }

func (w *jw) s(s string) {
	for i := 0; i < len(s); i++ {
		w.out = append(w.out, w.m.b.Const(8, uint64(s[i])))
	}
}

func (w *jw) tok(t jtok) {
	m := w.m
	for i, x := range m.jtoks {
		if x.kind == t.kind && x.e == t.e && t.e != nil {
			w.s("\x01" + string(t.kind) + strconv.Itoa(i) + "\x02")
			return
		}
		if t.kind == 't' && x.kind == 't' && x.time[0] == t.time[0] && x.time[1] == t.time[1] && x.time[2] == t.time[2] {
			w.s("\x01t" + strconv.Itoa(i) + "\x02")
			return
		}
	}
	m.jtoks = append(m.jtoks, t)
	w.s("\x01" + string(t.kind) + strconv.Itoa(len(m.jtoks)-1) + "\x02")
}

func (w *jw) slice() V { return w.m.bytesV(w.out) }

func (m *M) bytesV(b []*Expr) V {
	o := m.newObj(len(b), "json")
	o.c = make([]V, len(b))
	for i, e := range b {
		if e.isConst() {
			o.c[i] = V{n: e.val}
		} else {
			o.c[i] = V{p: e}
		}
	}
	return V{p: &Slice{o: o, len: len(b), cap: len(b)}}
}

func jesc(c byte) string {
	b, _ := json.Marshal(string([]byte{c}))
	return string(b[1 : len(b)-1])
}

func (w *jw) str(s *Str) {
	m := w.m
	w.s(`"`)
	if s != nil && s.b == nil {
		b, _ := json.Marshal(s.s)
		w.s(string(b[1:]))
		return
	}
	if s != nil {
		b := m.b
		for i := 0; i < len(s.b); {
			e := m.ex(m.val(s.b[i]), 8)
			if e.isConst() && e.val < 0x80 {
				w.s(jesc(byte(e.val)))
				i++
				continue
			}
			if m.decide(b.Cmp(OUlt, e, b.Const(8, 0x80))) {
				sp := b.Cmp(OUlt, e, b.Const(8, 0x20))
				for _, c := range `"\<>&` {
					sp = b.Or(sp, b.Eq(e, b.Const(8, uint64(c))))
				}
				if m.decide(sp) {
					w.s(jesc(byte(m.concretize(e))))
				} else {
					w.out = append(w.out, e)
				}
				i++
				continue
			}
			r, n := m.decodeRune(s, i)
			if n == 1 {
				w.s(`\ufffd`)
				i++
				continue
			}
			re := m.ex(r, 32)
			if m.decide(b.Or(b.Eq(re, b.Const(32, 0x2028)), b.Eq(re, b.Const(32, 0x2029)))) {
				w.s(fmt.Sprintf(`\u%04x`, m.concretize(re)))
			} else {
				w.out = append(w.out, s.b[i:i+n]...)
			}
			i += n
		}
	}
	w.s(`"`)
}

func (w *jw) method(f *Func, recv V) bool {
	r := w.m.call(f, []V{recv}).p.(*Agg)
	if r.c[1].p != nil {
		panic(jerr{r.c[1]})
	}
	p := &jp{m: w.m, b: w.m.sliceBytes(r.c[0])}
	n := p.top()
	if n == nil {
		w.m.jfail("json: error calling MarshalJSON: invalid JSON")
	}
	w.compact(p, n)
	return true
}

func (w *jw) compact(p *jp, n *jnode) {
	switch n.kind {
	case 'o':
		w.s("{")
		for i, x := range n.sub {
			if i > 0 {
				w.s(",")
			}
			w.raw(p, n.kpos[i][0], n.kpos[i][1])
			w.s(":")
			w.compact(p, x)
		}
		w.s("}")
	case 'a':
		w.s("[")
		for i, x := range n.sub {
			if i > 0 {
				w.s(",")
			}
			w.compact(p, x)
		}
		w.s("]")
	default:
		w.raw(p, n.start, n.end)
	}
}

// raw copies a scalar; the characters <, > and & are escaped as json.Marshal does.
func (w *jw) raw(p *jp, i, j int) {
	for ; i < j; i++ {
		e := p.b[i]
		if e.isConst() && (e.val == '<' || e.val == '>' || e.val == '&') {
			w.s(jesc(byte(e.val)))
			continue
		}
		w.out = append(w.out, e)
	}
}

func (m *M) jempty(v V, t *RType) bool {
	switch t.kind {
	case KBool, KInt:
		if v.p != nil {
			return !m.cbool(m.val(m.neq0(v, t)))
		}
		return v.n == 0
	case KFloat:
		if v.p != nil {
			m.unsupported("omitempty of a symbolic float")
		}
		return v.f64() == 0
	case KString:
		return v.str().len() == 0
	case KSlice:
		return v.p == nil || v.p.(*Slice).len == 0
	case KMap:
		return v.p == nil || v.p.(*Map).live == 0
	case KArray:
		return t.n == 0
	case KPtr, KIface:
		return v.p == nil
	}
	return false
}

func (m *M) neq0(v V, t *RType) *Expr {
	e := v.p.(*Expr)
	if t.kind == KBool {
		return e
	}
	return m.b.Not(m.b.Eq(e, m.b.Const(e.w, 0)))
}

func (m *M) jzero(v V, t *RType) bool {
	if f := m.eng.jmethod(t, "IsZero", 0, 1); f != nil {
		return m.cbool(m.call(f, []V{v}))
	}
	switch t.kind {
	case KStruct:
		for _, f := range t.fields {
			if !m.jzero(m.jget(m.jsub(jloc{v: v}, t, f.off, f.t), f.t), f.t) {
				return false
			}
		}
		return true
	case KArray:
		for i := 0; i < t.n; i++ {
			if !m.jzero(m.jget(m.jsub(jloc{v: v}, t, i*t.elem.size, t.elem), t.elem), t.elem) {
				return false
			}
		}
		return true
	case KSlice, KMap:
		return v.p == nil
	}
	return m.jempty(v, t)
}

func (w *jw) value(l jloc, t *RType, quoted bool, depth int) {
	m := w.m
	if depth > 1000 {
		m.jfail("json: unsupported value: encountered a cycle")
	}
	if t.kind == KIface {
		v := m.jget(l, t)
		if v.p == nil {
			w.s("null")
			return
		}
		i := v.p.(*Iface)
		w.value(jloc{v: i.v}, i.t, quoted, depth+1)
		return
	}
	if isRaw(t) {
		v := m.jget(l, t)
		if v.p == nil {
			w.s("null")
			return
		}
		p := &jp{m: m, b: m.sliceBytes(v)}
		n := p.top()
		if n == nil {
			m.jfail("json: error calling MarshalJSON for type json.RawMessage")
		}
		w.compact(p, n)
		return
	}
	if t == m.eng.timeType {
		c := m.aggCells(m.jget(l, t), t.size)
		if c[0].p != nil || c[1].p != nil {
			w.time(c)
			return
		}
	}
	for _, k := range [2]struct {
		n    string
		text bool
	}{{"MarshalJSON", false}, {"MarshalText", true}} {
		var f *Func
		var recv V
		if f = m.eng.jmethod(t, k.n, 0, 2); f != nil {
			recv = m.jget(l, t)
			if t.kind == KPtr && recv.p == nil {
				w.s("null")
				return
			}
		} else if t.kind != KPtr && l.o != nil {
			if f = m.eng.jmethod(m.eng.ptrTo(t), k.n, 0, 2); f != nil {
				recv = V{n: uint64(l.off), p: l.o}
			}
		}
		if f == nil {
			continue
		}
		if !k.text {
			w.method(f, recv)
			return
		}
		r := m.call(f, []V{recv}).p.(*Agg)
		if r.c[1].p != nil {
			panic(jerr{r.c[1]})
		}
		w.str(m.mkStr(m.sliceBytes(r.c[0])).str())
		return
	}
	v := V{}
	if t.kind != KStruct && t.kind != KArray {
		v = m.jget(l, t)
	}
	if quoted {
		if t.kind == KString {
			w2 := &jw{m: m}
			w2.str(v.str())
			w.str(m.mkStr(w2.out).str())
			return
		}
		w.s(`"`)
		defer w.s(`"`)
	}
	switch t.kind {
	case KBool:
		if m.cbool(v) {
			w.s("true")
		} else {
			w.s("false")
		}
	case KInt:
		if v.p != nil {
			x := m.val(v.p.(*Expr))
			if x.p != nil {
				w.tok(jtok{kind: 'i', e: x.p.(*Expr), w: t.w, sgn: t.signed})
				return
			}
			v = x
		}
		if t.signed {
			w.s(strconv.FormatInt(sext(v.n, t.w), 10))
		} else {
			w.s(strconv.FormatUint(v.n, 10))
		}
	case KFloat:
		if v.p != nil {
			w.tok(jtok{kind: 'f', e: v.p.(*Expr), w: t.w})
			return
		}
		f := v.f64()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			m.jfail("json: unsupported value: %s", strconv.FormatFloat(f, 'g', -1, 64))
		}
		if t.w == 32 {
			b, _ := json.Marshal(float32(f))
			w.s(string(b))
			return
		}
		b, _ := json.Marshal(f)
		w.s(string(b))
	case KString:
		w.str(v.str())
	case KPtr:
		if t.elem == nil || t.isPtr {
			m.jfail("json: unsupported type: %v", t)
		}
		if v.p == nil {
			w.s("null")
			return
		}
		w.value(jloc{o: v.p.(*Obj), off: int(v.n)}, t.elem, false, depth+1)
	case KSlice:
		if v.p == nil {
			w.s("null")
			return
		}
		s := v.p.(*Slice)
		if t.elem.kind == KInt && t.elem.w == 8 && !t.elem.signed &&
			m.eng.jmethod(m.eng.ptrTo(t.elem), "MarshalJSON", 0, 2) == nil && m.eng.jmethod(m.eng.ptrTo(t.elem), "MarshalText", 0, 2) == nil {
			w.s(`"`)
			w.out = append(w.out, m.sbytes(m.base64(m.sliceBytes(v)).str())...)
			w.s(`"`)
			return
		}
		w.s("[")
		for i := 0; i < s.len; i++ {
			if i > 0 {
				w.s(",")
			}
			w.value(jloc{o: s.o, off: s.off + i*t.elem.size}, t.elem, false, depth+1)
		}
		w.s("]")
	case KArray:
		w.s("[")
		for i := 0; i < t.n; i++ {
			if i > 0 {
				w.s(",")
			}
			w.value(m.jsub(l, t, i*t.elem.size, t.elem), t.elem, false, depth+1)
		}
		w.s("]")
	case KMap:
		if v.p == nil {
			w.s("null")
			return
		}
		mp := v.p.(*Map)
		if m.mon != nil && mp.gen < m.gen {
			m.mon.readMap(m, mp)
		}
		type ent struct {
			k V
			v V
		}
		var es []ent
		for _, e := range mp.ents {
			if e.del {
				continue
			}
			k := e.k
			switch {
			case t.key.kind == KString:
			case m.eng.jmethod(t.key, "MarshalText", 0, 2) != nil:
				r := m.call(m.eng.jmethod(t.key, "MarshalText", 0, 2), []V{k}).p.(*Agg)
				if r.c[1].p != nil {
					panic(jerr{r.c[1]})
				}
				k = m.mkStr(m.sliceBytes(r.c[0]))
			case t.key.kind == KInt:
				n := k.n
				if k.p != nil {
					n = m.concretize(k.p.(*Expr))
				}
				if t.key.signed {
					k = str(strconv.FormatInt(sext(n, t.key.w), 10))
				} else {
					k = str(strconv.FormatUint(n, 10))
				}
			default:
				m.jfail("json: unsupported type: %v", t)
			}
			es = append(es, ent{k, e.v})
		}
		for i := 1; i < len(es); i++ {
			for j := i; j > 0 && m.decide(m.strLess(es[j].k.str(), es[j-1].k.str())); j-- {
				es[j], es[j-1] = es[j-1], es[j]
			}
		}
		w.s("{")
		for i, e := range es {
			if i > 0 {
				w.s(",")
			}
			w.str(e.k.str())
			w.s(":")
			w.value(jloc{v: e.v}, t.elem, false, depth+1)
		}
		w.s("}")
	case KStruct:
		w.s("{")
		first := true
	next:
		for _, f := range m.eng.jfields(t) {
			fl, ft := l, t
			for _, st := range f.path {
				fl = m.jsub(fl, ft, st.off, st.t)
				ft = st.t
				if st.deref {
					p := m.jget(fl, ft)
					if p.p == nil {
						continue next
					}
					fl = jloc{o: p.p.(*Obj), off: int(p.n)}
					ft = ft.elem
				}
			}
			if f.omitempty && m.jempty(m.jget(fl, ft), ft) {
				continue
			}
			if f.omitzero && m.jzero(m.jget(fl, ft), ft) {
				continue
			}
			if !first {
				w.s(",")
			}
			first = false
			w.str(&Str{s: f.name})
			w.s(":")
			w.value(fl, ft, f.quoted, depth+1)
		}
		w.s("}")
	default:
		m.jfail("json: unsupported type: %v", t)
	}
}

// time writes a point in time whose seconds or nanoseconds are symbolic.
func (w *jw) time(c []V) {
	m := w.m
	b := m.b
	z := m.call(m.eng.jmethod(m.eng.timeType, "Zone", 0, 2), []V{{p: &Agg{c: c}}}).p.(*Agg)
	off := int64(m.cint(z.c[1]))
	if off%60 != 0 || off <= -86400 || off >= 86400 {
		m.unsupported("JSON of a time with zone offset %d", off)
	}
	ext := m.ex(c[1], 64)
	lo, hi := int64(-31622400)-off, int64(315537897599)-off
	if !m.decide(b.And(b.Not(b.Cmp(OSlt, ext, b.Const(64, uint64(lo)))), b.Not(b.Cmp(OSlt, b.Const(64, uint64(hi)), ext)))) {
		m.jfail("Time.MarshalJSON: year outside of range [0,9999]")
	}
	d := append([]V{}, c...)
	if off == 0 {
		d[2] = V{}
	}
	w.tok(jtok{kind: 't', time: d})
}

func (e *Engine) ptrTo(t *RType) *RType {
	if x, ok := e.jptr.Load(t); ok {
		return x.(*RType)
	}
	r := e.types.get(types.NewPointer(t.t))
	e.jptr.Store(t, r)
	return r
}

func (m *M) jguard(f func()) (err V) {
	depth, slab, sp := m.depth, m.slab, m.sp
	defer func() {
		if x := recover(); x != nil {
			j, ok := x.(jerr)
			if !ok {
				panic(x)
			}
			m.depth, m.slab, m.sp = depth, slab, sp
			err = j.v
		}
	}()
	f()
	return V{}
}

func (m *M) jmarshal(x V) ([]*Expr, V) {
	w := &jw{m: m}
	err := m.jguard(func() {
		if x.p == nil {
			w.s("null")
			return
		}
		i := x.p.(*Iface)
		w.value(jloc{v: i.v}, i.t, false, 0)
	})
	if err.p != nil {
		return nil, err
	}
	return w.out, V{}
}

// ---- reading ----

type jnode struct {
	kind       byte // o a s n b z(null) k(marker)
	start, end int
	str        []*Expr
	keys       [][]*Expr
	kpos       [][2]int
	sub        []*jnode
	num        string
	val        bool
	tok        int
}

type jp struct {
	m *M
	b []*Expr
	i int
}

type jsyntax struct{}

func (p *jp) c() byte {
	if p.i >= len(p.b) {
		panic(jsyntax{})
	}
	e := p.m.ex(p.m.val(p.b[p.i]), 8)
	if e.isConst() {
		return byte(e.val)
	}
	return byte(p.m.concretize(e))
}

func (p *jp) ws() {
	for p.i < len(p.b) {
		switch p.c() {
		case ' ', '\t', '\n', '\r':
			p.i++
		default:
			return
		}
	}
}

// top parses the whole text; nil when it is not JSON.
func (p *jp) top() (n *jnode) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(jsyntax); ok {
				n = nil
				return
			}
			panic(x)
		}
	}()
	n = p.value(0)
	p.ws()
	if p.i != len(p.b) {
		return nil
	}
	return n
}

func (p *jp) lit(s string) {
	for k := 0; k < len(s); k++ {
		if p.c() != s[k] {
			panic(jsyntax{})
		}
		p.i++
	}
}

func (p *jp) value(d int) *jnode {
	if d > 10000 {
		panic(jsyntax{})
	}
	p.ws()
	n := &jnode{start: p.i}
	switch c := p.c(); {
	case c == '{':
		n.kind = 'o'
		p.i++
		p.ws()
		if p.c() == '}' {
			p.i++
			break
		}
		for {
			p.ws()
			a := p.i
			n.keys = append(n.keys, p.string())
			n.kpos = append(n.kpos, [2]int{a, p.i})
			p.ws()
			p.lit(":")
			n.sub = append(n.sub, p.value(d+1))
			p.ws()
			if p.c() == ',' {
				p.i++
				continue
			}
			p.lit("}")
			break
		}
	case c == '[':
		n.kind = 'a'
		p.i++
		p.ws()
		if p.c() == ']' {
			p.i++
			break
		}
		for {
			n.sub = append(n.sub, p.value(d+1))
			p.ws()
			if p.c() == ',' {
				p.i++
				continue
			}
			p.lit("]")
			break
		}
	case c == '"':
		n.kind = 's'
		n.str = p.string()
	case c == 't':
		p.lit("true")
		n.kind, n.val = 'b', true
	case c == 'f':
		p.lit("false")
		n.kind = 'b'
	case c == 'n':
		p.lit("null")
		n.kind = 'z'
	case c == 1:
		p.i += 2
		for p.c() != 2 {
			n.tok = n.tok*10 + int(p.c()-'0')
			p.i++
		}
		p.i++
		n.kind = 'k'
	default:
		n.kind = 'n'
		for p.i < len(p.b) {
			c := p.c()
			if c >= '0' && c <= '9' || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E' {
				n.num += string([]byte{c})
				p.i++
				continue
			}
			break
		}
		if !json.Valid([]byte(n.num)) {
			panic(jsyntax{})
		}
	}
	n.end = p.i
	return n
}

func (p *jp) hex4() rune {
	s := ""
	for k := 0; k < 4; k++ {
		s += string([]byte{p.c()})
		p.i++
	}
	v, err := strconv.ParseUint(s, 16, 32)
	if err != nil {
		panic(jsyntax{})
	}
	return rune(v)
}

func (p *jp) string() []*Expr {
	m, b := p.m, p.m.b
	p.lit(`"`)
	out := []*Expr{}
	put := func(s string) {
		for k := 0; k < len(s); k++ {
			out = append(out, b.Const(8, uint64(s[k])))
		}
	}
	for {
		if p.i >= len(p.b) {
			panic(jsyntax{})
		}
		e := m.ex(m.val(p.b[p.i]), 8)
		if !e.isConst() {
			plain := b.And(b.Not(b.Cmp(OUlt, e, b.Const(8, 0x20))), b.And(b.Cmp(OUlt, e, b.Const(8, 0x80)),
				b.And(b.Not(b.Eq(e, b.Const(8, '"'))), b.Not(b.Eq(e, b.Const(8, '\\'))))))
			if m.decide(plain) {
				out = append(out, e)
				p.i++
				continue
			}
			if m.decide(b.Cmp(OUlt, e, b.Const(8, 0x80))) {
				e = b.Const(8, m.concretize(e))
			}
		}
		if !e.isConst() || e.val >= 0x80 {
			n := p.i + 4
			if n > len(p.b) {
				n = len(p.b)
			}
			_, k := m.decodeRune(&Str{b: p.b[p.i:n]}, 0)
			if k == 1 {
				put("\ufffd")
			} else {
				out = append(out, p.b[p.i:p.i+k]...)
			}
			p.i += k
			continue
		}
		c := byte(e.val)
		p.i++
		switch {
		case c == '"':
			return out
		case c < 0x20:
			panic(jsyntax{})
		case c == '\\':
			c = p.c()
			p.i++
			switch c {
			case '"', '\\', '/':
				put(string([]byte{c}))
			case 'b':
				put("\b")
			case 'f':
				put("\f")
			case 'n':
				put("\n")
			case 'r':
				put("\r")
			case 't':
				put("\t")
			case 'u':
				r := p.hex4()
				if utf16.IsSurrogate(r) {
					j := p.i
					if j+1 < len(p.b) && p.c() == '\\' {
						p.i++
						if p.c() == 'u' {
							p.i++
							if r2 := utf16.DecodeRune(r, p.hex4()); r2 != utf8.RuneError {
								put(string(r2))
								continue
							}
						}
					}
					p.i = j
					r = utf8.RuneError
				}
				put(string(r))
			default:
				panic(jsyntax{})
			}
		default:
			put(string([]byte{c}))
		}
	}
}

type jd struct {
	m   *M
	p   *jp
	err V // first type error; reading goes on
}

func (d *jd) save(f string, a ...any) {
	if d.err.p == nil {
		d.err = d.m.errV(str("json: cannot unmarshal " + fmt.Sprintf(f, a...)))
	}
}

func (d *jd) rawBytes(n *jnode) V { return d.m.bytesV(append([]*Expr{}, d.p.b[n.start:n.end]...)) }

func (d *jd) into(n *jnode, o *Obj, off int, t *RType, quoted bool) {
	m := d.m
	set := func(v V) { m.store(o, off, t, v) }
	if isRaw(t) {
		set(d.rawBytes(n))
		return
	}
	if n.kind == 'k' && t == m.eng.timeType {
		if m.jtoks[n.tok].kind != 't' {
			d.err = m.errV(str("Time.UnmarshalJSON: input is not a JSON string"))
			panic(jerr{d.err})
		}
		set(V{p: &Agg{c: append([]V{}, m.jtoks[n.tok].time...)}})
		return
	}
	if t.kind == KPtr {
		if n.kind == 'z' {
			set(V{})
			return
		}
		cur := m.load(o, off, t)
		if cur.p == nil {
			cur = V{p: m.newObj(t.elem.size, "json")}
			set(cur)
		}
		d.into(n, cur.p.(*Obj), int(cur.n), t.elem, quoted)
		return
	}
	if t.kind != KIface {
		pt := m.eng.ptrTo(t)
		if f := m.eng.jmethod(pt, "UnmarshalJSON", 1, 1); f != nil {
			r := m.call(f, []V{{n: uint64(off), p: o}, d.rawBytes(n)})
			if r.p != nil {
				if n.kind == 'o' || n.kind == 'a' {
					if d.err.p == nil {
						d.err = r
					}
					return
				}
				panic(jerr{r})
			}
			return
		}
		if f := m.eng.jmethod(pt, "UnmarshalText", 1, 1); f != nil && n.kind != 'z' {
			if n.kind != 's' {
				d.save("%s into Go value of type %v", jkind(n), t)
				return
			}
			if r := m.call(f, []V{{n: uint64(off), p: o}, m.bytesV(n.str)}); r.p != nil {
				panic(jerr{r})
			}
			return
		}
	}
	if quoted {
		if n.kind == 'z' {
			return
		}
		if n.kind != 's' {
			d.save("%s into a quoted value", jkind(n))
			return
		}
		p2 := &jp{m: m, b: n.str}
		n2 := p2.top()
		if n2 == nil {
			d.save("an invalid quoted value")
			return
		}
		(&jd{m: m, p: p2}).into(n2, o, off, t, false)
		return
	}
	if n.kind == 'z' {
		switch t.kind {
		case KIface, KMap, KSlice:
			set(V{})
		}
		return
	}
	if t.kind == KIface {
		if cur := m.load(o, off, t); cur.p != nil {
			if i := cur.p.(*Iface); i.t.kind == KPtr && i.v.p != nil {
				d.into(n, i.v.p.(*Obj), int(i.v.n), i.t.elem, false)
				return
			}
		}
		if u, ok := t.t.Underlying().(*types.Interface); !ok || u.NumMethods() > 0 {
			d.save("%s into Go value of type %v", jkind(n), t)
			return
		}
		set(d.any(n))
		return
	}
	bad := func() { d.save("%s into Go value of type %v", jkind(n), t) }
	switch n.kind {
	case 'b':
		if t.kind != KBool {
			bad()
			return
		}
		set(boolV(n.val))
	case 's':
		switch {
		case t.kind == KString:
			set(m.mkStr(n.str))
		case t.kind == KSlice && t.elem.kind == KInt && t.elem.w == 8 && !t.elem.signed:
			s := m.mustCstr(m.mkStr(n.str))
			b, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				d.save("illegal base64 data")
				return
			}
			es := make([]*Expr, len(b))
			for i, c := range b {
				es[i] = m.b.Const(8, uint64(c))
			}
			set(m.bytesV(es))
		default:
			bad()
		}
	case 'n':
		switch t.kind {
		case KInt:
			if t.signed {
				v, err := strconv.ParseInt(n.num, 10, int(t.w))
				if err != nil {
					bad()
					return
				}
				set(V{n: uint64(v) & mask(t.w)})
			} else {
				v, err := strconv.ParseUint(n.num, 10, int(t.w))
				if err != nil {
					bad()
					return
				}
				set(V{n: v})
			}
		case KFloat:
			v, err := strconv.ParseFloat(n.num, int(t.w))
			if err != nil {
				bad()
				return
			}
			set(V{n: math.Float64bits(v)})
		default:
			bad()
		}
	case 'k':
		k := m.jtoks[n.tok]
		switch {
		case k.kind == 'i' && t.kind == KInt && k.w == t.w && k.sgn == t.signed:
			set(V{p: k.e})
		case k.kind == 'i' && t.kind == KInt && k.w < t.w && k.sgn == t.signed:
			if k.sgn {
				set(m.val(m.b.Sext(k.e, t.w)))
			} else {
				set(m.val(m.b.Zext(k.e, t.w)))
			}
		case k.kind == 'f' && t.kind == KFloat && k.w == t.w:
			set(V{p: k.e})
		case k.kind == 'i' && t.kind == KFloat && t.w == 64 && k.w == 64 && k.sgn:
			set(m.val(m.b.Tok("i2f", 64, []*Expr{k.e})))
		case t.kind == KBool || t.kind == KString || t.kind == KStruct || t.kind == KMap || t.kind == KSlice:
			if k.kind == 't' && t.kind == KString {
				m.unsupported("text of a symbolic time")
			}
			bad()
		default:
			m.unsupported("JSON number %c into %v", k.kind, t)
		}
	case 'a':
		switch t.kind {
		case KSlice:
			es := t.elem.size
			no := m.newObj(len(n.sub)*es, "json")
			for i, x := range n.sub {
				d.into(x, no, i*es, t.elem, false)
			}
			set(V{p: &Slice{o: no, len: len(n.sub), cap: len(n.sub)}})
		case KArray:
			for i := 0; i < t.n; i++ {
				if i < len(n.sub) {
					d.into(n.sub[i], o, off+i*t.elem.size, t.elem, false)
				} else {
					m.store(o, off+i*t.elem.size, t.elem, V{})
				}
			}
		default:
			bad()
		}
	case 'o':
		switch t.kind {
		case KMap:
			cur := m.load(o, off, t)
			if cur.p == nil {
				cur = V{p: m.newMap(t)}
				set(cur)
			}
			for i, k := range n.keys {
				var kv V
				switch {
				case t.key.kind == KString:
					kv = m.mkStr(k)
				case m.eng.jmethod(m.eng.ptrTo(t.key), "UnmarshalText", 1, 1) != nil:
					ko := m.newObj(t.key.size, "json")
					if r := m.call(m.eng.jmethod(m.eng.ptrTo(t.key), "UnmarshalText", 1, 1), []V{{p: ko}, m.bytesV(k)}); r.p != nil {
						panic(jerr{r})
					}
					kv = m.load(ko, 0, t.key)
				case t.key.kind == KInt:
					s := m.mustCstr(m.mkStr(k))
					if t.key.signed {
						v, err := strconv.ParseInt(s, 10, int(t.key.w))
						if err != nil {
							d.save("number %s into Go value of type %v", s, t.key)
							continue
						}
						kv = V{n: uint64(v) & mask(t.key.w)}
					} else {
						v, err := strconv.ParseUint(s, 10, int(t.key.w))
						if err != nil {
							d.save("number %s into Go value of type %v", s, t.key)
							continue
						}
						kv = V{n: v}
					}
				default:
					bad()
					return
				}
				eo := m.newObj(t.elem.size, "json")
				d.into(n.sub[i], eo, 0, t.elem, false)
				m.mapSet(cur.p.(*Map), kv, m.load(eo, 0, t.elem))
			}
		case KStruct:
			fs := m.eng.jfields(t)
			for i, k := range n.keys {
				key := m.mustCstr(m.mkStr(k))
				f := -1
				for j := range fs {
					if fs[j].name == key {
						f = j
						break
					}
				}
				if f < 0 {
					for j := range fs {
						if strings.EqualFold(fs[j].name, key) {
							f = j
							break
						}
					}
				}
				if f < 0 {
					continue
				}
				fo, fa, ft := o, off, t
				for _, st := range fs[f].path {
					fa += st.off
					ft = st.t
					if st.deref {
						p := m.load(fo, fa, ft)
						if p.p == nil {
							if !exportedName(ft.elem) {
								d.save("into unexported embedded pointer")
								return
							}
							p = V{p: m.newObj(ft.elem.size, "json")}
							m.store(fo, fa, ft, p)
						}
						fo, fa, ft = p.p.(*Obj), int(p.n), ft.elem
					}
				}
				d.into(n.sub[i], fo, fa, ft, fs[f].quoted)
			}
		default:
			bad()
		}
	}
}

func exportedName(t *RType) bool {
	n, ok := t.t.(*types.Named)
	return ok && n.Obj().Exported()
}

func jkind(n *jnode) string {
	switch n.kind {
	case 'o':
		return "object"
	case 'a':
		return "array"
	case 's':
		return "string"
	case 'b':
		return "bool"
	case 'z':
		return "null"
	}
	return "number"
}

func (d *jd) any(n *jnode) V {
	m := d.m
	iface := func(t types.Type, v V) V { return V{p: &Iface{t: m.eng.types.get(t), v: v}} }
	anyT := types.NewInterfaceType(nil, nil)
	switch n.kind {
	case 'z':
		return V{}
	case 'b':
		return iface(types.Typ[types.Bool], boolV(n.val))
	case 's':
		return iface(types.Typ[types.String], m.mkStr(n.str))
	case 'n':
		f, err := strconv.ParseFloat(n.num, 64)
		if err != nil {
			d.save("number %s into Go value of type float64", n.num)
		}
		return iface(types.Typ[types.Float64], V{n: math.Float64bits(f)})
	case 'k':
		k := m.jtoks[n.tok]
		if k.kind == 'f' && k.w == 64 {
			return iface(types.Typ[types.Float64], V{p: k.e})
		}
		if k.kind == 'i' && k.w == 64 && k.sgn {
			return iface(types.Typ[types.Float64], m.val(m.b.Tok("i2f", 64, []*Expr{k.e})))
		}
		m.unsupported("JSON %c into an interface", k.kind)
	case 'a':
		st := m.eng.types.get(types.NewSlice(anyT))
		o := m.newObj(len(n.sub), "json")
		for i, x := range n.sub {
			m.setCell(o, i, d.any(x))
		}
		return V{p: &Iface{t: st, v: V{p: &Slice{o: o, len: len(n.sub), cap: len(n.sub)}}}}
	case 'o':
		mt := m.eng.types.get(types.NewMap(types.Typ[types.String], anyT))
		mp := m.newMap(mt)
		for i, k := range n.keys {
			m.mapSet(mp, m.mkStr(k), d.any(n.sub[i]))
		}
		return V{p: &Iface{t: mt, v: V{p: mp}}}
	}
	return V{}
}

func (m *M) junmarshal(b []*Expr, x V) V {
	p := &jp{m: m, b: b}
	n := p.top()
	if n == nil {
		if len(b) == 0 {
			return m.errV(str("unexpected end of JSON input"))
		}
		return m.errV(str("invalid JSON text"))
	}
	if x.p == nil {
		return m.errV(str("json: Unmarshal(nil)"))
	}
	i := x.p.(*Iface)
	if i.t.kind != KPtr || i.v.p == nil {
		return m.errV(str("json: Unmarshal(non-pointer " + i.t.String() + ")"))
	}
	d := &jd{m: m, p: p}
	if err := m.jguard(func() { d.into1(n, i) }); err.p != nil {
		return err
	}
	return d.err
}

// into1: a method of the pointer itself comes first, for null too.
func (d *jd) into1(n *jnode, i *Iface) {
	d.into(n, i.v.p.(*Obj), int(i.v.n), i.t.elem, false)
}

// jtext replaces the markers by the texts the current model gives them.
func (m *M) jtext(s string) string {
	for k := len(m.jtoks) - 1; k >= 0; k-- {
		t := m.jtoks[k]
		mark := "\x01" + string(t.kind) + strconv.Itoa(k) + "\x02"
		if !strings.Contains(s, mark) {
			continue
		}
		ev := func(v V) uint64 {
			if e := v.sym(); e != nil {
				return m.eval(e)
			}
			return v.n
		}
		x := "?"
		switch {
		case t.kind == 'i' && t.sgn:
			x = strconv.FormatInt(sext(m.eval(t.e), t.w), 10)
		case t.kind == 'i':
			x = strconv.FormatUint(m.eval(t.e), 10)
		case t.kind == 'f' && t.e.op == OTok && t.e.tok == "ParseFloat":
			b := make([]byte, len(t.e.args))
			for i, e := range t.e.args {
				b[i] = byte(m.eval(e))
			}
			if f, err := strconv.ParseFloat(string(b), 64); err == nil {
				j, _ := json.Marshal(f)
				x = string(j)
			}
		case t.kind == 't' && t.time[2].p == nil:
			const unixToInternal = 62135596800
			j, _ := json.Marshal(time.Unix(int64(ev(t.time[1]))-unixToInternal, int64(ev(t.time[0]))).UTC())
			x = string(j)
		}
		s = strings.ReplaceAll(s, mark, x)
	}
	return s
}

func jsonIntrinsics() {
	intrinsics["encoding/json.Marshal"] = func(m *M, a []V) V {
		b, err := m.jmarshal(a[0])
		if err.p != nil {
			return tup(V{}, err)
		}
		return tup(m.bytesV(b), V{})
	}
	intrinsics["encoding/json.MarshalIndent"] = func(m *M, a []V) V {
		b, err := m.jmarshal(a[0])
		if err.p != nil {
			return tup(V{}, err)
		}
		return tup(m.bytesV(m.jindent(b, m.mustCstr(a[1]), m.mustCstr(a[2]))), V{})
	}
	intrinsics["encoding/json.Unmarshal"] = func(m *M, a []V) V { return m.junmarshal(m.sliceBytes(a[0]), a[1]) }
	intrinsics["encoding/json.Valid"] = func(m *M, a []V) V {
		return boolV((&jp{m: m, b: m.sliceBytes(a[0])}).top() != nil)
	}
}

func (m *M) jindent(b []*Expr, prefix, indent string) []*Expr {
	p := &jp{m: m, b: b}
	n := p.top()
	w := &jw{m: m}
	nl := func(d int) { w.s("\n" + prefix + strings.Repeat(indent, d)) }
	var walk func(n *jnode, d int)
	walk = func(n *jnode, d int) {
		switch {
		case n.kind == 'o' && len(n.sub) > 0:
			w.s("{")
			for i, x := range n.sub {
				if i > 0 {
					w.s(",")
				}
				nl(d + 1)
				w.out = append(w.out, b[n.kpos[i][0]:n.kpos[i][1]]...)
				w.s(": ")
				walk(x, d+1)
			}
			nl(d)
			w.s("}")
		case n.kind == 'a' && len(n.sub) > 0:
			w.s("[")
			for i, x := range n.sub {
				if i > 0 {
					w.s(",")
				}
				nl(d + 1)
				walk(x, d+1)
			}
			nl(d)
			w.s("]")
		default:
			w.out = append(w.out, b[n.start:n.end]...)
		}
	}
	walk(n, 0)
	return w.out
}
