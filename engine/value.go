package main

import (
	"fmt"
	"math"
	"strings"
)

// V is a run-time value. Zero V is the zero value of every non-aggregate type
// (and, with p==nil, of every aggregate).
type V struct {
	n uint64
	p any
}

// Str: concrete when b==nil.
type Str struct {
	s string
	b []*Expr
}

func (s *Str) len() int {
	if s == nil {
		return 0
	}
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

type Agg struct{ c []V }

type Obj struct {
	c    []V
	size int
	init bool // allocated before the path started
	gen  uint32
	t    *RType
	name string
	own  *Map
}

func (o *Obj) get(i int) V {
	if i < len(o.c) {
		return o.c[i]
	}
	return V{}
}

type Slice struct {
	o             *Obj
	off, len, cap int // off in cells, len/cap in elements
}

type Iface struct {
	t *RType
	v V
}

type Closure struct {
	f  *Func
	fv []V
}

type BoundIntr struct {
	name string
	fn   func(m *M, args []V) V
}

type Map struct {
	t     *RType
	idx   map[string]int // canonical key of concrete keys -> entry index
	ents  []ment
	live  int
	nsym  int
	init  bool
	gen   uint32
	owner *Obj
}

type ment struct {
	k, v V
	del  bool
	sym  bool
}

type MapIter struct {
	m     *Map
	order []int
	pos   int
	str   *Str
	i     int
	isStr bool
}

type GoPanic struct {
	v     V // interface value
	trace string
}

func str(s string) V {
	if s == "" {
		return V{}
	}
	return V{p: &Str{s: s}}
}

func (v V) str() *Str {
	if v.p == nil {
		return nil
	}
	return v.p.(*Str)
}

func (v V) sym() *Expr {
	if v.p == nil {
		return nil
	}
	e, _ := v.p.(*Expr)
	return e
}

func boolV(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}

func intV(i int) V { return V{n: uint64(i)} }

func (v V) f64() float64 { return math.Float64frombits(v.n) }

// cstr returns the concrete string or ok=false
func cstr(v V) (string, bool) {
	if v.p == nil {
		return "", true
	}
	s, ok := v.p.(*Str)
	if !ok {
		panic(fmt.Sprintf("not a string: %T", v.p))
	}
	if s.b != nil {
		return "", false
	}
	return s.s, true
}

func dumpV(v V, depth int) string {
	if depth > 6 {
		return "..."
	}
	switch p := v.p.(type) {
	case nil:
		return fmt.Sprintf("%d", int64(v.n))
	case *Expr:
		return p.String()
	case *Str:
		if p.b == nil {
			return fmt.Sprintf("%q", p.s)
		}
		var sb strings.Builder
		for _, e := range p.b {
			if e.isConst() {
				sb.WriteByte(byte(e.val))
			} else {
				sb.WriteString("{" + e.String() + "}")
			}
		}
		return "'" + sb.String() + "'"
	case *Agg:
		s := "{"
		for _, c := range p.c {
			s += dumpV(c, depth+1) + " "
		}
		return s + "}"
	case *Obj:
		return fmt.Sprintf("&obj%p+%d", p, v.n)
	case *Iface:
		return p.t.String() + "(" + dumpV(p.v, depth+1) + ")"
	case *Slice:
		return fmt.Sprintf("slice[%d:%d]", p.len, p.cap)
	case *Closure:
		return "func " + p.f.name
	}
	return fmt.Sprintf("%T", v.p)
}
