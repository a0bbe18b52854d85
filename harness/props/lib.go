// Package props holds the harnesses: one function per scenario family, named
// <property>_<scenario>. The engine executes them symbolically over the real parser.
package props

import (
	"strings"

	"soqlverif/sym"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// parse calls the code under test.
func parse(s string) (*SoqlQuery, error) {
	sym.Input(s)
	return parser.Parse(s)
}

// mustParse calls the code under test on a text the grammar accepts.
func mustParse(s string) *SoqlQuery {
	q, err := parse(s)
	sym.Assert(err == nil, "accepted")
	sym.Assert(q != nil, "query-returned")
	return q
}

// mustFail calls the code under test on a text that has to be rejected.
func mustFail(s string) {
	q, err := parse(s)
	sym.Assert(err != nil, "rejected")
	sym.Assert(q == nil, "no-query-with-an-error")
}

func assertStr(got, want, label string)     { sym.Assert(sym.EqStr(got, want), label) }
func assertInt(got, want int, label string) { sym.Assert(got == want, label) }
func check(b bool, label string)            { sym.Assert(b, label) }

func path(names []string) string { return strings.Join(names, ".") }

// foldPath compares two name paths without regard to case.
func foldPath(a []string, b ...string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, sym.EqFold(a[i], b[i]))
	}
	return r
}

// ---- written conditions -----------------------------------------------------

// cond is the meaning of a written condition.
type cond struct {
	kind rune // 'l' leaf, '&', '|', '!'
	a, b *cond
	leaf int
}

type opSpec struct {
	text  string // as written after the field
	op    SoqlConditionOpcode
	compl SoqlConditionOpcode
	typ   SoqlFieldInfoType
}

var ops = []opSpec{
	{"= 1", SoqlConditionOpcode_Eq, SoqlConditionOpcode_NotEq, SoqlFieldInfo_Literal_Int},
	{"!= 1", SoqlConditionOpcode_NotEq, SoqlConditionOpcode_Eq, SoqlFieldInfo_Literal_Int},
	{"< 1", SoqlConditionOpcode_Lt, SoqlConditionOpcode_Ge, SoqlFieldInfo_Literal_Int},
	{"<= 1", SoqlConditionOpcode_Le, SoqlConditionOpcode_Gt, SoqlFieldInfo_Literal_Int},
	{"> 1", SoqlConditionOpcode_Gt, SoqlConditionOpcode_Le, SoqlFieldInfo_Literal_Int},
	{">= 1", SoqlConditionOpcode_Ge, SoqlConditionOpcode_Lt, SoqlFieldInfo_Literal_Int},
	{"LIKE 'x'", SoqlConditionOpcode_Like, SoqlConditionOpcode_NotLike, SoqlFieldInfo_Literal_String},
	{"NOT LIKE 'x'", SoqlConditionOpcode_NotLike, SoqlConditionOpcode_Like, SoqlFieldInfo_Literal_String},
	{"IN (1,2)", SoqlConditionOpcode_In, SoqlConditionOpcode_NotIn, SoqlFieldInfo_Literal_List},
	{"NOT IN (1,2)", SoqlConditionOpcode_NotIn, SoqlConditionOpcode_In, SoqlFieldInfo_Literal_List},
	{"INCLUDES ('x','y')", SoqlConditionOpcode_Includes, SoqlConditionOpcode_Excludes, SoqlFieldInfo_Literal_List},
	{"EXCLUDES ('x','y')", SoqlConditionOpcode_Excludes, SoqlConditionOpcode_Includes, SoqlFieldInfo_Literal_List},
	{"IN (SELECT Id FROM D)", SoqlConditionOpcode_In, SoqlConditionOpcode_NotIn, SoqlFieldInfo_SubQuery},
	{"NOT IN (SELECT Id FROM D)", SoqlConditionOpcode_NotIn, SoqlConditionOpcode_In, SoqlFieldInfo_SubQuery},
}

// evalCond is the meaning of a written condition under the truth values t.
func evalCond(c *cond, t []bool) bool {
	switch c.kind {
	case 'l':
		return t[c.leaf]
	case '!':
		return sym.Not(evalCond(c.a, t))
	case '&':
		return sym.And(evalCond(c.a, t), evalCond(c.b, t))
	}
	return sym.Or(evalCond(c.a, t), evalCond(c.b, t))
}

// evalProgram is the meaning of a condition list of a query, a postfix program whose
// entries are operands and operators. truth gives the value of one comparison.
func evalProgram(cs []SoqlCondition, label string, truth func(l *SoqlFieldInfo, op SoqlConditionOpcode, r *SoqlFieldInfo) bool) bool {
	var vals []bool
	var opr []*SoqlFieldInfo
	for i := range cs {
		c := &cs[i]
		switch c.Opcode {
		case SoqlConditionOpcode_FieldInfo:
			opr = append(opr, &c.Value)
		case SoqlConditionOpcode_And, SoqlConditionOpcode_Or:
			sym.Assert(len(vals) >= 2 && len(opr) == 0, label+"-connective-operands")
			a, b := vals[len(vals)-2], vals[len(vals)-1]
			v := false
			if c.Opcode == SoqlConditionOpcode_And {
				v = sym.And(a, b)
			} else {
				v = sym.Or(a, b)
			}
			vals = append(vals[:len(vals)-2], v)
		case SoqlConditionOpcode_Not:
			sym.Assert(len(vals) >= 1 && len(opr) == 0, label+"-not-operand")
			vals[len(vals)-1] = sym.Not(vals[len(vals)-1])
		case SoqlConditionOpcode_Eq, SoqlConditionOpcode_NotEq, SoqlConditionOpcode_Lt, SoqlConditionOpcode_Le,
			SoqlConditionOpcode_Gt, SoqlConditionOpcode_Ge, SoqlConditionOpcode_Like, SoqlConditionOpcode_NotLike,
			SoqlConditionOpcode_In, SoqlConditionOpcode_NotIn, SoqlConditionOpcode_Includes, SoqlConditionOpcode_Excludes:
			sym.Assert(len(opr) == 2, label+"-comparison-operands")
			vals = append(vals, truth(opr[0], c.Opcode, opr[1]))
			opr = opr[:0]
		default:
			sym.Assert(false, label+"-opcode")
		}
	}
	sym.Assert(len(vals) == 1 && len(opr) == 0, label+"-one-result")
	return vals[0]
}

// condGen writes conditions: every shape with the given number of comparisons.
type condGen struct {
	leaf  func(i int) string // text of comparison i
	and   string
	or    string
	not   string
	lp    string
	rp    string
	units int // 2: c, NOT c; 4: also (c), NOT(c); 6: also (NOT c), NOT(NOT c)
	n     int // comparisons written so far
}

func newCondGen(units int, leaf func(i int) string) *condGen {
	return &condGen{leaf: leaf, and: sym.Case(" and "), or: sym.Case(" or "), not: sym.Case("not "), lp: "(", rp: ")", units: units}
}

func (g *condGen) unit(size int) (string, *cond) {
	if size > 1 {
		neg := sym.Choice("unit", 2)
		s, c := g.seq(size)
		s = g.lp + s + g.rp
		if neg == 1 {
			return g.not + s, &cond{kind: '!', a: c}
		}
		return s, c
	}
	k := sym.Choice("leafunit", g.units)
	s, c := g.leaf(g.n), &cond{kind: 'l', leaf: g.n}
	g.n++
	nc := &cond{kind: '!', a: c}
	switch k {
	case 0:
		return s, c
	case 1:
		return g.not + s, nc
	case 2:
		return g.lp + s + g.rp, c
	case 3:
		return g.not + g.lp + s + g.rp, nc
	case 4:
		return g.lp + g.not + s + g.rp, nc
	}
	return g.not + g.lp + g.not + s + g.rp, &cond{kind: '!', a: nc}
}

// seq writes u1 op u2 op ... with `total` comparisons in all.
func (g *condGen) seq(total int) (string, *cond) {
	if total == 1 {
		return g.unit(1)
	}
	var sum, prod *cond // sum OR (prod), AND binds tighter
	text := ""
	left := total
	for first := true; left > 0; first = false {
		max := left
		if first {
			max = left - 1 // a lone unit of this size is the parenthesised case
		}
		size := 1 + sym.Choice("size", max)
		op := 0
		if !first {
			op = sym.Choice("op", 2)
		}
		s, c := g.unit(size)
		left -= size
		switch {
		case first:
			text, prod = s, c
		case op == 0:
			text, prod = text+g.and+s, &cond{kind: '&', a: prod, b: c}
		default:
			text = text + g.or + s
			if sum == nil {
				sum = prod
			} else {
				sum = &cond{kind: '|', a: sum, b: prod}
			}
			prod = c
		}
	}
	if sum == nil {
		return text, prod
	}
	return text, &cond{kind: '|', a: sum, b: prod}
}

// leafIndex finds the comparison a field was written in: the digit its name ends with.
func leafIndex(f *SoqlFieldInfo) int {
	for f.Type == SoqlFieldInfo_Function {
		sym.Assert(len(f.Parameters) == 1, "function-argument-kept")
		f = &f.Parameters[0]
	}
	sym.Assert(f.Type == SoqlFieldInfo_Field && len(f.Name) > 0, "left-operand-is-a-field")
	n := f.Name[len(f.Name)-1]
	return strings.IndexByte(marks, n[len(n)-1])
}

// marks are the last characters of the names of fields: they number the comparisons.
const marks = "0123456789abcdefghijklmnopqrstuvwxyz"

// longCond writes a condition of n comparisons: a flat chain, a chain nested to the right or
// to the left, or one nested to the right with every level negated; the connectives are
// AND, OR, in turn, or every third an OR.
func longCond(n int, leaf func(i int) string) (string, *cond) {
	form, conn := sym.Choice("form", 4), sym.Choice("connectives", 4)
	or := func(i int) bool { return conn == 1 || conn == 2 && i%2 == 1 || conn == 3 && i%3 == 2 }
	word := func(i int) string {
		if or(i) {
			return " OR "
		}
		return " AND "
	}
	join := func(i int, a, b *cond) *cond {
		if or(i) {
			return &cond{kind: '|', a: a, b: b}
		}
		return &cond{kind: '&', a: a, b: b}
	}
	one := func(i int) *cond { return &cond{kind: 'l', leaf: i} }
	switch form {
	case 0: // AND binds tighter
		text, prod := leaf(0), one(0)
		var sum *cond
		for i := 1; i < n; i++ {
			text += word(i) + leaf(i)
			switch {
			case !or(i):
				prod = join(i, prod, one(i))
			case sum == nil:
				sum, prod = prod, one(i)
			default:
				sum, prod = join(i, sum, prod), one(i)
			}
		}
		if sum == nil {
			return text, prod
		}
		return text, &cond{kind: '|', a: sum, b: prod}
	case 1:
		text, c := leaf(n-1), one(n-1)
		for i := n - 2; i >= 0; i-- {
			text, c = leaf(i)+word(i)+"("+text+")", join(i, one(i), c)
		}
		return text, c
	case 2:
		text, c := leaf(0), one(0)
		for i := 1; i < n; i++ {
			text, c = "("+text+")"+word(i)+leaf(i), join(i, c, one(i))
		}
		return text, c
	}
	text, c := leaf(n-1), one(n-1)
	for i := n - 2; i >= 0; i-- {
		text, c = "NOT ("+leaf(i)+word(i)+"("+text+"))", &cond{kind: '!', a: join(i, one(i), c)}
	}
	return text, c
}

func truths(n int) []bool {
	t := make([]bool, n)
	for i := range t {
		t[i] = sym.Bool("t")
	}
	return t
}

// leafTruth is the value of comparison i under t: the written operator holds when t[i],
// its complement when not t[i].
func leafTruth(sp []opSpec, t []bool, label string) func(l *SoqlFieldInfo, op SoqlConditionOpcode, r *SoqlFieldInfo) bool {
	return func(l *SoqlFieldInfo, op SoqlConditionOpcode, r *SoqlFieldInfo) bool {
		i := leafIndex(l)
		sym.Assert(i >= 0 && i < len(t), label+"-known-field")
		sym.Assert(r.Type == sp[i].typ, label+"-right-operand")
		if op == sp[i].op {
			return t[i]
		}
		sym.Assert(op == sp[i].compl, label+"-operator")
		return sym.Not(t[i])
	}
}

// condSub is the n-th sub-query among the operands of WHERE.
func condSub(q *SoqlQuery, n int) *SoqlQuery {
	for i := range q.Where {
		if q.Where[i].Opcode == SoqlConditionOpcode_FieldInfo && q.Where[i].Value.Type == SoqlFieldInfo_SubQuery {
			if n == 0 {
				return q.Where[i].Value.SubQuery
			}
			n--
		}
	}
	sym.Assert(false, "sub-query-kept")
	return nil
}
