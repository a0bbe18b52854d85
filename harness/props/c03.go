package props

import (
	"strings"

	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// filterOf is the meaning of a filter: no filter lets everything pass.
func filterOf(cs []SoqlCondition, label string, truth func(l *SoqlFieldInfo, op SoqlConditionOpcode, r *SoqlFieldInfo) bool) bool {
	if len(cs) == 0 {
		return true
	}
	return evalProgram(cs, label, truth)
}

func sameName(a, b []string) bool {
	return strings.EqualFold(path(a), path(b))
}

func ownField(o *SoqlObjectInfo, f *SoqlFieldInfo) bool {
	return f.Type == SoqlFieldInfo_Field && len(f.Name) == len(o.Name)+1 && sameName(f.Name[:len(o.Name)], o.Name)
}

// splitOfWhere checks the filters of one query against the written condition.
func splitOfWhere(q *SoqlQuery, c *cond, n int, sp []opSpec) {
	t := truths(n)
	got := true
	for i := range q.From {
		o := &q.From[i]
		sym.Assert(o.PerObjectQuery != nil, "per-object-query")
		own := leafTruth(sp, t, "object-filter")
		got = sym.And(got, filterOf(o.PerObjectQuery.Where, "object-filter",
			func(l *SoqlFieldInfo, op SoqlConditionOpcode, r *SoqlFieldInfo) bool {
				sym.Assert(ownField(o, l), "object-filter-own-fields-only")
				return own(l, op, r)
			}))
	}
	got = sym.And(got, filterOf(q.PostProcessWhere, "post-filter", leafTruth(sp, t, "post-filter")))
	where := filterOf(q.Where, "where", leafTruth(sp, t, "where"))
	sym.Reach("evaluated")
	sym.Assert(sym.Iff(got, where), "filters-equal-where")
	sym.Assert(sym.Iff(got, evalCond(c, t)), "filters-equal-written-condition")
}

// objLeaf writes comparison i on an object chosen among the listed prefixes; a prefix
// ending with "(" makes it a comparison on a function of a field.
func objLeaf(prefixes []string, sp []opSpec) func(i int) string {
	return func(i int) string {
		s := prefixes[sym.Choice("object", len(prefixes))] + "X" + digits[i:i+1]
		if strings.Contains(s, "(") {
			s += ")"
		}
		return s + " " + sp[i].text
	}
}

// plainGen is condGen with the keywords in lower case.
func plainGen(units int, leaf func(i int) string) *condGen {
	return &condGen{leaf: leaf, and: " and ", or: " or ", not: "not ", lp: "(", rp: ")", units: units}
}

// C03_split: WHERE of 1 to 3 comparisons (4 in the thorough tier), every combination of
// AND, OR, NOT and parentheses, each comparison on the primary object, a parent, a parent
// of the parent, or (1 and 2 comparisons) another parent or a function; every assignment
// of truth values.
func C03_split() {
	n := 1 + sym.Choice("n", 3)
	pre := []string{"", "B.", "B.C."}
	units := 1
	if n < 3 {
		pre = []string{"", "B.", "B.C.", "D.", "F(", "F(B."}
		units = 4
	}
	if sym.Tier() > 0 {
		units = 4
	}
	sp := simpleSpecs(n, 4*n+1)
	g := plainGen(units, objLeaf(pre, sp))
	text, c := g.seq(n)
	splitOfWhere(mustParse("SELECT Id FROM A WHERE "+text), c, n, sp)
}

// C03_four: WHERE of 4 comparisons on the primary object and one parent, every shape.
func C03_four() {
	units := 1
	pre := []string{"", "B."}
	if sym.Tier() > 0 {
		pre = []string{"", "B.", "B.C."}
	}
	sp := simpleSpecs(4, 0)
	g := plainGen(units, objLeaf(pre, sp))
	text, c := g.seq(4)
	splitOfWhere(mustParse("SELECT Id FROM A WHERE "+text), c, 4, sp)
}

// C03_operators: every pair of operators, with literal, list and sub-query operands, on
// every pair of objects.
func C03_operators() {
	a := sym.Choice("op0", len(ops))
	sp := []opSpec{ops[a], ops[(a+1+2*sym.Choice("op1", 2))%len(ops)]}
	g := plainGen(2, objLeaf([]string{"", "B."}, sp))
	text, c := g.seq(2)
	splitOfWhere(mustParse("SELECT Id FROM A WHERE "+text), c, 2, sp)
}

// C03_contexts: two comparisons in the WHERE of a select-list sub-query, a condition
// sub-query, queries nested in those, and queries with objects and aliases in FROM and all
// the other clauses.
func C03_contexts() {
	sp := []opSpec{ops[0], ops[4]}
	in := func(pre, post string, objs []string, get func(q *SoqlQuery) *SoqlQuery) {
		g := plainGen(2, objLeaf(objs, sp))
		whole := sym.Choice("whole", 2)
		text, c := g.seq(2)
		if whole == 1 {
			text, c = "not ("+text+")", &cond{kind: '!', a: c}
		}
		splitOfWhere(get(mustParse(pre+text+post)), c, 2, sp)
	}
	switch sym.Choice("context", 6) {
	case 0:
		in("SELECT Id, (SELECT Id FROM Kids WHERE ", " LIMIT 3) FROM A", []string{"", "B.", "Kids.B.C.", "D.E."}, func(q *SoqlQuery) *SoqlQuery {
			return q.Fields[1].SubQuery
		})
	case 1:
		in("SELECT Id FROM A WHERE Y = 2 AND B.Y IN (SELECT Id FROM B WHERE ", ") ORDER BY Id", []string{"", "B.", "C.B.", "D."}, func(q *SoqlQuery) *SoqlQuery {
			return condSub(q, 0)
		})
	case 2:
		in("SELECT Id, COUNT(N) FROM A p, p.Acc q, q.Own o WHERE ", " GROUP BY Id HAVING COUNT(N)>1 ORDER BY Id LIMIT 1 OFFSET 2 FOR VIEW",
			[]string{"p.", "q.", "o.", "A.", "Acc.", "q.Own."}, func(q *SoqlQuery) *SoqlQuery { return q })
	case 3:
		in("SELECT Id, (SELECT Id, (SELECT Id FROM Lf l, l.P m WHERE ", ") FROM Kids k WHERE k.B.Z = 1) FROM A a", []string{"", "l.", "m.", "m.Q."}, func(q *SoqlQuery) *SoqlQuery {
			return q.Fields[1].SubQuery.Fields[1].SubQuery
		})
	case 4:
		in("SELECT Id, (SELECT Id FROM Kids k WHERE k.B.Z IN (SELECT Id FROM U u, u.V v WHERE ", ")) FROM A a", []string{"", "u.", "v.", "v.Q."}, func(q *SoqlQuery) *SoqlQuery {
			return condSub(q.Fields[1].SubQuery, 0)
		})
	case 5:
		in("SELECT Id, B.Z, D.Z FROM A WHERE ", " ORDER BY Id, B.Z DESC", []string{"b.", "B.", "a.B.", "D."}, func(q *SoqlQuery) *SoqlQuery { return q })
	}
}

// fieldSides are the ways to write one side of a comparison between fields.
var fieldSides = []string{"", "B.", "B.C.", "F(", "F(B."}

func sideText(k int, name string) string {
	s := fieldSides[k] + name
	if strings.Contains(s, "(") {
		s += ")"
	}
	return s
}

// fieldLeaf writes comparisons between two fields: the sides are chosen among the first n
// of fieldSides.
func fieldLeaf(n int, sp []opSpec) func(i int) string {
	return func(i int) string {
		s := sideText(sym.Choice("left", n), "X"+digits[i:i+1]) + " " + sp[i].text + " "
		return s + sideText(sym.Choice("right", n), "Y"+digits[i:i+1])
	}
}

var fieldOps = []opSpec{
	{text: "=", op: SoqlConditionOpcode_Eq, compl: SoqlConditionOpcode_NotEq},
	{text: "!=", op: SoqlConditionOpcode_NotEq, compl: SoqlConditionOpcode_Eq},
	{text: "<", op: SoqlConditionOpcode_Lt, compl: SoqlConditionOpcode_Ge},
	{text: ">=", op: SoqlConditionOpcode_Ge, compl: SoqlConditionOpcode_Lt},
	{text: "<=", op: SoqlConditionOpcode_Le, compl: SoqlConditionOpcode_Gt},
	{text: ">", op: SoqlConditionOpcode_Gt, compl: SoqlConditionOpcode_Le},
	{text: "LIKE", op: SoqlConditionOpcode_Like, compl: SoqlConditionOpcode_NotLike},
	{text: "NOT IN", op: SoqlConditionOpcode_NotIn, compl: SoqlConditionOpcode_In},
}

// fieldTruth is the value of a comparison between two fields.
func fieldTruth(sp []opSpec, t []bool, label string) func(l *SoqlFieldInfo, op SoqlConditionOpcode, r *SoqlFieldInfo) bool {
	return func(l *SoqlFieldInfo, op SoqlConditionOpcode, r *SoqlFieldInfo) bool {
		i := leafIndex(l)
		sym.Assert(i >= 0 && i < len(t) && i == leafIndex(r), label+"-known-fields")
		if op == sp[i].op {
			return t[i]
		}
		sym.Assert(op == sp[i].compl, label+"-operator")
		return sym.Not(t[i])
	}
}

// splitOfFields is splitOfWhere for comparisons between fields or functions of fields.
func splitOfFields(q *SoqlQuery, c *cond, n int, sp []opSpec) {
	t := truths(n)
	got := true
	for i := range q.From {
		o := &q.From[i]
		sym.Assert(o.PerObjectQuery != nil, "per-object-query")
		own := fieldTruth(sp, t, "object-filter")
		got = sym.And(got, filterOf(o.PerObjectQuery.Where, "object-filter",
			func(l *SoqlFieldInfo, op SoqlConditionOpcode, r *SoqlFieldInfo) bool {
				sym.Assert(ownField(o, l) && ownField(o, r), "object-filter-own-fields-only")
				return own(l, op, r)
			}))
	}
	got = sym.And(got, filterOf(q.PostProcessWhere, "post-filter", fieldTruth(sp, t, "post-filter")))
	where := filterOf(q.Where, "where", fieldTruth(sp, t, "where"))
	sym.Reach("evaluated")
	sym.Assert(sym.Iff(got, where), "filters-equal-where")
	sym.Assert(sym.Iff(got, evalCond(c, t)), "filters-equal-written-condition")
}

// C03_fields: WHERE of 1 or 2 comparisons between two fields (3 in the thorough tier), each
// side on the primary object, a parent, a parent of the parent (one comparison) or a
// function of those (one comparison), every combination of AND, OR, NOT and parentheses,
// eight operators in turn.
func C03_fields() {
	n := 1 + sym.Choice("n", 2+sym.Tier())
	k := 2 * sym.Choice("op", 4)
	sp := []opSpec{fieldOps[k], fieldOps[(k+1)%8], fieldOps[(k+3)%8]}
	sides, units := 5, 4
	if n > 1 {
		sides, units = 2, 2
	}
	g := plainGen(units, fieldLeaf(sides, sp))
	text, c := g.seq(n)
	splitOfFields(mustParse("SELECT Id FROM A WHERE "+text), c, n, sp)
}

// C03_long: WHERE of 6, 9 or 13 comparisons (26 in the thorough tier), flat, nested to the
// right or to the left and with every level negated, the connectives all AND, all OR, in
// turn, or every third an OR, the comparisons in turn on two or three of the primary object,
// a parent and its parent.
func C03_long() {
	n := []int{6, 9, 13 + 13*sym.Tier()}[sym.Choice("n", 3)]
	pre := [][]string{{"", "B."}, {"B.", "B.C.", ""}, {"", "", "", "B.", "B."}, {"B."}}[sym.Choice("objects", 4)]
	sp := simpleSpecs(n, 0)
	text, c := longCond(n, func(i int) string { return pre[i%len(pre)] + "X" + marks[i:i+1] + " " + sp[i].text })
	splitOfWhere(mustParse("SELECT Id FROM A WHERE "+text), c, n, sp)
}
