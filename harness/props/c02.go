package props

import (
	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

const digits = "0123456789"
const letters = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"

func simpleSpecs(n int, first int) []opSpec {
	r := make([]opSpec, n)
	for i := range r {
		r[i] = ops[(first+i)%12]
	}
	return r
}

func whereLeaf(sp []opSpec) func(i int) string {
	return func(i int) string { return "F" + digits[i:i+1] + " " + sp[i].text }
}

func havingLeaf(sp []opSpec) func(i int) string {
	return func(i int) string { return "MAX(F" + digits[i:i+1] + ") " + sp[i].text }
}

func c02Where(g *condGen, n int, sp []opSpec, pre, post string, get func(q *SoqlQuery) []SoqlCondition) {
	text, c := g.seq(n)
	q := mustParse(pre + text + post)
	t := truths(n)
	got := evalProgram(get(q), "where", leafTruth(sp, t, "where"))
	sym.Reach("evaluated")
	sym.Assert(sym.Iff(got, evalCond(c, t)), "meaning")
}

func topWhere(q *SoqlQuery) []SoqlCondition  { return q.Where }
func topHaving(q *SoqlQuery) []SoqlCondition { return q.Having }

// C02_shapes: WHERE, every condition of 1 to 3 comparisons built from AND, OR, NOT and
// parentheses (each comparison bare, negated, parenthesised or both), operators in turn
// over the whole list, every letter of the keywords in either case, every assignment of
// truth values. Thorough: also NOT inside and outside one pair of parentheses.
func C02_shapes() {
	n := 1 + sym.Choice("n", 3)
	units := 4
	if n < 3 || sym.Tier() > 0 {
		units = 6
	}
	sp := simpleSpecs(n, 4*n+1)
	g := newCondGen(units, whereLeaf(sp))
	c02Where(g, n, sp, "SELECT Id FROM A WHERE ", "", topWhere)
}

// C02_shapes4: WHERE, every condition of 4 comparisons (each comparison bare or, in the
// thorough tier, negated), groups nested to any depth and negated.
func C02_shapes4() {
	units := 1
	if sym.Tier() > 0 {
		units = 2
	}
	sp := simpleSpecs(4, 0)
	g := newCondGen(units, whereLeaf(sp))
	c02Where(g, 4, sp, "SELECT Id FROM A WHERE ", "", topWhere)
}

// C02_having: HAVING, every condition of 1 to 3 comparisons on aggregates.
func C02_having() {
	n := 1 + sym.Choice("n", 3)
	units := 2
	if n < 3 || sym.Tier() > 0 {
		units = 4
	}
	sp := simpleSpecs(n, n)
	g := newCondGen(units, havingLeaf(sp))
	c02Where(g, n, sp, "SELECT COUNT(Id) FROM A GROUP BY Name HAVING ", "", topHaving)
}

// C02_operators: every pair of operators (with literal, list and sub-query operands) in
// `[NOT] x AND|OR [NOT] y`, also grouped under a NOT.
func C02_operators() {
	sp := []opSpec{ops[sym.Choice("op0", len(ops))], ops[sym.Choice("op1", len(ops))]}
	c02Two(sp, "SELECT Id FROM A WHERE ", "", topWhere, whereLeaf(sp))
}

func c02Two(sp []opSpec, pre, post string, get func(q *SoqlQuery) []SoqlCondition, leaf func(i int) string) {
	g := newCondGen(2, leaf)
	whole := sym.Choice("whole", 2)
	text, c := g.seq(2)
	if whole == 1 {
		text, c = g.not+"("+text+")", &cond{kind: '!', a: c}
	}
	q := mustParse(pre + text + post)
	t := truths(2)
	got := evalProgram(get(q), "where", leafTruth(sp, t, "where"))
	sym.Reach("evaluated")
	sym.Assert(sym.Iff(got, evalCond(c, t)), "meaning")
}

// C02_contexts: the same in the WHERE of a select-list sub-query, of a condition
// sub-query and of a query with every other clause present, and in their HAVING.
func C02_contexts() {
	k := sym.Choice("operators", 6)
	sp := []opSpec{ops[2*k], ops[2*k+1]}
	switch sym.Choice("context", 6) {
	case 0:
		c02Two(sp, "SELECT Id, (SELECT Id FROM Kids WHERE ", " LIMIT 3) FROM A", func(q *SoqlQuery) []SoqlCondition {
			return q.Fields[1].SubQuery.Where
		}, whereLeaf(sp))
	case 1:
		c02Two(sp, "SELECT Id FROM A WHERE X IN (SELECT Id FROM B WHERE ", ") ORDER BY Id", func(q *SoqlQuery) []SoqlCondition {
			return q.Where[1].Value.SubQuery.Where
		}, whereLeaf(sp))
	case 2:
		c02Two(sp, "SELECT Id, COUNT(N) FROM A p, p.Acc a WHERE ", " GROUP BY Id HAVING COUNT(N)>1 ORDER BY Id LIMIT 1 OFFSET 2 FOR VIEW", topWhere, whereLeaf(sp))
	case 3:
		c02Two(sp, "SELECT Id, COUNT(N) FROM A p WHERE Z=1 GROUP BY Id HAVING ", " ORDER BY Id LIMIT 1", topHaving, havingLeaf(sp))
	case 4:
		c02Two(sp, "SELECT Id FROM A WHERE X IN (SELECT COUNT(Id) FROM B GROUP BY Y HAVING ", ") ORDER BY Id", func(q *SoqlQuery) []SoqlCondition {
			return q.Where[1].Value.SubQuery.Having
		}, havingLeaf(sp))
	case 5:
		c02Two(sp, "SELECT Id FROM A p, p.Acc a WHERE ", "", topWhere, func(i int) string {
			return "a.F" + digits[i:i+1] + " " + sp[i].text
		})
	}
}

// C02_symbols: `F0 <two arbitrary characters> 1 AND F1 = 1`, with the two characters any
// of < > = ! and space: the accepted ones are exactly the comparison operators and each
// reaches the query as written, or as its complement under NOT.
func C02_symbols() {
	s := sym.Str("op", 2, "<>=! ")
	a, b := s[0], s[1]
	neg := sym.Choice("neg", 2) == 1
	text := "F0 " + s + " 1"
	if neg {
		text = "NOT " + text
	}
	q, err := parse("SELECT Id FROM A WHERE " + text + " AND F1 = 1")
	code := sym.IteInt(sym.Or(sym.And(a == '=', b == ' '), sym.And(a == ' ', b == '=')), int(SoqlConditionOpcode_Eq),
		sym.IteInt(sym.And(a == '!', b == '='), int(SoqlConditionOpcode_NotEq),
			sym.IteInt(sym.Or(sym.And(a == '<', b == ' '), sym.And(a == ' ', b == '<')), int(SoqlConditionOpcode_Lt),
				sym.IteInt(sym.And(a == '<', b == '='), int(SoqlConditionOpcode_Le),
					sym.IteInt(sym.Or(sym.And(a == '>', b == ' '), sym.And(a == ' ', b == '>')), int(SoqlConditionOpcode_Gt),
						sym.IteInt(sym.And(a == '>', b == '='), int(SoqlConditionOpcode_Ge), 0))))))
	sym.Assert(sym.Iff(err == nil, code != 0), "accepted-operators")
	if err != nil {
		return
	}
	sym.Reach("operator")
	if neg {
		compl := map[SoqlConditionOpcode]SoqlConditionOpcode{}
		for _, o := range ops {
			compl[o.op] = o.compl
		}
		sym.Assert(int(compl[q.Where[2].Opcode]) == code, "complement")
	} else {
		sym.Assert(int(q.Where[2].Opcode) == code, "operator-kept")
	}
	sym.Assert(q.Where[5].Opcode == SoqlConditionOpcode_Eq && q.Where[6].Opcode == SoqlConditionOpcode_And, "rest-kept")
}

// C02_long: WHERE and HAVING of 6, 9 or 13 comparisons (26 in the thorough tier): flat,
// nested to the right or to
// the left and with every level negated, the connectives all AND, all OR, in turn, or every
// third an OR; every assignment of truth values.
func C02_long() {
	n := []int{6, 9, 13 + 13*sym.Tier()}[sym.Choice("n", 3)]
	sp := simpleSpecs(n, 0)
	t := truths(n)
	if sym.Choice("clause", 2) == 1 {
		text, c := longCond(n, func(i int) string { return "MAX(F" + marks[i:i+1] + ") " + sp[i].text })
		q := mustParse("SELECT COUNT(Id) FROM A GROUP BY Name HAVING " + text)
		got := evalProgram(q.Having, "where", leafTruth(sp, t, "where"))
		sym.Reach("evaluated")
		sym.Assert(sym.Iff(got, evalCond(c, t)), "meaning")
		return
	}
	text, c := longCond(n, func(i int) string { return "F" + marks[i:i+1] + " " + sp[i].text })
	got := evalProgram(mustParse("SELECT Id FROM A WHERE "+text).Where, "where", leafTruth(sp, t, "where"))
	sym.Reach("evaluated")
	sym.Assert(sym.Iff(got, evalCond(c, t)), "meaning")
}
