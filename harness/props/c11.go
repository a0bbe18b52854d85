package props

import (
	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// fref is a written field of the object Obj (alias ob), of its parent Par or of that
// one's parent Gr; the name of the field is F and one character, any.
type fref struct {
	level int
	c     string
	text  string
}

var frefSpelling = [][]string{
	{"", "ob.", "OBJ."},
	{"par.", "ob.Par.", "Obj.PAR."},
	{"Par.Gr.", "ob.par.gr."},
}

func newFref(levels int) fref {
	f := fref{level: sym.Choice("level", levels), c: sym.Str("c", 1, letters+digits)}
	sp := frefSpelling[f.level]
	f.text = sp[sym.Choice("spelling", len(sp))] + "F" + f.c
	return f
}

// plainFref is the same with one spelling for each of the three.
func plainFref(levels int) fref {
	f := fref{level: sym.Choice("level", levels), c: sym.Str("c", 1, letters+digits)}
	f.text = []string{"", "ob.par.", "Par.Gr."}[f.level] + "F" + f.c
	return f
}

// oneOf tells whether the field is one of those of the list.
func (f fref) oneOf(l []fref) bool {
	r := false
	for _, g := range l {
		if g.level == f.level {
			r = sym.Or(r, sym.EqFold(f.c, g.c))
		}
	}
	return r
}

func distinctFrefs(l []fref) bool {
	r := true
	for i := range l {
		r = sym.And(r, sym.Not(l[i].oneOf(l[:i])))
	}
	return r
}

// aggItem is a written select item or operand of HAVING and what the rules say about it.
type aggItem struct {
	text     string
	count    bool   // contains COUNT or COUNT_DISTINCT, and so makes the query an aggregation
	wrong    bool   // never accepted
	notInAgg bool   // not accepted in an aggregation
	needs    []fref // have to be grouped in an aggregation
	agg      bool   // is an aggregated result in an aggregation
	nested   []bool // the same for the functions among its arguments
	field    bool
}

// aggFunction writes an item that is a function.
func aggFunction(kind int, ref func() fref) aggItem {
	switch kind {
	case 0:
		return aggItem{text: sym.Case("co") + "unt()", count: true, agg: true}
	case 1:
		return aggItem{text: "C" + sym.Case("ou") + "nt(" + ref().text + ")", count: true, agg: true}
	case 2:
		return aggItem{text: "COUNT_" + sym.Case("di") + "stinct(" + ref().text + ")", count: true, agg: true}
	case 3:
		return aggItem{text: "MAX(" + ref().text + ")", agg: true}
	case 4:
		return aggItem{text: "Fn(Gn(" + ref().text + "))", nested: []bool{true}}
	case 5:
		f := ref()
		return aggItem{text: "Fn(" + f.text + ", Gn(1))", needs: []fref{f}, nested: []bool{false}}
	case 6:
		return aggItem{text: "Fn(1, 'x')"}
	case 7:
		return aggItem{text: "Fn(1, " + ref().text + ", " + ref().text + ")", agg: true}
	case 8:
		return aggItem{text: "Up(Count(" + ref().text + "))", count: true, nested: []bool{true}}
	case 9:
		f := ref()
		return aggItem{text: "Fn(Gn(Count()), " + f.text + ")", count: true, needs: []fref{f}, nested: []bool{false}}
	case 10:
		return aggItem{text: sym.Pick("wrong", "COUNT(1)", "COUNT(Fx, Fy)", "Count_Distinct()", "Count_Distinct('x')", "COUNT(Max(Fx))", "COUNT_DISTINCT(Fx, Fy)"), wrong: true}
	}
	return aggItem{text: "Fn()"}
}

// named gives the item an alias or none; only Al and a digit are aliases.
func named(it aggItem, alias string) aggItem {
	if it.text != "FIELDS(ALL)" && sym.Choice("alias", 2) == 1 {
		it.text += " " + alias
	}
	return it
}

func aggSelectItem(kind int, ref func() fref) aggItem {
	switch kind {
	case 0:
		f := ref()
		return aggItem{text: f.text, needs: []fref{f}, field: true}
	case 1:
		return aggItem{text: "(SELECT Id FROM Kids)", notInAgg: true}
	case 2:
		return aggItem{text: "FIELDS(ALL)", notInAgg: true}
	}
	return aggFunction(kind-3, ref)
}

// aggFlags asserts the flags of an item of an accepted query.
func aggFlags(f *SoqlFieldInfo, it aggItem, inAgg bool) {
	sym.Assert(f.Aggregated == (inAgg && it.agg), "aggregated-flag")
	n := 0
	for i := range f.Parameters {
		if f.Parameters[i].Type == SoqlFieldInfo_Function {
			sym.Assert(f.Parameters[i].Aggregated == (inAgg && it.nested[n]), "nested-aggregated-flag")
			n++
		} else {
			sym.Assert(!f.Parameters[i].Aggregated, "argument-not-aggregated")
		}
	}
	sym.Assert(n == len(it.nested), "nested-functions")
}

// aggregation parses a query in one of the three places a query can stand in and asserts
// acceptance and flags.
func aggregation(items []aggItem, groups []fref, having []aggItem, contexts int) {
	text, wrong, inAgg := "SELECT ", false, len(groups) > 0
	for i, it := range items {
		if i > 0 {
			text += ", "
		}
		text += it.text
		inAgg = inAgg || it.count
		wrong = wrong || it.wrong
	}
	text += " FROM Obj ob"
	for i, g := range groups {
		if i == 0 {
			text += " GROUP BY "
		} else {
			text += ", "
		}
		text += g.text
	}
	for i, h := range having {
		if i == 0 {
			text += " HAVING "
		} else {
			text += " AND "
		}
		text += h.text + " > 1"
		wrong = wrong || h.wrong || len(groups) == 0
	}
	accept := distinctFrefs(groups)
	if wrong {
		accept = false
	}
	if inAgg {
		for _, it := range append(append([]aggItem{}, items...), having...) {
			if it.notInAgg {
				accept = false
			}
			for _, f := range it.needs {
				accept = sym.And(accept, f.oneOf(groups))
			}
		}
	}
	ctx := 0
	if contexts > 1 {
		ctx = sym.Choice("context", contexts)
	}
	switch ctx {
	case 1:
		text = "SELECT Id FROM Top WHERE Id IN (" + text + ")"
	case 2:
		text = "SELECT Id, (" + text + ") FROM Top"
	}
	top, err := parse(text)
	sym.Assert((top == nil) == (err != nil), "query-or-error")
	if err != nil {
		sym.Assert(sym.Not(accept), "accepted-by-the-rules")
		sym.Reach("rejected")
		return
	}
	sym.Assert(accept, "rejected-by-the-rules")
	q := top
	switch ctx {
	case 1:
		q = condSub(top, 0)
	case 2:
		q = top.Fields[1].SubQuery
	}
	if ctx != 0 {
		sym.Assert(!top.IsAggregation, "outer-query-is-no-aggregation")
	}
	sym.Assert(q.IsAggregation == inAgg, "query-flag")
	sym.Assert(selected(q) == len(items), "items")
	for i := range items {
		aggFlags(&q.Fields[i], items[i], inAgg)
	}
	sym.Assert(len(q.GroupBy) == len(groups), "groups")
	for i := range q.GroupBy {
		sym.Assert(!q.GroupBy[i].Aggregated, "group-not-aggregated")
	}
	n := 0
	for i := range q.Having {
		if q.Having[i].Opcode == SoqlConditionOpcode_FieldInfo && q.Having[i].Value.Type == SoqlFieldInfo_Function {
			aggFlags(&q.Having[i].Value, having[n], true)
			n++
		}
	}
	sym.Assert(n == len(having), "having-operands")
	sym.Reach("accepted")
}

// C11_items: two select items of any of the 15 kinds (a field, a sub-query, FIELDS(), and
// functions: COUNT and COUNT_DISTINCT with right and wrong arguments, a function of a
// field, of a function of a field, of both, of literals, of nothing, of COUNT), each with
// an alias or without, with and without GROUP BY of one field; names of fields F and any letter or digit. Accepted
// exactly as the rules say, with the flags they give.
func C11_items() {
	ref := func() fref { return plainFref(1) }
	items := []aggItem{named(aggSelectItem(sym.Choice("item", 15), ref), "Al0"), named(aggSelectItem(sym.Choice("item", 15), ref), "Al1")}
	var groups []fref
	if sym.Choice("grouped", 2) == 1 {
		groups = append(groups, plainFref(1))
	}
	aggregation(items, groups, nil, 1)
}

// C11_groups: GROUP BY of one to three fields of the object, its parent or its parent's
// parent, in any spelling, and one to two select items that are fields of any of the three
// or a function of one; every relation between the names of the fields.
func C11_groups() {
	var groups []fref
	n := 1 + sym.Choice("groups", 2)
	if sym.Tier() > 0 {
		n = 1 + sym.Choice("more", 3)
	}
	for i := 0; i < n; i++ {
		if n == 1 {
			groups = append(groups, newFref(3))
		} else {
			groups = append(groups, plainFref(3))
		}
	}
	ref := func() fref { return newFref(3) }
	if n > 1 {
		ref = func() fref { return plainFref(3) }
	}
	items := []aggItem{aggSelectItem(0, ref)}
	if sym.Choice("second", 2) == 1 {
		items = append(items, aggSelectItem([]int{0, 6, 8}[sym.Choice("item", 3)], func() fref { return plainFref(2) }))
	}
	aggregation(items, groups, nil, 1)
}

// C11_having: HAVING of one or two comparisons of any kind of function, with and without
// GROUP BY, in a query that selects a field or COUNT.
func C11_having() {
	ref := func() fref { return plainFref(2) }
	having := []aggItem{aggFunction(sym.Choice("having", 12), ref)}
	if sym.Choice("second", 2) == 1 {
		having = append(having, aggFunction([]int{0, 3, 5, 9}[sym.Choice("more", 4)], func() fref { return plainFref(1) }))
	}
	items := []aggItem{{text: "COUNT(Fa)", count: true, agg: true}}
	var groups []fref
	if sym.Choice("grouped", 2) == 1 {
		groups = append(groups, plainFref(2))
	} else if sym.Choice("field", 2) == 1 {
		items = []aggItem{{text: "Fa", field: true, needs: []fref{{c: "a"}}}}
	}
	aggregation(items, groups, having, 1)
}

// C11_places: the same rules for a sub-query of SELECT and one of WHERE, which are no
// part of the aggregation of the enclosing query.
func C11_places() {
	ref := func() fref { return fref{c: sym.Str("c", 1, letters), text: ""}.spell() }
	items := []aggItem{aggSelectItem(sym.Choice("item", 15), ref)}
	if sym.Choice("second", 2) == 1 {
		items = append(items, aggItem{text: "COUNT()", count: true, agg: true})
	}
	var groups []fref
	var having []aggItem
	if sym.Choice("grouped", 2) == 1 {
		groups = append(groups, fref{c: sym.Str("c", 1, letters)}.spell())
	}
	if sym.Choice("having", 2) == 1 {
		having = append(having, aggFunction(5, ref))
	}
	aggregation(items, groups, having, 3)
}

func (f fref) spell() fref {
	f.text = "F" + f.c
	return f
}

// C11_enclosing: a query that is itself an aggregation and has a sub-query in WHERE or in
// HAVING that is one or is none, and one with a sub-query in SELECT (always rejected).
func C11_enclosing() {
	sub := sym.Pick("sub", "SELECT Id FROM Kids", "SELECT COUNT() FROM Kids", "SELECT Fz FROM Kids GROUP BY Fz", "SELECT MAX(Fa) FROM Kids")
	g, s := sym.Str("c", 1, letters), sym.Str("c", 1, letters)
	where := sym.Choice("where", 3)
	text := ""
	switch where {
	case 0:
		text = "SELECT F" + s + ", MAX(Fa) FROM Obj WHERE Fx IN (" + sub + ") GROUP BY F" + g
	case 1:
		text = "SELECT F" + s + ", MAX(Fa) FROM Obj GROUP BY F" + g + " HAVING MAX(Fa) IN (" + sub + ")"
	case 2:
		text = "SELECT F" + g + ", (" + sub + "), MAX(Fa) FROM Obj GROUP BY F" + s
	}
	q, err := parse(text)
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	if err != nil {
		if where < 2 {
			sym.Assert(sym.Not(sym.EqFold(g, s)), "accepted-by-the-rules")
		}
		sym.Reach("rejected")
		return
	}
	sym.Assert(where < 2, "sub-query-in-aggregation-rejected")
	sym.Assert(sym.EqFold(g, s), "rejected-by-the-rules")
	sym.Assert(q.IsAggregation && q.Fields[1].Aggregated && !q.Fields[0].Aggregated, "flags")
	sq := &SoqlQuery{}
	if where == 0 {
		sq = condSub(q, 0)
	} else {
		for i := range q.Having {
			if q.Having[i].Value.Type == SoqlFieldInfo_SubQuery {
				sq = q.Having[i].Value.SubQuery
			}
		}
	}
	agg := sub != "SELECT Id FROM Kids" && sub != "SELECT MAX(Fa) FROM Kids"
	sym.Assert(sq.IsAggregation == agg, "sub-query-flag")
	sym.Assert(sq.Fields[0].Aggregated == (sub == "SELECT COUNT() FROM Kids"), "sub-query-item-flag")
	sym.Reach("accepted")
}

// C11_aliases: a field grouped through its alias, one to two such fields among others that
// are not; aliases Al and any character, fields F and any character.
func C11_aliases() {
	a, b := "Al"+sym.Str("a", 1, letters), "Al"+sym.Str("b", 1, letters)
	f := newFref(2)
	sp := sym.Pick("spelling", "", "ob.") // through the object the alias is one of its fields
	// the alias b groups the item named a exactly when they are equal
	text := "SELECT " + f.text + " " + a + ", COUNT(Fa) n FROM Obj ob GROUP BY " + sp + b
	other := sym.Choice("other", 3)
	if other > 0 {
		text += ", Par.Fy"
	}
	if other == 2 {
		text += ", Fz HAVING Fn(Fz, Gn(1)) = 1"
	}
	q, err := parse(text)
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	same := sym.EqFold(a, b)
	if err != nil {
		dup := false
		if other > 0 && f.level == 1 {
			dup = sym.EqFold(f.c, "y")
		}
		if other == 2 && f.level == 0 {
			dup = sym.Or(dup, sym.EqFold(f.c, "z"))
		}
		sym.Assert(sym.Or(sym.Not(same), dup), "accepted-by-the-rules")
		sym.Reach("rejected")
		return
	}
	grouped := same
	if other > 0 && f.level == 1 {
		grouped = sym.Or(grouped, sym.EqFold(f.c, "y"))
	}
	if other == 2 && f.level == 0 {
		grouped = sym.Or(grouped, sym.EqFold(f.c, "z"))
	}
	sym.Assert(grouped, "rejected-by-the-rules")
	sym.Assert(q.IsAggregation && q.Fields[1].Aggregated && !q.Fields[0].Aggregated, "flags")
	sym.Reach("accepted")
}
