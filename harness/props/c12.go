package props

import (
	"encoding/json"
	"time"

	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

func jNames(a, b []string) {
	sym.Assert(len(a) == len(b), "names-count")
	for i := range a {
		assertStr(b[i], a[i], "name")
	}
}

func jValue(x, y interface{}) {
	switch a := x.(type) {
	case nil:
		sym.Assert(y == nil, "null")
	case int64:
		b, ok := y.(int64)
		sym.Assert(ok && a == b, "integer")
	case float64:
		b, ok := y.(float64)
		sym.Assert(ok && a == b, "float")
	case bool:
		b, ok := y.(bool)
		sym.Assert(ok && a == b, "boolean")
	case string:
		b, ok := y.(string)
		sym.Assert(ok, "string")
		assertStr(b, a, "string")
	case time.Time:
		b, ok := y.(time.Time)
		sym.Assert(ok && a.Unix() == b.Unix() && a.Nanosecond() == b.Nanosecond(), "time")
	case SoqlDateTimeLiteralName:
		b, ok := y.(SoqlDateTimeLiteralName)
		sym.Assert(ok && a.N == b.N, "date-name")
		assertStr(b.Name, a.Name, "date-name")
	case []SoqlListItem:
		b, ok := y.([]SoqlListItem)
		sym.Assert(ok && len(a) == len(b), "list")
		for i := range a {
			sym.Assert(a[i].Type == b[i].Type, "item-type")
			jValue(a[i].Value, b[i].Value)
		}
	default:
		sym.Assert(false, "type-of-value")
	}
}

func jField(a, b *SoqlFieldInfo) {
	sym.Assert(a.Type == b.Type, "type")
	jNames(a.Name, b.Name)
	jValue(a.Value, b.Value)
	assertStr(b.AliasName, a.AliasName, "alias")
	jFields(a.Parameters, b.Parameters)
	jQuery(a.SubQuery, b.SubQuery)
	sym.Assert(a.NotSelected == b.NotSelected, "not-selected")
	sym.Assert(a.Aggregated == b.Aggregated, "aggregated")
	jHints(a.Hints, b.Hints)
	sym.Assert(a.ColumnId == b.ColumnId && a.ColIndex == b.ColIndex && a.ViewId == b.ViewId, "field-ids")
	assertStr(b.Key, a.Key, "field-key")
}

func jHints(a, b []SoqlQueryHint) {
	sym.Assert(len(a) == len(b), "hints")
	for i := range a {
		sym.Assert(a[i] == b[i], "hint")
	}
}

func jFields(a, b []SoqlFieldInfo) {
	sym.Assert(len(a) == len(b), "fields-count")
	for i := range a {
		jField(&a[i], &b[i])
	}
}

func jConds(a, b []SoqlCondition) {
	sym.Assert(len(a) == len(b), "conditions-count")
	for i := range a {
		sym.Assert(a[i].Opcode == b[i].Opcode, "opcode")
		jField(&a[i].Value, &b[i].Value)
	}
}

func jQuery(a, b *SoqlQuery) {
	sym.Assert((a == nil) == (b == nil), "query")
	if a == nil {
		return
	}
	jFields(a.Fields, b.Fields)
	sym.Assert(len(a.From) == len(b.From), "from")
	for i := range a.From {
		x, y := &a.From[i], &b.From[i]
		jNames(x.Name, y.Name)
		assertStr(y.AliasName, x.AliasName, "object-alias")
		sym.Assert(x.HasConditions == y.HasConditions, "has-conditions")
		sym.Assert(x.InnerJoin == y.InnerJoin, "inner-join")
		jHints(x.Hints, y.Hints)
		jQuery(x.PerObjectQuery, y.PerObjectQuery)
		sym.Assert(x.ViewId == y.ViewId && x.ParentViewId == y.ParentViewId, "object-ids")
		assertStr(y.Key, x.Key, "object-key")
	}
	jConds(a.Where, b.Where)
	jFields(a.GroupBy, b.GroupBy)
	jConds(a.Having, b.Having)
	sym.Assert(len(a.OrderBy) == len(b.OrderBy), "order-by")
	for i := range a.OrderBy {
		jField(&a.OrderBy[i].Field, &b.OrderBy[i].Field)
		sym.Assert(a.OrderBy[i].Desc == b.OrderBy[i].Desc, "desc")
		sym.Assert(a.OrderBy[i].NullsLast == b.OrderBy[i].NullsLast, "nulls-last")
	}
	x, y := a.OffsetAndLimit, b.OffsetAndLimit
	sym.Assert(x.Offset == y.Offset, "offset")
	sym.Assert(x.Limit == y.Limit, "limit")
	assertStr(y.OffsetParamName, x.OffsetParamName, "offset-parameter")
	assertStr(y.LimitParamName, x.LimitParamName, "limit-parameter")
	sym.Assert(a.For == b.For, "for")
	sym.Assert(a.IsAggregation == b.IsAggregation, "is-aggregation")
	sym.Assert(a.IsCorelated == b.IsCorelated, "is-correlated")
	jConds(a.PostProcessWhere, b.PostProcessWhere)
	sym.Assert(a.QueryId == b.QueryId, "query-id")
	sym.Assert((a.Meta == nil) == (b.Meta == nil), "meta")
	if a.Meta != nil {
		jMeta(a.Meta, b.Meta)
	}
}

func jKeys(a, b map[string]struct{}, label string) {
	sym.Assert(len(a) == len(b), label)
	for k := range a {
		_, ok := b[k]
		sym.Assert(ok, label)
	}
}

func jMeta(a, b *SoqlQueryMeta) {
	assertStr(b.Version, a.Version, "version")
	sym.Assert(a.Date.Equal(b.Date), "date")
	sym.Assert(a.ElapsedTime == b.ElapsedTime, "elapsed-time")
	assertStr(b.Source, a.Source, "source")
	sym.Assert(a.MaxQueryDepth == b.MaxQueryDepth && a.MaxViewDepth == b.MaxViewDepth, "depths")
	sym.Assert(a.NextQueryId == b.NextQueryId && a.NextViewId == b.NextViewId && a.NextColumnId == b.NextColumnId, "next-ids")
	sym.Assert(len(a.QueryGraph) == len(b.QueryGraph), "query-graph")
	for k, x := range a.QueryGraph {
		y, ok := b.QueryGraph[k]
		sym.Assert(ok && x.ParentQueryId == y.ParentQueryId && x.Depth == y.Depth && x.IsConditional == y.IsConditional, "query-graph")
	}
	sym.Assert(len(a.ViewGraph) == len(b.ViewGraph), "view-graph")
	for k, x := range a.ViewGraph {
		y, ok := b.ViewGraph[k]
		sym.Assert(ok && x.ParentViewId == y.ParentViewId && x.QueryId == y.QueryId && x.Depth == y.Depth && x.QueryDepth == y.QueryDepth, "view-graph")
		sym.Assert(x.Many == y.Many && x.InnerJoin == y.InnerJoin && x.NonResult == y.NonResult, "view-graph")
		assertStr(y.Name, x.Name, "view-graph")
	}
	jKeys(a.Functions, b.Functions, "functions")
	jKeys(a.Parameters, b.Parameters, "parameters")
	jKeys(a.DateTimeLiterals, b.DateTimeLiterals, "date-names")
}

// survives asserts that a query written to JSON and read back is the same query, and gives
// the same text again.
func survives(q *SoqlQuery) {
	q.Meta.Date = time.Date(2024, 2, 29, 1, 2, 3, 456789000, time.UTC)
	q.Meta.ElapsedTime = 1234567
	b, err := json.Marshal(q)
	sym.Assert(err == nil, "encodes")
	sym.ObserveStr("json", string(b))
	r := &SoqlQuery{}
	sym.Assert(json.Unmarshal(b, r) == nil, "decodes")
	jQuery(q, r)
	b2, err := json.Marshal(r)
	sym.Assert(err == nil, "encodes-again")
	assertStr(string(b2), string(b), "same-text")
	sym.Reach("survives")
}

// value writes a literal with symbolic contents that every JSON text can carry.
func jLiteral() string {
	switch sym.Choice("literal", 9) {
	case 0:
		s, _, _ := item()
		return s
	case 1:
		n := 1 + sym.Choice("digits", 4)
		return sym.Pick("sign", "", "-") + sym.Str("d", 1, "123456789") + sym.Str("d", n, digits)
	case 2:
		return sym.Pick("number", "0", "-0", "9223372036854775807", "-9223372036854775808", "0x7fffffffffffffff", "0.0", "-0.0", "1e21", "1e20", "1.5e-7", "1e-6", "1.7976931348623157e308", "5e-324", "0.1", "123456789.125", "-1e300")
	case 3:
		s := ""
		for i := sym.Choice("n", 3); i >= 0; i-- {
			c := sym.ByteRange("c", 0x20, 127)
			sym.Assume(sym.And(c != '\'', c != '\\'))
			s += string([]byte{c})
		}
		return "'" + s + "'"
	case 4:
		return "'a" + sym.Pick("escape", `\n`, `\t`, `\r`, `\b`, `\f`, `\"`, `\'`, `\\`, `\u0000`, `\u001f`, `\u2028`, `\u00e9`, `\u{1F600}`, "\u2029", "<&>", "\x01i0\x02", "") + "z'"
	case 5:
		return "'a" + string([]byte{sym.ByteRange("l", 0xc2, 0xdf), sym.ByteRange("c", 0x80, 0xbf)}) + string([]byte{sym.ByteRange("l", 0xe1, 0xec), sym.ByteRange("c", 0x80, 0xbf), sym.ByteRange("c", 0x80, 0xbf)}) + "'"
	case 6:
		y := sym.Pick("year", "2024", "1969", "0001", "9999")
		return y + "-" + sym.Pick("month", "02", "12") + "-1" + sym.Str("d", 1, digits) +
			sym.Pick("clock", "", "T10:2"+sym.Str("m", 1, digits)+":30Z", "T10:20:30.0"+sym.Str("f", 2, digits)+"-01:30", "T00:00:00+23:59")
	case 7:
		return sym.Str("h", 1, "01") + sym.Str("h", 1, digits) + ":" + sym.Str("m", 1, "012345") + sym.Str("m", 1, digits) + sym.Pick("clock", "", ":01", ":59.00000"+sym.Str("f", 1, digits))
	}
	return sym.Pick("name", "TODAY", "LAST_N_DAYS:"+sym.Str("n", 2, "123456789"), "THIS_FISCAL_YEAR")
}

// C12_literals: a literal of every type, with symbolic contents: integers of up to 5 digits
// and the ends of their range, floats at the borders of the JSON number formats, strings of
// up to 3 characters from space to DEL, with every escape and with characters of 2 and 3
// bytes, dates, date-times and times with any digits in some places, relative date names,
// booleans, null and bind parameters.
func C12_literals() {
	survives(mustParse("SELECT Id FROM A WHERE X = " + jLiteral()))
}

// C12_lists: a list of two literals (three in the thorough tier) of any of the ten types with
// symbolic contents, with each list operator.
func C12_lists() {
	n := 2
	if sym.Tier() > 0 {
		n = 3
	}
	text := ""
	for i := 0; i < n; i++ {
		s, _, _ := item()
		if i > 0 {
			text += ", "
		}
		text += s
	}
	survives(mustParse("SELECT Id FROM A WHERE X " + sym.Pick("op", "IN", "NOT IN", "INCLUDES", "EXCLUDES") + " (" + text + ")"))
}

// C12_positions: a literal of any of the ten types on a parent object, under NOT, in HAVING, in
// a sub-query of SELECT and of WHERE, and a function with fields and literals as arguments.
func C12_positions() {
	s, typ, _ := item()
	switch sym.Choice("position", 6) {
	case 0:
		survives(mustParse("SELECT Id FROM A WHERE Par.X = " + s + " OR B = 1"))
	case 1:
		survives(mustParse("SELECT Id FROM A WHERE NOT (X LIKE " + s + " AND Y < 1)"))
	case 2:
		survives(mustParse("SELECT N FROM A GROUP BY N HAVING MAX(X) >= " + s))
	case 3:
		survives(mustParse("SELECT Id, (SELECT Id FROM Kids WHERE X = " + s + ") FROM A"))
	case 4:
		survives(mustParse("SELECT Id FROM A WHERE X IN (SELECT Y FROM B WHERE Z != " + s + ")"))
	case 5:
		switch typ {
		case SoqlFieldInfo_Literal_Bool, SoqlFieldInfo_Literal_Null, SoqlFieldInfo_ParameterizedValue, SoqlFieldInfo_DateTimeLiteralName:
			return
		}
		survives(mustParse("SELECT FORMAT(N, " + s + ") x, Id FROM A"))
	}
}

// C12_operators: trees of two comparisons (three in the thorough tier) with AND, OR, NOT and
// parentheses, the first with any of the operators and the others with one of three, the field
// of either object.
func C12_operators() {
	n := 2
	if sym.Tier() > 0 {
		n = 3
	}
	g := newCondGen(2, func(i int) string {
		f := sym.Pick("field", "", "P.") + "F" + digits[i:i+1]
		if i > 0 {
			return f + sym.Pick("op", " = 1", " NOT LIKE 'a'", " IN (1)")
		}
		return f + sym.Pick("op", " = 1", " != 1", " < 1", " <= 1", " > 1", " >= 1", " LIKE 'a'", " NOT LIKE 'a'", " IN (1)", " NOT IN (1)", " INCLUDES ('a')", " EXCLUDES ('a')")
	})
	g.and, g.or, g.not = " AND ", " OR ", "NOT "
	s, _ := g.seq(n)
	survives(mustParse("SELECT Id FROM A WHERE " + s))
}

// C12_names: names of fields, objects, parents, aliases and parameters with a character that
// can be any an identifier may have, and quoted names with any character from space to DEL.
func C12_names() {
	n := func(p string) string { return p + sym.Str("n", 1, letters+digits+"_$") }
	switch sym.Choice("query", 3) {
	case 0:
		survives(mustParse("SELECT " + n("F") + " " + n("f") + ", " + n("P") + "." + n("G") + ", UPPER(" + n("H") + ") FROM " + n("O") + " " + n("a") + " WHERE " + n("W") + " = :" + n("p") + " LIMIT :" + n("l")))
	case 1:
		f := n("N")
		survives(mustParse("SELECT COUNT(" + n("F") + ") " + n("c") + ", " + f + " FROM A GROUP BY " + f + " ORDER BY " + f))
	case 2:
		c := sym.ByteRange("c", 0x20, 127)
		sym.Assume(sym.And(c != '"', sym.And(c != '\\', sym.And(c != '\'', c != '`'))))
		q, err := parse("SELECT \"a" + string([]byte{c}) + "b\" FROM A WHERE X = 1")
		if err != nil {
			return
		}
		survives(q)
	}
}

// C12_clauses: every combination of WHERE, GROUP BY, HAVING, ORDER BY, OFFSET, LIMIT and FOR,
// in the query itself, in a sub-query of SELECT and in one of WHERE, with every form of the
// FOR clause and of null placement.
func C12_clauses() {
	if sym.Choice("tail", 2) == 1 {
		l, _ := limits()
		f, _ := forOption()
		survives(mustParse("SELECT Id FROM Obj ORDER BY A" + sym.Pick("dir", "", " ASC", " DESC") + sym.Pick("nulls", "", " NULLS FIRST", " NULLS LAST") + l + f))
		return
	}
	text, _ := clauses("Idd", "Obj")
	switch sym.Choice("where", 3) {
	case 0:
	case 1:
		text = "SELECT Id, (" + text + ") Sub FROM Top"
	case 2:
		text = "SELECT Id FROM Top WHERE Id IN (" + text + ")"
	}
	survives(mustParse(text))
}

// C12_trees: sub-queries nested two deep in one of eight layouts at each level, with parent
// objects, correlated and not.
func C12_trees() {
	g := &treeGen{parents: 2, layouts: 8}
	if sym.Tier() > 0 {
		g.parents = 4
	}
	survives(mustParse(g.query("Top", "a", 2)))
}

// C12_corpus: the texts that use every construct of the grammar, written as pointer and as
// value.
func C12_corpus() {
	i := sym.Choice("text", len(corpus)+len(shortCorpus))
	t := ""
	if i < len(corpus) {
		t = corpus[i]
	} else {
		t = shortCorpus[i-len(corpus)]
	}
	q := mustParse(plainText(t))
	survives(q)
	a, err := json.Marshal(q)
	sym.Assert(err == nil, "encodes")
	b, err := json.Marshal(*q)
	sym.Assert(err == nil, "value-encodes")
	assertStr(string(b), string(a), "value-same-text")
}

// C12_special_floats: the float literals that are not numbers, in any letter case and of
// either sign.
func C12_special_floats() {
	q := mustParse("SELECT Id FROM A WHERE X = " + sym.Case(sym.Pick("literal", "NaN", "Infinity", "-Infinity")))
	sym.Reach("parsed")
	survives(q)
}
