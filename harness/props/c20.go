package props

import (
	"strings"

	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// usesOf lists the fields a query uses other than as select items of their own.
func usesOf(q *SoqlQuery) []*SoqlFieldInfo {
	var l []*SoqlFieldInfo
	for i := range q.Fields {
		if q.Fields[i].Type == SoqlFieldInfo_Function {
			l = fieldsIn(&q.Fields[i], l)
		}
	}
	l = fieldsInConds(q.Where, l)
	for i := range q.GroupBy {
		l = fieldsIn(&q.GroupBy[i], l)
	}
	l = fieldsInConds(q.Having, l)
	for i := range q.OrderBy {
		l = fieldsIn(&q.OrderBy[i].Field, l)
	}
	return l
}

// outerUses lists the references of the sub-queries in SELECT to objects of q.
func outerUses(q, from *SoqlQuery, l []*SoqlFieldInfo) []*SoqlFieldInfo {
	for i := range from.Fields {
		s := from.Fields[i].SubQuery
		if from.Fields[i].Type != SoqlFieldInfo_SubQuery {
			continue
		}
		for _, f := range usesOf(s) {
			if ofObject(q, f) != nil {
				l = append(l, f)
			}
		}
		for j := range s.Fields {
			if s.Fields[j].Type == SoqlFieldInfo_Field && ofObject(q, &s.Fields[j]) != nil {
				l = append(l, &s.Fields[j])
			}
		}
		l = outerUses(q, s, l)
	}
	return l
}

// ofObject is the object of q that a field belongs to.
func ofObject(q *SoqlQuery, f *SoqlFieldInfo) *SoqlObjectInfo {
	for i := range q.From {
		if q.From[i].ViewId == f.ViewId {
			return &q.From[i]
		}
	}
	return nil
}

func sameField(f, g *SoqlFieldInfo) bool {
	if f.Type != SoqlFieldInfo_Field || g.Type != SoqlFieldInfo_Field || f.ViewId != g.ViewId || len(f.Name) != len(g.Name) {
		return false
	}
	return foldPath(f.Name, g.Name...)
}

// fetches asserts that a plan has the columns it needs and no others. items is the number
// of written select items of the query whose object has the alias.
func fetches(top *SoqlQuery, items map[string]int) {
	for _, n := range allQueries(&node{q: top, depth: 1}, nil) {
		q := n.q
		written, ok := items[q.From[0].AliasName]
		sym.Assert(ok, "known-query")
		sym.Assert(len(q.Fields) >= written, "written-items-kept")
		uses := outerUses(q, q, usesOf(q))
		for i := range q.Fields {
			f := &q.Fields[i]
			if i < written {
				sym.Assert(!f.NotSelected, "written-item-is-selected")
				continue
			}
			sym.Assert(f.NotSelected, "added-column-is-not-selected")
			sym.Assert(f.Type == SoqlFieldInfo_Field, "added-column-is-a-field")
			for j := 0; j < i; j++ {
				sym.Assert(sym.Not(sameField(f, &q.Fields[j])), "added-column-is-new")
			}
			used := false
			for _, u := range uses {
				used = sym.Or(used, sameField(f, u))
			}
			sym.Assert(used, "added-column-is-used")
		}
		for _, u := range uses {
			found := false
			for i := range q.Fields {
				found = sym.Or(found, sameField(u, &q.Fields[i]))
			}
			sym.Assert(found, "used-field-is-a-column")
		}
		for i := range q.From {
			o := &q.From[i]
			p := o.PerObjectQuery
			sym.Assert(p != nil, "per-object-query")
			k := 0
			for j := range q.Fields {
				f := &q.Fields[j]
				if f.Type == SoqlFieldInfo_Function || f.Type == SoqlFieldInfo_SubQuery || ofObject(q, f) != o {
					continue
				}
				sym.Assert(k < len(p.Fields), "column-is-fetched")
				c := &p.Fields[k]
				sym.Assert(c.Type == f.Type && c.ColumnId == f.ColumnId && c.ViewId == f.ViewId && c.NotSelected == f.NotSelected, "fetched-column")
				sym.Assert(len(c.Name) == len(f.Name) && sym.EqStr(path(c.Name), path(f.Name)), "fetched-name")
				k++
			}
			sym.Assert(k == len(p.Fields), "nothing-else-is-fetched")
			k = 0
			for j := range q.OrderBy {
				e := &q.OrderBy[j]
				if e.Field.Type != SoqlFieldInfo_Field || ofObject(q, &e.Field) != o {
					continue
				}
				sym.Assert(k < len(p.OrderBy), "entry-orders-the-object")
				c := &p.OrderBy[k]
				sym.Assert(c.Desc == e.Desc && c.NullsLast == e.NullsLast, "direction-of-the-object")
				sym.Assert(sameField(&c.Field, &e.Field), "field-that-orders-the-object")
				k++
			}
			sym.Assert(k == len(p.OrderBy), "nothing-else-orders-the-object")
			l := SoqlOffsetAndLimitClause{}
			if i == 0 {
				l = q.OffsetAndLimit
			}
			sym.Assert(p.OffsetAndLimit == l, "offset-and-limit-of-the-object")
			sym.Assert(p.For == q.For, "for-of-the-object")
			sym.Assert(len(p.GroupBy) == 0 && len(p.Having) == 0 && len(p.PostProcessWhere) == 0 && !p.IsAggregation, "simple-query")
		}
	}
	sym.Reach("plan")
}

// C20_clauses: two fields (three in the thorough tier), each in any clause (SELECT, a
// function of SELECT, WHERE, a function of WHERE, GROUP BY, HAVING, ORDER BY), of the
// object, its parent or that one's parent, in any spelling; the names the same up to case
// or different.
func C20_clauses() {
	text, items, more := clausesText(2+sym.Tier(), false)
	q, err := parse(text)
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	if err != nil {
		sym.Assert(more, "accepted")
		sym.Reach("rejected")
		return
	}
	fetches(q, map[string]int{"a": items})
}

// functionsText writes a query with a function of two or three arguments, and the number of
// its select items; plain tells that there is no GROUP BY, so that it has to be accepted.
func functionsText() (text string, items int, plain bool) {
	f := func() string {
		r := sym.Pick("object", "", "P.", "a.P.Q.") + "F" + sym.Str("c", 1, "abAB")
		return sym.Pick("argument", r, "Gn(1, "+r+")")
	}
	fn := "Fn(" + f() + ", " + f()
	if sym.Choice("more", 2) == 1 {
		fn += ", Fa, 's'"
	}
	fn += ")"
	sel, tail := "Id", ""
	switch sym.Choice("place", 4) {
	case 0:
		sel = fn + ", Fb"
	case 1:
		sel = "P.Fb"
		tail = " WHERE " + fn + " = 1"
	case 2:
		sel = "Gx, " + fn
		tail = " GROUP BY Gx HAVING MAX(Fb) = 1"
	case 3:
		sel = "Gx"
		tail = " GROUP BY Gx HAVING " + fn + " = 1 AND Mx(Fb) < 2"
	}
	return "SELECT " + sel + " FROM Obj a" + tail, topLevelItems(sel), tail == "" || tail[1] != 'G'
}

// C20_functions: a function with two or three arguments, fields and functions of fields of
// any of three objects, in SELECT, WHERE, HAVING or two of them, next to selected fields; the
// names the same up to case or different.
func C20_functions() {
	text, items, plain := functionsText()
	q, err := parse(text)
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	if err != nil {
		sym.Assert(!plain, "accepted") // otherwise: no aggregate function
		sym.Reach("rejected")
		return
	}
	fetches(q, map[string]int{"a": items})
}

// C20_orders: ORDER BY of one or two fields (three in the thorough tier) of the object, its
// parent and the parent's parent, selected or not, with any direction and null placement,
// with OFFSET, LIMIT and FOR; in the query itself, in a sub-query of SELECT and in one of
// WHERE.
func C20_orders() {
	k := sym.Choice("place", 3)
	n := 1 + sym.Choice("entries", 2+sym.Tier())
	order := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			order += ", "
		}
		order += sym.Pick("object", "", "P.", "P.Q.") + "F" + sym.Str("c", 1, "ab") + sym.Pick("direction", "", " DESC", " NULLS LAST")
	}
	q := "SELECT Fa, P.Fa, P.Q.Fz FROM Obj x ORDER BY " + order + sym.Pick("limit", "", " OFFSET :o LIMIT 4 FOR UPDATE TRACKING")
	switch k {
	case 1:
		q = "SELECT Id, (" + q + ") FROM Top a"
	case 2:
		q = "SELECT Id, Nm FROM Top a WHERE Y IN (" + q + ") LIMIT 9"
	}
	p, err := parse(q)
	sym.Assert((p == nil) == (err != nil), "query-or-error")
	if err != nil {
		sym.Assert(n > 1, "accepted")
		sym.Reach("rejected")
		return
	}
	fetches(p, map[string]int{"a": 2, "x": 3})
}

// C20_outer: a sub-query of SELECT with one or two references to the enclosing object or its
// parent as select item, as argument, in WHERE or in ORDER BY, which the enclosing query
// selects, filters by, orders by or does not use itself; the names the same or different.
func C20_outer() {
	f := func() string { return "F" + sym.Str("c", 1, "abA") }
	ref := func() string { return sym.Pick("outer", "a.", "p.", "k.") + f() }
	sel, where, n := "Id", "", 1
	m := 1 + sym.Choice("references", 2)
	for i := 0; i < m; i++ {
		switch sym.Choice("place", 4) {
		case 0:
			sel, n = sel+", "+ref(), n+1
		case 1:
			where += " AND " + ref() + " = 1"
		case 2:
			where += " AND Fn(" + ref() + ") = 1"
		case 3:
			sel, n = sel+", Fn("+ref()+")", n+1
		}
	}
	if where != "" {
		where = " WHERE" + where[4:]
	}
	use := sym.Choice("use", 4)
	osel, otail, on := "Id", "", 1
	switch use {
	case 1:
		osel, on = "Id, Fa", 2
	case 2:
		otail = " WHERE p.Fa = 1"
	case 3:
		otail = " ORDER BY Fa"
	}
	q, err := parse("SELECT " + osel + ", (SELECT " + sel + " FROM Kids k" + where + ") FROM Top a, a.P p" + otail)
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	fetches(q, map[string]int{"a": on + 1, "k": n})
}

// siblingsText writes a query with two sub-queries in SELECT, each with a reference to the
// enclosing object or its parent, to its own object, or none, and with a sub-query in its
// WHERE, in its SELECT, or none.
func siblingsText() (text string, items map[string]int) {
	items = map[string]int{"a": 3, "k": 1, "l": 1, "c": 1, "d": 1}
	f := func() string { return "F" + sym.Str("c", 1, "ab") }
	sub := func(name, alias, inner string) string {
		sel, where := "Id", ""
		switch sym.Choice("inner", 3) {
		case 1:
			where = " WHERE X IN (SELECT Y FROM B " + inner + sym.Pick("filter", "", " WHERE Fa = 1") + ")"
		case 2:
			sel += ", (SELECT " + sym.Pick("column", "Id", alias+".Fb") + " FROM L " + inner + " WHERE Fa = 1)"
			items[alias] = 2
		}
		switch sym.Choice("reference", 4) {
		case 1:
			where += " WHERE Z = a." + f()
		case 2:
			where += " WHERE Fn(p." + f() + ") = 1"
		case 3:
			where += " WHERE " + alias + "." + f() + " = 1"
		}
		if i := strings.LastIndex(where, " WHERE Z"); i > 0 {
			where = where[:i] + " AND" + where[i+6:]
		} else if i := strings.LastIndex(where, " WHERE Fn"); i > 0 {
			where = where[:i] + " AND" + where[i+6:]
		} else if i := strings.LastIndex(where, " WHERE "+alias); i > 0 {
			where = where[:i] + " AND" + where[i+6:]
		}
		return "(SELECT " + sel + " FROM " + name + " " + alias + where + ")"
	}
	text = "SELECT " + sym.Pick("own", "Id", "Fa") + ", " + sub("Ka", "k", "c") + ", " + sub("Kb", "l", "d") + " FROM Top a, a.P p"
	return text, items
}

// C20_siblings: two sub-queries in SELECT, each with a reference to the enclosing object, its
// parent or its own object, or none, and with a sub-query in its WHERE, in its SELECT, or none.
func C20_siblings() {
	text, items := siblingsText()
	q, err := parse(text)
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	fetches(q, items)
}

// C20_nested: sub-queries two deep in eight layouts at each level (none, in SELECT, WHERE or
// HAVING, two of a kind, one in each), with and without parent objects.
func C20_nested() {
	g := &treeGen{parents: 2, layouts: 8, items: map[string]int{}}
	if sym.Tier() > 0 {
		g.parents = 4
	}
	text := g.query("Top", "a", 2)
	fetches(mustParse(text), g.items)
}

// rightText writes comparisons with a field, or a function of one, on both sides.
func rightText() (text string, items map[string]int) {
	items = map[string]int{"a": 2, "k": 1}
	side := func(agg bool) string {
		f := sym.Pick("object", "", "P.", "a.P.Q.") + "F" + sym.Str("c", 1, "abA")
		if agg {
			return "MAX(" + f + ")"
		}
		return sym.Pick("side", f, "Fn(1, "+f+")")
	}
	switch sym.Choice("place", 4) {
	case 0:
		text = "SELECT Fa, P.Fb FROM Obj a WHERE " + side(false) + sym.Pick("op", " = ", " NOT IN ") + side(false)
	case 1:
		text = "SELECT Fa, COUNT(Id) FROM Obj a GROUP BY Fa HAVING " + side(true) + " > " + side(true)
	case 2:
		text = "SELECT Fa, P.Fb FROM Obj a WHERE Fc = 1 AND NOT (" + side(false) + " < P.Fa OR Fb = " + side(false) + ")"
	case 3:
		own := sym.Pick("own", "k.", "k.P.", "") + "F" + sym.Str("c", 1, "ab")
		out := sym.Pick("outer", "a.", "p.") + "F" + sym.Str("c", 1, "ab")
		w := own + " = " + out
		if sym.Choice("order", 2) == 1 {
			w = "Gn(" + out + ") = " + own
		}
		text = "SELECT Fa, (SELECT Id FROM Kids k WHERE " + w + ") FROM Top a, a.P p"
	}
	return text, items
}

// C20_right: comparisons with a field, or a function of one, on both sides, in WHERE, under
// NOT and OR, in HAVING and in a sub-query of SELECT with an enclosing object on one side.
func C20_right() {
	text, items := rightText()
	fetches(mustParse(text), items)
}
