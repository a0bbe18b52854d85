package props

import (
	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

func fieldsIn(f *SoqlFieldInfo, l []*SoqlFieldInfo) []*SoqlFieldInfo {
	switch f.Type {
	case SoqlFieldInfo_Field:
		l = append(l, f)
	case SoqlFieldInfo_Function:
		for i := range f.Parameters {
			l = fieldsIn(&f.Parameters[i], l)
		}
	}
	return l
}

func fieldsInConds(cs []SoqlCondition, l []*SoqlFieldInfo) []*SoqlFieldInfo {
	for i := range cs {
		if cs[i].Opcode == SoqlConditionOpcode_FieldInfo {
			l = fieldsIn(&cs[i].Value, l)
		}
	}
	return l
}

// fieldOccurrences lists every field of a query wherever it stands.
func fieldOccurrences(q *SoqlQuery) []*SoqlFieldInfo {
	var l []*SoqlFieldInfo
	for i := range q.Fields {
		l = fieldsIn(&q.Fields[i], l)
	}
	for i := range q.GroupBy {
		l = fieldsIn(&q.GroupBy[i], l)
	}
	for i := range q.OrderBy {
		l = fieldsIn(&q.OrderBy[i].Field, l)
	}
	l = fieldsInConds(q.Where, l)
	l = fieldsInConds(q.Having, l)
	l = fieldsInConds(q.PostProcessWhere, l)
	for i := range q.From {
		p := q.From[i].PerObjectQuery
		l = fieldsInConds(p.Where, l)
		for j := range p.OrderBy {
			l = fieldsIn(&p.OrderBy[j].Field, l)
		}
	}
	return l
}

// pointsAt asserts that a field carries the view of its object and a position at which the
// query of that object selects the field.
func pointsAt(n *node, f *SoqlFieldInfo, label string) {
	o := objectWithView(n, f.Name[:len(f.Name)-1], f.ViewId)
	sym.Assert(o != nil, label+"-view")
	p := o.PerObjectQuery
	sym.Assert(p != nil && f.ColIndex >= 0 && f.ColIndex < len(p.Fields), label+"-position-in-range")
	c := &p.Fields[f.ColIndex]
	sym.Assert(c.Type == SoqlFieldInfo_Field && len(c.Name) == len(f.Name), label+"-position")
	sym.Assert(foldPath(c.Name, f.Name...), label+"-position")
	sym.Assert(c.ColumnId == f.ColumnId, label+"-column-of-position")
}

// columnsAgree asserts the same of every field of a plan, that each position of a
// per-object query is held by a field of its object, and that the column ids of a query
// tell its columns apart.
func columnsAgree(top *SoqlQuery) {
	for _, n := range allQueries(&node{q: top, depth: 1}, nil) {
		q := n.q
		occ := fieldOccurrences(q)
		for _, f := range occ {
			pointsAt(n, f, "field")
		}
		for i, f := range occ {
			sym.Assert(f.ColumnId >= 1 && f.ColumnId < top.Meta.NextColumnId, "column-id-in-range")
			for _, g := range occ[:i] {
				if f.ColumnId == g.ColumnId {
					sym.Assert(len(f.Name) == len(g.Name) && foldPath(f.Name, g.Name...), "column-id-of-one-field")
				} else if len(f.Name) == len(g.Name) {
					sym.Assert(sym.Not(foldPath(f.Name, g.Name...)), "field-has-one-column-id")
				}
			}
		}
		for i := range q.Fields {
			f := &q.Fields[i]
			sym.Assert(f.ColumnId >= 1 && f.ColumnId < top.Meta.NextColumnId, "selected-column-id")
			for j := 0; j < i; j++ {
				if q.Fields[j].ColumnId == f.ColumnId {
					sym.Assert(f.Type == SoqlFieldInfo_Field && q.Fields[j].Type == SoqlFieldInfo_Field, "column-ids-differ")
				}
			}
			if f.Type != SoqlFieldInfo_Field {
				for _, g := range occ {
					sym.Assert(g.ColumnId != f.ColumnId, "column-id-of-function-or-sub-query")
				}
			}
		}
		for i := range q.From {
			o := &q.From[i]
			for j := range o.PerObjectQuery.Fields {
				f := &o.PerObjectQuery.Fields[j]
				sym.Assert(f.Type == SoqlFieldInfo_Field || f.Type == SoqlFieldInfo_FieldSet, "per-object-field")
				sym.Assert(len(f.Name) == len(o.Name)+1 && foldPath(f.Name[:len(o.Name)], o.Name...), "per-object-field-of-the-object")
				sym.Assert(f.ViewId == o.ViewId, "per-object-field-view")
				sym.Assert(f.ColIndex == j, "per-object-field-position")
			}
		}
	}
	sym.Reach("plan")
}

// refTo writes a field F and one character, any, of the object or of a parent P.
func colRef(level int) string {
	return []string{"", "P.", "a.P.", "P.Q.", "a."}[level] + "F" + sym.Str("c", 1, letters+digits)
}

// C10_clauses: two fields, each in any clause (SELECT, a function of SELECT, WHERE, a
// function of WHERE, GROUP BY, HAVING, ORDER BY), of the object, its parent or that one's
// parent, in any spelling; the names the same up to case or different.
func C10_clauses() {
	n := 2
	if sym.Tier() > 0 {
		n = 3
	}
	text, _, more := clausesText(n, true)
	q, err := parse(text)
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	if err != nil {
		sym.Assert(more, "accepted")
		sym.Reach("rejected")
		return
	}
	columnsAgree(q)
}

// clausesText writes n fields, each in any clause. items is the number of select items; more
// tells that GROUP BY or ORDER BY has two entries, which may be the same field.
func clausesText(n int, deep bool) (text string, items int, more bool) {
	var sel, where, group, having, order []string
	agg := sym.Choice("grouped", 2) == 1
	for i := 0; i < n; i++ {
		c := sym.Choice("clause", 4)
		r := colRef(sym.Choice("level", 5))
		switch {
		case c == 0 && agg:
			group = append(group, r)
			sel = append(sel, r)
		case c == 0:
			sel = append(sel, r)
		case c == 1:
			sel = append(sel, pick(deep, "Fn("+r+", 1)", "Fn(Gn(Hn(1, "+r+")))"))
		case c == 2:
			where = append(where, pick(deep, r, "Fn(Gn("+r+"))", "Fn(Gn(1, Hn(Kn("+r+"))))")+" = 1")
		case c == 3 && agg:
			having = append(having, "MAX("+r+") = 1")
		case c == 3:
			if r[0] == 'P' || r[1] == '.' && r[2] == 'P' {
				sel = append(sel, "P.Id", "P.Q.Id") // ORDER BY takes objects of the query only
			}
			order = append(order, r)
		}
	}
	if agg && len(group) == 0 {
		group = append(group, "Gx")
	}
	if len(sel) == 0 {
		if agg {
			sel = append(sel, "COUNT(Id)")
		} else {
			sel = append(sel, "Id")
		}
	}
	text = "SELECT " + list(sel) + " FROM Obj a"
	if len(where) > 0 {
		text += " WHERE " + where[0]
		for _, w := range where[1:] {
			text += sym.Pick("op", " AND ", " OR ") + w
		}
	}
	if len(group) > 0 {
		text += " GROUP BY " + list(group)
	}
	if len(having) > 0 {
		text += " HAVING " + having[0]
		for _, w := range having[1:] {
			text += " AND " + w
		}
	}
	if len(order) > 0 {
		text += " ORDER BY " + list(order)
	}
	return text, len(sel), len(group) > 1 || len(order) > 1
}

// pick is one of the spellings, of the first two unless deep.
func pick(deep bool, s ...string) string {
	if !deep && len(s) > 2 {
		s = s[:2]
	}
	return sym.Pick("nesting", s...)
}

func list(l []string) string {
	r := l[0]
	for _, s := range l[1:] {
		r += ", " + s
	}
	return r
}

// C10_aliases: fields, functions and a sub-query with aliases that ORDER BY or GROUP BY
// refers to, next to fields of the same or other names.
func C10_aliases() {
	f := func() string { return "F" + sym.Str("c", 1, letters) }
	text := "SELECT " + f() + " ax, " + f()
	switch sym.Choice("item", 4) {
	case 1:
		text += ", Fn(" + f() + ") bx"
	case 2:
		text += ", P." + f() + " bx"
	case 3:
		text += ", (SELECT " + f() + " cx, " + f() + " FROM Kids ORDER BY cx) bx"
	default:
		text += ", " + f() + " bx"
	}
	text += " FROM Obj WHERE " + f() + " = 1 ORDER BY " + sym.Pick("order", "AX", "ax, Bx", "bX", f())
	q, err := parse(text)
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	columnsAgree(q)
}

// C10_grouped: the same for GROUP BY through an alias.
func C10_grouped() {
	f := func() string { return "F" + sym.Str("c", 1, letters) }
	a, b := f(), f()
	text := "SELECT " + a + " ax, COUNT(" + b + ") n, P." + f() + " bx FROM Obj WHERE " + f() + " = 1 GROUP BY " +
		sym.Pick("group", "AX, bx", "ax, bx, "+f()) + " HAVING MAX(" + f() + ") > 1 ORDER BY " + sym.Pick("order", "n", "AX, N", "bx")
	q, err := parse(text)
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	columnsAgree(q)
}

// C10_nested: sub-queries one deep in eight layouts (none, one in SELECT, one in WHERE, one
// in HAVING, two in SELECT, two in WHERE, one in each, three in WHERE and HAVING), each
// with parent objects used in three ways and its own fields; names of objects with a
// character that can be any.
func C10_nested() {
	g := &treeGen{parents: 3, layouts: 8}
	columnsAgree(mustParse(g.query("Top", "a", 1)))
}

// C10_shared: sub-queries on the same relationship or on different ones, one deep and two
// deep, that select and filter the same field or different ones.
func C10_shared() {
	k := func() string { return "K" + sym.Str("n", 1, letters) }
	f := func() string { return "F" + sym.Str("c", 1, letters) }
	text := ""
	if sym.Choice("where", 2) == 0 {
		text = "SELECT Id, (SELECT " + f() + ", (SELECT Fa, Fb FROM " + k() + ") FROM " + k() + " WHERE " + f() + " = 1), (SELECT Fc, Fd, P.Fb FROM " + k() + " ORDER BY " + f() + ") FROM Top"
	} else {
		text = "SELECT Fa FROM Top WHERE X IN (SELECT " + f() + " FROM " + k() + " WHERE " + f() + " = 1) AND Fb NOT IN (SELECT Fa FROM " + k() + " WHERE P.Fx = 1 AND " + f() + " = 1)"
	}
	columnsAgree(mustParse(text))
}

// C10_corpus: the texts that use every construct of the grammar.
func C10_corpus() {
	i := sym.Choice("text", len(corpus)+len(shortCorpus))
	t := ""
	if i < len(corpus) {
		t = corpus[i]
	} else {
		t = shortCorpus[i-len(corpus)]
	}
	columnsAgree(mustParse(plainText(t)))
}

// C10_functions: a function with two or three arguments, fields and functions of fields of
// any of three objects, in SELECT, WHERE, HAVING or two of them, next to selected fields; the
// names the same up to case or different.
func C10_functions() {
	text, _, plain := functionsText()
	q, err := parse(text)
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	if err != nil {
		sym.Assert(!plain, "accepted")
		sym.Reach("rejected")
		return
	}
	columnsAgree(q)
}

// C10_siblings: two sub-queries in SELECT, each with a reference to the enclosing object, its
// parent or its own object, or none, and with a sub-query in its WHERE, in its SELECT, or none.
func C10_siblings() {
	text, _ := siblingsText()
	q, err := parse(text)
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	if err != nil {
		sym.Reach("rejected")
		return
	}
	columnsAgree(q)
}

// C10_right: comparisons with a field, or a function of one, on both sides, in WHERE, under
// NOT and OR, in HAVING and in a sub-query of SELECT with an enclosing object on one side.
func C10_right() {
	text, _ := rightText()
	columnsAgree(mustParse(text))
}
