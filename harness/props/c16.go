package props

import (
	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// outerRef asserts that a reference to an object of an enclosing query is served by that
// query: the field is among the fields of it and of the query of its object, and the
// reference carries the view and the position there.
func outerRef(n *node, f *SoqlFieldInfo, path ...string) {
	sym.Assert(f.Type == SoqlFieldInfo_Field && len(f.Name) == len(path) && foldPath(f.Name, path...), "outer-reference-path")
	pointsAt(n.parent, f, "outer-reference")
	for m := n.parent; m != nil; m = m.parent {
		for i := range m.q.From {
			if m.q.From[i].ViewId == f.ViewId {
				found := 0
				for j := range m.q.Fields {
					g := &m.q.Fields[j]
					if g.Type == SoqlFieldInfo_Field && len(g.Name) == len(path) && foldPath(g.Name, path...) {
						sym.Assert(g.ColumnId == f.ColumnId && g.ColIndex == f.ColIndex && g.ViewId == f.ViewId, "outer-field-is-the-column")
						found++
					}
				}
				sym.Assert(found >= 1, "outer-field-fetched")
				return
			}
		}
	}
	sym.Assert(false, "outer-object")
}

// correlated asserts that exactly those queries of a plan are marked that hold a reference
// to an object that is not their own.
func correlated(top *SoqlQuery) {
	for _, n := range allQueries(&node{q: top, depth: 1}, nil) {
		outer := false
		for _, f := range fieldOccurrences(n.q) {
			own := false
			for i := range n.q.From {
				if n.q.From[i].ViewId == f.ViewId {
					own = true
				}
			}
			if !own {
				outer = true
				outerRef(n, f, f.Name...)
			}
		}
		sym.Assert(n.q.IsCorelated == outer, "correlated-mark")
	}
	columnsAgree(top)
}

// subClause writes a reference into a clause of a sub-query on Kids.
func subClause(k int, ref, alias string) (text string, find func(q *SoqlQuery) *SoqlFieldInfo) {
	from := " FROM Kids " + alias
	switch k {
	case 0:
		return "SELECT Id" + from + " WHERE X = 1 AND " + ref + " = 2", func(q *SoqlQuery) *SoqlFieldInfo { return &q.Where[3].Value }
	case 1:
		return "SELECT Id" + from + " WHERE Fn(1, " + ref + ") != 2", func(q *SoqlQuery) *SoqlFieldInfo { return &q.Where[0].Value.Parameters[1] }
	case 2:
		return "SELECT Id, Fn(Gn(" + ref + "))" + from, func(q *SoqlQuery) *SoqlFieldInfo { return &q.Fields[1].Parameters[0].Parameters[0] }
	case 3:
		return "SELECT Id" + from + " ORDER BY Id, " + ref, func(q *SoqlQuery) *SoqlFieldInfo { return &q.OrderBy[1].Field }
	case 4:
		return "SELECT COUNT(Id)" + from + " GROUP BY X, " + ref, func(q *SoqlQuery) *SoqlFieldInfo { return &q.GroupBy[1] }
	}
	return "SELECT COUNT(Id)" + from + " GROUP BY X HAVING MAX(" + ref + ") > 1", func(q *SoqlQuery) *SoqlFieldInfo { return &q.Having[0].Value.Parameters[0] }
}

// C16_alias: one sub-query in SELECT with a reference through an alias in any of six
// clauses; the aliases of the enclosing object, of its parent and of the sub-query's own
// object and the alias used are one character each, any, so that the reference names any
// of the three or none; the enclosing query selects the field, filters by it or does not
// use it.
func C16_alias() {
	a, p, k, r := sym.Str("a", 1, letters), sym.Str("p", 1, letters), sym.Str("k", 1, letters), sym.Str("r", 1, letters)
	f := "F" + sym.Str("c", 1, letters)
	sym.Assume(sym.Not(sym.EqFold(a, p)))
	clause := sym.Choice("clause", 6)
	sub, find := subClause(clause, r+"."+f, k)
	sel := sym.Pick("outer-select", "Id", "Id, Fx, "+a+".Par.Fx", "Id, Fn(Fx)")
	where := sym.Pick("outer-where", "", " WHERE "+p+".Fy = 1")
	q, err := parse("SELECT " + sel + ", (" + sub + ") FROM Top " + a + ", " + a + ".Par " + p + where)
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	if err != nil {
		// SELECT takes fields of the query's own objects only
		if clause == 2 {
			sym.Assert(sym.Not(sym.EqFold(r, k)), "own-alias-accepted")
		} else {
			sym.Assert(sym.Not(sym.Or(sym.EqFold(r, a), sym.Or(sym.EqFold(r, k), sym.EqFold(r, p)))), "known-alias-accepted")
		}
		sym.Reach("rejected")
		return
	}
	n := allQueries(&node{q: q, depth: 1}, nil)
	sym.Assert(len(n) == 2, "queries")
	s, ref := n[1], find(n[1].q)
	switch {
	case sym.EqFold(r, k):
		sym.Assert(len(ref.Name) == 3 && foldPath(ref.Name, "Top", "Kids", f), "own-field")
		sym.Assert(!s.q.IsCorelated, "not-correlated")
		sym.Reach("own")
	case sym.EqFold(r, a):
		outerRef(s, ref, "Top", f)
		sym.Assert(s.q.IsCorelated, "correlated")
		sym.Reach("outer")
	case sym.EqFold(r, p):
		outerRef(s, ref, "Top", "Par", f)
		sym.Assert(s.q.IsCorelated, "correlated")
		sym.Reach("outer-parent")
	default:
		sym.Assert(len(ref.Name) == 4 && foldPath(ref.Name, "Top", "Kids", r, f), "parent-field")
		sym.Assert(!s.q.IsCorelated, "not-correlated")
	}
	sym.Assert(!q.IsCorelated, "enclosing-query-not-correlated")
	correlated(q)
}

// C16_spelling: references through names and paths instead of aliases.
func C16_spelling() {
	c := sym.Str("c", 1, letters)
	d := sym.Str("d", 1, letters)
	k := sym.Choice("spelling", 8)
	ref := []string{"TOP.F", "Top.Par.F", "a.PAR.F", "a.Kids.F", "Kids.Par.F", "k.Gr.Par.F", "F", "Top.Kids.Gr.F"}[k] + c
	path := [][]string{{"Top"}, {"Top", "Par"}, {"Top", "Par"}, nil, nil, nil, nil, nil}[k]
	clause := sym.Choice("clause", 6)
	sub, find := subClause(clause, ref, "k")
	q, err := parse("SELECT Id, Par.F" + d + ", F" + d + ", (" + sub + ") FROM Top a")
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	if err != nil {
		sym.Assert(path == nil || clause == 2, "known-object-accepted")
		sym.Reach("rejected")
		return
	}
	n := allQueries(&node{q: q, depth: 1}, nil)
	sym.Assert(n[1].q.IsCorelated == (path != nil), "correlated-mark")
	if path != nil {
		outerRef(n[1], find(n[1].q), append(path, "F"+c)...)
	}
	sym.Assert(!q.IsCorelated, "enclosing-query-not-correlated")
	correlated(q)
}

// C16_many: two or three references in one sub-query and a second sub-query with one; to
// the sub-query's own object, to the enclosing one or its parent; the field names the same
// up to case or not.
func C16_many() {
	ref := func() (string, bool) {
		o := sym.Choice("object", 3)
		return []string{"k", "a", "b"}[o] + ".F" + sym.Str("c", 1, letters), o > 0
	}
	r1, o1 := ref()
	r2, o2 := ref()
	r3, o3 := ref()
	outer := sym.Pick("outer", "", "Fx, ", "Par.Fx, ", "Fn(Fx), ")
	q := mustParse("SELECT " + outer + "Id, (SELECT Id FROM Kids k WHERE Fn(" + r1 + ", X) = 1 OR NOT " + r2 + " = 1), (SELECT Id FROM Kidz k WHERE " + r3 + " = 2) FROM Top a, a.Par b")
	n := allQueries(&node{q: q, depth: 1}, nil)
	sym.Assert(len(n) == 3, "queries")
	sym.Assert(n[1].q.IsCorelated == (o1 || o2), "first-sub-query")
	sym.Assert(n[2].q.IsCorelated == o3, "second-sub-query")
	sym.Assert(!q.IsCorelated, "enclosing-query-not-correlated")
	correlated(q)
}

// C16_nested: a sub-query in a sub-query with a reference to its own object, to the object
// of the sub-query it is in, that one's parent, or to the object of the top query; each
// query has another reference to its own field or the enclosing object. A reference to an
// object further out is either served or the text is rejected.
func C16_nested() {
	f := func() string { return ".F" + sym.Str("c", 1, letters) }
	o1 := sym.Choice("outer-object", 2)
	o2 := sym.Choice("inner-object", 5)
	mid := []string{"k", "a"}[o1] + f()
	in := []string{"l", "k", "kp", "a", "ap"}[o2] + f()
	top := sym.Pick("top", "", "Fx, ", "Par.Fx, ")
	q, err := parse("SELECT " + top + "Id, (SELECT Id, (SELECT Id FROM Leafs l WHERE " + in + " = 1) FROM Kids k, k.Kp kp WHERE " + mid + " = 1) FROM Top a, a.Par ap")
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	if err != nil {
		sym.Assert(o2 >= 3, "accepted")
		sym.Reach("rejected")
		return
	}
	n := allQueries(&node{q: q, depth: 1}, nil)
	sym.Assert(len(n) == 3, "queries")
	sym.Assert(n[1].q.IsCorelated == (o1 > 0), "middle-query")
	sym.Assert(n[2].q.IsCorelated == (o2 > 0), "inner-query")
	sym.Assert(!q.IsCorelated, "enclosing-query-not-correlated")
	correlated(q)
}

// C16_conditional: a sub-query in WHERE is a query of its own: a prefix that is the alias
// of the enclosing object names a parent of its own object, and it is never marked; one in
// SELECT inside of it is correlated to it.
func C16_conditional() {
	r := sym.Str("r", 1, letters)
	ref := r + ".F" + sym.Str("c", 1, letters)
	switch sym.Choice("inner", 2) {
	case 0:
		q := mustParse("SELECT Id FROM Top a WHERE X IN (SELECT Y FROM Other o WHERE " + ref + " = 1)")
		s := condSub(q, 0)
		sym.Assert(!s.IsCorelated && !q.IsCorelated, "not-correlated")
		if sym.EqFold(r, "o") {
			sym.Assert(len(s.Where[0].Value.Name) == 2, "own-field")
		} else {
			sym.Assert(len(s.Where[0].Value.Name) == 3 && foldPath(s.Where[0].Value.Name[:2], "Other", r), "own-parent")
		}
		correlated(q)
	case 1:
		q := mustParse("SELECT Id FROM Top a WHERE X IN (SELECT Y, (SELECT Id FROM Kids k WHERE " + ref + " = 1) FROM Other o)")
		s := condSub(q, 0)
		sym.Assert(s.Fields[1].SubQuery.IsCorelated == sym.EqFold(r, "o"), "correlated-mark")
		sym.Assert(!s.IsCorelated && !q.IsCorelated, "not-correlated")
		correlated(q)
	}
}
