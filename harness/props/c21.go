package props

import (
	"strconv"
	"strings"

	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// views writes the entries of the graphs for a query and the queries in it, depths counted
// from those of the query.
func views(p *plan, m *SoqlQueryMeta, q *SoqlQuery) {
	base := m.QueryGraph[q.QueryId].Depth
	vbase := m.ViewGraph[q.From[0].ViewId].Depth
	for _, n := range allQueries(&node{q: q}, nil) {
		p.i("qd", m.QueryGraph[n.q.QueryId].Depth-base)
		p.b("cond", n.q != q && m.QueryGraph[n.q.QueryId].IsConditional)
		for i := range n.q.From {
			l, ok := m.ViewGraph[n.q.From[i].ViewId]
			sym.Assert(ok, "view-in-graph")
			p.i("vd", l.Depth-vbase)
			p.i("vq", l.QueryDepth-base)
			p.b("ij", l.InnerJoin)
			p.b("many", l.Many && !(n.q == q && i == 0))
		}
	}
}

// aloneAndIn compares the plan of a text with that of the sub-query s of another one.
func aloneAndIn(text string, top, s *SoqlQuery, strip int, label string) {
	alone := mustParse(text)
	a, b := shapeOf(alone, 0), shapeOf(s, strip)
	views(a, alone.Meta, alone)
	views(b, top.Meta, s)
	samePlan(a, b, label)
	sym.Reach("compared")
}

// subOfFields is the n-th sub-query of the select list.
func subOfFields(q *SoqlQuery, n int) *SoqlQuery {
	for i := range q.Fields {
		if q.Fields[i].Type == SoqlFieldInfo_SubQuery {
			if n == 0 {
				return q.Fields[i].SubQuery
			}
			n--
		}
	}
	sym.Assert(false, "sub-query-kept")
	return nil
}

func subOfHaving(q *SoqlQuery) *SoqlQuery {
	return condSub(&SoqlQuery{Where: q.Having}, 0)
}

// inPlace writes a query as a sub-query in one of nine places and gives that sub-query of
// the plan.
func inPlace(text string, k int) (*SoqlQuery, *SoqlQuery) {
	t := "(" + text + ")"
	switch k {
	case 0:
		q := mustParse("SELECT Id FROM Zt WHERE Zx IN " + t)
		return q, condSub(q, 0)
	case 1:
		q := mustParse("SELECT Za, Zp.Zb FROM Zt z, z.Zp y WHERE NOT (Za = 1 OR y.Zx NOT IN " + t + ") ORDER BY Zc")
		return q, condSub(q, 0)
	case 2:
		q := mustParse("SELECT Id, (SELECT Zk FROM Zkids WHERE Zl = 1) FROM Zt WHERE Zx IN (SELECT Zm FROM Zn, Zn.Zo WHERE Zq = 2) AND Zy IN " + t)
		return q, condSub(q, 1)
	case 3:
		q := mustParse("SELECT Zg, COUNT(Zh) FROM Zt GROUP BY Zg HAVING MAX(Zi) > 1 AND MIN(Zj) IN " + t)
		return q, subOfHaving(q)
	case 4:
		q := mustParse("SELECT Id FROM Zt WHERE Zx IN (SELECT Zy FROM Zu, Zu.Zv w WHERE w.Za = 1 AND Zz NOT IN " + t + ")")
		return q, condSub(condSub(q, 0), 0)
	case 5:
		q := mustParse("SELECT Id, (SELECT Zk FROM Zkids zk WHERE zk.Zl IN " + t + ") FROM Zt")
		return q, condSub(subOfFields(q, 0), 0)
	case 6:
		q := mustParse("SELECT Id, " + t + " FROM Zt")
		return q, subOfFields(q, 0)
	case 7:
		q := mustParse("SELECT Za, Zp.Zb, (SELECT Zk FROM Zkids WHERE Zl = 1 ORDER BY Zk), " + t + " zs FROM Zt z, z.Zp y WHERE y.Zc = 1 AND Zd IN (SELECT Ze FROM Zf)")
		return q, subOfFields(q, 1)
	}
	q := mustParse("SELECT Id, (SELECT Zk, " + t + " FROM Zkids zk, zk.Zm WHERE zk.Zl = 1) FROM Zt")
	return q, subOfFields(subOfFields(q, 0), 0)
}

// prefixOf is the number of names before the primary object's path in place k.
func prefixOf(k int) int {
	switch k {
	case 6, 7:
		return 1
	case 8:
		return 2
	}
	return 0
}

// C21_corpus: each text that uses every construct of the grammar, as a sub-query in nine
// places (in WHERE, under NOT, next to other sub-queries, in HAVING, in a sub-query of WHERE
// and of SELECT; in SELECT, next to another, and in a sub-query of SELECT), has the plan it
// has on its own.
func C21_corpus() {
	i := sym.Choice("text", len(corpus)+len(shortCorpus))
	t := ""
	if i < len(corpus) {
		t = plainText(corpus[i])
	} else {
		t = plainText(shortCorpus[i-len(corpus)])
	}
	k := sym.Choice("place", 9)
	if prefixOf(k) > 0 {
		t = strings.Replace(t, " Kids.", " ", -1) // in SELECT that is a relationship of the object
		sym.Assume(!strings.Contains(t, "Account.Kids"))
	}
	top, s := inPlace(t, k)
	aloneAndIn(t, top, s, prefixOf(k), "place"+strconv.Itoa(k))
}

// C21_clauses: a query with a field in any clause (two in the thorough tier) of any of three
// objects in any spelling, in the nine places.
func C21_clauses() {
	k := sym.Choice("place", 9)
	t, _, _ := clausesText(1+sym.Tier(), false)
	top, s := inPlace(t, k)
	aloneAndIn(t, top, s, prefixOf(k), "place"+strconv.Itoa(k))
}

// C21_nested: a query with sub-queries in eight layouts and parent objects used or not,
// in the nine places.
func C21_nested() {
	k := sym.Choice("place", 9)
	g := &treeGen{parents: 2 + 2*sym.Tier(), layouts: 8}
	t := g.query("Top", "a", 1)
	top, s := inPlace(t, k)
	aloneAndIn(t, top, s, prefixOf(k), "place"+strconv.Itoa(k))
}

// C21_frame: a query with a sub-query in the nine places, written twice with different
// sub-queries out of six (with names that occur outside of it, functions, aggregation,
// nested sub-queries, correlated or not to its own parents): what is outside the sub-query
// has the same plan.
func C21_frame() {
	subs := []string{
		"SELECT Id FROM Zkids",
		"SELECT Zx FROM Zt zk, zk.Zp WHERE Zp.Zb = 1 ORDER BY Zx LIMIT 1",
		"SELECT COUNT(Za) zs FROM Zf WHERE Zb IN (SELECT Za FROM Zt WHERE Zx = 2) GROUP BY Zc HAVING MAX(Zd) > 2",
		"SELECT Id, (SELECT Zk FROM Zkids zz WHERE zz.Zl = q.Zr) FROM Zq q WHERE Fn(Zq.Zs) = 1 FOR UPDATE",
		"SELECT Fn(Id), Zp.Zq.Zr, Za FROM Zu, Zp x, x.Zq WHERE NOT (Zp.Zs = 1 AND Zb = 2) OR Zp.Zc = 1",
		"SELECT " + sym.Str("c", 1, letters) + ", Z" + sym.Str("c", 1, letters) + " FROM Z" + sym.Str("c", 1, letters) + " WHERE Z" + sym.Str("c", 1, letters) + " = 1 ORDER BY Z" + sym.Str("c", 1, letters),
	}
	k := sym.Choice("place", 9)
	a, as := inPlace(subs[0], k)
	b, bs := inPlace(subs[1+sym.Choice("sub", len(subs)-1)], k)
	x, y := frameOf(a, as), frameOf(b, bs)
	samePlan(x, y, "frame"+strconv.Itoa(k))
	sym.Reach("compared")
}

// frameOf is the plan of a query except for the sub-query s in it.
func frameOf(q, s *SoqlQuery) *plan {
	p := &plan{rel: &relabel{ids: map[string]int{}, next: map[string]int{}, leave: s}}
	p.query(q)
	return p
}

// C21_overlap: a query whose primary object, its alias, a joined relationship and its alias
// are any of three letters (aliases present or not), with a sub-query in its conditions (in
// WHERE, HAVING or the WHERE of a sub-query in SELECT) that uses two of those letters as its
// own relationships, has for that sub-query the plan of the sub-query on its own: the names
// of the enclosing query mean nothing in it.
func C21_overlap() {
	l := "pqx"
	obj := sym.Str("obj", 1, l)
	name, from := obj, obj
	if sym.Bool("aliased") {
		name = sym.Str("alias", 1, l)
		from += " " + name
	}
	rel := sym.Str("rel", 1, l)
	from += ", " + name + "." + rel
	if sym.Bool("rel aliased") {
		rel = sym.Str("rel alias", 1, l)
		from += " " + rel
	}
	sym.Assume(!sym.EqStr(rel, name)) // two objects of one name are rejected
	in := "SELECT F, P.G, Q.R.H FROM Obj WHERE P.I = 1 ORDER BY Q.J"
	var top, s *SoqlQuery
	switch sym.Choice("where", 3) {
	case 0:
		top = mustParse("SELECT Id FROM " + from + " WHERE Zx IN (" + in + ")")
		s = condSub(top, 0)
	case 1:
		in = "SELECT p.F, o.P.G FROM Obj o, o.P p, Q q WHERE q.R.I = 1 AND R.K = 2"
		top = mustParse("SELECT Zg FROM " + from + " GROUP BY Zg HAVING MIN(Zj) IN (" + in + ")")
		s = subOfHaving(top)
	default:
		in = "SELECT P.F, COUNT(Q.G) FROM R WHERE P.K = 1 GROUP BY P.F HAVING MAX(Q.H) > 1"
		top = mustParse("SELECT Id, (SELECT Zm FROM Kids k WHERE k.Zn IN (" + in + ")) FROM " + from)
		s = condSub(subOfFields(top, 0), 0)
	}
	aloneAndIn(in, top, s, 0, "overlap")
}
