package props

import (
	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// node is a query of a plan and its place in it.
type node struct {
	q         *SoqlQuery
	parent    *node // the enclosing query
	direct    bool  // is a sub-query of a condition
	nonResult bool  // is in a condition
	depth     int
}

// allQueries lists a query and the queries in it.
func allQueries(n *node, l []*node) []*node {
	l = append(l, n)
	for i := range n.q.Fields {
		f := &n.q.Fields[i]
		if f.Type == SoqlFieldInfo_SubQuery {
			sym.Assert(f.SubQuery != nil, "sub-query")
			sym.Assert(f.SubQuery.Parent == n.q, "parent-query")
			l = allQueries(&node{q: f.SubQuery, parent: n, nonResult: n.nonResult, depth: n.depth + 1}, l)
		}
	}
	for _, cs := range [][]SoqlCondition{n.q.Where, n.q.Having} {
		for i := range cs {
			if cs[i].Opcode == SoqlConditionOpcode_FieldInfo && cs[i].Value.Type == SoqlFieldInfo_SubQuery {
				l = allQueries(&node{q: cs[i].Value.SubQuery, parent: n, direct: true, nonResult: true, depth: n.depth + 1}, l)
			}
		}
	}
	return l
}

// objectWithView finds the object with the given path and view id that a query sees: its
// own, or one of a query that encloses it.
func objectWithView(n *node, path []string, id int) *SoqlObjectInfo {
	for ; n != nil; n = n.parent {
		for i := range n.q.From {
			o := &n.q.From[i]
			if o.ViewId == id && len(o.Name) == len(path) && foldPath(o.Name, path...) {
				return o
			}
		}
		if n.direct {
			break
		}
	}
	return nil
}

// oneTree asserts that the ids, links and depths of a plan form one tree.
func oneTree(top *SoqlQuery) {
	m := top.Meta
	sym.Assert(m != nil, "meta")
	nodes := allQueries(&node{q: top, depth: 1}, nil)

	sym.Assert(len(m.QueryGraph) == len(nodes), "query-graph-size")
	sym.Assert(m.NextQueryId == len(nodes)+1, "next-query-id")
	maxDepth := 0
	for i, n := range nodes {
		for _, o := range nodes[:i] {
			sym.Assert(o.q.QueryId != n.q.QueryId, "query-ids-differ")
			sym.Assert(o.q != n.q, "queries-differ")
		}
		sym.Assert(n.q.QueryId >= 1 && n.q.QueryId < m.NextQueryId, "query-id-in-range")
		g, ok := m.QueryGraph[n.q.QueryId]
		sym.Assert(ok, "query-in-graph")
		sym.Assert(g.Query == n.q, "query-of-graph")
		sym.Assert(g.Depth == n.depth, "query-depth")
		sym.Assert(g.IsConditional == n.direct, "query-is-conditional")
		if n.parent == nil {
			sym.Assert(g.ParentQueryId == 0, "top-query-has-no-parent")
		} else {
			sym.Assert(g.ParentQueryId == n.parent.q.QueryId, "parent-query-id")
		}
		if n.depth > maxDepth {
			maxDepth = n.depth
		}
	}
	sym.Assert(m.MaxQueryDepth == maxDepth, "max-query-depth")

	var ids []int
	maxView := 0
	for _, n := range nodes {
		sym.Assert(len(n.q.From) > 0, "from")
		for i := range n.q.From {
			o := &n.q.From[i]
			for _, id := range ids {
				sym.Assert(id != o.ViewId, "view-ids-differ")
			}
			ids = append(ids, o.ViewId)
			sym.Assert(o.ViewId >= 1 && o.ViewId < m.NextViewId, "view-id-in-range")
			g, ok := m.ViewGraph[o.ViewId]
			sym.Assert(ok, "view-in-graph")
			sym.Assert(g.QueryId == n.q.QueryId && g.Query == n.q && g.QueryDepth == n.depth, "query-of-view")
			sym.Assert(g.Object == o, "object-of-view")
			sym.Assert(sym.EqStr(g.Name, o.Name[len(o.Name)-1]), "name-of-view")
			sym.Assert(g.ParentViewId == o.ParentViewId, "parent-view-agrees")
			sym.Assert(g.NonResult == n.nonResult, "non-result")
			sym.Assert(g.Many == (i == 0 && n.parent != nil && !n.direct), "many")
			want := 1
			if i == 0 && (n.parent == nil || n.direct) {
				sym.Assert(len(o.Name) == 1 && o.ParentViewId == 0, "root-view")
				if n.parent != nil {
					want = m.ViewGraph[n.parent.q.From[0].ViewId].Depth + 1
				}
			} else {
				p := objectWithView(n, o.Name[:len(o.Name)-1], o.ParentViewId)
				sym.Assert(p != nil, "parent-view")
				want = m.ViewGraph[p.ViewId].Depth + 1
			}
			sym.Assert(g.Depth == want, "view-depth")
			if g.Depth > maxView {
				maxView = g.Depth
			}
			sym.Assert(o.PerObjectQuery != nil && len(o.PerObjectQuery.From) == 1, "per-object-query")
			po := &o.PerObjectQuery.From[0]
			sym.Assert(po.ViewId == o.ViewId && po.ParentViewId == o.ParentViewId, "per-object-view")
			sym.Assert(len(po.Name) == len(o.Name) && foldPath(po.Name, o.Name...), "per-object-name")
		}
	}
	sym.Assert(len(m.ViewGraph) == len(ids), "view-graph-size")
	sym.Assert(m.MaxViewDepth == maxView, "max-view-depth")
	sym.Reach("plan")
}

// treeGen writes nested queries. Names of relationships, parents and objects of condition
// sub-queries are K, P or O and one character, any.
type treeGen struct {
	parents int // ways to use parent objects
	layouts int // ways to nest
	n       int
	items   map[string]int // number of select items by the alias of the object
}

func (g *treeGen) name(p string) string { return p + sym.Str("n", 1, letters+digits) }

// query writes a query with up to max levels of sub-queries in it. outer is the alias of
// the enclosing object or "".
func (g *treeGen) query(obj, alias string, max int) string {
	fields, from, where, tail := "Id", obj+" "+alias, "", ""
	switch sym.Choice("parents", g.parents) {
	case 1:
		fields += ", " + g.name("P") + ".F"
	case 2:
		p := g.name("P")
		from += ", " + alias + "." + p + " x" + alias
		where = "x" + alias + "." + g.name("P") + ".F = 1"
	case 3:
		where = g.name("P") + "." + g.name("P") + ".F = 1"
		fields += ", " + alias + "." + g.name("P") + ".G"
	case 4:
		from += ", " + alias + "." + g.name("P") + "." + g.name("P") + ", " + alias + "." + g.name("P") + " y" + alias
	case 5:
		from += ", " + alias + "." + g.name("P") + " x" + alias + ", " + alias + "." + g.name("P") + " y" + alias + ", y" + alias + "." + g.name("P")
	}
	if max > 0 {
		sub := func(cond bool, m int) string {
			g.n++
			a := alias + string(rune('a'+g.n))
			o := "K"
			if cond {
				o = "O"
			}
			save := g.parents
			if m < 0 {
				m, g.parents = 0, 1
			}
			s := "(" + g.query(g.name(o), a, m) + ")"
			g.parents = save
			return s
		}
		and := func(c string) {
			if where != "" {
				where += " AND "
			}
			where += c
		}
		switch sym.Choice("layout", g.layouts) {
		case 1:
			fields += ", " + sub(false, max-1)
		case 2:
			and("X IN " + sub(true, max-1))
		case 3:
			fields = "COUNT(Id)"
			tail = " GROUP BY X HAVING COUNT(Y) IN " + sub(true, max-1)
		case 4:
			fields += ", " + sub(false, max-1) + ", " + sub(false, -1)
		case 5:
			and("X IN " + sub(true, max-1) + " AND Y NOT IN " + sub(true, -1))
		case 6:
			fields += ", " + sub(false, -1)
			and("(X IN " + sub(true, max-1) + " OR Z = 1)")
		case 7:
			fields = "COUNT(Id)"
			and("X IN " + sub(true, -1))
			tail = " GROUP BY X HAVING COUNT(Y) IN " + sub(true, max-1) + " AND MAX(Z) IN " + sub(true, -1)
		}
	}
	if where != "" {
		where = " WHERE " + where
	}
	if g.items != nil {
		g.items[alias] = topLevelItems(fields)
	}
	return "SELECT " + fields + " FROM " + from + where + tail
}

// topLevelItems counts the items of a list.
func topLevelItems(s string) int {
	n, depth := 1, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ',':
			if depth == 0 {
				n++
			}
		}
	}
	return n
}

// C09_flat: one query with parent objects used in six ways (not, in SELECT, listed with
// alias and used in WHERE, used in both, listed two levels deep, three listed), every name with a
// character that can be any, so that paths share any prefix.
func C09_flat() {
	g := &treeGen{parents: 6}
	oneTree(mustParse(g.query(g.name("O"), "a", 0)))
}

// C09_nested: sub-queries nested two deep, at each level in one of eight layouts: none,
// one in SELECT, one in WHERE, one in HAVING, two in SELECT, two in WHERE, one in each,
// three in WHERE and HAVING; names of objects and relationships with a character that can
// be any, so that two sub-queries use the same object or different ones.
func C09_nested() {
	g := &treeGen{parents: 2, layouts: 8}
	if sym.Tier() > 0 {
		g.parents = 4
	}
	oneTree(mustParse(g.query("Top", "a", 2)))
}

// C09_parents: one level of sub-queries in the eight layouts, the queries with parent
// objects used in any of six ways.
func C09_parents() {
	g := &treeGen{parents: 6, layouts: 8}
	oneTree(mustParse(g.query("Top", "a", 1)))
}

// C09_deep: a chain of four sub-queries (five in the thorough tier), each in SELECT, WHERE
// or HAVING.
func C09_deep() {
	g := &treeGen{parents: 1, layouts: 4}
	n := 4
	if sym.Tier() > 0 {
		n = 5
	}
	oneTree(mustParse(g.query("Top", "a", n)))
}

// C09_shared: parent objects and two sub-queries, one of them with a sub-query in it and
// one with one in WHERE, whose names may all be the same or differ.
func C09_shared() {
	n := func() string { return "N" + sym.Str("n", 1, letters) }
	text := "SELECT Id, " + n() + ".F, (SELECT Id, (SELECT Id FROM " + n() + ") FROM " + n() + " k WHERE " + n() + ".F = 1)"
	if sym.Choice("second", 2) == 1 {
		text += ", (SELECT Id FROM " + n() + " WHERE X IN (SELECT Id FROM " + n() + "))"
	}
	oneTree(mustParse(text + " FROM Top a, a." + n() + " b"))
}

// C09_corpus: the texts that use every construct of the grammar.
func C09_corpus() {
	i := sym.Choice("text", len(corpus)+len(shortCorpus))
	t := ""
	if i < len(corpus) {
		t = corpus[i]
	} else {
		t = shortCorpus[i-len(corpus)]
	}
	oneTree(mustParse(plainText(t)))
}
