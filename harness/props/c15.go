package props

import (
	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// under tells whether a field belongs to an object or to one reached through it.
func under(o *SoqlObjectInfo, f *SoqlFieldInfo) bool {
	for f.Type == SoqlFieldInfo_Function {
		if len(f.Parameters) != 1 {
			return false
		}
		f = &f.Parameters[0]
	}
	return f.Type == SoqlFieldInfo_Field && len(f.Name) > len(o.Name) && sameName(f.Name[:len(o.Name)], o.Name)
}

// joins checks the marks of one query; primary is 0-based depth of its own object.
func joins(top, q *SoqlQuery) {
	vg := top.Meta.ViewGraph
	for i := range q.From {
		o := &q.From[i]
		leaf, ok := vg[o.ViewId]
		sym.Assert(ok && leaf.QueryId == q.QueryId, "view-in-graph")
		if i == 0 {
			sym.Assert(!o.InnerJoin, "primary-object-not-marked")
			sym.Assert(!leaf.InnerJoin, "primary-view-not-marked")
			continue
		}

		// The view graph marks what FROM marks and every view on the way to it.
		want := o.InnerJoin
		for j := range q.From {
			p := &q.From[j]
			if p.InnerJoin && len(p.Name) > len(o.Name) && sameName(p.Name[:len(o.Name)], o.Name) {
				want = true
			}
		}
		sym.Assert(leaf.InnerJoin == want, "view-graph-mark")

		cmp := false
		for k := 0; k < len(q.Where); k++ {
			if q.Where[k].Opcode == SoqlConditionOpcode_FieldInfo && ownField(o, &q.Where[k].Value) {
				cmp = true
			}
		}
		sym.Assert(o.HasConditions == cmp, "has-conditions")

		if o.InnerJoin {
			sym.Reach("marked")
		} else {
			sym.Reach("not-marked")
		}
		if leaf.InnerJoin {
			// WHERE does not hold unless a comparison on the object or on one reached through it does.
			any := false
			w := filterOf(q.Where, "where", func(l *SoqlFieldInfo, op SoqlConditionOpcode, r *SoqlFieldInfo) bool {
				holds := sym.Bool("holds")
				if under(o, l) || under(o, r) {
					any = sym.Or(any, holds)
				}
				return holds
			})
			sym.Assert(sym.Implies(w, any), "where-demands-the-object")
		}
		if o.InnerJoin {
			// The mark stands for a filter of the object's own.
			sym.Assert(len(o.PerObjectQuery.Where) > 0, "marked-object-has-a-filter")
		} else {
			sym.Assert(len(o.PerObjectQuery.Where) == 0, "filtered-object-is-marked")
		}
	}
}

// C15_marks: WHERE of 1 to 3 comparisons, every combination of AND, OR, NOT and
// parentheses, each on the primary object, a parent, a parent of the parent or (1 and 2
// comparisons) another parent, or a function of a field of a parent; for every marked view
// WHERE is false under every assignment in which no comparison on the object holds.
func C15_marks() {
	n := 1 + sym.Choice("n", 3)
	pre := []string{"", "B.", "B.C."}
	units := 1
	if n < 3 {
		pre = []string{"", "B.", "B.C.", "B.C.E.", "D.", "F(B."}
		units = 4
	}
	if sym.Tier() > 0 {
		units = 4
	}
	sp := simpleSpecs(n, 4*n+1)
	g := plainGen(units, objLeaf(pre, sp))
	text, _ := g.seq(n)
	q := mustParse("SELECT Id FROM A WHERE " + text)
	joins(q, q)
}

// C15_four: WHERE of 4 comparisons on the primary object and one parent, every shape.
func C15_four() {
	sp := simpleSpecs(4, 0)
	pre := []string{"", "B."}
	if sym.Tier() > 0 {
		pre = []string{"", "B.", "B.C."}
	}
	g := plainGen(1, objLeaf(pre, sp))
	text, _ := g.seq(4)
	q := mustParse("SELECT Id FROM A WHERE " + text)
	joins(q, q)
}

// C15_contexts: two comparisons in the WHERE of a select-list sub-query, a condition
// sub-query and queries nested in those, with objects listed in FROM.
func C15_contexts() {
	sp := []opSpec{ops[0], ops[9]}
	in := func(pre, post string, objs []string, get func(q *SoqlQuery) *SoqlQuery) {
		g := plainGen(2, objLeaf(objs, sp))
		whole := sym.Choice("whole", 2)
		text, _ := g.seq(2)
		if whole == 1 {
			text = "not (" + text + ")"
		}
		q := mustParse(pre + text + post)
		joins(q, get(q))
		joins(q, q)
	}
	switch sym.Choice("context", 5) {
	case 0:
		in("SELECT Id, (SELECT Id FROM Kids WHERE ", " LIMIT 3) FROM A WHERE B.Z = 1", []string{"", "B.", "Kids.B.C.", "D.E."}, func(q *SoqlQuery) *SoqlQuery {
			return q.Fields[1].SubQuery
		})
	case 1:
		in("SELECT Id FROM A WHERE Y = 2 AND B.Y IN (SELECT Id FROM B WHERE ", ") ORDER BY Id", []string{"", "B.", "C.B.", "D."}, func(q *SoqlQuery) *SoqlQuery {
			return condSub(q, 0)
		})
	case 2:
		in("SELECT Id FROM A p, p.Acc q, q.Own o WHERE ", " ORDER BY Id LIMIT 1 OFFSET 2 FOR VIEW",
			[]string{"p.", "q.", "o.", "A.", "q.Own.", "o.U."}, func(q *SoqlQuery) *SoqlQuery { return q })
	case 3:
		in("SELECT Id, (SELECT Id, (SELECT Id FROM Lf l, l.P m WHERE ", ") FROM Kids k WHERE k.B.Z = 1) FROM A a", []string{"", "l.", "m.", "m.Q."}, func(q *SoqlQuery) *SoqlQuery {
			return q.Fields[1].SubQuery.Fields[1].SubQuery
		})
	case 4:
		in("SELECT Id, (SELECT Id FROM Kids k WHERE k.B.Z IN (SELECT Id FROM U u, u.V v WHERE ", ")) FROM A a", []string{"", "u.", "v.", "v.Q."}, func(q *SoqlQuery) *SoqlQuery {
			return condSub(q.Fields[1].SubQuery, 0)
		})
	}
}

// C15_fields: 1 or 2 comparisons between two fields (3 in the thorough tier), each side on
// the primary object, a parent, a parent of the parent (one comparison) or a function of those (one comparison).
func C15_fields() {
	n := 1 + sym.Choice("n", 2+sym.Tier())
	sp := []opSpec{fieldOps[2], fieldOps[5], fieldOps[0]}
	sides, units := 5, 4
	if n > 1 {
		sides, units = 2, 2
	}
	g := plainGen(units, fieldLeaf(sides, sp))
	text, _ := g.seq(n)
	q := mustParse("SELECT Id FROM A WHERE " + text)
	joins(q, q)
}

// C15_long: WHERE of 6 or 10 comparisons (20 in the thorough tier), flat, nested to the
// right or to the left and with every level negated, the connectives all AND, all OR, in
// turn, or every third an OR, the comparisons in turn on the primary object, a parent and
// its parent.
func C15_long() {
	n := []int{6, 10 + 10*sym.Tier()}[sym.Choice("n", 2)]
	pre := [][]string{{"B.", "B.C.", ""}, {"", "", "", "B.", "B."}, {"B."}}[sym.Choice("objects", 3)]
	sp := simpleSpecs(n, 0)
	text, _ := longCond(n, func(i int) string { return pre[i%len(pre)] + "X" + marks[i:i+1] + " " + sp[i].text })
	q := mustParse("SELECT Id FROM A WHERE " + text)
	joins(q, q)
}
