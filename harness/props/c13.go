package props

import (
	"soqlverif/sym"
)

// C13_history: a text parsed cold, after another text, and a third time gives the same
// plan each time, and no later call changes a result already returned. Every ordered pair
// of corpus texts (the earlier one also from the rejected texts), maps visited in
// insertion order first and in reverse order later.
func C13_history() {
	a := sym.Choice("first", len(corpus)+len(badCorpus))
	s1 := ""
	if a < len(corpus) {
		s1 = plainText(corpus[a])
	} else {
		s1 = plainText(badCorpus[a-len(corpus)])
	}
	k := sym.Choice("second", len(corpus))
	if sym.Tier() == 0 {
		sym.Assume((a+k)%4 == 0)
	}
	s2 := plainText(corpus[k])
	q, err := parse(s2)
	sym.Assert(err == nil, "accepted")
	before := planOf(q)
	sym.MapOrder(1)
	q1, err1 := parse(s1)
	sym.Assert(err1 == nil == (a < len(corpus)), "other-text")
	var p1 *plan
	if q1 != nil {
		p1 = planOf(q1)
	}
	sym.MapOrder(2)
	q2, err2 := parse(s2)
	sym.Assert(err2 == nil, "accepted-again")
	sym.MapOrder(0)
	after := planOf(q2)
	samePlan(before, after, "again")
	samePlan(before, planOf(q), "earlier-result")
	if q1 != nil {
		samePlan(p1, planOf(q1), "other-result")
	}
	sym.Reach("compared")
}

// C13_names: as C13_history with the other text holding arbitrary names, literals and
// letter case in place of fixed ones.
func C13_names() {
	s2 := plainText(corpus[sym.Choice("second", len(corpus))])
	q, err := parse(s2)
	sym.Assert(err == nil, "accepted")
	before := planOf(q)
	n := "X" + sym.Str("name", 2, nameBytes)
	v := sym.Str("value", 2, "ab'\\nu0_%")
	d := sym.Str("digits", 2, "0123456789")
	parse(sym.Case("select ") + n + ", count(" + n + sym.Case(") cnt from ") + n + " c where c." + n + " = " + d + " and b = '" + v + "' group by " + n)
	q2, err2 := parse(s2)
	sym.Assert(err2 == nil, "accepted-again")
	samePlan(before, planOf(q2), "again")
	samePlan(before, planOf(q), "earlier-result")
}

// C13_maps: each corpus text parsed with maps visited in insertion order, in reverse
// order and by key gives the same plan.
func C13_maps() {
	s := plainText(corpus[sym.Choice("text", len(corpus))])
	q, err := parse(s)
	sym.Assert(err == nil, "accepted")
	a := planOf(q)
	for m := 1; m <= 2; m++ {
		sym.MapOrder(m)
		q2, err2 := parse(s)
		sym.MapOrder(0)
		sym.Assert(err2 == nil, "accepted-again")
		samePlan(a, planOf(q2), "order")
	}
}

// C13_maporder: small queries with every iteration order of every map.
func C13_maporder() {
	s := mapQueries[sym.Choice("text", len(mapQueries))]
	q, err := parse(s)
	sym.Assert(err == nil, "accepted")
	a := planOf(q)
	sym.MapOrder(3)
	q2, err2 := parse(s)
	sym.MapOrder(0)
	sym.Assert(err2 == nil, "accepted-again")
	samePlan(a, planOf(q2), "order")
}

var mapQueries = []string{
	"SELECT Id, Own.Name FROM A WHERE Own.Role.Nm = 1",
	"SELECT Id, (SELECT Id FROM K) FROM A",
	"SELECT Id FROM A WHERE X IN (SELECT Own.Id FROM B WHERE Own.C = 1)",
	"SELECT Id, (SELECT Id, Par.Nm FROM K WHERE Par.Q = 1) FROM A",
	"SELECT Id FROM A WHERE P.Q.R.S = 1",
}

const nameBytes = "abcxyzABCXYZ019_$"
