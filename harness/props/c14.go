package props

import (
	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// inContext puts a query text into one of the places a query can stand in and gives the
// query that has to be looked at; nil when the whole text is rejected.
func inContext(text string) *SoqlQuery {
	ctx := sym.Choice("context", 3)
	switch ctx {
	case 1:
		text = "SELECT Id, (" + text + ") FROM Top"
	case 2:
		text = "SELECT Id FROM Top WHERE Id IN (" + text + ")"
	}
	q, err := parse(text)
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	if err != nil {
		return nil
	}
	switch ctx {
	case 1:
		sym.Assert(selected(q) == 2, "sub-query-kept")
		return q.Fields[1].SubQuery
	case 2:
		return condSub(q, 0)
	}
	return q
}

func distinctFold(l []string) bool {
	r := true
	for i := range l {
		for j := 0; j < i; j++ {
			r = sym.And(r, sym.Not(sym.EqFold(l[i], l[j])))
		}
	}
	return r
}

// resultName is the name of a selected item: its alias, or the name of the field.
func resultName(f *SoqlFieldInfo) (string, bool) {
	if f.AliasName != "" {
		return f.AliasName, true
	}
	if f.Type == SoqlFieldInfo_Field {
		return f.Name[len(f.Name)-1], true
	}
	return "", false
}

// C14_aliases: three select items (a field or a function or, in the query itself, a
// sub-query), two or three of which carry an alias of one or two characters, any; rejected
// exactly when two aliases are equal up to case. In the query itself, in a sub-query of
// SELECT and in one of WHERE.
func C14_aliases() {
	var al []string
	text := "SELECT "
	n := 1 + sym.Choice("length", 2)
	for i := 0; i < 3; i++ {
		if i > 0 {
			text += ", "
		}
		text += []string{"Fa", "Fn(Fb)", "Par.Fc"}[i]
		if i == 2 && sym.Choice("third", 2) == 0 {
			continue
		}
		a := sym.Str("a", 1, letters+"$_")
		if n == 2 {
			a += sym.Str("b", 1, digits+"_Zz")
		}
		al = append(al, a)
		text += " " + a
	}
	q := inContext(text + " FROM Obj")
	if q == nil {
		sym.Assert(sym.Not(distinctFold(al)), "distinct-aliases-accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(distinctFold(al), "equal-aliases-rejected")
	sym.Assert(selected(q) == 3, "items")
	for i := range al {
		assertStr(q.Fields[i].AliasName, al[i], "alias-kept")
	}
	sym.Reach("accepted")
}

// C14_sub_alias: a field and a sub-query, or two sub-queries, with aliases of one
// character, any.
func C14_sub_alias() {
	a, b := sym.Str("a", 1, letters+"$_"), sym.Str("b", 1, letters+"$_")
	first := sym.Pick("first", "Fa", "(SELECT Id FROM Ra)", "COUNT_X(Id)")
	q, err := parse("SELECT Id, " + first + " " + a + ", (SELECT Id FROM Rb) " + b + " FROM Obj")
	if err != nil {
		sym.Assert(sym.EqFold(a, b), "distinct-aliases-accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(sym.Not(sym.EqFold(a, b)), "equal-aliases-rejected")
	assertStr(q.Fields[1].AliasName, a, "alias-kept")
	assertStr(q.Fields[2].AliasName, b, "alias-kept")
	sym.Reach("accepted")
}

// C14_objects: two or three objects with aliases of one or two characters, any; rejected
// exactly when two aliases are equal up to case. In all three contexts.
func C14_objects() {
	n := 2 + sym.Choice("n", 2)
	var al []string
	text := "SELECT Id FROM "
	for i := 0; i < n; i++ {
		if i > 0 {
			text += ", "
		}
		a := sym.Str("a", 1, letters+"$_")
		if i > 0 && n == 2 && sym.Choice("length", 2) == 1 {
			a += sym.Str("b", 1, digits+letters)
			sym.Assume(sym.Not(isKeyword2(a)))
		}
		al = append(al, a)
		text += []string{"Obj", "Parent", "Other"}[i] + " " + a
	}
	q := inContext(text)
	if q == nil {
		sym.Assert(sym.Not(distinctFold(al)), "distinct-aliases-accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(distinctFold(al), "equal-aliases-rejected")
	sym.Assert(len(q.From) == n, "objects")
	for i := range al {
		assertStr(q.From[i].AliasName, al[i], "alias-kept")
	}
	sym.Reach("accepted")
}

// isKeyword2 tells the two-letter words that cannot be aliases.
func isKeyword2(a string) bool {
	r := false
	for _, k := range []string{"in", "or", "by"} {
		r = sym.Or(r, sym.EqFold(a, k))
	}
	return r
}

// C14_scopes: the same alias (any letter, any case) on the object of the query and on the
// object of a sub-query of it, and on an item of both, is accepted: they are two scopes.
func C14_scopes() {
	c := sym.Str("a", 1, letters)
	d := sym.Case("ab")
	switch sym.Choice("where", 2) {
	case 0:
		q := mustParse("SELECT Id ab, (SELECT Id " + d + " FROM Kids x" + c + ") FROM Obj X" + c)
		assertStr(q.Fields[1].SubQuery.From[0].AliasName, "x"+c, "alias-kept")
		assertStr(q.Fields[1].SubQuery.Fields[0].AliasName, d, "alias-kept")
		assertStr(q.From[0].AliasName, "X"+c, "alias-kept")
	case 1:
		q := mustParse("SELECT Id ab FROM Obj X" + c + " WHERE Id IN (SELECT Id " + d + " FROM Kids x" + c + ")")
		assertStr(condSub(q, 0).From[0].AliasName, "x"+c, "alias-kept")
		assertStr(condSub(q, 0).Fields[0].AliasName, d, "alias-kept")
		assertStr(q.From[0].AliasName, "X"+c, "alias-kept")
	}
	sym.Reach("accepted")
}

// C14_implicit: four select items (five in the thorough tier) of the kinds that get
// implicit names or can collide with one: a function without alias, the same field again,
// a field named `expr` and any digit, a field or a function with the alias `expr` and any
// digit in any letter case. Every item of an accepted query has one name and the names
// given to unnamed items differ from every other name up to case.
func C14_implicit() {
	n := 4
	if sym.Tier() > 0 {
		n = 5
	}
	text := "SELECT "
	var al []string
	implicit := make([]bool, n)
	same := 0
	for i := 0; i < n; i++ {
		id := digits[i : i+1]
		if i > 0 {
			text += ", "
		}
		switch sym.Choice("item", 5) {
		case 0:
			text += "Fn(F" + id + ")"
			implicit[i] = true
		case 1:
			text += "Same"
			implicit[i] = same > 0
			same++
		case 2:
			text += sym.Case("ex") + "pr" + sym.Pick("digit", "0", "1", "2")
			if i%2 == 1 {
				text += "0" // keeps the fields of one text different
			}
			text = text[:len(text)-len("")]
		case 3:
			a := sym.Case("ex") + "pr" + sym.Pick("digit", "0", "1", "2")
			al = append(al, a)
			text += "F" + id + " " + a
		case 4:
			a := sym.Case("ex") + "pr" + sym.Pick("digit", "0", "1")
			al = append(al, a)
			text += "Fn(F" + id + ") " + a
		}
	}
	q, err := parse(text + " FROM Obj")
	if err != nil {
		sym.Assert(sym.Not(distinctFold(al)), "distinct-aliases-accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(distinctFold(al), "equal-aliases-rejected")
	sym.Assert(selected(q) == n, "items")
	for i := 0; i < n; i++ {
		a, ok := resultName(&q.Fields[i])
		sym.Assert(ok, "every-item-has-a-name")
		if !implicit[i] {
			continue
		}
		sym.Assert(q.Fields[i].AliasName != "", "unnamed-item-gets-a-name")
		for j := 0; j < n; j++ {
			if j != i {
				b, _ := resultName(&q.Fields[j])
				sym.Assert(sym.Not(sym.EqFold(a, b)), "implicit-name-is-unique")
			}
		}
	}
	sym.Reach("accepted")
}
