package props

import (
	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// name is a name that starts with the given prefix and goes on with one character, any of
// those a name may hold. The prefix keeps the names of one text apart.
func name(prefix string) string {
	return prefix + sym.Str("n", 1, letters+digits+"_$")
}

func assertPath(got []string, label string, want ...string) {
	sym.Assert(len(got) == len(want), label+"-path-length")
	for i := range want {
		assertStr(got[i], want[i], label+"-path")
	}
}

// written is what one written select item has to become.
type written struct {
	text  string
	check func(f *SoqlFieldInfo)
}

// selectItem writes select item i of a query whose primary object has the path obj.
func selectItem(i int, kinds int, obj ...string) written {
	id := digits[i : i+1]
	alias, aliasText := "", ""
	withAlias := func() {
		if sym.Choice("alias", 2) == 1 {
			alias = name("Al" + id)
			aliasText = " " + alias
		}
	}
	named := func(f *SoqlFieldInfo) {
		sym.Assert(!f.NotSelected, "selected")
		if aliasText != "" {
			assertStr(f.AliasName, alias, "alias")
		} else if f.Type == SoqlFieldInfo_Field {
			sym.Assert(f.AliasName == "", "no-alias")
		}
	}
	field := func(f *SoqlFieldInfo, label string, more ...string) {
		sym.Assert(f.Type == SoqlFieldInfo_Field, label+"-is-a-field")
		assertPath(f.Name, label, append(append([]string{}, obj...), more...)...)
	}
	switch sym.Choice("item", kinds) {
	case 0: // field
		n := name("N" + id)
		withAlias()
		return written{n + aliasText, func(f *SoqlFieldInfo) {
			named(f)
			field(f, "field", n)
		}}
	case 1: // field of a parent object
		p, n := name("P"+id), name("N"+id)
		withAlias()
		return written{p + "." + n + aliasText, func(f *SoqlFieldInfo) {
			named(f)
			field(f, "parent-field", p, n)
		}}
	case 2: // function of a field, a number, a text and a function of a field
		fn, n, m := name("Fn"+id), name("N"+id), name("M"+id)
		d := sym.Str("d", 1, digits)
		s := sym.Str("s", 1, letters+" ,()")
		withAlias()
		return written{fn + "(" + n + ", " + d + ", '" + s + "', Gn(" + m + "))" + aliasText, func(f *SoqlFieldInfo) {
			named(f)
			sym.Assert(f.Type == SoqlFieldInfo_Function, "function")
			assertPath(f.Name, "function", fn)
			sym.Assert(len(f.Parameters) == 4, "arguments")
			field(&f.Parameters[0], "argument", n)
			sym.Assert(f.Parameters[1].Type == SoqlFieldInfo_Literal_Int && intOf(&f.Parameters[1]) == int64(d[0]-'0'), "argument-number")
			sym.Assert(f.Parameters[2].Type == SoqlFieldInfo_Literal_String, "argument-text")
			assertStr(strOf(&f.Parameters[2]), s, "argument-text")
			g := &f.Parameters[3]
			sym.Assert(g.Type == SoqlFieldInfo_Function && len(g.Parameters) == 1, "nested-function")
			assertPath(g.Name, "nested-function", "Gn")
			field(&g.Parameters[0], "nested-argument", m)
		}}
	case 3: // function without arguments
		fn := name("Fn" + id)
		withAlias()
		return written{fn + "()" + aliasText, func(f *SoqlFieldInfo) {
			named(f)
			sym.Assert(f.Type == SoqlFieldInfo_Function && len(f.Parameters) == 0, "function")
			assertPath(f.Name, "function", fn)
		}}
	}
	// sub-query
	r, n := name("R"+id), name("N"+id)
	d := sym.Str("d", 1, "123456789")
	withAlias()
	return written{"(SELECT " + n + " FROM " + r + " LIMIT " + d + ")" + aliasText, func(f *SoqlFieldInfo) {
		named(f)
		sym.Assert(f.Type == SoqlFieldInfo_SubQuery && f.SubQuery != nil, "sub-query")
		s := f.SubQuery
		sym.Assert(selected(s) == 1, "sub-query-select")
		assertPath(s.Fields[0].Name, "sub-query-field", append(append([]string{}, obj...), r, n)...)
		sym.Assert(len(s.From) == 1, "sub-query-from")
		assertPath(s.From[0].Name, "sub-query-object", append(append([]string{}, obj...), r)...)
		sym.Assert(s.OffsetAndLimit.Limit == int64(d[0]-'0'), "sub-query-limit")
		rest(s, "limit")
	}}
}

// selected is the number of fields of a query that the text selects; they come first.
func selected(q *SoqlQuery) int {
	n := 0
	for i := range q.Fields {
		if !q.Fields[i].NotSelected {
			sym.Assert(n == i, "selected-fields-first")
			n++
		}
	}
	return n
}

// rest asserts that every clause of a query is empty but those named.
func rest(q *SoqlQuery, but ...string) {
	has := func(s string) bool {
		for _, b := range but {
			if b == s {
				return true
			}
		}
		return false
	}
	if !has("where") {
		sym.Assert(len(q.Where) == 0 && len(q.PostProcessWhere) == 0, "where-empty")
		for i := range q.From {
			sym.Assert(q.From[i].PerObjectQuery == nil || len(q.From[i].PerObjectQuery.Where) == 0, "object-filter-empty")
		}
	}
	if !has("group") {
		sym.Assert(len(q.GroupBy) == 0, "group-by-empty")
	}
	if !has("having") {
		sym.Assert(len(q.Having) == 0, "having-empty")
	}
	if !has("order") {
		sym.Assert(len(q.OrderBy) == 0, "order-by-empty")
	}
	if !has("offset") {
		sym.Assert(q.OffsetAndLimit.Offset == 0 && q.OffsetAndLimit.OffsetParamName == "", "offset-empty")
	}
	if !has("limit") {
		sym.Assert(q.OffsetAndLimit.Limit == 0 && q.OffsetAndLimit.LimitParamName == "", "limit-empty")
	}
	if !has("for") {
		sym.Assert(q.For == SoqlForClause{}, "for-empty")
	}
}

// C05_select: select lists of 1 to 2 items (3 in the thorough tier), each a field, a field
// of a parent object, a function of four arguments, a function without arguments or a
// sub-query, with or without an alias; names and literals symbolic.
func C05_select() {
	max := 2
	if sym.Tier() > 0 {
		max = 3
	}
	n := 1 + sym.Choice("n", max)
	text := "SELECT "
	var ws []written
	for i := 0; i < n; i++ {
		w := selectItem(i, 5, "Obj")
		if i > 0 {
			text += ", "
		}
		text += w.text
		ws = append(ws, w)
	}
	q := mustParse(text + " FROM Obj")
	sym.Assert(selected(q) == n, "number-of-items")
	for i := range ws {
		ws[i].check(&q.Fields[i])
	}
	sym.Assert(q.From[0].AliasName == "", "no-object-alias")
	assertPath(q.From[0].Name, "primary", "Obj")
	rest(q)
	sym.Reach("checked")
}

// object is an entry of FROM a text has to lead to.
type object struct {
	path  []string
	alias string
}

// C05_from: FROM with the primary object and up to two more, each written through the name
// of the primary object, through its alias or without either, one or two levels deep, with
// and without aliases; FROM holds exactly those and the objects between, parents first.
func C05_from() {
	a := name("A")
	var want []object
	text := a
	pal := ""
	if sym.Choice("primary-alias", 2) == 1 {
		pal = name("Pal")
		text += " " + pal
	}
	want = append(want, object{[]string{a}, pal})
	n := sym.Choice("n", 3)
	for i := 0; i < n; i++ {
		id := digits[i : i+1]
		p := name("P" + id)
		full := []string{a, p}
		s := p
		if sym.Choice("depth", 2) == 1 {
			g := name("G" + id)
			want = append(want, object{[]string{a, p}, ""})
			full = append(full, g)
			s += "." + g
		}
		switch sym.Choice("through", 3) {
		case 0:
			s = a + "." + s
		case 1:
			if pal != "" {
				s = pal + "." + s
			}
		}
		al := ""
		if sym.Choice("alias", 2) == 1 {
			al = name("Al" + id)
			s += " " + al
		}
		want = append(want, object{full, al})
		text += ", " + s
	}
	q := mustParse("SELECT Id FROM " + text)
	sym.Assert(len(q.From) == len(want), "number-of-objects")
	for i := range q.From {
		if i > 1 {
			sym.Assert(len(q.From[i-1].Name) <= len(q.From[i].Name), "parents-first")
		}
	}
	assertPath(q.From[0].Name, "primary", a)
	for _, w := range want {
		found := 0
		for i := range q.From {
			if len(q.From[i].Name) == len(w.path) && foldPath(q.From[i].Name, w.path...) {
				found++
				assertPath(q.From[i].Name, "object", w.path...)
				assertStr(q.From[i].AliasName, w.alias, "object-alias")
			}
		}
		sym.Assert(found == 1, "object-listed-once")
	}
	rest(q)
	sym.Reach("checked")
}

// C05_order: ORDER BY with one or two entries, each with ASC, DESC or neither and NULLS
// FIRST, NULLS LAST or neither, keywords in any letter case, plain, qualified and parent
// fields and aliases.
func C05_order() {
	n := 1 + sym.Choice("n", 2)
	text := ""
	type entry struct {
		path       []string
		desc, last bool
	}
	var want []entry
	for i := 0; i < n; i++ {
		id := digits[i : i+1]
		e := entry{}
		if i > 0 {
			text += ", "
		}
		f := name("N" + id)
		switch sym.Choice("field", 3) {
		case 0:
			text += f
			e.path = []string{"Obj", f}
		case 1:
			text += "ob." + f
			e.path = []string{"Obj", f}
		case 2:
			text += "ob.Par." + f
			e.path = []string{"Obj", "Par", f}
		}
		switch sym.Choice("direction", 3) {
		case 1:
			text += sym.Case(" asc")
		case 2:
			text += sym.Case(" desc")
			e.desc = true
		}
		switch sym.Choice("nulls", 3) {
		case 1:
			text += sym.Case(" nulls first")
		case 2:
			text += sym.Case(" nulls last")
			e.last = true
		}
		want = append(want, e)
	}
	q := mustParse("SELECT Id, Par.Id FROM Obj ob, ob.Par ORDER BY " + text)
	sym.Assert(len(q.OrderBy) == n, "number-of-entries")
	for i, e := range want {
		o := &q.OrderBy[i]
		sym.Assert(o.Field.Type == SoqlFieldInfo_Field, "field")
		assertPath(o.Field.Name, "order", e.path...)
		sym.Assert(o.Desc == e.desc, "direction")
		sym.Assert(o.NullsLast == e.last, "nulls")
		// the plan of the object it belongs to orders by it as well
		for j := range q.From {
			if len(q.From[j].Name) == len(e.path)-1 {
				k := 0
				p := q.From[j].PerObjectQuery.OrderBy
				for ; k < len(p); k++ {
					if len(p[k].Field.Name) == len(e.path) && foldPath(p[k].Field.Name, e.path...) {
						break
					}
				}
				sym.Assert(k < len(p), "object-order")
				sym.Assert(p[k].Desc == e.desc && p[k].NullsLast == e.last, "object-order-direction")
			}
		}
	}
	sym.Assert(selected(q) == 2, "selected-kept")
	rest(q, "order")
	sym.Reach("checked")
}

// forOption writes a FOR clause and gives what it has to become.
func forOption() (string, SoqlForClause) {
	switch sym.Choice("for", 10) {
	case 1:
		return sym.Case(" for view"), SoqlForClause{View: true}
	case 2:
		return sym.Case(" for reference"), SoqlForClause{Reference: true}
	case 3:
		return sym.Case(" for view, reference"), SoqlForClause{View: true, Reference: true}
	case 4:
		return sym.Case(" for reference , view"), SoqlForClause{View: true, Reference: true}
	case 5:
		return sym.Case(" for update"), SoqlForClause{Update: true}
	case 6:
		return sym.Case(" for update tracking"), SoqlForClause{Update: true, UpdateTracking: true}
	case 7:
		return sym.Case(" for update viewstat"), SoqlForClause{Update: true, UpdateViewstat: true}
	case 8:
		return sym.Case(" for update tracking,viewstat"), SoqlForClause{Update: true, UpdateTracking: true, UpdateViewstat: true}
	case 9:
		return sym.Case(" for update viewstat, tracking"), SoqlForClause{Update: true, UpdateTracking: true, UpdateViewstat: true}
	}
	return "", SoqlForClause{}
}

// limits writes OFFSET and LIMIT in either order, each absent, a number of 1 to 2 digits or
// a parameter, and gives what they have to become.
func limits() (string, SoqlOffsetAndLimitClause) {
	w := SoqlOffsetAndLimitClause{}
	off, lim := "", ""
	number := func() (string, int64) {
		d := sym.Str("d", 1, digits)
		if sym.Choice("digits", 2) == 1 {
			d = sym.Str("d", 1, "123456789") + d
		}
		return d, digitsOf(d, 10)
	}
	switch sym.Choice("offset", 3) {
	case 1:
		off, w.Offset = number()
		off = sym.Case(" offset ") + off
	case 2:
		w.OffsetParamName = name("p")
		off = sym.Case(" offset ") + ":" + w.OffsetParamName
	}
	switch sym.Choice("limit", 3) {
	case 1:
		lim, w.Limit = number()
		lim = sym.Case(" limit ") + lim
	case 2:
		w.LimitParamName = name("q")
		lim = sym.Case(" limit ") + ":" + w.LimitParamName
	}
	if off != "" && lim != "" && sym.Choice("order", 2) == 1 {
		return lim + off, w
	}
	return off + lim, w
}

// C05_long_limits: OFFSET and LIMIT with numbers of 3 to 18 digits, any digits, one or both,
// in either order.
func C05_long_limits() {
	number := func(name string) (string, int64) {
		n := []int{3, 4, 5, 6, 8, 10, 11, 18}[sym.Choice("digits", 8)]
		d := sym.Str(name, 1, "123456789") + sym.Str(name, n-1, digits)
		return d, digitsOf(d, 10)
	}
	w := SoqlOffsetAndLimitClause{}
	text := "SELECT Id FROM Obj"
	order := sym.Choice("order", 4)
	var o, l string
	if order != 0 {
		o, w.Offset = number("offset")
	}
	if order != 1 {
		l, w.Limit = number("limit")
	}
	switch order {
	case 0:
		text += " LIMIT " + l
	case 1:
		text += " OFFSET " + o
	case 2:
		text += " LIMIT " + l + " OFFSET " + o
	case 3:
		text += " OFFSET " + o + " LIMIT " + l
	}
	q := mustParse(text)
	checkLimits(q.OffsetAndLimit, w, "")
	checkLimits(q.From[0].PerObjectQuery.OffsetAndLimit, w, "object-")
}

func checkLimits(got, want SoqlOffsetAndLimitClause, label string) {
	sym.Assert(got.Offset == want.Offset, label+"offset")
	sym.Assert(got.Limit == want.Limit, label+"limit")
	assertStr(got.OffsetParamName, want.OffsetParamName, label+"offset-parameter")
	assertStr(got.LimitParamName, want.LimitParamName, label+"limit-parameter")
}

// C05_tail: OFFSET and LIMIT in either order, each absent, a number or a parameter, then
// every FOR option (all in any letter case), after FROM, after an alias and after ORDER BY;
// the plan of the primary object gets them too.
func C05_tail() {
	head := sym.Pick("head", "SELECT Id FROM Obj", "SELECT Id FROM Obj ob", "SELECT Id, Par.X FROM Obj WHERE Id > 1 ORDER BY Id")
	l, wl := limits()
	f, wf := forOption()
	q := mustParse(head + l + f)
	checkLimits(q.OffsetAndLimit, wl, "")
	sym.Assert(q.For == wf, "for")
	checkLimits(q.From[0].PerObjectQuery.OffsetAndLimit, wl, "object-")
	for i := 1; i < len(q.From); i++ {
		checkLimits(q.From[i].PerObjectQuery.OffsetAndLimit, SoqlOffsetAndLimitClause{}, "parent-")
	}
	sym.Assert(selected(q) <= 2, "selected-kept")
	if head == "SELECT Id FROM Obj ob" {
		sym.Assert(q.From[0].AliasName == "ob", "object-alias")
	} else {
		sym.Assert(q.From[0].AliasName == "", "no-object-alias")
	}
	sym.Reach("checked")
}

// clauses writes a query on an object with every combination of clauses and checks it.
func clauses(sel, obj string) (string, func(q *SoqlQuery, objPath []string)) {
	on := func(n string) bool { return sym.Choice(n, 2) == 1 }
	var present []string
	wf, gf, hf, of := name("W"), name("G"), name("H"), name("O")
	d := sym.Str("d", 1, "123456789")
	group := on("group")
	text := "SELECT " + sel + " FROM " + obj
	if group {
		text = "SELECT " + gf + " FROM " + obj
	}
	if on("where") {
		text += " WHERE " + wf + " = " + d
		present = append(present, "where")
	}
	if group {
		text += " GROUP BY " + gf
		present = append(present, "group")
		if on("having") {
			text += " HAVING MAX(" + hf + ") > " + d
			present = append(present, "having")
		}
	}
	if on("order") {
		if group {
			of = gf
		}
		text += " ORDER BY " + of + " DESC"
		present = append(present, "order")
	}
	if on("offset") {
		text += " OFFSET " + d
		present = append(present, "offset")
	}
	if on("limit") {
		text += " LIMIT 7"
		present = append(present, "limit")
	}
	if on("for") {
		text += " FOR REFERENCE"
		present = append(present, "for")
	}
	return text, func(q *SoqlQuery, obj []string) {
		full := func(n string) []string { return append(append([]string{}, obj...), n) }
		sym.Assert(len(q.From) == 1, "from")
		assertPath(q.From[0].Name, "object", obj...)
		sym.Assert(q.From[0].AliasName == "", "no-object-alias")
		sym.Assert(selected(q) == 1, "number-of-items")
		if group {
			assertPath(q.Fields[0].Name, "item", full(gf)...)
		} else {
			assertPath(q.Fields[0].Name, "item", full(sel)...)
		}
		rest(q, present...)
		for _, p := range present {
			switch p {
			case "where":
				sym.Assert(len(q.Where) == 3 && q.Where[2].Opcode == SoqlConditionOpcode_Eq, "where")
				assertPath(q.Where[0].Value.Name, "where", full(wf)...)
				sym.Assert(intOf(&q.Where[1].Value) == int64(d[0]-'0'), "where-value")
			case "group":
				sym.Assert(len(q.GroupBy) == 1 && q.GroupBy[0].Type == SoqlFieldInfo_Field, "group-by")
				assertPath(q.GroupBy[0].Name, "group-by", full(gf)...)
			case "having":
				sym.Assert(len(q.Having) == 3 && q.Having[2].Opcode == SoqlConditionOpcode_Gt, "having")
				f := &q.Having[0].Value
				sym.Assert(f.Type == SoqlFieldInfo_Function && len(f.Parameters) == 1, "having-function")
				assertPath(f.Name, "having-function", "MAX")
				assertPath(f.Parameters[0].Name, "having", full(hf)...)
				sym.Assert(intOf(&q.Having[1].Value) == int64(d[0]-'0'), "having-value")
			case "order":
				sym.Assert(len(q.OrderBy) == 1 && q.OrderBy[0].Desc && !q.OrderBy[0].NullsLast, "order-by")
				assertPath(q.OrderBy[0].Field.Name, "order-by", full(of)...)
			case "offset":
				sym.Assert(q.OffsetAndLimit.Offset == int64(d[0]-'0') && q.OffsetAndLimit.OffsetParamName == "", "offset")
			case "limit":
				sym.Assert(q.OffsetAndLimit.Limit == 7 && q.OffsetAndLimit.LimitParamName == "", "limit")
			case "for":
				sym.Assert(q.For == SoqlForClause{Reference: true}, "for")
			}
		}
		// columns the plan adds are used by a clause
		for i := 1; i < len(q.Fields); i++ {
			n := q.Fields[i].Name
			used := sym.Or(sym.EqFold(n[len(n)-1], wf), sym.Or(sym.EqFold(n[len(n)-1], hf), sym.Or(sym.EqFold(n[len(n)-1], of), sym.EqFold(n[len(n)-1], gf))))
			sym.Assert(used, "added-column-is-used")
		}
		sym.Reach("checked")
	}
}

// C05_clauses: every combination of WHERE, GROUP BY, HAVING, ORDER BY, OFFSET, LIMIT and FOR
// (112), in the query itself, in a sub-query of SELECT and in a sub-query of WHERE; names
// and values symbolic. A clause not written leaves its part empty, also in the enclosing
// query.
func C05_clauses() {
	text, chk := clauses("Idd", "Obj")
	switch sym.Choice("where", 3) {
	case 0:
		q := mustParse(text)
		chk(q, []string{"Obj"})
	case 1:
		q := mustParse("SELECT Id, (" + text + ") Sub FROM Top")
		sym.Assert(selected(q) == 2 && q.Fields[1].Type == SoqlFieldInfo_SubQuery, "sub-query-kept")
		sym.Assert(q.Fields[1].AliasName == "Sub", "sub-query-alias")
		chk(q.Fields[1].SubQuery, []string{"Top", "Obj"})
		rest(q)
	case 2:
		q := mustParse("SELECT Id FROM Top WHERE Id IN (" + text + ")")
		chk(condSub(q, 0), []string{"Obj"})
		rest(q, "where")
		sym.Assert(len(q.Where) == 3, "where-kept")
	}
}
