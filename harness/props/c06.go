package props

import (
	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// scope is one query's FROM with its object Obj, Obj.Par and Obj.Par.Gr and their aliases,
// every name with one character that can be any.
type scope struct {
	path                []string // of the object
	obj, par, gr        string
	al, pa, ga          string // aliases, "" when there is none
	text                string // what follows FROM
	roots, pars, grs    []string
	objN, parN, grN     string // names as the references write them
	parListed, grListed bool
}

// newScope writes FROM. Names are built of a fixed prefix, which keeps them apart, and one
// symbolic character; references write the prefix in any letter case. outer is the path of
// the enclosing object and its spellings when the object is a relationship of it.
func newScope(outer []string, outerSpelled []string) *scope {
	s := &scope{}
	mk := func(p string) (string, string) {
		c := sym.Str("n", 1, letters+digits)
		return p + c, sym.Case(p) + c
	}
	var al, pa, ga string
	s.obj, s.objN = mk("Obj")
	s.par, s.parN = mk("Par")
	s.gr, s.grN = mk("Gr")
	s.path = append(append([]string{}, outer...), s.obj)
	rel := ""
	if len(outer) == 0 {
		s.roots = []string{"", s.objN + "."}
		s.text = s.obj
	} else {
		s.roots = []string{""}
		for _, o := range outerSpelled {
			s.roots = append(s.roots, o+"."+s.objN+".")
		}
		s.text = sym.Pick("through-outer", "", outerSpelled[0]+".") + s.obj
	}
	switch sym.Choice("from", 5) {
	case 0: // only the object
	case 1: // object with alias
		s.al, al = mk("al")
	case 2: // parent listed without alias
		s.al, al = mk("al")
		s.parListed = true
	case 3: // parent with alias
		s.al, al = mk("al")
		s.pa, pa = mk("pa")
		s.parListed = true
	case 4: // both with alias
		s.al, al = mk("al")
		s.pa, pa = mk("pa")
		s.ga, ga = mk("ga")
		s.parListed, s.grListed = true, true
	}
	if s.al != "" {
		s.text += " " + s.al
		rel = s.al + "."
		s.roots = append(s.roots, al+".")
	}
	if s.parListed {
		s.text += ", " + rel + s.par
		if s.pa != "" {
			s.text += " " + s.pa
		}
	}
	if s.grListed {
		s.text += ", " + s.pa + "." + s.gr + " " + s.ga
	}
	for _, r := range s.roots {
		s.pars = append(s.pars, r+s.parN+".")
		if s.pa != "" {
			s.pars = append(s.pars, r+pa+".")
		}
	}
	for _, p := range s.pars {
		s.grs = append(s.grs, p+s.grN+".")
		if s.ga != "" {
			s.grs = append(s.grs, p+ga+".")
		}
	}
	if s.ga != "" {
		s.grs = append(s.grs, ga+".")
	}
	return s
}

// reference writes a field of the object, of its parent or of the parent's parent in any
// of the ways there are: bare, through names, through aliases, through both.
func (s *scope) reference(field string) (text, canonical string, path []string) {
	top := ""
	for _, p := range s.path {
		top += p + "."
	}
	level := 3
	if s.grListed || s.parListed {
		level = 3
	}
	switch sym.Choice("level", level) {
	case 0:
		return s.roots[sym.Choice("spelling", len(s.roots))] + field, top + field, append(append([]string{}, s.path...), field)
	case 1:
		return s.pars[sym.Choice("spelling", len(s.pars))] + field, top + s.par + "." + field, append(append([]string{}, s.path...), s.par, field)
	}
	return s.grs[sym.Choice("spelling", len(s.grs))] + field, top + s.par + "." + s.gr + "." + field, append(append([]string{}, s.path...), s.par, s.gr, field)
}

// resolved asserts that a field has the full path and the view of the object it names, and
// that FROM holds every object on the path once.
func resolved(q *SoqlQuery, f *SoqlFieldInfo, path []string) {
	sym.Assert(f.Type == SoqlFieldInfo_Field, "field")
	sym.Assert(len(f.Name) == len(path), "path-length")
	sym.Assert(foldPath(f.Name, path...), "path")
	depth := len(q.From[0].Name)
	for n := depth; n < len(path); n++ {
		found := 0
		for i := range q.From {
			if len(q.From[i].Name) == n && foldPath(q.From[i].Name, path[:n]...) {
				found++
				if n == len(path)-1 {
					sym.Assert(f.ViewId == q.From[i].ViewId, "view")
				}
			}
		}
		sym.Assert(found == 1, "object-in-from-once")
	}
}

// refQuery writes a query with one reference in one clause; find gives the field in the
// parsed query.
func refQuery(s *scope, clause int, ref, canonical string) (text string, find func(q *SoqlQuery) *SoqlFieldInfo) {
	switch clause {
	case 0:
		return "SELECT Id, " + ref + " FROM " + s.text, func(q *SoqlQuery) *SoqlFieldInfo { return &q.Fields[1] }
	case 1:
		return "SELECT Fn(1, " + ref + ") FROM " + s.text, func(q *SoqlQuery) *SoqlFieldInfo { return &q.Fields[0].Parameters[1] }
	case 2:
		return "SELECT Id FROM " + s.text + " WHERE Id = 1 AND NOT " + ref + " = 2", func(q *SoqlQuery) *SoqlFieldInfo { return &q.Where[3].Value }
	case 3:
		return "SELECT Id FROM " + s.text + " WHERE Fn(Gn(" + ref + ")) = 2", func(q *SoqlQuery) *SoqlFieldInfo { return &q.Where[0].Value.Parameters[0].Parameters[0] }
	case 4:
		return "SELECT Id FROM " + s.text + " GROUP BY Id, " + ref, func(q *SoqlQuery) *SoqlFieldInfo { return &q.GroupBy[1] }
	case 5:
		return "SELECT Id FROM " + s.text + " GROUP BY Id HAVING MAX(" + ref + ") > 1", func(q *SoqlQuery) *SoqlFieldInfo { return &q.Having[0].Value.Parameters[0] }
	case 6:
		// an object of ORDER BY has to be known: the select list names it
		return "SELECT Id, " + canonical + "2 FROM " + s.text + " ORDER BY " + ref + " DESC", func(q *SoqlQuery) *SoqlFieldInfo { return &q.OrderBy[0].Field }
	case 7:
		return "SELECT " + canonical + " FROM " + s.text + " GROUP BY " + ref, func(q *SoqlQuery) *SoqlFieldInfo { return &q.GroupBy[0] }
	}
	return "SELECT " + ref + " FROM " + s.text + " GROUP BY " + canonical + " ORDER BY " + ref, func(q *SoqlQuery) *SoqlFieldInfo { return &q.Fields[0] }
}

const refClauses = 9

// C06_query: one reference to a field of the object, of its parent or of that one's parent
// in each clause (SELECT, function argument, WHERE, function in WHERE, GROUP BY, HAVING,
// ORDER BY), spelled in every way (bare, through names, through aliases, mixed), for five
// forms of FROM; names symbolic, references in any letter case. The reference resolves to
// its full path, and the plan is the one of the text with the full path written out.
func C06_query() {
	s := newScope(nil, nil)
	ref, canonical, path := s.reference(name("Fld"))
	clause := sym.Choice("clause", refClauses)
	text, find := refQuery(s, clause, ref, canonical)
	q := mustParse(text)
	f := find(q)
	resolved(q, f, path)
	ctext, _ := refQuery(s, clause, canonical, canonical)
	c := mustParse(ctext)
	samePlanFold(planOf(q), planOf(c), "canonical")
	sym.Reach("compared")
}

// C06_select_sub: the same in a sub-query of SELECT, whose object is written bare or
// through the outer object's alias.
func C06_select_sub() {
	s := newScope([]string{"Top"}, []string{"tp", "Top"})
	ref, canonical, path := s.reference(name("Fld"))
	clause := sym.Choice("clause", refClauses)
	text, find := refQuery(s, clause, ref, canonical)
	q := mustParse("SELECT Id, (" + text + ") FROM Top tp")
	sub := q.Fields[1].SubQuery
	sym.Assert(sub != nil, "sub-query-kept")
	f := find(sub)
	resolved(sub, f, path)
	sym.Assert(!sub.IsCorelated, "own-objects-do-not-correlate")
	ctext, _ := refQuery(s, clause, canonical, canonical)
	c := mustParse("SELECT Id, (" + ctext + ") FROM Top tp")
	samePlanFold(planOf(q), planOf(c), "canonical")
	sym.Reach("compared")
}

// C06_where_sub: the same in a sub-query of WHERE; the enclosing query has an object and
// aliases of the same names, which do not matter.
func C06_where_sub() {
	s := newScope(nil, nil)
	ref, canonical, path := s.reference(name("Fld"))
	clause := sym.Choice("clause", refClauses)
	text, find := refQuery(s, clause, ref, canonical)
	outer := sym.Pick("outer", "Top tp", "Top al0, al0.Zed pa0")
	q := mustParse("SELECT Id FROM " + outer + " WHERE X = 1 AND Id IN (" + text + ")")
	sub := condSub(q, 0)
	f := find(sub)
	resolved(sub, f, path)
	sym.Assert(!sub.IsCorelated, "own-objects-do-not-correlate")
	ctext, _ := refQuery(s, clause, canonical, canonical)
	c := mustParse("SELECT Id FROM " + outer + " WHERE X = 1 AND Id IN (" + ctext + ")")
	samePlanFold(planOf(q), planOf(c), "canonical")
	sym.Reach("compared")
}

// C06_item_alias: ORDER BY and GROUP BY through the alias of a selected field, in any
// letter case, resolve to that field, its own path included.
func C06_item_alias() {
	s := newScope(nil, nil)
	c := sym.Str("n", 1, letters+digits)
	ref, _, path := s.reference(name("Fld"))
	al := sym.Case("ia") + c
	switch sym.Choice("clause", 3) {
	case 0:
		q := mustParse("SELECT Id, " + ref + " ia" + c + " FROM " + s.text + " ORDER BY Id, " + al)
		resolved(q, &q.Fields[1], path)
		resolved(q, &q.OrderBy[1].Field, path)
		sym.Assert(q.OrderBy[1].Field.ColumnId == q.Fields[1].ColumnId, "column")
	case 1:
		q := mustParse("SELECT " + ref + " ia" + c + " FROM " + s.text + " GROUP BY " + al)
		resolved(q, &q.Fields[0], path)
		resolved(q, &q.GroupBy[0], path)
		sym.Assert(q.GroupBy[0].ColumnId == q.Fields[0].ColumnId, "column")
	case 2:
		q := mustParse("SELECT " + ref + " ia" + c + ", COUNT(Id) FROM " + s.text + " GROUP BY " + al + " HAVING MAX(" + ref + ") > 1 ORDER BY " + al)
		resolved(q, &q.Fields[0], path)
		resolved(q, &q.GroupBy[0], path)
		resolved(q, &q.OrderBy[0].Field, path)
		resolved(q, &q.Having[0].Value.Parameters[0], path)
	}
	sym.Reach("checked")
}

// C06_two: two references spelled independently, one in SELECT and one in WHERE or ORDER
// BY, to the same or to different objects.
func C06_two() {
	s := newScope(nil, nil)
	r1, _, p1 := s.reference(name("Fa"))
	r2, _, p2 := s.reference(name("Fb"))
	q := mustParse("SELECT " + r1 + " FROM " + s.text + " WHERE " + r2 + " = 1")
	resolved(q, &q.Fields[0], p1)
	resolved(q, &q.Where[0].Value, p2)
	sym.Reach("checked")
}
