package props

import (
	"strings"

	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// used collects what a text uses, keyed without regard to case.
type used struct {
	fn, par, date []string
}

func (u *used) add(l *[]string, s string) {
	s = strings.ToLower(s)
	for _, x := range *l {
		if sym.Concrete(x) == sym.Concrete(s) {
			return
		}
	}
	*l = append(*l, s)
}

func (u *used) same(m map[string]struct{}, l []string, label string) {
	sym.Assert(len(m) == len(l), label+"-count")
	for _, x := range l {
		_, ok := m[x]
		sym.Assert(ok, label+"-listed")
	}
}

func (u *used) check(q *SoqlQuery, src string) {
	sym.Assert(q.Meta != nil, "meta")
	sym.Assert(sym.EqStr(q.Meta.Source, src), "source")
	u.same(q.Meta.Functions, u.fn, "functions")
	u.same(q.Meta.Parameters, u.par, "parameters")
	u.same(q.Meta.DateTimeLiterals, u.date, "dates")
	sym.Reach("checked")
}

// C17_places: a function, a parameter and a date name in every place that can hold one,
// each place used or not (in every combination within the group), all names in any letter
// case; the metadata has to list exactly those used.
func C17_places() {
	u := &used{}
	on := func(n string) bool { return sym.Choice(n, 2) == 1 }
	sel, where, tail, group := "Id", "", "", ""
	and := func(s string) {
		if where != "" {
			where += " AND "
		}
		where += s
	}
	g := sym.Choice("group", 4)
	switch g {
	case 0: // functions
		if on("select") {
			sel += ", " + sym.Case("Upper") + "(Name)"
			u.add(&u.fn, "upper")
		}
		if on("nested") {
			sel += ", F1(" + sym.Case("F2") + "(Name), 3)"
			u.add(&u.fn, "f1")
			u.add(&u.fn, "f2")
		}
		if on("where-left") {
			and(sym.Case("F3") + "(F4(Name)) = 1")
			u.add(&u.fn, "f3")
			u.add(&u.fn, "f4")
		}
		if on("where-right") {
			and("Name = " + sym.Case("F5") + "()")
			u.add(&u.fn, "f5")
		}
		if on("select-sub") {
			sel += ", (SELECT Id, F6(Nm) FROM Kids WHERE F7(Nm) = 2)"
			u.add(&u.fn, "f6")
			u.add(&u.fn, "f7")
		}
		if on("where-sub") {
			and("X IN (SELECT Y FROM B WHERE F8(Z) = 1)")
			u.add(&u.fn, "f8")
		}
		if on("date-argument") {
			sel += ", F9(2020-01-02, 'x')"
			u.add(&u.fn, "f9")
		}
	case 1: // parameters
		if on("where") {
			and("X = :" + sym.Case("Pa"))
			u.add(&u.par, "pa")
		}
		if on("where-again") {
			and("Y != : pA")
			u.add(&u.par, "pa")
		}
		if on("list") {
			and("X NOT IN (1, :" + sym.Case("Pb") + ", :pc)")
			u.add(&u.par, "pb")
			u.add(&u.par, "pc")
		}
		if on("argument") {
			sel += ", F(:" + sym.Case("Pd") + ")"
			u.add(&u.par, "pd")
			u.add(&u.fn, "f")
		}
		if on("sub") {
			and("X IN (SELECT Y FROM B WHERE Z = :" + sym.Case("Pe") + " LIMIT :pf)")
			u.add(&u.par, "pe")
			u.add(&u.par, "pf")
		}
		if on("select-sub") {
			sel += ", (SELECT Id FROM Kids WHERE Q IN (:" + sym.Case("Pg") + ") OFFSET :Ph)"
			u.add(&u.par, "pg")
			u.add(&u.par, "ph")
		}
		if on("limit") {
			tail += " LIMIT :" + sym.Case("Pi")
			u.add(&u.par, "pi")
		}
		if on("offset") {
			tail += " OFFSET :" + sym.Case("Pj")
			u.add(&u.par, "pj")
		}
	case 2: // date names
		if on("where") {
			and("X = " + sym.Case("Today"))
			u.add(&u.date, "today")
		}
		if on("count") {
			and("X > " + sym.Case("Last_N_Days") + ":3")
			u.add(&u.date, "last_n_days")
		}
		if on("list") {
			and("X IN (1, " + sym.Case("Yesterday") + ", NEXT_N_WEEKS:2)")
			u.add(&u.date, "yesterday")
			u.add(&u.date, "next_n_weeks")
		}
		if on("sub") {
			and("X IN (SELECT Y FROM B WHERE Z < this_year)")
			u.add(&u.date, "this_year")
		}
		if on("select-sub") {
			sel += ", (SELECT Id FROM Kids WHERE Q IN (next_month))"
			u.add(&u.date, "next_month")
		}
		if on("not-a-date") {
			and("TODAY = 'TOMORROW'")
		}
		if on("string") {
			and("W = ':px' /* :py LAST_WEEK F(x) */")
		}
	case 3: // group by and having
		sel = "Name"
		group = " GROUP BY Name"
		if on("aggregate") {
			sel += ", " + sym.Case("Count") + "(Id) c"
			u.add(&u.fn, "count")
		}
		if on("having-left") {
			group += " HAVING " + sym.Case("Max") + "(X) > 1"
			u.add(&u.fn, "max")
			if on("having-parameter") {
				group += " AND Min(X) IN (:Pk, 2)"
				u.add(&u.fn, "min")
				u.add(&u.par, "pk")
			}
			if on("having-date") {
				group += " OR NOT Min(Y) < TOMORROW"
				u.add(&u.fn, "min")
				u.add(&u.date, "tomorrow")
			}
			if on("having-right") {
				group += " OR Min(Y) < F3(1)"
				u.add(&u.fn, "min")
				u.add(&u.fn, "f3")
			}
			if on("having-sub") {
				group += " AND Min(Y) IN (SELECT A FROM B WHERE D = :pz AND E = LAST_YEAR AND F9(E) = 1)"
				u.add(&u.fn, "min")
				u.add(&u.fn, "f9")
				u.add(&u.par, "pz")
				u.add(&u.date, "last_year")
			}
		}
	}
	if where != "" {
		where = " WHERE " + where
	}
	src := "SELECT " + sel + " FROM A" + where + group + tail
	u.check(mustParse(src), src)
}

// C17_names: names of two arbitrary name characters for a function, a parameter used
// twice in possibly different case, and a list parameter.
func C17_names() {
	u := &used{}
	a, b, c := "P"+sym.Str("a", 1, nameBytes), "P"+sym.Str("b", 1, nameBytes), "F"+sym.Str("c", 2, nameBytes)
	u.add(&u.par, a)
	u.add(&u.par, b)
	u.add(&u.fn, c)
	src := "SELECT " + c + "(Id) FROM A WHERE X = :" + a + " AND Y IN (:" + b + ") LIMIT :" + a
	u.check(mustParse(src), src)
}
