package props

import (
	"soqlverif/sym"

	"github.com/shellyln/go-open-soql-parser/soql/parser"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// call is one call of Parse made on a thread of its own.
type call struct {
	text string
	q    *SoqlQuery
	err  error
	plan *plan
}

// together parses the texts at the same time; every caller then reads its result and
// changes it, as it may with what is its own.
func together(change bool, texts ...string) []call {
	cs := make([]call, len(texts))
	for i := range cs {
		cs[i].text = texts[i]
	}
	r := sym.Concurrently(len(cs), func(i int) {
		c := &cs[i]
		c.q, c.err = parser.Parse(c.text)
		if c.q != nil {
			c.plan = planOf(c.q)
			if change {
				scribble(c.q)
			}
		} else if c.err != nil {
			_ = c.err.Error()
		}
	})
	sym.ObserveStr("races", r)
	sym.Assert(r == "", "no-race")
	sym.Reach("no-race")
	return cs
}

// alone compares what concurrent callers got with what a lone caller gets.
func alone(cs []call) {
	for i := range cs {
		c := &cs[i]
		q, err := parser.Parse(c.text)
		sym.Assert((err == nil) == (c.err == nil), "same-verdict")
		if err != nil {
			sym.Assert(sym.EqStr(err.Error(), c.err.Error()), "same-error")
			continue
		}
		sym.Assert(c.plan != nil, "result")
		samePlan(planOf(q), c.plan, "alone")
		sym.Reach("same")
	}
}

// scribble overwrites everything a caller may overwrite in its own result.
func scribble(q *SoqlQuery) {
	field := func(f *SoqlFieldInfo) {
		for i := range f.Name {
			f.Name[i] = "zz"
		}
		for i := range f.Parameters {
			f.Parameters[i].ColumnId = 99
		}
		if l, ok := f.Value.([]SoqlListItem); ok {
			for i := range l {
				l[i].Value = nil
			}
		}
		f.AliasName = "zz"
		f.ViewId = 99
	}
	conds := func(cs []SoqlCondition) {
		for i := range cs {
			field(&cs[i].Value)
			cs[i].Opcode = 0
		}
	}
	for i := range q.Fields {
		if q.Fields[i].SubQuery != nil && q.Fields[i].SubQuery != q {
			scribble(q.Fields[i].SubQuery)
		}
		field(&q.Fields[i])
	}
	conds(q.Where)
	conds(q.Having)
	conds(q.PostProcessWhere)
	for i := range q.GroupBy {
		field(&q.GroupBy[i])
	}
	for i := range q.OrderBy {
		field(&q.OrderBy[i].Field)
		q.OrderBy[i].Desc = true
	}
	for i := range q.From {
		q.From[i].Key = "zz"
		for k := range q.From[i].Name {
			q.From[i].Name[k] = "zz"
		}
		if p := q.From[i].PerObjectQuery; p != nil {
			conds(p.Where)
			for k := range p.Fields {
				field(&p.Fields[k])
			}
		}
	}
	if q.Meta != nil {
		q.Meta.Functions["zz"] = struct{}{}
		q.Meta.Parameters["zz"] = struct{}{}
		q.Meta.DateTimeLiterals["zz"] = struct{}{}
		delete(q.Meta.ViewGraph, 0)
		delete(q.Meta.QueryGraph, 0)
	}
}

func c18text(k int) string {
	n := len(corpus)
	if k < n {
		return plainText(corpus[k])
	}
	return plainText(badCorpus[(k-n)%len(badCorpus)])
}

// C18_cold: the first calls of a process. Two texts, every corpus text (accepted and
// rejected ones) paired with three others (thorough: with seven), on three
// threads (the first text twice); the callers read and overwrite their results. Every
// schedule of the three threads that keeps what was read before the two accesses.
func C18_cold() {
	n := len(corpus) + len(badCorpus)
	k := sym.Choice("text", n)
	step := []int{1, n - 1, 7, 13, 4, 10, 17}
	d := 3
	if sym.Tier() > 0 {
		d = len(step)
	}
	d = sym.Choice("other", d)
	s1, s2 := c18text(k), c18text((k+step[d])%n)
	sym.Input(s1 + "\n" + s2)
	alone(together(true, s1, s2, s1))
}

// C18_warm: as C18_cold, after an earlier call with a third text whose result another
// thread reads meanwhile.
func C18_warm() {
	n := len(corpus) + len(badCorpus)
	k := sym.Choice("text", n)
	s0, s1, s2 := plainText(corpus[(k+5)%len(corpus)]), c18text(k), c18text((k+3)%n)
	sym.Input(s1 + "\n" + s2)
	q, err := parser.Parse(s0)
	sym.Assert(err == nil, "accepted")
	var before *plan
	cs := make([]call, 3)
	r := sym.Concurrently(4, func(i int) {
		if i == 3 {
			before = planOf(q)
			return
		}
		c := &cs[i]
		c.text = s1
		if i == 1 {
			c.text = s2
		}
		c.q, c.err = parser.Parse(c.text)
		if c.q != nil {
			c.plan = planOf(c.q)
			scribble(c.q)
		}
	})
	sym.ObserveStr("races", r)
	sym.Assert(r == "", "no-race")
	alone(cs)
	q2, err := parser.Parse(s0)
	sym.Assert(err == nil, "accepted-again")
	samePlan(before, planOf(q2), "earlier-result")
}

// C18_values: two callers with texts of one shape each whose names, literals and letter
// case are arbitrary: a name of two bytes, a string or a number of two characters, a date
// of a four-digit year with two free digits; the second caller's text has one free
// character in each.
func C18_values() {
	text := func(t string, n int) string {
		name := "X" + sym.Str("name"+t, n, nameBytes)
		switch sym.Choice("shape"+t, 4) {
		case 0:
			return sym.Case("select ") + name + sym.Case(" from ") + "A where V = '" + sym.Str("value"+t, n, "ab'%") + "'"
		case 1:
			return "SELECT Id FROM A WHERE V = " + sym.Str("number"+t, n, "019.-xe")
		case 2:
			return "SELECT f(" + name + ") FROM A, A.Par p WHERE p." + name + " = 1 AND W = :" + name
		default:
			return "SELECT Id FROM A WHERE V >= 200" + sym.Str("year"+t, n-1, "01") + "4-0" + sym.Str("month"+t, n, "019")[:1] + "-10"
		}
	}
	s1, s2 := text("1", 2), text("2", 1)
	sym.Input(s1 + "\n" + s2)
	var err [2]error
	r := sym.Concurrently(2, func(i int) {
		if i == 0 {
			_, err[0] = parser.Parse(s1)
		} else {
			_, err[1] = parser.Parse(s2)
		}
	})
	sym.ObserveStr("races", r)
	sym.Assert(r == "", "no-race")
	_, e1 := parser.Parse(s1)
	sym.Assert((e1 == nil) == (err[0] == nil), "same-verdict")
}
