package props

import (
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// plan is the whole of a query in comparable form: exact holds everything that does not
// depend on how names are spelled, names holds the names in order.
type plan struct {
	exact []string
	names []string
	rel   *relabel
	// leave out the keys, which repeat names
	noKeys bool
}

// relabel makes plans of one text in different places comparable: ids are replaced by
// the order in which they occur, and the path to the primary object is left out.
type relabel struct {
	ids   map[string]int
	next  map[string]int
	strip int
	leave *SoqlQuery // a sub-query to leave out
}

func (p *plan) id(tag string, v int) {
	if p.rel != nil && v > 0 {
		k := tag + strconv.Itoa(v)
		if _, ok := p.rel.ids[k]; !ok {
			p.rel.next[tag]++
			p.rel.ids[k] = p.rel.next[tag]
		}
		v = p.rel.ids[k]
	}
	p.i(tag, v)
}

func (p *plan) path(tag string, n []string) {
	if p.rel != nil && p.rel.strip <= len(n) {
		n = n[p.rel.strip:]
	}
	p.name(tag, n)
}

func (p *plan) key(k string) {
	if p.rel == nil && !p.noKeys {
		p.e(k)
	}
}

// shapeOf is the plan of a query without the numbering of ids, and with object paths that
// begin after the first strip names.
func shapeOf(q *SoqlQuery, strip int) *plan {
	p := &plan{rel: &relabel{ids: map[string]int{}, next: map[string]int{}, strip: strip}}
	p.query(q)
	return p
}

func (p *plan) e(s ...string) { p.exact = append(p.exact, s...) }
func (p *plan) i(tag string, v int) {
	p.exact = append(p.exact, tag+strconv.Itoa(v))
}
func (p *plan) b(tag string, v bool) {
	if v {
		p.exact = append(p.exact, tag)
	}
}
func (p *plan) name(tag string, n []string) {
	p.e(tag + strconv.Itoa(len(n)))
	p.names = append(p.names, n...)
}

func (p *plan) value(v interface{}) {
	switch x := v.(type) {
	case nil:
		p.e("nil")
	case int64:
		p.e("int:" + strconv.FormatInt(x, 10))
	case float64:
		p.e("float:" + strconv.FormatUint(math.Float64bits(x), 16))
	case bool:
		p.e("bool:" + strconv.FormatBool(x))
	case string:
		p.e("string:", x)
	case []byte:
		p.e("bytes:", string(x))
	case time.Time:
		p.e("time:"+strconv.FormatInt(x.Unix(), 10), strconv.Itoa(x.Nanosecond()))
	case SoqlDateTimeLiteralName:
		p.e("date:")
		p.names = append(p.names, x.Name)
		p.i("n", x.N)
	case []SoqlListItem:
		p.i("list:", len(x))
		for i := range x {
			p.i("t", int(x[i].Type))
			if x[i].Type == SoqlFieldInfo_ParameterizedValue {
				s, ok := x[i].Value.(string)
				p.b("param", ok)
				p.names = append(p.names, s)
				continue
			}
			p.value(x[i].Value)
		}
	default:
		p.e("other")
	}
}

func (p *plan) field(f *SoqlFieldInfo) {
	p.i("F", int(f.Type))
	if f.Type == SoqlFieldInfo_Field || f.Type == SoqlFieldInfo_FieldSet {
		p.path("", f.Name)
	} else {
		p.name("", f.Name)
	}
	p.value(f.Value)
	p.names = append(p.names, f.AliasName)
	p.id("c", f.ColumnId)
	p.i("x", f.ColIndex)
	p.id("v", f.ViewId)
	p.b("NS", f.NotSelected)
	p.b("AG", f.Aggregated)
	p.key(f.Key)
	p.fields("P", f.Parameters)
	if f.SubQuery != nil && (p.rel == nil || p.rel.leave != f.SubQuery) {
		p.query(f.SubQuery)
	}
}

func (p *plan) fields(tag string, fs []SoqlFieldInfo) {
	p.i(tag, len(fs))
	for i := range fs {
		p.field(&fs[i])
	}
}

func (p *plan) conds(tag string, cs []SoqlCondition) {
	p.i(tag, len(cs))
	for i := range cs {
		p.i("op", int(cs[i].Opcode))
		if cs[i].Opcode == SoqlConditionOpcode_FieldInfo {
			strip := 0
			if p.rel != nil && cs[i].Value.Type == SoqlFieldInfo_SubQuery {
				// has object paths of its own
				strip, p.rel.strip = p.rel.strip, strip
				p.field(&cs[i].Value)
				strip, p.rel.strip = p.rel.strip, strip
				continue
			}
			p.field(&cs[i].Value)
		}
	}
}

func (p *plan) query(q *SoqlQuery) {
	p.id("Q", q.QueryId)
	p.fields("S", q.Fields)
	p.i("O", len(q.From))
	for i := range q.From {
		o := &q.From[i]
		p.path("o", o.Name)
		p.names = append(p.names, o.AliasName)
		p.id("v", o.ViewId)
		if p.rel == nil || i > 0 {
			p.id("v", o.ParentViewId)
		}
		p.b("HC", o.HasConditions)
		p.b("IJ", o.InnerJoin)
		p.key(o.Key)
		if o.PerObjectQuery != nil {
			p.query(o.PerObjectQuery)
		}
	}
	p.conds("W", q.Where)
	p.fields("G", q.GroupBy)
	p.conds("H", q.Having)
	p.i("B", len(q.OrderBy))
	for i := range q.OrderBy {
		p.field(&q.OrderBy[i].Field)
		p.b("desc", q.OrderBy[i].Desc)
		p.b("last", q.OrderBy[i].NullsLast)
	}
	p.e("OFF" + strconv.FormatInt(q.OffsetAndLimit.Offset, 10))
	p.e("LIM" + strconv.FormatInt(q.OffsetAndLimit.Limit, 10))
	p.names = append(p.names, q.OffsetAndLimit.OffsetParamName, q.OffsetAndLimit.LimitParamName)
	p.b("fv", q.For.View)
	p.b("fr", q.For.Reference)
	p.b("fu", q.For.Update)
	p.b("ft", q.For.UpdateTracking)
	p.b("fs", q.For.UpdateViewstat)
	p.b("agg", q.IsAggregation)
	p.b("cor", q.IsCorelated)
	p.conds("PP", q.PostProcessWhere)
	if q.Parent != nil && p.rel == nil {
		p.i("parent", q.Parent.QueryId)
	}
	if q.Meta != nil && p.rel == nil {
		m := q.Meta
		p.i("qd", m.MaxQueryDepth)
		p.i("vd", m.MaxViewDepth)
		p.i("nq", m.NextQueryId)
		p.i("nv", m.NextViewId)
		p.i("nc", m.NextColumnId)
		for _, k := range sortedIds(len(m.QueryGraph), func(i int) bool { _, ok := m.QueryGraph[i]; return ok }) {
			l := m.QueryGraph[k]
			p.i("qg", k)
			p.i("p", l.ParentQueryId)
			p.i("d", l.Depth)
			p.b("cond", l.IsConditional)
		}
		for _, k := range sortedIds(len(m.ViewGraph), func(i int) bool { _, ok := m.ViewGraph[i]; return ok }) {
			l := m.ViewGraph[k]
			p.i("vg", k)
			p.names = append(p.names, l.Name)
			p.i("p", l.ParentViewId)
			p.i("q", l.QueryId)
			p.i("d", l.Depth)
			p.i("qd", l.QueryDepth)
			p.b("many", l.Many)
			p.b("ij", l.InnerJoin)
			p.b("nr", l.NonResult)
		}
		if p.noKeys {
			p.i("keys", len(m.Functions))
			p.i("keys", len(m.Parameters))
			p.i("keys", len(m.DateTimeLiterals))
			return
		}
		p.e(keysOf(m.Functions)...)
		p.e(keysOf(m.Parameters)...)
		p.e(keysOf(m.DateTimeLiterals)...)
	}
}

// sortedIds lists the ids for which has is true, in order.
func sortedIds(n int, has func(i int) bool) []int {
	var r []int
	for i := -2; len(r) < n && i < 1000; i++ {
		if has(i) {
			r = append(r, i)
		}
	}
	return r
}

func keysOf(m map[string]struct{}) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return append([]string{"keys" + strconv.Itoa(len(r))}, r...)
}

func planOf(q *SoqlQuery) *plan {
	p := &plan{}
	p.query(q)
	return p
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	return sym.EqStr(strings.Join(a, "\x00"), strings.Join(b, "\x00"))
}

// samePlan: equal in everything, names included.
func samePlan(a, b *plan, label string) {
	sym.Assert(len(a.exact) == len(b.exact), label+"-structure")
	sym.Assert(sameStrings(a.exact, b.exact), label+"-content")
	sym.Assert(sameStrings(a.names, b.names), label+"-names")
}

// samePlanFold: equal in everything, names up to case.
func samePlanFold(a, b *plan, label string) {
	sym.Assert(len(a.exact) == len(b.exact), label+"-structure")
	sym.Assert(sameStrings(a.exact, b.exact), label+"-content")
	sym.Assert(len(a.names) == len(b.names), label+"-names-count")
	sym.Assert(sym.EqFold(strings.Join(a.names, "\x00"), strings.Join(b.names, "\x00")), label+"-names")
}
