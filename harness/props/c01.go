package props

import (
	"strconv"
	"strings"

	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// exactlyOne parses a text, any, and asserts that the call gives one of a complete query
// and an error.
func exactlyOne(text string) {
	q, err := parse(text)
	if err != nil {
		sym.Assert(q == nil, "no-query-with-an-error")
		sym.Reach("error")
		return
	}
	sym.Assert(q != nil, "query-or-error")
	complete(q, text)
	sym.Reach("query")
}

func complete(q *SoqlQuery, text string) {
	sym.Assert(q.Meta != nil, "meta")
	sym.Assert(len(q.Meta.Source) == len(text) && sym.EqStr(q.Meta.Source, text), "source")
	sym.Assert(q.Meta.Version != "" && !q.Meta.Date.IsZero(), "version-and-date")
	sym.Assert(q.Meta.Functions != nil && q.Meta.Parameters != nil && q.Meta.DateTimeLiterals != nil, "name-tables")
	sym.Assert(q.Parent == nil, "top-query")
	for _, n := range allQueries(&node{q: q, depth: 1}, nil) {
		sym.Assert(n.q.QueryId > 0 && len(n.q.Fields) > 0 && len(n.q.From) > 0, "normalised-query")
		sym.Assert(n.q == q || n.q.Meta == nil, "meta-of-the-top-query-only")
		for i := range n.q.From {
			sym.Assert(n.q.From[i].PerObjectQuery != nil && n.q.From[i].ViewId > 0, "normalised-object")
		}
	}
	oneTree(q)
}

// C01_head: the empty text and every text of up to three bytes (four in the thorough
// tier), alone and after SELECT, any bytes.
func C01_head() {
	max := 4
	if sym.Tier() > 0 {
		max = 5
	}
	n := sym.Choice("length", max)
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte("b")
	}
	exactlyOne(sym.Pick("before", "", "SELECT ", "select Id", "SELECT Id,") + string(b))
}

var tails = []string{
	"SELECT Id FROM A",
	"SELECT Id FROM A ",
	"SELECT Id FROM A a,",
	"SELECT Id FROM A WHERE",
	"SELECT Id FROM A WHERE X ",
	"SELECT Id FROM A WHERE X =",
	"SELECT Id FROM A WHERE X = 1",
	"SELECT Id FROM A WHERE X = '",
	"SELECT Id FROM A WHERE X = '\\u00",
	"SELECT Id FROM A WHERE X IN (",
	"SELECT Id FROM A WHERE X IN (1",
	"SELECT Id FROM A WHERE (X = 1",
	"SELECT Id FROM A WHERE NOT ",
	"SELECT Id FROM A WHERE X = 2020-01-0",
	"SELECT Id FROM A WHERE X = 2020-01-01T00:00:00",
	"SELECT Id FROM A WHERE X = 10:20:3",
	"SELECT Id FROM A WHERE X = LAST_N_DAYS:",
	"SELECT Id FROM A WHERE X = 0",
	"SELECT Id FROM A GROUP BY ",
	"SELECT Id FROM A GROUP BY Id HAVING ",
	"SELECT Id FROM A ORDER BY Id ",
	"SELECT Id FROM A LIMIT ",
	"SELECT Id FROM A FOR ",
	"SELECT Fn(",
	"SELECT (",
	"SELECT Id, (SELECT Id FROM K) ",
	"SELECT a.",
	"SELECT COUNT(Id) x FROM A",
	"SELECT \"",
	"SELECT Id FROM A /",
	"SELECT Id FROM A --",
}

// C01_tail: 31 beginnings, one in the middle of every construct, followed by up to two
// (thorough: three) bytes, any, and then nothing or text that would close the construct.
func C01_tail() {
	t := tails[sym.Choice("beginning", len(tails))]
	max := 3
	if sym.Tier() > 0 {
		max = 4
	}
	n := sym.Choice("length", max)
	b := make([]byte, n)
	for i := range b {
		b[i] = sym.Byte("b")
	}
	end := ""
	if n < 2 || sym.Tier() > 0 {
		end = sym.Pick("after", "", ")", "' FROM A", " FROM A", "1)")
	}
	exactlyOne(t + string(b) + end)
}

func plainTexts() []string {
	var r []string
	for _, t := range shortCorpus {
		r = append(r, plainText(t))
	}
	for _, t := range corpus {
		r = append(r, plainText(t))
	}
	return r
}

// C01_truncated: the texts that use every construct of the grammar, cut at any place.
func C01_truncated() {
	ts := plainTexts()
	t := ts[sym.Choice("text", len(ts))]
	exactlyOne(t[:sym.Choice("length", len(t)+1)])
}

// C01_byte: two texts (thorough: nineteen) that use every construct, with one byte at any
// place replaced by any byte, or any byte inserted there.
func C01_byte() {
	ts := plainTexts()
	if sym.Tier() == 0 {
		ts = ts[:2]
	}
	t := ts[sym.Choice("text", len(ts))]
	i := sym.Choice("place", len(t))
	b := string([]byte{sym.Byte("b")})
	exactlyOne(t[:i] + b + t[i+sym.Choice("replace", 2):])
}

// pieces splits a corpus text into its tokens.
func pieces(s string) []string {
	return strings.FieldsFunc(plainText(strings.NewReplacer("~", "\x01", "^", "\x01").Replace(s)), func(r rune) bool { return r == 1 })
}

// C01_tokens: the texts that use every construct with a token dropped, written twice,
// exchanged with the next one or replaced by one of 24 others, at any place.
func C01_tokens() {
	all := append(append([]string{}, shortCorpus...), corpus...)
	p := pieces(all[sym.Choice("text", len(all))])
	i := sym.Choice("place", len(p))
	var r []string
	switch sym.Choice("edit", 4) {
	case 0:
		r = append(append(r, p[:i]...), p[i+1:]...)
	case 1:
		r = append(append(append(r, p[:i]...), p[i]), p[i:]...)
	case 2:
		sym.Assume(i+1 < len(p))
		r = append(append(append(r, p[:i]...), p[i+1], p[i]), p[i+2:]...)
	case 3:
		n := len(otherTokens)
		if sym.Tier() == 0 {
			// each place gets two of them
			n = 2
		}
		k := (sym.Choice("token", n)*7 + i*4) % len(otherTokens)
		r = append(append(append(r, p[:i]...), otherTokens[k]), p[i+1:]...)
	}
	exactlyOne(strings.Join(r, " "))
}

var otherTokens = []string{
	"(", ")", ",", ".", "=", ":p", "'s'", "1", "null", "TODAY", "LAST_N_DAYS:2", "SELECT", "FROM", "WHERE", "NOT",
	"IN", "AND", "a.b.c", "COUNT()", "FIELDS(ALL)", "(SELECT Id FROM K)", "(SELECT COUNT() FROM K.L k)", "GROUP BY", "-",
}

// C01_deep: parentheses, NOT, groups of comparisons, functions, lists, sub-queries, name
// paths, fields, order keys and joined objects nested or repeated up to 24 times (thorough: 60), closed or one bracket short or one too many.
func C01_deep() {
	max := 24
	if sym.Tier() > 0 {
		max = 60
	}
	n := []int{1, 2, 3, 5, 8, 13, max}[sym.Choice("times", 7)]
	m := n + sym.Choice("closing", 3) - 1
	rep := strings.Repeat
	switch sym.Choice("what", 12) {
	case 0:
		exactlyOne("SELECT Id FROM A WHERE " + rep("(", n) + "X = 1" + rep(")", m))
	case 1:
		exactlyOne("SELECT Id FROM A WHERE " + rep("NOT (", n) + "X = 1" + rep(")", m))
	case 2:
		exactlyOne("SELECT " + rep("Fn(", n) + "Id" + rep(")", m) + " FROM A")
	case 3:
		exactlyOne("SELECT Id FROM A WHERE X IN (" + rep("1, ", n) + "2" + rep(")", 1+m-n))
	case 4:
		if n > 5 {
			n, m = 5, m-n+5 // each level is a query of its own
		}
		exactlyOne(rep("SELECT Id, (", n) + "SELECT Id FROM K" + rep(") FROM K", m))
	case 5:
		if n > 5 {
			n, m = 5, m-n+5
		}
		exactlyOne("SELECT Id FROM A" + rep(" WHERE X IN (SELECT Y FROM B", n) + rep(")", m))
	case 6:
		exactlyOne("SELECT " + rep("a.", n) + "Id FROM A" + rep(" a", m-n+1))
	case 7:
		exactlyOne("SELECT Id FROM A WHERE X = 1" + rep(" AND Y = 2 OR Z = 3", n) + rep(" OR", m-n+1))
	case 8:
		exactlyOne("SELECT Id FROM A WHERE " + rep("X = 1 AND (B.Y = 2 OR (", n) + "Z = 3" + rep("))", m))
	case 9:
		exactlyOne("SELECT COUNT(F) FROM A GROUP BY Y HAVING " + rep("MAX(X) = 1 OR NOT (", n) + "MIN(Z) = 3" + rep(")", m))
	case 10:
		s, k := "", ""
		for i := 0; i < n; i++ {
			s += "F" + strconv.Itoa(i) + ", B.G" + strconv.Itoa(i) + ", "
			k += ", F" + strconv.Itoa(i) + ", C.H" + strconv.Itoa(i)
		}
		exactlyOne("SELECT " + s + "Id FROM A ORDER BY Id" + k + rep(",", m-n+1))
	case 11:
		s := ""
		for i := 0; i < n; i++ {
			s += ", A.P" + strconv.Itoa(i) + " p" + strconv.Itoa(i)
		}
		exactlyOne("SELECT Id FROM A" + s + rep(",", m-n+1))
	}
}
