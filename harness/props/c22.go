package props

import (
	"strings"

	"soqlverif/sym"
)

var keywords = []string{
	"SELECT", "FROM", "WHERE", "GROUP", "BY", "HAVING", "ORDER", "ASC", "DESC", "NULLS", "FIRST", "LAST",
	"OFFSET", "LIMIT", "FOR", "VIEW", "REFERENCE", "UPDATE", "TRACKING", "VIEWSTAT",
	"AND", "OR", "NOT", "LIKE", "IN", "INCLUDES", "EXCLUDES", "TRUE", "FALSE", "NULL",
	"TODAY", "LAST_N_DAYS", "THIS_WEEK", "NaN", "Infinity", "COUNT", "COUNT_DISTINCT", "FIELDS", "ALL", "STANDARD", "CUSTOM", "USING", "SCOPE", "WITH", "TYPEOF",
}

// notNames are the words of the corpus texts that are no names, or whose name has a meaning.
var notNames = map[string]bool{
	"select": true, "from": true, "where": true, "group": true, "by": true, "having": true, "order": true, "asc": true, "desc": true,
	"nulls": true, "first": true, "last": true, "offset": true, "limit": true, "for": true, "view": true, "reference": true,
	"update": true, "tracking": true, "viewstat": true, "and": true, "or": true, "not": true, "like": true, "in": true,
	"includes": true, "excludes": true, "true": true, "false": true, "null": true, "today": true, "last_n_days": true,
	"next_n_weeks": true, "this_fiscal_quarter": true, "count": true, "count_distinct": true, "fields": true, "all": true,
	"expr0": true,
}

func nameByte(c byte, first bool) bool {
	return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '_' || !first && c >= '0' && c <= '9'
}

// words splits a corpus text: the even entries are what is between names, the odd ones names.
func words(s string) []string {
	var l []string
	cur := ""
	quoted, fixed := byte(0), false
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case quoted != 0:
			if c == '\\' {
				cur += s[i : i+1]
				i++
			} else if c == quoted {
				quoted = 0
			}
		case c == '`':
			fixed = !fixed
		case fixed:
		case c == '\'' || c == '"':
			quoted = c
		case c >= '0' && c <= '9':
			for ; i+1 < len(s) && (nameByte(s[i+1], false) || s[i+1] == '.'); i++ {
				cur += s[i : i+1]
			}
		case nameByte(c, true):
			j := i
			for j < len(s) && nameByte(s[j], false) {
				j++
			}
			if w := s[i:j]; !notNames[strings.ToLower(w)] {
				l = append(l, cur, w)
				cur = ""
			} else {
				cur += w
			}
			i = j
			continue
		}
		cur += s[i : i+1]
		i++
	}
	return append(l, cur)
}

// distinct lists the different names, without regard to case.
func distinct(w []string) []string {
	var l []string
	seen := map[string]bool{}
	for i := 1; i < len(w); i += 2 {
		if k := strings.ToLower(w[i]); !seen[k] {
			seen[k] = true
			l = append(l, k)
		}
	}
	return l
}

// renamed asserts that writing another name for one, wherever it occurs, changes that name
// in the plan and nothing else.
func renamed(marked, old, name string) {
	text := ""
	w := words(marked)
	for _, n := range distinct(w) {
		if n != old && len(n) == len(name) {
			sym.Assume(sym.Not(sym.EqFold(name, n)))
		}
	}
	for i, s := range w {
		if i%2 == 1 && strings.ToLower(s) == old {
			s = "`" + name + "`"
		}
		text += s
	}
	a, b := &plan{noKeys: true}, &plan{noKeys: true}
	a.query(mustParse(plainText(marked)))
	b.query(mustParse(plainText(text)))
	sym.Assert(len(a.exact) == len(b.exact), "structure")
	sym.Assert(sameStrings(a.exact, b.exact), "content")
	sym.Assert(len(a.names) == len(b.names), "names")
	want := make([]string, len(a.names))
	for i, n := range a.names {
		if strings.ToLower(n) == old {
			n = name
		}
		want[i] = n
	}
	sym.Assert(sameStrings(want, b.names), "renamed")
	sym.Reach("renamed")
}

// aKeyword writes a name that begins with a keyword, ends with one or is two keywords.
func aKeyword(k string) string {
	c := sym.Str("c", 1, letters+digits+"_")
	switch sym.Choice("form", 2) {
	case 0:
		return caseOf(k, true) + c
	}
	return sym.Str("c", 1, letters) + caseOf(k, true)
}

// C22_keywords: in two short texts every name of an object, field, function, alias or
// parameter replaced by one that begins or ends with any of 45 keywords and has one more
// character, any.
func C22_keywords() {
	t := shortCorpus[sym.Choice("text", len(shortCorpus))]
	names := distinct(words(t))
	old := names[sym.Choice("name", len(names))]
	renamed(t, old, aKeyword(keywords[sym.Choice("keyword", len(keywords))]))
}

// C22_operands: the same for fields, functions and parameters on the right of a comparison
// and as arguments, where literals are tried as well.
func C22_operands() {
	names := distinct(words(operandText))
	old := names[sym.Choice("name", len(names))]
	renamed(operandText, old, aKeyword(keywords[sym.Choice("keyword", len(keywords))]))
}

const operandText = "^SELECT~Fn^(^Ga^,^1^)~FROM~Aa~WHERE~Bb^=^Cc~AND~Dd^>^Aa^.^Rr^.^Ss~AND~NOT~Hn^(^Tt^,^'x'^)~LIKE~Kn^(^Uu^)~AND~Bb~IN^(^:pp^,^1^)"

// C22_corpus: the same for every name of the texts that use every construct of the grammar,
// with three of the keywords each (all of them in the thorough tier).
func C22_corpus() {
	i := sym.Choice("text", len(corpus))
	names := distinct(words(corpus[i]))
	j := sym.Choice("name", len(names))
	n := 3
	if sym.Tier() > 0 {
		n = len(keywords)
	}
	renamed(corpus[i], names[j], aKeyword(keywords[(7*i+3*j+sym.Choice("keyword", n))%len(keywords)]))
}

// C22_short: every name of every text replaced by one of one or two characters, any, that is
// no keyword and none of the other names of the text.
func C22_short() {
	i := sym.Choice("text", len(corpus)+len(shortCorpus))
	t := ""
	if i < len(corpus) {
		t = corpus[i]
	} else {
		t = shortCorpus[i-len(corpus)]
	}
	names := distinct(words(t))
	old := names[sym.Choice("name", len(names))]
	name := sym.Str("c", 1, letters+"_")
	if sym.Choice("length", 2) == 1 {
		name += sym.Str("c", 1, letters+digits+"_")
		for _, k := range []string{"by", "or", "in"} {
			sym.Assume(sym.Not(sym.EqFold(name, k)))
		}
	}
	renamed(t, old, name)
}
