package props

import (
	"soqlverif/sym"
)

// spots counts the places of a corpus text where white space may stand.
func spots(s string) int {
	n := 0
	quoted, fixed := false, false
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '\\' && quoted:
			i++
		case c == '\'':
			quoted = !quoted
		case quoted:
		case c == '`':
			fixed = !fixed
		case fixed:
		case c == '~' || c == '^':
			n++
		}
	}
	return n
}

// renderAt writes a corpus text with the k-th white space place filled by at, the other
// ones by the usual spelling (all by the result of each when it is given).
func renderAt(s string, k int, at string, each func(required bool) string) string {
	out := ""
	n := 0
	quoted, fixed := false, false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '\\' && quoted:
			out += s[i : i+2]
			i++
		case c == '\'':
			quoted = !quoted
			out += "'"
		case quoted:
			out += s[i : i+1]
		case c == '`':
			fixed = !fixed
		case fixed:
			out += s[i : i+1]
		case c == '~' || c == '^':
			switch {
			case n == k:
				out += at
			case each != nil:
				out += each(c == '~')
			case c == '~':
				out += " "
			}
			n++
		default:
			out += s[i : i+1]
		}
	}
	return out
}

const blanks = " \t\r\n"

// separator is any non-empty run of up to two elements of white space and comments.
func separator() string {
	switch sym.Choice("separator", 8) {
	case 0:
		return sym.Str("blank", 1, blanks)
	case 1:
		return sym.Str("blank", 2, blanks)
	case 2:
		return lineComment(2)
	case 3:
		return blockComment(2)
	case 4:
		return sym.Str("blank", 1, blanks) + blockComment(1) + sym.Str("blank", 1, blanks)
	case 5:
		return blockComment(1) + lineComment(1)
	case 6:
		return lineComment(0) + blockComment(0)
	}
	return lineComment(1) + sym.Str("blank", 1, blanks) + lineComment(1)
}

// lineComment is `--`, n arbitrary bytes that do not end the line, and a line end.
func lineComment(n int) string {
	return lineCommentEnd(n, sym.Pick("eol", "\n", "\r\n", "\r"))
}

func lineCommentEnd(n int, eol string) string {
	s := sym.Str("comment", n, "")
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(s[i] < 0x80, sym.And(s[i] != '\r', s[i] != '\n')))
	}
	return "--" + s + eol
}

// blockComment is a comment around n arbitrary bytes that do not close it.
func blockComment(n int) string {
	s := sym.Str("comment", n, "")
	for i := 0; i < n; i++ {
		sym.Assume(s[i] < 0x80)
		if i > 0 {
			sym.Assume(sym.Not(sym.And(s[i-1] == '*', s[i] == '/')))
		}
	}
	if n > 0 {
		sym.Assume(s[n-1] != '*')
	}
	return "/*" + s + "*/"
}

func c08Same(t string, s string) {
	q, err := parse(plainText(t))
	sym.Assert(err == nil, "accepted")
	q2, err2 := parse(s)
	sym.Assert(err2 == nil, "accepted-with-other-white-space")
	samePlan(planOf(q), planOf(q2), "plan")
	sym.Reach("compared")
}

// C08_one: for each corpus text and each place between two tokens (before the first and
// after the last one too), that place takes two arbitrary blanks (any of space, tab, CR,
// LF), or a block or line comment around two arbitrary ASCII bytes. Thorough: every run
// of one or two blanks or comments, and every line end after a line comment.
func C08_one() {
	t := corpus[sym.Choice("text", len(corpus))]
	k := sym.Choice("place", spots(t))
	if sym.Tier() > 0 {
		c08Same(t, renderAt(t, k, separator(), nil))
		return
	}
	at := ""
	switch sym.Choice("separator", 3) {
	case 0:
		at = sym.Str("blank", 2, blanks)
	case 1:
		at = blockComment(2)
	default:
		at = lineCommentEnd(2, "\n")
	}
	c08Same(t, renderAt(t, k, at, nil))
}

// C08_runs: for two short texts, every place and every run of one or two blanks or
// comments, with every line end after a line comment.
func C08_runs() {
	t := shortCorpus[sym.Choice("text", len(shortCorpus))]
	k := sym.Choice("place", spots(t))
	c08Same(t, renderAt(t, k, separator(), nil))
}

// C08_all: every place at once takes one arbitrary blank (also the optional ones).
func C08_all() {
	t := corpus[sym.Choice("text", len(corpus))]
	opt := sym.Choice("optional", 2) == 1
	c08Same(t, renderAt(t, -1, "", func(required bool) string {
		if required || opt {
			return sym.Str("blank", 1, blanks)
		}
		return ""
	}))
}

// C08_comments: every place at once takes a comment (line or block) with one arbitrary
// byte, with no other white space around it.
func C08_comments() {
	t := corpus[sym.Choice("text", len(corpus))]
	opt := sym.Choice("optional", 2) == 1
	line := sym.Choice("line", 2) == 1
	c08Same(t, renderAt(t, -1, "", func(required bool) string {
		if !required && !opt {
			return ""
		}
		c := sym.ByteIn("comment", "ab'\"(),;:=*-. \\")
		if line {
			return "--" + string([]byte{c}) + "\n"
		}
		return "/*" + string([]byte{c}) + " */"
	}))
}

// C08_strings: comment markers and any other two bytes inside a string literal reach the
// value unchanged.
func C08_strings() {
	s := sym.Str("text", 3, "-/* \n\tx")
	q := mustParse("SELECT Id FROM A WHERE X = '" + s + "' AND Y = 1")
	sym.Assert(len(q.Where) == 7, "where-kept")
	v, ok := q.Where[1].Value.Value.(string)
	sym.Assert(ok, "string")
	sym.Assert(sym.EqStr(v, s), "string-kept")
}
