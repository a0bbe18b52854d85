package props

import (
	"strings"

	"soqlverif/sym"
)

// place is where a message says that parsing stopped.
type place struct {
	line, col int
	quote     string // what follows the position
}

const placeMark = "\n --> Line "

// placeOf reads the position in a message; ok is false when there is none.
func placeOf(msg string) (p place, ok bool) {
	i := strings.Index(msg, placeMark)
	if i < 0 {
		return p, false
	}
	n := i + len(placeMark)
	number := func() int {
		v := 0
		sym.Assert(n < len(msg) && msg[n] >= '0' && msg[n] <= '9', "number-in-message")
		for ; n < len(msg) && msg[n] >= '0' && msg[n] <= '9'; n++ {
			v = v*10 + int(msg[n]-'0')
		}
		return v
	}
	p.line = number()
	sym.Assert(strings.HasPrefix(msg[n:], ", Col "), "message-format")
	n += len(", Col ")
	p.col = number()
	sym.Assert(n < len(msg) && msg[n] == '\n', "message-format")
	p.quote = msg[n+1:]
	return p, true
}

// rejectedAt parses a text that has to be rejected for its syntax and gives the position
// in the message.
func rejectedAt(text string) place {
	q, err := parse(text)
	sym.Assert(err != nil, "rejected")
	sym.Assert(q == nil, "no-query-with-an-error")
	p, ok := placeOf(err.Error())
	sym.Assert(ok, "position-in-message")
	return p
}

// lineStart is the index at which a line begins, and the end of that line without its
// line break; the lines end with \n, \r or \r\n.
func lineBounds(text string, line int) (start, end int, ok bool) {
	n := 1
	start = 0
	for i := 0; i < len(text); i++ {
		c := text[i]
		if c == '\r' || c == '\n' {
			if n == line {
				return start, i, true
			}
			if c == '\r' && i+1 < len(text) && text[i+1] == '\n' {
				i++
			}
			n++
			start = i + 1
		}
	}
	return start, len(text), n == line
}

// offset asserts that the position is in the text and that the message quotes the line
// and marks the column, and gives the index it stands for.
func (p place) offset(text string) int {
	start, end, ok := lineBounds(text, p.line)
	sym.Assert(p.line >= 1 && ok, "line-in-text")
	sym.Assert(p.col >= 1 && p.col <= end-start+1, "column-in-line")
	line := text[start:end]
	quoted := "> | " + strings.Repeat(" ", 0)
	caret := ""
	for i := 0; i < len(line); i++ {
		w := 1
		if line[i] == '\t' {
			w = 4
			quoted += "    "
		} else {
			quoted += line[i : i+1]
		}
		if i < p.col-1 {
			caret += strings.Repeat(" ", w)
		}
	}
	want := " " + quoted + "\n   | " + caret + "^^^^"
	alt := " " + quoted + "\r   | " + caret + "^^^^" // after a line that ends with \r alone
	ends := false
	for _, w := range []string{want, alt} {
		if len(p.quote) >= len(w) {
			ends = sym.Or(ends, sym.EqStr(p.quote[len(p.quote)-len(w):], w))
		}
	}
	sym.Assert(ends, "line-quoted")
	return start + p.col - 1
}

// texts the grammar rejects; the mark # stands for white space that is required.
var wrongTexts = []string{
	"x",
	"SELECT",
	"SELECT#Id#FRM#A",
	"SELECT#Id,#!#FROM#A",
	"SELECT#Id#FROM#A#WHERE#",
	"SELECT#Id#FROM#A#WHERE#X#=#",
	"SELECT#Id#FROM#A#WHERE#X#=#1#AND",
	"SELECT#Id#FROM#A#WHERE#(X#=#1",
	"SELECT#Id#FROM#A#WHERE#X#=#'a",
	"SELECT#Id#FROM#A#WHERE#X#IN#(1,",
	"SELECT#Id#FROM#A#WHERE#X#IN#(SELECT#Id#FROM",
	"SELECT#Id#FROM#A#WHERE#X#=#99999999999999999999",
	"SELECT#Id#FROM#A#WHERE#X#=#2021-02-30",
	"SELECT#Id,#(SELECT#FROM#B)#FROM#A",
	"SELECT#Id,#(SELECT#Id#FROM#B#WHERE#X#=)#FROM#A",
	"SELECT#Id#FROM#A#GROUP#Id",
	"SELECT#Id#FROM#A#ORDER#BY#1",
	"SELECT#Id#FROM#A#LIMIT#x",
	"SELECT#Id#FROM#A#FOR#X",
	"SELECT#Id#FROM#A#LIMIT#1#;",
	"SELECT#Fn(Id,#FROM#A",
	"SELECT#Id#FROM#A#/*#x",
}

// C19_shift: 22 rejected texts, one broken in each construct, after up to three line breaks
// of any kind: the line is that many more, the column the same.
func C19_shift() {
	t := strings.ReplaceAll(wrongTexts[sym.Choice("text", len(wrongTexts))], "#", " ")
	base := rejectedAt(t)
	base.offset(t)
	sym.Assert(base.line == 1, "first-line")
	n := 1 + sym.Choice("breaks", 3)
	pre := ""
	prev := ""
	for i := 0; i < n; i++ {
		b := "\n"
		if i < 2 || sym.Tier() > 0 {
			b = sym.Pick("break", "\n", "\r\n", "\r")
		}
		if prev == "\r" && b == "\n" {
			b = "\r\n" // else the two would be one line break
		}
		pre += b
		prev = b
	}
	p := rejectedAt(pre + t)
	p.offset(pre + t)
	sym.Assert(p.line == base.line+n, "line-moves")
	sym.Assert(p.col == base.col, "column-stays")
}

// C19_indent: the same texts after up to three blanks or tabs and a comment: the column
// moves by as much.
func C19_indent() {
	t := strings.ReplaceAll(wrongTexts[sym.Choice("text", len(wrongTexts))], "#", " ")
	base := rejectedAt(t)
	pre := sym.Str("blank", 1, " \t")
	switch sym.Choice("more", 3) {
	case 1:
		pre += sym.Str("blank", 2, " \t")
	case 2:
		pre += "/*" + sym.Str("comment", 1, letters+" ") + "*/"
	}
	p := rejectedAt(pre + t)
	p.offset(pre + t)
	sym.Assert(p.line == 1 && p.col == base.col+len(pre), "column-moves")
}

// C19_layout: the same texts with every blank written as blank, tab, \n or \r (two of them
// any of the four, the others blanks): parsing stops at the same place.
func C19_layout() {
	w := wrongTexts[sym.Choice("text", len(wrongTexts))]
	plain := strings.ReplaceAll(w, "#", " ")
	base := rejectedAt(plain).offset(plain)
	n := strings.Count(w, "#")
	i, j := -1, -1
	if n > 0 {
		i = sym.Choice("first", n)
		j = i + sym.Choice("second", n-i)
	}
	text := ""
	k := 0
	for x := 0; x < len(w); x++ {
		if w[x] != '#' {
			text += w[x : x+1]
			continue
		}
		if k == i || k == j {
			text += sym.Str("blank", 1, " \t\n\r")
		} else {
			text += " "
		}
		k++
	}
	p := rejectedAt(text)
	sym.Assert(p.offset(text) == base, "same-place")
}

// clauseStarts gives, for each token of a text, the token with which its clause begins.
func clauseStarts(toks []string) []int {
	r := make([]int, len(toks))
	depth, start := 0, 0
	for i, t := range toks {
		switch t {
		case "(":
			depth++
		case ")":
			depth--
		case "FROM", "WHERE", "GROUP", "HAVING", "ORDER", "LIMIT", "OFFSET", "FOR":
			if depth == 0 {
				start = i
			}
		}
		r[i] = start
	}
	return r
}

// C19_illegal: nineteen texts that use every construct, with a character
// that is no part of any token, any of 16, before any token: the text is rejected, and the
// place is not after the character and not before the clause it stands in.
func C19_illegal() {
	all := append(append([]string{}, shortCorpus...), corpus...)
	p := pieces(all[sym.Choice("text", len(all))])
	i := sym.Choice("place", len(p)+1)
	starts := clauseStarts(p)
	text, at, low := "", -1, -1
	for k := 0; k <= len(p); k++ {
		if k == i {
			at = len(text)
			text += sym.Str("illegal", 1, "@#%&?;[]{}|^~`\x7f\x01") + " "
			c := len(p) - 1
			if k < len(p) {
				c = k
				if starts[k] == k && k > 0 {
					c = k - 1 // before the first token of a clause: still in the clause before
				}
			}
			c = starts[c]
			low = 0
			for _, t := range p[:c] {
				low += len(t) + 1
			}
		}
		if k < len(p) {
			text += p[k] + " "
		}
	}
	pos := rejectedAt(text).offset(text)
	sym.Assert(pos <= at, "not-after-the-character")
	sym.Assert(pos >= low, "not-before-the-clause")
}

// C19_cut: the same texts cut after any token: when that is rejected for its syntax the
// place is in the text and not before the clause of the last token.
func C19_cut() {
	all := append(append([]string{}, shortCorpus...), corpus...)
	p := pieces(all[sym.Choice("text", len(all))])
	i := sym.Choice("tokens", len(p))
	sep := sym.Pick("between", " ", "\n", "\r\n\t")
	low := 0
	if i > 0 {
		for _, t := range p[:clauseStarts(p)[i-1]] {
			low += len(t) + len(sep)
		}
	}
	text := strings.Join(p[:i], sep)
	q, err := parse(text)
	sym.Assert((q == nil) == (err != nil), "query-or-error")
	if err == nil {
		sym.Reach("accepted")
		return
	}
	pl, ok := placeOf(err.Error())
	if !ok {
		sym.Reach("rejected-by-rules")
		return
	}
	sym.Assert(pl.offset(text) >= low, "not-before-the-clause")
}
