package props

import "soqlverif/sym"

func caseOf(s string, vary bool) string {
	if vary {
		return sym.Case(s)
	}
	return s
}

// C07_corpus: for each of the corpus texts every letter of every keyword, name, alias,
// function, parameter and date name is independently in either case; the plan has to be
// that of the usual spelling, names up to case.
func C07_corpus() {
	t := corpus[sym.Choice("text", len(corpus))]
	q, err := parse(plainText(t))
	sym.Assert(err == nil, "accepted")
	p := planOf(q)
	q2, err2 := parse(render(t, " ", "", true))
	sym.Assert(err2 == nil, "accepted-in-other-case")
	samePlanFold(p, planOf(q2), "plan")
	sym.Reach("compared")
}

// C07_rejected: the texts rejected by a rule are rejected in every letter case.
func C07_rejected() {
	t := badCorpus[sym.Choice("text", len(badCorpus))]
	mustFail(render(t, " ", "", true))
	sym.Reach("rejected")
}
