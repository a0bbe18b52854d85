package props

// Query texts that between them use every construct of the grammar. Marks: `~` a place
// where white space is required, `^` one where it is optional; letters inside '...' and
// between ` marks keep their case when the case of names and keywords is varied.
var corpus = []string{
	"^SELECT~Id^,^Name~FROM~Contact^",
	"^SELECT~Id^,^c^.^Name~nm^,^c^.^Account^.^Name~acn~FROM~Contact~c^,^c^.^Account~a~WHERE~a^.^City^=^'x--y/*z*/'~AND~NOT^(^nm2^>=^-12~OR~Name~LIKE~'a%'^)^",
	"^SELECT~COUNT^(^Id^)~cnt^,^Name~n~FROM~Contact~GROUP~BY~n~HAVING~COUNT^(^Id^)^>^3~AND~NOT~MAX^(^Amount^)^<^1.5~ORDER~BY~n~DESC~NULLS~LAST^",
	"^SELECT~Id^,^(^SELECT~Id^,^Subject~FROM~Cases~cs~WHERE~cs^.^Status^!=^:st~LIMIT~3^)~FROM~Account~acc~WHERE~Id~IN^(^SELECT~AccountId~FROM~Contact~WHERE~Owner^.^Name^=^'Bob'^)~ORDER~BY~Name^",
	"^SELECT~Id~FROM~Opp~WHERE~CloseDate^=^LAST_N_DAYS:30~AND~Created^<^2021-02-03`T`04:05:06`Z`~OR~X~NOT~IN^(^1^,^2^,^null^,^:p^,^TODAY^)~OFFSET~:off~LIMIT~10~FOR~VIEW^,^REFERENCE^",
	"^SELECT~toLabel^(^Status^)~s^,^FORMAT^(^convertCurrency^(^Amount^)^)~amt~FROM~Opp~WHERE~Tags~INCLUDES^(^'a;b'^,^'c'^)~AND~Tags2~EXCLUDES^(^'d'^)~AND~Flag^=^TRUE~AND~Gone^=^null~FOR~UPDATE~TRACKING^,^VIEWSTAT^",
	"^SELECT~FIELDS^(^ALL^)~FROM~Task~LIMIT~200~OFFSET~5^",
	"^SELECT~Id^,^\"Quoted Name\"~q~FROM~Thing~t^,^t^.^Par~p^,^p^.^Gran~g~WHERE~g^.^Q^=^1~AND~(^p^.^R^=^2~OR~t^.^S^=^3^)~AND~g^.^Z^=^`0x1F`^",
	"^SELECT~Id^,^(^SELECT~Id^,^(^SELECT~Id~FROM~Leafs~lf~WHERE~lf^.^V^=^1^)~FROM~Kids~k~WHERE~k^.^W^=^acc^.^Name^)~FROM~Account~acc^",
	"^SELECT~COUNT^(^)~FROM~A~WHERE~LOWER^(^Name^)^=^'q'~AND~B~NOT~LIKE~'\\u0041\\'b'~AND~T^=^10:20:30.5~AND~D^>^2020-02-29^",
	"^SELECT~Owner^.^Name~onm^,^COUNT_DISTINCT^(^Id^)~FROM~A~GROUP~BY~Owner^.^Name^,^Kind~HAVING~COUNT^(^)^>^1~OR~MIN^(^X^)~IN^(^1^,^2^)~ORDER~BY~Owner^.^Name~ASC~NULLS~FIRST^,^Kind^",
	"^SELECT~Id~FROM~A~WHERE~X~IN^(^SELECT~Y~FROM~B~WHERE~Z^=^1~GROUP~BY~Y~HAVING~COUNT^(^Q^)^>^1~ORDER~BY~Y~LIMIT~1^)~AND~U~NOT~IN^(^SELECT~V~FROM~C^)~AND~F^=^`1.5e3`~ORDER~BY~Id~DESC^",
	"^SELECT~Id^,^Id^,^Name~expr0^,^UPPER^(^Name^)~FROM~A~WHERE~NOT~(^X^=^1~OR~NOT~(^Y^=^2~AND~Z^=^3^)^)~FOR~REFERENCE^",
	"^SELECT~Id~FROM~A~WHERE~F^=^NEXT_N_WEEKS:2~AND~G^=^FALSE~AND~H^=^:PP~AND~I^>^THIS_FISCAL_QUARTER~LIMIT~:lim~OFFSET~:off~FOR~UPDATE^",
	"^SELECT~Id^,^(^SELECT~Account^.^Kids^.^Id^,^Kids^.^Par^.^Name^,^Account^.^Kids^.^Par^.^Nm~FROM~Kids^)^,^Account^.^Owner^.^Name~FROM~Account~WHERE~Owner^.^Age^>^1~AND~Account^.^Owner^.^Role^.^Nm^=^'r'~AND~Owner^.^Role^.^Lvl^=^2~OR~Owner^.^Role^.^Lvl^=^:lv~ORDER~BY~Owner^.^Name^,^Account^.^Owner^.^Age~DESC^",
	"^SELECT~k^.^Id~kid^,^MAX^(^k^.^Amt^)~mx~FROM~Kids~k^,^k^.^Owner~o~WHERE~o^.^Kind^=^'x'~AND~Kids^.^Amt^>^0~GROUP~BY~kid^,^o^.^Kind~HAVING~MAX^(^k^.^Amt^)^>^1~AND~MAX^(^Amt^)^<^9~ORDER~BY~mx^,^kid^",
	"^SELECT~Id~FROM~A~WHERE~X^=^1~AND~(^SELECTED^=^2~OR~NOTE^=^3~OR~IND^=^4^)~AND~LIKED~LIKE~'q'~AND~INX~IN^(^1^)~AND~TRUEX^=^TRUE~AND~FORX^!=^NULLX^",
	"^SELECT~Id^,^F^(^G^(^H^(^Nm^)^)^)~fg~FROM~A~WHERE~X~IN~(^SELECT~Id^,^(^SELECT~Id^,^(^SELECT~Id~FROM~Leafs^)~FROM~Kids~k~WHERE~k^.^V^=^1~AND~W~IN^(^SELECT~Q~FROM~D~WHERE~R~NOT~IN^(^SELECT~S~FROM~E^)^)^)~FROM~B^)~AND~F^(^G^(^H^(^K^(^Ty^)^)^)^)^=^2^",
}

var shortCorpus = []string{
	"^SELECT~c^.^Id~x^,^COUNT^(^Nm^)~FROM~Kids~c~WHERE~c^.^V^>=^-1~AND~NOT~(^W~IN^(^:p^,^'s'^)^)~GROUP~BY~x~ORDER~BY~x~LIMIT~1^",
	"^SELECT~Id^,^(^SELECT~Id~FROM~Ks~WHERE~A^=^TODAY^)~FROM~B~WHERE~C~NOT~IN^(^SELECT~D~FROM~E^)~OFFSET~2~FOR~UPDATE~TRACKING^",
}

// rejected texts (by rules, not by the grammar)
var badCorpus = []string{
	"^SELECT~Id~a^,^Name~A~FROM~Contact^",
	"^SELECT~Id~FROM~A~x^,^x^.^B~y^,^x^.^C~Y^",
	"^SELECT~Name^,^COUNT^(^Id^)~FROM~A^",
	"^SELECT~Name^,^X~FROM~A~GROUP~BY~name^",
	"^SELECT~COUNT^(^Id^)~FROM~A~HAVING~COUNT^(^Id^)^>^1^",
	"^SELECT~Id~FROM~A~GROUP~BY~Id^,^id^",
	"^SELECT~Id~FROM~A~ORDER~BY~Id^,^ID^",
	"^SELECT~COUNT^(^Id^)^,^(^SELECT~Id~FROM~Kids^)~FROM~A^",
	"^SELECT~Id~FROM~A^.^B^",
	"^SELECT~Id~FROM~A~WHERE~Count^(^X^)^=^1^",
	"^SELECT~fields^(^all^)~FROM~A~GROUP~BY~Id^",
	"^SELECT~Id~FROM~A~ORDER~BY~Zz^.^Name^",
}

// plainText is the usual spelling of a corpus text.
func plainText(s string) string { return render(s, " ", "", false) }

func render(s, req, opt string, cases bool) string {
	out := ""
	quoted, fixed := false, false
	run := ""
	flush := func() {
		if run != "" {
			out += caseOf(run, cases)
			run = ""
		}
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '\\' && quoted:
			out += s[i : i+2]
			i++
		case c == '\'':
			flush()
			quoted = !quoted
			out += "'"
		case quoted:
			out += s[i : i+1]
		case c == '`':
			flush()
			fixed = !fixed
		case fixed:
			out += s[i : i+1]
		case c == '~':
			flush()
			out += req
		case c == '^':
			flush()
			out += opt
		default:
			run += s[i : i+1]
		}
	}
	flush()
	return out
}
