package props

import (
	"strings"
	"time"

	"soqlverif/sym"

	. "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// literal parses a literal on the right of a comparison; nil when it is rejected.
func literal(text string) *SoqlFieldInfo {
	q, err := parse("SELECT Id FROM A WHERE X = " + text)
	if err != nil {
		sym.Assert(q == nil, "no-query-with-an-error")
		return nil
	}
	sym.Assert(q != nil && len(q.Where) == 3, "one-comparison")
	return &q.Where[1].Value
}

// accepted parses a literal that has to be accepted, of the given type.
func accepted(text string, typ SoqlFieldInfoType) *SoqlFieldInfo {
	f := literal(text)
	sym.Assert(f != nil, "accepted")
	sym.Assert(f.Type == typ, "type")
	sym.Reach("accepted")
	return f
}

func intOf(f *SoqlFieldInfo) int64 {
	v, ok := f.Value.(int64)
	sym.Assert(ok, "int64")
	return v
}

func strOf(f *SoqlFieldInfo) string {
	v, ok := f.Value.(string)
	sym.Assert(ok, "string")
	return v
}

func timeOf(f *SoqlFieldInfo) time.Time {
	v, ok := f.Value.(time.Time)
	sym.Assert(ok, "time")
	return v
}

// digitsOf is the number a text of digits stands for in a radix up to 36.
func digitsOf(s string, radix int64) int64 {
	r := int64(0)
	for i := 0; i < len(s); i++ {
		if radix > 10 {
			r = r*radix + int64(hexDigit(s[i]))
		} else {
			r = r*radix + int64(s[i]-'0')
		}
	}
	return r
}

func hexDigit(c byte) int {
	v := int(c) - '0'
	v = sym.IteInt(c >= 'a', int(c)-'a'+10, sym.IteInt(c >= 'A', int(c)-'A'+10, v))
	return v
}

// C04_int: decimal integers of 1 to 6, 9, 11, 15 and 18 digits, each digit any, with either sign or none and
// `_` between digits; the value is the one written.
func C04_int() {
	sign := sym.Choice("sign", 3)
	n := []int{1, 2, 3, 4, 5, 6, 9, 11, 15, 18}[sym.Choice("digits", 10)]
	d := sym.Str("d", n, digits)
	if n > 1 {
		sym.Assume(d[0] != '0')
	}
	text := d
	if n > 2 {
		switch sym.Choice("separator", 3) {
		case 1:
			text = d[:1] + "_" + d[1:]
		case 2:
			text = d[:n-1] + "__" + d[n-1:]
		}
	}
	v := digitsOf(d, 10)
	switch sign {
	case 1:
		text = "+" + text
	case 2:
		text, v = "-"+text, -v
	}
	sym.Assert(intOf(accepted(text, SoqlFieldInfo_Literal_Int)) == v, "value")
}

// C04_int_limits: integers of 19 and 20 digits around the limits of 64 bits, the last two
// digits any; accepted with the exact value when it fits, rejected when it does not.
func C04_int_limits() {
	neg := sym.Choice("sign", 2) == 1
	head := sym.Pick("head", "92233720368547758", "92233720368547757", "92233720368547759", "99999999999999999", "922337203685477580", "184467440737095517")
	d := sym.Str("d", 2, digits)
	text := head + d
	last := int(digitsOf(d, 10))
	fits := false
	switch head {
	case "92233720368547757":
		fits = true
	case "92233720368547758":
		if neg {
			fits = last <= 8
		} else {
			fits = last <= 7
		}
	}
	if neg {
		text = "-" + text
	}
	f := literal(text)
	if f == nil {
		sym.Assert(sym.Not(fits), "accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(fits, "rejected")
	sym.Reach("accepted")
	sym.Assert(f.Type == SoqlFieldInfo_Literal_Int, "type")
	v := digitsOf(head, 10)*100 + int64(last)
	if neg {
		v = -v
	}
	sym.Assert(intOf(f) == v, "value")
}

// C04_radix: binary, octal and hexadecimal integers of 1 to 4 digits (8 in the thorough
// tier), prefix and digits in either case, `_` between digits.
func C04_radix() {
	radix := sym.Choice("radix", 3)
	pre := []string{"0b", "0o", "0x"}[radix]
	set := []string{"01", "01234567", "0123456789abcdefABCDEF"}[radix]
	max := 4
	if sym.Tier() > 0 {
		max = 8
	}
	n := 1 + sym.Choice("digits", max)
	d := sym.Str("d", n, set)
	text := d
	if n > 1 && sym.Choice("separator", 2) == 1 {
		text = d[:1] + "_" + d[1:]
	}
	f := accepted(sym.Case(pre)+text, SoqlFieldInfo_Literal_Int)
	sym.Assert(intOf(f) == digitsOf(d, []int64{2, 8, 16}[radix]), "value")
}

// C04_radix_limits: the same around 64 bits, the first digit any.
func C04_radix_limits() {
	radix := sym.Choice("radix", 3)
	pre := []string{"0b", "0o", "0x"}[radix]
	set := []string{"01", "01234567", "0123456789abcdefABCDEF"}[radix]
	n := []int{63, 20, 15}[radix]
	h := sym.Str("h", 1, set)
	d := h + strings.Repeat(set[1:2], n)
	f := literal(pre + d)
	fits := hexDigit(h[0]) <= []int{0, 7, 7}[radix]
	if f == nil {
		sym.Assert(sym.Not(fits), "accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(fits, "rejected")
	sym.Reach("accepted")
	sym.Assert(intOf(f) == digitsOf(d, []int64{2, 8, 16}[radix]), "value")
}

// C04_float: floats `d.d`, `.d`, `d.`, `dd.dd`, `d.dde[+-]d` and `ded` with every choice
// of the digits, with either sign or none; the value is the nearest float64.
func C04_float() {
	dig := func() (string, float64) {
		c := sym.Choice("digit", 10)
		return digits[c : c+1], float64(c)
	}
	sign := sym.Choice("sign", 3)
	text, v := "", 0.0
	switch sym.Choice("form", 5) {
	case 0:
		a, x := dig()
		b, y := dig()
		text, v = a+"."+b, (x*10+y)/10
	case 1:
		a, x := dig()
		text, v = "."+a, x/10
	case 2:
		a, x := dig()
		b, y := dig()
		text, v = "1"+a+".0"+b+"5", (100000+x*10000+y*10+5)/1000
		text = strings.Replace(text, "1"+a, "1_"+a, 1)
		v = (10000 + x*1000 + y*10 + 5) / 1000
	case 3:
		a, x := dig()
		b, y := dig()
		e := sym.Pick("e", "e2", "E+2", "e-2")
		text, v = a+"."+b+"5"+e, (x*100+y*10+5)*1
		if e == "e-2" {
			v = (x*100 + y*10 + 5) / 10000
		}
	case 4:
		a, x := dig()
		e := sym.Pick("e", "e0", "e1", "E-1")
		text = a + e
		switch e {
		case "e0":
			v = x
		case "e1":
			v = x * 10
		default:
			v = x / 10
		}
	}
	switch sign {
	case 1:
		text = "+" + text
	case 2:
		text, v = "-"+text, -v
	}
	f := accepted(text, SoqlFieldInfo_Literal_Float)
	got, ok := f.Value.(float64)
	sym.Assert(ok, "float64")
	sym.Assert(got == v, "value")
}

// C04_float_limits: floats that no float64 can hold are rejected, special names keep their
// meaning in any letter case.
func C04_float_limits() {
	switch sym.Choice("case", 6) {
	case 0:
		sym.Assert(literal("1e309") == nil, "rejected")
	case 1:
		sym.Assert(literal("-1"+strings.Repeat("0", 309)+".5") == nil, "rejected")
	case 2:
		v, _ := accepted(sym.Pick("sign", "", "+")+sym.Case("Infinity"), SoqlFieldInfo_Literal_Float).Value.(float64)
		sym.Assert(v > 1e308 && v*0.5 == v, "infinity")
	case 3:
		v, _ := accepted(sym.Case("-Infinity"), SoqlFieldInfo_Literal_Float).Value.(float64)
		sym.Assert(v < -1e308 && v*0.5 == v, "infinity")
	case 4:
		v, _ := accepted(sym.Case("NaN"), SoqlFieldInfo_Literal_Float).Value.(float64)
		sym.Assert(v != v, "nan")
	case 5:
		v, _ := accepted("1.7976931348623157e308", SoqlFieldInfo_Literal_Float).Value.(float64)
		sym.Assert(v == 1.7976931348623157e308, "value")
	}
}

// C04_words: TRUE, FALSE and NULL in any letter case.
func C04_words() {
	switch sym.Choice("word", 3) {
	case 0:
		v, ok := accepted(sym.Case("true"), SoqlFieldInfo_Literal_Bool).Value.(bool)
		sym.Assert(ok && v, "value")
	case 1:
		v, ok := accepted(sym.Case("false"), SoqlFieldInfo_Literal_Bool).Value.(bool)
		sym.Assert(ok && !v, "value")
	case 2:
		sym.Assert(accepted(sym.Case("null"), SoqlFieldInfo_Literal_Null).Value == nil, "value")
	}
}

// C04_string: strings of 0 to 3 bytes, each any ASCII byte but the quote and the backslash.
func C04_string() {
	n := sym.Choice("n", 4)
	s := ""
	for i := 0; i < n; i++ {
		c := sym.ByteRange("c", 0, 127)
		sym.Assume(sym.And(c != '\'', c != '\\'))
		s += string([]byte{c})
	}
	assertStr(strOf(accepted("'"+s+"'", SoqlFieldInfo_Literal_String)), s, "value")
}

// C04_string_utf8: strings with one character of 2, 3 or 4 bytes, any bytes that form one,
// between ASCII letters.
func C04_string_utf8() {
	cont := func() byte { return sym.ByteRange("c", 0x80, 0xbf) }
	var b []byte
	switch sym.Choice("bytes", 5) {
	case 0:
		b = []byte{sym.ByteRange("l", 0xc2, 0xdf), cont()}
	case 1:
		b = []byte{0xe0, sym.ByteRange("c", 0xa0, 0xbf), cont()}
	case 2:
		b = []byte{sym.ByteRange("l", 0xe1, 0xec), cont(), cont()}
	case 3:
		b = []byte{sym.ByteRange("l", 0xee, 0xef), cont(), cont()}
	case 4:
		b = []byte{sym.ByteRange("l", 0xf1, 0xf3), cont(), cont(), cont()}
	}
	s := "a" + string(b) + "z"
	assertStr(strOf(accepted("'"+s+"'", SoqlFieldInfo_Literal_String)), s, "value")
}

// C04_escape: a backslash followed by any ASCII byte, between other characters.
func C04_escape() {
	c := sym.ByteRange("c", 0, 127)
	for _, x := range "uUxX01234567'" {
		sym.Assume(c != byte(x)) // escapes with digits: C04_escape_digits; the quote: below
	}
	f := literal("'a\\" + string([]byte{c}) + "b'")
	in := "\\\"`nNrRvVtTbBfF_%"
	out := []string{"\\", "\"", "`", "\n", "\n", "\r", "\r", "\v", "\v", "\t", "\t", "\b", "\b", "\f", "\f", "\\_", "\\%"}
	for i := range in {
		if c == in[i] {
			sym.Assert(f != nil, "accepted")
			sym.Assert(f.Type == SoqlFieldInfo_Literal_String, "type")
			assertStr(strOf(f), "a"+out[i]+"b", "value")
			sym.Reach("known")
			return
		}
	}
	sym.Assert(f == nil, "rejected")
	sym.Reach("unknown")
}

// utf8Of is the UTF-8 form of a code point below 0x10000 that is not a surrogate.
func utf8Of(v int) string {
	switch {
	case v < 0x80:
		return string([]byte{byte(v)})
	case v < 0x800:
		return string([]byte{byte(0xc0 + v/64), byte(0x80 + v%64)})
	case v < 0x10000:
		return string([]byte{byte(0xe0 + v/4096), byte(0x80 + v/64%64), byte(0x80 + v%64)})
	}
	return string([]byte{byte(0xf0 + v/262144), byte(0x80 + v/4096%64), byte(0x80 + v/64%64), byte(0x80 + v%64)})
}

// C04_escape_digits: \uHHHH, \xHH, \OOO with any digits (of \uHHHH the first two from
// ten pairs around the limits in the quick tier), \u{H...} of 1 to 6 digits of which the
// last two are any; the escaped quote; code points that do not exist are rejected.
func C04_escape_digits() {
	const hex = "0123456789abcdefABCDEF"
	d, text := "", ""
	v := 0
	switch sym.Choice("kind", 5) {
	case 0:
		if sym.Tier() > 0 {
			d = sym.Str("d", 4, hex)
		} else {
			d = sym.Pick("head", "00", "01", "07", "08", "d7", "D8", "dF", "e0", "FF", "2a") + sym.Str("d", 2, hex)
		}
		text, v = "u"+d, int(digitsOf(d, 16))
	case 1:
		d = sym.Str("d", 2, hex)
		text, v = "x"+d, int(digitsOf(d, 16))
	case 2:
		d = sym.Str("d", 3, "01234567")
		text, v = d, int(digitsOf(d, 8))
	case 3:
		h := sym.Pick("head", "", "0", "1", "7", "8", "10", "07", "08", "d7", "D8", "DF", "e0", "100", "fFf", "10FF", "1100", "0000", "FFFF")
		n := 2
		if h == "" {
			n = 1 + sym.Choice("digits", 2)
		}
		d = h + sym.Str("d", n, hex)
		text, v = "u{"+d+"}", int(digitsOf(d, 16))
	case 4:
		text, v = "'", '\''
	}
	f := literal("'a\\" + text + "b'")
	if v >= 0x110000 || v >= 0xd800 && v < 0xe000 {
		sym.Assert(f == nil, "rejected")
		sym.Reach("no-such-character")
		return
	}
	sym.Assert(f != nil, "accepted")
	assertStr(strOf(f), "a"+utf8Of(v)+"b", "value")
	sym.Reach("value")
}

var monthDays = []int64{0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365}

// dayNumber is the number of days from 1970-01-01 to a date of the proleptic calendar.
func dayNumber(y, m, d int64) int64 {
	leap := y%4 == 0 && (y%100 != 0 || y%400 == 0)
	p := y - 1
	n := p*365 + p/4 - p/100 + p/400 + 1 // +1: year 0 is a leap year
	if y == 0 {
		n = -365 + 0
	}
	n += monthDays[m-1] + d - 1 - 719163 + 0
	if leap && m > 2 {
		n++
	}
	return n
}

func validDay(y, m, d int64) bool {
	if m < 1 || m > 12 || d < 1 {
		return false
	}
	n := monthDays[m] - monthDays[m-1]
	if m == 2 && y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		n++
	}
	return d <= n
}

var years = []string{"2023", "2024", "1900", "2000", "1969", "0001", "9999", "1582", "2100"}
var yearValues = []int64{2023, 2024, 1900, 2000, 1969, 1, 9999, 1582, 2100}

// C04_date: dates of nine years (leap and not, both ends), with any two digits for the
// month and for the day; accepted exactly when the day exists, with its value.
func C04_date() {
	k := sym.Choice("year", len(years))
	m, d := sym.Str("m", 2, digits), sym.Str("d", 2, digits)
	f := literal(years[k] + "-" + m + "-" + d)
	mv, dv := digitsOf(m, 10), digitsOf(d, 10)
	if f == nil {
		sym.Assert(!validDay(yearValues[k], mv, dv), "accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(validDay(yearValues[k], mv, dv), "rejected")
	sym.Assert(f.Type == SoqlFieldInfo_Literal_Date, "type")
	t := timeOf(f)
	sym.Assert(t.Unix() == dayNumber(yearValues[k], mv, dv)*86400, "value")
	sym.Assert(t.Nanosecond() == 0, "no-fraction")
	sym.Reach("accepted")
}

// clock writes HH:MM or HH:MM:SS with any digits; valid tells whether the clock shows it.
func clock() (text string, seconds int64, valid bool) {
	h, m := sym.Str("h", 2, digits), sym.Str("m", 2, digits)
	hv, mv := digitsOf(h, 10), digitsOf(m, 10)
	text, seconds, valid = h+":"+m, hv*3600+mv*60, sym.And(hv < 24, mv < 60)
	if sym.Choice("seconds", 2) == 1 {
		s := sym.Str("s", 2, digits)
		sv := digitsOf(s, 10)
		text, seconds, valid = text+":"+s, seconds+sv, sym.And(valid, sv < 60)
	}
	return
}

// C04_datetime_clock: date-times in UTC with any digits for hour, minute and second;
// accepted exactly when the clock shows it.
func C04_datetime_clock() {
	k := sym.Choice("day", 3)
	day := []string{"2024-02-29", "1969-12-31", "0001-01-01"}[k]
	base := []int64{dayNumber(2024, 2, 29), -1, dayNumber(1, 1, 1)}[k]
	c, sec, valid := clock()
	f := literal(day + "T" + c + "Z")
	if f == nil {
		sym.Assert(sym.Not(valid), "accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(valid, "rejected")
	sym.Assert(f.Type == SoqlFieldInfo_Literal_DateTime, "type")
	t := timeOf(f)
	sym.Assert(t.Unix() == base*86400+sec, "value")
	sym.Assert(t.Nanosecond() == 0, "no-fraction")
	sym.Reach("accepted")
}

// C04_datetime_fraction: date-times and times with a fraction of 1 to 9 digits, every digit
// any.
func C04_datetime_fraction() {
	n := 1 + sym.Choice("digits", 9)
	d := sym.Str("d", n, digits)
	ns := digitsOf(d, 10)
	for i := n; i < 9; i++ {
		ns *= 10
	}
	if sym.Choice("kind", 2) == 0 {
		z := sym.Pick("zone", "Z", "+00:00", "-05:30")
		t := timeOf(accepted("2024-02-29T23:59:58."+d+z, SoqlFieldInfo_Literal_DateTime))
		u := (dayNumber(2024, 2, 29)+1)*86400 - 2
		if z == "-05:30" {
			u += 5*3600 + 1800
		}
		sym.Assert(t.Unix() == u, "value")
		sym.Assert(int64(t.Nanosecond()) == ns, "fraction")
		return
	}
	t := timeOf(accepted("23:59:58."+d, SoqlFieldInfo_Literal_Time))
	sym.Assert(t.Unix() == 86400-2, "value")
	sym.Assert(int64(t.Nanosecond()) == ns, "fraction")
}

// C04_datetime_offset: date-times with any four digits as the offset, of either sign; every
// offset below a day is accepted, and an accepted one shifts the value exactly.
func C04_datetime_offset() {
	k := sym.Choice("day", 3)
	day := []string{"2024-02-29T00:30", "1970-01-01T00:00:00", "9999-12-31T23:59:59"}[k]
	base := []int64{dayNumber(2024, 2, 29)*86400 + 1800, 0, (dayNumber(9999, 12, 31)+1)*86400 - 1}[k]
	sign := sym.Pick("sign", "+", "-")
	h, m := sym.Str("h", 2, digits), sym.Str("m", 2, digits)
	off := digitsOf(h, 10)*3600 + digitsOf(m, 10)*60
	if sign == "-" {
		off = -off
	}
	f := literal(day + sign + h + ":" + m)
	if f == nil {
		sym.Assert(sym.Not(sym.And(digitsOf(h, 10) < 24, digitsOf(m, 10) < 60)), "accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(f.Type == SoqlFieldInfo_Literal_DateTime, "type")
	t := timeOf(f)
	sym.Assert(t.Unix() == base-off, "value")
	sym.Assert(t.Nanosecond() == 0, "no-fraction")
	sym.Reach("accepted")
}

// C04_datetime_day: date-times of the years of C04_date, with any two digits for the month
// and for the day.
func C04_datetime_day() {
	k := sym.Choice("year", len(years))
	m, d := sym.Str("m", 2, digits), sym.Str("d", 2, digits)
	f := literal(years[k] + "-" + m + "-" + d + "T12:34:56+09:00")
	mv, dv := digitsOf(m, 10), digitsOf(d, 10)
	if f == nil {
		sym.Assert(!validDay(yearValues[k], mv, dv), "accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(validDay(yearValues[k], mv, dv), "rejected")
	sym.Assert(f.Type == SoqlFieldInfo_Literal_DateTime, "type")
	sym.Assert(timeOf(f).Unix() == dayNumber(yearValues[k], mv, dv)*86400+12*3600+34*60+56-9*3600, "value")
	sym.Reach("accepted")
}

// C04_time: times of day with any digits for hour, minute and second; accepted exactly when
// the clock shows it.
func C04_time() {
	c, sec, valid := clock()
	f := literal(c)
	if f == nil {
		sym.Assert(sym.Not(valid), "accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(valid, "rejected")
	sym.Assert(f.Type == SoqlFieldInfo_Literal_Time, "type")
	t := timeOf(f)
	sym.Assert(t.Unix() == sec, "value")
	sym.Assert(t.Nanosecond() == 0, "no-fraction")
	sym.Reach("accepted")
}

var dateNames = []string{
	"YESTERDAY", "TODAY", "TOMORROW", "LAST_WEEK", "THIS_WEEK", "NEXT_WEEK", "LAST_MONTH", "THIS_MONTH", "NEXT_MONTH",
	"LAST_90_DAYS", "NEXT_90_DAYS", "THIS_QUARTER", "LAST_QUARTER", "NEXT_QUARTER", "THIS_YEAR", "LAST_YEAR", "NEXT_YEAR",
	"THIS_FISCAL_QUARTER", "LAST_FISCAL_QUARTER", "NEXT_FISCAL_QUARTER", "THIS_FISCAL_YEAR", "LAST_FISCAL_YEAR", "NEXT_FISCAL_YEAR",
}

var dateNamesN = []string{
	"LAST_N_DAYS", "NEXT_N_DAYS", "LAST_N_WEEKS", "NEXT_N_WEEKS", "LAST_N_MONTHS", "NEXT_N_MONTHS", "LAST_N_QUARTERS", "NEXT_N_QUARTERS",
	"LAST_N_YEARS", "NEXT_N_YEARS", "LAST_N_FISCAL_QUARTERS", "NEXT_N_FISCAL_QUARTERS", "LAST_N_FISCAL_YEARS", "NEXT_N_FISCAL_YEARS",
}

// C04_date_name: the 23 relative date names without a count, in any letter case.
func C04_date_name() {
	w := dateNames[sym.Choice("name", len(dateNames))]
	v, ok := accepted(sym.Case(w), SoqlFieldInfo_DateTimeLiteralName).Value.(SoqlDateTimeLiteralName)
	sym.Assert(ok, "date-name")
	assertStr(v.Name, w, "name")
	sym.Assert(v.N == 0, "count")
}

// C04_date_name_count: the 14 relative date names with a count of 1 to 4, 6, 8, 10, 11 and 18 digits, any,
// the name in any letter case.
func C04_date_name_count() {
	w := dateNamesN[sym.Choice("name", len(dateNamesN))]
	n := []int{1, 2, 3, 4, 6, 8, 10, 11, 18}[sym.Choice("digits", 9)]
	d := sym.Str("d", n, digits)
	if n > 1 {
		sym.Assume(d[0] != '0')
	}
	v, ok := accepted(sym.Case(w)+":"+d, SoqlFieldInfo_DateTimeLiteralName).Value.(SoqlDateTimeLiteralName)
	sym.Assert(ok, "date-name")
	assertStr(v.Name, w, "name")
	sym.Assert(int64(v.N) == digitsOf(d, 10), "count")
}

// valueOf is the value of a literal; the name of a parameter is kept in Name.
func valueOf(f *SoqlFieldInfo) interface{} {
	if f.Type == SoqlFieldInfo_ParameterizedValue {
		sym.Assert(len(f.Name) == 1, "parameter-name")
		return f.Name[0]
	}
	return f.Value
}

// C04_parameter: bind parameters with names of 1 to 3 characters, any letter, digit, `$`
// or `_`.
func C04_parameter() {
	name := sym.Str("p", 1, letters+"$_")
	if n := sym.Choice("more", 3); n > 0 {
		name += sym.Str("q", n, letters+digits+"$_")
	}
	v, ok := valueOf(accepted(sym.Pick("space", ":", ": ")+name, SoqlFieldInfo_ParameterizedValue)).(string)
	sym.Assert(ok, "parameter")
	assertStr(v, name, "name")
}

// item writes one literal of every type with a symbolic part and returns the check of its value.
func item() (string, SoqlFieldInfoType, func(v interface{})) {
	switch sym.Choice("item", 10) {
	case 0:
		d := sym.Str("d", 2, "123456789")
		return d, SoqlFieldInfo_Literal_Int, func(v interface{}) {
			x, ok := v.(int64)
			sym.Assert(ok && x == digitsOf(d, 10), "value")
		}
	case 1:
		return "-2.5", SoqlFieldInfo_Literal_Float, func(v interface{}) {
			x, ok := v.(float64)
			sym.Assert(ok && x == -2.5, "value")
		}
	case 2:
		s := sym.Str("s", 2, letters+" ,():")
		return "'" + s + "'", SoqlFieldInfo_Literal_String, func(v interface{}) {
			x, ok := v.(string)
			sym.Assert(ok, "value")
			assertStr(x, s, "value")
		}
	case 3:
		b := sym.Choice("bool", 2)
		return []string{"false", "true"}[b], SoqlFieldInfo_Literal_Bool, func(v interface{}) {
			x, ok := v.(bool)
			sym.Assert(ok && x == (b == 1), "value")
		}
	case 4:
		return "null", SoqlFieldInfo_Literal_Null, func(v interface{}) { sym.Assert(v == nil, "value") }
	case 5:
		d := sym.Str("d", 1, "123456789")
		return "2023-05-0" + d, SoqlFieldInfo_Literal_Date, func(v interface{}) {
			x, ok := v.(time.Time)
			sym.Assert(ok && x.Unix() == (dayNumber(2023, 5, 1)-1+digitsOf(d, 10))*86400, "value")
		}
	case 6:
		d := sym.Str("d", 1, digits)
		return "2023-05-01T10:00:0" + d + "-01:00", SoqlFieldInfo_Literal_DateTime, func(v interface{}) {
			x, ok := v.(time.Time)
			sym.Assert(ok && x.Unix() == dayNumber(2023, 5, 1)*86400+11*3600+digitsOf(d, 10), "value")
		}
	case 7:
		d := sym.Str("d", 1, digits)
		return "10:0" + d, SoqlFieldInfo_Literal_Time, func(v interface{}) {
			x, ok := v.(time.Time)
			sym.Assert(ok && x.Unix() == 36000+60*digitsOf(d, 10), "value")
		}
	case 8:
		d := sym.Str("d", 1, "123456789")
		return "LAST_N_WEEKS:" + d, SoqlFieldInfo_DateTimeLiteralName, func(v interface{}) {
			x, ok := v.(SoqlDateTimeLiteralName)
			sym.Assert(ok && x.Name == "LAST_N_WEEKS" && int64(x.N) == digitsOf(d, 10), "value")
		}
	}
	s := sym.Str("s", 2, letters)
	return ":" + s, SoqlFieldInfo_ParameterizedValue, func(v interface{}) {
		x, ok := v.(string)
		sym.Assert(ok, "value")
		assertStr(x, s, "value")
	}
}

func checkList(f *SoqlFieldInfo, n int, typ []SoqlFieldInfoType, val []func(v interface{})) {
	sym.Assert(f.Type == SoqlFieldInfo_Literal_List, "list")
	l, ok := f.Value.([]SoqlListItem)
	sym.Assert(ok && len(l) == n, "length")
	for i := range l {
		sym.Assert(l[i].Type == typ[i], "item-type")
		val[i](l[i].Value)
	}
}

// C04_list: lists of 1 or 2 items (3 in the thorough tier) of any of the ten types of
// literals, each with symbolic contents, with any of the four list operators.
func C04_list() {
	max := 2
	if sym.Tier() > 0 {
		max = 3
	}
	n := 1 + sym.Choice("n", max)
	text := ""
	var typ []SoqlFieldInfoType
	var val []func(v interface{})
	for i := 0; i < n; i++ {
		s, t, v := item()
		if i > 0 {
			text += ", "
		}
		text, typ, val = text+s, append(typ, t), append(val, v)
	}
	q := mustParse("SELECT Id FROM A WHERE X " + sym.Pick("op", "IN", "NOT IN", "INCLUDES", "EXCLUDES") + " (" + text + ")")
	sym.Assert(len(q.Where) == 3, "one-comparison")
	checkList(&q.Where[1].Value, n, typ, val)
}

// C04_positions: a literal of any of the ten types in WHERE under NOT, in HAVING, on a
// function, as the second of two comparisons, in a sub-query of SELECT and in one of WHERE,
// and as the argument of a function in SELECT (numbers, strings, dates and times only).
func C04_positions() {
	s, typ, val := item()
	var f *SoqlFieldInfo
	switch sym.Choice("position", 6) {
	case 0:
		q := mustParse("SELECT Id FROM A WHERE NOT X = " + s + " OR Y = 1")
		f = &q.Where[1].Value
	case 1:
		q := mustParse("SELECT Id FROM A WHERE Y = 1 AND X != " + s + " ORDER BY Id")
		f = &q.Where[4].Value
	case 2:
		q := mustParse("SELECT Name, COUNT(Id) c FROM A GROUP BY Name HAVING MAX(X) > " + s)
		f = &q.Having[1].Value
	case 3:
		q := mustParse("SELECT Id FROM A WHERE Fn(X) <= " + s + " LIMIT 5")
		f = &q.Where[1].Value
	case 4:
		q := mustParse("SELECT Id, (SELECT Id FROM Rs WHERE X = " + s + ") FROM A")
		sym.Assert(len(q.Fields) == 2 && q.Fields[1].SubQuery != nil, "sub-query-kept")
		f = &q.Fields[1].SubQuery.Where[1].Value
	case 5:
		q := mustParse("SELECT Id FROM A WHERE Id IN (SELECT Id FROM R WHERE X = " + s + ")")
		f = &condSub(q, 0).Where[1].Value
	}
	sym.Assert(f.Type == typ, "type")
	val(valueOf(f))
}

// C04_argument: a literal of the types the grammar takes as arguments, as the second
// argument of a function in SELECT, in WHERE and in ORDER BY.
func C04_argument() {
	s, typ, val := item()
	switch typ {
	case SoqlFieldInfo_Literal_Null, SoqlFieldInfo_Literal_Bool, SoqlFieldInfo_DateTimeLiteralName, SoqlFieldInfo_ParameterizedValue:
		return
	}
	var f *SoqlFieldInfo
	switch sym.Choice("position", 2) {
	case 0:
		q := mustParse("SELECT Fn(X, " + s + ") g FROM A")
		f = &q.Fields[0]
	case 1:
		q := mustParse("SELECT Id FROM A WHERE Fn(X, " + s + ") = 1")
		f = &q.Where[0].Value
	}
	sym.Assert(f.Type == SoqlFieldInfo_Function && len(f.Parameters) == 2, "arguments")
	sym.Assert(f.Parameters[1].Type == typ, "type")
	val(valueOf(&f.Parameters[1]))
}
