package checks

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"

	"github.com/KSpaceer/yamly"

	"verif/mc/fw"
)

// P10: scalar texts convert exactly as the schema says.

// The reference recognisers below are written as automata over the text.

func allIn(s, set string) bool {
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(set, s[i]) < 0 {
			return false
		}
	}
	return s != ""
}

const (
	digits10 = "0123456789"
	digits16 = "0123456789abcdefABCDEF"
	digits8  = "01234567"
)

// refInt gives the integer a text denotes.
func refInt(s string) (v *big.Int, ok, signed bool) {
	base, body, neg := 10, s, false
	switch {
	case strings.HasPrefix(s, "0o"):
		base, body = 8, s[2:]
		if !allIn(body, digits8) {
			return nil, false, false
		}
	case strings.HasPrefix(s, "0x"):
		base, body = 16, s[2:]
		if !allIn(body, digits16) {
			return nil, false, false
		}
	default:
		if s != "" && (s[0] == '+' || s[0] == '-') {
			neg, body = s[0] == '-', s[1:]
		}
		if !allIn(body, digits10) {
			return nil, false, false
		}
	}
	v = new(big.Int)
	for i := 0; i < len(body); i++ {
		d := strings.IndexByte("0123456789abcdef", strings.ToLower(body[i : i+1])[0])
		v.Mul(v, big.NewInt(int64(base)))
		v.Add(v, big.NewInt(int64(d)))
	}
	if neg {
		v.Neg(v)
	}
	return v, true, neg
}

// refFloat tells whether a text is a float and which.
func refFloat(s string) (v *big.Float, inf int, nan, ok bool) {
	switch s {
	case ".nan", ".NaN", ".NAN":
		return nil, 0, true, true
	}
	t, sign := s, 1
	if t != "" && (t[0] == '+' || t[0] == '-') {
		if t[0] == '-' {
			sign = -1
		}
		t = t[1:]
	}
	switch t {
	case ".inf", ".Inf", ".INF":
		return nil, sign, false, true
	}
	i, intDigits, fracDigits := 0, 0, 0
	num := func() int {
		n := 0
		for i < len(t) && t[i] >= '0' && t[i] <= '9' {
			i++
			n++
		}
		return n
	}
	intDigits = num()
	if i < len(t) && t[i] == '.' {
		i++
		fracDigits = num()
	}
	if intDigits == 0 && fracDigits == 0 {
		return nil, 0, false, false
	}
	if i < len(t) && (t[i] == 'e' || t[i] == 'E') {
		i++
		if i < len(t) && (t[i] == '+' || t[i] == '-') {
			i++
		}
		if num() == 0 {
			return nil, 0, false, false
		}
	}
	if i != len(t) {
		return nil, 0, false, false
	}
	f, _, err := big.ParseFloat(s, 10, 4000, big.ToNearestEven)
	if err != nil {
		return nil, 0, false, false
	}
	return f, 0, false, true
}

func refBool(s string) (v, ok bool) {
	switch s {
	case "true", "True", "TRUE":
		return true, true
	case "false", "False", "FALSE":
		return false, true
	}
	return false, false
}

func refNull(s string) bool {
	return s == "" || s == "~" || s == "null" || s == "Null" || s == "NULL"
}

// Verdicts of the timestamp recogniser.
const (
	timeNo = iota
	timeYes
	timeOpen // spelled like YAML's timestamps in a form the library does not have to know
)

type refTime struct {
	unix   int64
	nanos  int
	offset int // seconds east of UTC
}

func (rt refTime) time() time.Time {
	return time.Unix(rt.unix, int64(rt.nanos)).In(time.FixedZone("", rt.offset))
}

func daysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return 31
}

// daysFromCivil counts the days since 1970-01-01.
func daysFromCivil(y, m, d int) int64 {
	var n int64
	if y >= 1970 {
		for i := 1970; i < y; i++ {
			n += 337 + int64(daysIn(i, 2))
		}
	} else {
		for i := y; i < 1970; i++ {
			n -= 337 + int64(daysIn(i, 2))
		}
	}
	for i := 1; i < m; i++ {
		n += int64(daysIn(y, i))
	}
	return n + int64(d-1)
}

func refTimestamp(s string) (rt refTime, verdict int) {
	i := 0
	open := false
	num := func(min, max int) (int, bool) {
		v, n := 0, 0
		for n < max && i < len(s) && s[i] >= '0' && s[i] <= '9' {
			v = v*10 + int(s[i]-'0')
			i++
			n++
		}
		return v, n >= min
	}
	lit := func(c byte) bool {
		if i < len(s) && s[i] == c {
			i++
			return true
		}
		return false
	}
	y, ok := num(4, 4)
	if !ok || !lit('-') {
		return rt, timeNo
	}
	mo, ok := num(1, 2)
	if !ok || !lit('-') {
		return rt, timeNo
	}
	d, ok := num(1, 2)
	if !ok || mo < 1 || mo > 12 || d < 1 || d > daysIn(y, mo) {
		return rt, timeNo
	}
	rt.unix = daysFromCivil(y, mo, d) * 86400
	if i == len(s) {
		return rt, timeYes
	}
	space := false
	switch {
	case lit('T'), lit('t'):
	case lit(' '):
		space = true
		for lit(' ') || lit('\t') {
			open = true
		}
	case lit('\t'):
		space, open = true, true
		for lit(' ') || lit('\t') {
		}
	default:
		return rt, timeNo
	}
	h, ok := num(1, 2)
	if !ok || !lit(':') || h > 23 {
		return rt, timeNo
	}
	at := i
	mi, ok := num(1, 2)
	if !ok || !lit(':') || mi > 59 {
		return rt, timeNo
	}
	if i-at < 3 {
		open = true // minutes of one digit
	}
	at = i
	se, ok := num(1, 2)
	if !ok || se > 59 {
		return rt, timeNo
	}
	if i-at < 2 {
		open = true
	}
	rt.unix += int64(h*3600 + mi*60 + se)
	if i < len(s) && (s[i] == '.' || s[i] == ',') {
		open = open || s[i] == ','
		i++
		at = i
		n := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			if n < 9 {
				rt.nanos = rt.nanos*10 + int(s[i]-'0')
			}
			i++
			n++
		}
		if n == 0 || n > 9 {
			open = true
		}
		for ; n < 9; n++ {
			rt.nanos *= 10
		}
	}
	if i == len(s) {
		if !space {
			open = true // a zone is expected behind T
		}
	} else {
		if space {
			open = true // no zone is expected behind a space
		}
		for lit(' ') || lit('\t') {
			open = true
		}
		switch {
		case lit('Z'):
		case lit('+'), lit('-'):
			neg := s[i-1] == '-'
			at = i
			zh, ok := num(1, 2)
			if !ok {
				return rt, timeNo
			}
			if i-at < 2 {
				open = true
			}
			zm := 0
			if lit(':') {
				at = i
				if zm, ok = num(1, 2); !ok {
					return rt, timeNo
				}
				if i-at < 2 {
					open = true
				}
			} else {
				open = true
			}
			if zh > 23 || zm > 59 {
				open = true
			}
			rt.offset = zh*3600 + zm*60
			if neg {
				rt.offset = -rt.offset
			}
			rt.unix -= int64(rt.offset)
		default:
			return rt, timeNo
		}
		if i != len(s) {
			return rt, timeNo
		}
	}
	if open {
		return rt, timeOpen
	}
	return rt, timeYes
}

func sameTime(t time.Time, rt refTime) bool {
	_, off := t.Zone()
	return t.Unix() == rt.unix && t.Nanosecond() == rt.nanos && off == rt.offset
}

func denied(err error) bool { return errors.Is(err, yamly.ErrDenied) }

// checkScalar decodes one scalar text in every way with one engine.
func checkScalar(e engine, s string, quoted bool) string {
	bad := func(format string, a ...any) string {
		return fmt.Sprintf("%s: text %q (quoted: %v): ", e.name, s, quoted) + fmt.Sprintf(format, a...)
	}
	isNull := refNull(s) && !quoted
	// null
	r := e.scalar(s, quoted)
	if got := r.TryNull(); got != isNull || r.Error() != nil {
		return bad("TryNull gives %v (error %v)", got, r.Error())
	}
	// string
	r = e.scalar(s, quoted)
	if got := r.String(); isNull != (r.Error() != nil) || !isNull && got != s || isNull && !denied(r.Error()) {
		return bad("String gives %q (error %v)", got, r.Error())
	}
	// boolean
	wantB, okB := refBool(s)
	r = e.scalar(s, quoted)
	if got := r.Boolean(); okB != (r.Error() == nil) || got != wantB || !okB && !denied(r.Error()) {
		return bad("Boolean gives %v (error %v)", got, r.Error())
	}
	// integers
	v, okI, neg := refInt(s)
	for _, bits := range []int{8, 16, 32, 64} {
		r = e.scalar(s, quoted)
		got := r.Integer(bits)
		err := r.Error()
		switch {
		case !okI:
			if !denied(err) {
				return bad("Integer(%d) gives %d (error %v) for a text which is no integer", bits, got, err)
			}
		default:
			lim := new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
			fits := v.Cmp(lim) < 0 && v.Cmp(new(big.Int).Neg(lim)) >= 0
			if fits && (err != nil || big.NewInt(got).Cmp(v) != 0) {
				return bad("Integer(%d) gives %d (error %v), the text denotes %v", bits, got, err, v)
			}
			if !fits && err == nil {
				return bad("Integer(%d) gives %d without an error, the text denotes %v", bits, got, v)
			}
		}
		r = e.scalar(s, quoted)
		gotU := r.Unsigned(bits)
		err = r.Error()
		switch {
		case !okI || neg && v.Sign() != 0:
			if err == nil || !okI && !denied(err) {
				return bad("Unsigned(%d) gives %d (error %v)", bits, gotU, err)
			}
		case neg: // -0
		default:
			fits := v.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(bits))) < 0
			if fits && (err != nil || new(big.Int).SetUint64(gotU).Cmp(v) != 0) {
				return bad("Unsigned(%d) gives %d (error %v), the text denotes %v", bits, gotU, err, v)
			}
			if !fits && err == nil {
				return bad("Unsigned(%d) gives %d without an error, the text denotes %v", bits, gotU, v)
			}
		}
	}
	// floats
	fv, inf, nan, okF := refFloat(s)
	for _, bits := range []int{32, 64} {
		r = e.scalar(s, quoted)
		got := r.Float(bits)
		err := r.Error()
		switch {
		case !okF:
			if !denied(err) {
				return bad("Float(%d) gives %v (error %v) for a text which is no float", bits, got, err)
			}
		case nan:
			if err != nil || !math.IsNaN(got) {
				return bad("Float(%d) gives %v (error %v)", bits, got, err)
			}
		case inf != 0:
			if err != nil || !math.IsInf(got, inf) {
				return bad("Float(%d) gives %v (error %v)", bits, got, err)
			}
		default:
			var want float64
			if bits == 32 {
				f, _ := fv.Float32()
				want = float64(f)
			} else {
				want, _ = fv.Float64()
			}
			if math.IsInf(want, 0) {
				if err == nil {
					return bad("Float(%d) gives %v without an error for a number out of range", bits, got)
				}
			} else if err != nil || got != want {
				return bad("Float(%d) gives %v (error %v), the text denotes %v", bits, got, err, want)
			}
		}
	}
	// timestamps
	rt, verdict := refTimestamp(s)
	r = e.scalar(s, quoted)
	got := r.Timestamp()
	err := r.Error()
	switch {
	case verdict == timeNo && !denied(err):
		return bad("Timestamp gives %v (error %v) for a text which is no timestamp", got, err)
	case verdict == timeYes && (err != nil || !sameTime(got, rt)):
		return bad("Timestamp gives %v (error %v), the text denotes unix %d.%09d offset %d", got, err, rt.unix, rt.nanos, rt.offset)
	case verdict == timeOpen && err == nil && !sameTime(got, rt) && rt.nanos%1000000000 == got.Nanosecond() && got.Unix() != rt.unix:
		return bad("Timestamp gives %v, the text denotes unix %d.%09d offset %d", got, rt.unix, rt.nanos, rt.offset)
	}
	// any
	r = e.scalar(s, quoted)
	a := r.Any()
	err = r.Error()
	ok := true
	switch {
	case isNull:
		ok = a == nil && err == nil
	case verdict == timeYes:
		t, is := a.(time.Time)
		ok = is && err == nil && sameTime(t, rt)
	case verdict == timeOpen:
	case okI:
		switch a := a.(type) {
		case uint64:
			ok = new(big.Int).SetUint64(a).Cmp(v) == 0 && err == nil
		case int64:
			ok = big.NewInt(a).Cmp(v) == 0 && err == nil
		case nil:
			ok = err != nil && (v.BitLen() > 63)
		default:
			ok = v.BitLen() > 63
		}
	case okF:
		f, is := a.(float64)
		switch {
		case nan:
			ok = is && math.IsNaN(f) && err == nil
		case inf != 0:
			ok = is && math.IsInf(f, inf) && err == nil
		default:
			want, _ := fv.Float64()
			if math.IsInf(want, 0) {
				ok = err != nil || !is
			} else {
				ok = is && f == want && err == nil
			}
		}
	case okB:
		b, is := a.(bool)
		ok = is && b == wantB && err == nil
	default:
		t, is := a.(string)
		ok = is && t == s && err == nil
	}
	if !ok {
		return bad("Any gives %s (error %v)", showVal(a), err)
	}
	return ""
}

func checkScalarAll(c *fw.Ctx) func(s string) string {
	return func(s string) string {
		for _, e := range engines {
			if d := checkScalar(e, s, false); d != "" {
				return d
			}
			if d := checkScalar(e, s, true); d != "" {
				return d
			}
		}
		c.State(s)
		c.AddTransitions(2 * 2 * 16)
		return ""
	}
}

// edits applies every single deletion, substitution and insertion.
func edits(s string, alphabet []string, emit func(string) bool) bool {
	for i := 0; i <= len(s); i++ {
		if i < len(s) && !emit(s[:i]+s[i+1:]) {
			return false
		}
		for _, a := range alphabet {
			if !emit(s[:i] + a + s[i:]) {
				return false
			}
			if i < len(s) && s[i:i+1] != a && !emit(s[:i]+a+s[i+1:]) {
				return false
			}
		}
	}
	return true
}

func product(parts ...[]string) (l []string) {
	l = []string{""}
	for _, p := range parts {
		var n []string
		for _, a := range l {
			for _, b := range p {
				n = append(n, a+b)
			}
		}
		l = n
	}
	return
}

func init() {
	fw.Register(fw.Check{
		Property:  "P10",
		Technique: "exhaustive enumeration of scalar texts through the real readers of both engines against reference recognisers",
		Assumptions: []string{
			"timestamp spellings of YAML 1.1 outside of the library's documented layouts (no zone behind T, a zone behind a space, fields of one digit, more than nine fraction digits) may be accepted or denied, but never with another instant",
			"the sign of a negative zero is not required to make an unsigned conversion fail",
		},
		Run: p10Run,
	})
}

func p10Run(c *fw.Ctx) {
	chk := checkScalarAll(c)
	AllStrings(c, "integers", Chars("+-01789aAfxoXO"), c.Pick(4, 5), chk)
	AllStrings(c, "octal-hex", []string{"0x", "0o", "0", "7", "8", "f", "g", "-", "+", "_"}, c.Pick(5, 6), chk)
	AllStrings(c, "floats", Chars("+-.019eE_"), c.Pick(6, 7), chk)
	AllStrings(c, "special-floats", Chars("+-.iInNfFaA"), c.Pick(5, 5), chk)
	AllStrings(c, "true", Chars("tTrRuUeE"), c.Pick(5, 6), chk)
	AllStrings(c, "false", Chars("fFaAlLsSeE"), 5, chk)
	AllStrings(c, "null", Chars("nNuUlL~"), c.Pick(6, 6), chk)
	AllStrings(c, "blanks", []string{"1", ".", "-", " ", "\n", "\t", "\u00a0", "\uff11", "true", "null", ".inf", "é"}, c.Pick(4, 5), chk)
	AllStrings(c, "words", []string{"y", "Y", "n", "N", "yes", "no", "on", "off", "On", "true", "1", "0b1", "0b", "1:30", "1_000", "inf", "nan", "Infinity", "+", "0x", "p"}, 2, chk)
	// limits
	var limits []string
	for _, bits := range []uint{7, 8, 15, 16, 31, 32, 63, 64, 65, 100} {
		for d := int64(-2); d <= 2; d++ {
			v := new(big.Int).Add(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(d))
			limits = append(limits, v.String(), "-"+v.String(), "+"+v.String(), "0x"+v.Text(16), "0x"+strings.ToUpper(v.Text(16)), "0o"+v.Text(8), "000"+v.String(), "-00"+v.String(), "0x000"+v.Text(16), "0o0"+v.Text(8), v.String()+".0", v.String()+"e0", "-"+v.String()+".")
		}
	}
	mant := []string{"1", "1.5", "9.999999999999999", "1.7976931348623157", "1.7976931348623159", "3.4028234663852886", "3.40282347", "3.4028236", "4.9406564584124654", "2.4703282292062327", "2.47032822920623272", "1.401298464324817", "7.006492321624085", "0.1", "123456789.123456789", "9007199254740993", "16777217", "0.30000000000000004"}
	exps := []string{"", "e0", "e1", "e-1", "E+38", "e38", "e39", "e-45", "e-46", "e308", "e309", "e-323", "e-324", "e-325", "e400", "e-400", "e+007"}
	limits = append(limits, product([]string{"", "-", "+"}, mant, exps)...)
	List(c, "limits", limits, chk)
	c.Bound("limits: %d integer and float texts around the limits of all widths", len(limits))
	// timestamps
	y := []string{"0000", "0001", "1582", "1900", "1969", "1970", "1999", "2000", "2004", "2023", "2100", "2400", "9999", "999", "10000"}
	mo := []string{"0", "00", "1", "01", "2", "02", "3", "4", "04", "06", "7", "09", "9", "10", "11", "12", "13", "007"}
	d := []string{"0", "00", "1", "01", "9", "28", "29", "30", "31", "32", "001"}
	dates := product(y, []string{"-"}, mo, []string{"-"}, d)
	List(c, "dates", dates, chk)
	c.Bound("dates: %d combinations of year, month and day spellings", len(dates))
	tm := product([]string{"2023-04-05", "2000-2-9", "1969-12-31", "0001-01-01", "2024-02-29"}, []string{"T", "t", " ", "  ", "\t", "_"},
		[]string{"00:00:00", "23:59:59", "9:08:07", "24:00:00", "12:60:00", "12:00:60", "12:5:06", "12:05:6", "12:05"},
		[]string{"", ".", ".0", ".5", ".123", ".999999999", ".000000001", ".1234567891", ",5"},
		[]string{"", "Z", "z", "+00:00", "-00:00", "+05:30", "-11:45", "+23:59", "+24:00", "+5", "+0530", " Z", " +01:00", "+1:30", "UTC"})
	List(c, "times", tm, chk)
	c.Bound("times: %d combinations of date, separator, time, fraction and zone spellings", len(tm))
	alphabet := Chars("0159-:TtZz+., /e")
	var base []string
	for _, s := range []string{"2023-04-05", "2023-4-5", "2023-04-05T06:07:08Z", "2023-4-5t06:07:08.5+01:30", "2023-04-05 06:07:08", "2023-04-05 06:07:08.25", "2023-04-05T06:07:08.123456789-11:00"} {
		base = append(base, s)
	}
	depth := c.Pick(1, 2)
	fw.Parallel(c, func(emit func(string) bool) {
		if c.Filter != "" {
			if strings.HasPrefix(c.Filter, "edits:") {
				emit(c.Filter[len("edits:"):])
			}
			return
		}
		seen := map[string]bool{}
		for _, b := range base {
			if !edits(b, alphabet, func(s string) bool {
				if !seen[s] {
					seen[s] = true
					if !emit(s) {
						return false
					}
				}
				if depth > 1 {
					return edits(s, alphabet[:10], func(s string) bool {
						if seen[s] {
							return true
						}
						seen[s] = true
						return emit(s)
					})
				}
				return true
			}) {
				return
			}
		}
	}, func(s string) {
		c.AddTraces(1)
		c.Case("edits:"+s, func() string { return chk(s) })
	})
	c.Bound("edits: every text within %d edits (over %d characters) of %d timestamps", depth, len(alphabet), len(base))
}
