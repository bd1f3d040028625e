package checks

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/KSpaceer/yamly/engines/yayamls/yamlchar"

	"verif/mc/fw"
)

// P15: quoting and unquoting of scalars are inverse to each other, and unquoting
// resolves exactly the escape sequences of the YAML specification.

var refEscapes = map[rune]rune{
	'0': 0, 'a': 7, 'b': 8, 't': 9, '\t': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13, 'e': 27,
	' ': ' ', '"': '"', '/': '/', '\\': '\\', 'N': 0x85, '_': 0xA0, 'L': 0x2028, 'P': 0x2029,
}

func isHex(r rune) bool {
	return r >= '0' && r <= '9' || r >= 'a' && r <= 'f' || r >= 'A' && r <= 'F'
}

// refUnquoteDouble is the reference automaton of double-quoted content.
func refUnquoteDouble(s string) (string, bool) {
	var out []rune
	runes := []rune(s)
	for i := 0; i < len(runes); i++ {
		r := runes[i]
		switch {
		case r == '"' || (r < 0x20 && r != 9):
			return "", false
		case r != '\\':
			out = append(out, r)
		default:
			i++
			if i == len(runes) {
				return "", false
			}
			n := map[rune]int{'x': 2, 'u': 4, 'U': 8}[runes[i]]
			if n == 0 {
				v, ok := refEscapes[runes[i]]
				if !ok {
					return "", false
				}
				out = append(out, v)
				continue
			}
			if i+n >= len(runes) {
				return "", false
			}
			for _, h := range runes[i+1 : i+1+n] {
				if !isHex(h) {
					return "", false
				}
			}
			v, err := strconv.ParseUint(string(runes[i+1:i+1+n]), 16, 64)
			if err != nil {
				return "", false
			}
			if v > 0x10FFFF || v >= 0xD800 && v < 0xE000 {
				v = 0xFFFD
			}
			out = append(out, rune(v))
			i += n
		}
	}
	return string(out), true
}

func refUnquoteSingle(s string) (string, bool) {
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 && s[i] != 9 {
			return "", false
		}
	}
	if strings.Contains(strings.ReplaceAll(s, "''", ""), "'") {
		return "", false
	}
	return strings.ReplaceAll(s, "''", "'"), true
}

func checkUnquote(s string) string {
	got, err := yamlchar.ConvertFromYAMLDoubleQuotedString(s)
	want, ok := refUnquoteDouble(s)
	if (err == nil) != ok || err == nil && got != want {
		return fmt.Sprintf("double quoted content %q: got %q, %v; the specification says %q, valid %v", s, got, err, want, ok)
	}
	if v := yamlchar.IsDoubleQuotedString(s); v != ok {
		return fmt.Sprintf("double quoted content %q: recognised %v, but convertible %v", s, v, ok)
	}
	got, err = yamlchar.ConvertFromYAMLSingleQuotedString(s)
	want, ok = refUnquoteSingle(s)
	if (err == nil) != ok || err == nil && got != want {
		return fmt.Sprintf("single quoted content %q: got %q, %v; the specification says %q, valid %v", s, got, err, want, ok)
	}
	if v := yamlchar.IsSingleQuotedString(s); v != ok {
		return fmt.Sprintf("single quoted content %q: recognised %v, but convertible %v", s, v, ok)
	}
	return ""
}

func checkQuote(s string) string {
	q, err := yamlchar.ConvertToYAMLDoubleQuotedString(s)
	if err != nil {
		return fmt.Sprintf("text %q cannot be double quoted: %v", s, err)
	}
	if back, ok := refUnquoteDouble(q); !ok || back != s {
		return fmt.Sprintf("text %q is double quoted as %q, which denotes %q (valid %v)", s, q, back, ok)
	}
	if back, err := yamlchar.ConvertFromYAMLDoubleQuotedString(q); err != nil || back != s {
		return fmt.Sprintf("text %q is double quoted as %q and unquoted as %q, %v", s, q, back, err)
	}
	for _, r := range q {
		if r < 0x20 && r != 9 || r == 0x7f || r == 0x85 || r == 0x2028 || r == 0x2029 || r == 0xFEFF || r >= 0x80 && r < 0xA0 || r == 0xFFFE || r == 0xFFFF {
			return fmt.Sprintf("text %q is double quoted as %q, which holds a character that cannot stand in a document", s, q)
		}
	}
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 && s[i] != 9 {
			return ""
		}
	}
	q, err = yamlchar.ConvertToYAMLSingleQuotedString(s)
	if err != nil {
		return fmt.Sprintf("text %q cannot be single quoted: %v", s, err)
	}
	if back, err := yamlchar.ConvertFromYAMLSingleQuotedString(q); err != nil || back != s {
		return fmt.Sprintf("text %q is single quoted as %q and unquoted as %q, %v", s, q, back, err)
	}
	return ""
}

func init() {
	fw.Register(fw.Check{
		Property:    "P15",
		Technique:   "exhaustive enumeration of all characters, all hexadecimal escapes and all short quoted contents on the real converters, against a reference automaton",
		Assumptions: []string{"texts are valid UTF-8; escapes naming no Unicode scalar value read as U+FFFD"},
		Run: func(c *fw.Ctx) {
			// every Unicode scalar value, alone and between others
			type span struct{ lo, hi rune }
			fw.Parallel(c, func(emit func(span) bool) {
				for r := rune(0); r < 0x110000; r += 0x200 {
					emit(span{r, r + 0x200})
				}
			}, func(sp span) {
				c.Case(fmt.Sprintf("chars:%X", sp.lo), func() string {
					for r := sp.lo; r < sp.hi; r++ {
						if r >= 0xD800 && r < 0xE000 {
							continue
						}
						for _, s := range []string{string(r), "a" + string(r), string(r) + "a", "\\" + string(r), string(r) + string(r)} {
							if d := checkQuote(s); d != "" {
								return d
							}
							c.AddTraces(1)
						}
						for _, s := range []string{string(r), "\\" + string(r), "\\x4" + string(r), "\\u004" + string(r), "\\" + string(r) + string(r)} {
							if d := checkUnquote(s); d != "" {
								return d
							}
							c.AddTraces(1)
						}
						// the escapes naming this character
						forms := []string{fmt.Sprintf("\\U%08x", r), fmt.Sprintf("\\U%08X", r)}
						if r < 0x10000 {
							forms = append(forms, fmt.Sprintf("\\u%04x", r), fmt.Sprintf("\\u%04X", r))
						}
						if r < 0x100 {
							forms = append(forms, fmt.Sprintf("\\x%02x", r), fmt.Sprintf("\\x%02X", r))
						}
						for _, f := range forms {
							if d := checkUnquote("a" + f + "b"); d != "" {
								return d
							}
							got, err := yamlchar.ConvertFromYAMLDoubleQuotedString(f)
							if err != nil || got != string(r) {
								return fmt.Sprintf("escape %s is read as %q, %v", f, got, err)
							}
							c.AddTraces(1)
						}
						c.AddStates(1)
					}
					return ""
				})
			})
			c.Bound("chars: all 1112064 Unicode scalar values in 5 quoted and 5 unquoted surroundings, and all hexadecimal escapes naming them")
			AllStrings(c, "quote", Chars("\x00\a\b\t\n\v\f\r\x1b\x1f\x7f \"'/\\aNx0\u0085\u00a0\u2028\u2029\ufeff\ufffe\U0001F600\U0010FFFF"), c.Pick(4, 4), func(s string) string {
				c.AddTransitions(len(s))
				return checkQuote(s)
			})
			AllStrings(c, "unquote", Chars("\\xuU0aF\"' \tn/N_g\né"), c.Pick(5, 6), func(s string) string {
				c.AddTransitions(len(s))
				return checkUnquote(s)
			})
			AllStrings(c, "hex", []string{"\\", "x", "u", "U", "0", "00", "1F", "f6", "D8", "g", "\""}, c.Pick(6, 7), func(s string) string {
				c.AddTransitions(len(s))
				return checkUnquote(s)
			})
			for _, n := range []int{16, 17, 63, 64, 65, 255, 256, 1024, 4096, 65537} {
				for _, u := range []string{"a", "'", "\"", "\\", "\n", "é", "\x01", "😀", "'a", "a\\"} {
					c.Case(fmt.Sprintf("long:%q*%d", u, n), func() string {
						c.AddTraces(1)
						if d := checkQuote(strings.Repeat(u, n)); d != "" {
							return short(d)
						}
						return short(checkUnquote(strings.Repeat(u, n)))
					})
				}
			}
		},
	})
}
