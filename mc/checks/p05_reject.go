package checks

import (
	"fmt"
	"strings"

	"github.com/KSpaceer/yamly/engines/yayamls/parser"

	"verif/mc/fw"
)

// P05: a text is read completely or rejected; broken texts are rejected.

// letters gives every place holder 'a' of a text its own letter.
func letters(s string) string {
	const pool = "abcdefghijklmnopqrstuvwxyz"
	var sb strings.Builder
	i := 0
	for _, r := range s {
		if r == 'a' {
			sb.WriteByte(pool[i%26])
			i++
			continue
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

func onlyLetters(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] >= 'a' && s[i] <= 'z' {
			sb.WriteByte(s[i])
		}
	}
	return sb.String()
}

// texts collects everything a tree says, in document order.
func (t *T) texts(sb *strings.Builder) {
	// properties may stand in either order in the source; the tree does not tell,
	// so the letters of both are collected as a sorted pair
	p := []byte(t.Anchor + strings.Trim(t.Tag, "!"))
	for i := 1; i < len(p); i++ {
		for j := i; j > 0 && p[j] < p[j-1]; j-- {
			p[j], p[j-1] = p[j-1], p[j]
		}
	}
	sb.Write(p)
	sb.WriteString(t.Text)
	for _, k := range t.Kids {
		k.texts(sb)
	}
}

func complete(c *fw.Ctx) func(string) string {
	return func(s string) string {
		s = letters(s)
		tree, err := parser.ParseString(s, parser.WithUnquoting())
		if err != nil {
			return ""
		}
		docs, err := docsFromAST(tree)
		if err != nil {
			return fmt.Sprintf("text %q: malformed tree: %v", s, err)
		}
		var sb strings.Builder
		for _, d := range docs {
			d.texts(&sb)
		}
		if got, want := onlyLetters(sb.String()), onlyLetters(s); got != want {
			return fmt.Sprintf("text %q is accepted, but what is read says %q instead of %q: %s", s, got, want, showDocs(docs))
		}
		c.State(showDocs(docs))
		c.AddTransitions(1)
		return ""
	}
}

// balance is the reference automaton of bracket nesting for texts of brackets,
// commas and plain words, which start with an opening bracket: 1 balanced,
// nothing behind the root; 0 unbalanced.
func balance(s string) int {
	var stack []byte
	closed := false
	for i := 0; i < len(s); i++ {
		switch ch := s[i]; ch {
		case '[', '{':
			if closed {
				return 0
			}
			stack = append(stack, ch)
		case ']', '}':
			if len(stack) == 0 || (ch == ']') != (stack[len(stack)-1] == '[') {
				return 0
			}
			stack = stack[:len(stack)-1]
			if len(stack) == 0 {
				closed = true
			}
		case ' ', '\n':
		default:
			if closed {
				return 0
			}
		}
	}
	if len(stack) > 0 {
		return 0
	}
	return 1
}

func mustReject(s, why string) string {
	tree, err := parser.ParseString(s, parser.WithUnquoting())
	if err == nil {
		d, _ := docsFromAST(tree)
		return fmt.Sprintf("text %q is accepted as %s although %s", s, showDocs(d), why)
	}
	return ""
}

// quoteState runs the reference automaton of quoted scalars over a text that
// starts with a quote: true when the quote is closed and only blanks follow.
func quoteClosed(s string) bool {
	q := s[0]
	for i := 1; i < len(s); i++ {
		if q == '"' && s[i] == '\\' {
			i++
			continue
		}
		if s[i] == q {
			if q == '\'' && i+1 < len(s) && s[i+1] == '\'' {
				i++
				continue
			}
			return true
		}
	}
	return false
}

func init() {
	fw.Register(fw.Check{
		Property:  "P05",
		Technique: "exhaustive enumeration of short texts through the real parser, against conservation of content and reference automata for brackets, quotes and escapes",
		Assumptions: []string{
			"content conservation is decided on texts without comments and directives, whose contents are dropped by design",
		},
		Run: func(c *fw.Ctx) {
			chk := complete(c)
			AllStrings(c, "block", Chars("-:a \n"), c.Pick(8, 9), chk)
			AllStrings(c, "explicit", Chars("?:a \n-"), c.Pick(7, 8), chk)
			AllStrings(c, "quoted", Chars("'\"a \n:-"), c.Pick(6, 7), chk)
			AllStrings(c, "flow", Chars("[]{},:a "), c.Pick(6, 7), chk)
			AllStrings(c, "flow-lines", Chars("[],:a\"\n "), c.Pick(6, 7), chk)
			AllStrings(c, "mixed", []string{"- ", "a: ", "a", "[", "]", "{", "}", ", ", "\n", "  ", "\"", "? ", ": "}, c.Pick(5, 6), chk)
			AllStrings(c, "properties", []string{"&a", "*a", "!a ", " ", "\n", "a", ": ", "- ", "[", "]", ", "}, c.Pick(5, 6), chk)
			AllStrings(c, "scalars", []string{"|\n", ">\n", "|-\n", ">+\n", " ", "\n", "a", "- ", "a: "}, c.Pick(6, 7), chk)
			AllStrings(c, "documents", []string{"---", "...", "a", " ", "\n", "- ", "a: ", "[a]", "|\n"}, c.Pick(6, 7), chk)
			wraps := func(l ...string) func(string) string {
				return func(s string) string {
					for _, w := range l {
						if d := chk(strings.Replace(w, "%", s, 1)); d != "" {
							return d
						}
					}
					return ""
				}
			}
			AllStrings(c, "flow-contents", []string{"&a ", "!a ", "*a ", "\"a\"", "'a'", "a", "[a]", "{a: a}", ": ", ", ", "? ", "\n "}, c.Pick(5, 6), wraps("[%]", "{%}", "[[%]]", "a: [%]", "{a: [%]}"))
			AllStrings(c, "block-contents", []string{"&a ", "!a ", "*a ", "\"a\"", "[a]", "a", ": ", "- ", "? ", "\n", "  ", "|\n  a\n"}, c.Pick(5, 6), wraps("%", "- %", "a: %", "--- %", "a:\n- %"))
			// brackets
			br := func(s string) string {
				if s == "" || s[0] != '[' && s[0] != '{' {
					return ""
				}
				for _, wrap := range []string{"", "- ", "k: "} {
					if balance(s) == 0 {
						if d := mustReject(wrap+s, "its brackets are not balanced"); d != "" {
							return d
						}
					}
				}
				return ""
			}
			AllStrings(c, "brackets", Chars("[]{},a"), c.Pick(7, 8), br)
			AllStrings(c, "bracket-lines", []string{"[", "]", "{", "}", ",", "a", "\n ", " ", "\"a\""}, c.Pick(6, 7), br)
			// unterminated quotes
			AllStrings(c, "quotes", Chars("\"'\\a \n:"), c.Pick(6, 7), func(s string) string {
				for _, q := range []string{"\"", "'"} {
					if quoteClosed(q + s) {
						continue
					}
					for _, wrap := range []string{"", "- ", "k: ", "[", "{k: "} {
						if d := mustReject(wrap+q+s, "its quote is not closed"); d != "" {
							return d
						}
					}
				}
				return ""
			})
			// invalid escapes
			AllStrings(c, "escapes", []string{"\\", "x", "u", "0", "4", "a", "q", "n", "U", "-"}, c.Pick(5, 6), func(s string) string {
				if _, ok := refUnquoteDouble(s); ok || !quoteClosed("\""+s+"\"") {
					return ""
				}
				for _, w := range [][2]string{{"", ""}, {"- ", ""}, {"k: ", ""}, {"[", "]"}, {"", ": v"}} {
					if d := mustReject(w[0]+"\""+s+"\""+w[1], "it holds an invalid escape sequence"); d != "" {
						return d
					}
				}
				return ""
			})
		},
	})
}
