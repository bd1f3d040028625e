package checks

import (
	"fmt"
	"strings"

	"github.com/KSpaceer/yamly"
	goyamldec "github.com/KSpaceer/yamly/engines/goyaml/decode"
	"github.com/KSpaceer/yamly/engines/yayamls/decode"
	"github.com/KSpaceer/yamly/engines/yayamls/encode"
	"github.com/KSpaceer/yamly/engines/yayamls/parser"
	"github.com/KSpaceer/yamly/engines/yayamls/token"
	"gopkg.in/yaml.v3"

	"verif/mc/fw"
)

// P03: every input is answered with a result or an error.

// drain reads a whole document with one decoder operation.
func drain(name string, d yamly.Decoder) {
	switch name {
	case "any":
		d.Any()
	case "raw":
		d.Raw()
	case "skip":
		d.Skip()
	case "string":
		_ = d.String()
	case "sequence":
		for st, i := d.Sequence(), 0; st.HasUnprocessedItems(); i++ {
			if i > 1000 {
				panic("a loop over a sequence does not end")
			}
			d.Any()
		}
	case "mapping":
		for st, i := d.Mapping(), 0; st.HasUnprocessedItems(); i++ {
			if i > 1000 {
				panic("a loop over a mapping does not end")
			}
			_ = d.String()
			d.Skip()
		}
	}
	d.Error()
}

var drains = []string{"any", "raw", "skip", "string", "sequence", "mapping"}

func total(c *fw.Ctx) func(string) string {
	return func(s string) string {
		for i, opts := range [][]parser.ParseOption{nil, {parser.WithOmitStream()}, {parser.WithOmitStream(), parser.WithUnquoting()}} {
			tree, err := parser.ParseString(s, opts...)
			if err == nil && tree == nil {
				return fmt.Sprintf("parsing %q returns neither a tree nor an error", s)
			}
			if err != nil {
				if err.Error() == "" {
					return fmt.Sprintf("parsing %q fails without saying why", s)
				}
				break
			}
			if i == 0 {
				c.State("accepted " + s)
				continue
			}
			c.AddTransitions(1)
			if _, err := encode.NewASTWriter().WriteString(tree); err != nil {
				_ = err.Error()
			}
			if i == 2 {
				for _, d := range drains {
					drain(d, decode.NewASTReader(tree))
				}
			}
		}
		return ""
	}
}

func totalGoyaml(s string) string {
	var n yaml.Node
	ok := func() (ok bool) {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		return yaml.Unmarshal([]byte(s), &n) == nil
	}()
	if !ok || n.Kind == 0 {
		return ""
	}
	for _, d := range drains {
		drain(d, goyamldec.NewASTReader(&n))
	}
	return ""
}

var tokenTypes = []struct {
	t token.Type
	o string
}{
	{token.StringType, "a"}, {token.SequenceEntryType, "-"}, {token.MappingKeyType, "?"}, {token.MappingValueType, ":"},
	{token.CollectEntryType, ","}, {token.SequenceStartType, "["}, {token.SequenceEndType, "]"}, {token.MappingStartType, "{"},
	{token.MappingEndType, "}"}, {token.CommentType, "#"}, {token.AnchorType, "&"}, {token.AliasType, "*"}, {token.TagType, "!"},
	{token.LiteralType, "|"}, {token.FoldedType, ">"}, {token.SingleQuoteType, "'"}, {token.DoubleQuoteType, "\""},
	{token.DirectiveType, "%"}, {token.LineBreakType, "\n"}, {token.SpaceType, " "}, {token.TabType, "\t"},
	{token.DirectiveEndType, "---"}, {token.DocumentEndType, "..."}, {token.BOMType, "\ufeff"}, {token.StripChompingType, "-"}, {token.KeepChompingType, "+"},
}

func init() {
	fw.Register(fw.Check{
		Property:    "P03",
		Technique:   "exhaustive enumeration of short byte strings and token sequences through the real parser, writer and readers under a crash and hang supervisor",
		Assumptions: []string{"a case that is still running alone after 120 s counts as not returning", "nesting stays below the stack limit of the runtime"},
		Run: func(c *fw.Ctx) {
			chk := total(c)
			both := func(s string) string {
				if d := chk(s); d != "" {
					return d
				}
				return totalGoyaml(s)
			}
			AllStrings(c, "indicators", Chars("-?:,[]{}#&*!|>'\"%@`a \n\\.+\r\t\ufeffé1<"), c.Pick(3, 4), both)
			AllStrings(c, "block", Chars("-?:a \n|'\""), c.Pick(6, 7), chk)
			AllStrings(c, "flow", Chars("[]{},:a\"\n"), c.Pick(6, 7), chk)
			AllStrings(c, "scalars", Chars("|>+-12 \na#"), c.Pick(5, 6), chk)
			AllStrings(c, "quoted", Chars("\"'\\nxu0 \na"), c.Pick(5, 6), chk)
			AllStrings(c, "words", []string{"&a ", "*a", "!", "!!t ", "!<", ">", "%TAG ", "%YAML 1.2", "---", "...", "- ", ": ", "a", "\n", " ", "<<: ", "[", "]", "{", "}", ", "}, c.Pick(4, 5), both)
			AllStrings(c, "references", []string{"&a ", "*a", "&b ", "*b", "- ", "a: ", "<<: ", "\n", "  ", "[", "]", ","}, c.Pick(5, 6), both)
			AllStrings(c, "bytes", []string{"\xff", "\xc3", "\x80", "\xed\xa0\x80", "\x00", "a", ":", " ", "\n", "\"", "-", "[", "\\"}, c.Pick(4, 5), chk)
			// token sequences the tokenizer may never produce
			var names []string
			for i := range tokenTypes {
				names = append(names, string(rune('A'+i)))
			}
			AllStrings(c, "tokens", names, c.Pick(4, 5), func(s string) string {
				toks := make([]token.Token, 0, len(s)+1)
				for i := 0; i < len(s); i++ {
					t := tokenTypes[s[i]-'A']
					toks = append(toks, token.Token{Type: t.t, Origin: t.o, Start: token.Position{Row: 1, Column: i + 1}, End: token.Position{Row: 1, Column: i + 1}})
				}
				toks = append(toks, token.Token{Type: token.EOFType})
				tree, err := parser.ParseTokens(toks)
				if err == nil && tree == nil {
					return "parsing returns neither a tree nor an error"
				}
				c.AddTransitions(len(s))
				return ""
			})
			// depth and length
			for _, n := range []int{16, 33, 64, 65, 128, 300, 1000} {
				for _, u := range []string{"- ", "[", "{", "a: ", "{a: ", "? ", ": ", "\"", "'", "[[", "&a ", "!t ", "\n", " ", "a\n", "- a\n", "---\n", "...\n", "a: b\n", "|\n", "*a ", "# c\n", "[]\n", "''", "\\", ",", "é"} {
					if n > 65 && strings.ContainsAny(u, "[{?:-&!*\"'") && !strings.HasSuffix(u, "\n") {
						continue
					}
					s := strings.Repeat(u, n)
					key := fmt.Sprintf("long:%q*%d", u, n)
					c.Case(key, func() string { return chk(s) })
					c.AddTraces(1)
				}
			}
			for _, n := range []int{2, 4, 8, 12, 16} {
				for _, p := range [][2]string{{"[", "]"}, {"{a: ", "}"}, {"[a, ", "]"}, {"{[", "]: b}"}, {"[{a: ", "}]"}} {
					s := strings.Repeat(p[0], n) + "x" + strings.Repeat(p[1], n)
					c.Case(fmt.Sprintf("nested:%q*%d", p[0], n), func() string { return both(s) })
					c.AddTraces(1)
				}
			}
		},
	})
}
