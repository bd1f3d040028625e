package checks

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/KSpaceer/yamly/engines/yayamls/lexer"
	"github.com/KSpaceer/yamly/engines/yayamls/token"

	"verif/mc/fw"
)

// P02: tokens cover the source exactly and their positions are the positions of
// their texts.

func lexCheck(c *fw.Ctx, s string, rawFrom, rawTo int, opts ...lexer.TokenizerOption) string {
	t := lexer.NewTokenizer(s, opts...)
	var got strings.Builder
	row, col := 1, 1
	limit := len(s) + 3
	n := 0
	types := make([]byte, 0, 16)
	for ; ; n++ {
		if n > limit {
			return fmt.Sprintf("%d tokens were produced for a source of %d bytes without reaching its end", n, len(s))
		}
		if n == rawFrom {
			t.SetRawMode()
		}
		if n == rawTo {
			t.UnsetRawMode()
		}
		tok := t.Next()
		if tok.Type == token.EOFType {
			if tok.Start != (token.Position{Row: row, Column: col}) {
				return fmt.Sprintf("end of source reported at %v, it is at row %d column %d", tok.Start, row, col)
			}
			break
		}
		types = append(types, byte(tok.Type))
		if tok.Origin == "" {
			return fmt.Sprintf("token %d (%v) carries no text", n, tok)
		}
		if tok.Start != (token.Position{Row: row, Column: col}) {
			return fmt.Sprintf("token %q starts at row %d column %d, reported %v", tok.Origin, row, col, tok.Start)
		}
		runes := []rune(tok.Origin)
		for i, r := range runes {
			if i == len(runes)-1 && tok.End != (token.Position{Row: row, Column: col}) {
				return fmt.Sprintf("token %q ends at row %d column %d, reported %v", tok.Origin, row, col, tok.End)
			}
			isBreak := r == '\n' || r == '\r'
			if isBreak && tok.Type != token.LineBreakType {
				return fmt.Sprintf("a line break is inside of token %v", tok)
			}
			if isBreak {
				if r == '\r' && i+1 < len(runes) && runes[i+1] == '\n' {
					col++
					continue
				}
				row++
				col = 1
			} else {
				if tok.Type == token.LineBreakType {
					return fmt.Sprintf("token %v is not a line break", tok)
				}
				col++
			}
			if (r == ' ') != (tok.Type == token.SpaceType) && tok.Type != token.StringType {
				return fmt.Sprintf("token %v mistakes its white space", tok)
			}
		}
		got.WriteString(tok.Origin)
		if !strings.HasPrefix(s, got.String()) {
			return fmt.Sprintf("tokens so far read %q, the source is %q", got.String(), s)
		}
	}
	if got.String() != s {
		return fmt.Sprintf("all tokens together read %q, the source is %q", got.String(), s)
	}
	for i := 0; i < 3; i++ {
		if tok := t.Next(); tok.Type != token.EOFType {
			return fmt.Sprintf("token %v was produced after the end of source", tok)
		}
	}
	if c != nil {
		c.AddTransitions(n)
		c.State(string(types))
	}
	return ""
}

func lexModes(c *fw.Ctx) func(s string) string {
	return func(s string) string {
		if d := lexCheck(c, s, -1, -1); d != "" {
			return d
		}
		if d := lexCheck(c, s, -1, -1, lexer.WithUnsafe()); d != "" {
			return "unsafe: " + d
		}
		// every interval of tokens read in raw mode, as the parser does for block scalars
		n := len(s)
		if n > 4 {
			n = 4
		}
		for from := 0; from < n; from++ {
			for to := from + 1; to <= n; to++ {
				if d := lexCheck(c, s, from, to); d != "" {
					return fmt.Sprintf("raw mode from token %d to %d: %s", from, to, d)
				}
			}
		}
		return ""
	}
}

func init() {
	fw.Register(fw.Check{
		Property:    "P02",
		Technique:   "exhaustive enumeration of short sources and of raw-mode switches on the real tokenizer, against a row/column recomputation",
		Assumptions: []string{"sources are valid UTF-8"},
		Run: func(c *fw.Ctx) {
			chk := lexModes(c)
			AllStrings(c, "indicators", Chars("-?:,[]{}#&*!|>'\"%@`a \n\\.+\r\t\ufeff\u00e9\ufffd\U0001F600"), c.Pick(4, 4), chk)
			AllStrings(c, "quotes", Chars("'\"\\a \n#:"), c.Pick(7, 8), chk)
			AllStrings(c, "flow", Chars("[]{},:a '\""), c.Pick(6, 7), chk)
			AllStrings(c, "block", Chars("-?:a \n|>#"), c.Pick(6, 7), chk)
			AllStrings(c, "breaks", Chars("\r\n a\t:\ufeff"), c.Pick(6, 7), chk)
			AllStrings(c, "words", []string{"---", "...", "a", " ", "\n", "\r\n", "!!", "!<a>", "&a", "*a", "%TAG", "- ", ": ", "? ", "'", "\"", "#", "[", "]", "{", "}", ",", "|", "\\\"", "''"}, c.Pick(3, 4), chk)
			// all characters, in every context and beside every kind of neighbour
			fw.Parallel(c, func(emit func(rune) bool) {
				for r := rune(0); r < 0x110000; r += 64 {
					if !emit(r) {
						return
					}
				}
			}, func(from rune) {
				key := fmt.Sprintf("characters:%x", from)
				if c.Filter != "" && c.Filter != key {
					return
				}
				step := rune(1)
				if from > 0x3000 && (from < 0xfe00 || from > 0xffff) {
					step = rune(c.Pick(13, 1))
				}
				c.Case(key, func() string {
					for r := from; r < from+64; r += step {
						if !utf8.ValidRune(r) {
							continue
						}
						x := string(r)
						for _, s := range []string{x, x + x + "a", "a" + x + "b: " + x + "\n" + x, "'" + x + "'\"" + x + "\"[" + x + "]", "|\n " + x + "\n" + x, "#" + x + "\n&" + x + " !" + x} {
							if d := lexCheck(nil, s, -1, -1); d != "" {
								return fmt.Sprintf("source %q: %s", s, d)
							}
							if d := lexCheck(nil, s, 1, 3); d != "" {
								return fmt.Sprintf("source %q, raw mode from token 1 to 3: %s", s, d)
							}
						}
						c.AddTraces(12)
					}
					return ""
				})
			})
			c.Bound("characters: %s", []string{"every character below U+3000 and from U+FE00 to U+FFFF, every 13th of the others", "every Unicode character"}[c.Pick(0, 1)])
			// size axis: long words, lines, columns
			for _, n := range []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000} {
				for _, u := range []string{"a", " ", "\n", "\r\n", "-", ":", "[", "'", "\"", "é", "a ", "a\n", "- a\n", "\\", "#"} {
					for _, p := range []string{"", "|\n", "'", "\"", "[", "!", "# "} {
						s := p + strings.Repeat(u, n) + "x: y\n"
						key := fmt.Sprintf("long:%q+%q*%d", p, u, n)
						c.Case(key, func() string { return chk(s) })
						c.AddTraces(1)
					}
				}
			}
			c.Bound("long: 17 lengths up to 5000 of 15 repeated pieces in 7 lexical contexts")
		},
	})
}
