From a18e164cf51531a1ce4df09faafbdcb67476218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:10 +0000
Subject: [PATCH 01/73] fix: remember last element when backtracking buffer is
 drained

---
 engines/yayamls/pkg/cpaccessor/accessor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/pkg/cpaccessor/accessor.go b/engines/yayamls/pkg/cpaccessor/accessor.go
index e9fb6bd..05f52e1 100644
--- a/engines/yayamls/pkg/cpaccessor/accessor.go
+++ b/engines/yayamls/pkg/cpaccessor/accessor.go
@@ -61,7 +61,9 @@ func (a *CheckpointingAccessor[T]) Next() T {
 		a.bufIndicator++
 		if a.bufIndicator == len(a.buf) {
 			if len(a.checkpointsStack) == 0 {
-				// there are no checkpoints - buffer elements will not be used anymore
+				// there are no checkpoints - buffer elements will not be used anymore,
+				// but the last one is still required for the next checkpoint.
+				a.saved = val
 				a.buf = a.buf[:0]
 			}
 			a.bufIndicator = withoutBuffer
@@ -103,7 +105,8 @@ func (a *CheckpointingAccessor[T]) Rollback() T {
 			a.bufIndicator++
 			if a.bufIndicator == len(a.buf) {
 				// checkpoint was at the last position in buffer - we are now ahead of it.
-				if len(a.checkpointsStack) == 0 {
+				if stackLen == 1 {
+					a.saved = restoredVal
 					a.buf = a.buf[:0]
 				}
 				a.bufIndicator = withoutBuffer
-- 
2.43.0


From e1851646a7d3a1e019b3996846267d5fccea5abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:27 +0000
Subject: [PATCH 02/73] fix: report an error when a source cannot be parsed
 till its end

---
 engines/yayamls/parser/errors.go | 10 ++++++++++
 engines/yayamls/parser/parser.go |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/engines/yayamls/parser/errors.go b/engines/yayamls/parser/errors.go
index 048f254..a6dc9ae 100644
--- a/engines/yayamls/parser/errors.go
+++ b/engines/yayamls/parser/errors.go
@@ -115,3 +115,13 @@ type DeadEndError struct {
 func (d DeadEndError) Error() string {
 	return fmt.Sprintf("failed to parse data: meeting a 'dead end' token at position %s", d.Pos)
 }
+
+// UnexpectedTokenError indicates that source has a token which can't be a part of any YAML document,
+// so the source can't be parsed till its end.
+type UnexpectedTokenError struct {
+	Tok token.Token
+}
+
+func (u UnexpectedTokenError) Error() string {
+	return fmt.Sprintf("unexpected token %q at position %s", u.Tok.Origin, u.Tok.Start)
+}
diff --git a/engines/yayamls/parser/parser.go b/engines/yayamls/parser/parser.go
index 2a71018..bda43c2 100644
--- a/engines/yayamls/parser/parser.go
+++ b/engines/yayamls/parser/parser.go
@@ -136,6 +136,9 @@ func (p *parser) Parse() (ast.Node, error) {
 	p.next()
 	p.startOfLine = true
 	result := p.parseStream()
+	if !p.hasErrors() && p.tok.Type != token.EOFType {
+		p.appendError(UnexpectedTokenError{Tok: p.tok})
+	}
 	return result, p.error()
 }
 
-- 
2.43.0


From fdc80f5c24442dc13dc28435efb2451a8ddb8e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:22 +0000
Subject: [PATCH 03/73] fix: do not treat quotes, tags and directives inside of
 plain scalars as indicators

---
 engines/yayamls/lexer/context.go | 46 +++++++++++++++++++-------------
 engines/yayamls/token/token.go   |  2 +-
 2 files changed, 28 insertions(+), 20 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 6efc386..554d5da 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -189,11 +189,13 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.TagCharacter:
-		c.switchContext(tagContextType)
-		tok.End = t.pos
-		tok.Type = token.TagType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(tagContextType)
+			tok.End = t.pos
+			tok.Type = token.TagType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.LiteralCharacter:
 		if t.lookbehind(token.MayPrecedeWord) {
 			c.switchContext(multilineBlockStartContextType)
@@ -211,22 +213,28 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.SingleQuoteCharacter:
-		c.switchContext(singleQuoteContextType)
-		tok.End = t.pos
-		tok.Type = token.SingleQuoteType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(singleQuoteContextType)
+			tok.End = t.pos
+			tok.Type = token.SingleQuoteType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.DoubleQuoteCharacter:
-		c.switchContext(doubleQuoteContextType)
-		tok.End = t.pos
-		tok.Type = token.DoubleQuoteType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(doubleQuoteContextType)
+			tok.End = t.pos
+			tok.Type = token.DoubleQuoteType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.DirectiveCharacter:
-		tok.End = t.pos
-		tok.Type = token.DirectiveType
-		tok.Origin = string([]rune{r})
-		return tok, true
+		if t.lookbehind(token.MayPrecedeWord) {
+			tok.End = t.pos
+			tok.Type = token.DirectiveType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.DocumentEndCharacter:
 		if t.lookahead(3, func(runes []rune) bool {
 			return runes[0] == runes[1] && runes[1] == yamlchar.DocumentEndCharacter &&
diff --git a/engines/yayamls/token/token.go b/engines/yayamls/token/token.go
index ba912fe..46bf2f1 100644
--- a/engines/yayamls/token/token.go
+++ b/engines/yayamls/token/token.go
@@ -156,7 +156,7 @@ func IsNonBreak(tok Token) bool {
 // MayPrecedeWord shows if given token may precede word (or string).
 func MayPrecedeWord(tok Token) bool {
 	switch tok.Type {
-	case SpaceType, TabType, LineBreakType, UnknownType:
+	case SpaceType, TabType, LineBreakType, BOMType, UnknownType:
 		return true
 	default:
 		return false
-- 
2.43.0


From 940b3c2b9b8403a304b394a4f45365e89c7c6869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:42 +0000
Subject: [PATCH 04/73] fix: unescape hexadecimal sequences of double quoted
 strings properly

---
 engines/yayamls/yamlchar/chars.go           |  2 +-
 engines/yayamls/yamlchar/transformations.go | 17 +++++++++--------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index b3df724..1db76b7 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -222,7 +222,7 @@ func IsJSONChar(r rune) bool {
 }
 
 // YAML specification: [41-58] ns-esc-...
-const singleEscapedCharacters = "0at\tnvfre \"/\\N_LP"
+const singleEscapedCharacters = "0abt\tnvfre \"/\\N_LP"
 
 // IsEscapedCharacter checks if given runes are valid escaped sequence of characters in YAML
 // (i.e. \<valid single escaped character>, \x<two hex digits>, \u<four hex digits> or
diff --git a/engines/yayamls/yamlchar/transformations.go b/engines/yayamls/yamlchar/transformations.go
index 2da178c..003aa3a 100644
--- a/engines/yayamls/yamlchar/transformations.go
+++ b/engines/yayamls/yamlchar/transformations.go
@@ -186,6 +186,8 @@ func unescapeASCIICharacter(runes []rune, i int) (rune, int, error) {
 		result = '\r'
 	case 'e':
 		result = '\x1B' // \e
+	case '\t':
+		result = '\t'
 	case ' ':
 		result = ' '
 	case '"':
@@ -221,8 +223,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 2 hexadecimal digits after \\x, but have %s",
 				string(runes[i:i+2]))
 		}
-		i += 2
 		escaped = runes[i : i+2]
+		i += 2
 	case 'u':
 		i++
 		if len(runes)-i < 4 {
@@ -232,8 +234,8 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 4 hexadecimal digits after \\u, but have %s",
 				string(runes[i:i+4]))
 		}
-		i += 4
 		escaped = runes[i : i+4]
+		i += 4
 	case 'U':
 		i++
 		if len(runes)-i < 8 {
@@ -243,21 +245,20 @@ func unescapeUnicodeCharacter(runes []rune, i int) (rune, int, error) {
 			return 0, 0, fmt.Errorf("expected to have 8 hexadecimal digits after \\U, but have %s",
 				string(runes[i:i+8]))
 		}
-		i += 8
 		escaped = runes[i : i+8]
+		i += 8
 	}
 	result, err := parseEscapedHexDigits(escaped)
 	return result, i, err
 }
 
 func parseEscapedHexDigits(runes []rune) (rune, error) {
-	result, err := strconv.ParseInt(string(runes), 16, 32)
+	result, err := strconv.ParseUint(string(runes), 16, 32)
 	if err != nil {
 		return 0, err
 	}
-	r := rune(result)
-	if !utf8.ValidRune(r) {
-		r = utf8.RuneError
+	if result > utf8.MaxRune || !utf8.ValidRune(rune(result)) {
+		return utf8.RuneError, nil
 	}
-	return r, nil
+	return rune(result), nil
 }
-- 
2.43.0


From bfd917dccf25691ccf43e6e72d7df073187619ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:58 +0000
Subject: [PATCH 05/73] fix: resolve escape sequences of quoted scalars when
 decoding

---
 engines/yayamls/decode/reader.go  |   2 +-
 engines/yayamls/encode/builder.go |   2 +-
 engines/yayamls/lexer/context.go  |  11 ++-
 engines/yayamls/parser/flow.go    | 113 ++++++++++++++++--------------
 engines/yayamls/parser/options.go |   9 +++
 engines/yayamls/parser/parser.go  |   7 +-
 6 files changed, 88 insertions(+), 56 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 17a90c7..a65ecce 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -119,7 +119,7 @@ func WithMultipleDenyErrors() ReaderOption {
 }
 
 func NewASTReaderFromBytes(src []byte, opts ...ReaderOption) (*ASTReader, error) {
-	tree, err := parser.ParseBytes(src, parser.WithOmitStream())
+	tree, err := parser.ParseBytes(src, parser.WithOmitStream(), parser.WithUnquoting())
 	if err != nil {
 		return nil, err
 	}
diff --git a/engines/yayamls/encode/builder.go b/engines/yayamls/encode/builder.go
index f795bfb..f831a9b 100644
--- a/engines/yayamls/encode/builder.go
+++ b/engines/yayamls/encode/builder.go
@@ -126,7 +126,7 @@ func (b *ASTBuilder) InsertRaw(data []byte, err error) {
 		b.fatalError = err
 		return
 	}
-	tree, err := parser.ParseBytes(data, parser.WithOmitStream())
+	tree, err := parser.ParseBytes(data, parser.WithOmitStream(), parser.WithUnquoting())
 	if err != nil {
 		b.fatalError = err
 		return
diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 554d5da..40fdbf3 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -412,9 +412,18 @@ func (c *context) doubleQuoteMatching(t *Tokenizer, r rune) (token.Token, bool)
 	switch r {
 	case yamlchar.EscapeCharacter:
 		if !c.escaped {
+			if t.lookahead(1, func(runes []rune) bool {
+				return yamlchar.IsLineBreakChar(runes[0])
+			}) {
+				// escaped line break
+				tok.End = t.pos
+				tok.Type = token.StringType
+				tok.Origin = string([]rune{r})
+				return tok, true
+			}
 			escaped = true
 		}
-	case yamlchar.SpaceCharacter:
+	case yamlchar.SpaceCharacter, yamlchar.TabCharacter:
 		if c.escaped {
 			c.escaped = false
 			return token.Token{}, false
diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 75a9898..2f0bbff 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -169,11 +169,8 @@ func (p *parser) parseDoubleOneLine() ast.Node {
 		return ast.NewInvalidNode()
 	}
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
+	p.parseDoubleInLine(buf)
+	p.parseTrailingWhiteSpace(buf)
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
@@ -186,11 +183,7 @@ func (p *parser) parseDoubleMultiLine(ind *indentation) ast.Node {
 		return ast.NewInvalidNode()
 	}
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
+	p.parseDoubleInLine(buf)
 
 	savedLen := buf.Len()
 	p.setCheckpoint()
@@ -198,10 +191,7 @@ func (p *parser) parseDoubleMultiLine(ind *indentation) ast.Node {
 		p.rollback()
 		buf.Truncate(savedLen)
 
-		for token.IsWhiteSpace(p.tok) {
-			buf.WriteString(p.tok.Origin)
-			p.next()
-		}
+		p.parseTrailingWhiteSpace(buf)
 	} else {
 		p.commit()
 	}
@@ -212,6 +202,49 @@ func (p *parser) parseDoubleMultiLine(ind *indentation) ast.Node {
 	return ast.NewTextNode(text, ast.WithQuotingType(ast.DoubleQuotingType))
 }
 
+// YAML specification: [114] nb-ns-double-in-line
+func (p *parser) parseDoubleInLine(buf *bytes.Buffer) {
+	p.parseQuotedInLine(yamlchar.DoubleQuotedCharSetType, yamlchar.ConvertFromYAMLDoubleQuotedString, buf)
+}
+
+// parseQuotedInLine writes content of current line of quoted scalar into buffer.
+// White space preceding the end of the line (or the closing quote) is left unparsed.
+func (p *parser) parseQuotedInLine(
+	charSet yamlchar.CharSetType,
+	unquote func(string) (string, error),
+	buf *bytes.Buffer,
+) {
+	for {
+		p.setCheckpoint()
+		savedLen := buf.Len()
+
+		p.parseTrailingWhiteSpace(buf)
+
+		if p.tok.Type != token.StringType || !p.tok.ConformsCharSet(charSet) {
+			buf.Truncate(savedLen)
+			p.rollback()
+			return
+		}
+		text := p.tok.Origin
+		if p.unquote {
+			var err error
+			if text, err = unquote(text); err != nil {
+				p.appendError(err)
+			}
+		}
+		p.commit()
+		buf.WriteString(text)
+		p.next()
+	}
+}
+
+func (p *parser) parseTrailingWhiteSpace(buf *bytes.Buffer) {
+	for token.IsWhiteSpace(p.tok) {
+		buf.WriteString(p.tok.Origin)
+		p.next()
+	}
+}
+
 // YAML specification: [115] s-double-next-line
 func (p *parser) parseDoubleNextLine(ind *indentation, buf *bytes.Buffer) ast.Node {
 	savedLen := buf.Len()
@@ -228,14 +261,7 @@ func (p *parser) parseDoubleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 		return ast.NewBasicNode(ast.TextType)
 	}
 	p.commit()
-	buf.WriteString(p.tok.Origin)
-	p.next()
-
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.DoubleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
+	p.parseDoubleInLine(buf)
 
 	p.setCheckpoint()
 	savedLen = buf.Len()
@@ -243,10 +269,7 @@ func (p *parser) parseDoubleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 	if !ast.ValidNode(p.parseDoubleNextLine(ind, buf)) {
 		p.rollback()
 		buf.Truncate(savedLen)
-		for token.IsWhiteSpace(p.tok) {
-			buf.WriteString(p.tok.Origin)
-			p.next()
-		}
+		p.parseTrailingWhiteSpace(buf)
 	} else {
 		p.commit()
 	}
@@ -297,6 +320,7 @@ func (p *parser) parseDoubleEscaped(ind *indentation, buf *bytes.Buffer) ast.Nod
 		savedLen := buf.Len()
 		if !ast.ValidNode(p.parseEmpty(ind, flowInContext, buf)) {
 			buf.Truncate(savedLen)
+			p.rollback()
 			break
 		}
 		p.commit()
@@ -344,11 +368,8 @@ func (p *parser) parseSingleOneLine() ast.Node {
 		return ast.NewInvalidNode()
 	}
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
+	p.parseSingleInLine(buf)
+	p.parseTrailingWhiteSpace(buf)
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
@@ -361,11 +382,7 @@ func (p *parser) parseSingleMultiLine(ind *indentation) ast.Node {
 		return ast.NewInvalidNode()
 	}
 	buf := bufsPool.Get().(*bytes.Buffer) // nolint: forcetypeassert
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
+	p.parseSingleInLine(buf)
 
 	savedLen := buf.Len()
 	p.setCheckpoint()
@@ -373,10 +390,7 @@ func (p *parser) parseSingleMultiLine(ind *indentation) ast.Node {
 		p.rollback()
 		buf.Truncate(savedLen)
 
-		for token.IsWhiteSpace(p.tok) {
-			buf.WriteString(p.tok.Origin)
-			p.next()
-		}
+		p.parseTrailingWhiteSpace(buf)
 	} else {
 		p.commit()
 	}
@@ -387,6 +401,11 @@ func (p *parser) parseSingleMultiLine(ind *indentation) ast.Node {
 	return ast.NewTextNode(text, ast.WithQuotingType(ast.SingleQuotingType))
 }
 
+// YAML specification: [123] nb-ns-single-in-line
+func (p *parser) parseSingleInLine(buf *bytes.Buffer) {
+	p.parseQuotedInLine(yamlchar.SingleQuotedCharSetType, yamlchar.ConvertFromYAMLSingleQuotedString, buf)
+}
+
 // YAML specification: [124] s-single-next-line
 func (p *parser) parseSingleNextLine(ind *indentation, buf *bytes.Buffer) ast.Node {
 	savedLen := buf.Len()
@@ -401,14 +420,7 @@ func (p *parser) parseSingleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 		return ast.NewBasicNode(ast.TextType)
 	}
 	p.commit()
-	buf.WriteString(p.tok.Origin)
-	p.next()
-
-	for (p.tok.Type == token.StringType && p.tok.ConformsCharSet(yamlchar.SingleQuotedCharSetType)) ||
-		token.IsWhiteSpace(p.tok) {
-		buf.WriteString(p.tok.Origin)
-		p.next()
-	}
+	p.parseSingleInLine(buf)
 
 	p.setCheckpoint()
 	savedLen = buf.Len()
@@ -416,10 +428,7 @@ func (p *parser) parseSingleNextLine(ind *indentation, buf *bytes.Buffer) ast.No
 	if !ast.ValidNode(p.parseSingleNextLine(ind, buf)) {
 		p.rollback()
 		buf.Truncate(savedLen)
-		for token.IsWhiteSpace(p.tok) {
-			buf.WriteString(p.tok.Origin)
-			p.next()
-		}
+		p.parseTrailingWhiteSpace(buf)
 	} else {
 		p.commit()
 	}
diff --git a/engines/yayamls/parser/options.go b/engines/yayamls/parser/options.go
index dfe678c..da057d6 100644
--- a/engines/yayamls/parser/options.go
+++ b/engines/yayamls/parser/options.go
@@ -3,6 +3,7 @@ package parser
 type parseOptions struct {
 	tokenStreamConstructor func(string) ConfigurableTokenStream
 	omitStream             bool
+	unquote                bool
 }
 
 // ParseOption allows to modify parser behavior
@@ -30,6 +31,14 @@ func WithOmitStream() ParseOption {
 	})
 }
 
+// WithUnquoting will make parser to store the unquoted content of single and double quoted scalars in AST
+// (i.e. with resolved escape sequences). By default content is stored the way it is presented in the source.
+func WithUnquoting() ParseOption {
+	return parseOptionsFunc(func(options *parseOptions) {
+		options.unquote = true
+	})
+}
+
 func applyOptions(opts ...ParseOption) parseOptions {
 	var o parseOptions
 	for _, opt := range opts {
diff --git a/engines/yayamls/parser/parser.go b/engines/yayamls/parser/parser.go
index bda43c2..b0ea1d3 100644
--- a/engines/yayamls/parser/parser.go
+++ b/engines/yayamls/parser/parser.go
@@ -51,6 +51,7 @@ type parser struct {
 	errors         []error
 	balanceChecker balancecheck.BalanceChecker
 	deadEndFinder  deadend.Finder
+	unquote        bool
 }
 
 type state struct {
@@ -106,7 +107,10 @@ func ParseString(src string, opts ...ParseOption) (ast.Node, error) {
 	} else {
 		cts = lexer.NewTokenizer(src)
 	}
-	tree, err := ParseTokenStream(cts)
+	p := newParser(newTokenSource(cts))
+	defer p.release()
+	p.unquote = o.unquote
+	tree, err := p.Parse()
 	if err != nil {
 		return nil, err
 	}
@@ -193,6 +197,7 @@ func (p *parser) release() {
 	p.balanceChecker.Reset()
 	p.deadEndFinder.Reset()
 	p.errors = p.errors[:0]
+	p.unquote = false
 	p.state = state{startOfLine: true}
 	parserPool.Put(p)
 }
-- 
2.43.0


From 4388982670326b0ac173e7a223b94c590c1b4ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:48 +0000
Subject: [PATCH 06/73] fix: treat indicators following a plain text as its
 part

---
 engines/yayamls/lexer/context.go   | 58 ++++++++++++++++++------------
 engines/yayamls/lexer/tokenizer.go | 27 ++++++++++++++
 2 files changed, 62 insertions(+), 23 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 40fdbf3..36361f2 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -46,6 +46,18 @@ func (c *context) currentType() contextType {
 	return blockContextType
 }
 
+func (c *context) allowsPlain() bool {
+	if c.rawMode {
+		return false
+	}
+	switch c.currentType() {
+	case blockContextType, flowContextType:
+		return true
+	default:
+		return false
+	}
+}
+
 func (c *context) revertContext() {
 	if len(c.ctxStack) > 0 {
 		c.ctxStack = c.ctxStack[:len(c.ctxStack)-1]
@@ -114,7 +126,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return yamlchar.IsBlankChar(runes[0]) || runes[0] == EOF
 		}
 
-		if t.lookahead(1, lookaheadPred) && t.lookbehind(token.MayPrecedeWord) {
+		if t.lookahead(1, lookaheadPred) && t.mayStartWord() {
 			tok.End = t.pos
 			tok.Type = token.SequenceEntryType
 			tok.Origin = string([]rune{r})
@@ -124,7 +136,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		if t.lookahead(3, func(runes []rune) bool {
 			return runes[0] == runes[1] && runes[1] == yamlchar.DirectiveEndCharacter &&
 				(yamlchar.IsBlankChar(runes[2]) || runes[2] == EOF)
-		}) && t.lookbehind(token.MayPrecedeWord) {
+		}) && t.mayStartWord() {
 			tok.Origin = string([]rune{r, t.ra.Next(), t.ra.Next()})
 			t.pos.Column += 2
 			tok.End = t.pos
@@ -134,7 +146,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 	case yamlchar.MappingKeyCharacter:
 		if t.lookahead(1, func(runes []rune) bool {
 			return yamlchar.IsBlankChar(runes[0]) || runes[0] == EOF
-		}) && t.lookbehind(token.MayPrecedeWord) {
+		}) && t.mayStartWord() {
 			tok.End = t.pos
 			tok.Type = token.MappingKeyType
 			tok.Origin = string([]rune{r})
@@ -150,7 +162,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.SequenceStartCharacter:
-		if t.lookbehind(token.MayPrecedeWord) {
+		if t.mayStartWord() {
 			c.switchContext(flowContextType)
 			tok.End = t.pos
 			tok.Type = token.SequenceStartType
@@ -159,7 +171,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		}
 
 	case yamlchar.MappingStartCharacter:
-		if t.lookbehind(token.MayPrecedeWord) {
+		if t.mayStartWord() {
 			c.switchContext(flowContextType)
 			tok.End = t.pos
 			tok.Type = token.MappingStartType
@@ -175,21 +187,21 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.AnchorCharacter:
-		if t.lookbehind(token.MayPrecedeWord) {
+		if t.mayStartWord() {
 			tok.End = t.pos
 			tok.Type = token.AnchorType
 			tok.Origin = string([]rune{r})
 			return tok, true
 		}
 	case yamlchar.AliasCharacter:
-		if t.lookbehind(token.MayPrecedeWord) {
+		if t.mayStartWord() {
 			tok.End = t.pos
 			tok.Type = token.AliasType
 			tok.Origin = string([]rune{r})
 			return tok, true
 		}
 	case yamlchar.TagCharacter:
-		if t.lookbehind(token.MayPrecedeWord) {
+		if t.mayStartWord() {
 			c.switchContext(tagContextType)
 			tok.End = t.pos
 			tok.Type = token.TagType
@@ -197,7 +209,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.LiteralCharacter:
-		if t.lookbehind(token.MayPrecedeWord) {
+		if t.mayStartWord() {
 			c.switchContext(multilineBlockStartContextType)
 			tok.End = t.pos
 			tok.Type = token.LiteralType
@@ -205,7 +217,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.FoldedCharacter:
-		if t.lookbehind(token.MayPrecedeWord) {
+		if t.mayStartWord() {
 			c.switchContext(multilineBlockStartContextType)
 			tok.End = t.pos
 			tok.Type = token.FoldedType
@@ -213,7 +225,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.SingleQuoteCharacter:
-		if t.lookbehind(token.MayPrecedeWord) {
+		if t.mayStartWord() {
 			c.switchContext(singleQuoteContextType)
 			tok.End = t.pos
 			tok.Type = token.SingleQuoteType
@@ -221,7 +233,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.DoubleQuoteCharacter:
-		if t.lookbehind(token.MayPrecedeWord) {
+		if t.mayStartWord() {
 			c.switchContext(doubleQuoteContextType)
 			tok.End = t.pos
 			tok.Type = token.DoubleQuoteType
@@ -229,7 +241,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.DirectiveCharacter:
-		if t.lookbehind(token.MayPrecedeWord) {
+		if t.mayStartWord() {
 			tok.End = t.pos
 			tok.Type = token.DirectiveType
 			tok.Origin = string([]rune{r})
@@ -239,7 +251,7 @@ func (c *context) blockMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		if t.lookahead(3, func(runes []rune) bool {
 			return runes[0] == runes[1] && runes[1] == yamlchar.DocumentEndCharacter &&
 				(yamlchar.IsBlankChar(runes[2]) || runes[2] == EOF)
-		}) && t.lookbehind(token.MayPrecedeWord) {
+		}) && t.mayStartWord() {
 			tok.Origin = string([]rune{r, t.ra.Next(), t.ra.Next()})
 			t.pos.Column += 2
 			tok.End = t.pos
@@ -257,7 +269,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 	case yamlchar.MappingKeyCharacter:
 		if t.lookahead(1, func(runes []rune) bool {
 			return yamlchar.IsBlankChar(runes[0]) || runes[0] == EOF
-		}) && t.lookbehind(mayPrecedeWordInFlow) {
+		}) && t.mayStartWordInFlow() {
 			tok.End = t.pos
 			tok.Type = token.MappingKeyType
 			tok.Origin = string([]rune{r})
@@ -306,14 +318,14 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		tok.Origin = string([]rune{r})
 		return tok, true
 	case yamlchar.AnchorCharacter:
-		if t.lookbehind(mayPrecedeWordInFlow) {
+		if t.mayStartWordInFlow() {
 			tok.End = t.pos
 			tok.Type = token.AnchorType
 			tok.Origin = string([]rune{r})
 			return tok, true
 		}
 	case yamlchar.AliasCharacter:
-		if t.lookbehind(mayPrecedeWordInFlow) {
+		if t.mayStartWordInFlow() {
 			tok.End = t.pos
 			tok.Type = token.AliasType
 			tok.Origin = string([]rune{r})
@@ -326,9 +338,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		tok.Origin = string([]rune{r})
 		return tok, true
 	case yamlchar.SingleQuoteCharacter:
-		if t.lookbehind(func(tok token.Token) bool {
-			return mayPrecedeWordInFlow(tok) || tok.Type == token.MappingValueType
-		}) {
+		if t.mayStartWordInFlow() || t.lookbehind(isMappingValue) {
 			c.switchContext(singleQuoteContextType)
 			tok.End = t.pos
 			tok.Type = token.SingleQuoteType
@@ -336,9 +346,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.DoubleQuoteCharacter:
-		if t.lookbehind(func(tok token.Token) bool {
-			return mayPrecedeWordInFlow(tok) || tok.Type == token.MappingValueType
-		}) {
+		if t.mayStartWordInFlow() || t.lookbehind(isMappingValue) {
 			c.switchContext(doubleQuoteContextType)
 			tok.End = t.pos
 			tok.Type = token.DoubleQuoteType
@@ -354,6 +362,10 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 	return c.baseMatching(t, r)
 }
 
+func isMappingValue(tok token.Token) bool {
+	return tok.Type == token.MappingValueType
+}
+
 func mayPrecedeWordInFlow(tok token.Token) bool {
 	return token.MayPrecedeWord(tok) || token.IsOpeningFlowIndicator(tok)
 }
diff --git a/engines/yayamls/lexer/tokenizer.go b/engines/yayamls/lexer/tokenizer.go
index ec5c8b7..2d19956 100644
--- a/engines/yayamls/lexer/tokenizer.go
+++ b/engines/yayamls/lexer/tokenizer.go
@@ -19,6 +19,9 @@ type Tokenizer struct {
 
 	lookaheadBuf  []rune
 	lookbehindTok token.Token
+	// afterPlain shows that there are only white spaces between current position and
+	// a plain text preceding it on the same line, so most of indicators are a part of the text.
+	afterPlain bool
 
 	preparedToken    token.Token
 	hasPreparedToken bool
@@ -98,6 +101,9 @@ func (t *Tokenizer) emitToken() token.Token {
 
 		specialTok, ok := t.ctx.matchSpecialToken(t, r)
 		if ok {
+			if !token.IsWhiteSpace(specialTok) {
+				t.afterPlain = false
+			}
 			if tok.Type != token.UnknownType {
 				t.preparedToken = specialTok
 				t.hasPreparedToken = true
@@ -117,6 +123,7 @@ func (t *Tokenizer) emitToken() token.Token {
 		if tok.Type == token.UnknownType {
 			tok.Type = token.StringType
 			tok.Start = curPos
+			t.afterPlain = t.ctx.allowsPlain() && !t.lookbehind(isNamePrefix)
 			t.lookbehindTok = tok
 		}
 		originBuilder.WriteRune(r)
@@ -138,3 +145,23 @@ func (t *Tokenizer) lookahead(count int, predicate func([]rune) bool) bool {
 func (t *Tokenizer) lookbehind(predicate func(token.Token) bool) bool {
 	return predicate(t.lookbehindTok)
 }
+
+// mayStartWord shows if token at current position may be a beginning of a new node,
+// i.e. it does not continue a plain text.
+func (t *Tokenizer) mayStartWord() bool {
+	return !t.afterPlain && t.lookbehind(token.MayPrecedeWord)
+}
+
+func (t *Tokenizer) mayStartWordInFlow() bool {
+	return !t.afterPlain && t.lookbehind(mayPrecedeWordInFlow)
+}
+
+// isNamePrefix shows if string following given token is a name (e.g. of an anchor) instead of plain text.
+func isNamePrefix(tok token.Token) bool {
+	switch tok.Type {
+	case token.AnchorType, token.AliasType, token.TagType, token.DirectiveType:
+		return true
+	default:
+		return false
+	}
+}
-- 
2.43.0


From bdc37d7f8f29673c6296146d4acf476e06efcf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:28 +0000
Subject: [PATCH 07/73] fix: do not visit an alias again after its anchored
 node is consumed

---
 engines/goyaml/decode/reader.go  | 4 +++-
 engines/yayamls/decode/reader.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 7a855d4..b65cc13 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -385,7 +385,9 @@ func (r *ASTReader) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		r.visitScalarNode(n)
 	case yaml.AliasNode:
-		r.pushRoutePoint(routePoint{
+		// alias is replaced with the anchored node, so the alias
+		// is not visited again after the node is consumed
+		r.swapRoutePoint(routePoint{
 			node: n.Alias,
 		})
 		r.visitNode(n.Alias)
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index a65ecce..9b8ac33 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -391,7 +391,9 @@ func (r *ASTReader) VisitAliasNode(n *ast.AliasNode) {
 	if err != nil {
 		r.appendError(err)
 	} else {
-		r.pushRoutePoint(routePoint{
+		// alias is replaced with the anchored node, so the alias
+		// is not visited again after the node is consumed
+		r.swapRoutePoint(routePoint{
 			node: anchored,
 		})
 		anchored.Accept(r)
-- 
2.43.0


From 7d3f465dca556f3f1e7b3a591cd1c4c62050333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:46 +0000
Subject: [PATCH 08/73] fix: do not drop unread nodes when nil error is added
 to goyaml reader

---
 engines/goyaml/decode/reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index b65cc13..00c0108 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -553,6 +553,9 @@ func (r *ASTReader) AddError(err error) {
 }
 
 func (r *ASTReader) setFatalError(err error) {
+	if err == nil {
+		return
+	}
 	for _, point := range r.route {
 		if point.iter != nil {
 			for !point.iter.empty() {
-- 
2.43.0


From 850e7a903a4b5662ccc77500cab25552ecb5464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:46 +0000
Subject: [PATCH 09/73] fix: exhaust collections being read when yayamls reader
 gets fatal error

---
 engines/yayamls/decode/reader.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 9b8ac33..6d31499 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -626,7 +626,7 @@ func (r *ASTReader) appendError(err error) {
 	if r.multipleDenyErrors && errors.Is(err, yamly.ErrDenied) {
 		r.denyErrors = append(r.denyErrors, err)
 	} else if r.fatalError == nil {
-		r.fatalError = err
+		r.setFatalError(err)
 	}
 }
 
@@ -644,6 +644,22 @@ func (r *ASTReader) Error() error {
 
 func (r *ASTReader) AddError(err error) {
 	if r.fatalError == nil {
-		r.fatalError = err
+		r.setFatalError(err)
 	}
 }
+
+// setFatalError stores the error and exhausts iterators of all collections being read,
+// because nothing can be read after fatal error.
+func (r *ASTReader) setFatalError(err error) {
+	if err == nil {
+		return
+	}
+	for _, point := range r.route {
+		if point.iter != nil {
+			for !point.iter.empty() {
+				point.iter.node()
+			}
+		}
+	}
+	r.fatalError = err
+}
-- 
2.43.0


From d60c49ce17e224553187381d1d3d7c8f18d27568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:12 +0000
Subject: [PATCH 10/73] fix: resolve aliases in document order and report
 self-referring anchors in yayamls reader

---
 engines/yayamls/decode/anchors.go | 129 ++++++++++++++++++++++++++----
 engines/yayamls/decode/any.go     |  23 +++---
 engines/yayamls/decode/error.go   |   8 ++
 engines/yayamls/decode/reader.go  |  38 +++------
 4 files changed, 143 insertions(+), 55 deletions(-)

diff --git a/engines/yayamls/decode/anchors.go b/engines/yayamls/decode/anchors.go
index 917c47d..b1ecc66 100644
--- a/engines/yayamls/decode/anchors.go
+++ b/engines/yayamls/decode/anchors.go
@@ -4,40 +4,135 @@ import (
 	"github.com/KSpaceer/yamly/engines/yayamls/ast"
 )
 
+// anchorsKeeper contains nodes referred to by aliases of the tree.
+// Alias refers to the most recent preceding node (in order of the document) having the same anchor,
+// so aliases are resolved before the reading: reader may skip anchored nodes or visit them many times.
 type anchorsKeeper struct {
-	anchors    map[string]ast.Node
-	metAnchor  bool
-	anchorName string
+	aliases map[*ast.AliasNode]ast.Node
 }
 
 func newAnchorsKeeper() anchorsKeeper {
 	return anchorsKeeper{
-		anchors: map[string]ast.Node{},
+		aliases: map[*ast.AliasNode]ast.Node{},
 	}
 }
 
-func (ak *anchorsKeeper) StoreAnchor(anchorName string) {
-	ak.metAnchor = true
-	ak.anchorName = anchorName
+// Resolve finds nodes for all aliases in the tree.
+func (ak *anchorsKeeper) Resolve(tree ast.Node) {
+	ak.resolve(tree, map[string]ast.Node{})
 }
 
-func (ak *anchorsKeeper) BindToLatestAnchor(n ast.Node) {
-	if ak.metAnchor {
-		ak.anchors[ak.anchorName] = n
-		ak.metAnchor = false
+func (ak *anchorsKeeper) resolve(n ast.Node, anchors map[string]ast.Node) {
+	switch n := n.(type) {
+	case *ast.StreamNode:
+		for _, doc := range n.Documents() {
+			ak.resolve(doc, map[string]ast.Node{})
+		}
+	case *ast.SequenceNode:
+		for _, entry := range n.Entries() {
+			ak.resolve(entry, anchors)
+		}
+	case *ast.MappingNode:
+		for _, entry := range n.Entries() {
+			ak.resolve(entry, anchors)
+		}
+	case *ast.MappingEntryNode:
+		ak.resolve(n.Key(), anchors)
+		ak.resolve(n.Value(), anchors)
+	case *ast.ContentNode:
+		if properties, ok := n.Properties().(*ast.PropertiesNode); ok {
+			if anchor, ok := properties.Anchor().(*ast.AnchorNode); ok {
+				anchors[anchor.Text()] = n.Content()
+			}
+		}
+		ak.resolve(n.Content(), anchors)
+	case *ast.AliasNode:
+		if anchored, ok := anchors[n.Text()]; ok {
+			ak.aliases[n] = anchored
+		}
 	}
 }
 
-func (ak *anchorsKeeper) DereferenceAlias(alias string) (ast.Node, error) {
-	anchored, ok := ak.anchors[alias]
+// DereferenceAlias returns node the alias refers to.
+func (ak *anchorsKeeper) DereferenceAlias(alias *ast.AliasNode) (ast.Node, error) {
+	anchored, ok := ak.aliases[alias]
 	if !ok {
-		return nil, AliasDereferenceError{name: alias}
+		return nil, AliasDereferenceError{name: alias.Text()}
 	}
 	return anchored, nil
 }
 
 func (ak *anchorsKeeper) clear() {
-	clear(ak.anchors)
-	ak.metAnchor = false
-	ak.anchorName = ""
+	clear(ak.aliases)
+}
+
+// aliasesDereferencer replaces aliases with nodes they refer to, because
+// anchored nodes can be outside of the subtree.
+type aliasesDereferencer struct {
+	anchors *anchorsKeeper
+	visited map[*ast.AliasNode]struct{}
+}
+
+func newAliasesDereferencer(anchors *anchorsKeeper) aliasesDereferencer {
+	return aliasesDereferencer{
+		anchors: anchors,
+		visited: map[*ast.AliasNode]struct{}{},
+	}
+}
+
+func (d *aliasesDereferencer) dereference(n ast.Node) (ast.Node, error) {
+	switch n := n.(type) {
+	case *ast.SequenceNode:
+		entries, err := d.dereferenceAll(n.Entries())
+		if err != nil {
+			return nil, err
+		}
+		return ast.NewSequenceNode(entries), nil
+	case *ast.MappingNode:
+		entries, err := d.dereferenceAll(n.Entries())
+		if err != nil {
+			return nil, err
+		}
+		return ast.NewMappingNode(entries), nil
+	case *ast.MappingEntryNode:
+		pair, err := d.dereferenceAll([]ast.Node{n.Key(), n.Value()})
+		if err != nil {
+			return nil, err
+		}
+		return ast.NewMappingEntryNode(pair[0], pair[1]), nil
+	case *ast.ContentNode:
+		content, err := d.dereference(n.Content())
+		if err != nil {
+			return nil, err
+		}
+		if properties, ok := n.Properties().(*ast.PropertiesNode); ok && ast.ValidNode(properties.Tag()) {
+			return ast.NewContentNode(ast.NewPropertiesNode(properties.Tag(), nil), content), nil
+		}
+		return content, nil
+	case *ast.AliasNode:
+		if _, ok := d.visited[n]; ok {
+			return nil, SelfReferenceError{name: n.Text()}
+		}
+		anchored, err := d.anchors.DereferenceAlias(n)
+		if err != nil {
+			return nil, err
+		}
+		d.visited[n] = struct{}{}
+		defer delete(d.visited, n)
+		return d.dereference(anchored)
+	default:
+		return n, nil
+	}
+}
+
+func (d *aliasesDereferencer) dereferenceAll(nodes []ast.Node) ([]ast.Node, error) {
+	result := make([]ast.Node, 0, len(nodes))
+	for _, n := range nodes {
+		n, err := d.dereference(n)
+		if err != nil {
+			return nil, err
+		}
+		result = append(result, n)
+	}
+	return result, nil
 }
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index fd7b9de..d3c49e9 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -18,12 +18,14 @@ type anyBuilder struct {
 	mergeMap        map[string]any
 
 	anchors *anchorsKeeper
+	visited map[*ast.AliasNode]struct{}
 	errors  []error
 }
 
 func newAnyBuilder(anchors *anchorsKeeper) anyBuilder {
 	return anyBuilder{
 		anchors: anchors,
+		visited: map[*ast.AliasNode]struct{}{},
 	}
 }
 
@@ -41,16 +43,20 @@ func (a *anyBuilder) VisitStreamNode(*ast.StreamNode) {
 
 func (*anyBuilder) VisitTagNode(*ast.TagNode) {}
 
-func (a *anyBuilder) VisitAnchorNode(n *ast.AnchorNode) {
-	a.anchors.StoreAnchor(n.Text())
-}
+func (*anyBuilder) VisitAnchorNode(*ast.AnchorNode) {}
 
 func (a *anyBuilder) VisitAliasNode(n *ast.AliasNode) {
-	anchored, err := a.anchors.DereferenceAlias(n.Text())
+	if _, ok := a.visited[n]; ok {
+		a.appendError(SelfReferenceError{name: n.Text()})
+		return
+	}
+	anchored, err := a.anchors.DereferenceAlias(n)
 	if err != nil {
 		a.appendError(err)
 	} else {
+		a.visited[n] = struct{}{}
 		a.visitNode(anchored)
+		delete(a.visited, n)
 	}
 }
 
@@ -144,15 +150,10 @@ func (a *anyBuilder) VisitNullNode(*ast.NullNode) {
 	}
 }
 
-func (a *anyBuilder) VisitPropertiesNode(n *ast.PropertiesNode) {
-	a.visitNode(n.Anchor())
-}
+func (*anyBuilder) VisitPropertiesNode(*ast.PropertiesNode) {}
 
 func (a *anyBuilder) VisitContentNode(n *ast.ContentNode) {
-	a.visitNode(n.Properties())
-	content := n.Content()
-	a.anchors.BindToLatestAnchor(content)
-	a.visitNode(content)
+	a.visitNode(n.Content())
 }
 
 func (a *anyBuilder) extractAnyValueFromText(n *ast.TextNode) {
diff --git a/engines/yayamls/decode/error.go b/engines/yayamls/decode/error.go
index f8cabba..b7cd4bb 100644
--- a/engines/yayamls/decode/error.go
+++ b/engines/yayamls/decode/error.go
@@ -27,3 +27,11 @@ type AliasDereferenceError struct {
 func (ade AliasDereferenceError) Error() string {
 	return fmt.Sprintf("failed to dereference alias %q", ade.name)
 }
+
+type SelfReferenceError struct {
+	name string
+}
+
+func (sre SelfReferenceError) Error() string {
+	return fmt.Sprintf("anchored node %q contains itself", sre.name)
+}
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 6d31499..e905436 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -139,6 +139,7 @@ func NewASTReader(tree ast.Node, opts ...ReaderOption) *ASTReader {
 
 func (r *ASTReader) setAST(tree ast.Node) {
 	r.reset()
+	r.anchors.Resolve(tree)
 	r.pushRoutePoint(routePoint{
 		node: tree,
 	})
@@ -329,8 +330,14 @@ func (r *ASTReader) Raw() []byte {
 		r.latestDenyError = nil
 		return nil
 	}
+	dereferencer := newAliasesDereferencer(&r.anchors)
+	n, err := dereferencer.dereference(r.currentNode())
+	if err != nil {
+		r.appendError(err)
+		return nil
+	}
 	w := encode.NewASTWriter()
-	v, err := w.WriteBytes(r.currentNode())
+	v, err := w.WriteBytes(n)
 	if err != nil {
 		r.appendError(err)
 		return nil
@@ -381,13 +388,11 @@ func (r *ASTReader) VisitTagNode(n *ast.TagNode) {
 }
 
 func (r *ASTReader) VisitAnchorNode(n *ast.AnchorNode) {
-	r.anchors.StoreAnchor(n.Text())
-
 	r.visitTexterNode(n)
 }
 
 func (r *ASTReader) VisitAliasNode(n *ast.AliasNode) {
-	anchored, err := r.anchors.DereferenceAlias(n.Text())
+	anchored, err := r.anchors.DereferenceAlias(n)
 	if err != nil {
 		r.appendError(err)
 	} else {
@@ -473,7 +478,7 @@ func (r *ASTReader) VisitContentNode(n *ast.ContentNode) {
 		point.iter = newContentIterator(n)
 	}
 
-	r.processComplexPoint(point, 2, beforeVisit(r.anchors.BindToLatestAnchor))
+	r.processComplexPoint(point, 2)
 }
 
 func (r *ASTReader) visitTexterNode(n ast.TexterNode) {
@@ -503,24 +508,7 @@ func (r *ASTReader) visitTexterNode(n ast.TexterNode) {
 	}
 }
 
-type complexPointOptions struct {
-	beforeVisitFuncs []func(ast.Node)
-}
-
-type complexPointOption func(*complexPointOptions)
-
-func beforeVisit(f func(ast.Node)) complexPointOption {
-	return complexPointOption(func(options *complexPointOptions) {
-		options.beforeVisitFuncs = append(options.beforeVisitFuncs, f)
-	})
-}
-
-func (r *ASTReader) processComplexPoint(point routePoint, childrenSize int, opts ...complexPointOption) {
-	var o complexPointOptions
-	for _, opt := range opts {
-		opt(&o)
-	}
-
+func (r *ASTReader) processComplexPoint(point routePoint, childrenSize int) {
 	point.visitingResult = r.currentExpecter.process(point.node, point.visitingResult)
 	r.lastVisitingResult = point.visitingResult
 	r.swapRoutePoint(point)
@@ -537,10 +525,6 @@ func (r *ASTReader) processComplexPoint(point routePoint, childrenSize int, opts
 		for r.lastVisitingResult.conclusion == visitingConclusionContinue && !point.iter.empty() {
 			node := point.iter.node()
 
-			for _, beforeVisitFunc := range o.beforeVisitFuncs {
-				beforeVisitFunc(node)
-			}
-
 			if ast.ValidNode(node) {
 				r.pushRoutePoint(routePoint{
 					node: node,
-- 
2.43.0


From c2d40da8019116ec15bb360741d0ba69b1e54c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:21 +0000
Subject: [PATCH 11/73] fix: report self-referring anchors in goyaml reader
 instead of stack overflow

---
 engines/goyaml/decode/any.go    | 18 ++++++++++++++++--
 engines/goyaml/decode/error.go  |  8 ++++++++
 engines/goyaml/decode/raw.go    | 15 +++++++++++++--
 engines/goyaml/decode/reader.go |  6 +++++-
 4 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index a0dbe15..574a436 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -17,7 +17,8 @@ type anyBuilder struct {
 	extractMergeMap bool
 	mergeMap        map[string]any
 
-	errors []error
+	visited map[*yaml.Node]struct{}
+	errors  []error
 }
 
 func (a *anyBuilder) extractAnyValue(n *yaml.Node) (any, error) {
@@ -43,10 +44,23 @@ func (a *anyBuilder) visitNode(n *yaml.Node) {
 	case yaml.ScalarNode:
 		a.visitScalarNode(n)
 	case yaml.AliasNode:
-		a.visitNode(n.Alias)
+		a.visitAliasNode(n)
 	}
 }
 
+func (a *anyBuilder) visitAliasNode(n *yaml.Node) {
+	if _, ok := a.visited[n]; ok {
+		a.appendError(SelfReferenceError{name: n.Value})
+		return
+	}
+	if a.visited == nil {
+		a.visited = map[*yaml.Node]struct{}{}
+	}
+	a.visited[n] = struct{}{}
+	a.visitNode(n.Alias)
+	delete(a.visited, n)
+}
+
 func (a *anyBuilder) visitSequenceNode(n *yaml.Node) {
 	s := make([]any, 0, len(n.Content))
 
diff --git a/engines/goyaml/decode/error.go b/engines/goyaml/decode/error.go
index 6ec8b68..69351dd 100644
--- a/engines/goyaml/decode/error.go
+++ b/engines/goyaml/decode/error.go
@@ -29,3 +29,11 @@ type AliasDereferenceError struct {
 func (ade AliasDereferenceError) Error() string {
 	return fmt.Sprintf("failed to dereference alias %q", ade.name)
 }
+
+type SelfReferenceError struct {
+	name string
+}
+
+func (sre SelfReferenceError) Error() string {
+	return fmt.Sprintf("anchored node %q contains itself", sre.name)
+}
diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index d9c60f5..344414c 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -22,11 +22,16 @@ type rawTransformer struct {
 	metAnchors     map[string]struct{}
 
 	dereferencedAliases []dereferencedAliasInfo
+
+	// visited contains collections which are being transformed.
+	visited map[*yaml.Node]struct{}
+	err     error
 }
 
 func newRawTransformer() rawTransformer {
 	return rawTransformer{
 		metAnchors: map[string]struct{}{},
+		visited:    map[*yaml.Node]struct{}{},
 	}
 }
 
@@ -36,14 +41,14 @@ type dereferencedAliasInfo struct {
 	idx    int
 }
 
-func (rt *rawTransformer) transform(n *yaml.Node) *yaml.Node {
+func (rt *rawTransformer) transform(n *yaml.Node) (*yaml.Node, error) {
 	rt.topLevelAnchor = n.Anchor
 	n.Anchor = ""
 	rt.visitNode(n)
 	if n.Kind == yaml.AliasNode {
 		n = n.Alias
 	}
-	return n
+	return n, rt.err
 }
 
 func (rt *rawTransformer) visitNode(n *yaml.Node) {
@@ -54,6 +59,12 @@ func (rt *rawTransformer) visitNode(n *yaml.Node) {
 	case yaml.AliasNode:
 		rt.visitNode(n.Alias)
 	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
+		if _, ok := rt.visited[n]; ok {
+			rt.err = SelfReferenceError{name: n.Anchor}
+			return
+		}
+		rt.visited[n] = struct{}{}
+		defer delete(rt.visited, n)
 		for i, child := range n.Content {
 			if child.Kind == yaml.AliasNode {
 				if _, metAnchor := rt.metAnchors[child.Value]; !metAnchor {
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 00c0108..05d5367 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -322,7 +322,11 @@ func (r *ASTReader) Raw() []byte {
 	}
 	curNode := r.currentNode()
 	transformer := newRawTransformer()
-	v, err := yaml.Marshal(transformer.transform(curNode))
+	tree, err := transformer.transform(curNode)
+	var v []byte
+	if err == nil {
+		v, err = yaml.Marshal(tree)
+	}
 	transformer.restore(curNode)
 	if err != nil {
 		r.appendError(err)
-- 
2.43.0


From 0376e1416c0bfa803e81b3b87dd140c9f520603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:45 +0000
Subject: [PATCH 12/73] fix: merge nested mappings and sequences of mappings
 properly

---
 engines/goyaml/decode/any.go  | 34 +++++++++++++++++++++++++---------
 engines/yayamls/decode/any.go | 34 +++++++++++++++++++++++++---------
 2 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index 574a436..c4148bf 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -64,8 +64,8 @@ func (a *anyBuilder) visitAliasNode(n *yaml.Node) {
 func (a *anyBuilder) visitSequenceNode(n *yaml.Node) {
 	s := make([]any, 0, len(n.Content))
 
-	savedExtractString := a.extractString
-	a.extractString = false
+	savedExtractString, savedExtractMergeMap := a.extractString, a.extractMergeMap
+	a.extractString, a.extractMergeMap = false, false
 
 	for _, entry := range n.Content {
 		a.visitNode(entry)
@@ -74,15 +74,33 @@ func (a *anyBuilder) visitSequenceNode(n *yaml.Node) {
 		}
 	}
 
-	a.extractString = savedExtractString
+	a.extractString, a.extractMergeMap = savedExtractString, savedExtractMergeMap
 
-	if a.extractString {
+	switch {
+	case a.extractMergeMap && !a.hasErrors():
+		a.extractMergeMapFromSequence(s)
+	case a.extractString:
 		a.stringValue = fmt.Sprint(s)
-	} else {
+	default:
 		a.value = s
 	}
 }
 
+// extractMergeMapFromSequence merges all mappings of the sequence, if it contains only mappings.
+// Mappings earlier in the sequence override later ones.
+func (a *anyBuilder) extractMergeMapFromSequence(s []any) {
+	m := map[string]any{}
+	for i := range s {
+		elem, ok := s[i].(map[string]any)
+		if !ok {
+			a.value = s
+			return
+		}
+		mergeMaps(m, elem)
+	}
+	a.mergeMap = m
+}
+
 func (a *anyBuilder) visitMappingNode(n *yaml.Node) {
 	m := make(map[string]any, len(n.Content)/2)
 	entriesAmount := len(n.Content)
@@ -132,11 +150,9 @@ func mergeMaps(dst, src map[string]any) {
 func (a *anyBuilder) processMappingPair(keyNode, valueNode *yaml.Node) {
 	savedExtractString, savedExtractMergeMap := a.extractString, a.extractMergeMap
 
-	a.extractString = true
+	a.extractString, a.extractMergeMap = true, false
 	a.visitNode(keyNode)
-	if a.stringValue == schema.MergeKey {
-		a.extractMergeMap = true
-	}
+	a.extractMergeMap = a.stringValue == schema.MergeKey
 
 	key := a.stringValue
 	a.extractString = false
diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index d3c49e9..7ea5df5 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -72,8 +72,8 @@ func (a *anyBuilder) VisitSequenceNode(n *ast.SequenceNode) {
 	entries := n.Entries()
 	s := make([]any, 0, len(entries))
 
-	savedExtractString := a.extractString
-	a.extractString = false
+	savedExtractString, savedExtractMergeMap := a.extractString, a.extractMergeMap
+	a.extractString, a.extractMergeMap = false, false
 
 	for _, entry := range entries {
 		a.visitNode(entry)
@@ -82,15 +82,33 @@ func (a *anyBuilder) VisitSequenceNode(n *ast.SequenceNode) {
 		}
 	}
 
-	a.extractString = savedExtractString
+	a.extractString, a.extractMergeMap = savedExtractString, savedExtractMergeMap
 
-	if a.extractString {
+	switch {
+	case a.extractMergeMap && !a.hasErrors():
+		a.extractMergeMapFromSequence(s)
+	case a.extractString:
 		a.stringValue = fmt.Sprint(s)
-	} else {
+	default:
 		a.value = s
 	}
 }
 
+// extractMergeMapFromSequence merges all mappings of the sequence, if it contains only mappings.
+// Mappings earlier in the sequence override later ones.
+func (a *anyBuilder) extractMergeMapFromSequence(s []any) {
+	m := map[string]any{}
+	for i := range s {
+		elem, ok := s[i].(map[string]any)
+		if !ok {
+			a.value = s
+			return
+		}
+		mergeMaps(m, elem)
+	}
+	a.mergeMap = m
+}
+
 func (a *anyBuilder) VisitMappingNode(n *ast.MappingNode) {
 	entries := n.Entries()
 	m := make(map[string]any, len(entries))
@@ -126,11 +144,9 @@ func mergeMaps(dst, src map[string]any) {
 func (a *anyBuilder) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 	savedExtractString, savedExtractMergeMap := a.extractString, a.extractMergeMap
 
-	a.extractString = true
+	a.extractString, a.extractMergeMap = true, false
 	a.visitNode(n.Key())
-	if a.stringValue == schema.MergeKey {
-		a.extractMergeMap = true
-	}
+	a.extractMergeMap = a.stringValue == schema.MergeKey
 
 	key := a.stringValue
 	a.extractString = false
-- 
2.43.0


From 303bcca15c1b70fe577e13a26c73b145d69f99a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:18 +0000
Subject: [PATCH 13/73] fix: decode single pairs of flow sequences as mappings

---
 engines/yayamls/decode/any.go      |  2 +-
 engines/yayamls/decode/iterator.go | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/any.go b/engines/yayamls/decode/any.go
index 7ea5df5..72a83fb 100644
--- a/engines/yayamls/decode/any.go
+++ b/engines/yayamls/decode/any.go
@@ -69,7 +69,7 @@ func (a *anyBuilder) VisitTextNode(n *ast.TextNode) {
 }
 
 func (a *anyBuilder) VisitSequenceNode(n *ast.SequenceNode) {
-	entries := n.Entries()
+	entries := sequenceItems(n)
 	s := make([]any, 0, len(entries))
 
 	savedExtractString, savedExtractMergeMap := a.extractString, a.extractMergeMap
diff --git a/engines/yayamls/decode/iterator.go b/engines/yayamls/decode/iterator.go
index aa0ac1f..16b1fd6 100644
--- a/engines/yayamls/decode/iterator.go
+++ b/engines/yayamls/decode/iterator.go
@@ -32,10 +32,24 @@ func newStreamIterator(s *ast.StreamNode) nodeIterator {
 func newSequenceIterator(s *ast.SequenceNode) nodeIterator {
 	return &nodeIteratorImpl{
 		i:     0,
-		nodes: s.Entries(),
+		nodes: sequenceItems(s),
 	}
 }
 
+// sequenceItems returns entries of the sequence. Single pairs of flow sequence (e.g. "[key: value]")
+// are mappings containing the only entry.
+func sequenceItems(s *ast.SequenceNode) []ast.Node {
+	entries := s.Entries()
+	items := make([]ast.Node, 0, len(entries))
+	for _, entry := range entries {
+		if ast.ValidNode(entry) && entry.Type() == ast.MappingEntryType {
+			entry = ast.NewMappingNode([]ast.Node{entry})
+		}
+		items = append(items, entry)
+	}
+	return items
+}
+
 func newMappingIterator(m *ast.MappingNode) nodeIterator {
 	return &nodeIteratorImpl{
 		i:     0,
-- 
2.43.0


From 8eb6994a58c0497cbe9c96a8b29b6ad0b2fe9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:33 +0000
Subject: [PATCH 14/73] fix: compare amounts of children when comparing ASTs

---
 engines/yayamls/ast/astcmp/comparator.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/engines/yayamls/ast/astcmp/comparator.go b/engines/yayamls/ast/astcmp/comparator.go
index 7496c50..a9f3282 100644
--- a/engines/yayamls/ast/astcmp/comparator.go
+++ b/engines/yayamls/ast/astcmp/comparator.go
@@ -62,6 +62,30 @@ func (c *Comparator) compareNodes(first, second ast.Node) bool {
 			return f.Text() == sf.Text()
 		}
 		return false
+	default:
+		return c.compareChildren(first, second)
+	}
+}
+
+// compareChildren shows if nodes of the same type have the same set of children.
+// The children themselves are compared during traversal.
+func (*Comparator) compareChildren(first, second ast.Node) bool {
+	switch f := first.(type) {
+	case *ast.StreamNode:
+		s, ok := second.(*ast.StreamNode)
+		return ok && len(f.Documents()) == len(s.Documents())
+	case *ast.SequenceNode:
+		s, ok := second.(*ast.SequenceNode)
+		return ok && len(f.Entries()) == len(s.Entries())
+	case *ast.MappingNode:
+		s, ok := second.(*ast.MappingNode)
+		return ok && len(f.Entries()) == len(s.Entries())
+	case *ast.MappingEntryNode:
+		s, ok := second.(*ast.MappingEntryNode)
+		return ok && (f.Key() == nil) == (s.Key() == nil) && (f.Value() == nil) == (s.Value() == nil)
+	case *ast.ContentNode:
+		s, ok := second.(*ast.ContentNode)
+		return ok && (f.Properties() == nil) == (s.Properties() == nil) && (f.Content() == nil) == (s.Content() == nil)
 	default:
 		return true
 	}
-- 
2.43.0


From ca4e204a9952ed403828ef4c48af79e2687dd127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:47 +0000
Subject: [PATCH 15/73] fix: define indentation of block scalars by their
 parent and first non-empty line

---
 engines/yayamls/parser/block.go   | 92 ++++++++++++++++++++++---------
 engines/yayamls/parser/indents.go | 11 +++-
 2 files changed, 77 insertions(+), 26 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 066878b..c0e77f6 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -464,18 +464,71 @@ func (p *parser) parseFolded(ind *indentation) ast.Node {
 	if !ok {
 		ast.NewInvalidNode()
 	}
-	foldedInd := indentation{
-		value: ind.value,
-		mode:  withLowerBoundIndentationMode,
-	}
-	if indVal := castedHeader.IndentationIndicator(); indVal != 0 {
-		foldedInd.value = ind.value + indVal
-		foldedInd.mode = strictEqualityIndentationMode
-	}
+	foldedInd := p.blockScalarIndentation(ind, castedHeader)
 	content := p.parseFoldedContent(&foldedInd, castedHeader.ChompingIndicator())
 	return content
 }
 
+// blockScalarIndentation returns indentation of block scalar's content lines: it is either set by
+// the header explicitly or defined by the first non-empty line.
+// The content must be indented more than the parent node.
+func (p *parser) blockScalarIndentation(parent *indentation, header *ast.BlockHeaderNode) indentation {
+	result := indentation{
+		value: parent.value + 1,
+		mode:  strictEqualityIndentationMode,
+	}
+	if indVal := header.IndentationIndicator(); indVal != 0 {
+		result.value = parent.value + indVal
+		if parent.value < 0 {
+			result.value = indVal
+		}
+		return result
+	}
+
+	minIndent := result.value
+	p.setCheckpoint()
+	for {
+		var indent int
+		for p.tok.Type == token.SpaceType {
+			indent++
+			p.nextInBlockScalar(indent >= minIndent)
+		}
+		isEnd := p.tok.Type == token.EOFType || p.atDocumentMarker()
+		if p.tok.Type != token.LineBreakType && !isEnd {
+			result.value = minIndent
+			if indent > minIndent {
+				result.value = indent
+			}
+			break
+		}
+		// empty lines define the indentation only if there are no other lines
+		if indent > result.value {
+			result.value = indent
+		}
+		if isEnd {
+			break
+		}
+		p.next()
+	}
+	p.rollback()
+	return result
+}
+
+// atDocumentMarker shows if current token finishes the document.
+func (p *parser) atDocumentMarker() bool {
+	return p.startOfLine && (p.tok.Type == token.DirectiveEndType || p.tok.Type == token.DocumentEndType)
+}
+
+// nextInBlockScalar gets a token following an indentation space in block scalar.
+// If the line is indented enough, the token is a part of the scalar.
+func (p *parser) nextInBlockScalar(isContent bool) {
+	if isContent {
+		p.tokSrc.SetRawMode()
+		defer p.tokSrc.UnsetRawMode()
+	}
+	p.next()
+}
+
 // YAML specification: [182] l-folded-content
 func (p *parser) parseFoldedContent(ind *indentation, chomping ast.ChompingType) ast.Node {
 	if p.hasErrors() {
@@ -590,14 +643,12 @@ func (p *parser) parseSpacedText(ind *indentation, buf *bytes.Buffer) ast.Node {
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
-	if !ast.ValidNode(p.parseIndent(ind)) {
+	if !ast.ValidNode(p.parseBlockLinePrefix(ind)) {
 		return ast.NewInvalidNode()
 	}
 	if !token.IsWhiteSpace(p.tok) {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
-	p.next()
 	p.tokSrc.SetRawMode()
 	for token.IsNonBreak(p.tok) {
 		buf.WriteString(p.tok.Origin)
@@ -657,14 +708,12 @@ func (p *parser) parseFoldedLines(ind *indentation, buf *bytes.Buffer) ast.Node
 
 // YAML specification: [175] s-nb-folded-text
 func (p *parser) parseFoldedText(ind *indentation, buf *bytes.Buffer) ast.Node {
-	if p.hasErrors() || !ast.ValidNode(p.parseIndent(ind)) {
+	if p.hasErrors() || !ast.ValidNode(p.parseBlockLinePrefix(ind)) {
 		return ast.NewInvalidNode()
 	}
-	if !token.IsNonBreak(p.tok) || token.IsWhiteSpace(p.tok) {
+	if !token.IsNonBreak(p.tok) || token.IsWhiteSpace(p.tok) || p.atDocumentMarker() {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
-	p.next()
 	p.tokSrc.SetRawMode()
 	for token.IsNonBreak(p.tok) {
 		buf.WriteString(p.tok.Origin)
@@ -743,14 +792,7 @@ func (p *parser) parseLiteral(ind *indentation) ast.Node {
 	if !ok {
 		return ast.NewInvalidNode()
 	}
-	literalInd := indentation{
-		value: ind.value,
-		mode:  withLowerBoundIndentationMode,
-	}
-	if indVal := castedHeader.IndentationIndicator(); indVal != 0 {
-		literalInd.value = ind.value + indVal
-		literalInd.mode = strictEqualityIndentationMode
-	}
+	literalInd := p.blockScalarIndentation(ind, castedHeader)
 	content := p.parseLiteralContent(&literalInd, castedHeader.ChompingIndicator())
 	return content
 }
@@ -938,10 +980,10 @@ func (p *parser) parseLiteralText(ind *indentation, buf *bytes.Buffer) ast.Node
 		}
 		p.commit()
 	}
-	if !ast.ValidNode(p.parseIndent(ind)) {
+	if !ast.ValidNode(p.parseBlockLinePrefix(ind)) {
 		return ast.NewInvalidNode()
 	}
-	if !token.IsNonBreak(p.tok) {
+	if !token.IsNonBreak(p.tok) || p.atDocumentMarker() {
 		return ast.NewInvalidNode()
 	}
 	p.tokSrc.SetRawMode()
diff --git a/engines/yayamls/parser/indents.go b/engines/yayamls/parser/indents.go
index 41265d4..f1140e9 100644
--- a/engines/yayamls/parser/indents.go
+++ b/engines/yayamls/parser/indents.go
@@ -151,7 +151,16 @@ func (p *parser) parseEmpty(ind *indentation, ctx context, buf *bytes.Buffer) as
 
 // YAML specification: [68] s-block-line-prefix
 func (p *parser) parseBlockLinePrefix(ind *indentation) ast.Node {
-	return p.parseIndent(ind)
+	if p.hasErrors() {
+		return ast.NewInvalidNode()
+	}
+	for i := ind.value; i > 0; i-- {
+		if p.tok.Type != token.SpaceType {
+			return ast.NewInvalidNode()
+		}
+		p.nextInBlockScalar(i == 1)
+	}
+	return ast.NewIndentNode(ind.value)
 }
 
 // YAML specification: [67] s-line-prefix
-- 
2.43.0


From 7880790dc5ec98769351bebaa3ddccd31c8d4c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:29 +0000
Subject: [PATCH 16/73] fix: accept flow indicators in block keys and sequence
 entries at the end of source

---
 engines/yayamls/parser/block.go | 2 +-
 engines/yayamls/parser/flow.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index c0e77f6..b57cc54 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -324,7 +324,7 @@ func (p *parser) parseBlockSequenceEntry(ind *indentation) ast.Node {
 	}
 	p.next()
 	switch p.tok.Type {
-	case token.SpaceType, token.TabType, token.LineBreakType:
+	case token.SpaceType, token.TabType, token.LineBreakType, token.EOFType:
 		return p.parseBlockIndented(ind, blockInContext)
 	default:
 		return ast.NewInvalidNode()
diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 2f0bbff..59f9a1b 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -1091,9 +1091,9 @@ func (p *parser) parsePlainFirst(ctx context, buf *bytes.Buffer) ast.Node {
 
 func isPlainSafeToken(tok token.Token, ctx context) bool {
 	switch ctx {
-	case flowInContext, flowOutContext:
+	case flowInContext, flowOutContext, blockKeyContext:
 		return tok.Type == token.StringType
-	case blockKeyContext, flowKeyContext:
+	case flowKeyContext:
 		return tok.Type == token.StringType && tok.ConformsCharSet(yamlchar.PlainSafeCharSetType)
 	default:
 		return false
-- 
2.43.0


From 487482ed4e3066ac0150bb39aa1823ebb4aea380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:06 +0000
Subject: [PATCH 17/73] fix: write empty sequences and mappings instead of
 omitting them

---
 engines/yayamls/encode/writer.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 325f2af..4913185 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -195,6 +195,10 @@ func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 }
 
 func (w *ASTWriter) VisitSequenceNode(n *ast.SequenceNode) {
+	if len(n.Entries()) == 0 {
+		w.writeEmptyCollection("[]")
+		return
+	}
 	w.writePreparedData(n)
 	for _, entry := range n.Entries() {
 		w.maybeWriteIndentation()
@@ -209,6 +213,10 @@ func (w *ASTWriter) VisitSequenceNode(n *ast.SequenceNode) {
 }
 
 func (w *ASTWriter) VisitMappingNode(n *ast.MappingNode) {
+	if len(n.Entries()) == 0 {
+		w.writeEmptyCollection("{}")
+		return
+	}
 	w.writePreparedData(n)
 	for _, entry := range n.Entries() {
 		w.maybeWriteIndentation()
@@ -295,6 +303,15 @@ func (w *ASTWriter) writePreparedData(n ast.Node) {
 	w.beforeSimple = ""
 }
 
+// writeEmptyCollection writes collection without elements: it can't be represented
+// with block style, so it is written in the same way as simple elements.
+func (w *ASTWriter) writeEmptyCollection(s string) {
+	w.buf.WriteString(w.beforeSimple)
+	w.beforeComplex = ""
+	w.beforeSimple = ""
+	w.buf.WriteString(s)
+}
+
 func (w *ASTWriter) increaseIndentation() {
 	w.indentation += w.indentationDelta
 }
@@ -378,11 +395,13 @@ func isMultiline(s string) bool {
 }
 
 func isComplex(n ast.Node) bool {
-	switch n.Type() {
-	case ast.SequenceType, ast.MappingType:
-		return true
-	case ast.ContentType:
-		return isComplex(n.(*ast.ContentNode).Content()) // nolint: forcetypeassert
+	switch n := n.(type) {
+	case *ast.SequenceNode:
+		return len(n.Entries()) > 0
+	case *ast.MappingNode:
+		return len(n.Entries()) > 0
+	case *ast.ContentNode:
+		return isComplex(n.Content())
 	default:
 		return false
 	}
-- 
2.43.0


From bb03a9e506c1bdd45302f4cf26597c599a81cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:44 +0000
Subject: [PATCH 18/73] fix: indent value indicators of nested complex keys

---
 engines/yayamls/encode/writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 4913185..e1ea997 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -230,6 +230,10 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 
 	isComplexKey := isComplex(n.Key())
 	if isComplexKey {
+		// the entry can be written outside of mapping as a single pair of flow sequence
+		w.buf.WriteString(w.beforeSimple)
+		w.writeBeforeSimpleElements("")
+		w.writeBeforeComplexElements("")
 		w.buf.WriteString("? ")
 		w.increaseIndentation()
 	}
@@ -238,6 +242,8 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 
 	if isComplexKey {
 		w.decreaseIndentation()
+		w.maybeWriteLineBreak()
+		w.maybeWriteIndentation()
 	}
 	w.buf.WriteByte(':')
 	w.writeBeforeComplexElements("\n")
-- 
2.43.0


From d6aac96865e9f50225be771a44be991c43d61af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:27 +0000
Subject: [PATCH 19/73] fix: escape non-printable characters of double quoted
 strings

---
 engines/yayamls/yamlchar/chars.go           | 7 +++++++
 engines/yayamls/yamlchar/transformations.go | 8 +++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index 1db76b7..f209596 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -221,6 +221,13 @@ func IsJSONChar(r rune) bool {
 	return r == 0x09 || (r >= 0x20 && r <= 0x10FFFF)
 }
 
+// YAML specification: [1] c-printable
+func IsPrintableChar(r rune) bool {
+	return r == 0x09 || r == 0x0A || r == 0x0D || (r >= 0x20 && r <= 0x7E) || r == 0x85 ||
+		(r >= 0xA0 && r <= 0xD7FF) || (r >= 0xE000 && r <= 0xFFFD && r != ByteOrderMarkCharacter) ||
+		(r >= 0x10000 && r <= 0x10FFFF)
+}
+
 // YAML specification: [41-58] ns-esc-...
 const singleEscapedCharacters = "0abt\tnvfre \"/\\N_LP"
 
diff --git a/engines/yayamls/yamlchar/transformations.go b/engines/yayamls/yamlchar/transformations.go
index 003aa3a..fd1dc5f 100644
--- a/engines/yayamls/yamlchar/transformations.go
+++ b/engines/yayamls/yamlchar/transformations.go
@@ -112,11 +112,13 @@ func escapeCharacter(r rune) (string, bool) {
 }
 
 func escapeUnicodeCharacter(r rune) (string, bool) {
-	if IsJSONChar(r) {
+	if IsPrintableChar(r) {
 		return "", false
 	}
-	escaped := strconv.QuoteRuneToASCII(r)
-	return escaped[1 : len(escaped)-1], true
+	if r <= 0xFFFF {
+		return fmt.Sprintf("\\u%04X", r), true
+	}
+	return fmt.Sprintf("\\U%08X", r), true
 }
 
 func escapeASCIICharacter(r rune) (string, bool) {
-- 
2.43.0


From 7676d0c65e4c92512e30a027eec4bfe44d7d4235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:35 +0000
Subject: [PATCH 20/73] fix: quote texts which cannot be written plain or
 literal

---
 engines/yayamls/encode/writer.go  | 50 +++++++++++++++++++++--------
 engines/yayamls/yamlchar/chars.go | 53 +++++++++++++++++++++++++++++++
 2 files changed, 89 insertions(+), 14 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index e1ea997..ce40138 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -32,6 +32,9 @@ type ASTWriter struct {
 
 	metAnchors map[string]struct{}
 
+	// isWritingKey shows if writer is currently at the implicit key of mapping entry, which must be one-line
+	isWritingKey bool
+
 	opts writeOptions
 }
 
@@ -174,23 +177,18 @@ func (w *ASTWriter) VisitAliasNode(n *ast.AliasNode) {
 
 func (w *ASTWriter) VisitTextNode(n *ast.TextNode) {
 	w.writePreparedData(n)
-	switch txt := n.Text(); n.QuotingType() {
-	case ast.AbsentQuotingType:
-		if isMultiline(txt) {
-			w.writeMultilineLiteralText(txt)
-		} else {
-			w.buf.WriteString(txt)
-		}
-	case ast.SingleQuotingType:
+	txt, quotingType := n.Text(), n.QuotingType()
+	switch {
+	case quotingType == ast.SingleQuotingType && yamlchar.IsPrintableString(txt):
 		w.writeSingleQuotedText(txt)
-	case ast.DoubleQuotingType:
+	case quotingType == ast.SingleQuotingType || quotingType == ast.DoubleQuotingType:
 		w.writeDoubleQuotedText(txt)
+	case yamlchar.IsPlainString(txt):
+		w.buf.WriteString(txt)
+	case quotingType == ast.AbsentQuotingType && !w.isWritingKey && isLiteral(txt):
+		w.writeMultilineLiteralText(txt)
 	default:
-		if isMultiline(txt) {
-			w.writeDoubleQuotedText(txt)
-		} else {
-			w.buf.WriteString(txt)
-		}
+		w.writeDoubleQuotedText(txt)
 	}
 }
 
@@ -238,7 +236,10 @@ func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 		w.increaseIndentation()
 	}
 
+	savedIsWritingKey := w.isWritingKey
+	w.isWritingKey = !isComplexKey
 	key.Accept(w)
+	w.isWritingKey = savedIsWritingKey
 
 	if isComplexKey {
 		w.decreaseIndentation()
@@ -351,6 +352,11 @@ func (w *ASTWriter) maybeWriteLineBreak() {
 }
 
 func (w *ASTWriter) writeMultilineLiteralText(txt string) {
+	if w.indentation == defaultBasicIndentation {
+		// content of the root node must be indented too
+		w.increaseIndentation()
+		defer w.decreaseIndentation()
+	}
 	lines := strings.Split(txt, "\n")
 	chompingIndicator := yamlchar.StripChompingCharacter
 	if lines[len(lines)-1] == "" {
@@ -393,6 +399,7 @@ func (w *ASTWriter) reset() {
 	w.indentation = defaultBasicIndentation
 	w.beforeSimple = ""
 	w.beforeComplex = ""
+	w.isWritingKey = false
 	clear(w.metAnchors)
 }
 
@@ -400,6 +407,21 @@ func isMultiline(s string) bool {
 	return strings.ContainsRune(s, '\n')
 }
 
+// isLiteral shows if text can be written with literal style
+// without explicit indentation indicator.
+func isLiteral(s string) bool {
+	if !isMultiline(s) {
+		return false
+	}
+	for _, line := range strings.Split(s, "\n") {
+		if !yamlchar.IsPrintableString(line) {
+			return false
+		}
+	}
+	content := strings.TrimLeft(s, "\n")
+	return content != "" && !yamlchar.IsWhitespaceChar(rune(content[0]))
+}
+
 func isComplex(n ast.Node) bool {
 	switch n := n.(type) {
 	case *ast.SequenceNode:
diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index f209596..016c2eb 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -3,6 +3,7 @@ package yamlchar
 
 import (
 	"strings"
+	"unicode/utf8"
 )
 
 const (
@@ -133,6 +134,58 @@ func IsPlainSafeString(s string) bool {
 	return true
 }
 
+// IsPlainString shows if one-line string can be presented as plain (unquoted) scalar
+// outside of flow collections.
+// YAML specification: [131] ns-plain
+func IsPlainString(s string) bool {
+	if s == "" || !IsPrintableString(s) || strings.HasPrefix(s, "---") || strings.HasPrefix(s, "...") {
+		return false
+	}
+	runes := []rune(s)
+	n := len(runes)
+	if IsWhitespaceChar(runes[0]) || IsWhitespaceChar(runes[n-1]) {
+		return false
+	}
+	switch runes[0] {
+	case SequenceEntryCharacter, MappingKeyCharacter, MappingValueCharacter:
+		if n == 1 || IsWhitespaceChar(runes[1]) {
+			return false
+		}
+	case CollectEntryCharacter, SequenceStartCharacter, SequenceEndCharacter, MappingStartCharacter,
+		MappingEndCharacter, CommentCharacter, AnchorCharacter, AliasCharacter, TagCharacter, LiteralCharacter,
+		FoldedCharacter, SingleQuoteCharacter, DoubleQuoteCharacter, DirectiveCharacter, ReservedAtCharacter,
+		ReservedBackquoteCharacter:
+		return false
+	}
+	for i := range runes {
+		switch runes[i] {
+		case MappingValueCharacter:
+			if i+1 == n || IsWhitespaceChar(runes[i+1]) {
+				return false
+			}
+		case CommentCharacter:
+			if IsWhitespaceChar(runes[i-1]) {
+				return false
+			}
+		}
+	}
+	return true
+}
+
+// IsPrintableString shows if string is one-line and contains only printable characters.
+func IsPrintableString(s string) bool {
+	for _, r := range s {
+		switch r {
+		case 0x85, 0x2028, 0x2029: // line breaks of YAML 1.1
+			return false
+		}
+		if IsLineBreakChar(r) || !IsPrintableChar(r) {
+			return false
+		}
+	}
+	return utf8.ValidString(s)
+}
+
 // YAML specification: [118] nb-single-char
 func IsSingleQuotedString(s string) bool {
 	runes := []rune(s)
-- 
2.43.0


From ef12f75b23994ce21febdcfd88ee8a075eb557eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:19 +0000
Subject: [PATCH 21/73] fix: separate node properties from content when writing

---
 engines/yayamls/encode/writer.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index ce40138..008695c 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -142,8 +142,17 @@ func (w *ASTWriter) VisitStreamNode(n *ast.StreamNode) {
 }
 
 func (w *ASTWriter) VisitTagNode(n *ast.TagNode) {
-	w.buf.WriteString("!!")
-	w.buf.WriteString(n.Text())
+	switch tag := n.Text(); {
+	case tag == "":
+		w.buf.WriteByte('!')
+	case !yamlchar.IsTagString(tag):
+		w.buf.WriteString("!<")
+		w.buf.WriteString(tag)
+		w.buf.WriteByte('>')
+	default:
+		w.buf.WriteString("!!")
+		w.buf.WriteString(tag)
+	}
 }
 
 func (w *ASTWriter) VisitAnchorNode(n *ast.AnchorNode) {
@@ -279,8 +288,10 @@ func (w *ASTWriter) VisitContentNode(n *ast.ContentNode) {
 	w.writePreparedData(n)
 	properties, content := n.Properties(), n.Content()
 	if ast.ValidNode(properties) {
-		w.buf.WriteByte(' ')
+		w.buf.WriteString(w.beforeSimple)
 		properties.Accept(w)
+		w.writeBeforeComplexElements("\n")
+		w.writeBeforeSimpleElements(" ")
 
 		if w.opts.anchorsKeeper != nil {
 			w.opts.anchorsKeeper.BindToLatestAnchor(n)
-- 
2.43.0


From b93691cdcff306f9620860ac8c555db7fefc87b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:27 +0000
Subject: [PATCH 22/73] fix: end documents of streams with line break before
 document suffix

---
 engines/yayamls/encode/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 008695c..1579b67 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -137,6 +137,7 @@ func (w *ASTWriter) VisitStreamNode(n *ast.StreamNode) {
 	for _, doc := range n.Documents() {
 		w.buf.WriteString("---\n")
 		doc.Accept(w)
+		w.maybeWriteLineBreak()
 		w.buf.WriteString("...\n")
 	}
 }
-- 
2.43.0


From bd0a5c2f5ca3b6a8d3ef4f94b1944626ef2458c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:47 +0000
Subject: [PATCH 23/73] fix: report unfinished collections, pending keys and
 repeated roots in builders

---
 engines/goyaml/encode/builder.go  | 13 ++++++++++++-
 engines/yayamls/encode/builder.go | 11 ++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 681d980..64f2230 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -131,6 +131,8 @@ func (b *ASTBuilder) EndMapping() {
 			"failed to end mapping: expected mapping, but currenlty at %s",
 			kindToString(currentNode.Kind),
 		)
+	case len(currentNode.Content)%2 != 0:
+		b.fatalError = fmt.Errorf("failed to end mapping: entry has a key without a value")
 	default:
 		b.popNode()
 	}
@@ -172,6 +174,9 @@ func (b *ASTBuilder) InsertRawText(data []byte, err error) {
 func (b *ASTBuilder) Result() (*yaml.Node, error) {
 	root := b.root
 	err := b.fatalError
+	if err == nil && len(b.route) > 0 {
+		err = fmt.Errorf("cannot build tree: %s is not finished", kindToString(b.currentNode().Kind))
+	}
 	b.route = b.route[:0]
 	b.root = nil
 	b.fatalError = nil
@@ -195,8 +200,14 @@ func (b *ASTBuilder) insertNode(n *yaml.Node, pushToRoute bool) {
 	}
 	currentNode := b.currentNode()
 	if currentNode == nil {
-		b.pushNode(n)
+		if b.root != nil {
+			b.fatalError = fmt.Errorf("cannot insert new node to tree: tree already has a root node")
+			return
+		}
 		b.root = n
+		if pushToRoute {
+			b.pushNode(n)
+		}
 		return
 	}
 
diff --git a/engines/yayamls/encode/builder.go b/engines/yayamls/encode/builder.go
index f831a9b..313eacb 100644
--- a/engines/yayamls/encode/builder.go
+++ b/engines/yayamls/encode/builder.go
@@ -152,6 +152,9 @@ func (b *ASTBuilder) InsertRawText(text []byte, err error) {
 func (b *ASTBuilder) Result() (ast.Node, error) {
 	root := b.root
 	err := b.fatalError
+	if err == nil && len(b.route) > 0 {
+		err = fmt.Errorf("cannot build tree: %s is not finished", b.currentNode().Type())
+	}
 	b.route = b.route[:0]
 	b.root = nil
 	b.fatalError = nil
@@ -174,8 +177,14 @@ func (b *ASTBuilder) insertNode(n ast.Node, pushToRoute bool) {
 	}
 	currentNode := b.currentNode()
 	if !ast.ValidNode(currentNode) {
-		b.pushNode(n)
+		if b.root != nil {
+			b.fatalError = fmt.Errorf("cannot insert new node to tree: tree already has a root node")
+			return
+		}
 		b.root = n
+		if pushToRoute {
+			b.pushNode(n)
+		}
 		return
 	}
 
-- 
2.43.0


From 9a699fa1f61bafcce2e53367c324daa59a863bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:08 +0000
Subject: [PATCH 24/73] fix: return an error instead of panic when writing
 empty tree

---
 engines/yayamls/encode/writer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 1579b67..c3934dc 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -111,10 +111,13 @@ func (w *ASTWriter) WriteBytes(ast ast.Node) ([]byte, error) {
 	return data, nil
 }
 
-func (w *ASTWriter) write(ast ast.Node) error {
+func (w *ASTWriter) write(tree ast.Node) error {
 	w.reset()
 
-	ast.Accept(w)
+	if tree == nil {
+		return errors.New("cannot write empty tree")
+	}
+	tree.Accept(w)
 	if w.hasErrors() {
 		return w.error()
 	}
-- 
2.43.0


From 3d73f5429f7e6a28b65b7f66ba00848264e572d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:59 +0000
Subject: [PATCH 25/73] fix: count mapping entries instead of nodes in goyaml
 reader

---
 engines/goyaml/decode/reader.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 05d5367..b920f34 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -385,7 +385,11 @@ func (r *ASTReader) visitNode(n *yaml.Node) {
 		if point.visitingResult.conclusion == visitingConclusionUnknown {
 			point.iter = newNodeIterator(n)
 		}
-		r.processComplexPoint(point, len(n.Content))
+		childrenSize := len(n.Content)
+		if n.Kind == yaml.MappingNode {
+			childrenSize /= 2 // every entry is a pair of key and value
+		}
+		r.processComplexPoint(point, childrenSize)
 	case yaml.ScalarNode:
 		r.visitScalarNode(n)
 	case yaml.AliasNode:
-- 
2.43.0


From abd5826e22bdd69771829cbdf9e13b2deca90eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:08 +0000
Subject: [PATCH 26/73] fix: convert decimal integers with leading zeros or
 plus sign properly

---
 engines/pkg/schema/schema.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 4898acc..6b3f61e 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -84,7 +84,7 @@ func FromInteger(val int64) string {
 
 // ToInteger tries to convert YAML into Go integer with given bit size.
 func ToInteger(src string, bitSize int) (int64, error) {
-	return strconv.ParseInt(src, 0, bitSize)
+	return strconv.ParseInt(src, integerBase(src), bitSize)
 }
 
 // FromUnsignedInteger converts Go unsigned integer value into YAML integer.
@@ -94,7 +94,16 @@ func FromUnsignedInteger(val uint64) string {
 
 // ToUnsignedInteger tries to convert YAML into Go unsigned integer with given bit size.
 func ToUnsignedInteger(src string, bitSize int) (uint64, error) {
-	return strconv.ParseUint(src, 0, bitSize)
+	return strconv.ParseUint(strings.TrimPrefix(src, "+"), integerBase(src), bitSize)
+}
+
+// integerBase returns base argument for strconv functions. Decimal integers can have leading zeros,
+// while base prefixes are recognized for octal and hexadecimal integers only.
+func integerBase(src string) int {
+	if strings.HasPrefix(src, "0o") || strings.HasPrefix(src, "0x") {
+		return 0
+	}
+	return 10
 }
 
 var (
-- 
2.43.0


From 1c9a7a1bf0b6b91a6f21168ffb49316a51c57971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:16 +0000
Subject: [PATCH 27/73] fix: use proper layouts for timestamps

---
 engines/pkg/schema/schema.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index 6b3f61e..aa30b72 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -167,9 +167,9 @@ var timestampLayouts = []string{
 	time.RFC3339Nano,
 	time.DateOnly,
 	"2006-1-2T15:4:5.999999999Z07:00", // short RFC339Nano
-	"2001-1-2t15:4:5.999999999-07:00", // lower t + time zone without 'Z'
-	"2001-1-2 15:4:5.999999999",       // space separated
-	"2001-1-2",                        // date only short form
+	"2006-1-2t15:4:5.999999999Z07:00", // lower t
+	"2006-1-2 15:4:5.999999999",       // space separated
+	"2006-1-2",                        // date only short form
 }
 
 // IsTimestamp shows if string represents a YAML timedate.
-- 
2.43.0


From c1d7327ac9fff2e64ff35a0d0808ff8b0696fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:25 +0000
Subject: [PATCH 28/73] fix: keep fractional seconds of timestamps

---
 engines/pkg/schema/schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/pkg/schema/schema.go b/engines/pkg/schema/schema.go
index aa30b72..fc79973 100644
--- a/engines/pkg/schema/schema.go
+++ b/engines/pkg/schema/schema.go
@@ -185,7 +185,7 @@ func IsTimestamp(s string) bool {
 
 // FromTimestamp converts Go time.Time value into YAML timedate.
 func FromTimestamp(val time.Time) string {
-	return val.Format(time.RFC3339)
+	return val.Format(time.RFC3339Nano)
 }
 
 // ToTimestamp tries to convert YAML string into Go time.Time value.
-- 
2.43.0


From ce1efde884c8885c8f744bb7c2facbb4d3967705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:46 +0000
Subject: [PATCH 29/73] fix: do not extract stale value when null node is
 denied

---
 engines/yayamls/decode/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index e905436..e62852c 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -449,10 +449,10 @@ func (r *ASTReader) VisitNullNode(n *ast.NullNode) {
 		r.popRoutePoint()
 	case visitingConclusionDeny:
 		r.swapRoutePoint(point)
-		r.appendError(yamly.DenyError(&denyError{
+		r.setLatestDeny(&denyError{
 			expecter: r.currentExpecter,
 			nt:       n.Type(),
-		}))
+		})
 	default:
 		r.appendError(fmt.Errorf("unexpected conclusion: %s", point.visitingResult.conclusion))
 	}
-- 
2.43.0


From 43f66b2777bf4ee8870c556915a19bd4c95a42a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:04 +0000
Subject: [PATCH 30/73] fix: deny texts which do not represent unsigned
 integers

---
 engines/goyaml/decode/expected.go  | 10 ++++++++++
 engines/goyaml/decode/reader.go    |  2 +-
 engines/yayamls/decode/expected.go | 10 ++++++++++
 engines/yayamls/decode/reader.go   |  2 +-
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/decode/expected.go b/engines/goyaml/decode/expected.go
index 065d6a4..0857c63 100644
--- a/engines/goyaml/decode/expected.go
+++ b/engines/goyaml/decode/expected.go
@@ -47,6 +47,16 @@ func (expectInteger) process(n *yaml.Node, prev visitingResult) visitingResult {
 	return processTerminalNode(n, prev, schema.IsInteger)
 }
 
+type expectUnsigned struct{}
+
+func (expectUnsigned) name() string {
+	return "ExpectUnsigned"
+}
+
+func (expectUnsigned) process(n *yaml.Node, prev visitingResult) visitingResult {
+	return processTerminalNode(n, prev, schema.IsUnsignedInteger)
+}
+
 type expectBoolean struct{}
 
 func (expectBoolean) name() string {
diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index b920f34..346034a 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -174,7 +174,7 @@ func (r *ASTReader) Unsigned(bitSize int) uint64 {
 	if r.hasFatalError() {
 		return 0
 	}
-	r.currentExpecter = expectInteger{}
+	r.currentExpecter = expectUnsigned{}
 	r.visitCurrentNode()
 	if r.latestDenyError != nil || r.hasFatalError() {
 		r.appendError(r.latestDenyError)
diff --git a/engines/yayamls/decode/expected.go b/engines/yayamls/decode/expected.go
index 1061fb5..1da783c 100644
--- a/engines/yayamls/decode/expected.go
+++ b/engines/yayamls/decode/expected.go
@@ -54,6 +54,16 @@ func (expectInteger) process(n ast.Node, prev visitingResult) visitingResult {
 	return processTerminalNode(n, prev, schema.IsInteger)
 }
 
+type expectUnsigned struct{}
+
+func (expectUnsigned) name() string {
+	return "ExpectUnsigned"
+}
+
+func (expectUnsigned) process(n ast.Node, prev visitingResult) visitingResult {
+	return processTerminalNode(n, prev, schema.IsUnsignedInteger)
+}
+
 type expectBoolean struct{}
 
 func (expectBoolean) name() string {
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index e62852c..9aa436c 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -184,7 +184,7 @@ func (r *ASTReader) Unsigned(bitSize int) uint64 {
 	if r.hasFatalError() {
 		return 0
 	}
-	r.currentExpecter = expectInteger{}
+	r.currentExpecter = expectUnsigned{}
 	r.visitCurrentNode()
 	if r.latestDenyError != nil || r.hasFatalError() {
 		r.appendError(r.latestDenyError)
-- 
2.43.0


From 05ce6caa15900efa4726dcca2889061f261b5b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:37 +0000
Subject: [PATCH 31/73] fix: stop decoding of struct after null node

---
 generator/decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator/decoder.go b/generator/decoder.go
index fefce15..2985c79 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -76,6 +76,7 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  if in.TryNull() {")
 	fmt.Fprintln(g.out, "    var zeroValue "+tname)
 	fmt.Fprintln(g.out, "    *out = zeroValue")
+	fmt.Fprintln(g.out, "    return")
 	fmt.Fprintln(g.out, "  }")
 	fmt.Fprintln(g.out)
 
-- 
2.43.0


From 9a31beedc280a1dbb084ac429d3288fad5a6404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:45 +0000
Subject: [PATCH 32/73] fix: skip sequence elements which do not fit into array

---
 generator/decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/decoder.go b/generator/decoder.go
index 2985c79..36c421d 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -242,6 +242,9 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 			}
 			fmt.Fprintln(g.out, whitespace+"    "+iterVar+"++")
 			fmt.Fprintln(g.out, whitespace+"  }")
+			fmt.Fprintln(g.out, whitespace+"  for "+arrayStateVar+".HasUnprocessedItems() {")
+			fmt.Fprintln(g.out, whitespace+"    in.Skip()")
+			fmt.Fprintln(g.out, whitespace+"  }")
 			fmt.Fprintln(g.out, whitespace+"}")
 		}
 	case reflect.Struct:
-- 
2.43.0


From e4fece31a6a812cf287cb6401011e98db855db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:20 +0000
Subject: [PATCH 33/73] fix: generate compilable code for pointers, byte arrays
 and interfaces

---
 engines/goyaml/engine.go |  5 +++--
 generator/decoder.go     | 15 ++++++---------
 generator/encoder.go     | 17 +++++++----------
 3 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index f2fc3f7..d636bec 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -64,7 +64,7 @@ func (engineGenerator) UnmarshalersImplementationCheck(
 	if reflect.PtrTo(t).Implements(unmarshalIface) {
 		whitespace := strings.Repeat(" ", indent)
 		fmt.Fprintln(dst, whitespace+"if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node())")
+		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node()))")
 		fmt.Fprintln(dst, whitespace, "} else {")
 		return generator.ImplementationResultConditional, nil
 	}
@@ -89,9 +89,10 @@ func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer,
 	whitespace := strings.Repeat(" ", indent)
 	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yaml.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node())")
+	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node()))")
 	fmt.Fprintln(dst, whitespace+"  } else {")
 	fmt.Fprintln(dst, whitespace+"    "+outArg+" = in.Any()")
+	fmt.Fprintln(dst, whitespace+"  }")
 	fmt.Fprintln(dst, whitespace+"} else {")
 	fmt.Fprintln(dst, whitespace+"  "+outArg+" = in.Any()")
 	fmt.Fprintln(dst, whitespace+"}")
diff --git a/generator/decoder.go b/generator/decoder.go
index 36c421d..63085cd 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -165,6 +165,7 @@ func (g *Generator) generateDecoderBody(
 		unmarshalIface = reflect.TypeOf((*encoding.TextUnmarshaler)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(unmarshalIface) {
 			fmt.Fprintln(g.out, whitespace+"in.AddError(("+outArg+").UnmarshalText([]byte(in.String())))")
+			fmt.Fprintln(g.out, finishingText)
 			return nil
 		}
 	}
@@ -226,7 +227,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 
 		if elem.Kind() == reflect.Uint8 && elem.Name() == "uint8" {
 			fmt.Fprintln(g.out, whitespace+"if !in.TryNull() {")
-			fmt.Fprintln(g.out, whitespace+"  copy("+outArg+", []byte(in.String()))")
+			fmt.Fprintln(g.out, whitespace+"  copy(("+outArg+")[:], []byte(in.String()))")
 			fmt.Fprintln(g.out, whitespace+"}")
 		} else {
 			arrayStateVar := g.generateVarName("SeqState")
@@ -251,11 +252,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 		dec := g.decoderFunctionName(t)
 		g.addType(t)
 
-		if len(outArg) > 0 && outArg[0] == '*' {
-			fmt.Fprintln(g.out, whitespace+dec+"(in, "+outArg[1:]+")")
-		} else {
-			fmt.Fprintln(g.out, whitespace+dec+"(in, &"+outArg+")")
-		}
+		fmt.Fprintln(g.out, whitespace+dec+"(in, &"+outArg+")")
 	case reflect.Pointer:
 		fmt.Fprintln(g.out, whitespace+"if in.TryNull() {")
 		fmt.Fprintln(g.out, whitespace+"  "+outArg+" = nil")
@@ -266,7 +263,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 			fmt.Fprintln(g.out, whitespace+"  }")
 		}
 
-		if err := g.generateDecoderBody(t.Elem(), "*"+outArg, tags, indent+indentDelta, complexTypeElem); err != nil {
+		if err := g.generateDecoderBody(t.Elem(), "(*"+outArg+")", tags, indent+indentDelta, complexTypeElem); err != nil {
 			return err
 		}
 
@@ -311,7 +308,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementsUnmarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"_ = "+outArg+".UnmarshalYamly(in)")
+				fmt.Fprintln(g.out, whitespace+outArg+".UnmarshalYamly(in)")
 			} else if implResult, err := g.engineGen.UnmarshalersImplementationCheck(g.out, t, outArg, indent); err != nil {
 				return err
 			} else {
@@ -326,7 +323,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 			}
 		} else {
 			fmt.Fprintln(g.out, whitespace+"if m, ok := "+outArg+".(yamly.UnmarshalerYamly); ok {")
-			fmt.Fprintln(g.out, whitespace+"  in.AddError(m.UnmarshalYamly(in))")
+			fmt.Fprintln(g.out, whitespace+"  m.UnmarshalYamly(in)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateUnmarshalEmptyInterfaceAssertions(g.out, outArg, indent+indentDelta); err != nil {
 				return err
diff --git a/generator/encoder.go b/generator/encoder.go
index 49a9bfa..77bf3bf 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -184,6 +184,7 @@ func (g *Generator) generateEncoderBody(
 		marshalIface = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
 		if reflect.PtrTo(t).Implements(marshalIface) {
 			fmt.Fprintln(g.out, whitespace+"out.InsertRawText("+inArg+".MarshalText())")
+			fmt.Fprintln(g.out, finishingText)
 			return nil
 		}
 	}
@@ -209,7 +210,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 		fmt.Fprintf(g.out, whitespace+enc+"\n", inArg)
 		return nil
 	} else if enc := customEncoderFormatStrings[t.String()]; enc != "" {
-		g.imports[t.PkgPath()] = t.Name() // assume it is a standard library
+		g.imports[t.PkgPath()] = t.PkgPath() // assume it is a standard library
 		fmt.Fprintf(g.out, whitespace+enc+"\n", inArg)
 		return nil
 	}
@@ -245,7 +246,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 		elem := t.Elem()
 
 		if elem.Kind() == reflect.Uint8 && elem.Name() == "uint8" {
-			fmt.Fprintln(g.out, whitespace+"out.InsertString(string("+inArg+"[:]))")
+			fmt.Fprintln(g.out, whitespace+"out.InsertString(string(("+inArg+")[:]))")
 		} else {
 			iVar := g.generateVarName()
 			fmt.Fprintln(g.out, whitespace+"out.StartSequence()")
@@ -262,11 +263,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 		enc := g.encoderFunctionName(t)
 		g.addType(t)
 		if g.encodePointerReceiver {
-			if len(inArg) > 0 && inArg[0] == '*' {
-				fmt.Fprintln(g.out, whitespace+enc+"(out, "+inArg[1:]+")")
-			} else {
-				fmt.Fprintln(g.out, whitespace+enc+"(out, &"+inArg+")")
-			}
+			fmt.Fprintln(g.out, whitespace+enc+"(out, &"+inArg+")")
 		} else {
 			fmt.Fprintln(g.out, whitespace+enc+"(out, "+inArg+")")
 		}
@@ -279,7 +276,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 			extraIndent += 2
 		}
 
-		if err := g.generateEncoderBody(t.Elem(), "*"+inArg, tags, indent+extraIndent, true); err != nil {
+		if err := g.generateEncoderBody(t.Elem(), "(*"+inArg+")", tags, indent+extraIndent, true); err != nil {
 			return err
 		}
 
@@ -315,7 +312,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementMarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+"_ = "+inArg+".MarshalYamly(out)")
+				fmt.Fprintln(g.out, whitespace+inArg+".MarshalYamly(out)")
 			} else if implResult, err := g.engineGen.MarshalersImplementationCheck(g.out, t, inArg, indent); err != nil {
 				return err
 			} else {
@@ -329,7 +326,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 				}
 			}
 		} else {
-			fmt.Fprintln(g.out, whitespace+"if m, ok := "+inArg+".(yamly.MarshalerYamly) {")
+			fmt.Fprintln(g.out, whitespace+"if m, ok := "+inArg+".(yamly.MarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.MarshalYamly(out)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateMarshalEmptyInterfaceAssertions(g.out, inArg, indent+2); err != nil {
-- 
2.43.0


From 6cadc4f7227e61ea8fd0bf1044bafe5d1e2fcf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:28 +0000
Subject: [PATCH 34/73] fix: escape names of fields in generated code

---
 generator/decoder.go | 2 +-
 generator/encoder.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 63085cd..f49616d 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -128,7 +128,7 @@ func (g *Generator) generateStructFieldDecoder(f reflect.StructField) error {
 		name = tags.name
 	}
 
-	fmt.Fprintln(g.out, "    case \""+name+"\":")
+	fmt.Fprintln(g.out, "    case "+strconv.Quote(name)+":")
 	return g.generateDecoderBody(f.Type, "out."+f.Name, tags, 6, true)
 }
 
diff --git a/generator/encoder.go b/generator/encoder.go
index 77bf3bf..674af4d 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -4,6 +4,7 @@ import (
 	"encoding"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"github.com/KSpaceer/yamly"
@@ -122,7 +123,7 @@ func (g *Generator) generateStructFieldEncoder(f reflect.StructField) error {
 		fmt.Fprintln(g.out, "  {")
 	}
 
-	fmt.Fprintln(g.out, "    out.InsertString(\""+name+"\")")
+	fmt.Fprintln(g.out, "    out.InsertString("+strconv.Quote(name)+")")
 	if err := g.generateEncoderBody(f.Type, "in."+f.Name, tags, 6, canBeNull); err != nil {
 		return err
 	}
-- 
2.43.0


From bb4aa441b2b5d3b219ddef5277ccd97dfcebaf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:36 +0000
Subject: [PATCH 35/73] fix: do not allocate embedded pointers which are not
 inlined

---
 generator/decoder.go   |  2 +-
 generator/generator.go | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index f49616d..4892cb4 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -82,7 +82,7 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 
 	for i := 0; i < t.NumField(); i++ {
 		f := t.Field(i)
-		if !f.Anonymous || f.Type.Kind() != reflect.Pointer {
+		if !f.Anonymous || f.Type.Kind() != reflect.Pointer || !g.isInlined(f) {
 			continue
 		}
 		fmt.Fprintln(g.out, "  out."+f.Name+" = new("+g.extractTypeName(f.Type.Elem())+")")
diff --git a/generator/generator.go b/generator/generator.go
index 70e8497..ca41474 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -397,8 +397,7 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 
 	for i := 0; i < t.NumField(); i++ {
 		f := t.Field(i)
-		tags := parseTags(f.Tag)
-		if !(f.Anonymous && g.inlineEmbedded && tags.name == "") && !tags.inline {
+		if !g.isInlined(f) {
 			continue
 		}
 
@@ -423,8 +422,7 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 
 	for i := 0; i < t.NumField(); i++ {
 		f := t.Field(i)
-		tags := parseTags(f.Tag)
-		if (f.Anonymous && g.inlineEmbedded && tags.name == "") || tags.inline {
+		if g.isInlined(f) {
 			continue
 		}
 
@@ -437,6 +435,11 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 	return mergeStructFields(embeddedFields, fields), nil
 }
 
+func (g *Generator) isInlined(f reflect.StructField) bool {
+	tags := parseTags(f.Tag)
+	return (f.Anonymous && g.inlineEmbedded && tags.name == "") || tags.inline
+}
+
 func mergeStructFields(firstFields, secondFields []reflect.StructField) []reflect.StructField {
 	fields := make([]reflect.StructField, 0, len(firstFields))
 	used := make(map[string]bool)
-- 
2.43.0


From ae92d1501eef33a6d5fdf0e5ae5b98c045b5de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:16 +0000
Subject: [PATCH 36/73] fix: report unknown fields with null values

---
 generator/decoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 4892cb4..99628f5 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -96,9 +96,6 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  structMappingState := in.Mapping()")
 	fmt.Fprintln(g.out, "  for structMappingState.HasUnprocessedItems() {")
 	fmt.Fprintln(g.out, "    key := in.String()")
-	fmt.Fprintln(g.out, "    if in.TryNull() {")
-	fmt.Fprintln(g.out, "      continue")
-	fmt.Fprintln(g.out, "    }")
 	fmt.Fprintln(g.out, "    switch key {")
 	for _, f := range fields {
 		if err = g.generateStructFieldDecoder(f); err != nil {
@@ -129,6 +126,9 @@ func (g *Generator) generateStructFieldDecoder(f reflect.StructField) error {
 	}
 
 	fmt.Fprintln(g.out, "    case "+strconv.Quote(name)+":")
+	fmt.Fprintln(g.out, "      if in.TryNull() {")
+	fmt.Fprintln(g.out, "        continue")
+	fmt.Fprintln(g.out, "      }")
 	return g.generateDecoderBody(f.Type, "out."+f.Name, tags, 6, true)
 }
 
-- 
2.43.0


From ee4dc42d44d0696174f7ccae9eeb346408c4b69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:25 +0000
Subject: [PATCH 37/73] fix: generate proper selectors for fields of inlined
 structs

---
 generator/decoder.go   |  7 ++-----
 generator/encoder.go   |  5 +----
 generator/generator.go | 14 ++++++++++++++
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 99628f5..1156d4a 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -82,7 +82,7 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 
 	for i := 0; i < t.NumField(); i++ {
 		f := t.Field(i)
-		if !f.Anonymous || f.Type.Kind() != reflect.Pointer || !g.isInlined(f) {
+		if f.Type.Kind() != reflect.Pointer || !g.isInlined(f) {
 			continue
 		}
 		fmt.Fprintln(g.out, "  out."+f.Name+" = new("+g.extractTypeName(f.Type.Elem())+")")
@@ -120,10 +120,7 @@ func (g *Generator) generateStructFieldDecoder(f reflect.StructField) error {
 	if tags.omitField {
 		return nil
 	}
-	name := f.Name
-	if tags.name != "" {
-		name = tags.name
-	}
+	name := fieldKey(f, tags)
 
 	fmt.Fprintln(g.out, "    case "+strconv.Quote(name)+":")
 	fmt.Fprintln(g.out, "      if in.TryNull() {")
diff --git a/generator/encoder.go b/generator/encoder.go
index 674af4d..c2da88c 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -111,10 +111,7 @@ func (g *Generator) generateStructFieldEncoder(f reflect.StructField) error {
 	if tags.omitField {
 		return nil
 	}
-	name := f.Name
-	if tags.name != "" {
-		name = tags.name
-	}
+	name := fieldKey(f, tags)
 	canBeNull := !(g.omitempty || tags.omitempty)
 
 	if !canBeNull {
diff --git a/generator/generator.go b/generator/generator.go
index ca41474..e40d1a8 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -411,6 +411,12 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 			if err != nil {
 				return nil, fmt.Errorf("error processing embedded field: %w", err)
 			}
+			if !f.Anonymous {
+				// nested fields are not promoted
+				for i := range fs {
+					fs[i].Name = f.Name + "." + fs[i].Name
+				}
+			}
 			embeddedFields = mergeStructFields(embeddedFields, fs)
 		} else if (t.Kind() >= reflect.Bool && t.Kind() <= reflect.Complex128) || t.Kind() == reflect.String {
 			// kind is basic
@@ -440,6 +446,14 @@ func (g *Generator) isInlined(f reflect.StructField) bool {
 	return (f.Anonymous && g.inlineEmbedded && tags.name == "") || tags.inline
 }
 
+// fieldKey returns a mapping key of the struct field.
+func fieldKey(f reflect.StructField, tags fieldTags) string {
+	if tags.name != "" {
+		return tags.name
+	}
+	return f.Name[strings.LastIndexByte(f.Name, '.')+1:]
+}
+
 func mergeStructFields(firstFields, secondFields []reflect.StructField) []reflect.StructField {
 	fields := make([]reflect.StructField, 0, len(firstFields))
 	used := make(map[string]bool)
-- 
2.43.0


From 6912cb5c896cd68298e6d7cdb78b905dca43230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:35 +0000
Subject: [PATCH 38/73] fix: dereference aliases of redefined anchors in raw
 data of goyaml reader

---
 engines/goyaml/decode/raw.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index 344414c..f5df52e 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -19,7 +19,7 @@ import "gopkg.in/yaml.v3"
 // in "inner" element.
 type rawTransformer struct {
 	topLevelAnchor string
-	metAnchors     map[string]struct{}
+	metAnchors     map[string]*yaml.Node
 
 	dereferencedAliases []dereferencedAliasInfo
 
@@ -30,7 +30,7 @@ type rawTransformer struct {
 
 func newRawTransformer() rawTransformer {
 	return rawTransformer{
-		metAnchors: map[string]struct{}{},
+		metAnchors: map[string]*yaml.Node{},
 		visited:    map[*yaml.Node]struct{}{},
 	}
 }
@@ -53,7 +53,7 @@ func (rt *rawTransformer) transform(n *yaml.Node) (*yaml.Node, error) {
 
 func (rt *rawTransformer) visitNode(n *yaml.Node) {
 	if n.Anchor != "" {
-		rt.metAnchors[n.Anchor] = struct{}{}
+		rt.metAnchors[n.Anchor] = n
 	}
 	switch n.Kind {
 	case yaml.AliasNode:
@@ -67,7 +67,7 @@ func (rt *rawTransformer) visitNode(n *yaml.Node) {
 		defer delete(rt.visited, n)
 		for i, child := range n.Content {
 			if child.Kind == yaml.AliasNode {
-				if _, metAnchor := rt.metAnchors[child.Value]; !metAnchor {
+				if rt.metAnchors[child.Value] != child.Alias {
 					n.Content[i] = child.Alias
 					rt.dereferencedAliases = append(rt.dereferencedAliases, dereferencedAliasInfo{
 						parent: n,
-- 
2.43.0


From c6488db7d476da727806a9ff320d5361e65b4f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:16 +0000
Subject: [PATCH 39/73] fix: accept hyphens in tags

---
 engines/yayamls/yamlchar/chars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index 016c2eb..be5ec59 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -96,7 +96,7 @@ func IsURI(s string) bool {
 
 // YAML specification: [40] ns-tag-char
 func IsTagString(s string) bool {
-	const TagOnlyChars = "#;/?:@&=+$_.~*'"
+	const TagOnlyChars = "-#;/?:@&=+$_.~*'"
 
 	runes := []rune(s)
 	n := len(runes)
-- 
2.43.0


From 06289eaa490388f486bf391f3ce97690c99c22ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:19 +0000
Subject: [PATCH 40/73] fix: recognise nodes adjacent to value indicators in
 flow collections

---
 engines/yayamls/lexer/context.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 36361f2..7f53fd4 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -338,7 +338,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		tok.Origin = string([]rune{r})
 		return tok, true
 	case yamlchar.SingleQuoteCharacter:
-		if t.mayStartWordInFlow() || t.lookbehind(isMappingValue) {
+		if t.mayStartWordInFlow() {
 			c.switchContext(singleQuoteContextType)
 			tok.End = t.pos
 			tok.Type = token.SingleQuoteType
@@ -346,7 +346,7 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.DoubleQuoteCharacter:
-		if t.mayStartWordInFlow() || t.lookbehind(isMappingValue) {
+		if t.mayStartWordInFlow() {
 			c.switchContext(doubleQuoteContextType)
 			tok.End = t.pos
 			tok.Type = token.DoubleQuoteType
@@ -367,7 +367,7 @@ func isMappingValue(tok token.Token) bool {
 }
 
 func mayPrecedeWordInFlow(tok token.Token) bool {
-	return token.MayPrecedeWord(tok) || token.IsOpeningFlowIndicator(tok)
+	return token.MayPrecedeWord(tok) || token.IsOpeningFlowIndicator(tok) || isMappingValue(tok)
 }
 
 func (c *context) commentMatching(t *Tokenizer, r rune) (token.Token, bool) {
-- 
2.43.0


From 1ad469af61b0f613f2426b98216c99b726193192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:40 +0000
Subject: [PATCH 41/73] fix: recognise comments in flow collections

---
 engines/yayamls/lexer/context.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 7f53fd4..8e5e2de 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -353,6 +353,14 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			tok.Origin = string([]rune{r})
 			return tok, true
 		}
+	case yamlchar.CommentCharacter:
+		if t.lookbehind(token.MayPrecedeWord) {
+			c.switchContext(commentContextType)
+			tok.End = t.pos
+			tok.Type = token.CommentType
+			tok.Origin = string([]rune{r})
+			return tok, true
+		}
 	case yamlchar.CollectEntryCharacter:
 		tok.End = t.pos
 		tok.Type = token.CollectEntryType
-- 
2.43.0


From 2764a2890cd5adac71d1121842439a5197be2fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:22 +0000
Subject: [PATCH 42/73] fix: normalise line breaks of multiline scalars

---
 engines/yayamls/parser/block.go   | 8 ++++----
 engines/yayamls/parser/indents.go | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index b57cc54..4223942 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -565,7 +565,7 @@ func (p *parser) parseDiffLines(ind *indentation, buf *bytes.Buffer) ast.Node {
 			p.rollback()
 			break
 		}
-		buf.WriteString(p.tok.Origin)
+		buf.WriteByte('\n')
 		p.next()
 		if !ast.ValidNode(p.parseSameLines(ind, buf)) {
 			buf.Truncate(savedLen)
@@ -663,7 +663,7 @@ func (p *parser) parseSpacedLineBreak(ind *indentation, buf *bytes.Buffer) ast.N
 	if p.hasErrors() || p.tok.Type != token.LineBreakType {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
+	buf.WriteByte('\n')
 
 	savedLen := buf.Len()
 
@@ -850,7 +850,7 @@ func (p *parser) parseChompedLast(chomping ast.ChompingType, buf *bytes.Buffer)
 	case ast.ClipChompingType, ast.KeepChompingType:
 		switch p.tok.Type {
 		case token.LineBreakType:
-			buf.WriteString(p.tok.Origin)
+			buf.WriteByte('\n')
 		case token.EOFType:
 		default:
 			return ast.NewInvalidNode()
@@ -958,7 +958,7 @@ func (p *parser) parseLiteralNext(ind *indentation, buf *bytes.Buffer) ast.Node
 		return ast.NewInvalidNode()
 	}
 	savedLen := buf.Len()
-	buf.WriteString(p.tok.Origin)
+	buf.WriteByte('\n')
 	p.next()
 	if !ast.ValidNode(p.parseLiteralText(ind, buf)) {
 		buf.Truncate(savedLen)
diff --git a/engines/yayamls/parser/indents.go b/engines/yayamls/parser/indents.go
index f1140e9..0fdd1be 100644
--- a/engines/yayamls/parser/indents.go
+++ b/engines/yayamls/parser/indents.go
@@ -144,7 +144,7 @@ func (p *parser) parseEmpty(ind *indentation, ctx context, buf *bytes.Buffer) as
 	if p.tok.Type != token.LineBreakType {
 		return ast.NewInvalidNode()
 	}
-	buf.WriteString(p.tok.Origin)
+	buf.WriteByte('\n')
 	p.next()
 	return ast.NewBasicNode(ast.IndentType)
 }
-- 
2.43.0


From 776b3383f90f89e97af9f461c3355f1ffd58ef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:21 +0000
Subject: [PATCH 43/73] fix: accept properties of the first key of block
 mapping

---
 engines/yayamls/parser/block.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 4223942..ac8ec7c 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -58,19 +58,19 @@ func (p *parser) parseBlockCollection(ind *indentation, ctx context) ast.Node {
 	ind.value++
 	if ast.ValidNode(p.parseSeparate(ind, ctx)) {
 		properties = p.parseProperties(ind, ctx)
-		if !ast.ValidNode(properties) {
-			p.rollback()
-			properties = nil
-		} else {
-			p.commit()
-		}
-	} else {
-		p.rollback()
 	}
 	ind.value--
 
-	if !ast.ValidNode(p.parseComments()) {
-		return ast.NewInvalidNode()
+	// properties belong to the collection only if nothing else follows them on the line,
+	// otherwise they belong to its first key
+	if ast.ValidNode(properties) && ast.ValidNode(p.parseComments()) {
+		p.commit()
+	} else {
+		p.rollback()
+		properties = nil
+		if !ast.ValidNode(p.parseComments()) {
+			return ast.NewInvalidNode()
+		}
 	}
 
 	p.setCheckpoint()
-- 
2.43.0


From caae8595399cddedb64c11888bc671c20c32b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:47 +0000
Subject: [PATCH 44/73] fix: define indentation of block scalars consisting of
 empty lines by their longest line

---
 engines/yayamls/parser/block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index ac8ec7c..f229124 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -495,8 +495,8 @@ func (p *parser) blockScalarIndentation(parent *indentation, header *ast.BlockHe
 		}
 		isEnd := p.tok.Type == token.EOFType || p.atDocumentMarker()
 		if p.tok.Type != token.LineBreakType && !isEnd {
-			result.value = minIndent
-			if indent > minIndent {
+			// a less indented line is not a part of the scalar
+			if indent >= minIndent {
 				result.value = indent
 			}
 			break
-- 
2.43.0


From 5cbd18c084dd9f3470bd9e4b4d6c3c3bcb8ed4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:25 +0000
Subject: [PATCH 45/73] fix: treat opening brackets following a plain text in
 flow collections as indicators

---
 engines/yayamls/lexer/context.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index 8e5e2de..ed86c80 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -290,21 +290,17 @@ func (c *context) flowMatching(t *Tokenizer, r rune) (token.Token, bool) {
 			return tok, true
 		}
 	case yamlchar.SequenceStartCharacter:
-		if t.lookbehind(mayPrecedeWordInFlow) {
-			c.switchContext(flowContextType)
-			tok.End = t.pos
-			tok.Type = token.SequenceStartType
-			tok.Origin = string([]rune{r})
-			return tok, true
-		}
+		c.switchContext(flowContextType)
+		tok.End = t.pos
+		tok.Type = token.SequenceStartType
+		tok.Origin = string([]rune{r})
+		return tok, true
 	case yamlchar.MappingStartCharacter:
-		if t.lookbehind(mayPrecedeWordInFlow) {
-			c.switchContext(flowContextType)
-			tok.End = t.pos
-			tok.Type = token.MappingStartType
-			tok.Origin = string([]rune{r})
-			return tok, true
-		}
+		c.switchContext(flowContextType)
+		tok.End = t.pos
+		tok.Type = token.MappingStartType
+		tok.Origin = string([]rune{r})
+		return tok, true
 	case yamlchar.SequenceEndCharacter:
 		c.revertContext()
 		tok.End = t.pos
-- 
2.43.0


From 6222186060c3ad9f34695801bd67bb92a8910e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:59 +0000
Subject: [PATCH 46/73] fix: accept local prefixes in TAG directives

---
 engines/yayamls/parser/documents.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/parser/documents.go b/engines/yayamls/parser/documents.go
index c023eb4..40f7bee 100644
--- a/engines/yayamls/parser/documents.go
+++ b/engines/yayamls/parser/documents.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"strings"
 	"unicode"
 
 	"github.com/KSpaceer/yamly/engines/yayamls/ast"
@@ -295,7 +296,9 @@ func (p *parser) parseTagPrefix() ast.Node {
 		if p.tok.Type != token.StringType || len(p.tok.Origin) == 0 {
 			return ast.NewInvalidNode()
 		}
-		if !yamlchar.ConformsCharSet(p.tok.Origin[:1], yamlchar.TagCharSetType) ||
+		// local tag prefix has single string token in raw mode
+		isLocal := strings.HasPrefix(p.tok.Origin, string(yamlchar.TagCharacter))
+		if !isLocal && !yamlchar.ConformsCharSet(p.tok.Origin[:1], yamlchar.TagCharSetType) ||
 			!p.tok.ConformsCharSet(yamlchar.URICharSetType) {
 			return ast.NewInvalidNode()
 		}
-- 
2.43.0


From 8861d28db5593d08f65270aa3ae08f0082e6b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:00 +0000
Subject: [PATCH 47/73] fix: skip and serialize keys of mappings apart from
 their values

---
 engines/yayamls/decode/expected.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/decode/expected.go b/engines/yayamls/decode/expected.go
index 1da783c..4468ed7 100644
--- a/engines/yayamls/decode/expected.go
+++ b/engines/yayamls/decode/expected.go
@@ -274,7 +274,7 @@ func (expectRaw) name() string {
 
 func (expectRaw) process(n ast.Node, prev visitingResult) visitingResult {
 	switch n.Type() {
-	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType:
+	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType, ast.MappingEntryType:
 		return visitingResult{
 			conclusion: visitingConclusionContinue,
 		}
@@ -302,7 +302,7 @@ func (expectSkip) name() string {
 
 func (expectSkip) process(n ast.Node, prev visitingResult) visitingResult {
 	switch n.Type() {
-	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType:
+	case ast.ContentType, ast.PropertiesType, ast.TagType, ast.AnchorType, ast.MappingEntryType:
 		return visitingResult{
 			conclusion: visitingConclusionContinue,
 		}
-- 
2.43.0


From d41e7313d54bde3a6af3f37ce96d4a9b727f4d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:22 +0000
Subject: [PATCH 48/73] fix: keep quotes of empty strings in goyaml builder

---
 engines/goyaml/encode/builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index 64f2230..c15e52b 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -61,7 +61,7 @@ func (b *ASTBuilder) InsertFloat(val float64) {
 
 func (b *ASTBuilder) InsertString(val string) {
 	style := yaml.DoubleQuotedStyle
-	if b.opts.unquoteOneliners && !isMultiline(val) {
+	if b.opts.unquoteOneliners && val != "" && !isMultiline(val) {
 		style = 0
 	}
 	insertNonNullValue(b, val, func(s string) string { return s }, style)
-- 
2.43.0


From f18c6b8e0649c3b757f1f55ed293b678c15c4093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:22 +0000
Subject: [PATCH 49/73] fix: keep quotes of strings with Unicode line breaks in
 goyaml builder

---
 engines/goyaml/encode/builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engines/goyaml/encode/builder.go b/engines/goyaml/encode/builder.go
index c15e52b..fce350f 100644
--- a/engines/goyaml/encode/builder.go
+++ b/engines/goyaml/encode/builder.go
@@ -244,7 +244,7 @@ func (b *ASTBuilder) popNode() {
 }
 
 func isMultiline(s string) bool {
-	return strings.ContainsRune(s, '\n')
+	return strings.ContainsAny(s, "\n\u0085\u2028\u2029")
 }
 
 func kindToString(k yaml.Kind) string {
-- 
2.43.0


From 437e10781254cf5d405c9353d368ed83fc2dcad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:56 +0000
Subject: [PATCH 50/73] fix: write long texts as explicit keys

---
 engines/yayamls/encode/writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index c3934dc..53eea7f 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -16,6 +16,10 @@ const (
 	defaultIndendationDelta = 2
 )
 
+// maxImplicitKeyLength is the length of text which still can be written as implicit key: YAML limits
+// implicit keys to 1024 characters, including quotes and escape sequences.
+const maxImplicitKeyLength = 128
+
 const nullValue = "null"
 
 var _ yamly.TreeWriter[ast.Node] = (*ASTWriter)(nil)
@@ -445,6 +449,8 @@ func isComplex(n ast.Node) bool {
 		return len(n.Entries()) > 0
 	case *ast.ContentNode:
 		return isComplex(n.Content())
+	case *ast.TextNode:
+		return len(n.Text()) > maxImplicitKeyLength
 	default:
 		return false
 	}
-- 
2.43.0


From e969de9de0e29e3da96f606bb4ad7a895b8d62c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:19 +0000
Subject: [PATCH 51/73] fix: accept exclamation marks in verbatim tags

---
 engines/yayamls/lexer/context.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/lexer/context.go b/engines/yayamls/lexer/context.go
index ed86c80..d5bb5c1 100644
--- a/engines/yayamls/lexer/context.go
+++ b/engines/yayamls/lexer/context.go
@@ -15,6 +15,7 @@ const (
 	singleQuoteContextType
 	doubleQuoteContextType
 	tagContextType
+	verbatimTagContextType
 )
 
 const contextStackPreallocationSize = 4
@@ -68,7 +69,7 @@ func (c *context) whitespaceRevertContext() {
 	ctxType := c.currentType()
 	for {
 		switch ctxType {
-		case tagContextType:
+		case tagContextType, verbatimTagContextType:
 		default:
 			return
 		}
@@ -465,6 +466,10 @@ func (c *context) tagMatching(t *Tokenizer, r rune) (token.Token, bool) {
 		tok.Origin = string([]rune{r})
 		return tok, true
 	}
+	if r == '<' && t.lookbehind(func(tok token.Token) bool { return tok.Type == token.TagType }) {
+		// tag characters inside of verbatim tags are parts of URI
+		c.switchContext(verbatimTagContextType)
+	}
 	return c.baseMatching(t, r)
 }
 
-- 
2.43.0


From 0072704d2a5e4ce8e0072bfc5db35aefc6728866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:57 +0000
Subject: [PATCH 52/73] fix: accept properties of the first key behind
 properties of block mapping

---
 engines/yayamls/parser/block.go      | 46 +++++++++++++++++++---------
 engines/yayamls/parser/properties.go | 34 ++++++++++++++------
 2 files changed, 55 insertions(+), 25 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index f229124..516477f 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -51,22 +51,12 @@ func (p *parser) parseBlockCollection(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
-	p.setCheckpoint()
-
-	var properties ast.Node
-
-	ind.value++
-	if ast.ValidNode(p.parseSeparate(ind, ctx)) {
-		properties = p.parseProperties(ind, ctx)
+	properties := p.parseCollectionProperties(ind, ctx, p.parseProperties)
+	if !ast.ValidNode(properties) {
+		// the latter of two properties can belong to the first key
+		properties = p.parseCollectionProperties(ind, ctx, p.parseSingleProperty)
 	}
-	ind.value--
-
-	// properties belong to the collection only if nothing else follows them on the line,
-	// otherwise they belong to its first key
-	if ast.ValidNode(properties) && ast.ValidNode(p.parseComments()) {
-		p.commit()
-	} else {
-		p.rollback()
+	if !ast.ValidNode(properties) {
 		properties = nil
 		if !ast.ValidNode(p.parseComments()) {
 			return ast.NewInvalidNode()
@@ -87,6 +77,32 @@ func (p *parser) parseBlockCollection(ind *indentation, ctx context) ast.Node {
 	return newContentNode(properties, collection)
 }
 
+// parseCollectionProperties parses properties of block collection using given function.
+// Properties belong to the collection only if nothing else follows them on the line,
+// otherwise they belong to its first key.
+func (p *parser) parseCollectionProperties(
+	ind *indentation,
+	ctx context,
+	parse func(*indentation, context) ast.Node,
+) ast.Node {
+	p.setCheckpoint()
+
+	var properties ast.Node
+
+	ind.value++
+	if ast.ValidNode(p.parseSeparate(ind, ctx)) {
+		properties = parse(ind, ctx)
+	}
+	ind.value--
+
+	if !ast.ValidNode(properties) || !ast.ValidNode(p.parseComments()) {
+		p.rollback()
+		return ast.NewInvalidNode()
+	}
+	p.commit()
+	return properties
+}
+
 // YAML specification: [187] l+block-mapping
 func (p *parser) parseBlockMapping(ind *indentation) ast.Node {
 	if p.hasErrors() {
diff --git a/engines/yayamls/parser/properties.go b/engines/yayamls/parser/properties.go
index 1224b38..09359e0 100644
--- a/engines/yayamls/parser/properties.go
+++ b/engines/yayamls/parser/properties.go
@@ -66,16 +66,7 @@ func (p *parser) parseProperties(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
-	var tag, anchor ast.Node
-	switch p.tok.Type {
-	case token.TagType:
-		tag = p.parseTagProperty()
-	case token.AnchorType:
-		anchor = p.parseAnchorProperty()
-	default:
-		return ast.NewInvalidNode()
-	}
-
+	tag, anchor := p.parseTagOrAnchor()
 	if !ast.ValidNode(tag) && !ast.ValidNode(anchor) {
 		return ast.NewInvalidNode()
 	}
@@ -98,6 +89,29 @@ func (p *parser) parseProperties(ind *indentation, ctx context) ast.Node {
 	return ast.NewPropertiesNode(tag, anchor)
 }
 
+// parseSingleProperty parses only one of properties.
+func (p *parser) parseSingleProperty(*indentation, context) ast.Node {
+	if p.hasErrors() {
+		return ast.NewInvalidNode()
+	}
+	tag, anchor := p.parseTagOrAnchor()
+	if !ast.ValidNode(tag) && !ast.ValidNode(anchor) {
+		return ast.NewInvalidNode()
+	}
+	return ast.NewPropertiesNode(tag, anchor)
+}
+
+func (p *parser) parseTagOrAnchor() (tag, anchor ast.Node) {
+	switch p.tok.Type {
+	case token.TagType:
+		return p.parseTagProperty(), nil
+	case token.AnchorType:
+		return nil, p.parseAnchorProperty()
+	default:
+		return nil, nil
+	}
+}
+
 // YAML specification: [104] c-ns-alias-node
 func (p *parser) parseAliasNode() ast.Node {
 	if p.hasErrors() || p.tok.Type != token.AliasType {
-- 
2.43.0


From f29329d388c8147cbcf4e6d94c014d3683aef007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:09 +0000
Subject: [PATCH 53/73] fix: accept parentheses in tags

---
 engines/yayamls/yamlchar/chars.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/yamlchar/chars.go b/engines/yayamls/yamlchar/chars.go
index be5ec59..d13928e 100644
--- a/engines/yayamls/yamlchar/chars.go
+++ b/engines/yayamls/yamlchar/chars.go
@@ -72,7 +72,7 @@ func IsWord(s string) bool {
 
 // YAML specification: [39] ns-uri-char
 func IsURI(s string) bool {
-	const URIOnlyChars = "-#;/?:@&=+$_.!~*'"
+	const URIOnlyChars = "-#;/?:@&=+$_.!~*'()"
 
 	runes := []rune(s)
 	n := len(runes)
@@ -96,7 +96,7 @@ func IsURI(s string) bool {
 
 // YAML specification: [40] ns-tag-char
 func IsTagString(s string) bool {
-	const TagOnlyChars = "-#;/?:@&=+$_.~*'"
+	const TagOnlyChars = "-#;/?:@&=+$_.~*'()"
 
 	runes := []rune(s)
 	n := len(runes)
-- 
2.43.0


From d58390fcbbfa9d8804ee83a1745592678d72f56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:31 +0000
Subject: [PATCH 54/73] fix: accept properties of quoted texts and collections
 used as keys of flow mappings

---
 engines/yayamls/parser/flow.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index 59f9a1b..a53e7ba 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -787,8 +787,9 @@ func (p *parser) parseFlowMappingImplicitEntry(ind *indentation, ctx context) as
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
+	// JSON key goes first: otherwise its properties are considered to be a key without content
 	p.setCheckpoint()
-	entry := p.parseFlowMappingYAMLKeyEntry(ind, ctx)
+	entry := p.parseFlowMappingJSONKeyEntry(ind, ctx)
 	if ast.ValidNode(entry) {
 		p.commit()
 		return entry
@@ -796,7 +797,7 @@ func (p *parser) parseFlowMappingImplicitEntry(ind *indentation, ctx context) as
 	p.rollback()
 
 	p.setCheckpoint()
-	entry = p.parseFlowMappingJSONKeyEntry(ind, ctx)
+	entry = p.parseFlowMappingYAMLKeyEntry(ind, ctx)
 	if ast.ValidNode(entry) {
 		p.commit()
 		return entry
-- 
2.43.0


From 5b88efdf3bdf683f574adaa6950752f24abdcf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:00 +0000
Subject: [PATCH 55/73] fix: accept deeply nested flow sequences

---
 engines/yayamls/parser/flow.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/engines/yayamls/parser/flow.go b/engines/yayamls/parser/flow.go
index a53e7ba..5874454 100644
--- a/engines/yayamls/parser/flow.go
+++ b/engines/yayamls/parser/flow.go
@@ -625,8 +625,17 @@ func (p *parser) parseFlowSequenceEntry(ind *indentation, ctx context) ast.Node
 	if p.hasErrors() {
 		return ast.NewInvalidNode()
 	}
+	// most entries are not pairs, so looking for a pair first would parse nested collections again and again
 	p.setCheckpoint()
-	entry := p.parseFlowPair(ind, ctx)
+	entry := p.parseFlowNode(ind, ctx)
+	if ast.ValidNode(entry) && !p.isFollowedByMappingValue() {
+		p.commit()
+		return entry
+	}
+	p.rollback()
+
+	p.setCheckpoint()
+	entry = p.parseFlowPair(ind, ctx)
 	if ast.ValidNode(entry) {
 		p.commit()
 		return entry
@@ -635,6 +644,16 @@ func (p *parser) parseFlowSequenceEntry(ind *indentation, ctx context) ast.Node
 	return p.parseFlowNode(ind, ctx)
 }
 
+// isFollowedByMappingValue shows if there is a value indicator further on the line.
+func (p *parser) isFollowedByMappingValue() bool {
+	p.setCheckpoint()
+	defer p.rollback()
+	for token.IsWhiteSpace(p.tok) {
+		p.next()
+	}
+	return p.tok.Type == token.MappingValueType
+}
+
 // YAML specification: [150] ns-flow-pair
 func (p *parser) parseFlowPair(ind *indentation, ctx context) ast.Node {
 	if p.hasErrors() {
-- 
2.43.0


From 8f9ce5f4793c0f544387027e9809d535dbfcca92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:18 +0000
Subject: [PATCH 56/73] fix: report collections entered inside of themselves
 when reading step by step

---
 engines/goyaml/decode/reader.go   | 19 +++++++++++++++++++
 engines/yayamls/decode/anchors.go | 10 ++++++++++
 engines/yayamls/decode/reader.go  | 19 +++++++++++++++++++
 3 files changed, 48 insertions(+)

diff --git a/engines/goyaml/decode/reader.go b/engines/goyaml/decode/reader.go
index 346034a..312f670 100644
--- a/engines/goyaml/decode/reader.go
+++ b/engines/goyaml/decode/reader.go
@@ -271,6 +271,9 @@ func (r *ASTReader) Sequence() yamly.CollectionState {
 		r.latestDenyError = nil
 		return noopCollectionState
 	}
+	if r.isInsideOfItself() {
+		return noopCollectionState
+	}
 	return r.extractedCollectionState
 }
 
@@ -285,9 +288,25 @@ func (r *ASTReader) Mapping() yamly.CollectionState {
 		r.latestDenyError = nil
 		return noopCollectionState
 	}
+	if r.isInsideOfItself() {
+		return noopCollectionState
+	}
 	return r.extractedCollectionState
 }
 
+// isInsideOfItself checks whether the opened collection is already being read,
+// so it is entered through an alias inside of it and reading it would never end.
+func (r *ASTReader) isInsideOfItself() bool {
+	opened := r.currentNode()
+	for _, point := range r.route[:len(r.route)-1] {
+		if point.node == opened {
+			r.appendError(SelfReferenceError{name: opened.Anchor})
+			return true
+		}
+	}
+	return false
+}
+
 func (r *ASTReader) Any() any {
 	if r.hasFatalError() {
 		return nil
diff --git a/engines/yayamls/decode/anchors.go b/engines/yayamls/decode/anchors.go
index b1ecc66..bbd8b2b 100644
--- a/engines/yayamls/decode/anchors.go
+++ b/engines/yayamls/decode/anchors.go
@@ -62,6 +62,16 @@ func (ak *anchorsKeeper) DereferenceAlias(alias *ast.AliasNode) (ast.Node, error
 	return anchored, nil
 }
 
+// nameOf returns name of the alias referring to the node.
+func (ak *anchorsKeeper) nameOf(n ast.Node) string {
+	for alias, anchored := range ak.aliases {
+		if anchored == n {
+			return alias.Text()
+		}
+	}
+	return ""
+}
+
 func (ak *anchorsKeeper) clear() {
 	clear(ak.aliases)
 }
diff --git a/engines/yayamls/decode/reader.go b/engines/yayamls/decode/reader.go
index 9aa436c..3ee48d8 100644
--- a/engines/yayamls/decode/reader.go
+++ b/engines/yayamls/decode/reader.go
@@ -281,6 +281,9 @@ func (r *ASTReader) Sequence() yamly.CollectionState {
 		r.latestDenyError = nil
 		return noopCollectionState
 	}
+	if r.isInsideOfItself() {
+		return noopCollectionState
+	}
 	return r.extractedCollectionState
 }
 
@@ -295,9 +298,25 @@ func (r *ASTReader) Mapping() yamly.CollectionState {
 		r.latestDenyError = nil
 		return noopCollectionState
 	}
+	if r.isInsideOfItself() {
+		return noopCollectionState
+	}
 	return r.extractedCollectionState
 }
 
+// isInsideOfItself checks whether the opened collection is already being read,
+// so it is entered through an alias inside of it and reading it would never end.
+func (r *ASTReader) isInsideOfItself() bool {
+	opened := r.currentNode()
+	for _, point := range r.route[:len(r.route)-1] {
+		if point.node == opened {
+			r.appendError(SelfReferenceError{name: r.anchors.nameOf(opened)})
+			return true
+		}
+	}
+	return false
+}
+
 func (r *ASTReader) Any() any {
 	if r.hasFatalError() {
 		return nil
-- 
2.43.0


From b17d6f331fdac5955c41781a33db03f6a59b70af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:35 +0000
Subject: [PATCH 57/73] fix: generate unique function names for types of the
 same package

---
 generator/generator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generator/generator.go b/generator/generator.go
index e40d1a8..2326862 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -301,7 +301,10 @@ func (g *Generator) generateVarName(suffixes ...string) string {
 }
 
 func (g *Generator) generateFunctionName(prefix string, t reflect.Type) string {
-	prefix = joinFunctionNameParts(true, "yamly", prefix)
+	// files of the same package must not declare the same functions
+	hasher := fnv.New32()
+	hasher.Write([]byte(g.outputFile))
+	prefix = joinFunctionNameParts(true, "yamly", fmt.Sprintf("%x", hasher.Sum32()), prefix)
 	name := joinFunctionNameParts(true, prefix, safeTypeName(t))
 
 	if typ, ok := g.funcNames[name]; !ok || t == typ {
-- 
2.43.0


From a4f8252b27d494eff6979b7db974c9d3270d4782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:36 +0000
Subject: [PATCH 58/73] fix: generate code for slices and maps containing
 themselves

---
 generator/decoder.go   |  7 +++++++
 generator/encoder.go   | 24 +++++++++++++++++-------
 generator/generator.go | 17 +++++++++++++++++
 3 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 1156d4a..7c55356 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -191,6 +191,13 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 		return nil
 	}
 
+	if !g.expand(t) {
+		g.addType(t)
+		fmt.Fprintln(g.out, whitespace+g.decoderFunctionName(t)+"(in, &"+outArg+")")
+		return nil
+	}
+	defer delete(g.expandedTypes, t)
+
 	switch t.Kind() {
 	case reflect.Slice:
 		elem := t.Elem()
diff --git a/generator/encoder.go b/generator/encoder.go
index c2da88c..61fd5ce 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -213,6 +213,12 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 		return nil
 	}
 
+	if !g.expand(t) {
+		g.generateEncoderCall(t, inArg, whitespace)
+		return nil
+	}
+	defer delete(g.expandedTypes, t)
+
 	switch t.Kind() {
 	case reflect.Slice:
 		elem := t.Elem()
@@ -258,13 +264,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 			fmt.Fprintln(g.out, whitespace+"out.EndSequence()")
 		}
 	case reflect.Struct:
-		enc := g.encoderFunctionName(t)
-		g.addType(t)
-		if g.encodePointerReceiver {
-			fmt.Fprintln(g.out, whitespace+enc+"(out, &"+inArg+")")
-		} else {
-			fmt.Fprintln(g.out, whitespace+enc+"(out, "+inArg+")")
-		}
+		g.generateEncoderCall(t, inArg, whitespace)
 	case reflect.Pointer:
 		extraIndent := 2
 		if canBeNull {
@@ -338,6 +338,16 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 	return nil
 }
 
+func (g *Generator) generateEncoderCall(t reflect.Type, inArg, whitespace string) {
+	enc := g.encoderFunctionName(t)
+	g.addType(t)
+	if g.encodePointerReceiver {
+		fmt.Fprintln(g.out, whitespace+enc+"(out, &"+inArg+")")
+	} else {
+		fmt.Fprintln(g.out, whitespace+enc+"(out, "+inArg+")")
+	}
+}
+
 func implementMarshalerYamly(t reflect.Type) bool {
 	return t.Implements(reflect.TypeOf((*yamly.MarshalerYamly)(nil)).Elem())
 }
diff --git a/generator/generator.go b/generator/generator.go
index 2326862..d6572bc 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -43,6 +43,9 @@ type Generator struct {
 	pendingTypes   []reflect.Type
 	generatedTypes map[reflect.Type]bool
 
+	// expandedTypes holds named types which are being (de|en)coded in place
+	expandedTypes map[reflect.Type]bool
+
 	funcNames map[string]reflect.Type
 
 	variablesCounter int
@@ -54,6 +57,7 @@ func New(outputFile string) *Generator {
 		outputFile:     outputFile,
 		imports:        map[string]string{pkgYamly: "yamly"},
 		generatedTypes: make(map[reflect.Type]bool),
+		expandedTypes:  make(map[reflect.Type]bool),
 		funcNames:      make(map[string]reflect.Type),
 	}
 }
@@ -117,6 +121,19 @@ func (g *Generator) addType(t reflect.Type) {
 	g.pendingTypes = append(g.pendingTypes, t)
 }
 
+// expand marks the type as being (de|en)coded in place. If it returns false,
+// the type contains itself and must be processed with its own function.
+func (g *Generator) expand(t reflect.Type) bool {
+	if t.Name() == "" {
+		return true
+	}
+	if g.expandedTypes[t] {
+		return false
+	}
+	g.expandedTypes[t] = true
+	return true
+}
+
 // Generate generates code for marshalling methods, writing it into given io.Writer.
 func (g *Generator) Generate(w io.Writer) error {
 	g.out = &bytes.Buffer{}
-- 
2.43.0


From 4fa2d342d7ad9d7f008db090ef5ecdeb83cc3a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:34 +0000
Subject: [PATCH 59/73] fix: allocate inlined pointers only for present fields
 and omit fields of nil ones

---
 generator/decoder.go   | 15 ++++++--------
 generator/encoder.go   | 10 ++++++++-
 generator/generator.go | 46 ++++++++++++++++++++++++++++++++----------
 3 files changed, 50 insertions(+), 21 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 7c55356..3f90599 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -80,14 +80,6 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	fmt.Fprintln(g.out, "  }")
 	fmt.Fprintln(g.out)
 
-	for i := 0; i < t.NumField(); i++ {
-		f := t.Field(i)
-		if f.Type.Kind() != reflect.Pointer || !g.isInlined(f) {
-			continue
-		}
-		fmt.Fprintln(g.out, "  out."+f.Name+" = new("+g.extractTypeName(f.Type.Elem())+")")
-	}
-
 	fields, err := g.getStructFields(t)
 	if err != nil {
 		return fmt.Errorf("cannot generate decoder for %s: %w", t, err)
@@ -114,7 +106,7 @@ func (g *Generator) generateStructDecoder(t reflect.Type) error {
 	return nil
 }
 
-func (g *Generator) generateStructFieldDecoder(f reflect.StructField) error {
+func (g *Generator) generateStructFieldDecoder(f structField) error {
 	tags := parseTags(f.Tag)
 
 	if tags.omitField {
@@ -126,6 +118,11 @@ func (g *Generator) generateStructFieldDecoder(f reflect.StructField) error {
 	fmt.Fprintln(g.out, "      if in.TryNull() {")
 	fmt.Fprintln(g.out, "        continue")
 	fmt.Fprintln(g.out, "      }")
+	for _, p := range f.pointers {
+		fmt.Fprintln(g.out, "      if out."+p.name+" == nil {")
+		fmt.Fprintln(g.out, "        out."+p.name+" = new("+g.extractTypeName(p.elemType)+")")
+		fmt.Fprintln(g.out, "      }")
+	}
 	return g.generateDecoderBody(f.Type, "out."+f.Name, tags, 6, true)
 }
 
diff --git a/generator/encoder.go b/generator/encoder.go
index 61fd5ce..aee28fc 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -105,7 +105,7 @@ func (g *Generator) generateStructEncoder(t reflect.Type) error {
 	return nil
 }
 
-func (g *Generator) generateStructFieldEncoder(f reflect.StructField) error {
+func (g *Generator) generateStructFieldEncoder(f structField) error {
 	tags := parseTags(f.Tag)
 
 	if tags.omitField {
@@ -114,6 +114,10 @@ func (g *Generator) generateStructFieldEncoder(f reflect.StructField) error {
 	name := fieldKey(f, tags)
 	canBeNull := !(g.omitempty || tags.omitempty)
 
+	for _, p := range f.pointers {
+		fmt.Fprintln(g.out, "  if in."+p.name+" != nil {")
+	}
+
 	if !canBeNull {
 		fmt.Fprintln(g.out, "  if "+g.generateNotEmptyCheck(f.Type, "in."+f.Name)+" {")
 	} else {
@@ -126,6 +130,10 @@ func (g *Generator) generateStructFieldEncoder(f reflect.StructField) error {
 	}
 	fmt.Fprintln(g.out, "  }")
 
+	for range f.pointers {
+		fmt.Fprintln(g.out, "  }")
+	}
+
 	return nil
 }
 
diff --git a/generator/generator.go b/generator/generator.go
index d6572bc..1e8d876 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -405,14 +405,25 @@ func joinFunctionNameParts(keepFirst bool, parts ...string) string {
 	return buf.String()
 }
 
-func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, error) {
+// structField is a field of struct with inlined pointers leading to it.
+type structField struct {
+	reflect.StructField
+	pointers []inlinedPointer
+}
+
+type inlinedPointer struct {
+	name     string
+	elemType reflect.Type
+}
+
+func (g *Generator) getStructFields(t reflect.Type) ([]structField, error) {
 	if t.Kind() != reflect.Struct {
 		return nil, fmt.Errorf("expected struct, but got %s", t)
 	}
 
 	var (
-		embeddedFields []reflect.StructField
-		fields         []reflect.StructField
+		embeddedFields []structField
+		fields         []structField
 	)
 
 	for i := 0; i < t.NumField(); i++ {
@@ -431,17 +442,18 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 			if err != nil {
 				return nil, fmt.Errorf("error processing embedded field: %w", err)
 			}
-			if !f.Anonymous {
-				// nested fields are not promoted
-				for i := range fs {
+			for i := range fs {
+				if !f.Anonymous {
+					// nested fields are not promoted
 					fs[i].Name = f.Name + "." + fs[i].Name
 				}
+				fs[i].pointers = nestPointers(f, fs[i].pointers)
 			}
 			embeddedFields = mergeStructFields(embeddedFields, fs)
 		} else if (t.Kind() >= reflect.Bool && t.Kind() <= reflect.Complex128) || t.Kind() == reflect.String {
 			// kind is basic
 			if strings.Contains(f.Name, ".") || unicode.IsUpper([]rune(f.Name)[0]) {
-				fields = append(fields, f)
+				fields = append(fields, structField{StructField: f})
 			}
 		}
 	}
@@ -454,28 +466,40 @@ func (g *Generator) getStructFields(t reflect.Type) ([]reflect.StructField, erro
 
 		c := []rune(f.Name)[0]
 		if unicode.IsUpper(c) {
-			fields = append(fields, f)
+			fields = append(fields, structField{StructField: f})
 		}
 	}
 
 	return mergeStructFields(embeddedFields, fields), nil
 }
 
+// nestPointers returns pointers leading to the field of inlined struct.
+func nestPointers(f reflect.StructField, pointers []inlinedPointer) []inlinedPointer {
+	nested := make([]inlinedPointer, 0, len(pointers)+1)
+	if f.Type.Kind() == reflect.Pointer {
+		nested = append(nested, inlinedPointer{name: f.Name, elemType: f.Type.Elem()})
+	}
+	for _, p := range pointers {
+		nested = append(nested, inlinedPointer{name: f.Name + "." + p.name, elemType: p.elemType})
+	}
+	return nested
+}
+
 func (g *Generator) isInlined(f reflect.StructField) bool {
 	tags := parseTags(f.Tag)
 	return (f.Anonymous && g.inlineEmbedded && tags.name == "") || tags.inline
 }
 
 // fieldKey returns a mapping key of the struct field.
-func fieldKey(f reflect.StructField, tags fieldTags) string {
+func fieldKey(f structField, tags fieldTags) string {
 	if tags.name != "" {
 		return tags.name
 	}
 	return f.Name[strings.LastIndexByte(f.Name, '.')+1:]
 }
 
-func mergeStructFields(firstFields, secondFields []reflect.StructField) []reflect.StructField {
-	fields := make([]reflect.StructField, 0, len(firstFields))
+func mergeStructFields(firstFields, secondFields []structField) []structField {
+	fields := make([]structField, 0, len(firstFields))
 	used := make(map[string]bool)
 	for _, f := range secondFields {
 		used[f.Name] = true
-- 
2.43.0


From 9c7275eec40a277ebbce51d91a456b54e0385a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:34 +0000
Subject: [PATCH 60/73] fix: do not lose embedded slices, maps and arrays when
 inlining

---
 generator/generator.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 1e8d876..1980406 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -450,11 +450,9 @@ func (g *Generator) getStructFields(t reflect.Type) ([]structField, error) {
 				fs[i].pointers = nestPointers(f, fs[i].pointers)
 			}
 			embeddedFields = mergeStructFields(embeddedFields, fs)
-		} else if (t.Kind() >= reflect.Bool && t.Kind() <= reflect.Complex128) || t.Kind() == reflect.String {
-			// kind is basic
-			if strings.Contains(f.Name, ".") || unicode.IsUpper([]rune(f.Name)[0]) {
-				fields = append(fields, structField{StructField: f})
-			}
+		} else if strings.Contains(f.Name, ".") || unicode.IsUpper([]rune(f.Name)[0]) {
+			// only structs can be inlined
+			fields = append(fields, structField{StructField: f})
 		}
 	}
 
-- 
2.43.0


From 0982c6ab7bced5b097f436597631e29b39e91404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:25 +0000
Subject: [PATCH 61/73] fix: read and write time values as timestamps

---
 generator/decoder.go | 2 +-
 generator/encoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 3f90599..560fa45 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -134,7 +134,7 @@ func (g *Generator) generateDecoderBody(
 	complexTypeElem bool,
 ) error {
 	var finishingText string
-	if t != g.currentType {
+	if t != g.currentType && customDecoders[t.String()] == "" {
 		whitespace := strings.Repeat(" ", indent)
 
 		unmarshalIface := reflect.TypeOf((*yamly.UnmarshalerYamly)(nil)).Elem()
diff --git a/generator/encoder.go b/generator/encoder.go
index aee28fc..9280ea4 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -165,7 +165,7 @@ func (g *Generator) generateEncoderBody(
 	canBeNull bool,
 ) error {
 	var finishingText string
-	if t != g.currentType {
+	if t != g.currentType && customEncoderFormatStrings[t.String()] == "" {
 		whitespace := strings.Repeat(" ", indent)
 
 		marshalIface := reflect.TypeOf((*yamly.MarshalerYamly)(nil)).Elem()
-- 
2.43.0


From 7c36a042216590cefbb3a030d918118e5133afd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:20 +0000
Subject: [PATCH 62/73] fix: use marshalers with pointer receivers in goyaml
 engine

---
 engines/goyaml/engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index d636bec..a47674c 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -79,6 +79,10 @@ func (engineGenerator) MarshalersImplementationCheck(
 ) (generator.ImplementationResult, error) {
 	marshalIface := reflect.TypeOf((*yaml.Marshaler)(nil)).Elem()
 	if reflect.PtrTo(t).Implements(marshalIface) {
+		if !t.Implements(marshalIface) {
+			// methods of pointer receiver are not available for value
+			inArg = "&" + inArg
+		}
 		fmt.Fprintln(dst, strings.Repeat(" ", indent)+"out.InsertRaw(yaml.Marshal("+inArg+"))")
 		return generator.ImplementationResultTrue, nil
 	}
-- 
2.43.0


From 61baf923bba4da6d83b8a1cb98949d7641edf818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:30 +0000
Subject: [PATCH 63/73] fix: encode nil interfaces as null

---
 generator/encoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generator/encoder.go b/generator/encoder.go
index 9280ea4..2982bce 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -332,7 +332,9 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 				}
 			}
 		} else {
-			fmt.Fprintln(g.out, whitespace+"if m, ok := "+inArg+".(yamly.MarshalerYamly); ok {")
+			fmt.Fprintln(g.out, whitespace+"if "+inArg+" == nil {")
+			fmt.Fprintln(g.out, whitespace+"  out.InsertNull()")
+			fmt.Fprintln(g.out, whitespace+"} else if m, ok := "+inArg+".(yamly.MarshalerYamly); ok {")
 			fmt.Fprintln(g.out, whitespace+"  m.MarshalYamly(out)")
 			fmt.Fprintln(g.out, whitespace+"} else {")
 			if err := g.engineGen.GenerateMarshalEmptyInterfaceAssertions(g.out, inArg, indent+2); err != nil {
-- 
2.43.0


From b579f4cc48676d8498370f965c9f3a1a0f6e1096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:25 +0000
Subject: [PATCH 64/73] fix: do not dereference nil interfaces in generated
 code

---
 generator/decoder.go | 6 +++++-
 generator/encoder.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index 560fa45..a1c43c2 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -309,7 +309,11 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementsUnmarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+outArg+".UnmarshalYamly(in)")
+				fmt.Fprintln(g.out, whitespace+"if "+outArg+" == nil {")
+				fmt.Fprintln(g.out, whitespace+"  in.AddError(yamly.ErrUnmarshalerImplementation)")
+				fmt.Fprintln(g.out, whitespace+"} else {")
+				fmt.Fprintln(g.out, whitespace+"  "+outArg+".UnmarshalYamly(in)")
+				fmt.Fprintln(g.out, whitespace+"}")
 			} else if implResult, err := g.engineGen.UnmarshalersImplementationCheck(g.out, t, outArg, indent); err != nil {
 				return err
 			} else {
diff --git a/generator/encoder.go b/generator/encoder.go
index 2982bce..ea6aed1 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -318,7 +318,11 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 	case reflect.Interface:
 		if t.NumMethod() > 0 {
 			if implementMarshalerYamly(t) {
-				fmt.Fprintln(g.out, whitespace+inArg+".MarshalYamly(out)")
+				fmt.Fprintln(g.out, whitespace+"if "+inArg+" == nil {")
+				fmt.Fprintln(g.out, whitespace+"  out.InsertNull()")
+				fmt.Fprintln(g.out, whitespace+"} else {")
+				fmt.Fprintln(g.out, whitespace+"  "+inArg+".MarshalYamly(out)")
+				fmt.Fprintln(g.out, whitespace+"}")
 			} else if implResult, err := g.engineGen.MarshalersImplementationCheck(g.out, t, inArg, indent); err != nil {
 				return err
 			} else {
-- 
2.43.0


From 221e777d03f2054d54758ba83d9d73ae074f5da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:17 +0000
Subject: [PATCH 65/73] fix: do not pass absent nodes to unmarshalers in goyaml
 engine

---
 engines/goyaml/engine.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/engines/goyaml/engine.go b/engines/goyaml/engine.go
index a47674c..37c7990 100644
--- a/engines/goyaml/engine.go
+++ b/engines/goyaml/engine.go
@@ -64,7 +64,10 @@ func (engineGenerator) UnmarshalersImplementationCheck(
 	if reflect.PtrTo(t).Implements(unmarshalIface) {
 		whitespace := strings.Repeat(" ", indent)
 		fmt.Fprintln(dst, whitespace+"if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-		fmt.Fprintln(dst, whitespace+"  in.AddError(("+outArg+").UnmarshalYAML(extIn.Node()))")
+		// there is no node if reading has already failed
+		fmt.Fprintln(dst, whitespace+"  if node := extIn.Node(); node != nil {")
+		fmt.Fprintln(dst, whitespace+"    in.AddError(("+outArg+").UnmarshalYAML(node))")
+		fmt.Fprintln(dst, whitespace+"  }")
 		fmt.Fprintln(dst, whitespace, "} else {")
 		return generator.ImplementationResultConditional, nil
 	}
@@ -93,7 +96,9 @@ func (engineGenerator) GenerateUnmarshalEmptyInterfaceAssertions(dst io.Writer,
 	whitespace := strings.Repeat(" ", indent)
 	fmt.Fprintln(dst, whitespace+"if m, ok := "+outArg+".(yaml.Unmarshaler); ok {")
 	fmt.Fprintln(dst, whitespace+"  if extIn, ok := in.(yamly.ExtendedDecoder[*yaml.Node]); ok {")
-	fmt.Fprintln(dst, whitespace+"    in.AddError(m.UnmarshalYAML(extIn.Node()))")
+	fmt.Fprintln(dst, whitespace+"    if node := extIn.Node(); node != nil {")
+	fmt.Fprintln(dst, whitespace+"      in.AddError(m.UnmarshalYAML(node))")
+	fmt.Fprintln(dst, whitespace+"    }")
 	fmt.Fprintln(dst, whitespace+"  } else {")
 	fmt.Fprintln(dst, whitespace+"    "+outArg+" = in.Any()")
 	fmt.Fprintln(dst, whitespace+"  }")
-- 
2.43.0


From e033be45de640fce7b39815cadaf3d85c5fa357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:17 +0000
Subject: [PATCH 66/73] fix: generate code again when other types of the
 package refer to the type

---
 generator/bootstrap/generator.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/generator/bootstrap/generator.go b/generator/bootstrap/generator.go
index 53ebd6f..8b03a88 100644
--- a/generator/bootstrap/generator.go
+++ b/generator/bootstrap/generator.go
@@ -10,7 +10,10 @@ import (
 	"path/filepath"
 )
 
-const generatorPackage = "github.com/KSpaceer/yamly/generator"
+const (
+	yamlyPackage     = "github.com/KSpaceer/yamly"
+	generatorPackage = "github.com/KSpaceer/yamly/generator"
+)
 
 // Generator is used to generate a temporary bootstrap file in target package
 // with actual generator.Generator to generate the actual code.
@@ -48,6 +51,8 @@ func (g *Generator) generateStub() error {
 	fmt.Fprintln(f)
 	fmt.Fprintln(f, "package ", g.PkgName)
 	fmt.Fprintln(f)
+	fmt.Fprintf(f, "import yamly %q\n", yamlyPackage)
+	fmt.Fprintln(f)
 
 	var marshallableType string
 	if g.EncodePointerReceiver {
@@ -58,6 +63,9 @@ func (g *Generator) generateStub() error {
 
 	fmt.Fprintln(f, "func (", marshallableType, ") MarshalYAML() ([]byte, error) { return nil, nil }")
 	fmt.Fprintln(f, "func (*", g.Type, ") UnmarshalYAML([]byte) error { return nil }")
+	// code generated for other types of the package calls these methods
+	fmt.Fprintln(f, "func (", marshallableType, ") MarshalYamly(yamly.Inserter) {}")
+	fmt.Fprintln(f, "func (*", g.Type, ") UnmarshalYamly(yamly.Decoder) {}")
 	fmt.Fprintln(f)
 	fmt.Fprintln(f, "type Exporter_yamly_"+g.Type+" *"+g.Type)
 	return nil
-- 
2.43.0


From 1fc1726bd1935dd1e809a045c066b8d555624019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:23 +0000
Subject: [PATCH 67/73] fix: name empty null keys null in goyaml engine as in
 yayamls engine

---
 engines/goyaml/decode/any.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engines/goyaml/decode/any.go b/engines/goyaml/decode/any.go
index c4148bf..a1305a1 100644
--- a/engines/goyaml/decode/any.go
+++ b/engines/goyaml/decode/any.go
@@ -167,6 +167,9 @@ func (a *anyBuilder) processMappingPair(keyNode, valueNode *yaml.Node) {
 func (a *anyBuilder) visitScalarNode(n *yaml.Node) {
 	if a.extractString {
 		a.stringValue = n.Value
+		if n.Value == "" && schema.IsNull(n) {
+			a.stringValue = "null"
+		}
 	} else {
 		var err error
 		switch {
-- 
2.43.0


From 7ea7e000c94ec070c14e2fbbc522cc3498ece085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:23 +0000
Subject: [PATCH 68/73] fix: keep empty nulls of flow collections in raw data

---
 engines/goyaml/decode/raw.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/engines/goyaml/decode/raw.go b/engines/goyaml/decode/raw.go
index f5df52e..483238d 100644
--- a/engines/goyaml/decode/raw.go
+++ b/engines/goyaml/decode/raw.go
@@ -23,6 +23,10 @@ type rawTransformer struct {
 
 	dereferencedAliases []dereferencedAliasInfo
 
+	// spelledNulls contains empty nulls, which would be serialized
+	// as empty strings inside of flow collections.
+	spelledNulls []*yaml.Node
+
 	// visited contains collections which are being transformed.
 	visited map[*yaml.Node]struct{}
 	err     error
@@ -56,6 +60,11 @@ func (rt *rawTransformer) visitNode(n *yaml.Node) {
 		rt.metAnchors[n.Anchor] = n
 	}
 	switch n.Kind {
+	case yaml.ScalarNode:
+		if n.Tag == "!!null" && n.Value == "" && n.Style == 0 {
+			n.Value = "null"
+			rt.spelledNulls = append(rt.spelledNulls, n)
+		}
 	case yaml.AliasNode:
 		rt.visitNode(n.Alias)
 	case yaml.DocumentNode, yaml.MappingNode, yaml.SequenceNode:
@@ -83,6 +92,9 @@ func (rt *rawTransformer) visitNode(n *yaml.Node) {
 
 func (rt *rawTransformer) restore(n *yaml.Node) {
 	n.Anchor = rt.topLevelAnchor
+	for _, null := range rt.spelledNulls {
+		null.Value = ""
+	}
 	for _, deref := range rt.dereferencedAliases {
 		deref.parent.Content[deref.idx] = deref.alias
 	}
-- 
2.43.0


From 423e628d3081fbf20303b28dd2ce61c5e54ae9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:23 +0000
Subject: [PATCH 69/73] fix: do not treat block scalars as nulls

---
 engines/yayamls/parser/block.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engines/yayamls/parser/block.go b/engines/yayamls/parser/block.go
index 516477f..838bbfe 100644
--- a/engines/yayamls/parser/block.go
+++ b/engines/yayamls/parser/block.go
@@ -565,7 +565,7 @@ func (p *parser) parseFoldedContent(ind *indentation, chomping ast.ChompingType)
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text)
+	return ast.NewTextNode(text, ast.WithQuotingType(ast.DoubleQuotingType))
 }
 
 // YAML specification: [181] l-nb-diff-lines
@@ -848,7 +848,7 @@ func (p *parser) parseLiteralContent(ind *indentation, chomping ast.ChompingType
 	text := buf.String()
 	buf.Reset()
 	bufsPool.Put(buf)
-	return ast.NewTextNode(text)
+	return ast.NewTextNode(text, ast.WithQuotingType(ast.DoubleQuotingType))
 }
 
 // YAML specification: [165] b-chomped-last
-- 
2.43.0


From 33d4fbeac2cf9c32256797a7da17525ac2f78de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:55 +0000
Subject: [PATCH 70/73] fix: recognize time.Time by its type, not by its
 printed name

---
 generator/decoder.go |  9 +++++----
 generator/encoder.go | 10 +++++-----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/generator/decoder.go b/generator/decoder.go
index a1c43c2..fb275b3 100644
--- a/generator/decoder.go
+++ b/generator/decoder.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 	"strconv"
 	"strings"
+	"time"
 
 	"github.com/KSpaceer/yamly"
 )
@@ -27,8 +28,8 @@ var basicDecoders = map[reflect.Kind]string{
 	reflect.Float64: "in.Float(64)",
 }
 
-var customDecoders = map[string]string{
-	"time.Time": "in.Timestamp()",
+var customDecoders = map[reflect.Type]string{
+	reflect.TypeOf(time.Time{}): "in.Timestamp()",
 }
 
 func (g *Generator) generateUnmarshaler(t reflect.Type) error {
@@ -134,7 +135,7 @@ func (g *Generator) generateDecoderBody(
 	complexTypeElem bool,
 ) error {
 	var finishingText string
-	if t != g.currentType && customDecoders[t.String()] == "" {
+	if t != g.currentType && customDecoders[t] == "" {
 		whitespace := strings.Repeat(" ", indent)
 
 		unmarshalIface := reflect.TypeOf((*yamly.UnmarshalerYamly)(nil)).Elem()
@@ -180,7 +181,7 @@ func (g *Generator) generateDecoderBodyWithoutCheck(
 	complexTypeElem bool,
 ) error {
 	whitespace := strings.Repeat(" ", indent)
-	if dec := customDecoders[t.String()]; dec != "" {
+	if dec := customDecoders[t]; dec != "" {
 		fmt.Fprintln(g.out, whitespace+outArg+" = "+dec)
 		return nil
 	} else if dec := basicDecoders[t.Kind()]; dec != "" {
diff --git a/generator/encoder.go b/generator/encoder.go
index ea6aed1..ea658fd 100644
--- a/generator/encoder.go
+++ b/generator/encoder.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 	"strconv"
 	"strings"
+	"time"
 
 	"github.com/KSpaceer/yamly"
 )
@@ -27,8 +28,8 @@ var basicEncoderFormatStrings = map[reflect.Kind]string{
 	reflect.Float64: "out.InsertFloat(float64(%v))",
 }
 
-var customEncoderFormatStrings = map[string]string{
-	"time.Time": "out.InsertTimestamp(time.Time(%v))",
+var customEncoderFormatStrings = map[reflect.Type]string{
+	reflect.TypeOf(time.Time{}): "out.InsertTimestamp(%v)",
 }
 
 func (g *Generator) generateMarshaler(t reflect.Type) error {
@@ -165,7 +166,7 @@ func (g *Generator) generateEncoderBody(
 	canBeNull bool,
 ) error {
 	var finishingText string
-	if t != g.currentType && customEncoderFormatStrings[t.String()] == "" {
+	if t != g.currentType && customEncoderFormatStrings[t] == "" {
 		whitespace := strings.Repeat(" ", indent)
 
 		marshalIface := reflect.TypeOf((*yamly.MarshalerYamly)(nil)).Elem()
@@ -215,8 +216,7 @@ func (g *Generator) generateEncoderBodyWithoutCheck(
 	if enc := basicEncoderFormatStrings[t.Kind()]; enc != "" {
 		fmt.Fprintf(g.out, whitespace+enc+"\n", inArg)
 		return nil
-	} else if enc := customEncoderFormatStrings[t.String()]; enc != "" {
-		g.imports[t.PkgPath()] = t.PkgPath() // assume it is a standard library
+	} else if enc := customEncoderFormatStrings[t]; enc != "" {
 		fmt.Fprintf(g.out, whitespace+enc+"\n", inArg)
 		return nil
 	}
-- 
2.43.0


From 3d0db88ead0ee71f665f74fc1cdddc11b278028c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:56 +0000
Subject: [PATCH 71/73] fix: import packages under identifiers which hide
 nothing

---
 generator/generator.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index 1980406..f880526 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -3,6 +3,8 @@ package generator
 import (
 	"bytes"
 	"fmt"
+	"go/token"
+	"go/types"
 	"hash/fnv"
 	"io"
 	"path/filepath"
@@ -284,9 +286,20 @@ func (g *Generator) pkgAlias(pkgPath string) string {
 	}
 }
 
+// generatedVariables are variables of generated code, apart from the ones named by generateVarName.
+var generatedVariables = []string{"in", "out", "key", "zeroValue", "structMappingState"}
+
 func fixPkgAlias(alias string) string {
-	alias = strings.NewReplacer(".", "_", "-", "_").Replace(alias)
-	if alias[0] == 'v' {
+	alias = strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, alias)
+	// alias must be an identifier hiding neither predeclared ones
+	// nor variables of generated code
+	if alias[0] == 'v' || !token.IsIdentifier(alias) || types.Universe.Lookup(alias) != nil ||
+		slices.Contains(generatedVariables, alias) {
 		alias = "_" + alias
 	}
 	return alias
-- 
2.43.0


From 2cd45622d94c4359640d172ed4562a17aba7a5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:05 +0000
Subject: [PATCH 72/73] fix: name functions for types with non-ASCII names

---
 generator/generator.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/generator/generator.go b/generator/generator.go
index f880526..eabf08d 100644
--- a/generator/generator.go
+++ b/generator/generator.go
@@ -13,6 +13,7 @@ import (
 	"strconv"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const (
@@ -406,13 +407,9 @@ func joinFunctionNameParts(keepFirst bool, parts ...string) string {
 		if i == 0 && keepFirst {
 			buf.WriteString(parts[i])
 		} else {
-			n := len(parts[i])
-			if n > 0 {
-				buf.WriteString(strings.ToUpper(string(parts[i][0])))
-			}
-			if n > 1 {
-				buf.WriteString(parts[i][1:])
-			}
+			_, n := utf8.DecodeRuneInString(parts[i])
+			buf.WriteString(strings.ToUpper(parts[i][:n]))
+			buf.WriteString(parts[i][n:])
 		}
 	}
 	return buf.String()
-- 
2.43.0


From 680d8ce6f74b4d886481478a60f3dbb23b61cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:32 +0000
Subject: [PATCH 73/73] fix: write keys which are aliases of outer collections
 explicitly

With an anchors keeper, an alias of a node outside of the written tree is
replaced with that node. Used as a mapping key it was always written as an
implicit key, which gives unreadable text when the node is a collection.
---
 engines/yayamls/encode/writer.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/engines/yayamls/encode/writer.go b/engines/yayamls/encode/writer.go
index 53eea7f..8ee34dc 100644
--- a/engines/yayamls/encode/writer.go
+++ b/engines/yayamls/encode/writer.go
@@ -243,7 +243,7 @@ func (w *ASTWriter) VisitMappingNode(n *ast.MappingNode) {
 func (w *ASTWriter) VisitMappingEntryNode(n *ast.MappingEntryNode) {
 	key, value := n.Key(), n.Value()
 
-	isComplexKey := isComplex(n.Key())
+	isComplexKey := w.isComplex(n.Key())
 	if isComplexKey {
 		// the entry can be written outside of mapping as a single pair of flow sequence
 		w.buf.WriteString(w.beforeSimple)
@@ -441,14 +441,21 @@ func isLiteral(s string) bool {
 	return content != "" && !yamlchar.IsWhitespaceChar(rune(content[0]))
 }
 
-func isComplex(n ast.Node) bool {
+func (w *ASTWriter) isComplex(n ast.Node) bool {
 	switch n := n.(type) {
 	case *ast.SequenceNode:
 		return len(n.Entries()) > 0
 	case *ast.MappingNode:
 		return len(n.Entries()) > 0
 	case *ast.ContentNode:
-		return isComplex(n.Content())
+		return w.isComplex(n.Content())
+	case *ast.AliasNode:
+		if _, hasWroteAnchor := w.metAnchors[n.Text()]; w.opts.anchorsKeeper == nil || hasWroteAnchor {
+			return false
+		}
+		// the alias is written as the node it refers to
+		anchored, err := w.opts.anchorsKeeper.DereferenceAlias(n.Text())
+		return err == nil && w.isComplex(anchored)
 	case *ast.TextNode:
 		return len(n.Text()) > maxImplicitKeyLength
 	default:
-- 
2.43.0

