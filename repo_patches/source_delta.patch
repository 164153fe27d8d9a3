From c093b98c477caa69d295708f06fcd4d2c33b73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 01/51] fix: a sign following a number is an operator unless it
 belongs to an exponent

---
 parser/lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 108b486..68abf43 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -981,7 +981,8 @@ func (ctx *context) consumeFloat(start int, d rune) {
 func (ctx *context) skipDecimalDigits() (digitCount int) {
 	digitCount = 0
 	c, n := ctx.Peek()
-	if c == '-' || c == '+' {
+	if p := ctx.Pos(); (c == '-' || c == '+') && p > 0 && (ctx.text[p-1] == 'e' || ctx.text[p-1] == 'E') {
+		// A sign is only part of the number when it belongs to the exponent
 		ctx.Advance(n)
 		c, n = ctx.Peek()
 	}
-- 
2.43.0


From 6b4b7779293fd3a2ca9d22f5b7941ef08bdd0259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 02/51] fix: reset lexer and name stack state when a parser
 instance is reused

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index d786464..d4a6667 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -164,6 +164,12 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.locator = &Locator{string: source, file: filename}
 	ctx.definitions = make([]Definition, 0, 8)
 	ctx.nextLineStart = -1
+	ctx.currentToken = tokenEnd
+	ctx.tokenValue = nil
+	ctx.tokenStartPos = 0
+	ctx.beginningOfLine = 0
+	ctx.radix = 10
+	ctx.nameStack = nil
 
 	expr, err = ctx.parseTopExpression(filename, source, singleExpression)
 	if err == nil && !singleExpression {
-- 
2.43.0


From 78e47ad2adffe30d1f727a0ebd52719da2fcef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 03/51] fix: negative lengths in locations of step properties,
 returns and iteration parameters

---
 parser/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index d4a6667..d1ea9ac 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1147,12 +1147,12 @@ func (ctx *context) identifierExpr() (Expression, bool) {
 	start := ctx.tokenStartPos
 	switch ctx.currentToken {
 	case tokenIdentifier:
-		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, start-ctx.Pos())
+		name := ctx.factory.QualifiedName(ctx.tokenString(), ctx.locator, start, ctx.Pos()-start)
 		ctx.nextToken()
 		return name, true
 	default:
 		if word, ok := ctx.keyword(); ok {
-			name := ctx.factory.QualifiedName(word, ctx.locator, start, start-ctx.Pos())
+			name := ctx.factory.QualifiedName(word, ctx.locator, start, ctx.Pos()-start)
 			ctx.nextToken()
 			return name, ok
 		}
@@ -1462,7 +1462,7 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			iterParams := ctx.parameterList()
 			ctx.nextToken()
 			vs := ctx.Pos()
-			pl := ps - vs
+			pl := vs - ps
 			iterVars := ctx.lambdaParameterList()
 			ctx.nextToken()
 			vl := ctx.Pos() - vs
@@ -1837,7 +1837,7 @@ func (ctx *context) returnParameter() Expression {
 		case tokenLp, tokenWslp:
 			ps := ctx.tokenStartPos
 			ctx.nextToken()
-			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ps-ctx.Pos())
+			defaultExpression = ctx.factory.Array(ctx.expressions(tokenRp, ctx.attributeAlias), ctx.locator, ps, ctx.Pos()-ps)
 			ctx.nextToken()
 		default:
 			defaultExpression = ctx.attributeAlias()
-- 
2.43.0


From 609048493f18851cb4320ef5de77c5aec650992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 04/51] fix: token following a word that names a step style is
 scanned twice when workflow is enabled

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index d1ea9ac..3cffcd2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -450,8 +450,12 @@ func (ctx *context) step() (expr Expression) {
 		if qn, ok := expr.(*QualifiedName); ok {
 			s := qn.Name()
 			if style, ok := workflowStyles[s]; ok {
+				pos := ctx.Pos()
 				if name, ok := ctx.identifier(); ok {
 					expr = ctx.stepDeclaration(start, style, name, true)
+				} else {
+					// Not a step. The current token has already been consumed and must not be scanned again
+					ctx.SetPos(pos)
 				}
 			}
 		}
-- 
2.43.0


From b38a08d67aea1f7264ef594541c4e7a980d3d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 05/51] fix: location of workflow steps and their properties
 starts after their first token

---
 parser/parser.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3cffcd2..73a6fbe 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -444,7 +444,7 @@ func (ctx *context) assignment() (expr Expression) {
 }
 
 func (ctx *context) step() (expr Expression) {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	expr = ctx.resource()
 	if ctx.workflow {
 		if qn, ok := expr.(*QualifiedName); ok {
@@ -1309,7 +1309,7 @@ func (ctx *context) stepName(step StepStyle) string {
 // stepEntry is a hash entry with some specific constraints
 
 func (ctx *context) stepProperty() Expression {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	key, ok := ctx.identifierExpr()
 	if !ok {
 		panic(ctx.parseIssue(parseExpectedAttributeName))
@@ -1319,7 +1319,7 @@ func (ctx *context) stepProperty() Expression {
 	}
 	ctx.nextToken()
 
-	vstart := ctx.Pos()
+	vstart := ctx.tokenStartPos
 	name := key.(*QualifiedName).name
 	var value Expression
 	switch name {
@@ -1413,7 +1413,7 @@ func (ctx *context) stateAttribute() (op Expression) {
 }
 
 func (ctx *context) stepExpression() Expression {
-	start := ctx.Pos()
+	start := ctx.tokenStartPos
 	if ctx.currentToken == tokenFunction {
 		return ctx.functionDefinition()
 	}
@@ -1461,11 +1461,11 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			iterFunc := ctx.tokenString()
 			nl := len(iterFunc)
 			fs := ctx.tokenStartPos
-			ps := ctx.Pos()
 			ctx.nextToken()
+			ps := ctx.tokenStartPos
 			iterParams := ctx.parameterList()
 			ctx.nextToken()
-			vs := ctx.Pos()
+			vs := ctx.tokenStartPos
 			pl := vs - ps
 			iterVars := ctx.lambdaParameterList()
 			ctx.nextToken()
@@ -1517,7 +1517,7 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			ctx.nextToken()
 			entries := ctx.stateHash(hstart)
 			if len(entries) > 0 {
-				block = ctx.factory.Hash(entries, ctx.locator, start, ctx.Pos()-start).(*LiteralHash)
+				block = ctx.factory.Hash(entries, ctx.locator, hstart, ctx.Pos()-hstart).(*LiteralHash)
 			}
 			ctx.nextToken()
 		}
-- 
2.43.0


From 062b920a703edc5a85a47653abd97be64da2a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 06/51] fix: reject workflow parameters, returns, and
 iterations that are not in parameter list form

---
 parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 73a6fbe..f9e3b99 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1467,6 +1467,7 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 			ctx.nextToken()
 			vs := ctx.tokenStartPos
 			pl := vs - ps
+			ctx.assertToken(tokenPipe)
 			iterVars := ctx.lambdaParameterList()
 			ctx.nextToken()
 			vl := ctx.Pos() - vs
@@ -1760,6 +1761,7 @@ func (ctx *context) parameterList() (result []Expression) {
 		ctx.nextToken()
 		return ctx.expressions(tokenRp, ctx.parameter)
 	default:
+		ctx.assertToken(tokenLp)
 		return []Expression{}
 	}
 }
@@ -1806,6 +1808,7 @@ func (ctx *context) returnParameters() (result []Expression) {
 		ctx.nextToken()
 		return ctx.expressions(tokenRp, ctx.returnParameter)
 	default:
+		ctx.assertToken(tokenLp)
 		return []Expression{}
 	}
 }
-- 
2.43.0


From afb3c6f84f6a850ccdc84871f8e4785dab416f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 07/51] fix: position beyond end of source when a heredoc end
 tag is last in the source

---
 parser/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 68abf43..a302eb9 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1512,6 +1512,9 @@ findEndOfText:
 				ctx.SetPos(tagEnd)
 				c, n = ctx.skipWhiteInLiteral()
 				heredocEnd = n
+				if c == 0 {
+					heredocEnd-- // No newline to skip at end of source
+				}
 				if c == '\n' || c == 0 {
 					heredocContentEnd = lineStart
 					if suppressLastNL {
-- 
2.43.0


From 3227eb2155921aabce9d55d2dafd7309ccaca303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 08/51] fix: heredoc text line that starts with '-' or '|'
 affects trailing newline and margin

---
 parser/lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index a302eb9..f9109d0 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1482,6 +1482,10 @@ findEndOfText:
 
 		case '\n':
 			lineStart := ctx.Pos()
+
+			// Margin and newline suppression are only significant on the line of the end tag
+			indentStrip = 0
+			suppressLastNL = false
 			c, n = ctx.skipWhiteInLiteral()
 			switch c {
 			case 0:
-- 
2.43.0


From 64ce432e11ac814b228b1a2874cfa59f1986a9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 09/51] fix: panic on empty heredoc with suppressed last
 newline

---
 parser/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index f9109d0..d75a4a8 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1521,9 +1521,9 @@ findEndOfText:
 				}
 				if c == '\n' || c == 0 {
 					heredocContentEnd = lineStart
-					if suppressLastNL {
+					if suppressLastNL && heredocContentEnd > heredocContentStart {
 						heredocContentEnd--
-						if expr[heredocContentEnd-1] == '\r' {
+						if heredocContentEnd > heredocContentStart && expr[heredocContentEnd-1] == '\r' {
 							heredocContentEnd--
 						}
 					}
-- 
2.43.0


From 7fab575764f7371247ed3b44ffc776da7cac67d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 10/51] fix: heredoc text start is missed when the tag line
 contains a slash or a block comment

---
 parser/lexer.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index d75a4a8..b4575de 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1438,15 +1438,19 @@ findStartOfText:
 			panic(ctx.parseIssue(lexHeredocUnterminated))
 
 		case '#':
-			c, _ = ctx.skipWhite(true)
+			_, n = ctx.skipWhite(true)
+			ctx.SetPos(n)
+			c, sz = ctx.Peek()
 
 		case '/':
 			n = ctx.Pos()
 			ctx.Advance(sz)
-			c, _ = ctx.Next()
+			c, sz = ctx.Peek()
 			if c == '*' {
 				ctx.SetPos(n) // rewind to comment start
-				c, _ = ctx.skipWhite(true)
+				_, n = ctx.skipWhite(true)
+				ctx.SetPos(n)
+				c, sz = ctx.Peek()
 			}
 
 		case '\n':
-- 
2.43.0


From cb658a931c1e3471cc77f541048eefa7fed5c069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 11/51] fix: location of a block starts at its second token

The lookahead that computed the start also hid the white space in front of the
second token, so that '[' in '$a [1]' was an access operator.
---
 parser/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f9e3b99..7257de7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -249,8 +249,7 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 }
 
 func (ctx *context) parse(expectedEnd int, singleExpression bool) (expr Expression) {
-	_, start := ctx.skipWhite(false)
-	ctx.SetPos(start)
+	start := ctx.tokenStartPos
 	if singleExpression {
 		if ctx.currentToken == expectedEnd {
 			expr = ctx.factory.Undef(ctx.locator, start, 0)
-- 
2.43.0


From 56945d4a232eb041372fde248030f732ee2ca2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 12/51] fix: location of interpolation that is not first in a
 double quoted string

---
 parser/lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index b4575de..79ddcce 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1021,12 +1021,12 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 
 			case delimiter:
 				buf.WriteRune(delimiter)
-				ec, _ = ctx.Next()
+				ec, start = ctx.Next()
 				continue
 
 			default:
 				handler(buf, ctx, ec)
-				ec, _ = ctx.Next()
+				ec, start = ctx.Next()
 				continue
 			}
 
@@ -1041,7 +1041,7 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 			fallthrough
 		default:
 			buf.WriteRune(ec)
-			ec, _ = ctx.Next()
+			ec, start = ctx.Next()
 		}
 	}
 }
-- 
2.43.0


From 0d542320bac329db209030bd2110d29462141198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 13/51] fix: token following an interpolated string or heredoc
 is reported at the end of the interpolation

---
 parser/lexer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 79ddcce..1048128 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1249,7 +1249,8 @@ func (ctx *context) consumeDoubleQuotedString() {
 	if ctx.factory != nil {
 		segments = make([]Expression, 0, 4)
 	}
-	segments = ctx.consumeDelimitedString('"', ctx.Pos()-1, segments,
+	stringStart := ctx.Pos() - 1
+	segments = ctx.consumeDelimitedString('"', stringStart, segments,
 		func(buf *bytes.Buffer, ctx *context, ec rune) {
 			switch ec {
 			case '\\', '\'':
@@ -1295,7 +1296,8 @@ func (ctx *context) consumeDoubleQuotedString() {
 	} else {
 		segments = append(segments, ctx.factory.String(ctx.tokenValue.(string), ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
 	}
-	firstPos := segments[0].ByteOffset()
+	firstPos := stringStart
+	ctx.tokenStartPos = stringStart // Was moved by interpolation
 	if len(segments) == 1 {
 		if _, ok := segments[0].(*LiteralString); ok {
 			// Avoid turning a single string literal into a concatenated string
@@ -1546,11 +1548,13 @@ findEndOfText:
 		if quoteStart >= 0 && ctx.factory != nil {
 			segments = make([]Expression, 0, 4)
 		}
+		ctx.tokenStartPos = heredocContentStart
 		heredoc, segments = ctx.applyEscapes(heredocContentEnd, indentStrip, flags, segments)
 		if len(segments) > 0 {
 			if len(heredoc) > 0 {
 				segments = append(segments, ctx.factory.String(heredoc, ctx.locator, ctx.tokenStartPos, ctx.Pos()-ctx.tokenStartPos))
 			}
+			ctx.tokenStartPos = heredocStart   // Was moved to the text
 			ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
 			ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
 			textExpr := ctx.factory.ConcatenatedString(segments, ctx.locator, heredocContentStart, heredocContentEnd-heredocContentStart)
@@ -1562,6 +1566,7 @@ findEndOfText:
 		heredoc = ctx.From(heredocContentStart)
 	}
 
+	ctx.tokenStartPos = heredocStart
 	ctx.SetPos(heredocTagEnd)          // Normal parsing continues here
 	ctx.nextLineStart = heredocEnd + 1 // and next newline will jump to here
 	if ctx.factory != nil {
-- 
2.43.0


From 315b65af4407d7baf178b91487e4da6de59c55dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 14/51] fix: text of pending heredoc is parsed as code when a
 pipe ends its line

---
 parser/lexer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 1048128..cfbe636 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -420,10 +420,11 @@ func (ctx *context) nextToken() {
 		case '(':
 			// If token is first on line or only preceded by whitespace, then it is not start of parameters
 			// in a call.
-			savePos := ctx.Pos()
+			savePos, saveNextLine, saveLineBegin := ctx.Pos(), ctx.nextLineStart, ctx.beginningOfLine
 			ctx.SetPos(ctx.beginningOfLine)
 			_, firstNonWhite := ctx.skipWhite(false)
 			ctx.SetPos(savePos)
+			ctx.nextLineStart, ctx.beginningOfLine = saveNextLine, saveLineBegin
 			if firstNonWhite == start {
 				ctx.setToken(tokenWslp)
 			} else {
@@ -630,9 +631,10 @@ func (ctx *context) nextToken() {
 					// Empty parameter list
 					ctx.setToken(tokenPipeEnd)
 				} else {
-					pos := ctx.Pos()
+					pos, nextLine, lineBegin := ctx.Pos(), ctx.nextLineStart, ctx.beginningOfLine
 					n, _ := ctx.skipWhite(false)
 					ctx.SetPos(pos)
+					ctx.nextLineStart, ctx.beginningOfLine = nextLine, lineBegin
 					if n == '{' || n == '>' || ctx.eppMode && (n == '%' || n == '-') {
 						// A lambda parameter list cannot start with either of these tokens so
 						// this must be the end (next is either block body or block return type declaration)
-- 
2.43.0


From 236e9983617fda49aa5ae23a9a74008a4f619985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 15/51] fix: lexer state is not restored when a resource body
 without title is scanned again

---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7257de7..fc92985 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -982,7 +982,7 @@ func (ctx *context) caseOption() Expression {
 }
 
 func (ctx *context) resourceExpression(start int, first Expression, form ResourceForm) (expr Expression) {
-	bodiesStart := ctx.Pos()
+	bodiesStart, nextLine, lineBegin, defCount := ctx.Pos(), ctx.nextLineStart, ctx.beginningOfLine, len(ctx.definitions)
 	ctx.nextToken()
 	titleStart := ctx.Pos()
 	var firstTitle Expression
@@ -996,6 +996,10 @@ func (ctx *context) resourceExpression(start int, first Expression, form Resourc
 	if ctx.currentToken != tokenColon {
 		// Resource body without title
 		ctx.SetPos(titleStart)
+
+		// The body will be scanned again from the start
+		ctx.currentToken, ctx.nextLineStart, ctx.beginningOfLine = tokenLc, nextLine, lineBegin
+		ctx.definitions = ctx.definitions[:defCount]
 		switch ctx.resourceShape(first) {
 		case `resource`:
 			// This is just LHS followed by a hash. It only makes sense when LHS is an identifier equal
-- 
2.43.0


From 4c3eacc7ac470ef8b88af9955056bd2033c50a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 16/51] fix: simple lexer starts over at first newline

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index fc92985..88680b3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -93,7 +93,8 @@ func NewSimpleLexer(filename string, source string) Lexer {
 		handleBacktickStrings: false,
 		handleHexEscapes:      false,
 		tasks:                 false,
-		workflow:              false}}
+		workflow:              false,
+		nextLineStart:         -1}}
 }
 
 func (l *lexer) CurrentToken() int {
-- 
2.43.0


From fef718cb4e2c3bd068b8c4bcb7f3320167ba0470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 17/51] fix: panic when hash of type alias is operand of some
 other expression

---
 parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 88680b3..0a54b88 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1231,7 +1231,12 @@ func (ctx *context) typeAliasOrDefinition() Expression {
 		switch bt := body.(type) {
 		case *QualifiedReference:
 			if ctx.currentToken == tokenLc {
-				hash := ctx.expression().(*LiteralHash)
+				hashExpr := ctx.expression()
+				hash, ok := hashExpr.(*LiteralHash)
+				if !ok {
+					ctx.SetPos(hashExpr.ByteOffset())
+					panic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: tokenMap[tokenLc]}))
+				}
 				if bt.name == `Object` || bt.name == `TypeSet` {
 					body = ctx.factory.Access(bt, []Expression{hash}, ctx.locator, bodyStart, ctx.Pos()-bodyStart)
 				} else {
-- 
2.43.0


From 4cbac951fa4c94aada9b9ae7e2f1bb1431294772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 18/51] fix: line index ends at first NUL, panics on invalid
 UTF-8, and is unsafe for concurrent readers

---
 parser/expression.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parser/expression.go b/parser/expression.go
index d3765b6..cbef235 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"sort"
 	"strings"
+	"sync"
 	"unicode/utf8"
 
 	"github.com/lyraproj/issue/issue"
@@ -328,6 +329,8 @@ type (
 		string    string
 		file      string
 		lineIndex []int
+
+		lineIndexOnce sync.Once
 	}
 
 	MatchExpression struct {
@@ -582,16 +585,15 @@ func (e *Locator) PosOnLine(offset int) int {
 }
 
 func (e *Locator) getLineIndex() []int {
-	if e.lineIndex == nil {
+	e.lineIndexOnce.Do(func() {
 		li := append(make([]int, 0, 32), 0)
-		rdr := NewStringReader(e.string)
-		for c, _ := rdr.Next(); c != 0; c, _ = rdr.Next() {
-			if c == '\n' {
-				li = append(li, rdr.Pos())
+		for idx := 0; idx < len(e.string); idx++ {
+			if e.string[idx] == '\n' {
+				li = append(li, idx+1)
 			}
 		}
 		e.lineIndex = li
-	}
+	})
 	return e.lineIndex
 }
 
-- 
2.43.0


From 7ab62024a46e12dadc1991d5c65637e84b1132b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 19/51] fix: source is silently truncated at first NUL
 character

---
 parser/lexer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index cfbe636..9f7a043 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -379,6 +379,11 @@ func (ctx *context) nextToken() {
 	default:
 		switch c {
 		case 0:
+			if start < len(ctx.text) {
+				// A NUL character and not the end of the source
+				ctx.SetPos(start)
+				panic(ctx.parseIssue2(lexUnexpectedToken, issue.H{`token`: string(c)}))
+			}
 			ctx.setToken(tokenEnd)
 		case '=':
 			c, sz = ctx.Peek()
@@ -1052,7 +1057,7 @@ func (ctx *context) consumeEPP() {
 	buf := bytes.NewBufferString(``)
 	lastNonWS := 0
 	var sz int
-	for ec, start := ctx.Next(); ec != 0; ec, start = ctx.Next() {
+	for ec, start := ctx.Next(); ec != 0 || start < len(ctx.text); ec, start = ctx.Next() {
 		switch ec {
 		case '<':
 			ec, sz = ctx.Peek()
-- 
2.43.0


From 14221573d7a87325d0877cfdd416b5f35d1ce3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 20/51] fix: valid U+FFFD character is reported as invalid
 unicode

---
 parser/reader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/reader.go b/parser/reader.go
index c18c0b3..1c9ad73 100644
--- a/parser/reader.go
+++ b/parser/reader.go
@@ -63,7 +63,7 @@ func (r *stringReader) Next() (c rune, start int) {
 		return
 	}
 	c, size := utf8.DecodeRuneInString(r.text[r.i:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size == 1 {
 		panic(r.invalidUnicode())
 	}
 	r.i += size
@@ -80,7 +80,7 @@ func (r *stringReader) Peek() (c rune, size int) {
 		return
 	}
 	c, size = utf8.DecodeRuneInString(r.text[r.i:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size == 1 {
 		panic(r.invalidUnicode())
 	}
 	return c, size
@@ -96,7 +96,7 @@ func (r *stringReader) PeekAt(pos int) (c rune, size int) {
 		return
 	}
 	c, size = utf8.DecodeRuneInString(r.text[pos:])
-	if c == utf8.RuneError {
+	if c == utf8.RuneError && size == 1 {
 		panic(r.invalidUnicode())
 	}
 	return c, size
-- 
2.43.0


From 4aa8181aadfef795f04a9f6676198779a563e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 21/51] fix: zeroes are stripped from the exponent of floats

---
 pn/pn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pn/pn.go b/pn/pn.go
index 7ab8a12..20c7c76 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -248,7 +248,7 @@ func (pn *literalPN) AsParameters() []PN {
 
 // Strip zeroes between last significant digit and end or exponent. The
 // zero following the decimal point is considered significant.
-var StripTrailingZeroes = regexp.MustCompile(`\A(.*(?:\.0|[1-9]))0+(e[+-]?\d+)?\z`)
+var StripTrailingZeroes = regexp.MustCompile(`\A([^e]*(?:\.0|[1-9]))0+(e[+-]?\d+)?\z`)
 
 func (pn *literalPN) Format(b *bytes.Buffer) {
 	switch pn.val.(type) {
-- 
2.43.0


From df005ce00c19ace0ebb21ab7020dfb1598b8d8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 22/51] fix: hexadecimal escape that does not start with a hex
 digit is read as NUL

---
 parser/lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 9f7a043..24c7e2d 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1696,6 +1696,9 @@ func (ctx *context) appendHexadec(buf *bytes.Buffer) {
 			ctx.SetPos(start - 2)
 			panic(ctx.parseIssue(lexMalformedHexEscape))
 		}
+	} else {
+		ctx.SetPos(start - 2)
+		panic(ctx.parseIssue(lexMalformedHexEscape))
 	}
 	r, _ := strconv.ParseInt(ctx.From(start), 16, 64)
 	buf.WriteByte(byte(r))
-- 
2.43.0


From 2233b7803130322413706446b57e7f9c859c7fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:24 +0000
Subject: [PATCH 23/51] fix: value of a number that is out of range is silently
 changed

---
 parser/issues.go |  2 ++
 parser/lexer.go  | 31 ++++++++++++++++++++++++++-----
 parser/parser.go |  3 +++
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/parser/issues.go b/parser/issues.go
index d64af25..9a78d96 100644
--- a/parser/issues.go
+++ b/parser/issues.go
@@ -21,6 +21,7 @@ const (
 	lexMalformedHexEscape           = `LEX_MALFORMED_HEX_ESCAPE`
 	lexMalformedInterpolation       = `LEX_MALFORMED_INTERPOLATION`
 	lexMalformedUnicodeEscape       = `LEX_MALFORMED_UNICODE_ESCAPE`
+	lexNumberOutOfRange             = `LEX_NUMBER_OUT_OF_RANGE`
 	lexOctaldigitExpected           = `LEX_OCTALDIGIT_EXPECTED`
 	lexUnbalancedEppComment         = `LEX_UNBALANCED_EPP_COMMENT`
 	lexUnexpectedToken              = `LEX_UNEXPECTED_TOKEN`
@@ -74,6 +75,7 @@ func init() {
 	issue.Hard(lexMalformedHexEscape, `malformed hexadecimal escape sequence`)
 	issue.Hard(lexMalformedInterpolation, `malformed interpolation expression`)
 	issue.Hard(lexMalformedUnicodeEscape, `malformed unicode escape sequence`)
+	issue.Hard(lexNumberOutOfRange, `number is out of range`)
 	issue.Hard(lexOctaldigitExpected, `octal digit expected`)
 	issue.Hard(lexUnbalancedEppComment, `unbalanced epp comment`)
 	issue.Hard(lexUnexpectedToken, `unexpected token '%{token}'`)
diff --git a/parser/lexer.go b/parser/lexer.go
index 24c7e2d..a96f11e 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -319,6 +319,7 @@ type context struct {
 	tokenStartPos         int
 	tokenValue            interface{}
 	radix                 int
+	negative              bool
 	factory               ExpressionFactory
 	nameStack             []string
 	definitions           []Definition
@@ -366,7 +367,7 @@ func (ctx *context) nextToken() {
 		if unicode.IsLetter(c) {
 			panic(ctx.parseIssue(lexDigitExpected))
 		}
-		v, _ := strconv.ParseInt(ctx.From(start), 10, 64)
+		v := ctx.parseInt(start, start, 10)
 		ctx.settokenValue(tokenInteger, v)
 		ctx.radix = 10
 
@@ -680,7 +681,7 @@ func (ctx *context) nextToken() {
 			} else if isDecimalDigit(c) {
 				ctx.Advance(sz)
 				ctx.skipDecimalDigits()
-				ctx.tokenValue, _ = strconv.ParseInt(ctx.From(start+1), 10, 64)
+				ctx.tokenValue = ctx.parseInt(start, start+1, 10)
 			} else if unicode.IsLetter(c) {
 				panic(ctx.parseIssue(lexInvalidVariableName))
 			} else {
@@ -708,7 +709,7 @@ func (ctx *context) nextToken() {
 				if ctx.Pos() == hexStart || isLetter(c) {
 					panic(ctx.parseIssue(lexHexdigitExpected))
 				}
-				v, _ := strconv.ParseInt(ctx.From(hexStart), 16, 64)
+				v := ctx.parseInt(start, hexStart, 16)
 				ctx.radix = 16
 				ctx.settokenValue(tokenInteger, v)
 
@@ -727,7 +728,7 @@ func (ctx *context) nextToken() {
 					panic(ctx.parseIssue(lexOctaldigitExpected))
 				}
 				if ctx.Pos() > octalStart {
-					v, _ := strconv.ParseInt(ctx.From(octalStart), 8, 64)
+					v := ctx.parseInt(start, octalStart, 8)
 					ctx.radix = 8
 					ctx.settokenValue(tokenInteger, v)
 				} else {
@@ -981,7 +982,11 @@ func (ctx *context) consumeFloat(start int, d rune) {
 	if unicode.IsLetter(c) {
 		panic(ctx.parseIssue(lexDigitExpected))
 	}
-	v, _ := strconv.ParseFloat(ctx.From(start), 64)
+	v, err := strconv.ParseFloat(ctx.From(start), 64)
+	if err != nil {
+		ctx.SetPos(start)
+		panic(ctx.parseIssue(lexNumberOutOfRange))
+	}
 	ctx.settokenValue(tokenFloat, v)
 }
 
@@ -1001,6 +1006,22 @@ func (ctx *context) skipDecimalDigits() (digitCount int) {
 	return
 }
 
+// parseInt converts the digits from digitStart to the current position to an integer. An integer that doesn't
+// fit in 64 bits is reported using the start of the token
+func (ctx *context) parseInt(start, digitStart, radix int) int64 {
+	digits := ctx.From(digitStart)
+	v, err := strconv.ParseInt(digits, radix, 64)
+	if err != nil && ctx.negative {
+		// The smallest integer has no positive counterpart
+		v, err = strconv.ParseInt(`-`+digits, radix, 64)
+	}
+	if err != nil {
+		ctx.SetPos(start)
+		panic(ctx.parseIssue(lexNumberOutOfRange))
+	}
+	return v
+}
+
 type escapeHandler func(buffer *bytes.Buffer, ctx *context, c rune)
 
 func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, interpolateSegments []Expression, handler escapeHandler) (segments []Expression) {
diff --git a/parser/parser.go b/parser/parser.go
index 0a54b88..bc1ebaa 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -170,6 +170,7 @@ func (ctx *context) Parse(filename string, source string, singleExpression bool)
 	ctx.tokenStartPos = 0
 	ctx.beginningOfLine = 0
 	ctx.radix = 10
+	ctx.negative = false
 	ctx.nameStack = nil
 
 	expr, err = ctx.parseTopExpression(filename, source, singleExpression)
@@ -664,7 +665,9 @@ func (ctx *context) unaryExpression() Expression {
 	switch ctx.currentToken {
 	case tokenSubtract:
 		if c, _ := ctx.Peek(); isDecimalDigit(c) {
+			ctx.negative = true
 			ctx.nextToken()
+			ctx.negative = false
 			if ctx.currentToken == tokenInteger {
 				ctx.settokenValue(ctx.currentToken, -ctx.tokenValue.(int64))
 			} else {
-- 
2.43.0


From 0b5d80701dc130b218f0cdd858fda9c70821fd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:25 +0000
Subject: [PATCH 24/51] fix: panic on array or hash used as key in literal hash
 key, and false duplicate keys

---
 literal/literal.go   | 8 +++++++-
 validator/checker.go | 7 +++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/literal/literal.go b/literal/literal.go
index 2fee078..de9a71d 100644
--- a/literal/literal.go
+++ b/literal/literal.go
@@ -38,7 +38,13 @@ func toLiteral(e parser.Expression) interface{} {
 		result := make(map[interface{}]interface{}, len(entries))
 		for _, entry := range entries {
 			kh := entry.(*parser.KeyedEntry)
-			result[toLiteral(kh.Key())] = toLiteral(kh.Value())
+			key := toLiteral(kh.Key())
+			switch key.(type) {
+			case []interface{}, map[interface{}]interface{}:
+				// Not possible to use as key in a go map
+				panic(notLiteral)
+			}
+			result[key] = toLiteral(kh.Value())
 		}
 		return result
 	case *parser.ConcatenatedString:
diff --git a/validator/checker.go b/validator/checker.go
index 475120b..ed56d8a 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -74,6 +74,8 @@ var ReservedParameters = map[string]bool{
 	`title`: true,
 }
 
+type complexKey string
+
 type basicChecker struct {
 	AbstractValidator
 }
@@ -396,8 +398,9 @@ func (v *basicChecker) checkLiteralHash(e *parser.LiteralHash) {
 		key := entry.(*parser.KeyedEntry).Key()
 		if literalKey, ok := literal.ToLiteral(key); ok {
 			switch key.(type) {
-			case *parser.LiteralList, *parser.LiteralHash:
-				literalKey = key.ToPN().String()
+			case *parser.LiteralList, *parser.LiteralHash, *parser.QualifiedReference, *parser.RegexpExpression:
+				// Must not be mixed up with a string that has the same content
+				literalKey = complexKey(key.ToPN().String())
 			}
 			if _, ok = unique[literalKey]; ok {
 				v.Accept(ValidateDuplicateKey, entry, issue.H{`key`: key.String()})
-- 
2.43.0


From 14d7c1f8a865e8bdb5439082aaaf3733a4c1e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 25/51] fix: path to contents of a plan contains an expression
 that is not in the AST

---
 parser/expression.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/parser/expression.go b/parser/expression.go
index cbef235..3ea9bed 100644
--- a/parser/expression.go
+++ b/parser/expression.go
@@ -1574,6 +1574,18 @@ func (e *ParenthesizedExpression) ToUnaryExpression() UnaryExpression {
 
 func (e *ParenthesizedExpression) ToPN() pn.PN { return pn.Call(`paren`, e.Expr().ToPN()) }
 
+func (e *PlanDefinition) AllContents(path []Expression, visitor PathVisitor) {
+	DeepVisit(e, path, visitor, e.parameters, e.returnType, e.body)
+}
+
+func (e *PlanDefinition) Contents(path []Expression, visitor PathVisitor) {
+	ShallowVisit(e, path, visitor, e.parameters, e.returnType, e.body)
+}
+
+func (e *PlanDefinition) ToDefinition() Definition {
+	return e
+}
+
 func (e *PlanDefinition) ToPN() pn.PN {
 	return e.definitionPN(`plan`, ``, e.returnType)
 }
-- 
2.43.0


From 82cf1c009535f212e3e6a6bbd55402a942c2270a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 26/51] fix: plans are not validated

---
 validator/checker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/validator/checker.go b/validator/checker.go
index ed56d8a..1dbec5f 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -178,6 +178,8 @@ func Check(v Checker, e parser.Expression) {
 		v.checkParameter(e)
 	case *parser.RelationshipExpression:
 		v.checkRelationshipExpression(e)
+	case *parser.PlanDefinition:
+		v.checkFunctionDefinition(&e.FunctionDefinition)
 	case *parser.ReservedWord:
 		v.checkReservedWord(e)
 	case *parser.ResourceBody:
-- 
2.43.0


From 8d9681c3008f116fc9183657a76f029bf01e7551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 27/51] fix: statements other than plain expressions are
 rejected in EPP without parameters

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index bc1ebaa..13fa0ee 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -241,7 +241,10 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 				expr = asEppLambda(ctx.factory.Block(ctx.transformCalls(expressions, 0), ctx.locator, 0, ctx.Pos()))
 				return
 			}
-			expressions = append(expressions, ctx.expression())
+			expressions = append(expressions, ctx.syntacticStatement())
+			if ctx.currentToken == tokenSemicolon {
+				ctx.nextToken()
+			}
 		}
 	}
 
-- 
2.43.0


From 6bcee95576a97d5abb93073ccc1917fa2a744241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 28/51] fix: parser validator panics on invalid unicode

---
 validator/issues.go    | 3 +++
 validator/validator.go | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/validator/issues.go b/validator/issues.go
index c670c7d..6dfdb2f 100644
--- a/validator/issues.go
+++ b/validator/issues.go
@@ -30,6 +30,7 @@ const (
 	ValidateIllegalQueryExpression          = `VALIDATE_ILLEGAL_QUERY_EXPRESSION`
 	ValidateIllegalRegexpTypeMapping        = `VALIDATE_ILLEGAL_REGEXP_TYPE_MAPPING`
 	ValidateIllegalSingleTypeMapping        = `VALIDATE_ILLEGAL_SINGLE_TYPE_MAPPING`
+	ValidateInvalidSource                   = `VALIDATE_INVALID_SOURCE`
 	ValidateInvalidStepStyle                = `VALIDATE_INVALID_STEP_STYLE`
 	ValidateMultipleAttributesUnfold        = `VALIDATE_MULTIPLE_ATTRIBUTES_UNFOLD`
 	ValidateNotAbsoluteTopLevel             = `VALIDATE_NOT_ABSOLUTE_TOP_LEVEL`
@@ -116,6 +117,8 @@ func init() {
 		`Illegal type mapping. Expected a Type on the left side, got %{expression}`,
 		issue.HF{`expression`: issue.AnOrA})
 
+	issue.Hard(ValidateInvalidSource, `%{message}`)
+
 	issue.Hard(ValidateInvalidStepStyle, `Expected one of 'for', 'function', 'guard', 'resource', or 'workflow'. Got '%{style}'`)
 
 	issue.Hard(ValidateMultipleAttributesUnfold, `Unfolding of attributes from Hash can only be used once per resource body`)
diff --git a/validator/validator.go b/validator/validator.go
index fa2d652..57f5dd7 100644
--- a/validator/validator.go
+++ b/validator/validator.go
@@ -176,7 +176,8 @@ func (pv *parserValidator) Parse(filename string, source string) (parser.Express
 		if i, ok := err.(issue.Reported); ok {
 			return nil, issue.NewResult([]issue.Reported{i})
 		}
-		panic(err.Error())
+		return nil, issue.NewResult([]issue.Reported{
+			issue.NewReported(ValidateInvalidSource, issue.SeverityError, issue.H{`message`: err.Error()}, issue.NewLocation(filename, 0, 0))})
 	}
 	Validate(pv.validator, expr)
 	issues := pv.validator.Issues()
-- 
2.43.0


From f3fc8199f5a6d57aef077ab512e823d5d7cd7f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 29/51] fix: panic when printing a parameter that has an empty
 or qualified name

---
 parser/parser.go | 4 ++--
 pn/pn.go         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 13fa0ee..9bda47e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1803,7 +1803,7 @@ func (ctx *context) parameter() Expression {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	variable, ok := ctx.tokenValue.(string)
-	if !ok {
+	if !ok || variable == `` {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	ctx.nextToken()
@@ -1848,7 +1848,7 @@ func (ctx *context) returnParameter() Expression {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	variable, ok := ctx.tokenValue.(string)
-	if !ok {
+	if !ok || variable == `` {
 		panic(ctx.parseIssue(parseExpectedVariable))
 	}
 	ctx.nextToken()
diff --git a/pn/pn.go b/pn/pn.go
index 20c7c76..d0166d1 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -77,7 +77,7 @@ type (
 	}
 )
 
-var keyPattern = regexp.MustCompile(`^[A-Za-z_-][0-9A-Za-z_-]*$`)
+var keyPattern = regexp.MustCompile(`^(?:::)?[A-Za-z_-][0-9A-Za-z_-]*(?:::[0-9A-Za-z_-]+)*$`)
 
 // Represent the Reported using Puppet Extended S-Expression Notation (PN)
 func ReportedToPN(ri issue.Reported) PN {
-- 
2.43.0


From 5d39ea200b8625676d76c268a1ba879dbdfdf898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 30/51] fix: variables named as a keyword, followed by a dash,
 or numeric are rejected in double quoted strings

---
 parser/lexer.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index a96f11e..da49a1e 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1219,15 +1219,23 @@ func (ctx *context) interpolate(start int) Expression {
 	}
 
 	// Not delimited by curly braces. Must be a single identifier then
-	ctx.setToken(tokenVariable)
-	if c == ':' || isLowercaseLetter(c) || isDecimalDigit(c) {
-		ctx.nextToken()
+	if c == ':' {
+		// Must be the start of a qualified variable name
+		if nc, nsz := ctx.PeekAt(ctx.Pos() + sz); nc == ':' {
+			c, _ = ctx.PeekAt(ctx.Pos() + sz + nsz)
+		}
 	}
-	if ctx.currentToken != tokenIdentifier {
-		ctx.SetPos(start)
+	ctx.SetPos(start)
+	if !(isLowercaseLetter(c) || isDecimalDigit(c)) {
 		panic(ctx.parseIssue(lexMalformedInterpolation))
 	}
-	textExpr := ctx.factory.QualifiedName(ctx.tokenValue.(string), ctx.locator, start+1, ctx.Pos()-(start+1))
+	ctx.nextToken()
+	var textExpr Expression
+	if idx, ok := ctx.tokenValue.(int64); ok {
+		textExpr = ctx.factory.Integer(idx, 10, ctx.locator, start+1, ctx.Pos()-(start+1))
+	} else {
+		textExpr = ctx.factory.QualifiedName(ctx.tokenValue.(string), ctx.locator, start+1, ctx.Pos()-(start+1))
+	}
 	return ctx.factory.Text(ctx.factory.Variable(textExpr, ctx.locator, start, ctx.Pos()-start), ctx.locator, start, ctx.Pos()-start)
 }
 
-- 
2.43.0


From 4882cb1e26a2f0aed6b2d72172a8f0a71736ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 31/51] fix: end of interpolated variable expressions is off

---
 parser/lexer.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index da49a1e..59d1498 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1203,15 +1203,15 @@ func (ctx *context) interpolate(start int) Expression {
 			access := expr.(*AccessExpression)
 			if identifier, ok := access.operand.(*QualifiedName); ok {
 				expr = ctx.factory.Access(
-					ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteLength()+1),
-					access.keys, ctx.locator, start, access.ByteLength()+1)
+					ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteOffset()+identifier.ByteLength()-start),
+					access.keys, ctx.locator, start, access.ByteOffset()+access.ByteLength()-start)
 			}
 		case *CallMethodExpression:
 			call := expr.(*CallMethodExpression)
 			if ne, ok := call.functor.(*NamedAccessExpression); ok {
 				modNe := ctx.convertNamedAccessLHS(ne, start)
 				if modNe != ne {
-					expr = ctx.factory.CallMethod(modNe, call.arguments, call.lambda, ctx.locator, start, call.ByteLength()+1)
+					expr = ctx.factory.CallMethod(modNe, call.arguments, call.lambda, ctx.locator, start, call.ByteOffset()+call.ByteLength()-start)
 				}
 			}
 		}
@@ -1243,25 +1243,25 @@ func (ctx *context) convertNamedAccessLHS(expr *NamedAccessExpression, start int
 	switch lhs := expr.lhs.(type) {
 	case *QualifiedName:
 		return ctx.factory.NamedAccess(
-			ctx.factory.Variable(lhs, ctx.locator, start, lhs.ByteLength()+1),
-			expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+			ctx.factory.Variable(lhs, ctx.locator, start, lhs.ByteOffset()+lhs.ByteLength()-start),
+			expr.rhs, ctx.locator, start, expr.ByteOffset()+expr.ByteLength()-start)
 	case *AccessExpression:
 		var lhe Expression = lhs
 		if identifier, ok := lhs.operand.(*QualifiedName); ok {
 			lhe = ctx.factory.Access(
-				ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteLength()+1),
-				lhs.keys, ctx.locator, start, lhs.ByteLength()+1)
+				ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteOffset()+identifier.ByteLength()-start),
+				lhs.keys, ctx.locator, start, lhs.ByteOffset()+lhs.ByteLength()-start)
 		}
-		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteOffset()+expr.ByteLength()-start)
 	case *NamedAccessExpression:
 		return ctx.factory.NamedAccess(
 			ctx.convertNamedAccessLHS(lhs, start),
-			expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+			expr.rhs, ctx.locator, start, expr.ByteOffset()+expr.ByteLength()-start)
 	case *CallMethodExpression:
 		lhe := ctx.factory.CallMethod(
 			ctx.convertNamedAccessLHS(lhs.functor.(*NamedAccessExpression), start),
-			lhs.arguments, lhs.lambda, ctx.locator, start, lhs.ByteLength()+1).(*CallMethodExpression)
-		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteLength()+1)
+			lhs.arguments, lhs.lambda, ctx.locator, start, lhs.ByteOffset()+lhs.ByteLength()-start).(*CallMethodExpression)
+		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteOffset()+expr.ByteLength()-start)
 	}
 	return expr
 }
-- 
2.43.0


From fdd53ceb9112535480b25254c101ed099250dd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 32/51] fix: command line tool reports every workflow step as
 an error, and panics on missing file or invalid strictness

---
 parse/parser.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/parse/parser.go b/parse/parser.go
index 9f48301..5c66e3d 100644
--- a/parse/parser.go
+++ b/parse/parser.go
@@ -36,7 +36,8 @@ func main() {
 	fileName := args[0]
 	content, err := ioutil.ReadFile(fileName)
 	if err != nil {
-		panic(err)
+		pn.Fprintln(os.Stderr, err.Error())
+		os.Exit(1)
 	}
 
 	var result map[string]interface{}
@@ -44,6 +45,12 @@ func main() {
 		result = make(map[string]interface{}, 2)
 	}
 
+	switch strings.ToLower(*strict) {
+	case ``, `off`, `warning`, `error`:
+	default:
+		pn.Fprintln(os.Stderr, "Invalid value for option -s. Valid values are off, warning, and error")
+		os.Exit(1)
+	}
 	strictness := validator.Strict(*strict)
 
 	parseOpts := make([]parser.Option, 0)
@@ -70,7 +77,7 @@ func main() {
 			os.Exit(1)
 		}
 
-		v := validator.ValidatePuppet(expr, strictness)
+		v := validate(expr, strictness)
 		if len(v.Issues()) > 0 {
 			severity := issue.Severity(issue.SeverityIgnore)
 			issues := make([]interface{}, len(v.Issues()))
@@ -100,7 +107,7 @@ func main() {
 		os.Exit(1)
 	}
 
-	v := validator.ValidatePuppet(expr, strictness)
+	v := validate(expr, strictness)
 	if len(v.Issues()) > 0 {
 		severity := issue.Severity(issue.SeverityIgnore)
 		for _, i := range v.Issues() {
@@ -121,6 +128,14 @@ func main() {
 	}
 }
 
+// validate the AST using the validator that corresponds to the given options
+func validate(expr parser.Expression, strictness validator.Strictness) validator.Validator {
+	if *workflow {
+		return validator.ValidateWorkflow(expr)
+	}
+	return validator.ValidatePuppet(expr, strictness)
+}
+
 func emitJson(value interface{}) {
 	b := bytes.NewBufferString(``)
 	json.ToJson(value, b)
-- 
2.43.0


From abfaf9329ddc9c8f46b1683c010df5eeb779398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 33/51] fix: first token of an interpolation depends on the
 token that precedes the string

---
 parser/lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 59d1498..77b78eb 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1191,6 +1191,7 @@ func (ctx *context) interpolate(start int) Expression {
 		ctx.Advance(sz)
 
 		// Call context recursively and expect the ending token to be the ending curly brace
+		ctx.setToken(tokenLc) // First token must not be affected by the token that precedes the string
 		ctx.nextToken()
 		expr := ctx.parse(tokenRc, true)
 
-- 
2.43.0


From 2908c642b26068f7e271fb7966a6c70681d9523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 34/51] fix: unterminated regexp ending with a backslash is
 reported as a backtick quoted string

---
 parser/lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 77b78eb..a6cbf20 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1045,7 +1045,11 @@ func (ctx *context) consumeDelimitedString(delimiter rune, delimiterStart int, i
 			ec, _ = ctx.Next()
 			switch ec {
 			case 0:
-				panic(ctx.unterminatedQuote(delimiterStart, delimiter))
+				if delimiter != '/' {
+					panic(ctx.unterminatedQuote(delimiterStart, delimiter))
+				}
+				ctx.setToken(tokenDivide)
+				return
 
 			case delimiter:
 				buf.WriteRune(delimiter)
-- 
2.43.0


From ac3b2e6cfb9be9cf2b193576a2b454ddc4f86bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 35/51] fix: heredoc without tag uses its syntax or escape
 flags as the tag

---
 parser/lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index a6cbf20..23ef117 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1405,7 +1405,7 @@ findTagEnd:
 			if escapeStart > 0 {
 				flags = ctx.extractFlags(escapeStart)
 			}
-			if tag == `` {
+			if tag == `` && syntaxStart < 0 && escapeStart < 0 {
 				tag = ctx.From(start)
 			}
 			ctx.Advance(n)
@@ -1416,7 +1416,7 @@ findTagEnd:
 			if syntaxStart > 0 {
 				panic(ctx.parseIssue(lexHeredocMultipleSyntax))
 			}
-			if tag == `` {
+			if tag == `` && syntaxStart < 0 && escapeStart < 0 {
 				tag = ctx.From(start)
 			}
 			ctx.Advance(n)
@@ -1426,7 +1426,7 @@ findTagEnd:
 			if escapeStart > 0 {
 				panic(ctx.parseIssue(lexHeredocMultipleEscape))
 			}
-			if tag == `` {
+			if tag == `` && syntaxStart < 0 && escapeStart < 0 {
 				tag = ctx.From(start)
 			} else if syntaxStart > 0 {
 				syntax = ctx.From(syntaxStart)
-- 
2.43.0


From d36b60a209da8be490d8fc700f478b0bf13a0c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 36/51] fix: EPP without parameters reports that parameters
 were specified

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9bda47e..9524cdb 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -210,7 +210,7 @@ func (ctx *context) parseTopExpression(filename string, source string, singleExp
 			if _, ok := e.(*BlockExpression); !ok {
 				e = ctx.factory.Block([]Expression{e}, ctx.locator, 0, ctx.Pos())
 			}
-			return ctx.factory.EppExpression([]Expression{}, e, ctx.locator, 0, ctx.Pos())
+			return ctx.factory.EppExpression(nil, e, ctx.locator, 0, ctx.Pos())
 		}
 
 		if ctx.currentToken == tokenEnd {
-- 
2.43.0


From 1d2810086f85452f187bacea0392323c161c1e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 37/51] fix: extraneous comma not reported when the block ends
 with a statement call

---
 parser/parser.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9524cdb..f987878 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -320,7 +320,8 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 			result = append(result, cn)
 			idx++
 			if idx == top {
-				return
+				memo = nil
+				break
 			}
 			memo = exprs[idx]
 		} else {
@@ -331,10 +332,12 @@ func (ctx *context) transformCalls(exprs []Expression, start int) (result []Expr
 			memo = expr
 		}
 	}
-	if cnFunc, ok := memo.(*CallNamedFunctionExpression); ok {
-		cnFunc.rvalRequired = false
+	if memo != nil {
+		if cnFunc, ok := memo.(*CallNamedFunctionExpression); ok {
+			cnFunc.rvalRequired = false
+		}
+		result = append(result, memo)
 	}
-	result = append(result, memo)
 	for _, ex := range result {
 		if csl, ok := ex.(*commaSeparatedList); ok {
 			// This happens when a block contains extraneous commas between statements. The
-- 
2.43.0


From 2cf6d1a0cf47c329746673dcdb058acd915292a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 38/51] fix: numeric variable as step iteration name causes
 panic

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index f987878..b0e8806 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1466,7 +1466,10 @@ func (ctx *context) stepDeclaration(start int, style StepStyle, name string, atT
 
 	iterName := name
 	if ctx.currentToken == tokenVariable {
-		iterName = ctx.tokenString()
+		var ok bool
+		if iterName, ok = ctx.tokenValue.(string); !ok || iterName == `` {
+			panic(ctx.parseIssue(parseExpectedVariable))
+		}
 		ctx.nextToken()
 		ctx.assertToken(tokenAssign)
 		ctx.nextToken()
-- 
2.43.0


From 74e255c7a2529bb1dc10d276f31bf9c5f8be5d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:50 +0000
Subject: [PATCH 39/51] fix: trailing expression in resource without body is
 silently dropped

---
 parser/parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b0e8806..a0b98c1 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1075,17 +1075,17 @@ func (ctx *context) resourceShape(expr Expression) string {
 
 func (ctx *context) resourceBodies(title Expression) (result []Expression) {
 	result = make([]Expression, 0, 1)
-	for ctx.currentToken != tokenRc {
+	for {
 		result = append(result, ctx.resourceBody(title))
 		if ctx.currentToken != tokenSemicolon {
-			break
+			return
 		}
 		ctx.nextToken()
-		if ctx.currentToken != tokenRc {
-			title = ctx.expression()
+		if ctx.currentToken == tokenRc {
+			return
 		}
+		title = ctx.expression()
 	}
-	return
 }
 
 func (ctx *context) resourceBody(title Expression) Expression {
-- 
2.43.0


From d5e4a8d1ef07f96eac09d2999435684f8aa0b70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 40/51] fix: message about captures rest parameter lacks the
 parameter name

---
 validator/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/checker.go b/validator/checker.go
index 1dbec5f..8f0c891 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -672,7 +672,7 @@ func (v *basicChecker) checkNoCapture(container parser.Expression, parameters []
 	for _, parameter := range parameters {
 		if param, ok := parameter.(*parser.Parameter); ok && param.CapturesRest() {
 			v.Accept(ValidateCapturesRestNotSupported, param,
-				issue.H{`name`: param.Name(), `container`: container})
+				issue.H{`param`: param.Name(), `container`: container})
 		}
 	}
 }
-- 
2.43.0


From 58301f27c8ef12327700a925d9e5b35646003ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 41/51] fix: parenthesized expression and function call have no
 label

---
 parser/label.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/label.go b/parser/label.go
index 5762e09..b4236c5 100644
--- a/parser/label.go
+++ b/parser/label.go
@@ -17,6 +17,7 @@ func (e *AssignmentExpression) Label() string        { return fmt.Sprintf("'%s'
 func (e *AttributeOperation) Label() string          { return fmt.Sprintf("'%s' expression", e.operator) }
 func (e *AttributesOperation) Label() string         { return "AttributesOperation" }
 func (e *BlockExpression) Label() string             { return "Block Expression" }
+func (e *CallFunctionExpression) Label() string      { return "Function Call" }
 func (e *CallMethodExpression) Label() string        { return "Method Call" }
 func (e *CallNamedFunctionExpression) Label() string { return "Function Call" }
 func (e *CapabilityMapping) Label() string           { return "Capability Mapping" }
@@ -49,6 +50,7 @@ func (e *Nop) Label() string                         { return "Nop" }
 func (e *NotExpression) Label() string               { return "'!' expression" }
 func (e *OrExpression) Label() string                { return "'or' expression" }
 func (e *Parameter) Label() string                   { return "Parameter Definition" }
+func (e *ParenthesizedExpression) Label() string     { return "Parenthesized Expression" }
 func (e *Program) Label() string                     { return "Program" }
 func (e *QualifiedName) Label() string               { return "Name" }
 func (e *QualifiedReference) Label() string          { return "Type-Name" }
-- 
2.43.0


From 78123d37f1a28185fde01ebe7a30b5d001f9eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 42/51] fix: empty collector query is reported as an illegal
 query expression

---
 validator/checker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validator/checker.go b/validator/checker.go
index 8f0c891..b3e26c3 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -454,7 +454,7 @@ func (v *basicChecker) checkParameter(e *parser.Parameter) {
 }
 
 func (v *basicChecker) checkQueryExpression(e parser.QueryExpression) {
-	if e.Expr() != nil {
+	if e.Expr() != nil && !e.Expr().IsNop() {
 		v.checkQuery(e.Expr())
 	}
 }
-- 
2.43.0


From dc590ad549d8e6c8a1d3791adfcacd82451b62f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:06 +0000
Subject: [PATCH 43/51] fix: functions that define a step are reported as not
 being at top level

---
 validator/checker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/validator/checker.go b/validator/checker.go
index b3e26c3..ea664bf 100644
--- a/validator/checker.go
+++ b/validator/checker.go
@@ -766,6 +766,12 @@ func (v *basicChecker) checkTop(e parser.Expression, c parser.Expression) {
 
 	case *parser.BlockExpression:
 		c = v.ContainerOf(c)
+		if _, ok := c.(*parser.StepExpression); ok {
+			if _, ok = v.subject.(*parser.FunctionDefinition); ok {
+				// ok. A step can be defined by functions
+				return
+			}
+		}
 		if _, ok := c.(*parser.Program); !ok {
 			switch e.(type) {
 			case *parser.FunctionDefinition, *parser.TypeAlias, *parser.TypeDefinition, *parser.TypeMapping:
-- 
2.43.0


From dd0b0e52ab89b41a93e9f8a48d4ba88e0f82766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:05 +0000
Subject: [PATCH 44/51] fix: a lambda is called Positioned in messages

---
 parser/label.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/label.go b/parser/label.go
index b4236c5..40ace30 100644
--- a/parser/label.go
+++ b/parser/label.go
@@ -34,6 +34,7 @@ func (e *HostClassDefinition) Label() string         { return "Host Class Defini
 func (e *IfExpression) Label() string                { return "'if' statement" }
 func (e *InExpression) Label() string                { return "'in' expression" }
 func (e *KeyedEntry) Label() string                  { return "Hash Entry" }
+func (e *LambdaExpression) Label() string            { return "Lambda" }
 func (e *LiteralBoolean) Label() string              { return "Literal Boolean" }
 func (e *LiteralDefault) Label() string              { return "'default' expression" }
 func (e *LiteralFloat) Label() string                { return "Literal Float" }
-- 
2.43.0


From 6558b5036dfc88800af24b4355492acb56b6d1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:29 +0000
Subject: [PATCH 45/51] fix: code of a reported issue was not a string in its
 PN

---
 pn/pn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pn/pn.go b/pn/pn.go
index d0166d1..810a65b 100644
--- a/pn/pn.go
+++ b/pn/pn.go
@@ -82,7 +82,7 @@ var keyPattern = regexp.MustCompile(`^(?:::)?[A-Za-z_-][0-9A-Za-z_-]*(?:::[0-9A-
 // Represent the Reported using Puppet Extended S-Expression Notation (PN)
 func ReportedToPN(ri issue.Reported) PN {
 	return Map([]Entry{
-		Literal(ri.Code()).WithName(`code`),
+		Literal(string(ri.Code())).WithName(`code`),
 		Literal(ri.Severity().String()).WithName(`severity`),
 		Literal(ri.Error()).WithName(`message`)})
 }
-- 
2.43.0


From f3a2670149338fbd77b4df92fe471dc284a22e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:43 +0000
Subject: [PATCH 46/51] fix: demoting an issue panics unless the validator is
 one of the checkers

---
 validator/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/validator/validator.go b/validator/validator.go
index 57f5dd7..b52439d 100644
--- a/validator/validator.go
+++ b/validator/validator.go
@@ -81,6 +81,9 @@ func (v *AbstractValidator) Demote(code issue.Code, severity issue.Severity) {
 	if !i.IsDemotable() {
 		panic(fmt.Sprintf(`Attempt to demote the hard issue '%s' to %s`, code, severity.String()))
 	}
+	if v.severities == nil {
+		v.severities = make(map[issue.Code]issue.Severity, 5)
+	}
 	v.severities[code] = severity
 }
 
-- 
2.43.0


From 1688337c5bb0fed055c75aa3bf901733ad325fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:42 +0000
Subject: [PATCH 47/51] fix: a name that starts nested accesses in an
 interpolation is a variable

---
 parser/lexer.go | 56 +++++++++++++++++--------------------------------
 1 file changed, 19 insertions(+), 37 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 23ef117..49f7fea 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1199,26 +1199,12 @@ func (ctx *context) interpolate(start int) Expression {
 		ctx.nextToken()
 		expr := ctx.parse(tokenRc, true)
 
-		// If the result is a single QualifiedName or an AccessExpression or CallMemberExpression with a QualifiedName
-		// as the LHS, then it's actually a variable since the `${var}` is the same as `$var`
-		switch expr.(type) {
-		case *QualifiedName:
+		// If the result is a single QualifiedName or a chain of AccessExpressions and CallMemberExpressions that starts
+		// with a QualifiedName, then that name is actually a variable since the `${var}` is the same as `$var`
+		if _, ok := expr.(*QualifiedName); ok {
 			expr = ctx.factory.Variable(expr, ctx.locator, start, ctx.Pos()-start)
-		case *AccessExpression:
-			access := expr.(*AccessExpression)
-			if identifier, ok := access.operand.(*QualifiedName); ok {
-				expr = ctx.factory.Access(
-					ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteOffset()+identifier.ByteLength()-start),
-					access.keys, ctx.locator, start, access.ByteOffset()+access.ByteLength()-start)
-			}
-		case *CallMethodExpression:
-			call := expr.(*CallMethodExpression)
-			if ne, ok := call.functor.(*NamedAccessExpression); ok {
-				modNe := ctx.convertNamedAccessLHS(ne, start)
-				if modNe != ne {
-					expr = ctx.factory.CallMethod(modNe, call.arguments, call.lambda, ctx.locator, start, call.ByteOffset()+call.ByteLength()-start)
-				}
-			}
+		} else {
+			expr = ctx.convertNameLHS(expr, start)
 		}
 		return ctx.factory.Text(expr, ctx.locator, start, ctx.Pos()-start)
 	}
@@ -1244,29 +1230,25 @@ func (ctx *context) interpolate(start int) Expression {
 	return ctx.factory.Text(ctx.factory.Variable(textExpr, ctx.locator, start, ctx.Pos()-start), ctx.locator, start, ctx.Pos()-start)
 }
 
-func (ctx *context) convertNamedAccessLHS(expr *NamedAccessExpression, start int) Expression {
-	switch lhs := expr.lhs.(type) {
+// Converts the QualifiedName at the start of a chain of accesses and method calls to a variable. The expression
+// is returned as it is when it isn't such a chain
+func (ctx *context) convertNameLHS(expr Expression, start int) Expression {
+	length := expr.ByteOffset() + expr.ByteLength() - start
+	switch e := expr.(type) {
 	case *QualifiedName:
-		return ctx.factory.NamedAccess(
-			ctx.factory.Variable(lhs, ctx.locator, start, lhs.ByteOffset()+lhs.ByteLength()-start),
-			expr.rhs, ctx.locator, start, expr.ByteOffset()+expr.ByteLength()-start)
+		return ctx.factory.Variable(e, ctx.locator, start, length)
 	case *AccessExpression:
-		var lhe Expression = lhs
-		if identifier, ok := lhs.operand.(*QualifiedName); ok {
-			lhe = ctx.factory.Access(
-				ctx.factory.Variable(identifier, ctx.locator, start, identifier.ByteOffset()+identifier.ByteLength()-start),
-				lhs.keys, ctx.locator, start, lhs.ByteOffset()+lhs.ByteLength()-start)
+		if operand := ctx.convertNameLHS(e.operand, start); operand != e.operand {
+			return ctx.factory.Access(operand, e.keys, ctx.locator, start, length)
 		}
-		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteOffset()+expr.ByteLength()-start)
 	case *NamedAccessExpression:
-		return ctx.factory.NamedAccess(
-			ctx.convertNamedAccessLHS(lhs, start),
-			expr.rhs, ctx.locator, start, expr.ByteOffset()+expr.ByteLength()-start)
+		if lhs := ctx.convertNameLHS(e.lhs, start); lhs != e.lhs {
+			return ctx.factory.NamedAccess(lhs, e.rhs, ctx.locator, start, length)
+		}
 	case *CallMethodExpression:
-		lhe := ctx.factory.CallMethod(
-			ctx.convertNamedAccessLHS(lhs.functor.(*NamedAccessExpression), start),
-			lhs.arguments, lhs.lambda, ctx.locator, start, lhs.ByteOffset()+lhs.ByteLength()-start).(*CallMethodExpression)
-		return ctx.factory.NamedAccess(lhe, expr.rhs, ctx.locator, start, expr.ByteOffset()+expr.ByteLength()-start)
+		if functor := ctx.convertNameLHS(e.functor, start); functor != e.functor {
+			return ctx.factory.CallMethod(functor, e.arguments, e.lambda, ctx.locator, start, length)
+		}
 	}
 	return expr
 }
-- 
2.43.0


From f3dd9cd73a0b43ad3de09f0b478acfa4b2dab448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:44 +0000
Subject: [PATCH 48/51] fix: a method call without arguments that is indexed
 remains a call

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index a0b98c1..0ef4807 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -731,6 +731,10 @@ func (ctx *context) primaryExpression() (expr Expression) {
 		case tokenLcollect, tokenLlcollect:
 			expr = ctx.collectExpression(expr)
 		case tokenLb:
+			if namedAccess, ok := expr.(*NamedAccessExpression); ok {
+				// It's the result of the method call that is accessed
+				expr = ctx.convertLhsToCall(namedAccess, []Expression{}, nil, expr.ByteOffset(), expr.ByteLength())
+			}
 			ctx.nextToken()
 			params := ctx.arrayExpression()
 			isCall := false
-- 
2.43.0


From a5f605a3ed40c10671a2d83a6fcbbda6d988f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:15 +0000
Subject: [PATCH 49/51] fix: a string on the line of a heredoc declaration
 doesn't contain comments

---
 parser/lexer.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index 49f7fea..c912455 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1478,6 +1478,11 @@ findStartOfText:
 				c, sz = ctx.Peek()
 			}
 
+		case '\'', '"', '`':
+			// What looks like a comment isn't one when it is in a string
+			ctx.skipQuoted(c)
+			c, sz = ctx.Peek()
+
 		case '\n':
 			if ctx.nextLineStart >= 0 {
 				ctx.SetPos(ctx.nextLineStart)
@@ -1600,6 +1605,24 @@ findEndOfText:
 	}
 }
 
+// Skips the string that starts with the given delimiter at the current position. Only the delimiter is skipped
+// when the string doesn't end on the current line
+func (ctx *context) skipQuoted(delimiter rune) {
+	ctx.Next()
+	start := ctx.Pos()
+	for c, _ := ctx.Next(); c != 0 && c != '\n'; c, _ = ctx.Next() {
+		if c == delimiter {
+			return
+		}
+		if c == '\\' && delimiter != '`' {
+			if c, _ = ctx.Next(); c == 0 || c == '\n' {
+				break
+			}
+		}
+	}
+	ctx.SetPos(start)
+}
+
 func (ctx *context) extractFlags(start int) []byte {
 	s := ctx.From(start)
 	top := len(s)
-- 
2.43.0


From 458f0b5d440449c8fa048f1a758fe8322225ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:51 +0000
Subject: [PATCH 50/51] fix: -%> trims a line break that starts with a carriage
 return

---
 parser/lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index c912455..e73ff67 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"bytes"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 
@@ -486,6 +487,10 @@ func (ctx *context) nextToken() {
 						for c, sz = ctx.Peek(); c == ' ' || c == '\t'; c, sz = ctx.Peek() {
 							ctx.Advance(sz)
 						}
+						if c == '\r' && strings.HasPrefix(ctx.text[ctx.Pos():], "\r\n") {
+							ctx.Advance(sz)
+							c, sz = ctx.Peek()
+						}
 						if c == '\n' {
 							ctx.Advance(sz)
 						}
-- 
2.43.0


From 6a5dd57c543619da425f649d8b78ce56fbe76349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:51 +0000
Subject: [PATCH 51/51] fix: the L flag of a heredoc removes a line break that
 starts with a carriage return

---
 parser/lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/lexer.go b/parser/lexer.go
index e73ff67..621c6ba 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -1670,6 +1670,11 @@ func (ctx *context) applyEscapes(end int, indentStrip int, flags []byte, interpo
 			break
 		}
 
+		if c == '\r' && bytes.IndexByte(flags, '\n') >= 0 && strings.HasPrefix(ctx.text[ctx.Pos():end], "\n") {
+			// The escaped line break is a carriage return and a newline
+			c, _ = ctx.Next()
+		}
+
 		escaped := false
 		if c < utf8.RuneSelf {
 			bc := byte(c)
-- 
2.43.0

