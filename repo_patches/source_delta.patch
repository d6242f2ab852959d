From cf408f79d102cc668b4679415931758e252c2b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 01/50] fix: scanner: Init resets string state and previous
 token of a reused scanner

---
 scanner/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index f321e28..7b899b8 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -138,6 +138,9 @@ func (s *Scanner) Init(file *gotok.File, src []byte, err ErrorHandler, mode Mode
 	s.offset = 0
 	s.rdOffset = 0
 	s.lineOffset = 0
+	s.prev = token.Illegal
+	s.endQuoteCh = 0
+	s.braceDepth = 0
 	s.ErrorCount = 0
 
 	s.next()
-- 
2.43.0


From 8e3b1ee62570064b045e0bae831f621d384b0def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:09 +0000
Subject: [PATCH 02/50] fix: scanner: check the first letter of a command
 instead of skipping it

---
 scanner/scanner.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 7b899b8..eeb348f 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -201,7 +201,6 @@ func IsName(ch rune) bool {
 
 func (s *Scanner) scanCommand() string {
 	offs := s.offset - 1 // Already consumed @
-	s.next()
 	if !isLetter(s.ch) {
 		s.error(s.offset, "expected letter after @ for a command")
 	}
-- 
2.43.0


From aa12f960379dfea15ecb15dd7941ba49eed8715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:10 +0000
Subject: [PATCH 03/50] fix: scanner: don't skip the first character of a
 nested brace string

---
 scanner/scanner.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index eeb348f..968321d 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -263,7 +263,6 @@ func (s *Scanner) scanBraceString() string {
 			break
 		}
 		if ch == '{' {
-			s.next()
 			s.scanBraceString()
 		}
 	}
-- 
2.43.0


From 978a4baaba0c1bd408e66dea0aa91093c6fbb9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:10 +0000
Subject: [PATCH 04/50] fix: scanner: don't cut or slice out of range on an
 unterminated raw string

---
 scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 968321d..b3a8dc0 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -227,7 +227,7 @@ func (s *Scanner) scanString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in double quotes not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '"' {
@@ -256,7 +256,7 @@ func (s *Scanner) scanBraceString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in braces not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '}' {
-- 
2.43.0


From 22e574b918b0b994205d1e882c728422fa813b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:29 +0000
Subject: [PATCH 05/50] fix: scanner: leave an unterminated string at the end
 of the source

---
 scanner/scanner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index b3a8dc0..acd5c1e 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -450,6 +450,12 @@ func (s *Scanner) scanInString() (pos gotok.Pos, tok token.Token, lit string) {
 	case '~':
 		tok = token.StringNBSP
 		lit = "~"
+	case eof:
+		// Leave the string so that the next token is EOF.
+		s.error(s.offset, "string literal not terminated")
+		s.endQuoteCh = 0
+		s.braceDepth = 0
+		tok = token.Illegal
 	default:
 		// next reports unexpected BOMs - don't repeat
 		if ch != bom {
-- 
2.43.0


From e17b026566cabd4b3c6e8e85e16964d15bc3e47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:30 +0000
Subject: [PATCH 06/50] fix: scanner: reject a surplus right brace in a quoted
 string

---
 scanner/scanner.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index acd5c1e..9175996 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -438,8 +438,11 @@ func (s *Scanner) scanInString() (pos gotok.Pos, tok token.Token, lit string) {
 		tok = token.StringRBrace
 		if s.endQuoteCh == '}' && s.braceDepth == 0 {
 			s.endQuoteCh = 0
-		} else {
+		} else if s.braceDepth > 0 {
 			s.braceDepth -= 1
+		} else {
+			s.error(s.file.Offset(pos), "unbalanced right brace in string")
+			tok = token.Illegal
 		}
 	case ' ', '\r', '\n', '\t':
 		tok = token.StringSpace
-- 
2.43.0


From b1ae7e1f4c3dc7edd398ee813a93b6bee64f9fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:30 +0000
Subject: [PATCH 07/50] fix: scanner: only accent an ASCII letter after an
 accent and spaces

---
 scanner/scanner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 9175996..f38729e 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -366,6 +366,10 @@ func (s *Scanner) scanSpecialCharStringAccent() (token.Token, string) {
 		for s.ch == ' ' {
 			s.next()
 		}
+		if !IsAsciiLetter(s.ch) {
+			s.errorf(offs, "expected ascii letter after accent sequence %q , got %q", tokStr, s.ch)
+			return token.Illegal, ""
+		}
 		// append accented char, e.g. 'c'
 		tokStr += string(s.src[s.offset])
 		s.next() // consume the letter that's accented
-- 
2.43.0


From e8fd59f0231703819927bf2d502c884b3ee2af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:31 +0000
Subject: [PATCH 08/50] fix: scanner: a name may start with a digit

---
 scanner/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index f38729e..062ffa8 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -505,7 +505,11 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 	case isDecimal(ch):
 		tok = token.Number
 		lit = s.scanNumber()
-
+		if IsName(s.ch) {
+			// A name that starts with a digit, like the cite key "2004foo".
+			tok = token.Ident
+			lit += s.scanIdent()
+		}
 	case IsName(ch):
 		tok = token.Ident
 		lit = s.scanIdent()
-- 
2.43.0


From 6c0d71acba312f046807c7e53d9345d8f78b341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:32 +0000
Subject: [PATCH 09/50] fix: scanner: '{' after '#' or '(' opens a string

---
 scanner/scanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 062ffa8..809a2e8 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -548,7 +548,9 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 			// a brace string. If preceded by '=', it's a string for a tag. If
 			// preceded by an LBrace, it's a value in a block like:
 			//   @preamble { {foo} }
-			if s.prev == token.Assign || s.prev == token.LBrace {
+			// The same holds for a left paren, and after '#' it's an operand.
+			if s.prev == token.Assign || s.prev == token.LBrace ||
+				s.prev == token.LParen || s.prev == token.Concat {
 				if s.mode&ScanStrings != 0 {
 					s.endQuoteCh = '}'
 					tok = token.StringLBrace
-- 
2.43.0


From f0a57547f07861a6eadc3cadfbedbaa5f2d55e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:33 +0000
Subject: [PATCH 10/50] fix: scanner: a comment between '=' and '{' doesn't
 change what '{' opens

---
 scanner/scanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 809a2e8..f7c0e2c 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -583,6 +583,8 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 		}
 	}
 
-	s.prev = tok
+	if tok != token.TexComment {
+		s.prev = tok
+	}
 	return
 }
-- 
2.43.0


From 691fb1878651980a9aad47d60dadb8ec5d755f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:53 +0000
Subject: [PATCH 11/50] fix: scanner: macros starting with 'c', like \cite, are
 not cedillas

---
 scanner/scanner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index f7c0e2c..e66f63c 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -315,6 +315,10 @@ func (s *Scanner) scanStringEscape() (token.Token, string) {
 		rune(token.AccentGrave),
 		rune(token.AccentTilde),
 		rune(token.AccentUmlaut):
+		if i := s.rdOffset; s.ch == rune(token.AccentCedilla) && i+1 < len(s.src) &&
+			IsAsciiLetter(rune(s.src[i])) && IsAsciiLetter(rune(s.src[i+1])) {
+			break // a macro that starts with 'c', like \cite
+		}
 		return s.scanSpecialCharStringAccent()
 	case ',', ';', '[', ']', '(', ')':
 		// any single non-alphabetical character can be macro.
-- 
2.43.0


From 8369bacb9a0fb1fe8c3ad881d209271cdb9d2d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:54 +0000
Subject: [PATCH 12/50] fix: parser: stop parsing string contents at the end of
 the source

---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 28a5804..c594919 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -401,7 +401,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	p.expect(token.StringLBrace)
 	sb := strings.Builder{}
 	sb.Grow(32)
-	for p.tok != token.StringRBrace && p.tok != token.StringSpace {
+	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
 		sb.WriteString(p.lit)
 		p.next()
 	}
@@ -452,6 +452,10 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 
 		values := make([]ast.Expr, 0, 2)
 		for p.tok != token.StringRBrace {
+			if p.tok == token.EOF {
+				p.errorExpected(p.pos, "'"+token.StringRBrace.String()+"'")
+				return &ast.BadExpr{From: opener, To: p.pos}
+			}
 			text := p.parseText(depth + 1)
 			if _, ok := text.(*ast.BadExpr); ok {
 				p.next()
-- 
2.43.0


From abbacc6a6bcca2d0dfdc5b2ee4a5be0277c8f3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:54 +0000
Subject: [PATCH 13/50] fix: parser: ParseExpr returns the errors when there
 are too many

---
 parser/interface.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser/interface.go b/parser/interface.go
index 02ef814..fd5d662 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -107,16 +107,26 @@ func ParseFile(fset *gotok.FileSet, filename string, src interface{}, mode Mode)
 	return
 }
 
-func ParseExpr(str string) (ast.Expr, error) {
+func ParseExpr(str string) (x ast.Expr, err error) {
 	fset := gotok.NewFileSet()
 	// use '=' to trick parser into treating '{' as a string
 	src := []byte("=" + str)
 	var p parser
+	defer func() {
+		if e := recover(); e != nil {
+			// resume same panic if it's not a bailout
+			if _, ok := e.(bailout); !ok {
+				panic(e)
+			}
+			p.errors.Sort()
+			x, err = nil, p.errors.Err()
+		}
+	}()
 	p.init(fset, "", src, ParseStrings)
 	p.next() // consume the '='
 	expr := p.parseExpr()
 	p.errors.Sort()
-	err := p.errors.Err()
+	err = p.errors.Err()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From cd0632de0ac2296274269f105231c152710ff2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:05 +0000
Subject: [PATCH 14/50] fix: parser: field names are not cite keys, and a last
 key needs no comma

---
 parser/parser.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c594919..0f01886 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -779,17 +779,16 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 			}
 			tags = append(tags, tag)
 		default:
-			// Keep going.
-		}
-		switch p.tok {
-		case token.Comma:
 			// It's a cite key.
-			p.next()
 			if bibKey == nil {
 				bibKey = key
 			} else {
 				extraKeys = append(extraKeys, key)
 			}
+		}
+		switch p.tok {
+		case token.Comma:
+			p.next()
 			continue
 		default:
 			// Keep going.
-- 
2.43.0


From 69c08553b999477b31e7d4b1670fb9e6c34f9df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 15/50] fix: parser: parse concatenations that start with a
 parsed string

---
 parser/parser.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0f01886..60d9868 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -574,21 +574,10 @@ func (p *parser) parseExpr() (x ast.Expr) {
 	pos := p.pos
 	switch {
 	case p.tok.IsLiteral():
-		x = p.parseBasicLit()
-		if p.tok == token.Concat {
-			p.next()
-			opPos := p.pos
-			y := p.parseExpr()
-			x = &ast.ConcatExpr{
-				X:     x,
-				OpPos: opPos,
-				Y:     y,
-			}
-		}
+		x = p.parseConcat(p.parseBasicLit())
 
 	case p.tok.IsStringLiteral():
-		x = p.parseStringLiteral()
-
+		x = p.parseConcat(p.parseStringLiteral())
 	default:
 		p.errorExpected(p.pos, "literal: number or string")
 		x = &ast.BadExpr{
@@ -600,6 +589,21 @@ func (p *parser) parseExpr() (x ast.Expr) {
 	return
 }
 
+// parseConcat parses the rest of a concatenation that starts with x, if any.
+func (p *parser) parseConcat(x ast.Expr) ast.Expr {
+	if p.tok == token.Concat {
+		p.next()
+		opPos := p.pos
+		y := p.parseExpr()
+		x = &ast.ConcatExpr{
+			X:     x,
+			OpPos: opPos,
+			Y:     y,
+		}
+	}
+	return x
+}
+
 func (p *parser) parseIdent() *ast.Ident {
 	pos := p.pos
 	name := "_"
@@ -765,7 +769,7 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 			p.next()
 			var val ast.Expr
 			if key.Name == "url" && p.tok.IsStringLiteral() {
-				val = p.parseURLStringLiteral()
+				val = p.parseConcat(p.parseURLStringLiteral())
 			} else {
 				val = p.parseExpr()
 			}
-- 
2.43.0


From ea125e760abd145c51432ab02fc629e890931c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 16/50] fix: parser: the closer of parsed text is its closing
 delimiter

---
 parser/parser.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 60d9868..1919bfd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -463,13 +463,14 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 			}
 			values = append(values, text)
 		}
+		closer := p.pos
 		p.next() // consume closing '}'
 		return &ast.ParsedText{
 			Depth:  depth,
 			Opener: opener,
 			Delim:  ast.BraceDelimiter,
 			Values: values,
-			Closer: p.pos,
+			Closer: closer,
 		}
 	case token.StringAccent:
 		return p.parseStringAccent()
@@ -494,13 +495,14 @@ func (p *parser) parseStringLiteral() ast.Expr {
 			}
 			values = append(values, p.parseText(1))
 		}
+		closer := p.pos
 		p.next() // consume closing '"'
 		txt := &ast.ParsedText{
 			Opener: pos,
 			Depth:  0,
 			Delim:  ast.QuoteDelimiter,
 			Values: values,
-			Closer: p.pos,
+			Closer: closer,
 		}
 		return txt
 
@@ -528,13 +530,13 @@ func (p *parser) parseURLStringLiteral() ast.Expr {
 		if p.tok == token.StringMacro {
 			url := p.parseMacroURL(p.lit)
 			p.expect(token.StringRBrace)
-			p.expect(token.DoubleQuote)
+			closer := p.expect(token.DoubleQuote)
 			return &ast.ParsedText{
 				Opener: pos,
 				Depth:  0,
 				Delim:  ast.QuoteDelimiter,
 				Values: []ast.Expr{url},
-				Closer: p.pos,
+				Closer: closer,
 			}
 		}
 
-- 
2.43.0


From ccc2f8e8e43f4959a1f381dfdc0a021ca464c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 17/50] fix: parser: OpPos of a concatenation is the position
 of its '#'

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1919bfd..334eb63 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -594,8 +594,8 @@ func (p *parser) parseExpr() (x ast.Expr) {
 // parseConcat parses the rest of a concatenation that starts with x, if any.
 func (p *parser) parseConcat(x ast.Expr) ast.Expr {
 	if p.tok == token.Concat {
-		p.next()
 		opPos := p.pos
+		p.next()
 		y := p.parseExpr()
 		x = &ast.ConcatExpr{
 			X:     x,
-- 
2.43.0


From c3369cec5b2f5fb0c1caea6d78aee61f93953978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 18/50] fix: parser: the position of an accent is that of its
 backslash

---
 parser/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 334eb63..bd9fe96 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -640,7 +640,7 @@ func (p *parser) parseTagStmt() *ast.TagStmt {
 }
 
 func (p *parser) parseStringAccent() ast.Expr {
-	lit := p.lit
+	lit, pos := p.lit, p.pos
 	p.next()
 	if len(lit) <= 2 {
 		p.error(p.pos, "invalid accent string")
@@ -655,10 +655,10 @@ func (p *parser) parseStringAccent() ast.Expr {
 		value = value[1 : len(value)-1]
 	}
 	return &ast.TextAccent{
-		ValuePos: p.pos,
+		ValuePos: pos,
 		Accent:   token.Accent(lit[1]),
 		Text: &ast.Text{
-			ValuePos: p.pos + 2,
+			ValuePos: pos + 2,
 			Value:    value,
 		},
 	}
-- 
2.43.0


From 5799d9364d9b22269818a6c82825ac68c8390a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:27 +0000
Subject: [PATCH 19/50] fix: parser: the position of a macro's URL is its first
 character

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index bd9fe96..23a8ffc 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -401,12 +401,13 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	p.expect(token.StringLBrace)
 	sb := strings.Builder{}
 	sb.Grow(32)
+	urlPos := p.pos
 	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
 		sb.WriteString(p.lit)
 		p.next()
 	}
 	urlCmd.Values = []ast.Expr{
-		&ast.Text{ValuePos: p.pos, Value: sb.String()},
+		&ast.Text{ValuePos: urlPos, Value: sb.String()},
 	}
 	if p.tok == token.StringSpace {
 		p.next()
-- 
2.43.0


From 46972920ded4c000883a1c54e1b37d25a644e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:43 +0000
Subject: [PATCH 20/50] fix: parser: url fields in any letter case hold a URL

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 23a8ffc..69fc564 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -771,12 +771,12 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 			}
 			p.next()
 			var val ast.Expr
-			if key.Name == "url" && p.tok.IsStringLiteral() {
+			if strings.EqualFold(key.Name, "url") && p.tok.IsStringLiteral() {
 				val = p.parseConcat(p.parseURLStringLiteral())
 			} else {
 				val = p.parseExpr()
 			}
-			fixVal := fixUpFields(key.Name, val)
+			fixVal := fixUpFields(strings.ToLower(key.Name), val)
 			tag := &ast.TagStmt{
 				Doc:     doc,
 				NamePos: key.Pos(),
-- 
2.43.0


From 321a09a40da271d09d65bd3eff91cf7a810ecfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:44 +0000
Subject: [PATCH 21/50] fix: parser: keep commas and tildes of a braced URL

---
 parser/parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 69fc564..09aaaa9 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -729,10 +729,15 @@ func fixUpFields(tag string, val ast.Expr) ast.Expr {
 		sb := strings.Builder{}
 		sb.Grow(32)
 		for _, child := range txt.Values {
-			if cTxt, ok := child.(*ast.Text); !ok {
+			switch c := child.(type) {
+			case *ast.Text:
+				sb.WriteString(c.Value)
+			case *ast.TextComma:
+				sb.WriteString(",")
+			case *ast.TextNBSP:
+				sb.WriteString("~")
+			default:
 				return val
-			} else {
-				sb.WriteString(cTxt.Value)
 			}
 		}
 		return &ast.ParsedText{
-- 
2.43.0


From 9755178286f3f4e868ce986445585df8c5248a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 22/50] fix: parser: ParsePackage allocates the map of files

---
 parser/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/interface.go b/parser/interface.go
index fd5d662..3d3975f 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -141,7 +141,7 @@ func ParseExpr(str string) (x ast.Expr, err error) {
 // encountered are returned.
 func ParsePackage(paths []string, mode Mode) (pkg *ast.Package, first error) {
 	fset := gotok.NewFileSet()
-	pkg = &ast.Package{}
+	pkg = &ast.Package{Files: make(map[string]*ast.File)}
 	for _, filename := range paths {
 		if src, err := ParseFile(fset, filename, nil, mode); err == nil {
 			pkg.Files[filename] = src
-- 
2.43.0


From 1c93e908078e0f7bc5f56bfdad2a745aa99e6740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 23/50] fix: parser: set the name of a parsed file

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index 09aaaa9..ebb1739 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -881,6 +881,7 @@ func (p *parser) parseFile() *ast.File {
 	}
 
 	return &ast.File{
+		Name:       p.file.Name(),
 		Doc:        doc,
 		Entries:    decls,
 		Scope:      p.pkgScope,
-- 
2.43.0


From bf9c4c36229858c3fa7dd4489d1107b5d8333ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 24/50] fix: resolve an entry without a cite key

---
 bibtex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bibtex.go b/bibtex.go
index b765e6a..3fe4700 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -174,10 +174,12 @@ func (b *Biber) Resolve(node ast.Node) ([]Entry, error) {
 
 func (b *Biber) resolveEntry(decl *ast.BibDecl) Entry {
 	entry := Entry{
-		Key:  decl.Key.Name,
 		Type: decl.Type,
 		Tags: make(map[Field]ast.Expr, 4),
 	}
+	if decl.Key != nil {
+		entry.Key = decl.Key.Name
+	}
 	for _, tag := range decl.Tags {
 		entry.Tags[tag.Name] = tag.Value
 	}
-- 
2.43.0


From ac7a2113f1b796cb1d64e5f639f5561f2c4c72e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:05 +0000
Subject: [PATCH 25/50] fix: ast: Walk visits @string definitions and the
 values of tags

---
 ast/walk.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ast/walk.go b/ast/walk.go
index 46756a2..e574419 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -80,6 +80,18 @@ func walkHelper(n Node, walker Walker) (WalkStatus, error) {
 					return st, err
 				}
 			}
+		case *AbbrevDecl:
+			if t.Tag != nil {
+				if st, err := walkHelper(t.Tag, walker); st == WalkStop || err != nil {
+					return st, err
+				}
+			}
+		case *TagStmt:
+			if t.Value != nil {
+				if st, err := walkHelper(t.Value, walker); st == WalkStop || err != nil {
+					return st, err
+				}
+			}
 		case *PreambleDecl:
 			if st, err := walkHelper(t.Text, walker); st == WalkStop || err != nil {
 				return st, err
-- 
2.43.0


From cbbf320d15bd59cc95cd9fe2cb9b9ad4f44474e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 26/50] fix: render: a dot on i is i, not a dotless i

---
 render/accent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/accent.go b/render/accent.go
index 4c87070..9978cc0 100644
--- a/render/accent.go
+++ b/render/accent.go
@@ -31,7 +31,7 @@ var accentMap = map[string]rune{
 	"cc": 'ç', "cC": 'Ç',
 
 	// AccentDot (.)
-	".c": 'ċ', ".e": 'ė', ".g": 'ġ', ".i": 'ı', ".z": 'ż',
+	".c": 'ċ', ".e": 'ė', ".g": 'ġ', ".i": 'i', ".z": 'ż',
 	".C": 'Ċ', ".E": 'Ė', ".G": 'Ġ', ".I": 'İ', ".Z": 'Ż',
 }
 
-- 
2.43.0


From 8eb140ebb1da5cac6a27b124ab32e1e07303ae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 27/50] fix: render: don't ignore a failed write of '#'

---
 render/render.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/render/render.go b/render/render.go
index 3774dca..1004f20 100644
--- a/render/render.go
+++ b/render/render.go
@@ -219,7 +219,9 @@ func (p TextRenderer) Render(w io.Writer, x ast.Expr) error {
 		if err := p.Render(w, t.X); err != nil {
 			return err
 		}
-		_, _ = w.Write([]byte{'#'})
+		if _, err := w.Write([]byte{'#'}); err != nil {
+			return err
+		}
 		if err := p.Render(w, t.Y); err != nil {
 			return err
 		}
-- 
2.43.0


From 86574f9637a25d377fb038ec10e47fc81ba2a558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:43 +0000
Subject: [PATCH 28/50] fix: render: the default text renderer renders text and
 accents

---
 render/render.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/render/render.go b/render/render.go
index 1004f20..ed33b17 100644
--- a/render/render.go
+++ b/render/render.go
@@ -101,8 +101,14 @@ func renderParsedText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, e
 }
 
 func renderText(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
-	txt := n.(*ast.TextSpace)
-	if _, err := w.Write([]byte(txt.Value)); err != nil {
+	value := ""
+	switch t := n.(type) {
+	case *ast.Text:
+		value = t.Value
+	case *ast.TextAccent: // has the same kind as ast.Text
+		value = `\` + string(t.Accent) + `{` + t.Text.Value + `}`
+	}
+	if _, err := w.Write([]byte(value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderText: %w", err)
 	}
 	return ast.WalkContinue, nil
-- 
2.43.0


From 081ee18d0ad349b40ce5833503dbbb21e44bdd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 29/50] fix: render: the default math renderer writes the math

---
 render/render.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/render/render.go b/render/render.go
index ed33b17..dc7f20d 100644
--- a/render/render.go
+++ b/render/render.go
@@ -136,9 +136,9 @@ func renderTextHyphen(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
 	return ast.WalkContinue, nil
 }
 
-func renderTextMath(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+func renderTextMath(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
 	if entering {
-		if _, err := w.Write([]byte("$")); err != nil {
+		if _, err := w.Write([]byte("$" + n.(*ast.TextMath).Value)); err != nil {
 			return ast.WalkStop, fmt.Errorf("default renderTextMath left: %w", err)
 		}
 	} else {
-- 
2.43.0


From 6385b1a836934b27d2dbe3469de273dc2fabee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 30/50] fix: render: the default space renderer writes a space
 for parsed whitespace

---
 render/render.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/render/render.go b/render/render.go
index dc7f20d..6c1da09 100644
--- a/render/render.go
+++ b/render/render.go
@@ -158,7 +158,11 @@ func renderTextNBSP(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
 
 func renderTextSpace(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
 	sp := n.(*ast.TextSpace)
-	if _, err := w.Write([]byte(sp.Value)); err != nil {
+	value := sp.Value
+	if value == "" {
+		value = " " // the parser doesn't keep the kind of whitespace
+	}
+	if _, err := w.Write([]byte(value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextSpace: %w", err)
 	}
 	return ast.WalkContinue, nil
-- 
2.43.0


From 2ab016354aea563290e89ddbad551ca8be5238b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 31/50] fix: render: the default ident renderer returns write
 errors

---
 render/render.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/render/render.go b/render/render.go
index 6c1da09..c96110c 100644
--- a/render/render.go
+++ b/render/render.go
@@ -62,7 +62,9 @@ func renderBadExpr(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
 
 func renderIdent(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
 	ident := n.(*ast.Ident)
-	_, _ = w.Write([]byte(ident.Name))
+	if _, err := w.Write([]byte(ident.Name)); err != nil {
+		return ast.WalkStop, fmt.Errorf("default renderIdent: %w", err)
+	}
 	return ast.WalkContinue, nil
 }
 
-- 
2.43.0


From 88adb35d55be73812952192edaf3da7048ef60cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 32/50] fix: render: the default renderers write leaf nodes
 once

---
 render/render.go | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/render/render.go b/render/render.go
index c96110c..355ff78 100644
--- a/render/render.go
+++ b/render/render.go
@@ -60,7 +60,10 @@ func renderBadExpr(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
 	return ast.WalkStop, fmt.Errorf("render bad expr")
 }
 
-func renderIdent(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderIdent(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	ident := n.(*ast.Ident)
 	if _, err := w.Write([]byte(ident.Name)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderIdent: %w", err)
@@ -102,7 +105,10 @@ func renderParsedText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, e
 	return ast.WalkContinue, nil
 }
 
-func renderText(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	value := ""
 	switch t := n.(type) {
 	case *ast.Text:
@@ -116,14 +122,20 @@ func renderText(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
 	return ast.WalkContinue, nil
 }
 
-func renderTextComma(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextComma(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(",")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextComma: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextEscaped(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	esc := n.(*ast.TextEscaped)
 	if _, err := w.Write([]byte(`\` + esc.Value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextEscaped: %w", err)
@@ -131,7 +143,10 @@ func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error)
 	return ast.WalkContinue, nil
 }
 
-func renderTextHyphen(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextHyphen(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte("-")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextHyphen: %w", err)
 	}
@@ -151,14 +166,20 @@ func renderTextMath(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, err
 	return ast.WalkContinue, nil
 }
 
-func renderTextNBSP(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextNBSP(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(" ")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextNBSP: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextSpace(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextSpace(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	sp := n.(*ast.TextSpace)
 	value := sp.Value
 	if value == "" {
-- 
2.43.0


From 5310b5951f56f1ad1910f0de8622baca645205f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:46 +0000
Subject: [PATCH 33/50] fix: asts: a single dollar sign is text, not math

---
 asts/asts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asts/asts.go b/asts/asts.go
index 6787a2c..8ac97e9 100644
--- a/asts/asts.go
+++ b/asts/asts.go
@@ -66,7 +66,7 @@ func ParseStringExpr(depth int, s string) ast.Expr {
 	switch {
 	case strings.TrimSpace(s) == "":
 		return Space()
-	case strings.HasPrefix(s, "$") && strings.HasSuffix(s, "$"):
+	case len(s) >= 2 && strings.HasPrefix(s, "$") && strings.HasSuffix(s, "$"):
 		bs := []byte(s)
 		return Math(string(bs[1 : len(bs)-1]))
 	case s == "~":
-- 
2.43.0


From 8ecb3b5ebfbc3b4998dd0dc82e67a635a78c2f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:47 +0000
Subject: [PATCH 34/50] fix: parser: a comment after the end of a multi-line
 string is a line comment

---
 parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index ebb1739..47f7c04 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -184,6 +184,9 @@ func (p *parser) next() {
 	p.leadComment = nil
 	p.lineComment = nil
 	prev := p.pos
+	if p.tok == token.String || p.tok == token.BraceString {
+		prev += gotok.Pos(len(p.lit) + 1) // the closing delimiter
+	}
 	p.next0()
 
 	if p.tok == token.TexComment {
-- 
2.43.0


From d51458de574c204c4a87b4416a7d00280c1c1304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:56 +0000
Subject: [PATCH 35/50] fix: WithRenderer with a nil function leaves no
 renderer

---
 bibtex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bibtex.go b/bibtex.go
index 3fe4700..5cd0e64 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -106,6 +106,10 @@ func WithResolvers(rs ...Resolver) Option {
 // renderer.
 func WithRenderer(kind ast.NodeKind, r render.NodeRendererFunc) Option {
 	return func(b *Biber) {
+		if r == nil {
+			b.renderers[kind] = nil // no renderer instead of a nil function
+			return
+		}
 		b.renderers[kind] = r
 	}
 }
-- 
2.43.0


From c7626fc6f8a13ee13aaed2f89ded5a111315bfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 36/50] fix: authors: don't panic on macros, bad expressions
 and unknown accents

---
 author.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/author.go b/author.go
index 8582785..13ee39c 100644
--- a/author.go
+++ b/author.go
@@ -148,9 +148,18 @@ func parseDefault(idx int, xs []ast.Expr) string {
 	case *ast.TextAccent:
 		r, err := render.RenderAccent(t.Accent, t.Text.Value)
 		if err != nil {
-			panic("cannot render accent")
+			// No such character; keep the TeX spelling.
+			return `\` + string(t.Accent) + `{` + t.Text.Value + `}`
 		}
 		return string(r)
+	case *ast.TextMacro:
+		sb := strings.Builder{}
+		for i := range t.Values {
+			sb.WriteString(parseDefault(i, t.Values))
+		}
+		return sb.String()
+	case *ast.BadExpr:
+		return ""
 	default:
 		panic("unhandled ast.Expr value")
 	}
-- 
2.43.0


From 429784ae43350672a8c3c660f84ef84b61df6074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 37/50] fix: authors: only a whole word 'and' separates authors

---
 author.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/author.go b/author.go
index 13ee39c..7484f2f 100644
--- a/author.go
+++ b/author.go
@@ -19,10 +19,10 @@ func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
 	// to extractAuthor to get the Author.
 	authors := make([]*ast.Author, 0, 4)
 	aExprs := make([]ast.Expr, 0, 8)
-	for _, v := range txt.Values {
+	for i, v := range txt.Values {
 		switch t := v.(type) {
 		case *ast.Text:
-			if t.Value == authorSep {
+			if t.Value == authorSep && isWord(i, txt.Values) {
 				a := extractAuthor(aExprs)
 				if a.IsEmpty() {
 					return nil, fmt.Errorf("found an empty author")
@@ -42,6 +42,20 @@ func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
 	return authors, nil
 }
 
+func isSpace(x ast.Expr) bool {
+	switch x.(type) {
+	case *ast.TextSpace, *ast.TextNBSP:
+		return true
+	}
+	return false
+}
+
+// isWord returns true if the element at idx is a whole word, meaning there's
+// nothing but space next to it.
+func isWord(idx int, xs []ast.Expr) bool {
+	return (idx == 0 || isSpace(xs[idx-1])) && (idx == len(xs)-1 || isSpace(xs[idx+1]))
+}
+
 func trimSpaces(xs []ast.Expr) []ast.Expr {
 	lo, hi := 0, len(xs)
 
-- 
2.43.0


From 68687e703e499e2966cc3e3c4d72091a77848cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 38/50] fix: authors: the suffix is everything between the
 commas

---
 author.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/author.go b/author.go
index 7484f2f..151b597 100644
--- a/author.go
+++ b/author.go
@@ -265,8 +265,9 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	suffix := strings.Builder{}
 	suffix.Grow(16)
 	if len(commas) > 1 {
-		val := parseDefault(0, xs[commas[0]+1:])
-		suffix.WriteString(val)
+		for i := commas[0] + 1; i < commas[1]; i++ {
+			suffix.WriteString(parseDefault(i, xs))
+		}
 		part2 = xs[commas[1]+1:]
 	}
 
-- 
2.43.0


From 5d748f18b99d2e9122ceb4c5d646b9b1181515f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 39/50] fix: authors: don't cut a first name after the commas
 at a lower-case word

---
 author.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/author.go b/author.go
index 151b597..30798bd 100644
--- a/author.go
+++ b/author.go
@@ -275,11 +275,7 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	first := strings.Builder{}
 	first.Grow(16)
 	for ; idx2 < len(part2); idx2++ {
-		val, action := parseFirstName(idx2, part2)
-		if action == resolveNextPart {
-			break
-		}
-		first.WriteString(val)
+		first.WriteString(parseDefault(idx2, part2))
 	}
 
 	return &ast.Author{
-- 
2.43.0


From 74951cf2b1a6cd7d2b838ff660df6326088b9f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 40/50] fix: authors: the last name gets the last word, not the
 last element

---
 author.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/author.go b/author.go
index 30798bd..da14832 100644
--- a/author.go
+++ b/author.go
@@ -56,18 +56,27 @@ func isWord(idx int, xs []ast.Expr) bool {
 	return (idx == 0 || isSpace(xs[idx-1])) && (idx == len(xs)-1 || isSpace(xs[idx+1]))
 }
 
+// lastWordStart returns the index of the first element of the last word.
+func lastWordStart(xs []ast.Expr) int {
+	idx := len(xs) - 1
+	for idx > 0 && !isSpace(xs[idx-1]) {
+		idx--
+	}
+	return idx
+}
+
 func trimSpaces(xs []ast.Expr) []ast.Expr {
 	lo, hi := 0, len(xs)
 
 	for i := 0; i < len(xs); i++ {
-		if _, ok := xs[i].(*ast.TextSpace); !ok {
+		if !isSpace(xs[i]) {
 			break
 		}
 		lo++
 	}
 
 	for i := len(xs) - 1; i >= 0; i-- {
-		if _, ok := xs[i].(*ast.TextSpace); !ok {
+		if !isSpace(xs[i]) {
 			break
 		}
 		hi--
@@ -182,11 +191,12 @@ func parseDefault(idx int, xs []ast.Expr) string {
 // resolveAuthor0 resolves an author for an entry with no commas, like
 // "First von Last".
 func resolveAuthor0(xs []ast.Expr) *ast.Author {
+	lastWord := lastWordStart(xs)
 	first := strings.Builder{}
 	first.Grow(16)
 	idx := 0
 	for ; idx < len(xs); idx++ {
-		if idx == len(xs)-1 {
+		if idx >= lastWord {
 			// If we're on the last part, it belongs to the last name.
 			break
 		}
@@ -199,7 +209,7 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 
 	prefix := strings.Builder{}
 	for ; idx < len(xs); idx++ {
-		if idx == len(xs)-1 {
+		if idx >= lastWord {
 			// If we're on the last part, it belongs to the last name.
 			break
 		}
@@ -235,11 +245,12 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 //	2 commas: last, suffix, first     => Author{first, "",  last, suffix}
 //	2 commas: von last, suffix, first => Author{first, von, last, suffix}
 func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
-	part1 := xs[:commas[0]]
+	part1 := trimSpaces(xs[:commas[0]])
+	lastWord := lastWordStart(part1)
 	idx1 := 0
 	prefix := strings.Builder{}
 	for ; idx1 < len(part1); idx1++ {
-		if idx1 == len(part1)-1 {
+		if idx1 >= lastWord {
 			// If we're on the last part, it belongs to the last name.
 			break
 		}
-- 
2.43.0


From 5260c58b70845aa6bcb87a407f990703d5b895a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 41/50] fix: authors: only whole lower-case words go in the
 prefix

---
 author.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/author.go b/author.go
index da14832..5a9cd04 100644
--- a/author.go
+++ b/author.go
@@ -129,8 +129,11 @@ func hasUpperPrefix(s string) bool {
 
 func parsePrefixName(idx int, xs []ast.Expr) (string, resolveAction) {
 	x := xs[idx]
+	if isSpace(x) || (idx > 0 && !isSpace(xs[idx-1])) {
+		return parseDefault(idx, xs), resolveContinue // not the start of a word
+	}
 	if _, ok := x.(*ast.Text); !ok {
-		return parseDefault(idx, xs), resolveContinue
+		return "", resolveNextPart // Only lowercase goes in prefix
 	}
 
 	t := x.(*ast.Text)
-- 
2.43.0


From de9349a196f805997ecfe6a33333d2bb4a03f462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 42/50] fix: authors: a tie separates words, and a first
 lower-case word is a prefix

---
 author.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/author.go b/author.go
index 5a9cd04..c19126f 100644
--- a/author.go
+++ b/author.go
@@ -106,7 +106,12 @@ const (
 
 func parseFirstName(idx int, xs []ast.Expr) (string, resolveAction) {
 	x := xs[idx]
-	if _, ok := x.(*ast.TextSpace); ok && idx < len(xs)-1 {
+	if t, ok := x.(*ast.Text); ok && idx == 0 {
+		if r, _ := utf8.DecodeRuneInString(t.Value); unicode.IsLower(r) {
+			return "", resolveNextPart // no first name, like "von Last"
+		}
+	}
+	if isSpace(x) && idx < len(xs)-1 {
 		if t, ok := xs[idx+1].(*ast.Text); ok && !hasUpperPrefix(t.Value) {
 			// lowercase after space means we're out of the first name
 			return "", resolveNextPart
-- 
2.43.0


From be5732189a79ddfe7a884c29214a78fd18d0feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 43/50] fix: scanner: scan nested braces of a raw string in
 linear time and constant stack

---
 scanner/scanner.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index e66f63c..ec97e86 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -252,7 +252,8 @@ func (s *Scanner) scanNumber() string {
 func (s *Scanner) scanBraceString() string {
 	offs := s.offset
 
-	for {
+	// Count nested braces, because recursion copies the string at each depth.
+	for depth := 0; ; {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in braces not terminated")
@@ -260,10 +261,13 @@ func (s *Scanner) scanBraceString() string {
 		}
 		s.next()
 		if ch == '}' {
-			break
+			if depth == 0 {
+				break
+			}
+			depth--
 		}
 		if ch == '{' {
-			s.scanBraceString()
+			depth++
 		}
 	}
 	return string(s.src[offs : s.offset-1])
-- 
2.43.0


From 1394f17a0747562069f55530340632b529646fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 44/50] fix: parser: limit the nesting of expressions instead
 of overflowing the stack

---
 parser/parser.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 47f7c04..1a8d167 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -39,6 +39,8 @@ type parser struct {
 	syncPos gotok.Pos // last synchronization position
 	syncCnt int       // number of parser.advance calls without progress
 
+	nestLev int // nesting level of the expression; used to limit recursion
+
 	// Ordinary cite key scopes
 	pkgScope   *ast.Scope   // pkgScope.Outer == nil
 	topScope   *ast.Scope   // top-most scope; may be pkgScope
@@ -240,6 +242,21 @@ func (p *parser) error(pos gotok.Pos, msg string) {
 	p.errors.Add(epos, msg)
 }
 
+// maxNestLev is the deepest an expression may nest, the same as in go/parser.
+// The recursion of the parser, and of anything that walks the expression,
+// would overflow the stack on an arbitrarily deep one.
+const maxNestLev = 1e5
+
+func (p *parser) incNestLev() {
+	p.nestLev++
+	if p.nestLev > maxNestLev {
+		p.error(p.pos, "exceeded max nesting depth")
+		panic(bailout{})
+	}
+}
+
+func (p *parser) decNestLev() { p.nestLev-- }
+
 func (p *parser) errorExpected(pos gotok.Pos, msg string) {
 	msg = "expected " + msg
 	if pos == p.pos {
@@ -451,6 +468,8 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 	case token.Illegal:
 		txt = &ast.BadExpr{From: p.pos, To: p.pos}
 	case token.StringLBrace: // recursive case
+		p.incNestLev()
+		defer p.decNestLev()
 		opener := p.pos
 		p.next()
 
@@ -598,6 +617,8 @@ func (p *parser) parseExpr() (x ast.Expr) {
 // parseConcat parses the rest of a concatenation that starts with x, if any.
 func (p *parser) parseConcat(x ast.Expr) ast.Expr {
 	if p.tok == token.Concat {
+		p.incNestLev()
+		defer p.decNestLev()
 		opPos := p.pos
 		p.next()
 		y := p.parseExpr()
-- 
2.43.0


From 5f548378143c651968889616f8b902bc0bfd2753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 45/50] fix: asts: BraceText nests brace groups below its own
 depth

---
 asts/asts.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asts/asts.go b/asts/asts.go
index 8ac97e9..7b9c740 100644
--- a/asts/asts.go
+++ b/asts/asts.go
@@ -41,6 +41,10 @@ func BraceTextExpr(depth int, ss ...ast.Expr) *ast.ParsedText {
 func BraceText(depth int, ss ...interface{}) *ast.ParsedText {
 	xs := make([]ast.Expr, len(ss))
 	for i, s := range ss {
+		if str, ok := s.(string); ok {
+			xs[i] = ParseStringExpr(depth, str)
+			continue
+		}
 		xs[i] = ParseAny(s)
 	}
 	return &ast.ParsedText{
-- 
2.43.0


From f8626557e2af0e651bc4eb3f50d9aacfaa505707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:30 +0000
Subject: [PATCH 46/50] fix: rendering a bad declaration is an error

Like bad expressions and bad statements, a bad declaration stands for source
that couldn't be parsed; the default renderer silently dropped it.
---
 render/render.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/render/render.go b/render/render.go
index 355ff78..627b129 100644
--- a/render/render.go
+++ b/render/render.go
@@ -209,7 +209,7 @@ func renderTagStmt(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
 }
 
 func renderBadDecl(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
-	return ast.WalkContinue, nil
+	return ast.WalkStop, fmt.Errorf("render bad decl")
 }
 
 func renderAbbrevDecl(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
-- 
2.43.0


From 2c257bbb37af9606a89f1a6fe6109fdbf4ae6188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:57 +0000
Subject: [PATCH 47/50] fix: ast: End is the position after a node

---
 ast/ast.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index ec8a0e7..277576b 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -339,14 +339,17 @@ func (x *Author) IsOthers() bool {
 func (x *Author) exprNode() {}
 
 func (x *UnparsedText) Pos() gotok.Pos { return x.ValuePos }
-func (x *UnparsedText) End() gotok.Pos { return gotok.Pos(int(x.ValuePos) + len(x.Value)) }
+func (x *UnparsedText) End() gotok.Pos { return gotok.Pos(int(x.ValuePos) + 2*len(`"`) + len(x.Value)) }
 func (x *UnparsedText) Kind() NodeKind { return KindUnparsedText }
 func (*UnparsedText) exprNode()        {}
 
 func (x *ParsedText) Pos() gotok.Pos { return x.Opener }
 func (x *ParsedText) End() gotok.Pos {
+	if x.Closer != gotok.NoPos {
+		return x.Closer + 1
+	}
 	if len(x.Values) > 0 {
-		return x.Values[len(x.Values)-1].Pos()
+		return x.Values[len(x.Values)-1].End()
 	}
 	return x.Opener
 }
@@ -396,18 +399,18 @@ func (*TextSpace) exprNode()        {}
 func (x *TextMacro) Pos() gotok.Pos { return x.Cmd }
 func (x *TextMacro) End() gotok.Pos {
 	if x.RBrace != gotok.NoPos {
-		return x.RBrace
+		return x.RBrace + 1
 	}
 	if len(x.Values) == 0 {
-		return x.Cmd
+		return gotok.Pos(int(x.Cmd) + len(`\`) + len(x.Name))
 	}
-	return x.Values[len(x.Values)-1].Pos()
+	return x.Values[len(x.Values)-1].End()
 }
 func (x *TextMacro) Kind() NodeKind { return KindTextMacro }
 func (*TextMacro) exprNode()        {}
 
 func (x *ConcatExpr) Pos() gotok.Pos { return x.X.Pos() }
-func (x *ConcatExpr) End() gotok.Pos { return x.Y.Pos() }
+func (x *ConcatExpr) End() gotok.Pos { return x.Y.End() }
 func (x *ConcatExpr) Kind() NodeKind { return KindConcatExpr }
 func (*ConcatExpr) exprNode()        {}
 
@@ -440,7 +443,7 @@ func (x *BadStmt) Kind() NodeKind { return KindBadStmt }
 func (*BadStmt) stmtNode()        {}
 
 func (x *TagStmt) Pos() gotok.Pos { return x.NamePos }
-func (x *TagStmt) End() gotok.Pos { return x.Value.Pos() }
+func (x *TagStmt) End() gotok.Pos { return x.Value.End() }
 func (x *TagStmt) Kind() NodeKind { return KindTagStmt }
 func (*TagStmt) stmtNode()        {}
 
@@ -492,17 +495,17 @@ func (e *BadDecl) Kind() NodeKind { return KindBadDecl }
 func (*BadDecl) declNode()        {}
 
 func (e *AbbrevDecl) Pos() gotok.Pos { return e.Entry }
-func (e *AbbrevDecl) End() gotok.Pos { return e.RBrace }
+func (e *AbbrevDecl) End() gotok.Pos { return e.RBrace + 1 }
 func (e *AbbrevDecl) Kind() NodeKind { return KindAbbrevDecl }
 func (*AbbrevDecl) declNode()        {}
 
 func (e *BibDecl) Pos() gotok.Pos { return e.Entry }
-func (e *BibDecl) End() gotok.Pos { return e.RBrace }
+func (e *BibDecl) End() gotok.Pos { return e.RBrace + 1 }
 func (e *BibDecl) Kind() NodeKind { return KindBibDecl }
 func (*BibDecl) declNode()        {}
 
 func (e *PreambleDecl) Pos() gotok.Pos { return e.Entry }
-func (e *PreambleDecl) End() gotok.Pos { return e.RBrace }
+func (e *PreambleDecl) End() gotok.Pos { return e.RBrace + 1 }
 func (e *PreambleDecl) Kind() NodeKind { return KindPreambleDecl }
 func (*PreambleDecl) declNode()        {}
 
-- 
2.43.0


From f3e4f6a33aa812806da259d3aa13992bc090f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:25 +0000
Subject: [PATCH 48/50] fix: WithBibKeys gave a second declaration the keys
 without the first one

---
 asts/asts.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asts/asts.go b/asts/asts.go
index 7b9c740..92b7247 100644
--- a/asts/asts.go
+++ b/asts/asts.go
@@ -264,11 +264,11 @@ func WithBibType(s string) func(decl *ast.BibDecl) {
 
 func WithBibKeys(ts ...string) func(decl *ast.BibDecl) {
 	return func(b *ast.BibDecl) {
-		if len(ts) > 0 {
-			b.Key = &ast.Ident{Name: ts[0]}
-			ts = ts[1:]
+		if len(ts) == 0 {
+			return
 		}
-		for _, k := range ts {
+		b.Key = &ast.Ident{Name: ts[0]}
+		for _, k := range ts[1:] {
 			b.ExtraKeys = append(b.ExtraKeys, &ast.Ident{Name: k})
 		}
 	}
-- 
2.43.0


From ac227f3862d583f4e81e490901eb559aafb351a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:30 +0000
Subject: [PATCH 49/50] fix: characters of a URL were lost

---
 parser/parser.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1a8d167..3594692 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -413,6 +413,23 @@ func (p *parser) parseBasicLit() (l ast.Expr) {
 	return
 }
 
+// urlText returns the source text of the current token as a part of a url.
+func (p *parser) urlText() string {
+	switch p.tok {
+	case token.StringLBrace:
+		return "{"
+	case token.StringRBrace:
+		return "}"
+	case token.StringMath:
+		return "$" + p.lit + "$"
+	case token.StringMacro:
+		if !strings.HasPrefix(p.lit, `\`) {
+			return `\` + p.lit
+		}
+	}
+	return p.lit
+}
+
 // parseMacroURL parses a TeX \url or \href macro. This is separate because
 // urls use common LaTeX characters like ~ for non-breaking spaces.
 func (p *parser) parseMacroURL(name string) ast.Expr {
@@ -422,8 +439,15 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	sb := strings.Builder{}
 	sb.Grow(32)
 	urlPos := p.pos
-	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
-		sb.WriteString(p.lit)
+	depth := 0
+	for p.tok != token.EOF && p.tok != token.StringSpace && (p.tok != token.StringRBrace || depth > 0) {
+		switch p.tok {
+		case token.StringLBrace:
+			depth++
+		case token.StringRBrace:
+			depth--
+		}
+		sb.WriteString(p.urlText())
 		p.next()
 	}
 	urlCmd.Values = []ast.Expr{
@@ -569,7 +593,7 @@ func (p *parser) parseURLStringLiteral() ast.Expr {
 				return &ast.BadExpr{From: pos, To: p.pos}
 			}
 
-			sb.WriteString(p.lit)
+			sb.WriteString(p.urlText())
 			p.next()
 		}
 		txt := &ast.Text{
-- 
2.43.0


From 297aeeaf81881e4f2d2a9b175421706f086b8f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:30 +0000
Subject: [PATCH 50/50] fix: a quoted url field with a macro and more text was
 refused

---
 parser/parser.go | 51 ++++++++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3594692..09e87df 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -534,24 +534,7 @@ func (p *parser) parseStringLiteral() ast.Expr {
 	switch tok := p.tok; tok {
 	case token.DoubleQuote:
 		p.next()
-		values := make([]ast.Expr, 0, 2)
-		for p.tok != token.DoubleQuote {
-			if p.tok == token.EOF {
-				p.errorExpected(p.pos, "double quote")
-				return &ast.BadExpr{From: pos, To: p.pos}
-			}
-			values = append(values, p.parseText(1))
-		}
-		closer := p.pos
-		p.next() // consume closing '"'
-		txt := &ast.ParsedText{
-			Opener: pos,
-			Depth:  0,
-			Delim:  ast.QuoteDelimiter,
-			Values: values,
-			Closer: closer,
-		}
-		return txt
+		return p.parseQuotedText(pos)
 
 	case token.StringLBrace:
 		return p.parseText(0)
@@ -566,6 +549,27 @@ func (p *parser) parseStringLiteral() ast.Expr {
 	}
 }
 
+// parseQuotedText parses the rest of a quoted string that starts at pos.
+func (p *parser) parseQuotedText(pos gotok.Pos) ast.Expr {
+	values := make([]ast.Expr, 0, 2)
+	for p.tok != token.DoubleQuote {
+		if p.tok == token.EOF {
+			p.errorExpected(p.pos, "double quote")
+			return &ast.BadExpr{From: pos, To: p.pos}
+		}
+		values = append(values, p.parseText(1))
+	}
+	closer := p.pos
+	p.next() // consume closing '"'
+	return &ast.ParsedText{
+		Opener: pos,
+		Depth:  0,
+		Delim:  ast.QuoteDelimiter,
+		Values: values,
+		Closer: closer,
+	}
+}
+
 func (p *parser) parseURLStringLiteral() ast.Expr {
 	sb := strings.Builder{}
 	sb.Grow(32)
@@ -575,16 +579,7 @@ func (p *parser) parseURLStringLiteral() ast.Expr {
 		p.next()
 
 		if p.tok == token.StringMacro {
-			url := p.parseMacroURL(p.lit)
-			p.expect(token.StringRBrace)
-			closer := p.expect(token.DoubleQuote)
-			return &ast.ParsedText{
-				Opener: pos,
-				Depth:  0,
-				Delim:  ast.QuoteDelimiter,
-				Values: []ast.Expr{url},
-				Closer: closer,
-			}
+			return p.parseQuotedText(pos)
 		}
 
 		for p.tok != token.DoubleQuote {
-- 
2.43.0

