From b807acf3b9b52ceb6d6efe12be899c9afa323c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:17 +0000
Subject: [PATCH 01/57] fix: do not lex <<< and <<<= as unsigned right shift

---
 ecmascript/lexer/lexer.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index fc94a57..30430df 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -570,14 +570,6 @@ func (l *Lexer) consumeNextToken() Token {
 			switch l.s.Read() {
 			case '<':
 				switch l.s.Read() {
-				case '<':
-					switch l.s.Read() {
-					case '=':
-						return Token{Type: TokenPunctuatorUnsignedRShiftAssign}
-					default:
-						l.s.Unread()
-						return Token{Type: TokenPunctuatorUnsignedRShift}
-					}
 				case '=':
 					return Token{Type: TokenPunctuatorLShiftAssign}
 				default:
-- 
2.43.0


From f0c241f211fb5964eb50562b31ea5476877ac127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:19 +0000
Subject: [PATCH 02/57] fix: end multi-line comments at the first */ after a
 run of asterisks

---
 ecmascript/lexer/lexer.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 30430df..449d89c 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -148,11 +148,9 @@ func (l *Lexer) consumeMultiLineComment() {
 			switch l.s.Read() {
 			case '/':
 				return
-			case EOFRune:
-				panic(&errs.SyntaxError{
-					Location: l.s.Location(),
-					Err:      errors.New("unexpected EOF"),
-				})
+			default:
+				// Could be another asterisk; look at it again.
+				l.s.Unread()
 			}
 		case EOFRune:
 			panic(&errs.SyntaxError{
-- 
2.43.0


From f593b9ab55edb1fd2e12aefc4244b13169ee585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:20 +0000
Subject: [PATCH 03/57] fix: flag line breaks inside and at the end of comments

---
 ecmascript/lexer/lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 449d89c..a02cb87 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -143,6 +143,9 @@ func (l *Lexer) consumeMultiLineComment() {
 	var r rune
 	for {
 		r = l.s.Read()
+		if isLineTerm(r) {
+			l.newLine = true
+		}
 		switch r {
 		case '*':
 			switch l.s.Read() {
@@ -161,12 +164,13 @@ func (l *Lexer) consumeMultiLineComment() {
 	}
 }
 
-// Consumes a single-line comment, eating until after the next line term.
+// Consumes a single-line comment, eating until before the next line term.
 func (l *Lexer) consumeSingleLineComment() {
 	var r rune
 	for {
 		r = l.s.Read()
 		if isLineTerm(r) || r == EOFRune {
+			l.s.Unread()
 			return
 		}
 	}
-- 
2.43.0


From afd2ac613fe998d316a0e921fdc063e36e47761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:22 +0000
Subject: [PATCH 04/57] fix: leave the position alone when unreading at end of
 input

---
 ecmascript/lexer/scanner.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ecmascript/lexer/scanner.go b/ecmascript/lexer/scanner.go
index fe312c4..a669a14 100644
--- a/ecmascript/lexer/scanner.go
+++ b/ecmascript/lexer/scanner.go
@@ -88,15 +88,17 @@ func (s *Scanner) Read() rune {
 // Unread unreads a rune. If we are at EOF, this will not call the underlying
 // RuneReader, so it is safe to unread at EOF.
 func (s *Scanner) Unread() {
-	if !s.eof {
-		err := s.r.UnreadRune()
-
-		if err != nil {
-			panic(&errs.ParserError{
-				Location: s.Location(),
-				Err:      err,
-			})
-		}
+	if s.eof {
+		return
+	}
+
+	err := s.r.UnreadRune()
+
+	if err != nil {
+		panic(&errs.ParserError{
+			Location: s.Location(),
+			Err:      err,
+		})
 	}
 
 	// If negative: we just read a line terminal rune. Invert col and
-- 
2.43.0


From e01c6cd79838c5c3305c674dd7a637c8975e9e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 05/57] fix: report the right source text for !=, %= and ?.

---
 ecmascript/lexer/token.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 1162150..7abb374 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -258,7 +258,7 @@ func (t Token) Source() string {
 		TokenLiteralTemplate:
 		return t.Literal
 	case TokenPunctuatorOptionalChain:
-		return ".?"
+		return "?."
 	case TokenPunctuatorOpenBrace:
 		return "{"
 	case TokenPunctuatorOpenParen:
@@ -290,7 +290,7 @@ func (t Token) Source() string {
 	case TokenPunctuatorEqual:
 		return "=="
 	case TokenPunctuatorNotEqual:
-		return "==="
+		return "!="
 	case TokenPunctuatorStrictEqual:
 		return "==="
 	case TokenPunctuatorStrictNotEqual:
@@ -348,7 +348,7 @@ func (t Token) Source() string {
 	case TokenPunctuatorDivAssign:
 		return "/="
 	case TokenPunctuatorModAssign:
-		return "*="
+		return "%="
 	case TokenPunctuatorExponentAssign:
 		return "**="
 	case TokenPunctuatorLShiftAssign:
-- 
2.43.0


From 425175430c884f7c97cda7501e691173fd4a3580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:25 +0000
Subject: [PATCH 06/57] fix: reject string literals that contain a bare line
 break

---
 ecmascript/lexer/lexer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index a02cb87..8501a9a 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -464,6 +464,19 @@ func (l *Lexer) consumeStringLiteral() Token {
 		if r == '\\' {
 			r = l.s.Read()
 			c = append(c, r)
+			if r == '\r' {
+				// A line continuation may span both runes of a CRLF.
+				if l.s.Read() == '\n' {
+					c = append(c, '\n')
+				} else {
+					l.s.Unread()
+				}
+			}
+		} else if r == '\n' || r == '\r' {
+			panic(&errs.SyntaxError{
+				Location: l.s.Location(),
+				Err:      errors.New("unexpected line terminator in string literal"),
+			})
 		}
 		if r == EOFRune {
 			panic(&errs.SyntaxError{
-- 
2.43.0


From b15337743ea5258390c67f2dba862f4071eabeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 07/57] fix: keep escapes verbatim in regular expression
 patterns

---
 ecmascript/lexer/lexer.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 8501a9a..979c6c4 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -99,12 +99,8 @@ patternLoop:
 			r = l.s.Read()
 			lit.WriteRune(r)
 
-			if r == '/' || r == '\\' {
-				pat.WriteRune(r)
-			} else {
-				pat.WriteRune('\\')
-				pat.WriteRune(r)
-			}
+			pat.WriteRune('\\')
+			pat.WriteRune(r)
 
 		case EOFRune:
 			panic(&errs.SyntaxError{
-- 
2.43.0


From 82f81905585792fb136d7acc7c90d6734fc5a76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:00 +0000
Subject: [PATCH 08/57] fix: reject line breaks in regular expression literals

---
 ecmascript/lexer/lexer.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index 979c6c4..ff7fb56 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -61,9 +61,21 @@ func (l *Lexer) consumeRegex(t Token) ReToken {
 	lit.WriteString(t.Source())
 	pat.WriteString(t.Source()[1:])
 
+	// Reads a rune of the pattern, which may not contain line terminators.
+	read := func() rune {
+		r := l.s.Read()
+		if isLineTerm(r) {
+			panic(&errs.SyntaxError{
+				Location: l.s.Location(),
+				Err:      errors.New("unexpected line terminator in regular expression"),
+			})
+		}
+		return r
+	}
+
 patternLoop:
 	for {
-		r := l.s.Read()
+		r := read()
 		lit.WriteRune(r)
 
 		switch r {
@@ -76,12 +88,12 @@ patternLoop:
 			// allowed in a character class.
 			pat.WriteRune(r)
 			for {
-				r := l.s.Read()
+				r := read()
 				lit.WriteRune(r)
 				pat.WriteRune(r)
 
 				if r == '\\' {
-					r := l.s.Read()
+					r := read()
 					lit.WriteRune(r)
 					pat.WriteRune(r)
 				} else if r == ']' {
@@ -96,7 +108,7 @@ patternLoop:
 
 		case '\\':
 			// Escape sequence.
-			r = l.s.Read()
+			r = read()
 			lit.WriteRune(r)
 
 			pat.WriteRune('\\')
-- 
2.43.0


From cf54206e40a4c8e950b87dc409050c0a51646a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:02 +0000
Subject: [PATCH 09/57] fix: keep the line break flag of a token re-read as a
 regular expression

---
 ecmascript/lexer/lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index ff7fb56..f37d5a9 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -140,6 +140,7 @@ patternLoop:
 		Token: Token{
 			Type:    TokenLiteralRegExp,
 			Literal: lit.String(),
+			NewLine: t.NewLine,
 		},
 		Pattern: pat.String(),
 		Flags:   flg.String(),
-- 
2.43.0


From 7afbc15c6d17609483cb0b342cf5a2352e7dc077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:04 +0000
Subject: [PATCH 10/57] fix: lex fractions and exponents of decimal numbers

---
 ecmascript/lexer/lexer.go | 83 +++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 34 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index f37d5a9..d391185 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -359,26 +359,34 @@ func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
 					Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
 				})
 			}
-		} else if r == '.' {
-			lit.WriteRune(r)
-			return l.consumeFractionalPart(lit)
-		} else if isExponentIndicator(r) {
-			for {
-				r = l.s.Read()
-				if isDecimalDigit(r) {
-					lit.WriteRune(r)
-				} else {
-					l.s.Unread()
-					break
-				}
-			}
-			break
 		} else {
 			l.s.Unread()
 			break
 		}
 	}
 
+	return l.consumeDecimalTail(lit)
+}
+
+// consumeDecimalTail consumes what may follow the integer digits of a decimal
+// number: a fraction, and an exponent.
+func (l *Lexer) consumeDecimalTail(lit *strings.Builder) string {
+	r := l.s.Read()
+
+	if r == '.' {
+		lit.WriteRune(r)
+		r = l.s.Read()
+		if isDecimalDigit(r) {
+			l.s.Unread()
+			return l.consumeFractionalPart(lit)
+		}
+	}
+
+	l.s.Unread()
+	if isExponentIndicator(r) {
+		l.consumeExponentPart(lit)
+	}
+
 	return lit.String()
 }
 
@@ -418,17 +426,27 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 	}
 
 	r = l.s.Read()
-	if !isExponentIndicator(r) {
-		l.s.Unread()
-		return lit.String()
+	l.s.Unread()
+	if isExponentIndicator(r) {
+		l.consumeExponentPart(lit)
 	}
-	lit.WriteRune(r)
 
-	r = l.s.Read()
-	if r != '+' && r != '-' && !isDecimalDigit(r) {
+	return lit.String()
+}
+
+// consumeExponentPart consumes an exponent, starting at its indicator.
+func (l *Lexer) consumeExponentPart(lit *strings.Builder) {
+	lit.WriteRune(l.s.Read())
+
+	r := l.s.Read()
+	if r == '+' || r == '-' {
+		lit.WriteRune(r)
+		r = l.s.Read()
+	}
+	if !isDecimalDigit(r) {
 		panic(&errs.SyntaxError{
 			Location: l.s.Location(),
-			Err:      fmt.Errorf("expected DecimalDigit, +, or -, got %q", r),
+			Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
 		})
 	}
 	lit.WriteRune(r)
@@ -437,24 +455,21 @@ func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 		r = l.s.Read()
 		if isDecimalDigit(r) {
 			lit.WriteRune(r)
-		} else if isExponentIndicator(r) {
-			for {
-				r = l.s.Read()
-				if isDecimalDigit(r) {
-					lit.WriteRune(r)
-				} else {
-					l.s.Unread()
-					break
-				}
+		} else if isNumericLiteralSeparator(r) {
+			r = l.s.Read()
+			if isDecimalDigit(r) {
+				lit.WriteRune(r)
+			} else {
+				panic(&errs.SyntaxError{
+					Location: l.s.Location(),
+					Err:      fmt.Errorf("expected DecimalDigit, got %q", r),
+				})
 			}
-			break
 		} else {
 			l.s.Unread()
 			break
 		}
 	}
-
-	return lit.String()
 }
 
 func (l *Lexer) consumeStringLiteral() Token {
@@ -581,7 +596,7 @@ func (l *Lexer) consumeNextToken() Token {
 				return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalPart(lit)}
 			default:
 				l.s.Unread()
-				return Token{Type: TokenLiteralNumber, Literal: "0"}
+				return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalTail(lit)}
 			}
 		case '1', '2', '3', '4', '5', '6', '7', '8', '9':
 			l.s.Unread()
-- 
2.43.0


From 2c249a08f05af9966f499f001aff9ab2159d6c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:45 +0000
Subject: [PATCH 11/57] fix: value numbers that are out of range or have a
 leading zero

---
 ecmascript/lexer/lexer.go | 25 ++++++++++++++++++++++++-
 ecmascript/lexer/token.go | 15 ++++++++++-----
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index d391185..b087d9f 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -390,6 +390,29 @@ func (l *Lexer) consumeDecimalTail(lit *strings.Builder) string {
 	return lit.String()
 }
 
+// consumeLegacyPart consumes the rest of the digits of a number with a leading
+// zero. Such a number is octal and has no fraction or exponent, unless it has
+// a digit that is not octal.
+func (l *Lexer) consumeLegacyPart(lit *strings.Builder) string {
+	octal := true
+	for {
+		r := l.s.Read()
+		if !isDecimalDigit(r) {
+			l.s.Unread()
+			break
+		}
+		if !isOctalDigit(r) {
+			octal = false
+		}
+		lit.WriteRune(r)
+	}
+
+	if octal {
+		return lit.String()
+	}
+	return l.consumeDecimalTail(lit)
+}
+
 func (l *Lexer) consumeFractionalPart(lit *strings.Builder) string {
 	if lit == nil {
 		lit = &strings.Builder{}
@@ -593,7 +616,7 @@ func (l *Lexer) consumeNextToken() Token {
 				})
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				l.s.Unread()
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalPart(lit)}
+				return Token{Type: TokenLiteralNumber, Literal: l.consumeLegacyPart(lit)}
 			default:
 				l.s.Unread()
 				return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalTail(lit)}
diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 7abb374..67ffe21 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -1,7 +1,9 @@
 package lexer
 
 import (
+	"errors"
 	"fmt"
+	"math/big"
 	"strconv"
 )
 
@@ -387,13 +389,16 @@ func (t Token) StringConstant() string {
 
 // NumberConstant returns the parsed value for a numeric constant.
 func (t Token) NumberConstant() float64 {
-	// TODO: lexer should be parsing numbers accurately
-	if v, err := strconv.ParseFloat(t.Literal, 64); err == nil {
+	// Integers, possibly with a radix prefix. Like in ECMAScript, a leading
+	// zero makes a number octal, unless it has a digit that is not octal.
+	if i, ok := new(big.Int).SetString(t.Literal, 0); ok {
+		v, _ := new(big.Float).SetInt(i).Float64()
 		return v
 	}
-	v, err := strconv.ParseInt(t.Literal, 0, 64)
-	if err != nil {
+	// Out of range numbers are rounded to zero or infinity.
+	v, err := strconv.ParseFloat(t.Literal, 64)
+	if err != nil && !errors.Is(err, strconv.ErrRange) {
 		panic(err)
 	}
-	return float64(v)
+	return v
 }
-- 
2.43.0


From 6933355d17b18317d19b51902ba2b76bc186ef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:47 +0000
Subject: [PATCH 12/57] fix: lex and value BigInt literals other than 0n

---
 ecmascript/lexer/lexer.go | 17 +++++++++++++++++
 ecmascript/lexer/token.go |  3 ++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index b087d9f..e2f388a 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -252,6 +252,7 @@ func (l *Lexer) consumeBinaryPart(lit *strings.Builder) string {
 		}
 	}
 
+	l.consumeBigIntSuffix(lit)
 	return lit.String()
 }
 
@@ -290,6 +291,7 @@ func (l *Lexer) consumeOctalPart(lit *strings.Builder) string {
 		}
 	}
 
+	l.consumeBigIntSuffix(lit)
 	return lit.String()
 }
 
@@ -328,6 +330,7 @@ func (l *Lexer) consumeHexPart(lit *strings.Builder) string {
 		}
 	}
 
+	l.consumeBigIntSuffix(lit)
 	return lit.String()
 }
 
@@ -365,9 +368,23 @@ func (l *Lexer) consumeDecimalPart(lit *strings.Builder) string {
 		}
 	}
 
+	if l.consumeBigIntSuffix(lit) {
+		return lit.String()
+	}
 	return l.consumeDecimalTail(lit)
 }
 
+// consumeBigIntSuffix consumes the suffix of a BigInt, if there is one.
+func (l *Lexer) consumeBigIntSuffix(lit *strings.Builder) bool {
+	r := l.s.Read()
+	if r != 'n' {
+		l.s.Unread()
+		return false
+	}
+	lit.WriteRune(r)
+	return true
+}
+
 // consumeDecimalTail consumes what may follow the integer digits of a decimal
 // number: a fraction, and an exponent.
 func (l *Lexer) consumeDecimalTail(lit *strings.Builder) string {
diff --git a/ecmascript/lexer/token.go b/ecmascript/lexer/token.go
index 67ffe21..a9f9a0e 100644
--- a/ecmascript/lexer/token.go
+++ b/ecmascript/lexer/token.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math/big"
 	"strconv"
+	"strings"
 )
 
 // TokenType is an enumeration of possible token types.
@@ -391,7 +392,7 @@ func (t Token) StringConstant() string {
 func (t Token) NumberConstant() float64 {
 	// Integers, possibly with a radix prefix. Like in ECMAScript, a leading
 	// zero makes a number octal, unless it has a digit that is not octal.
-	if i, ok := new(big.Int).SetString(t.Literal, 0); ok {
+	if i, ok := new(big.Int).SetString(strings.TrimSuffix(t.Literal, "n"), 0); ok {
 		v, _ := new(big.Float).SetInt(i).Float64()
 		return v
 	}
-- 
2.43.0


From 20306bb0008b5d02012e7af0f836b0c579a64590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:49 +0000
Subject: [PATCH 13/57] fix: reject numbers directly followed by an identifier
 or a digit

---
 ecmascript/lexer/lexer.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/ecmascript/lexer/lexer.go b/ecmascript/lexer/lexer.go
index e2f388a..88eac03 100644
--- a/ecmascript/lexer/lexer.go
+++ b/ecmascript/lexer/lexer.go
@@ -512,6 +512,20 @@ func (l *Lexer) consumeExponentPart(lit *strings.Builder) {
 	}
 }
 
+// endNumber returns the token for a number, which an identifier or another
+// number may not follow directly.
+func (l *Lexer) endNumber(lit string) Token {
+	r := l.s.Read()
+	if isIdentifierStart(r) || isDecimalDigit(r) {
+		panic(&errs.SyntaxError{
+			Location: l.s.Location(),
+			Err:      fmt.Errorf("unexpected %q directly after number", r),
+		})
+	}
+	l.s.Unread()
+	return Token{Type: TokenLiteralNumber, Literal: lit}
+}
+
 func (l *Lexer) consumeStringLiteral() Token {
 	quo := l.s.Read()
 	if quo != '\'' && quo != '"' {
@@ -596,7 +610,7 @@ func (l *Lexer) consumeNextToken() Token {
 				l.s.Unread()
 				lit := &strings.Builder{}
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeFractionalPart(lit)}
+				return l.endNumber(l.consumeFractionalPart(lit))
 			default:
 				l.s.Unread()
 				return Token{Type: TokenPunctuatorDot}
@@ -607,25 +621,25 @@ func (l *Lexer) consumeNextToken() Token {
 			r = l.s.Read()
 			switch r {
 			case 'n':
-				return Token{Type: TokenLiteralNumber, Literal: "0n"}
+				return l.endNumber("0n")
 			case 'b':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeBinaryPart(lit)}
+				return l.endNumber(l.consumeBinaryPart(lit))
 			case 'B':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeBinaryPart(lit)}
+				return l.endNumber(l.consumeBinaryPart(lit))
 			case 'o':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeOctalPart(lit)}
+				return l.endNumber(l.consumeOctalPart(lit))
 			case 'O':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeOctalPart(lit)}
+				return l.endNumber(l.consumeOctalPart(lit))
 			case 'x':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeHexPart(lit)}
+				return l.endNumber(l.consumeHexPart(lit))
 			case 'X':
 				lit.WriteRune(r)
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeHexPart(lit)}
+				return l.endNumber(l.consumeHexPart(lit))
 			case '_':
 				panic(&errs.SyntaxError{
 					Location: l.s.Location(),
@@ -633,14 +647,14 @@ func (l *Lexer) consumeNextToken() Token {
 				})
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 				l.s.Unread()
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeLegacyPart(lit)}
+				return l.endNumber(l.consumeLegacyPart(lit))
 			default:
 				l.s.Unread()
-				return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalTail(lit)}
+				return l.endNumber(l.consumeDecimalTail(lit))
 			}
 		case '1', '2', '3', '4', '5', '6', '7', '8', '9':
 			l.s.Unread()
-			return Token{Type: TokenLiteralNumber, Literal: l.consumeDecimalPart(nil)}
+			return l.endNumber(l.consumeDecimalPart(nil))
 		case ';':
 			return Token{Type: TokenPunctuatorSemicolon}
 		case ',':
-- 
2.43.0


From 07ec9168eb7495349b39fe59369ba39a1c8f3d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 14/57] fix: re-panic with the recovered value instead of a nil
 error

---
 ecmascript/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/parser.go b/ecmascript/parser/parser.go
index c43a3fe..ecf5288 100644
--- a/ecmascript/parser/parser.go
+++ b/ecmascript/parser/parser.go
@@ -50,7 +50,7 @@ func (p *Parser) Parse(opt ParseOptions) (n ast.Node, err error) {
 			case *errs.ParserError:
 				err = t
 			default:
-				panic(err)
+				panic(r)
 			}
 		}
 	}()
-- 
2.43.0


From 067e3553cbe1e08094bc2665c08098f60dce8154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 15/57] fix: record the location of each token that is peeked

---
 ecmascript/parser/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/scanner.go b/ecmascript/parser/scanner.go
index 9bbe68f..2d13d46 100644
--- a/ecmascript/parser/scanner.go
+++ b/ecmascript/parser/scanner.go
@@ -34,7 +34,7 @@ func (s *Scanner) Location() ast.Location {
 // up to i tokens into the future.
 func (s *Scanner) PeekAt(i int) lexer.Token {
 	for len(s.last) <= i {
-		s.loc = append(s.loc, s.Location())
+		s.loc = append(s.loc, s.l.Location())
 		s.last = append(s.last, s.l.Lex())
 	}
 	return s.last[i]
-- 
2.43.0


From f87829d01cc93abbb3d81cd98f904f887edb73b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:30 +0000
Subject: [PATCH 16/57] fix: report unsupported syntax as a syntax error
 instead of panicking

---
 ecmascript/parser/expression.go | 2 +-
 ecmascript/parser/module.go     | 3 ++-
 ecmascript/parser/statement.go  | 6 ++++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 774039a..5ec7b62 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -235,7 +235,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		m.SetEnd(p.s.Location())
 		n = m
 	case lexer.TokenLiteralTemplate:
-		panic("unimplemented: template literal")
+		p.s.SyntaxError("template literals are not supported")
 	case lexer.TokenPunctuatorOpenParen:
 		// Tricky: this could be a parenthesized expression, or the parameter
 		// list of an arrow function. To avoid look-ahead, the parser will
diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 5d3165f..23bb957 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -123,5 +123,6 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 }
 
 func (p *Parser) parseExportDecl() ast.Node {
-	panic("unimplemented")
+	p.s.SyntaxError("export declarations are not supported")
+	return nil
 }
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index e52d175..970927b 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -564,7 +564,8 @@ func (p *Parser) parseReturnStatement() ast.Node {
 }
 
 func (p *Parser) parseWithStatement() ast.Node {
-	panic("unimplemented")
+	p.s.SyntaxError("with statements are not supported")
+	return nil
 }
 
 func (p *Parser) parseThrowStatement() ast.Node {
@@ -624,7 +625,8 @@ func (p *Parser) parseCatchParameter() ast.BindingPattern {
 }
 
 func (p *Parser) parseDebuggerStatement() ast.Node {
-	panic("unimplemented")
+	p.s.SyntaxError("debugger statements are not supported")
+	return nil
 }
 
 func (p *Parser) parseLabelledStatement() ast.Node {
-- 
2.43.0


From 343b8924b4d7736304c19b893c0aac11779e93d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 17/57] fix: look for temporal nodes in holes, shorthand
 properties and initializers

---
 ecmascript/ast/expressions.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 341bec4..7bb593e 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -25,7 +25,7 @@ func (n ArrayExpression) ESTree() interface{} {
 // children.
 func (n ArrayExpression) ContainsTemporalNodes() bool {
 	for _, elem := range n.Elements {
-		if elem.ContainsTemporalNodes() {
+		if elem != nil && elem.ContainsTemporalNodes() {
 			return true
 		}
 	}
@@ -396,7 +396,10 @@ func (n ObjectExpression) ESTree() interface{} {
 // children.
 func (n ObjectExpression) ContainsTemporalNodes() bool {
 	for _, prop := range n.Properties {
-		if prop.Key.ContainsTemporalNodes() || prop.Value.ContainsTemporalNodes() {
+		if prop.DestructureInit != nil || prop.Key.ContainsTemporalNodes() {
+			return true
+		}
+		if prop.Value != nil && prop.Value.ContainsTemporalNodes() {
 			return true
 		}
 	}
-- 
2.43.0


From 5890517476b8bcf299c9572e3aafe92ec168dbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 18/57] fix: require the statements inside of compound
 statements

---
 ecmascript/parser/statement.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 970927b..a8cfbac 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -98,6 +98,15 @@ func (p *Parser) parseStatement() ast.Node {
 	return nil
 }
 
+// parseSubStatement parses a statement where one is required.
+func (p *Parser) parseSubStatement() ast.Node {
+	n := p.parseStatement()
+	if n == nil {
+		p.s.SyntaxError("expected statement")
+	}
+	return n
+}
+
 func (p *Parser) parseExpressionStatement() ast.Node {
 	expr := p.parseExpression(exprOrderComma, 0)
 	n := ast.ExpressionStatement{Expression: expr}
@@ -362,10 +371,10 @@ func (p *Parser) parseIfStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` after `if`")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-	n.Consequent = p.parseStatement()
+	n.Consequent = p.parseSubStatement()
 	if p.s.PeekAt(0).Type == lexer.TokenKeywordElse {
 		p.s.ScanExpect(lexer.TokenKeywordElse, "expected `else`")
-		n.Alternate = p.parseStatement()
+		n.Alternate = p.parseSubStatement()
 	}
 	return n
 }
@@ -376,7 +385,7 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	defer p.setEnd(&n)
 
 	p.s.ScanExpect(lexer.TokenKeywordDo, "expected `do` statement")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	p.s.ScanExpect(lexer.TokenKeywordWhile, "expected `while` in do/while statement")
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
@@ -394,7 +403,7 @@ func (p *Parser) parseWhileStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
 
@@ -429,7 +438,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-			m.Body = p.parseStatement()
+			m.Body = p.parseSubStatement()
 			p.setEnd(&m)
 			return m
 
@@ -441,7 +450,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-			m.Body = p.parseStatement()
+			m.Body = p.parseSubStatement()
 			p.setEnd(&m)
 			return m
 		}
@@ -456,7 +465,7 @@ func (p *Parser) parseForStatement() ast.Node {
 		n.Update = p.parseExpression(exprOrderComma, 0)
 	}
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
 
@@ -636,6 +645,6 @@ func (p *Parser) parseLabelledStatement() ast.Node {
 
 	n.Label = p.scanIdent("expected statement label")
 	p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:` after statement label")
-	n.Body = p.parseStatement()
+	n.Body = p.parseSubStatement()
 	return n
 }
-- 
2.43.0


From e4a257a5488384045150f752278f0fc5913c8f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:35 +0000
Subject: [PATCH 19/57] fix: do not loop forever on unexpected tokens inside of
 switch

---
 ecmascript/parser/statement.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index a8cfbac..50df226 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -494,7 +494,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 				case lexer.TokenKeywordCase, lexer.TokenKeywordDefault, lexer.TokenPunctuatorCloseBrace:
 					break caseStatements
 				default:
-					c.Consequent = append(c.Consequent, p.parseStatement())
+					c.Consequent = append(c.Consequent, p.parseStatementItem())
 				}
 			}
 			n.Cases = append(n.Cases, c)
@@ -509,7 +509,7 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 				case lexer.TokenKeywordCase, lexer.TokenKeywordDefault, lexer.TokenPunctuatorCloseBrace:
 					break defaultStatements
 				default:
-					c.Consequent = append(c.Consequent, p.parseStatement())
+					c.Consequent = append(c.Consequent, p.parseStatementItem())
 				}
 			}
 			n.Cases = append(n.Cases, c)
@@ -517,6 +517,9 @@ func (p *Parser) parseSwitchStatement() ast.Node {
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected `}`")
 			return n
+
+		default:
+			p.s.SyntaxError("expected `case`, `default` or `}`")
 		}
 	}
 }
-- 
2.43.0


From 6f6f67771dc485d3fa0dbbdc53c2b9f8cd4037cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:37 +0000
Subject: [PATCH 20/57] fix: do not insert semicolons inside of a for header

---
 ecmascript/parser/statement.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 50df226..21490ce 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -420,7 +420,7 @@ func (p *Parser) parseForStatement() ast.Node {
 	// TODO: let, const, more of/in cases, etc.
 	if t.Type == lexer.TokenPunctuatorSemicolon {
 		n.Init = nil
-		p.expectSemicolon()
+		p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	} else {
 		var v ast.Node
 		if t.Type == lexer.TokenKeywordVar {
@@ -455,12 +455,12 @@ func (p *Parser) parseForStatement() ast.Node {
 			return m
 		}
 		n.Init = v
-		p.expectSemicolon()
+		p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	}
 	if p.s.PeekAt(0).Type != lexer.TokenPunctuatorSemicolon {
 		n.Test = p.parseExpression(exprOrderComma, 0)
 	}
-	p.expectSemicolon()
+	p.s.ScanExpect(lexer.TokenPunctuatorSemicolon, "expected `;`")
 	if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseParen {
 		n.Update = p.parseExpression(exprOrderComma, 0)
 	}
-- 
2.43.0


From 517624d4a0d894964ce78a66b908d5838361f5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 21/57] fix: iterate for/of over an assignment expression

---
 ecmascript/parser/statement.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 21490ce..7c0c0ca 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -446,7 +446,7 @@ func (p *Parser) parseForStatement() ast.Node {
 			p.s.ScanExpect(lexer.TokenKeywordOf, "expected `of`")
 			m := ast.ForOfStatement{
 				Left:  v,
-				Right: p.parseExpression(exprOrderComma, 0),
+				Right: p.parseExpression(exprOrderAssign, 0),
 			}
 			m.SetStart(n.Span().Start)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-- 
2.43.0


From 304b930b6000c443824c9a8e4c3b4b10884b787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 22/57] fix: insert semicolons after do/while and after return
 at end of input

---
 ecmascript/parser/statement.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 7c0c0ca..364cbc6 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -390,7 +390,10 @@ func (p *Parser) parseDoWhileStatement() ast.Node {
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected `(` in `while` of do/while statement")
 	n.Test = p.parseExpression(exprOrderComma, 0)
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)` in `while` of do/while statement")
-	p.expectSemicolon()
+	// A semicolon is always inserted at the end of a do/while statement.
+	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorSemicolon {
+		p.s.Scan()
+	}
 	return n
 }
 
@@ -565,7 +568,7 @@ func (p *Parser) parseReturnStatement() ast.Node {
 
 	p.s.ScanExpect(lexer.TokenKeywordReturn, "expected return statement")
 	t := p.s.PeekAt(0)
-	if t.NewLine || t.Type == lexer.TokenPunctuatorSemicolon || t.Type == lexer.TokenPunctuatorCloseBrace {
+	if t.NewLine || t.Type == lexer.TokenPunctuatorSemicolon || t.Type == lexer.TokenPunctuatorCloseBrace || t.Type == lexer.TokenNone {
 		p.expectSemicolon()
 		return n
 	}
-- 
2.43.0


From a0c6a74718fad60436c39a442101bc5759515cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:41 +0000
Subject: [PATCH 23/57] fix: reject tokens that are not a binding as catch
 parameter

---
 ecmascript/parser/statement.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index 364cbc6..f1e4594 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -635,6 +635,8 @@ func (p *Parser) parseCatchParameter() ast.BindingPattern {
 		b.ArrayPattern = p.parseArrayBindingPatternTail()
 	case lexer.TokenPunctuatorOpenBrace:
 		b.ObjectPattern = p.parseObjectBindingPatternTail()
+	default:
+		p.s.SyntaxError(fmt.Sprintf("unexpected token in catch parameter: %s", t.Source()))
 	}
 	return b
 }
-- 
2.43.0


From 27fea77eb83a93ce758051f10463ea870ba1cf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 24/57] fix: reject unexpected tokens in import lists

---
 ecmascript/parser/module.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecmascript/parser/module.go b/ecmascript/parser/module.go
index 23bb957..b9166d1 100644
--- a/ecmascript/parser/module.go
+++ b/ecmascript/parser/module.go
@@ -106,7 +106,11 @@ func (p *Parser) parseImportDecl() ast.ImportDeclNode {
 					break importList
 				case lexer.TokenPunctuatorComma:
 					n.NamedImports = append(n.NamedImports, item)
+				default:
+					p.s.SyntaxError(fmt.Sprintf("expected `,` or `}` in import list, got %q", t.Source()))
 				}
+			default:
+				p.s.SyntaxError(fmt.Sprintf("expected `,`, `as` or `}` in import list, got %q", t.Source()))
 			}
 		}
 
-- 
2.43.0


From 42091a487af7a0a020dbd99032271c8314e88899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 25/57] fix: require commas between array elements and between
 arguments

---
 ecmascript/parser/expression.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 5ec7b62..fd9d4d7 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -824,12 +824,10 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 		} else {
 			n.Elements = append(n.Elements, p.parseExpression(exprOrderAssign, flags))
 		}
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
-			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,`")
-		}
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBracket {
 			break
 		}
+		p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` or `]`")
 	}
 
 	p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
@@ -1113,8 +1111,8 @@ func (p *Parser) parseArguments() []ast.Node {
 			m = ast.SpreadElement{Argument: m}
 		}
 		n = append(n, m)
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorComma {
-			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,`")
+		if p.s.PeekAt(0).Type != lexer.TokenPunctuatorCloseParen {
+			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` or `)`")
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseParen {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseParen, "expected `)`")
-- 
2.43.0


From c1464579c840c2fce01cbdb306333b73ab16ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 26/57] fix: parse | as bitwise or

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index fd9d4d7..b4a54a9 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -523,7 +523,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorBitOr {
 			p.s.ScanExpect(lexer.TokenPunctuatorBitOr, "expected `|` operator")
-			n = wrapbinary(ast.BinaryBitXorOp, exprOrderBitwiseXor)
+			n = wrapbinary(ast.BinaryBitOrOp, exprOrderBitwiseXor)
 			continue
 		}
 		if order >= exprOrderBitwiseOr {
-- 
2.43.0


From 3028d3a01cfa41a307bfaab91a5d01e67495f823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 27/57] fix: keep arrow function placeholders out of
 expressions

---
 ecmascript/parser/expression.go | 37 ++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index b4a54a9..64fcbda 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -65,6 +65,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 	}
 
+	// Operands can not be arrow function parameters; only entire elements of the
+	// parenthesized list can be.
+	listFlags := flags
+	flags &^= exprFlagMaybeArrow
+
 	var n ast.Node
 	s := p.s.Location()
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
@@ -198,9 +203,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	case lexer.TokenLiteralString:
 		n = ast.StringLiteral{Value: t.StringConstant(), Raw: t.Literal}
 	case lexer.TokenPunctuatorOpenBracket:
-		n = p.parseArrayTail(s, flags&exprFlagMaybeArrow)
+		n = p.parseArrayTail(s, listFlags&exprFlagMaybeArrow)
 	case lexer.TokenPunctuatorOpenBrace:
-		n = p.parseObjectTail(s, flags&exprFlagMaybeArrow)
+		n = p.parseObjectTail(s, listFlags&exprFlagMaybeArrow)
 	case lexer.TokenKeywordFunction:
 		n = p.parseFunctionExpressionTail(s, false)
 	case lexer.TokenKeywordNew:
@@ -290,6 +295,16 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return m
 	}
 
+	// Something that can only be an arrow function parameter must be an entire
+	// element of the list.
+	if n.ContainsTemporalNodes() {
+		switch p.s.PeekAt(0).Type {
+		case lexer.TokenPunctuatorComma, lexer.TokenPunctuatorCloseParen:
+		default:
+			p.s.SyntaxError("expected `,` or `)`")
+		}
+	}
+
 	if order >= exprOrderPrimaryExpr {
 		return n
 	}
@@ -642,13 +657,13 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		if t.Type == lexer.TokenPunctuatorComma {
 			p.s.ScanExpect(lexer.TokenPunctuatorComma, "expected `,` operator")
 			if seq, ok := n.(ast.SequenceExpression); ok {
-				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags))
+				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, listFlags))
 				n = seq
 			} else {
 				seq := ast.SequenceExpression{Expressions: []ast.Node{n}}
 				seq.SetStart(s)
 				seq.SetEnd(p.s.Location())
-				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, flags))
+				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, listFlags))
 				n = seq
 			}
 			continue
@@ -783,6 +798,12 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 }
 
 func (p *Parser) convertExprToCallParams(inner ast.Node) []ast.Node {
+	if _, ok := inner.(ast.TemporalEmptyArrowHead); ok {
+		return []ast.Node{}
+	}
+	if inner.ContainsTemporalNodes() {
+		p.s.SyntaxError("expected `=>` operator")
+	}
 	if args, ok := inner.(ast.SequenceExpression); ok {
 		return args.Expressions
 	} else {
@@ -822,7 +843,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 			n.Elements = append(n.Elements, rest)
 			break
 		} else {
-			n.Elements = append(n.Elements, p.parseExpression(exprOrderAssign, flags))
+			n.Elements = append(n.Elements, p.parseExpression(exprOrderAssign, 0))
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBracket {
 			break
@@ -969,7 +990,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case lexer.TokenPunctuatorOpenBracket:
 			// Computed identifier.
 			prop.Computed = true
-			prop.Key = p.parseExpression(exprOrderComma, flags)
+			prop.Key = p.parseExpression(exprOrderComma, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
 
 		default:
@@ -994,11 +1015,11 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			}
 
 			p.s.ScanExpect(lexer.TokenPunctuatorColon, "expected `:`")
-			prop.Value = p.parseExpression(exprOrderAssign, flags)
+			prop.Value = p.parseExpression(exprOrderAssign, 0)
 
 		case flags&exprFlagMaybeArrow != 0 && peek.Type == lexer.TokenPunctuatorAssign:
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected '='")
-			prop.DestructureInit = p.parseExpression(exprOrderAssign, flags)
+			prop.DestructureInit = p.parseExpression(exprOrderAssign, 0)
 
 		case peek.Type == lexer.TokenPunctuatorOpenParen:
 			// Method short-hand property
-- 
2.43.0


From a6ca972bbb2ba9334a1f5785d14fabd67c2b7d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 28/57] fix: do not print to standard output while parsing
 arrow functions

---
 ecmascript/parser/expression.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 64fcbda..e7bdf38 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -742,7 +742,6 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 					break
 				}
 				binding := ast.BindingProperty{}
-				fmt.Printf("prop: %#v\n", prop)
 				if key, ok := prop.Key.(ast.Identifier); ok {
 					binding.PropertyName = key.Name
 				}
-- 
2.43.0


From 517bbbd1e35170625da6feaed9500332261b1f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:28 +0000
Subject: [PATCH 29/57] fix: reject arrow function parameters that would be
 lost or altered

---
 ecmascript/parser/expression.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index e7bdf38..ab47b1c 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -683,6 +683,10 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 	params := ast.FormalParameters{}
 
 	convarg := func(n ast.Node, params *ast.FormalParameters) {
+		if params.RestParameter != "" {
+			p.s.SyntaxError("expected rest parameter to be last")
+		}
+
 		switch t := n.(type) {
 		case ast.Identifier:
 			params.Parameters = append(params.Parameters, ast.BindingElement{
@@ -692,7 +696,7 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 
 		case ast.AssignmentExpression:
 			left, ok := t.Left.(ast.Identifier)
-			if !ok {
+			if !ok || t.Operator != ast.AssignmentOp {
 				p.s.SyntaxError("expected identifier in argument list")
 			}
 			name := left.Name
@@ -715,7 +719,7 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 
 				case ast.AssignmentExpression:
 					left, ok := e.Left.(ast.Identifier)
-					if !ok {
+					if !ok || e.Operator != ast.AssignmentOp {
 						p.s.SyntaxError("expected identifier in argument list")
 					}
 					name := left.Name
@@ -742,16 +746,18 @@ func (p *Parser) convertExprToArrowParams(inner ast.Node) ast.FormalParameters {
 					break
 				}
 				binding := ast.BindingProperty{}
-				if key, ok := prop.Key.(ast.Identifier); ok {
-					binding.PropertyName = key.Name
+				key, ok := prop.Key.(ast.Identifier)
+				if !ok || prop.Computed {
+					p.s.SyntaxError("expected identifier in object destructuring")
 				}
+				binding.PropertyName = key.Name
 				switch key := prop.Value.(type) {
 				case ast.Identifier:
 					binding.Value.Identifier = key.Name
 
 				case ast.AssignmentExpression:
 					left, ok := key.Left.(ast.Identifier)
-					if !ok {
+					if !ok || key.Operator != ast.AssignmentOp {
 						p.s.SyntaxError("expected identifier in argument list")
 					}
 					binding.Value.Identifier = left.Name
-- 
2.43.0


From 1981b819c120a0bd4a2f36bcd34b7030d70add4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:30 +0000
Subject: [PATCH 30/57] fix: only allow identifiers as shorthand properties

---
 ecmascript/parser/expression.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index ab47b1c..04c75e5 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -969,6 +969,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		}
 
 		// Next, handle identifier...
+		shorthand := p.ctx.keywordToIdentifier(t, false).Type == lexer.TokenIdentifier
 		t = p.ctx.keywordToIdentifier(t, true)
 		switch t.Type {
 		case lexer.TokenIdentifier:
@@ -1023,6 +1024,10 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			prop.Value = p.parseExpression(exprOrderAssign, 0)
 
 		case flags&exprFlagMaybeArrow != 0 && peek.Type == lexer.TokenPunctuatorAssign:
+			if !shorthand || async || generator {
+				p.s.SyntaxError("expected identifier before initializer")
+			}
+
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected '='")
 			prop.DestructureInit = p.parseExpression(exprOrderAssign, 0)
 
@@ -1050,9 +1055,9 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case peek.Type == lexer.TokenPunctuatorComma ||
 			peek.Type == lexer.TokenPunctuatorCloseBrace:
 			// Shorthand syntax. We don't need to do anything, but we should
-			// disallow this from happening with a computed property.
-			if prop.Computed {
-				p.s.SyntaxError("shorthand not allowed for computed property")
+			// disallow this from happening with anything but an identifier.
+			if !shorthand {
+				p.s.SyntaxError("shorthand only allowed for identifiers")
 			}
 
 			// We also should not allow this when async/generator is specified.
-- 
2.43.0


From a93541961dde11c972d6a51e9d565992e6257a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:32 +0000
Subject: [PATCH 31/57] fix: do not allow the comma operator in computed
 property names

---
 ecmascript/parser/declaration.go | 2 +-
 ecmascript/parser/expression.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 7f0719d..7309a6f 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -119,7 +119,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 
 		case lexer.TokenPunctuatorOpenBracket:
 			m.Computed = true
-			m.Key = p.parseExpression(exprOrderComma, 0)
+			m.Key = p.parseExpression(exprOrderAssign, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
 
 		default:
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 04c75e5..cfe5ae6 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -996,7 +996,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case lexer.TokenPunctuatorOpenBracket:
 			// Computed identifier.
 			prop.Computed = true
-			prop.Key = p.parseExpression(exprOrderComma, 0)
+			prop.Key = p.parseExpression(exprOrderAssign, 0)
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBracket, "expected `]`")
 
 		default:
-- 
2.43.0


From 123e0218c3cc9e3d3b70326b76d83869c64b6f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:34 +0000
Subject: [PATCH 32/57] fix: do not take ++ or -- after a line break as a
 postfix operator

---
 ecmascript/parser/expression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index cfe5ae6..b62b070 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -399,11 +399,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		// TODO: should add order for update?
-		if t.Type == lexer.TokenPunctuatorIncrement {
+		if t.Type == lexer.TokenPunctuatorIncrement && !t.NewLine {
 			p.s.ScanExpect(lexer.TokenPunctuatorIncrement, "expected `++` operator")
 			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostIncrementOp, Argument: n}, exprOrderUnaryExpr)
 			continue
-		} else if t.Type == lexer.TokenPunctuatorDecrement {
+		} else if t.Type == lexer.TokenPunctuatorDecrement && !t.NewLine {
 			p.s.ScanExpect(lexer.TokenPunctuatorDecrement, "expected `--` operator")
 			n = wrap(&ast.UpdateExpression{Operator: ast.UpdatePostDecrementOp, Argument: n}, exprOrderUnaryExpr)
 			continue
-- 
2.43.0


From b19c8e71a8e3c1bf8497c90e4b76db2998ed6527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 33/57] fix: group ** to the right and reject unary operators
 to its left

---
 ecmascript/parser/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index b62b070..77cb70a 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -414,7 +414,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 
 		if t.Type == lexer.TokenPunctuatorExponent {
 			p.s.ScanExpect(lexer.TokenPunctuatorExponent, "expected `**` operator")
-			n = wrapbinary(ast.BinaryExponentOp, exprOrderUnaryExpr)
+			if _, ok := n.(*ast.UnaryExpression); ok {
+				p.s.SyntaxError("unary operator is ambiguous before `**`")
+			}
+			n = wrapbinary(ast.BinaryExponentOp, exprOrderExponentExpr)
 			continue
 		}
 		if order >= exprOrderExponentExpr {
-- 
2.43.0


From 440b2271895f78a1db314c9ae1a2f082bd6e9fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 34/57] fix: do not mix ?? with && or || without parentheses

---
 ecmascript/parser/expression.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 77cb70a..1cba479 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -105,6 +105,16 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		return m
 	}
 
+	isop := func(ops ...ast.BinaryOperator) bool {
+		b, ok := n.(ast.BinaryExpression)
+		for _, op := range ops {
+			if ok && b.Operator == op {
+				return true
+			}
+		}
+		return false
+	}
+
 	// Can't be Div/DivAssign here, relex as a regex. NOTE: if we are peeked
 	// ahead at this point, this will fail.
 	re := lexer.ReToken{}
@@ -549,6 +559,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		if t.Type == lexer.TokenPunctuatorLogicalAnd {
+			if isop(ast.BinaryCoalesceOp) {
+				p.s.SyntaxError("cannot mix `??` and `&&` without parentheses")
+			}
 			p.s.ScanExpect(lexer.TokenPunctuatorLogicalAnd, "expected `&&` operator")
 			n = wrapbinary(ast.BinaryLogicalAndOp, exprOrderBitwiseOr)
 			continue
@@ -558,12 +571,18 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 
 		if t.Type == lexer.TokenPunctuatorLogicalOr {
+			if isop(ast.BinaryCoalesceOp) {
+				p.s.SyntaxError("cannot mix `??` and `||` without parentheses")
+			}
 			p.s.ScanExpect(lexer.TokenPunctuatorLogicalOr, "expected `||` operator")
 			n = wrapbinary(ast.BinaryLogicalOrOp, exprOrderLogicalAnd)
 			continue
 		} else if t.Type == lexer.TokenPunctuatorNullCoalesce {
+			if isop(ast.BinaryLogicalAndOp, ast.BinaryLogicalOrOp) {
+				p.s.SyntaxError("cannot mix `??` with `&&` or `||` without parentheses")
+			}
 			p.s.ScanExpect(lexer.TokenPunctuatorNullCoalesce, "expected `??` operator")
-			n = wrapbinary(ast.BinaryCoalesceOp, exprOrderLogicalAnd)
+			n = wrapbinary(ast.BinaryCoalesceOp, exprOrderBitwiseOr)
 			continue
 		}
 		if order >= exprOrderLogicalOr {
-- 
2.43.0


From f4d8a70a6057f58094fb3b173756042423855318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 35/57] fix: parse async before a line break or a reserved word
 as an identifier

---
 ecmascript/parser/expression.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 1cba479..39d385e 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -152,12 +152,12 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	case lexer.TokenIdentifier:
 		if t.Literal == "async" {
 			peek := p.s.PeekAt(0)
-			ident := p.ctx.keywordToIdentifier(peek, true)
-			if peek.Type == lexer.TokenKeywordFunction {
+			ident := p.ctx.keywordToIdentifier(peek, false)
+			if peek.Type == lexer.TokenKeywordFunction && !peek.NewLine {
 				// Async function expression
 				p.s.Scan()
 				n = p.parseFunctionExpressionTail(s, false)
-			} else if ident.Type == lexer.TokenIdentifier {
+			} else if ident.Type == lexer.TokenIdentifier && !peek.NewLine {
 				// Async arrow function with bare parameter
 				p.s.Scan()
 				p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected '=>'")
-- 
2.43.0


From 7b772a604150b5a366e179c39e5263c85ebfe723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 36/57] fix: parse generator function expressions and keep the
 async flag

---
 ecmascript/parser/expression.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 39d385e..cc202bc 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -156,7 +156,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			if peek.Type == lexer.TokenKeywordFunction && !peek.NewLine {
 				// Async function expression
 				p.s.Scan()
-				n = p.parseFunctionExpressionTail(s, false)
+				n = p.parseFunctionExpressionTail(s, true)
 			} else if ident.Type == lexer.TokenIdentifier && !peek.NewLine {
 				// Async arrow function with bare parameter
 				p.s.Scan()
@@ -1107,15 +1107,16 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 // Parse traditional function expression
 func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast.FunctionExpression {
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
-	name := ""
-	if t.Type == lexer.TokenIdentifier {
-		name = t.Literal
-		t = p.s.Scan()
-	}
 
 	generator := false
 	if t.Type == lexer.TokenPunctuatorMult {
 		generator = true
+		t = p.ctx.keywordToIdentifier(p.s.Scan(), false)
+	}
+
+	name := ""
+	if t.Type == lexer.TokenIdentifier {
+		name = t.Literal
 		t = p.s.Scan()
 	}
 
-- 
2.43.0


From 220a787e61d93f660bcb1ae95a40c621f8b7a370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 37/57] fix: parse function bodies in the context of the
 function

---
 ecmascript/parser/declaration.go |  4 +-
 ecmascript/parser/expression.go  | 22 +++------
 ecmascript/parser/script.go      |  7 ++-
 ecmascript/parser/statement.go   | 81 +++++++++++++++++++++++---------
 4 files changed, 75 insertions(+), 39 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 7309a6f..aecbcb2 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -25,7 +25,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 	// TODO: generator support
 	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected parameter list following function declaration")
 	params := p.parseParametersTail()
-	body := p.parseBlock()
+	body := p.parseFunctionBody(false, false)
 	n := ast.FunctionDeclaration{
 		ID:     name,
 		Params: params,
@@ -128,7 +128,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 
 		fn := ast.FunctionExpression{}
 		fn.Params = p.parseParameters()
-		fn.Body = p.parseBlock()
+		fn.Body = p.parseFunctionBody(false, false)
 		fn.SetEnd(p.s.Location())
 		m.Value = fn
 
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index cc202bc..5141760 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -163,7 +163,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected '=>'")
 				return ast.FunctionExpression{
 					Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}},
-					Body:   p.parseBlockOrShorthand(),
+					Body:   p.parseArrowBody(true, flags),
 					Arrow:  true,
 					Async:  true,
 				}
@@ -181,7 +181,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					params := p.convertExprToArrowParams(inner)
 					m := ast.FunctionExpression{
 						Params: params,
-						Body:   p.parseBlockOrShorthand(),
+						Body:   p.parseArrowBody(true, flags),
 						Arrow:  true,
 						Async:  true,
 					}
@@ -265,7 +265,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			params := p.convertExprToArrowParams(inner)
 			m := ast.FunctionExpression{
 				Params: params,
-				Body:   p.parseBlockOrShorthand(),
+				Body:   p.parseArrowBody(false, flags),
 				Arrow:  true,
 			}
 			m.SetStart(s)
@@ -289,12 +289,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	// Handle single-parameter bare parameter list.
 	if i, ok := n.(ast.Identifier); ok && p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 		p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
-		var body ast.Node
-		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
-			body = p.parseBlock()
-		} else {
-			body = p.parseExpression(exprOrderConditional, 0)
-		}
+		body := p.parseArrowBody(false, flags)
 		m := ast.FunctionExpression{
 			Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: i.Name}}}},
 			Body:   body,
@@ -1032,7 +1027,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 			// Getter/setter
 			fn := ast.FunctionExpression{}
 			fn.Params = p.parseParameters()
-			fn.Body = p.parseBlock()
+			fn.Body = p.parseFunctionBody(false, false)
 			fn.SetEnd(p.s.Location())
 			prop.Value = fn
 
@@ -1066,7 +1061,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 			fn.SetStart(p.s.Location())
 			fn.Params = p.parseParameters()
-			fn.Body = p.parseBlock()
+			fn.Body = p.parseFunctionBody(async, generator)
 			fn.SetEnd(p.s.Location())
 
 			prop.Value = fn
@@ -1126,10 +1121,7 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 
 	params := p.parseParametersTail()
 
-	wasgen := p.ctx.generator
-	p.ctx.generator = true
-	body := p.parseBlock()
-	p.ctx.generator = wasgen
+	body := p.parseFunctionBody(async, generator)
 
 	m := ast.FunctionExpression{
 		ID:        name,
diff --git a/ecmascript/parser/script.go b/ecmascript/parser/script.go
index a776ba6..3673349 100644
--- a/ecmascript/parser/script.go
+++ b/ecmascript/parser/script.go
@@ -10,11 +10,16 @@ func (p *Parser) parseScript() ast.Node {
 	p.setStart(&m)
 	defer p.setEnd(&m)
 
+	prologue := true
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenNone {
 			break
 		}
-		m.Body = append(m.Body, p.parseStatementItem())
+		stmt := p.parseStatementItem()
+		if prologue {
+			stmt, prologue = p.parseDirective(stmt)
+		}
+		m.Body = append(m.Body, stmt)
 	}
 
 	return m
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index f1e4594..f1ecfd3 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -116,14 +116,6 @@ func (p *Parser) parseExpressionStatement() ast.Node {
 	return n
 }
 
-func (p *Parser) parseBlockOrShorthand() ast.Node {
-	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
-		return p.parseBlock()
-	} else {
-		return p.parseExpression(exprOrderConditional, 0)
-	}
-}
-
 func (p *Parser) parseBlock() ast.BlockStatement {
 	n := ast.BlockStatement{}
 	p.setStart(&n)
@@ -137,29 +129,76 @@ func (p *Parser) parseBlock() ast.BlockStatement {
 		return n
 	}
 
-	ctx := p.ctx
-
-	// Parse first statement so we can parse directives out of it.
-	stmt := p.parseStatementItem()
-	if expr, ok := stmt.(ast.ExpressionStatement); ok {
-		if str, ok := expr.Expression.(ast.StringLiteral); ok {
-			if str.Value == "use strict" {
-				ctx.strictMode = true
-				expr.Directive = "use strict"
-			}
+	for {
+		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
+			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected statement, declaration, or closing brace `}`")
+			break
 		}
-		stmt = expr
+		n.Body = append(n.Body, p.parseStatementItem())
 	}
-	n.Body = append(n.Body, stmt)
 
+	return n
+}
+
+// parseFunctionBody parses the body of a function, inside of which the context
+// is that of the function.
+func (p *Parser) parseFunctionBody(async, generator bool) ast.BlockStatement {
+	n := ast.BlockStatement{}
+	p.setStart(&n)
+	defer p.setEnd(&n)
+
+	ctx := p.ctx
+	p.ctx.async = async
+	p.ctx.generator = generator
+
+	p.s.ScanExpect(lexer.TokenPunctuatorOpenBrace, "expected function body opening brace `{`")
+
+	prologue := true
 	for {
 		if p.s.PeekAt(0).Type == lexer.TokenPunctuatorCloseBrace {
 			p.s.ScanExpect(lexer.TokenPunctuatorCloseBrace, "expected statement, declaration, or closing brace `}`")
 			break
 		}
-		n.Body = append(n.Body, p.parseStatementItem())
+		stmt := p.parseStatementItem()
+		if prologue {
+			stmt, prologue = p.parseDirective(stmt)
+		}
+		n.Body = append(n.Body, stmt)
+	}
+
+	p.ctx = ctx
+
+	return n
+}
+
+// parseDirective makes a directive out of a statement of a directive prologue,
+// and returns whether it was one.
+func (p *Parser) parseDirective(stmt ast.Node) (ast.Node, bool) {
+	expr, ok := stmt.(ast.ExpressionStatement)
+	if !ok {
+		return stmt, false
+	}
+	str, ok := expr.Expression.(ast.StringLiteral)
+	if !ok {
+		return stmt, false
+	}
+	if str.Value == "use strict" {
+		p.ctx.strictMode = true
+		expr.Directive = "use strict"
 	}
+	return expr, true
+}
 
+// parseArrowBody parses the body of an arrow function.
+func (p *Parser) parseArrowBody(async bool, flags exprFlags) ast.Node {
+	if p.s.PeekAt(0).Type == lexer.TokenPunctuatorOpenBrace {
+		return p.parseFunctionBody(async, false)
+	}
+
+	ctx := p.ctx
+	p.ctx.async = async
+	p.ctx.generator = false
+	n := p.parseExpression(exprOrderAssign, flags)
 	p.ctx = ctx
 
 	return n
-- 
2.43.0


From f93dec12d44636d07b3adbe1f6f638205f9c6c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 38/57] fix: parse class bodies as strict code

---
 ecmascript/parser/declaration.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index aecbcb2..56d767e 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -83,6 +83,10 @@ func (p *Parser) parseClassBody() []ast.Node {
 
 	n := []ast.Node{}
 
+	// Class bodies are always strict.
+	ctx := p.ctx
+	p.ctx.strictMode = true
+
 	for {
 		peek := p.s.PeekAt(0)
 		if peek.Type == lexer.TokenPunctuatorCloseBrace {
@@ -135,5 +139,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 		n = append(n, m)
 	}
 
+	p.ctx = ctx
+
 	return n
 }
-- 
2.43.0


From 587add66b52b7217dbf54b2b6f203a00f23786c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:58 +0000
Subject: [PATCH 39/57] fix: only parse arrow functions where an assignment
 expression may appear

---
 ecmascript/parser/expression.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 5141760..52810ee 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -71,6 +71,10 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	flags &^= exprFlagMaybeArrow
 
 	var n ast.Node
+
+	// level is the precedence of n.
+	level := exprOrderPrimaryExpr
+
 	s := p.s.Location()
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
 
@@ -161,7 +165,8 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				// Async arrow function with bare parameter
 				p.s.Scan()
 				p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected '=>'")
-				return ast.FunctionExpression{
+				level = exprOrderAssign
+				n = ast.FunctionExpression{
 					Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: ident.Literal}}}},
 					Body:   p.parseArrowBody(true, flags),
 					Arrow:  true,
@@ -179,6 +184,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					// expression to be a parameter list.
 					p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
 					params := p.convertExprToArrowParams(inner)
+					level = exprOrderAssign
 					m := ast.FunctionExpression{
 						Params: params,
 						Body:   p.parseArrowBody(true, flags),
@@ -263,6 +269,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			// expression to be a parameter list.
 			p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
 			params := p.convertExprToArrowParams(inner)
+			level = exprOrderAssign
 			m := ast.FunctionExpression{
 				Params: params,
 				Body:   p.parseArrowBody(false, flags),
@@ -290,6 +297,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	if i, ok := n.(ast.Identifier); ok && p.s.PeekAt(0).Type == lexer.TokenPunctuatorFatArrow {
 		p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected `=>` operator")
 		body := p.parseArrowBody(false, flags)
+		level = exprOrderAssign
 		m := ast.FunctionExpression{
 			Params: ast.FormalParameters{Parameters: []ast.BindingElement{{Value: ast.BindingPattern{Identifier: i.Name}}}},
 			Body:   body,
@@ -297,7 +305,12 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		}
 		m.SetStart(s)
 		m.SetEnd(p.s.Location())
-		return m
+		n = m
+	}
+
+	// An arrow function can not be an operand.
+	if order > level {
+		invalidprimary()
 	}
 
 	// Something that can only be an arrow function parameter must be an entire
@@ -317,6 +330,12 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 	for {
 		// exprOrderLHSExpr
 		t = p.s.PeekAt(0)
+
+		// Nothing but a comma may follow an arrow function.
+		if level <= exprOrderAssign && t.Type != lexer.TokenPunctuatorComma {
+			break
+		}
+
 		if t.Type == lexer.TokenPunctuatorDot {
 			p.s.ScanExpect(lexer.TokenPunctuatorDot, "expected `.` operator")
 			m := ast.MemberExpression{
-- 
2.43.0


From 968a9988ea8cbecb68852ba262b80ca39721d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:59 +0000
Subject: [PATCH 40/57] fix: only update, call, access and assign to left hand
 side expressions

---
 ecmascript/parser/expression.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 52810ee..32c5425 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -86,6 +86,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		if order > precedence {
 			invalidprimary()
 		}
+		level = precedence
 		n.SetStart(s)
 		n.SetEnd(p.s.Location())
 		return n
@@ -95,6 +96,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		m := ast.BinaryExpression{Operator: op}
 		m.Left = n
 		m.Right = p.parseExpression(next, flags)
+		level = next
 		m.SetStart(s)
 		m.SetEnd(p.s.Location())
 		return m
@@ -104,6 +106,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		m := ast.AssignmentExpression{Operator: op}
 		m.Left = n
 		m.Right = p.parseExpression(next, flags)
+		level = exprOrderAssign
 		m.SetStart(s)
 		m.SetEnd(p.s.Location())
 		return m
@@ -331,11 +334,23 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		// exprOrderLHSExpr
 		t = p.s.PeekAt(0)
 
-		// Nothing but a comma may follow an arrow function.
-		if level <= exprOrderAssign && t.Type != lexer.TokenPunctuatorComma {
+		// Nothing but a comma may follow an arrow function, an assignment or a
+		// conditional expression.
+		if level <= exprOrderConditional && t.Type != lexer.TokenPunctuatorComma {
 			break
 		}
 
+		// Only a left hand side expression can be updated, be called or have
+		// its members accessed.
+		if level < exprOrderLHSExpr {
+			switch t.Type {
+			case lexer.TokenPunctuatorDot, lexer.TokenPunctuatorOpenBracket,
+				lexer.TokenPunctuatorOpenParen, lexer.TokenPunctuatorOptionalChain,
+				lexer.TokenPunctuatorIncrement, lexer.TokenPunctuatorDecrement:
+				return n
+			}
+		}
+
 		if t.Type == lexer.TokenPunctuatorDot {
 			p.s.ScanExpect(lexer.TokenPunctuatorDot, "expected `.` operator")
 			m := ast.MemberExpression{
@@ -613,6 +628,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				Consequent: a,
 				Alternate:  b,
 			}
+			level = exprOrderConditional
 			m.SetStart(s)
 			m.SetEnd(p.s.Location())
 			n = m
@@ -622,6 +638,11 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			break
 		}
 
+		// Only a left hand side expression can be assigned to.
+		if level < exprOrderLHSExpr && t.Type != lexer.TokenPunctuatorComma {
+			break
+		}
+
 		if t.Type == lexer.TokenPunctuatorAssign {
 			p.s.ScanExpect(lexer.TokenPunctuatorAssign, "expected `=` operator")
 			n = wrapassign(ast.AssignmentOp, exprOrderAssign)
@@ -702,6 +723,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				seq.Expressions = append(seq.Expressions, p.parseExpression(exprOrderAssign, listFlags))
 				n = seq
 			}
+			level = exprOrderComma
 			continue
 		}
 		if order >= exprOrderComma {
-- 
2.43.0


From 13b09479edd6b8e4504032b15f03a75d4de28bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 41/57] fix: do not parse a call as the callee of new

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 32c5425..822de34 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -175,7 +175,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 					Arrow:  true,
 					Async:  true,
 				}
-			} else if peek.Type == lexer.TokenPunctuatorOpenParen {
+			} else if peek.Type == lexer.TokenPunctuatorOpenParen && order <= exprOrderCallExpr {
 				// Async arrow function with parameter list
 				// OR
 				// Call to function named "async"
-- 
2.43.0


From 2c632e56189a8141b424c83041dab490aa2efc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:08 +0000
Subject: [PATCH 42/57] fix: tell reserved words from identifiers in class
 names and after let

---
 ecmascript/parser/expression.go | 2 +-
 ecmascript/parser/statement.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 822de34..f2192b2 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -240,7 +240,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 		n = m
 	case lexer.TokenKeywordClass:
 		m := ast.ClassExpression{}
-		if p.s.PeekAt(0).Type == lexer.TokenIdentifier {
+		if p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier {
 			m.ID = p.scanIdent("expected class name")
 		}
 		if p.s.PeekAt(0).Type == lexer.TokenKeywordExtends {
diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index f1ecfd3..ae77ca3 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -57,7 +57,7 @@ func (p *Parser) parseStatement() ast.Node {
 			} else if p.s.PeekAt(1).Type == lexer.TokenPunctuatorOpenBrace {
 				// Object destructuring let (let {)
 				return nil
-			} else if p.ctx.keywordToIdentifier(p.s.PeekAt(1), true).Type == lexer.TokenIdentifier {
+			} else if p.ctx.keywordToIdentifier(p.s.PeekAt(1), false).Type == lexer.TokenIdentifier {
 				// Let with identifier (let ident)
 				return nil
 			}
-- 
2.43.0


From 6abe2859f4e5ad6fd645561d23b219875b9d08b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 43/57] fix: name the super class of a class superClass in
 ESTree

---
 ecmascript/ast/declaration.go | 2 +-
 ecmascript/ast/expressions.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/ast/declaration.go b/ecmascript/ast/declaration.go
index 086fc8f..2957a09 100644
--- a/ecmascript/ast/declaration.go
+++ b/ecmascript/ast/declaration.go
@@ -71,7 +71,7 @@ func (n ClassDeclaration) ESTree() interface{} {
 	e := struct {
 		Type       string      `json:"type"`
 		ID         interface{} `json:"id"`
-		SuperClass interface{} `json:"params"`
+		SuperClass interface{} `json:"superClass"`
 		Body       struct {
 			Type string        `json:"type"`
 			Body []interface{} `json:"body"`
diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 7bb593e..59886af 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -479,7 +479,7 @@ func (n ClassExpression) ESTree() interface{} {
 	e := struct {
 		Type       string      `json:"type"`
 		ID         interface{} `json:"id"`
-		SuperClass interface{} `json:"params"`
+		SuperClass interface{} `json:"superClass"`
 		Body       struct {
 			Type string        `json:"type"`
 			Body []interface{} `json:"body"`
-- 
2.43.0


From 8675f024e2fb5d4133e070f88d70323fff85372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 44/57] fix: convert empty bodies to empty lists instead of
 null in ESTree

---
 ecmascript/ast/declaration.go | 1 +
 ecmascript/ast/expressions.go | 1 +
 ecmascript/ast/module.go      | 1 +
 ecmascript/ast/script.go      | 1 +
 ecmascript/ast/statement.go   | 5 +++--
 5 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ecmascript/ast/declaration.go b/ecmascript/ast/declaration.go
index 2957a09..4605d6f 100644
--- a/ecmascript/ast/declaration.go
+++ b/ecmascript/ast/declaration.go
@@ -83,6 +83,7 @@ func (n ClassDeclaration) ESTree() interface{} {
 	}
 
 	e.Body.Type = "ClassBody"
+	e.Body.Body = []interface{}{}
 	for _, elem := range n.Body {
 		e.Body.Body = append(e.Body.Body, estree(elem))
 	}
diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 59886af..4a90ed7 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -491,6 +491,7 @@ func (n ClassExpression) ESTree() interface{} {
 	}
 
 	e.Body.Type = "ClassBody"
+	e.Body.Body = []interface{}{}
 	for _, elem := range n.Body {
 		e.Body.Body = append(e.Body.Body, estree(elem))
 	}
diff --git a/ecmascript/ast/module.go b/ecmascript/ast/module.go
index 4d7c0f6..90f5a39 100644
--- a/ecmascript/ast/module.go
+++ b/ecmascript/ast/module.go
@@ -14,6 +14,7 @@ func (n ModuleNode) ESTree() interface{} {
 		SourceType string        `json:"sourceType"`
 	}{
 		Type:       "Program",
+		Body:       []interface{}{},
 		SourceType: "module",
 	}
 	for _, stmt := range n.Body {
diff --git a/ecmascript/ast/script.go b/ecmascript/ast/script.go
index b6894ae..9f21331 100644
--- a/ecmascript/ast/script.go
+++ b/ecmascript/ast/script.go
@@ -14,6 +14,7 @@ func (n ScriptNode) ESTree() interface{} {
 		SourceType string        `json:"sourceType"`
 	}{
 		Type:       "Program",
+		Body:       []interface{}{},
 		SourceType: "script",
 	}
 	for _, stmt := range n.Body {
diff --git a/ecmascript/ast/statement.go b/ecmascript/ast/statement.go
index 8141a6e..88403d8 100644
--- a/ecmascript/ast/statement.go
+++ b/ecmascript/ast/statement.go
@@ -93,8 +93,9 @@ func (n VariableDeclaration) ESTree() interface{} {
 		Declarations []interface{} `json:"declarations"`
 		Kind         string        `json:"kind"`
 	}{
-		Type: "VariableDeclaration",
-		Kind: estreeVarKindMap[n.Kind], // TODO
+		Type:         "VariableDeclaration",
+		Declarations: []interface{}{},
+		Kind:         estreeVarKindMap[n.Kind], // TODO
 	}
 	for _, decl := range n.Declarations {
 		e.Declarations = append(e.Declarations, decl.ESTree())
-- 
2.43.0


From 931416499a9bc77933418684d36ae50ec80ed0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 45/57] fix: make ?? a logical expression in ESTree

---
 ecmascript/ast/expressions_binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/ast/expressions_binary.go b/ecmascript/ast/expressions_binary.go
index 0d70dba..cd6d992 100644
--- a/ecmascript/ast/expressions_binary.go
+++ b/ecmascript/ast/expressions_binary.go
@@ -232,7 +232,7 @@ type BinaryExpression struct {
 // ESTree returns the corresponding ESTree representation for this node.
 func (n BinaryExpression) ESTree() interface{} {
 	nodeType := "BinaryExpression"
-	if n.Operator == BinaryLogicalAndOp || n.Operator == BinaryLogicalOrOp {
+	if n.Operator == BinaryLogicalAndOp || n.Operator == BinaryLogicalOrOp || n.Operator == BinaryCoalesceOp {
 		nodeType = "LogicalExpression"
 	}
 
-- 
2.43.0


From 144da917356db87dbb5f1f103f40f1054c07b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 46/57] fix: keep the default values of object patterns in
 ESTree

---
 ecmascript/ast/statement.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ecmascript/ast/statement.go b/ecmascript/ast/statement.go
index 88403d8..36d88c6 100644
--- a/ecmascript/ast/statement.go
+++ b/ecmascript/ast/statement.go
@@ -240,6 +240,17 @@ func (n BindingProperty) ESTree() interface{} {
 	if v == nil {
 		v, shorthand = k, true
 	}
+	if n.Init != nil {
+		v = struct {
+			Type  string      `json:"type"`
+			Left  interface{} `json:"left"`
+			Right interface{} `json:"right"`
+		}{
+			Type:  "AssignmentPattern",
+			Left:  v,
+			Right: estree(n.Init),
+		}
+	}
 	return struct {
 		Type      string      `json:"type"`
 		Key       interface{} `json:"key"`
-- 
2.43.0


From cb99eecc3a3db6b308b21e05250317e6ffebf81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:18 +0000
Subject: [PATCH 47/57] fix: set the expression flag of arrow functions in
 ESTree

---
 ecmascript/ast/expressions.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecmascript/ast/expressions.go b/ecmascript/ast/expressions.go
index 4a90ed7..01d13f5 100644
--- a/ecmascript/ast/expressions.go
+++ b/ecmascript/ast/expressions.go
@@ -119,6 +119,10 @@ func (n FunctionExpression) ESTree() interface{} {
 	if n.Arrow {
 		typ = "ArrowFunctionExpression"
 	}
+	expression := n.Expression
+	if _, ok := n.Body.(BlockStatement); n.Arrow && !ok {
+		expression = true
+	}
 	return struct {
 		Type       string      `json:"type"`
 		ID         interface{} `json:"id"`
@@ -133,7 +137,7 @@ func (n FunctionExpression) ESTree() interface{} {
 		Params:     n.Params.ESTree(),
 		Body:       estree(n.Body),
 		Generator:  n.Generator,
-		Expression: n.Expression,
+		Expression: expression,
 		Async:      n.Async,
 	}
 }
-- 
2.43.0


From 2ab4cf87a67b46cf175538b0e4d8c3e39959ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:20 +0000
Subject: [PATCH 48/57] fix: convert import declarations to ESTree

---
 ecmascript/ast/module.go | 70 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 69 insertions(+), 1 deletion(-)

diff --git a/ecmascript/ast/module.go b/ecmascript/ast/module.go
index 90f5a39..c5fb64c 100644
--- a/ecmascript/ast/module.go
+++ b/ecmascript/ast/module.go
@@ -56,7 +56,36 @@ type ImportDeclNode struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n ImportDeclNode) ESTree() interface{} {
-	panic("unimplemented")
+	e := struct {
+		Type       string        `json:"type"`
+		Specifiers []interface{} `json:"specifiers"`
+		Source     interface{}   `json:"source"`
+	}{
+		Type:       "ImportDeclaration",
+		Specifiers: []interface{}{},
+		Source:     estreeModule(n.Module),
+	}
+	if n.DefaultBinding != nil {
+		e.Specifiers = append(e.Specifiers, n.DefaultBinding.ESTree())
+	}
+	if n.NameSpace != nil {
+		e.Specifiers = append(e.Specifiers, n.NameSpace.ESTree())
+	}
+	for _, elem := range n.NamedImports {
+		e.Specifiers = append(e.Specifiers, elem.ESTree())
+	}
+	return e
+}
+
+// estreeModule returns a literal with the given module specifier.
+func estreeModule(module string) interface{} {
+	return struct {
+		Type  string `json:"type"`
+		Value string `json:"value"`
+	}{
+		Type:  "Literal",
+		Value: module,
+	}
 }
 
 // ImportDefaultBinding contains the default import identifier.
@@ -64,13 +93,52 @@ type ImportDefaultBinding struct {
 	Identifier string
 }
 
+// ESTree returns the corresponding ESTree representation for this node.
+func (n ImportDefaultBinding) ESTree() interface{} {
+	return struct {
+		Type  string      `json:"type"`
+		Local interface{} `json:"local"`
+	}{
+		Type:  "ImportDefaultSpecifier",
+		Local: estreeIdent(n.Identifier),
+	}
+}
+
 // NameSpaceImport contains the namespace import identifier.
 type NameSpaceImport struct {
 	Identifier string
 }
 
+// ESTree returns the corresponding ESTree representation for this node.
+func (n NameSpaceImport) ESTree() interface{} {
+	return struct {
+		Type  string      `json:"type"`
+		Local interface{} `json:"local"`
+	}{
+		Type:  "ImportNamespaceSpecifier",
+		Local: estreeIdent(n.Identifier),
+	}
+}
+
 // NamedImport contains an individual named import binding.
 type NamedImport struct {
 	Identifier string
 	AsBinding  string
 }
+
+// ESTree returns the corresponding ESTree representation for this node.
+func (n NamedImport) ESTree() interface{} {
+	local := n.AsBinding
+	if local == "" {
+		local = n.Identifier
+	}
+	return struct {
+		Type     string      `json:"type"`
+		Imported interface{} `json:"imported"`
+		Local    interface{} `json:"local"`
+	}{
+		Type:     "ImportSpecifier",
+		Imported: estreeIdent(n.Identifier),
+		Local:    estreeIdent(local),
+	}
+}
-- 
2.43.0


From 0063dbff7bbc77a9efcc248eb390398fe641d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:54 +0000
Subject: [PATCH 49/57] fix: set the kind of class constructors in ESTree

---
 ecmascript/ast/declaration.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecmascript/ast/declaration.go b/ecmascript/ast/declaration.go
index 4605d6f..96897a2 100644
--- a/ecmascript/ast/declaration.go
+++ b/ecmascript/ast/declaration.go
@@ -118,6 +118,10 @@ type MethodDefinition struct {
 
 // ESTree returns the corresponding ESTree representation for this node.
 func (n MethodDefinition) ESTree() interface{} {
+	kind := estreeMethodKindMap[n.Kind]
+	if key, ok := n.Key.(Identifier); ok && key.Name == "constructor" && n.Kind == Method && !n.Computed && !n.Static {
+		kind = "constructor"
+	}
 	return struct {
 		Type     string      `json:"type"`
 		Key      interface{} `json:"key"`
@@ -130,7 +134,7 @@ func (n MethodDefinition) ESTree() interface{} {
 		Key:      estree(n.Key),
 		Computed: n.Computed,
 		Value:    estree(n.Value),
-		Kind:     estreeMethodKindMap[n.Kind],
+		Kind:     kind,
 		Static:   n.Static,
 	}
 }
-- 
2.43.0


From 8602555638362523d8debf4b429bd53a4648e4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 50/57] fix: keep the line break flag of keywords that become
 identifiers

---
 ecmascript/parser/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/context.go b/ecmascript/parser/context.go
index 51d3cd6..f14ca09 100644
--- a/ecmascript/parser/context.go
+++ b/ecmascript/parser/context.go
@@ -38,5 +38,5 @@ func (ctx *parseContext) keywordToIdentifier(token lexer.Token, force bool) lexe
 		}
 	}
 
-	return lexer.Token{Type: lexer.TokenIdentifier, Literal: token.Literal}
+	return lexer.Token{Type: lexer.TokenIdentifier, Literal: token.Literal, NewLine: token.NewLine}
 }
-- 
2.43.0


From 4f5f4384f8b711ef5b17d2a597a6884a0975780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:13 +0000
Subject: [PATCH 51/57] fix: parse function parameters in the context of the
 function

---
 ecmascript/parser/declaration.go |  5 ++---
 ecmascript/parser/expression.go  | 28 ++++++++++++++++++++--------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/ecmascript/parser/declaration.go b/ecmascript/parser/declaration.go
index 56d767e..a354567 100644
--- a/ecmascript/parser/declaration.go
+++ b/ecmascript/parser/declaration.go
@@ -23,8 +23,7 @@ func (p *Parser) parseFunctionDeclaration() ast.Node {
 	// TODO: support eliding name when in `export default` context.
 	name := p.scanIdent("expected identifier")
 	// TODO: generator support
-	p.s.ScanExpect(lexer.TokenPunctuatorOpenParen, "expected parameter list following function declaration")
-	params := p.parseParametersTail()
+	params := p.parseFunctionParameters(false, false)
 	body := p.parseFunctionBody(false, false)
 	n := ast.FunctionDeclaration{
 		ID:     name,
@@ -131,7 +130,7 @@ func (p *Parser) parseClassBody() []ast.Node {
 		}
 
 		fn := ast.FunctionExpression{}
-		fn.Params = p.parseParameters()
+		fn.Params = p.parseFunctionParameters(false, false)
 		fn.Body = p.parseFunctionBody(false, false)
 		fn.SetEnd(p.s.Location())
 		m.Value = fn
diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index f2192b2..15c59a5 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -1067,7 +1067,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 		case prop.Kind == ast.GetProperty || prop.Kind == ast.SetProperty:
 			// Getter/setter
 			fn := ast.FunctionExpression{}
-			fn.Params = p.parseParameters()
+			fn.Params = p.parseFunctionParameters(false, false)
 			fn.Body = p.parseFunctionBody(false, false)
 			fn.SetEnd(p.s.Location())
 			prop.Value = fn
@@ -1091,25 +1091,19 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 		case peek.Type == lexer.TokenPunctuatorOpenParen:
 			// Method short-hand property
-			ctx := p.ctx
-			p.ctx.async = async
-			p.ctx.generator = generator
-
 			fn := ast.FunctionExpression{
 				Async:     async,
 				Generator: generator,
 			}
 
 			fn.SetStart(p.s.Location())
-			fn.Params = p.parseParameters()
+			fn.Params = p.parseFunctionParameters(async, generator)
 			fn.Body = p.parseFunctionBody(async, generator)
 			fn.SetEnd(p.s.Location())
 
 			prop.Value = fn
 			prop.Method = true
 
-			p.ctx = ctx
-
 		case peek.Type == lexer.TokenPunctuatorComma ||
 			peek.Type == lexer.TokenPunctuatorCloseBrace:
 			// Shorthand syntax. We don't need to do anything, but we should
@@ -1142,11 +1136,17 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 // Parse traditional function expression
 func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast.FunctionExpression {
+	// The name and the parameters belong to the context of the function.
+	ctx := p.ctx
+	p.ctx.async = async
+	p.ctx.generator = false
+
 	t := p.ctx.keywordToIdentifier(p.s.Scan(), false)
 
 	generator := false
 	if t.Type == lexer.TokenPunctuatorMult {
 		generator = true
+		p.ctx.generator = true
 		t = p.ctx.keywordToIdentifier(p.s.Scan(), false)
 	}
 
@@ -1161,6 +1161,7 @@ func (p *Parser) parseFunctionExpressionTail(start ast.Location, async bool) ast
 	}
 
 	params := p.parseParametersTail()
+	p.ctx = ctx
 
 	body := p.parseFunctionBody(async, generator)
 
@@ -1214,6 +1215,17 @@ func (p *Parser) parseParameters() ast.FormalParameters {
 	return p.parseParametersTail()
 }
 
+// parseFunctionParameters parses the parameters of a function, inside of which
+// the context is that of the function.
+func (p *Parser) parseFunctionParameters(async, generator bool) ast.FormalParameters {
+	ctx := p.ctx
+	p.ctx.async = async
+	p.ctx.generator = generator
+	n := p.parseParameters()
+	p.ctx = ctx
+	return n
+}
+
 func (p *Parser) parseParametersTail() ast.FormalParameters {
 	n := ast.FormalParameters{}
 
-- 
2.43.0


From 17a81723bb171cb16b3f706780bf396a3578f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:15 +0000
Subject: [PATCH 52/57] fix: reject await as the bare parameter of an async
 arrow function

---
 ecmascript/parser/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 15c59a5..2816348 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -166,6 +166,9 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 				n = p.parseFunctionExpressionTail(s, true)
 			} else if ident.Type == lexer.TokenIdentifier && !peek.NewLine {
 				// Async arrow function with bare parameter
+				if peek.Type == lexer.TokenKeywordAwait {
+					p.s.SyntaxError("`await` can not be a parameter of an async function")
+				}
 				p.s.Scan()
 				p.s.ScanExpect(lexer.TokenPunctuatorFatArrow, "expected '=>'")
 				level = exprOrderAssign
-- 
2.43.0


From 0d5255c92085ab3eb108afa07f1b7bead2b1c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 53/57] fix: reject reserved words as the rest parameter of an
 arrow function

---
 ecmascript/parser/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 2816348..7a02e37 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -60,7 +60,7 @@ func (p *Parser) parseExpression(order exprOrder, flags exprFlags) ast.Node {
 			// Rest parameter inside of possible arrow function head.
 			p.s.ScanExpect(lexer.TokenPunctuatorEllipsis, "expected `...`")
 			return ast.TemporalFloatingRestElement{
-				Identifier: p.forceScanIdent("unexpected token"),
+				Identifier: p.scanIdent("unexpected token"),
 			}
 		}
 	}
-- 
2.43.0


From c8dce76e8d4734003b2da6e1a616654c44c9bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 54/57] fix: accept words that are not reserved as rest
 elements of patterns in arrow parameters

---
 ecmascript/parser/expression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecmascript/parser/expression.go b/ecmascript/parser/expression.go
index 7a02e37..3b803fc 100644
--- a/ecmascript/parser/expression.go
+++ b/ecmascript/parser/expression.go
@@ -894,7 +894,7 @@ func (p *Parser) parseArrayTail(start ast.Location, flags exprFlags) ast.Node {
 		if flags&exprFlagMaybeArrow != 0 && p.s.PeekAt(0).Type == lexer.TokenPunctuatorEllipsis {
 			p.s.ScanExpect(lexer.TokenPunctuatorEllipsis, "expected `...`")
 			rest := ast.TemporalArrayRestElement{}
-			switch p.s.PeekAt(0).Type {
+			switch p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type {
 			case lexer.TokenPunctuatorCloseBracket:
 				p.s.SyntaxError("expected expression, got ']'")
 			case lexer.TokenPunctuatorOpenBracket:
@@ -947,7 +947,7 @@ func (p *Parser) parseObjectTail(start ast.Location, flags exprFlags) ast.Node {
 
 	parseRest := func() ast.TemporalObjectRestElement {
 		rest := ast.TemporalObjectRestElement{}
-		switch p.s.PeekAt(0).Type {
+		switch p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type {
 		case lexer.TokenPunctuatorCloseBrace:
 			p.s.SyntaxError("expected expression, got '}'")
 		case lexer.TokenIdentifier:
-- 
2.43.0


From f6d4f6a7bd68412669f937c92e83e3a48f2c1c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 55/57] fix: do not take a directive with escape sequences for
 use strict

---
 ecmascript/parser/statement.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index ae77ca3..ecd4430 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -182,7 +182,8 @@ func (p *Parser) parseDirective(stmt ast.Node) (ast.Node, bool) {
 	if !ok {
 		return stmt, false
 	}
-	if str.Value == "use strict" {
+	// An escape sequence in the literal makes it an ordinary directive.
+	if str.Raw == `"use strict"` || str.Raw == `'use strict'` {
 		p.ctx.strictMode = true
 		expr.Directive = "use strict"
 	}
-- 
2.43.0


From a0ef60c9fff24551143b898bf849219edd9fbd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 56/57] fix: accept async and let as labels

---
 ecmascript/parser/statement.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecmascript/parser/statement.go b/ecmascript/parser/statement.go
index ecd4430..af51d8f 100644
--- a/ecmascript/parser/statement.go
+++ b/ecmascript/parser/statement.go
@@ -46,6 +46,10 @@ func (p *Parser) parseStatement() ast.Node {
 		lexer.TokenPunctuatorOpenParen,
 		// These will get relexed as a regexp, so they are valid to begin an expression.
 		lexer.TokenPunctuatorDiv, lexer.TokenPunctuatorDivAssign:
+		// `async` and `let` can be labels, too.
+		if p.ctx.keywordToIdentifier(p.s.PeekAt(0), false).Type == lexer.TokenIdentifier && p.s.PeekAt(1).Type == lexer.TokenPunctuatorColon {
+			return p.parseLabelledStatement()
+		}
 		// Async function declaration (async [no line terminator] function)
 		if p.s.PeekAt(0).Type == lexer.TokenKeywordAsync && p.s.PeekAt(1).Type == lexer.TokenKeywordFunction && !p.s.PeekAt(1).NewLine {
 			return nil
-- 
2.43.0


From 88332784651d5c595164997153cfd767cafc227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 57/57] fix: clear the spans of nodes held in interfaces

---
 ecmascript/ast/node.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ecmascript/ast/node.go b/ecmascript/ast/node.go
index 42bcc75..1cff6e3 100644
--- a/ecmascript/ast/node.go
+++ b/ecmascript/ast/node.go
@@ -60,6 +60,18 @@ func clearSpans(v reflect.Value) {
 	}
 
 	switch v.Kind() {
+	case reflect.Interface:
+		if v.IsNil() {
+			return
+		}
+		// What an interface holds can not be changed in place; clear a copy.
+		e := reflect.New(v.Elem().Type()).Elem()
+		e.Set(v.Elem())
+		clearSpans(e)
+		if v.CanSet() {
+			v.Set(e)
+		}
+
 	case reflect.Array, reflect.Slice:
 		for i := 0; i < v.Len(); i++ {
 			clearSpans(v.Index(i))
-- 
2.43.0

