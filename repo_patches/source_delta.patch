From 58caab2dae055efd8d33f24530da9435d9f28988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 01/22] fix: do not let the characters that open a comment also
 close it

The second hyphen of -- and the star of /* were left in the input, so that
--- and /*/ closed the comment they had just opened.
---
 lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lexer.go b/lexer.go
index 235197c..8d28a30 100644
--- a/lexer.go
+++ b/lexer.go
@@ -131,10 +131,12 @@ func (lex *MyLexer) Lex(lval *yySymType) int {
 			lastWasNumber = false
 			continue
 		} else if r == '-' && lex.peekRune() == '-' {
+			lex.discard(1) // the second hyphen opens the comment, it can not close it
 			lex.skipLineComment()
 			lastWasNumber = false
 			continue
 		} else if r == '/' && lex.peekRune() == '*' {
+			lex.discard(1) // the star opens the comment, it can not close it
 			lex.skipBlockComment()
 			lastWasNumber = false
 			continue
-- 
2.43.0


From 56bb1bae9fff2ca7bfc592765f76daf38de5ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 02/22] fix: report every error of the reader instead of
 looping on it or losing it

Comments and look-ahead spun forever on an error other than EOF, words and
numbers were cut short at it, and an error returned only once was lost.
---
 lexer.go  | 20 ++++++++++----------
 parser.go | 24 +++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/lexer.go b/lexer.go
index 8d28a30..fb8f1f7 100644
--- a/lexer.go
+++ b/lexer.go
@@ -283,7 +283,7 @@ func (lex *MyLexer) peekRunes(n int) string {
 				n -= 1
 				break
 			}
-			if err == io.EOF { // TODO if it is not a full rune, will swallow the error
+			if err != nil { // will be reported when read; if it is not a full rune, rest of it is left unread
 				return acc.String()
 			}
 		}
@@ -303,7 +303,7 @@ func (lex *MyLexer) skipLineComment() {
 	lastIsHyphen := false
 	for {
 		r, _, err := lex.readRune()
-		if isNewline(r) || err == io.EOF {
+		if isNewline(r) || err != nil {
 			return
 		} else if r == '-' {
 			if lastIsHyphen {
@@ -321,7 +321,7 @@ func (lex *MyLexer) skipBlockComment() {
 	lastIsClosingStar := false
 	for {
 		r, _, err := lex.readRune()
-		if err == io.EOF {
+		if err != nil {
 			return
 		}
 		if r == '/' {
@@ -351,6 +351,9 @@ func (lex *MyLexer) consumeWord() (string, error) {
 	lastR := r
 	for {
 		r, _, err := lex.readRune()
+		if err != nil && err != io.EOF {
+			return "", fmt.Errorf("Failed to read: %v", err.Error())
+		}
 		if err == io.EOF || isWhitespace(r) || !isIdentifierChar(r) {
 			label := acc.String()
 			if label[len(label)-1] == '-' {
@@ -361,9 +364,6 @@ func (lex *MyLexer) consumeWord() (string, error) {
 			}
 			return label, nil
 		}
-		if err != nil {
-			return "", fmt.Errorf("failed to read: %v", err.Error())
-		}
 		if !isIdentifierChar(r) {
 			acc.WriteRune(r)
 			return "", fmt.Errorf("expected valid identifier char, got '%c' while reading '%v'", r, acc.String())
@@ -386,6 +386,10 @@ func (lex *MyLexer) consumeNumber(lval *yySymType) int {
 	acc.WriteRune(r)
 	for {
 		r, _, err := lex.readRune()
+		if err != nil && err != io.EOF {
+			lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
+			return -1
+		}
 		if err == io.EOF || !unicode.IsDigit(r) {
 			if err == nil && !unicode.IsDigit(r) {
 				lex.unreadRune()
@@ -400,10 +404,6 @@ func (lex *MyLexer) consumeNumber(lval *yySymType) int {
 			lval.Number = Number(i)
 			return NUMBER
 		}
-		if err != nil {
-			lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
-			return -1
-		}
 		acc.WriteRune(r)
 	}
 }
diff --git a/parser.go b/parser.go
index 47b1bc6..7e35991 100644
--- a/parser.go
+++ b/parser.go
@@ -2,6 +2,7 @@ package asn1go
 
 import (
 	"bufio"
+	"fmt"
 	"io"
 	"math"
 	"os"
@@ -20,14 +21,35 @@ func ParseString(str string) (*ModuleDefinition, error) {
 // ParseStream reads text of ASN.1 definitions from provided reader and parses it into ASN.1 AST.
 func ParseStream(reader io.Reader) (*ModuleDefinition, error) {
 	lex := &MyLexer{}
-	lex.bufReader = bufio.NewReader(reader)
+	source := &stickyErrorReader{reader: reader}
+	lex.bufReader = bufio.NewReader(source)
 	yyParse(lex)
+	if source.err != nil && source.err != io.EOF {
+		// whatever was parsed is only a part of the text
+		lex.Error(fmt.Sprintf("Failed to read: %v", source.err.Error()))
+	}
 	if lex.err != nil {
 		return nil, lex.err
 	}
 	return lex.result, nil
 }
 
+// stickyErrorReader keeps returning the first error of the wrapped reader.
+// Lexer looks ahead of the current token, and relies on getting the same error again when it reaches it.
+type stickyErrorReader struct {
+	reader io.Reader
+	err    error
+}
+
+// Read implements io.Reader.
+func (r *stickyErrorReader) Read(p []byte) (n int, err error) {
+	if r.err != nil {
+		return 0, r.err
+	}
+	n, r.err = r.reader.Read(p)
+	return n, r.err
+}
+
 // ParseFile parses ASN.1 definition file into ASN.1 AST.
 func ParseFile(name string) (*ModuleDefinition, error) {
 	file, err := os.Open(name)
-- 
2.43.0


From 0407f0bc840cba1af21482f9bdc4df63b62387d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 03/22] fix: do not look beyond the buffered input when peeking

A peek cut short by the end of input at the end of the buffer sliced beyond
the buffer's capacity and panicked.
---
 lexer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lexer.go b/lexer.go
index fb8f1f7..ff0a425 100644
--- a/lexer.go
+++ b/lexer.go
@@ -275,9 +275,8 @@ func (lex *MyLexer) peekRunes(n int) string {
 	for n > 0 {
 		for l := 1; l <= utf8.UTFMax; l++ {
 			buf, err := lex.bufReader.Peek(pos + l)
-			slice := buf[pos : pos+l]
-			if pos+l <= len(buf) && utf8.FullRune(slice) {
-				r, size := utf8.DecodeRune(slice)
+			if pos+l <= len(buf) && utf8.FullRune(buf[pos:pos+l]) {
+				r, size := utf8.DecodeRune(buf[pos : pos+l])
 				acc.WriteRune(r)
 				pos += size
 				n -= 1
-- 
2.43.0


From aa400d0788d951e6ca6f4f2472006e7369b92d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 04/22] fix: report a word ending in a hyphen on its own line

The newline after the word had already been counted.
---
 lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lexer.go b/lexer.go
index ff0a425..ff203fe 100644
--- a/lexer.go
+++ b/lexer.go
@@ -355,12 +355,12 @@ func (lex *MyLexer) consumeWord() (string, error) {
 		}
 		if err == io.EOF || isWhitespace(r) || !isIdentifierChar(r) {
 			label := acc.String()
-			if label[len(label)-1] == '-' {
-				return "", fmt.Errorf("token can not end on hyphen, got %v", label)
-			}
 			if err == nil {
 				lex.unreadRune()
 			}
+			if label[len(label)-1] == '-' {
+				return "", fmt.Errorf("token can not end on hyphen, got %v", label)
+			}
 			return label, nil
 		}
 		if !isIdentifierChar(r) {
-- 
2.43.0


From d06f49649eabe1d5e617f88448efd54c4946a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 05/22] fix: keep the lexical error instead of the parser's
 complaint that follows it

---
 lexer.go  | 4 ++++
 parser.go | 1 +
 2 files changed, 5 insertions(+)

diff --git a/lexer.go b/lexer.go
index ff203fe..fbb0cea 100644
--- a/lexer.go
+++ b/lexer.go
@@ -408,7 +408,11 @@ func (lex *MyLexer) consumeNumber(lval *yySymType) int {
 }
 
 // Error implements yyLexer, and is used by the parser to communicate errors.
+// Only the first error is kept: when lexer fails, parser sees end of the input and complains about that as well.
 func (lex *MyLexer) Error(e string) {
+	if lex.err != nil {
+		return
+	}
 	lex.err = fmt.Errorf("line %v: %v", lex.lineNo+1, e)
 }
 
diff --git a/parser.go b/parser.go
index 7e35991..425c8ed 100644
--- a/parser.go
+++ b/parser.go
@@ -26,6 +26,7 @@ func ParseStream(reader io.Reader) (*ModuleDefinition, error) {
 	yyParse(lex)
 	if source.err != nil && source.err != io.EOF {
 		// whatever was parsed is only a part of the text
+		lex.err = nil
 		lex.Error(fmt.Sprintf("Failed to read: %v", source.err.Error()))
 	}
 	if lex.err != nil {
-- 
2.43.0


From 6d65878b9b841060e72bbaf6445423e38706b333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 06/22] fix: reject a block comment that is never closed

---
 lexer.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lexer.go b/lexer.go
index fbb0cea..2ef4417 100644
--- a/lexer.go
+++ b/lexer.go
@@ -3,6 +3,7 @@ package asn1go
 import (
 	"bufio"
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
@@ -137,7 +138,10 @@ func (lex *MyLexer) Lex(lval *yySymType) int {
 			continue
 		} else if r == '/' && lex.peekRune() == '*' {
 			lex.discard(1) // the star opens the comment, it can not close it
-			lex.skipBlockComment()
+			if err := lex.skipBlockComment(); err != nil {
+				lex.Error(err.Error())
+				return -1
+			}
 			lastWasNumber = false
 			continue
 		}
@@ -315,24 +319,29 @@ func (lex *MyLexer) skipLineComment() {
 	}
 }
 
-func (lex *MyLexer) skipBlockComment() {
+func (lex *MyLexer) skipBlockComment() error {
 	lastIsOpeningSlash := false
 	lastIsClosingStar := false
 	for {
 		r, _, err := lex.readRune()
+		if err == io.EOF {
+			return errors.New("comment is not closed")
+		}
 		if err != nil {
-			return
+			return fmt.Errorf("Failed to read: %v", err.Error())
 		}
 		if r == '/' {
 			if lastIsClosingStar {
-				return
+				return nil
 			} else {
 				lastIsOpeningSlash = true
 				continue
 			}
 		} else if r == '*' {
 			if lastIsOpeningSlash {
-				lex.skipBlockComment()
+				if err := lex.skipBlockComment(); err != nil {
+					return err
+				}
 			} else {
 				lastIsClosingStar = true
 				continue
-- 
2.43.0


From 4d300eb38c9e90b6235f9eda6871fd52e28764be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 07/22] fix: keep each DEFAULT value apart from values parsed
 later

The tree pointed into the parser's value stack, which later values overwrite.
---
 asn1.y | 2 +-
 y.go   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1.y b/asn1.y
index e3ebfb9..17d5aca 100644
--- a/asn1.y
+++ b/asn1.y
@@ -735,7 +735,7 @@ ComponentTypeList : ComponentType  { $$ = append(make(ComponentTypeList, 0), $1)
 
 ComponentType : NamedType  { $$ = NamedComponentType{NamedType: $1} }
               | NamedType OPTIONAL  { $$ = NamedComponentType{NamedType: $1, IsOptional: true} }
-              | NamedType DEFAULT Value  { $$ = NamedComponentType{NamedType: $1, Default: &$3} }
+              | NamedType DEFAULT Value  { cpy := $3; $$ = NamedComponentType{NamedType: $1, Default: &cpy} }
               | COMPONENTS OF Type  { $$ = ComponentsOfComponentType{Type: $3} }
 ;
 
diff --git a/y.go b/y.go
index 89762b0..0ed4c7b 100644
--- a/y.go
+++ b/y.go
@@ -1670,7 +1670,8 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:738
 		{
-			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &yyDollar[3].Value}
+			cpy := yyDollar[3].Value
+			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
 	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
-- 
2.43.0


From baa8161b57e904d3acbd049974ad8c4cab3de17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 08/22] fix: keep an OID's leading reference apart from values
 parsed later

The tree pointed into the parser's value stack, which later values overwrite.
---
 asn1.y | 2 +-
 y.go   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1.y b/asn1.y
index 17d5aca..c32c9c4 100644
--- a/asn1.y
+++ b/asn1.y
@@ -825,7 +825,7 @@ ObjectIdentifierType : OBJECT IDENTIFIER  { $$ = ObjectIdentifierType{} }
 // 31.3
 
 ObjectIdentifierValue : OPEN_CURLY ObjIdComponentsList CLOSE_CURLY  { $$ = $2 }
-                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &$2}}, $3...) }
+                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { cpy := $2; $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, $3...) }
 ;
 
 ObjIdComponentsList :  ObjIdComponents  { $$ = ObjectIdentifierValue{$1}  }
diff --git a/y.go b/y.go
index 0ed4c7b..7a09dd6 100644
--- a/y.go
+++ b/y.go
@@ -1875,7 +1875,8 @@ yydefault:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:828
 		{
-			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &yyDollar[2].DefinedValue}}, yyDollar[3].ObjectIdentifierValue...)
+			cpy := yyDollar[2].DefinedValue
+			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From 0bb2a9de1decd0c1312a824f56314ecdc3725acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 09/22] fix: read real numbers exactly

Leading zeros of the fraction were dropped (1.05 was read as 1.5), and
fractions that are a power of ten were scaled wrongly (1.1 was read as 2).
---
 asn1.y    |  6 +++---
 parser.go | 18 +++++++++---------
 y.go      |  6 +++---
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/asn1.y b/asn1.y
index c32c9c4..9bb026c 100644
--- a/asn1.y
+++ b/asn1.y
@@ -648,9 +648,9 @@ SpecialRealValue : PLUS_INFINITY  { $$ = Real(math.Inf(1)) }
 
 // TODO this seem to be not strict enough (spaces can sneak in into composite value)
 realnumber : NUMBER  { $$ = parseRealNumber($1, 0, 0) }
-           | NUMBER DOT NUMBER  { $$ = parseRealNumber($1, $3, 0) }
-           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, $3, $5) }
-           | NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, 0, $3) }
+           | NUMBER DOT NUMBER  { $$ = parseRealLiteral($<numberRepr>1, $<numberRepr>3, 0) }
+           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = parseRealLiteral($<numberRepr>1, $<numberRepr>3, $5) }
+           | NUMBER EXPONENT SignedExponent  { $$ = parseRealLiteral($<numberRepr>1, "0", $3) }
 ;
 
 SignedExponent : NUMBER
diff --git a/parser.go b/parser.go
index 425c8ed..97e463a 100644
--- a/parser.go
+++ b/parser.go
@@ -4,8 +4,8 @@ import (
 	"bufio"
 	"fmt"
 	"io"
-	"math"
 	"os"
+	"strconv"
 	"strings"
 )
 
@@ -62,13 +62,13 @@ func ParseFile(name string) (*ModuleDefinition, error) {
 }
 
 func parseRealNumber(integer Number, fraction Number, exponent Number) Real {
-	value := float64(integer)
-	if fraction != 0 {
-		shift := float64(math.Pow10(int(math.Ceil(math.Log10(float64(fraction))))))
-		value += float64(fraction) / shift
-	}
-	if exponent != 0 {
-		value *= math.Pow10(int(exponent))
-	}
+	return parseRealLiteral(strconv.Itoa(int(integer)), strconv.Itoa(int(fraction)), exponent)
+}
+
+// parseRealLiteral builds a Real from digits of its integer and fraction parts.
+// Leading zeros of the fraction are significant, so it can not be passed as a Number.
+func parseRealLiteral(integer string, fraction string, exponent Number) Real {
+	// the only possible error is ErrRange, and then value is the closest one representable
+	value, _ := strconv.ParseFloat(fmt.Sprintf("%v.%ve%v", integer, fraction, int(exponent)), 64)
 	return Real(value)
 }
diff --git a/y.go b/y.go
index 7a09dd6..b16f2f2 100644
--- a/y.go
+++ b/y.go
@@ -1502,19 +1502,19 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:651
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, 0)
+			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
 	case 115:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line asn1.y:652
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, yyDollar[5].Number)
+			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:653
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, yyDollar[3].Number)
+			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, "0", yyDollar[3].Number)
 		}
 	case 118:
 		yyDollar = yyS[yypt-2 : yypt+1]
-- 
2.43.0


From f1c7b0f7ac06140361a4281d3deae9a1c722ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 10/22] fix: import encoding/asn1 for a CHOICE represented as
 asn1.RawValue

---
 codegen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.go b/codegen.go
index 005441d..e25b6a2 100644
--- a/codegen.go
+++ b/codegen.go
@@ -336,6 +336,7 @@ func numberToExpr(val Number, repr IntegerRepr) goast.Expr {
 
 func (ctx *moduleContext) generateChoiceType(t ChoiceType, isSet *bool) goast.Expr {
 	if ctx.hasTaggedAlternatives(t) {
+		ctx.requireModule("encoding/asn1")
 		return goast.NewIdent("asn1.RawValue")
 	}
 	if len(t.AlternativeTypeList) == 1 {
-- 
2.43.0


From 848f661e8eedd1c85b62e32df0cb34bfc6832b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:59 +0000
Subject: [PATCH 11/22] fix: resolve UTCTime like GeneralizedTime

Every module using UTCTime failed with 'can not resolve TypeReference UTCTime'.
---
 ast.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 075e99d..5ac5cb1 100644
--- a/ast.go
+++ b/ast.go
@@ -729,10 +729,12 @@ const (
 var (
 	// USEFUL_TYPES are defined in X.680, section 41.
 	// These are built-in types that behave like type assignments that are always in scope.
-	// TODO: clarify why UTCTimeName is missing here.
 	USEFUL_TYPES map[string]Type = map[string]Type{
 		GeneralizedTimeName: TaggedType{ // [UNIVERSAL 24] IMPLICIT VisibleString
 			Tag:  Tag{Class: CLASS_UNIVERSAL, ClassNumber: Number(24)},
 			Type: RestrictedStringType{VisibleString}},
+		UTCTimeName: TaggedType{ // [UNIVERSAL 23] IMPLICIT VisibleString
+			Tag:  Tag{Class: CLASS_UNIVERSAL, ClassNumber: Number(23)},
+			Type: RestrictedStringType{VisibleString}},
 	}
 )
-- 
2.43.0


From e5fc39a3adb69041fd8592033c3cc790f09d8a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 12/22] fix: report type references that form a cycle

Generating from A ::= B, B ::= A overflowed the stack.
---
 codegen.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/codegen.go b/codegen.go
index e25b6a2..b5fb95f 100644
--- a/codegen.go
+++ b/codegen.go
@@ -546,13 +546,19 @@ func (ctx *moduleContext) removeWrapperTypes(t Type) Type {
 
 // unwrapToLeafType walks over transitive type references, tags and constraints and yields "root" type reference
 func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignment {
-	if assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name()); assignment != nil {
-		t := assignment.Type
-		if tt, ok := ctx.removeWrapperTypes(t).(TypeReference); ok {
-			return ctx.unwrapToLeafType(tt)
-		} else {
+	visited := make(map[TypeReference]bool)
+	for !visited[reference] {
+		visited[reference] = true
+		assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name())
+		if assignment == nil {
+			break
+		}
+		tt, ok := ctx.removeWrapperTypes(assignment.Type).(TypeReference)
+		if !ok {
 			return *assignment
 		}
+		reference = tt
 	}
+	// either not defined in this module, or defined in terms of itself
 	return TypeAssignment{reference, nil}
 }
-- 
2.43.0


From cb685c55ae2afe17fba216f5f394f04c273cfd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 13/22] fix: look at every step of a reference for tags of a
 CHOICE alternative

Only the last definition of a reference chain was looked at, so that tags on
the way were missed, and an alias of a useful type was taken for a tagged one.
---
 codegen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/codegen.go b/codegen.go
index b5fb95f..8a8dc95 100644
--- a/codegen.go
+++ b/codegen.go
@@ -359,14 +359,14 @@ func (ctx *moduleContext) taggedChoiceTypeAlternative(name Identifier, t Type) b
 	case TaggedType:
 		return true
 	case TypeReference:
-		if t.Name() == GeneralizedTimeName || t.Name() == UTCTimeName {
+		if ctx.resolveTypeReference(t) == nil {
 			return false
 		}
-		realType := ctx.resolveTypeReference(t)
-		if realType == nil {
+		assignment := ctx.lookupContext.AssignmentList.GetType(t.Name())
+		if assignment == nil { // useful type, its own tag does not count
 			return false
 		}
-		return ctx.taggedChoiceTypeAlternative(name, realType.Type)
+		return ctx.taggedChoiceTypeAlternative(name, assignment.Type)
 	case ConstraintedType:
 		return ctx.taggedChoiceTypeAlternative(name, t.Type)
 	default:
-- 
2.43.0


From 7fe143a038a814a10aa64e105139a3cb4b545721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:20 +0000
Subject: [PATCH 14/22] fix: do not declare a SEQUENCE OF sets as a set

SEQUENCE OF SET {...} was named ...SET, which encoding/asn1 encodes as SET OF.
---
 codegen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index 8a8dc95..09e06cf 100644
--- a/codegen.go
+++ b/codegen.go
@@ -247,7 +247,8 @@ func (ctx *moduleContext) generateTypeBody(typeDescr Type, isSet *bool) goast.Ex
 		*isSet = true
 		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)
 	case SequenceOfType:
-		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
+		var elementIsSet bool // does not make a set of the whole list
+		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, &elementIsSet)}
 	case SetOfType:
 		*isSet = true
 		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
-- 
2.43.0


From c6d5df76504d9f19065207a1e0fcc30a52e07a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:44 +0000
Subject: [PATCH 15/22] fix: annotate fields that refer to a SET as set

encoding/asn1 takes the set tag of a struct from the field's annotation only,
so such a field was encoded as a SEQUENCE.
---
 codegen.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index 09e06cf..b831c89 100644
--- a/codegen.go
+++ b/codegen.go
@@ -474,12 +474,17 @@ unwrap:
 	case SetOfType:
 		components = append(components, "set")
 	case TypeReference:
-		switch ctx.unwrapToLeafType(tt).TypeReference.Name() {
+		leaf := ctx.unwrapToLeafType(tt)
+		switch leaf.TypeReference.Name() {
 		case GeneralizedTimeName:
 			components = append(components, "generalized")
 		case UTCTimeName:
 			components = append(components, "utc")
 		}
+		if _, ok := ctx.removeWrapperTypes(leaf.Type).(SetType); ok {
+			// unlike the name of SET OF, name of a struct does not make it a set
+			components = append(components, "set")
+		}
 		// TODO omitempty    causes empty slices to be skipped\
 	}
 	if len(components) > 0 {
-- 
2.43.0


From 50714c772f3059b47c3993acfc3e8d444579b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:47 +0000
Subject: [PATCH 16/22] fix: annotate fields that refer to a string type with
 its kind

A component of type Name, where Name ::= IA5String, was encoded as a
PrintableString.
---
 codegen.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/codegen.go b/codegen.go
index b831c89..6344c30 100644
--- a/codegen.go
+++ b/codegen.go
@@ -459,16 +459,7 @@ unwrap:
 	// add type-specific tags
 	switch tt := t.(type) {
 	case RestrictedStringType:
-		switch tt.LexType {
-		case IA5String:
-			components = append(components, "ia5")
-		case UTF8String:
-			components = append(components, "utf8")
-		case NumericString:
-			components = append(components, "numeric")
-		case PrintableString:
-			// default type
-		}
+		components = append(components, asn1TagsFromStringType(tt)...)
 	case SetType:
 		components = append(components, "set")
 	case SetOfType:
@@ -481,7 +472,10 @@ unwrap:
 		case UTCTimeName:
 			components = append(components, "utc")
 		}
-		if _, ok := ctx.removeWrapperTypes(leaf.Type).(SetType); ok {
+		switch leafType := ctx.removeWrapperTypes(leaf.Type).(type) {
+		case RestrictedStringType:
+			components = append(components, asn1TagsFromStringType(leafType)...)
+		case SetType:
 			// unlike the name of SET OF, name of a struct does not make it a set
 			components = append(components, "set")
 		}
@@ -497,6 +491,20 @@ unwrap:
 	}
 }
 
+func asn1TagsFromStringType(t RestrictedStringType) []string {
+	switch t.LexType {
+	case IA5String:
+		return []string{"ia5"}
+	case UTF8String:
+		return []string{"utf8"}
+	case NumericString:
+		return []string{"numeric"}
+	default:
+		// PrintableString is the default, others have no tag
+		return nil
+	}
+}
+
 func (ctx *moduleContext) generateSpecialCase(resolved TypeAssignment) goast.Expr {
 	if resolved.TypeReference.Name() == GeneralizedTimeName || resolved.TypeReference.Name() == UTCTimeName {
 		// time types in encoding/asn1go don't support wrapping of time.Time
-- 
2.43.0


From e18e12447b2096623f2bdc733c56e43dffe03da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 17/22] fix: generate valid Go for integer literals and
 infinities of REAL values

With -default-integer-repr big.Int an integer literal of a REAL value became a
*big.Int, and infinities were printed as +Inf and -Inf.
---
 codegen.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index 6344c30..a845d9c 100644
--- a/codegen.go
+++ b/codegen.go
@@ -7,6 +7,7 @@ import (
 	goprint "go/printer"
 	gotoken "go/token"
 	"io"
+	"math"
 	"strings"
 )
 
@@ -194,7 +195,11 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 	var valExpr goast.Expr
 	switch val := val.(type) {
 	case Number:
-		valExpr = numberToExpr(val, ctx.params.IntegerRepr)
+		intRepr := ctx.params.IntegerRepr
+		if ctx.isRealType(t) {
+			intRepr = IntegerReprInt64 // plain literal
+		}
+		valExpr = numberToExpr(val, intRepr)
 	case Boolean:
 		if val {
 			valExpr = &goast.BasicLit{Value: "true"}
@@ -202,7 +207,16 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 			valExpr = &goast.BasicLit{Value: "false"}
 		}
 	case Real:
-		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
+		if math.IsInf(float64(val), 0) {
+			ctx.requireModule("math")
+			sign := "1"
+			if val < 0 {
+				sign = "-1"
+			}
+			valExpr = &goast.CallExpr{Fun: goast.NewIdent("math.Inf"), Args: []goast.Expr{&goast.BasicLit{Value: sign}}}
+		} else {
+			valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
+		}
 	default:
 		// TODO: produce a warning?
 		return nil
@@ -558,6 +572,15 @@ func (ctx *moduleContext) removeWrapperTypes(t Type) Type {
 	}
 }
 
+func (ctx *moduleContext) isRealType(t Type) bool {
+	t = ctx.removeWrapperTypes(t)
+	if reference, ok := t.(TypeReference); ok {
+		t = ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type)
+	}
+	_, ok := t.(RealType)
+	return ok
+}
+
 // unwrapToLeafType walks over transitive type references, tags and constraints and yields "root" type reference
 func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignment {
 	visited := make(map[TypeReference]bool)
-- 
2.43.0


From 66e72c01476a9ffc2a1788b462128b221e4dd7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 18/22] fix: report named numbers that refer to a value that is
 not generated

The generated file referred to a variable it did not declare.
---
 codegen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codegen.go b/codegen.go
index a845d9c..3ae23f0 100644
--- a/codegen.go
+++ b/codegen.go
@@ -317,6 +317,10 @@ func (ctx *moduleContext) generateAssociatedValuesIfNeeded(reference TypeReferen
 			case DefinedValue:
 				if v.ModuleName != "" {
 					ctx.appendError(fmt.Errorf("%v.%v: value references from other modules are not supported", v.ModuleName, v.ValueName))
+				} else if assignment := ctx.lookupContext.AssignmentList.GetValue(v.ValueName.Name()); assignment == nil {
+					ctx.appendError(fmt.Errorf("can not resolve ValueReference %v", v.ValueName.Name()))
+				} else if _, ok := assignment.Value.(Number); !ok {
+					ctx.appendError(fmt.Errorf("value of %v should be Number, got %#v", v.ValueName.Name(), assignment.Value))
 				}
 				valueExpr = valueRefToIdent(v.ValueName)
 			}
-- 
2.43.0


From facb503b73f1a00efde1828923e47d56041b5fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 19/22] fix: print asn1go's error messages as they are

Messages containing % were mangled, and failure to open the output named the
input file.
---
 cmd/asn1go/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/asn1go/main.go b/cmd/asn1go/main.go
index b86b2da..eeefa6a 100644
--- a/cmd/asn1go/main.go
+++ b/cmd/asn1go/main.go
@@ -62,7 +62,7 @@ func openChannels(inputName, outputName string) (input, output *os.File) {
 	if len(outputName) != 0 {
 		output, err = os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY, 0644)
 		if err != nil {
-			failWithError("File %v can not be written: %v", inputName, err.Error())
+			failWithError("File %v can not be written: %v", outputName, err.Error())
 		}
 		if err := output.Truncate(0); err != nil {
 			failWithError("Failed to truncate file: %v", err.Error())
@@ -77,7 +77,7 @@ func main() {
 
 	module, err := asn1go.ParseStream(input)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%v", err.Error())
 	}
 	params := asn1go.GenParams{
 		Package:     flags.packageName,
@@ -86,7 +86,7 @@ func main() {
 	gen := asn1go.NewCodeGenerator(params)
 	err = gen.Generate(*module, output)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%v", err.Error())
 	}
 
 	output.Close()
-- 
2.43.0


From 932e7ad47d425ccf39377714d9b4a493e38e1ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 20/22] fix: accept imports from several modules without
 assigned identifiers

IMPORTS A FROM M B FROM N; was rejected: B was always taken for the first part
of an assigned identifier of M.
---
 asn1.y |   11 +-
 y.go   | 1280 ++++++++++++++++++++++++++++----------------------------
 2 files changed, 652 insertions(+), 639 deletions(-)

diff --git a/asn1.y b/asn1.y
index 9bb026c..e92878a 100644
--- a/asn1.y
+++ b/asn1.y
@@ -414,19 +414,22 @@ SymbolsImported : SymbolsFromModuleList  { $$ = $1 }
                 | /*empty*/  { $$ = make([]SymbolsFromModule, 0) }
 ;
 
-SymbolsFromModuleList : SymbolsFromModule  { $$ = append(make([]SymbolsFromModule, 0), $1) }
-                      | SymbolsFromModuleList SymbolsFromModule  { $$ = append($1, $2) }
+// Edited from the doc - without AssignedIdentifier, name that follows the module is either its AssignedIdentifier or the
+// first symbol imported from the next module, so nothing can be reduced between the two before seeing one more token.
+SymbolsFromModuleList : SymbolsFromModule  { $$ = []SymbolsFromModule{$1} }
+                      | SymbolList FROM modulereference SymbolsFromModuleList  { $$ = append([]SymbolsFromModule{{$1, GlobalModuleReference{$3, nil}}}, $4...) }
+                      | SymbolList FROM modulereference AssignedIdentifier SymbolsFromModuleList  { $$ = append([]SymbolsFromModule{{$1, GlobalModuleReference{$3, $4}}}, $5...) }
 ;
 
 SymbolsFromModule : SymbolList FROM GlobalModuleReference  { $$ = SymbolsFromModule{$1, $3} }
 ;
 
-GlobalModuleReference : modulereference AssignedIdentifier  { $$ = GlobalModuleReference{$1, $2} }
+GlobalModuleReference : modulereference  { $$ = GlobalModuleReference{$1, nil} }
+                      | modulereference AssignedIdentifier  { $$ = GlobalModuleReference{$1, $2} }
 ;
 
 AssignedIdentifier : ObjectIdentifierValue  { $$ = $1 }
                    | DefinedValue  { $$ = $1 }
-                   | /*empty*/  { $$ = nil }
 ;
 
 SymbolList : Symbol  { $$ = append(make([]Symbol, 0), $1) }
diff --git a/y.go b/y.go
index b16f2f2..7d95981 100644
--- a/y.go
+++ b/y.go
@@ -335,7 +335,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line asn1.y:1071
+//line asn1.y:1074
 
 //line yacctab:1
 var yyExca = [...]int16{
@@ -348,261 +348,265 @@ var yyExca = [...]int16{
 	-1, 47,
 	31, 3,
 	-2, 2,
-	-1, 178,
-	44, 239,
-	94, 239,
-	-2, 235,
-	-1, 180,
-	46, 242,
-	53, 242,
-	-2, 237,
-	-1, 184,
-	60, 245,
-	-2, 243,
-	-1, 193,
-	16, 264,
-	28, 264,
-	-2, 258,
-	-1, 252,
+	-1, 177,
+	44, 240,
+	94, 240,
+	-2, 236,
+	-1, 179,
+	46, 243,
+	53, 243,
+	-2, 238,
+	-1, 183,
+	60, 246,
+	-2, 244,
+	-1, 192,
+	16, 265,
+	28, 265,
+	-2, 259,
+	-1, 247,
+	30, 47,
+	84, 47,
+	-2, 54,
+	-1, 254,
 	32, 6,
 	-2, 4,
-	-1, 329,
-	46, 242,
-	53, 242,
-	-2, 238,
-	-1, 421,
-	30, 138,
-	-2, 132,
+	-1, 332,
+	46, 243,
+	53, 243,
+	-2, 239,
+	-1, 424,
+	30, 139,
+	-2, 133,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 912
+const yyLast = 915
 
 var yyAct = [...]int16{
-	219, 205, 408, 218, 374, 208, 350, 220, 127, 17,
-	193, 177, 259, 317, 313, 17, 281, 277, 238, 291,
-	333, 242, 250, 210, 202, 262, 163, 184, 182, 180,
-	246, 159, 170, 217, 241, 3, 144, 151, 5, 19,
-	168, 38, 29, 295, 19, 416, 11, 9, 19, 168,
-	265, 19, 133, 19, 168, 19, 19, 46, 165, 54,
-	46, 296, 411, 297, 233, 204, 204, 165, 169, 334,
-	45, 54, 165, 45, 273, 227, 215, 169, 274, 46,
-	150, 232, 169, 190, 46, 225, 19, 224, 62, 24,
-	234, 10, 45, 336, 23, 417, 204, 45, 22, 152,
-	266, 172, 336, 21, 35, 31, 148, 42, 137, 142,
-	172, 415, 162, 134, 263, 172, 195, 129, 161, 58,
-	36, 162, 50, 140, 121, 135, 162, 161, 164, 128,
-	164, 128, 161, 211, 214, 61, 268, 155, 203, 260,
-	221, 171, 123, 269, 223, 47, 48, 221, 226, 231,
-	171, 221, 221, 60, 429, 171, 213, 103, 154, 139,
-	216, 139, 59, 128, 239, 228, 400, 253, 370, 245,
-	124, 65, 63, 309, 229, 318, 399, 122, 388, 385,
-	247, 125, 221, 138, 143, 384, 244, 331, 320, 164,
-	141, 126, 136, 44, 40, 53, 44, 32, 41, 271,
-	128, 278, 258, 319, 4, 48, 325, 53, 128, 345,
-	256, 270, 315, 288, 27, 44, 255, 283, 431, 145,
-	44, 343, 310, 289, 344, 430, 290, 422, 342, 430,
-	420, 406, 299, 301, 326, 403, 308, 292, 395, 394,
-	305, 307, 387, 382, 282, 372, 294, 287, 302, 253,
-	253, 286, 280, 222, 261, 62, 275, 15, 230, 425,
-	4, 48, 393, 235, 236, 164, 164, 365, 363, 164,
-	357, 311, 303, 293, 164, 323, 285, 279, 312, 314,
-	165, 199, 338, 335, 25, 30, 132, 322, 347, 211,
-	351, 328, 214, 353, 329, 360, 330, 131, 164, 130,
-	7, 348, 368, 355, 421, 346, 19, 361, 19, 358,
-	352, 327, 272, 64, 356, 354, 375, 28, 204, 359,
-	249, 12, 284, 4, 48, 240, 19, 18, 14, 424,
-	367, 371, 364, 369, 14, 26, 164, 316, 366, 257,
-	18, 298, 300, 19, 377, 335, 278, 47, 48, 304,
-	306, 4, 48, 254, 48, 373, 4, 252, 254, 4,
-	380, 321, 378, 381, 379, 383, 55, 48, 414, 397,
-	396, 376, 164, 341, 164, 340, 339, 324, 337, 267,
-	264, 390, 389, 423, 392, 410, 398, 405, 409, 402,
-	351, 55, 19, 168, 39, 34, 377, 377, 1, 412,
-	413, 401, 209, 418, 207, 211, 404, 206, 212, 419,
-	407, 165, 386, 349, 362, 201, 200, 187, 72, 120,
-	153, 169, 243, 409, 426, 427, 43, 428, 57, 56,
-	37, 360, 276, 69, 94, 77, 86, 149, 237, 99,
-	179, 93, 110, 100, 102, 84, 82, 139, 81, 80,
-	198, 79, 67, 85, 172, 91, 88, 90, 95, 114,
-	106, 71, 111, 197, 89, 162, 96, 113, 332, 194,
-	192, 161, 119, 104, 97, 191, 92, 107, 55, 19,
-	168, 108, 186, 189, 188, 109, 185, 183, 181, 178,
-	391, 115, 176, 175, 171, 105, 174, 173, 165, 116,
-	87, 68, 112, 117, 187, 33, 120, 118, 169, 49,
-	98, 196, 101, 51, 52, 167, 166, 157, 160, 78,
-	158, 94, 156, 248, 251, 83, 99, 73, 93, 110,
-	100, 75, 66, 70, 139, 74, 76, 198, 6, 16,
-	13, 172, 2, 88, 8, 95, 114, 106, 20, 111,
-	0, 89, 162, 96, 113, 0, 0, 0, 161, 119,
-	104, 97, 0, 92, 107, 47, 48, 325, 108, 0,
+	218, 204, 411, 217, 377, 207, 353, 219, 126, 17,
+	192, 176, 261, 320, 316, 17, 283, 279, 237, 293,
+	336, 241, 252, 209, 201, 103, 162, 183, 181, 179,
+	248, 158, 264, 169, 240, 3, 216, 143, 150, 5,
+	297, 38, 57, 29, 419, 11, 9, 275, 19, 132,
+	194, 276, 267, 299, 19, 232, 231, 46, 298, 54,
+	46, 44, 19, 53, 44, 414, 19, 167, 139, 224,
+	45, 54, 203, 45, 127, 53, 19, 223, 233, 19,
+	189, 149, 226, 24, 46, 164, 203, 337, 44, 203,
+	10, 23, 19, 167, 420, 168, 214, 45, 22, 21,
+	151, 35, 268, 31, 138, 65, 147, 62, 136, 141,
+	418, 164, 133, 265, 128, 124, 134, 36, 262, 42,
+	339, 168, 127, 121, 47, 48, 61, 163, 171, 163,
+	60, 432, 210, 213, 321, 140, 154, 202, 403, 161,
+	50, 19, 167, 222, 220, 160, 339, 225, 230, 270,
+	220, 311, 138, 144, 171, 212, 271, 152, 220, 215,
+	164, 122, 322, 238, 227, 161, 255, 245, 170, 402,
+	168, 160, 220, 40, 247, 220, 228, 59, 44, 249,
+	137, 142, 123, 135, 244, 391, 221, 246, 163, 388,
+	63, 229, 387, 334, 170, 242, 234, 235, 273, 323,
+	280, 125, 260, 171, 4, 48, 328, 127, 312, 32,
+	127, 348, 373, 41, 161, 258, 285, 272, 127, 318,
+	160, 257, 434, 290, 27, 433, 346, 291, 428, 347,
+	292, 301, 303, 433, 329, 310, 425, 423, 409, 307,
+	309, 406, 294, 170, 398, 397, 390, 304, 385, 284,
+	375, 255, 255, 296, 289, 286, 288, 282, 263, 62,
+	277, 396, 368, 366, 360, 46, 314, 163, 163, 44,
+	305, 163, 295, 15, 300, 302, 163, 326, 45, 287,
+	315, 317, 306, 308, 341, 338, 313, 281, 25, 325,
+	350, 210, 354, 331, 213, 356, 332, 363, 333, 345,
+	163, 30, 198, 351, 131, 358, 130, 349, 129, 364,
+	47, 48, 7, 327, 371, 19, 359, 357, 19, 424,
+	361, 362, 355, 330, 64, 378, 274, 28, 203, 251,
+	164, 12, 427, 370, 367, 19, 18, 14, 374, 163,
+	372, 369, 319, 14, 259, 26, 18, 380, 338, 280,
+	365, 4, 48, 239, 4, 48, 256, 19, 376, 4,
+	254, 256, 48, 383, 4, 381, 384, 382, 386, 47,
+	48, 55, 48, 324, 417, 163, 400, 163, 399, 379,
+	344, 343, 342, 340, 393, 392, 269, 395, 266, 401,
+	426, 412, 405, 354, 55, 19, 167, 413, 408, 380,
+	380, 39, 415, 416, 404, 34, 1, 208, 210, 407,
+	421, 206, 422, 205, 164, 211, 410, 389, 352, 200,
+	186, 199, 120, 72, 168, 153, 412, 429, 430, 243,
+	431, 43, 58, 56, 363, 37, 278, 94, 69, 77,
+	86, 148, 99, 178, 93, 110, 100, 236, 102, 84,
+	138, 82, 81, 197, 80, 79, 67, 171, 85, 88,
+	91, 95, 114, 106, 90, 111, 71, 89, 161, 96,
+	113, 196, 335, 193, 160, 119, 104, 97, 191, 92,
+	107, 55, 19, 167, 108, 190, 185, 188, 109, 187,
+	184, 182, 180, 177, 115, 394, 175, 170, 105, 174,
+	173, 164, 116, 172, 87, 112, 117, 186, 68, 120,
+	118, 168, 33, 98, 195, 101, 49, 51, 52, 166,
+	165, 156, 159, 78, 94, 157, 155, 250, 253, 99,
+	83, 93, 110, 100, 73, 75, 66, 138, 70, 74,
+	197, 76, 6, 16, 171, 13, 88, 2, 95, 114,
+	106, 8, 111, 20, 89, 161, 96, 113, 0, 0,
+	0, 160, 119, 104, 97, 0, 92, 107, 47, 48,
+	328, 108, 0, 0, 0, 109, 0, 0, 0, 0,
+	0, 115, 0, 0, 170, 105, 0, 0, 0, 116,
+	0, 0, 112, 117, 0, 0, 120, 118, 329, 0,
+	98, 195, 101, 0, 0, 0, 0, 0, 0, 0,
+	0, 94, 0, 0, 0, 0, 99, 0, 93, 110,
+	100, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 88, 0, 95, 114, 106, 0, 111,
+	0, 89, 55, 96, 113, 0, 0, 0, 0, 119,
+	104, 97, 0, 92, 107, 0, 0, 0, 108, 0,
 	0, 0, 109, 0, 0, 0, 0, 0, 115, 0,
-	0, 171, 105, 0, 0, 0, 116, 0, 0, 112,
-	117, 0, 0, 120, 118, 326, 0, 98, 196, 101,
-	0, 0, 0, 0, 0, 0, 0, 0, 94, 0,
-	0, 0, 0, 99, 0, 93, 110, 100, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	88, 0, 95, 114, 106, 0, 111, 0, 89, 55,
-	96, 113, 0, 0, 0, 0, 119, 104, 97, 0,
-	92, 107, 0, 0, 0, 108, 0, 0, 0, 109,
-	0, 0, 0, 0, 0, 115, 0, 120, 0, 105,
-	0, 0, 0, 116, 0, 0, 112, 117, 0, 0,
-	0, 118, 94, 0, 98, 0, 101, 99, 0, 93,
-	110, 100, 0, 0, 0, 0, 0, 147, 0, 0,
+	120, 0, 105, 0, 0, 0, 116, 0, 0, 112,
+	117, 0, 0, 0, 118, 94, 0, 98, 0, 101,
+	99, 0, 93, 110, 100, 0, 0, 0, 0, 0,
+	146, 0, 0, 0, 0, 0, 0, 88, 0, 95,
+	114, 106, 0, 111, 0, 89, 0, 96, 113, 55,
+	19, 0, 0, 119, 104, 97, 0, 92, 107, 0,
+	0, 0, 108, 0, 0, 0, 109, 0, 0, 0,
+	0, 0, 115, 0, 145, 0, 105, 120, 0, 0,
+	116, 0, 0, 112, 117, 0, 0, 0, 118, 0,
+	0, 98, 94, 101, 0, 0, 0, 99, 0, 93,
+	110, 100, 0, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 88, 0, 95, 114, 106, 0,
-	111, 0, 89, 0, 96, 113, 55, 19, 0, 0,
+	111, 0, 89, 55, 96, 113, 0, 0, 0, 0,
 	119, 104, 97, 0, 92, 107, 0, 0, 0, 108,
 	0, 0, 0, 109, 0, 0, 0, 0, 0, 115,
-	0, 146, 0, 105, 120, 0, 0, 116, 0, 0,
-	112, 117, 0, 0, 0, 118, 0, 0, 98, 94,
-	101, 0, 0, 0, 99, 0, 93, 110, 100, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 95, 114, 106, 0, 111, 0, 89,
-	55, 96, 113, 0, 0, 0, 0, 119, 104, 97,
-	0, 92, 107, 0, 0, 0, 108, 0, 0, 0,
-	109, 0, 0, 0, 0, 0, 115, 0, 120, 0,
-	105, 0, 0, 0, 116, 0, 0, 112, 117, 0,
-	0, 0, 118, 94, 0, 98, 0, 101, 99, 0,
-	93, 110, 100, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 88, 0, 95, 114, 106,
-	0, 111, 0, 89, 0, 96, 113, 0, 0, 0,
-	0, 119, 104, 97, 0, 92, 107, 0, 0, 0,
-	108, 0, 0, 0, 109, 0, 0, 0, 0, 0,
-	115, 0, 0, 0, 105, 0, 0, 0, 116, 0,
-	0, 112, 117, 0, 0, 0, 118, 0, 0, 98,
-	0, 101,
+	0, 120, 0, 105, 0, 0, 0, 116, 0, 0,
+	112, 117, 0, 0, 0, 118, 94, 0, 98, 0,
+	101, 99, 0, 93, 110, 100, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 88, 0,
+	95, 114, 106, 0, 111, 0, 89, 0, 96, 113,
+	0, 0, 0, 0, 119, 104, 97, 0, 92, 107,
+	0, 0, 0, 108, 0, 0, 0, 109, 0, 0,
+	0, 0, 0, 115, 0, 0, 0, 105, 0, 0,
+	0, 116, 0, 0, 112, 117, 0, 0, 0, 118,
+	0, 0, 98, 0, 101,
 }
 
 var yyPact = [...]int16{
-	353, -1000, -81, 274, -1000, -17, -1000, 319, 31, 20,
-	16, 11, 257, 319, -1000, -1000, -1000, 182, -1000, -1000,
-	302, -70, -1000, -1000, -1000, -1000, -1000, 332, 38, -1000,
-	164, 36, -1000, 68, -75, 139, -1000, 360, 341, 111,
-	93, 225, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 360,
-	-1000, -1000, -1000, 298, 784, -1000, 82, 341, -1000, 58,
-	-1000, -1000, 341, -1000, 784, 176, -1000, -1000, -1000, -1000,
+	358, -1000, -80, 286, -1000, -18, -1000, 328, 27, 20,
+	13, 5, 261, 328, -1000, -1000, -1000, 192, -1000, -1000,
+	312, -69, -1000, -1000, -1000, -1000, -1000, 338, 36, -1000,
+	176, 33, -1000, 65, -75, 118, -1000, 365, 363, 88,
+	84, 229, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 365,
+	-1000, -1000, -1000, 309, 787, -1000, 81, -1000, -1000, 77,
+	-1000, -1000, 363, -1000, 787, 186, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 51, -1000,
-	-1000, -1000, 273, 271, 260, -1000, -52, 47, -1000, 99,
-	97, -92, 633, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 48, -1000,
+	-1000, -1000, 282, 280, 278, -1000, -55, 46, -1000, 90,
+	42, -91, 636, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 40,
-	-22, -1000, -1000, 353, -1000, 168, 46, -1000, 385, 255,
-	301, 336, 336, -1000, -1000, 49, 710, -6, -8, 168,
-	48, 710, -12, -29, 7, 168, 784, 784, -1000, 317,
-	-1000, -1000, -1000, -1000, 254, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 350, -1000, -1000, 185, 331,
-	-1000, -1000, -1000, 94, -1000, -1000, 224, -1000, -1000, 54,
-	-1000, 6, -1000, 90, -1000, 54, -1000, 385, -1000, -1000,
-	-1000, -1000, -1000, -1000, 296, 168, -25, 228, -1000, 336,
-	250, 222, 214, -1000, 94, 784, 249, 221, -1000, 217,
-	-1000, 181, 196, -1000, 181, -1000, 207, 246, 216, -1000,
-	-54, -30, 168, -1000, 710, 710, -1000, -1000, 207, 245,
-	168, -1000, 710, 710, 336, 168, 168, 138, -1000, -1000,
-	-1000, 191, -1000, -1000, -1000, -1000, 244, 350, 350, -1000,
-	-1000, -1000, -1000, 180, -1000, 329, 167, 185, -1000, 155,
-	559, 294, -1000, 472, 472, -1000, -1000, 472, -1000, -1000,
-	-1000, 154, 41, 168, 202, -1000, 194, -1000, 177, -1000,
-	301, 207, 336, -1000, 168, -1000, 293, 336, 198, -1000,
-	336, 243, 292, -1000, 79, -1000, 46, 784, 168, -1000,
-	168, -1000, 241, -1000, 168, -1000, 168, -1000, -1000, -1000,
-	347, -1000, 240, -1000, -1000, 345, 277, -1000, -1000, 325,
-	-1000, -1000, -1000, -1000, 131, -1000, 323, 215, -1000, -1000,
-	-1000, -1000, -1000, -1000, 32, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 299, -1000, 336, 317, 214, -1000, -1000, 213,
-	-1000, -1000, 94, -1000, 152, 146, -1000, -1000, -1000, 212,
-	-1000, -1000, 168, -1000, -1000, -1000, 145, -1000, 167, -1000,
-	46, -1000, 385, -1000, 235, 209, 208, 168, -1000, 143,
-	133, 207, 336, 205, -1000, -1000, 201, 44, -1000, -1000,
-	-1000, -1000, -1000, -1000, 336, 336, -1000, -2, -1000, -1000,
-	-1000, -1000, -1000, 336, -1000, 200, 287, 197, -1000, -1000,
-	-1000, 321, 232, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	37, -1000, 44, 37, 117, -1000, 195, -1000, 199, -1000,
-	37, -1000,
+	-21, -1000, 358, -1000, 178, 134, -1000, 388, 276, 311,
+	350, 350, -1000, -1000, 69, 713, -16, -24, 178, 55,
+	713, -37, -38, -5, 178, 787, 787, -1000, 345, -1000,
+	-1000, -1000, 304, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 353, -1000, -1000, 190, 336, -1000,
+	-1000, -1000, 73, -1000, -1000, 228, -1000, -1000, 53, -1000,
+	8, -1000, 103, -1000, 53, -1000, 388, -1000, -1000, -1000,
+	-1000, -1000, -1000, 310, 178, -52, 232, -1000, 350, 260,
+	227, 219, -1000, 73, 787, 252, 226, -1000, 224, -1000,
+	191, 200, -1000, 191, -1000, 212, 245, 223, -1000, -57,
+	-40, 178, -1000, 713, 713, -1000, -1000, 212, 243, 178,
+	-1000, 713, 713, 350, 178, 178, 116, -1000, -1000, -1000,
+	177, -1000, -1000, 363, -1000, -1000, 177, -1000, 239, 353,
+	353, -1000, -1000, -1000, -1000, 187, -1000, 334, 126, 190,
+	-1000, 166, 562, 306, -1000, 475, 475, -1000, -1000, 475,
+	-1000, -1000, -1000, 160, 59, 178, 273, -1000, 199, -1000,
+	179, -1000, 311, 212, 350, -1000, 178, -1000, 305, 350,
+	198, -1000, 350, 237, 303, -1000, 72, -1000, 134, 787,
+	178, -1000, 178, -1000, 236, -1000, 178, -1000, 178, -1000,
+	-1000, -1000, 355, -1000, -1000, 235, -1000, -1000, 348, 289,
+	-1000, -1000, 332, -1000, -1000, -1000, -1000, 175, -1000, 330,
+	220, -1000, -1000, -1000, -1000, -1000, -1000, 85, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 308, -1000, 350, 345, 219,
+	-1000, -1000, 218, -1000, -1000, 73, -1000, 159, 156, -1000,
+	-1000, -1000, 216, -1000, -1000, 178, -1000, -1000, -1000, 152,
+	-1000, 126, -1000, 134, -1000, 388, -1000, 234, 215, 214,
+	178, -1000, 136, 105, 212, 350, 211, -1000, -1000, 208,
+	47, -1000, -1000, -1000, -1000, -1000, -1000, 350, 350, -1000,
+	-3, -1000, -1000, -1000, -1000, -1000, 350, -1000, 207, 302,
+	206, -1000, -1000, -1000, 324, 201, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, 41, -1000, 47, 41, 94, -1000, 195,
+	-1000, 203, -1000, 41, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 32, 13, 34, 157, 1, 548, 544, 542, 540,
-	257, 321, 539, 538, 320, 14, 536, 535, 533, 532,
-	116, 531, 527, 525, 7, 22, 524, 523, 30, 31,
-	522, 10, 520, 519, 518, 517, 516, 515, 26, 18,
-	122, 514, 513, 509, 505, 21, 501, 500, 8, 497,
-	496, 493, 492, 490, 11, 489, 488, 29, 487, 28,
-	25, 27, 486, 484, 483, 482, 475, 470, 83, 469,
-	468, 463, 20, 461, 457, 455, 453, 452, 451, 449,
-	448, 446, 0, 3, 446, 33, 445, 444, 438, 437,
-	436, 435, 433, 432, 17, 430, 429, 428, 119, 162,
-	107, 426, 422, 420, 418, 416, 415, 415, 6, 16,
-	413, 412, 410, 2, 23, 408, 407, 5, 404, 403,
-	402, 398, 395, 394, 12, 24, 19, 387, 385, 383,
-	383, 380, 379, 378, 376, 375, 373, 4, 371, 370,
-	369, 368, 361,
+	0, 33, 13, 34, 25, 1, 553, 551, 547, 545,
+	273, 331, 543, 542, 329, 14, 541, 539, 538, 536,
+	50, 535, 534, 530, 7, 22, 528, 527, 30, 31,
+	526, 10, 525, 523, 522, 521, 520, 519, 26, 18,
+	140, 518, 517, 516, 512, 21, 508, 504, 8, 503,
+	500, 499, 496, 495, 11, 493, 492, 29, 491, 28,
+	32, 27, 490, 489, 487, 486, 485, 478, 80, 473,
+	472, 471, 20, 466, 464, 460, 458, 456, 455, 454,
+	452, 451, 0, 3, 451, 36, 449, 448, 447, 441,
+	440, 439, 438, 436, 17, 435, 433, 42, 432, 177,
+	119, 431, 429, 425, 423, 421, 419, 419, 6, 16,
+	418, 417, 416, 2, 23, 415, 413, 5, 411, 410,
+	407, 406, 405, 401, 12, 24, 19, 398, 397, 390,
+	390, 388, 386, 383, 382, 381, 380, 4, 379, 378,
+	376, 374, 373,
 }
 
 var yyR1 = [...]uint8{
 	0, 121, 4, 3, 45, 39, 5, 8, 13, 13,
 	11, 11, 9, 9, 9, 10, 12, 7, 7, 7,
 	7, 6, 6, 44, 44, 122, 122, 122, 123, 123,
-	95, 95, 96, 96, 97, 97, 98, 103, 102, 102,
-	102, 99, 99, 100, 101, 101, 101, 43, 43, 40,
-	40, 76, 15, 15, 42, 41, 20, 20, 20, 19,
+	95, 95, 96, 96, 97, 97, 97, 98, 103, 103,
+	102, 102, 99, 99, 100, 101, 101, 101, 43, 43,
+	40, 40, 76, 15, 15, 42, 41, 20, 20, 20,
 	19, 19, 19, 19, 19, 19, 19, 19, 19, 19,
-	19, 19, 19, 19, 19, 77, 77, 24, 31, 30,
-	30, 30, 30, 18, 35, 35, 17, 17, 115, 115,
-	114, 114, 38, 38, 32, 32, 22, 116, 116, 116,
-	118, 119, 117, 117, 120, 120, 33, 34, 34, 36,
-	36, 37, 37, 1, 1, 1, 1, 2, 2, 92,
-	92, 93, 93, 94, 94, 91, 21, 78, 78, 78,
-	125, 125, 126, 126, 85, 85, 85, 84, 127, 111,
-	111, 112, 112, 113, 113, 128, 129, 129, 83, 83,
-	82, 82, 82, 82, 80, 80, 80, 81, 81, 23,
-	23, 104, 105, 105, 105, 107, 109, 109, 110, 110,
-	108, 130, 106, 106, 86, 86, 86, 87, 88, 88,
-	89, 89, 89, 89, 79, 79, 16, 29, 29, 28,
-	28, 27, 27, 27, 27, 25, 25, 26, 14, 73,
-	73, 74, 74, 74, 74, 74, 74, 74, 74, 74,
-	74, 74, 74, 74, 75, 90, 90, 46, 46, 47,
-	47, 47, 47, 47, 47, 47, 47, 48, 49, 50,
-	51, 51, 51, 52, 53, 54, 54, 55, 55, 56,
-	57, 57, 58, 59, 59, 62, 60, 131, 131, 132,
-	132, 61, 61, 65, 65, 65, 65, 65, 63, 64,
-	69, 69, 70, 70, 71, 71, 72, 72, 68, 66,
-	67, 67, 133, 134, 134, 135, 136, 137, 137, 138,
-	139, 140, 140, 141, 141, 141, 141, 124, 124, 142,
-	142, 142,
+	19, 19, 19, 19, 19, 19, 77, 77, 24, 31,
+	30, 30, 30, 30, 18, 35, 35, 17, 17, 115,
+	115, 114, 114, 38, 38, 32, 32, 22, 116, 116,
+	116, 118, 119, 117, 117, 120, 120, 33, 34, 34,
+	36, 36, 37, 37, 1, 1, 1, 1, 2, 2,
+	92, 92, 93, 93, 94, 94, 91, 21, 78, 78,
+	78, 125, 125, 126, 126, 85, 85, 85, 84, 127,
+	111, 111, 112, 112, 113, 113, 128, 129, 129, 83,
+	83, 82, 82, 82, 82, 80, 80, 80, 81, 81,
+	23, 23, 104, 105, 105, 105, 107, 109, 109, 110,
+	110, 108, 130, 106, 106, 86, 86, 86, 87, 88,
+	88, 89, 89, 89, 89, 79, 79, 16, 29, 29,
+	28, 28, 27, 27, 27, 27, 25, 25, 26, 14,
+	73, 73, 74, 74, 74, 74, 74, 74, 74, 74,
+	74, 74, 74, 74, 74, 75, 90, 90, 46, 46,
+	47, 47, 47, 47, 47, 47, 47, 47, 48, 49,
+	50, 51, 51, 51, 52, 53, 54, 54, 55, 55,
+	56, 57, 57, 58, 59, 59, 62, 60, 131, 131,
+	132, 132, 61, 61, 65, 65, 65, 65, 65, 63,
+	64, 69, 69, 70, 70, 71, 71, 72, 72, 68,
+	66, 67, 67, 133, 134, 134, 135, 136, 137, 137,
+	138, 139, 140, 140, 141, 141, 141, 141, 124, 124,
+	142, 142, 142,
 }
 
 var yyR2 = [...]int8{
 	0, 8, 1, 1, 1, 1, 1, 2, 3, 0,
 	1, 2, 1, 1, 1, 1, 4, 2, 2, 2,
 	0, 2, 0, 3, 0, 3, 3, 0, 1, 0,
-	3, 0, 1, 0, 1, 2, 3, 2, 1, 1,
-	0, 1, 3, 1, 1, 1, 1, 1, 2, 1,
-	1, 1, 3, 1, 3, 4, 1, 1, 1, 1,
+	3, 0, 1, 0, 1, 4, 5, 3, 1, 2,
+	1, 1, 1, 3, 1, 1, 1, 1, 1, 2,
+	1, 1, 1, 3, 1, 3, 4, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 2, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 4, 1, 3,
-	4, 4, 1, 2, 1, 1, 4, 1, 4, 6,
-	1, 1, 1, 3, 1, 1, 1, 1, 1, 1,
-	2, 1, 1, 1, 3, 5, 3, 1, 2, 2,
-	5, 1, 3, 4, 4, 2, 1, 3, 5, 4,
-	1, 2, 2, 0, 1, 5, 7, 1, 2, 2,
-	0, 1, 3, 1, 1, 4, 0, 2, 1, 3,
-	1, 2, 3, 3, 3, 5, 4, 3, 3, 1,
-	4, 4, 5, 1, 3, 1, 2, 0, 1, 3,
-	1, 4, 1, 3, 2, 3, 3, 4, 1, 1,
-	1, 1, 1, 0, 3, 3, 2, 3, 4, 1,
-	2, 1, 1, 1, 1, 1, 1, 4, 1, 1,
+	1, 1, 1, 1, 1, 1, 1, 1, 2, 1,
+	1, 1, 1, 1, 1, 1, 1, 1, 4, 1,
+	3, 4, 4, 1, 2, 1, 1, 4, 1, 4,
+	6, 1, 1, 1, 3, 1, 1, 1, 1, 1,
+	1, 2, 1, 1, 1, 3, 5, 3, 1, 2,
+	2, 5, 1, 3, 4, 4, 2, 1, 3, 5,
+	4, 1, 2, 2, 0, 1, 5, 7, 1, 2,
+	2, 0, 1, 3, 1, 1, 4, 0, 2, 1,
+	3, 1, 2, 3, 3, 3, 5, 4, 3, 3,
+	1, 4, 4, 5, 1, 3, 1, 2, 0, 1,
+	3, 1, 4, 1, 3, 2, 3, 3, 4, 1,
+	1, 1, 1, 1, 0, 3, 3, 2, 3, 4,
+	1, 2, 1, 1, 1, 1, 1, 1, 4, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 2, 1, 1, 2, 1, 4,
-	4, 4, 4, 4, 4, 4, 4, 4, 1, 1,
-	1, 3, 5, 1, 1, 1, 2, 1, 3, 1,
-	1, 3, 1, 1, 2, 1, 2, 1, 1, 1,
-	1, 1, 3, 1, 1, 1, 1, 1, 1, 3,
-	1, 2, 1, 2, 1, 1, 1, 1, 2, 1,
-	3, 3, 1, 1, 1, 3, 5, 1, 3, 2,
-	2, 1, 0, 1, 1, 1, 0, 2, 0, 1,
-	1, 3,
+	1, 1, 1, 1, 1, 2, 1, 1, 2, 1,
+	4, 4, 4, 4, 4, 4, 4, 4, 4, 1,
+	1, 1, 3, 5, 1, 1, 1, 2, 1, 3,
+	1, 1, 3, 1, 1, 2, 1, 2, 1, 1,
+	1, 1, 1, 3, 1, 1, 1, 1, 1, 1,
+	3, 1, 2, 1, 2, 1, 1, 1, 1, 2,
+	1, 3, 3, 1, 1, 1, 3, 5, 1, 3,
+	2, 2, 1, 0, 1, 1, 1, 0, 2, 0,
+	1, 1, 3,
 }
 
 var yyChk = [...]int16{
@@ -618,85 +622,85 @@ var yyChk = [...]int16{
 	-74, -75, 91, 56, 49, 73, 81, 89, 125, 54,
 	58, 127, -87, -4, 88, 110, 75, 92, 96, 100,
 	57, 77, 117, 82, 74, 106, 114, 118, 122, 87,
-	34, 42, -98, 84, -100, -20, 15, -48, 32, 66,
-	26, 26, 26, 104, 66, 26, 93, -48, -68, 62,
-	26, 93, -48, -68, 128, -20, 108, 64, 66, -89,
-	102, 59, 121, -103, -3, -31, -30, -35, -32, -29,
-	-34, 86, 80, -38, -5, 26, -36, -37, 8, 36,
-	-1, 109, 69, -49, -50, -51, -52, -54, -55, 55,
-	-57, -56, -59, -58, -61, -62, -65, 32, -63, -64,
-	-68, -66, -67, -31, -69, -20, 126, -71, 65, 26,
-	-105, -106, -125, -24, 17, -5, -116, -118, -117, -120,
-	-114, -5, -115, -114, -5, 27, -125, -85, -83, -82,
-	-24, 103, -20, -24, 93, 93, -48, 27, -125, -85,
-	-20, -24, 93, 93, 83, -20, -20, -88, -39, -15,
-	8, -3, -45, -102, -29, -15, -28, -15, -27, -14,
-	-25, -26, 7, -5, 8, 31, 25, 8, -1, -124,
-	45, 30, -60, 60, -131, 44, 94, -132, 46, 53,
-	-60, -54, 16, 99, 103, 28, -93, -94, -5, 27,
-	30, -109, 30, -124, -20, 27, 30, 30, 32, 27,
-	30, -126, 30, 27, 30, 97, 115, 93, -20, -24,
-	-20, -24, -126, 27, -20, -24, -20, -24, -5, 35,
-	31, 27, -28, -15, -28, 32, 8, -2, 8, 36,
-	33, -142, -38, -15, -20, 8, 36, 17, -61, -57,
-	-59, 33, -70, -72, 28, -31, 61, -133, -48, -134,
-	-135, -136, 26, 27, 30, 32, -125, -24, -126, -110,
-	-108, -24, 17, -117, -38, -15, -114, 27, 17, -125,
-	-82, -31, -20, 27, -45, 27, -25, -15, 25, 8,
-	37, 8, 30, -72, -137, 17, -138, -5, -94, -39,
-	-15, -109, 30, -124, 33, 33, -111, 30, 33, -2,
-	-31, -53, -54, 27, 30, 30, -139, -140, -48, 33,
-	33, -126, -108, 30, -126, -127, 30, -112, -113, -82,
-	-128, 18, -137, -137, -141, 113, 47, 97, -119, -117,
-	30, 17, 30, -129, 8, 27, -83, -113, -83, 37,
-	30, 19,
+	34, 42, 84, -100, -20, 15, -48, 32, 66, 26,
+	26, 26, 104, 66, 26, 93, -48, -68, 62, 26,
+	93, -48, -68, 128, -20, 108, 64, 66, -89, 102,
+	59, 121, -3, -103, -31, -30, -35, -32, -29, -34,
+	86, 80, -38, -5, 26, -36, -37, 8, 36, -1,
+	109, 69, -49, -50, -51, -52, -54, -55, 55, -57,
+	-56, -59, -58, -61, -62, -65, 32, -63, -64, -68,
+	-66, -67, -31, -69, -20, 126, -71, 65, 26, -105,
+	-106, -125, -24, 17, -5, -116, -118, -117, -120, -114,
+	-5, -115, -114, -5, 27, -125, -85, -83, -82, -24,
+	103, -20, -24, 93, 93, -48, 27, -125, -85, -20,
+	-24, 93, 93, 83, -20, -20, -88, -39, -15, 8,
+	-3, -45, -97, -102, -29, -15, -3, -45, -28, -15,
+	-27, -14, -25, -26, 7, -5, 8, 31, 25, 8,
+	-1, -124, 45, 30, -60, 60, -131, 44, 94, -132,
+	46, 53, -60, -54, 16, 99, 103, 28, -93, -94,
+	-5, 27, 30, -109, 30, -124, -20, 27, 30, 30,
+	32, 27, 30, -126, 30, 27, 30, 97, 115, 93,
+	-20, -24, -20, -24, -126, 27, -20, -24, -20, -24,
+	-5, 35, 31, -97, 27, -28, -15, -28, 32, 8,
+	-2, 8, 36, 33, -142, -38, -15, -20, 8, 36,
+	17, -61, -57, -59, 33, -70, -72, 28, -31, 61,
+	-133, -48, -134, -135, -136, 26, 27, 30, 32, -125,
+	-24, -126, -110, -108, -24, 17, -117, -38, -15, -114,
+	27, 17, -125, -82, -31, -20, 27, -45, 27, -25,
+	-15, 25, 8, 37, 8, 30, -72, -137, 17, -138,
+	-5, -94, -39, -15, -109, 30, -124, 33, 33, -111,
+	30, 33, -2, -31, -53, -54, 27, 30, 30, -139,
+	-140, -48, 33, 33, -126, -108, 30, -126, -127, 30,
+	-112, -113, -82, -128, 18, -137, -137, -141, 113, 47,
+	97, -119, -117, 30, 17, 30, -129, 8, 27, -83,
+	-113, -83, 37, 30, 19,
 }
 
 var yyDef = [...]int16{
 	0, -2, 0, 9, 3, 20, 7, 0, 22, 0,
-	0, 0, 0, 10, 12, 13, 14, 198, 15, 6,
+	0, 0, 0, 10, 12, 13, 14, 199, 15, 6,
 	0, 0, 17, 18, 19, 8, 11, 0, 0, 21,
 	0, -2, 16, 0, 31, 29, 1, 0, 33, 0,
-	0, 28, 41, 43, 44, 45, 46, -2, 4, 23,
-	47, 49, 50, 0, 0, 2, 0, 32, 34, 0,
-	25, 26, 0, 48, 0, 0, 56, 57, 58, 59,
-	60, 61, 62, 63, 64, 65, 66, 67, 68, 69,
-	70, 71, 72, 73, 74, 75, 76, 218, 0, 83,
-	199, 200, 0, 0, 86, 126, 0, 0, 106, 0,
-	0, 159, 0, 51, 215, 216, 201, 202, 203, 204,
-	205, 206, 207, 208, 209, 210, 211, 212, 213, 0,
-	183, 30, 35, 0, 42, 54, 0, 217, 0, 119,
-	0, 0, 0, 186, 125, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 174, 0, 0, 214, 0,
-	180, 181, 182, 36, 40, 55, 78, 79, 80, 81,
-	82, 84, 85, 94, 95, 0, 107, 108, 92, 0,
-	109, 111, 112, 288, 228, 229, 230, 233, -2, 0,
-	-2, 0, 240, 0, -2, 0, 251, 0, 253, 254,
-	255, 256, 257, -2, 0, 269, 0, 260, 265, 0,
-	0, 163, 167, 172, 130, 0, 0, 97, 100, 102,
-	104, 105, 0, 88, 0, 127, 133, 0, 134, 148,
-	150, 0, 184, 185, 0, 0, 268, 154, 133, 0,
-	157, 158, 0, 0, 0, 175, 176, 0, 178, 179,
-	5, 0, 53, 37, 38, 39, 0, 194, 189, 191,
-	192, 193, -2, 198, 195, 0, 0, 93, 110, 0,
-	0, 0, 236, 0, 0, 247, 248, 0, 249, 250,
-	244, 0, 0, 0, 0, 261, 0, 121, 0, 161,
-	0, 133, 0, 131, 77, 96, 0, 0, 0, 87,
-	0, 0, 0, 129, 0, 151, 0, 0, 221, 225,
-	222, 226, 0, 156, 219, 223, 220, 224, 160, 177,
-	0, 187, 0, 194, 190, 0, 114, 116, 117, 0,
-	227, 287, 289, 290, 0, 92, 0, 231, 246, -2,
-	241, 252, 259, 262, 0, 266, 267, 270, 272, 271,
-	273, 274, 0, 120, 0, 0, 167, 173, 164, 166,
-	168, 170, 288, 103, 0, 0, 89, 128, 132, 140,
-	149, 152, 153, 155, 52, 188, 0, 196, 0, 118,
-	0, 93, 0, 263, 0, 0, 277, 282, 122, 0,
-	0, 133, 0, 98, 90, 91, 133, 0, 197, 115,
-	291, 232, 234, 275, 0, 0, 279, 286, 281, 123,
-	124, 162, 169, 0, 135, 0, 0, 139, 141, 143,
-	144, 146, 0, 278, 280, 283, 284, 285, 99, 101,
-	0, -2, 0, 0, 0, 276, 136, 142, 0, 147,
-	0, 145,
+	0, 28, 42, 44, 45, 46, 47, -2, 4, 23,
+	48, 50, 51, 0, 0, 2, 0, 32, 34, 0,
+	25, 26, 0, 49, 0, 0, 57, 58, 59, 60,
+	61, 62, 63, 64, 65, 66, 67, 68, 69, 70,
+	71, 72, 73, 74, 75, 76, 77, 219, 0, 84,
+	200, 201, 0, 0, 87, 127, 0, 0, 107, 0,
+	0, 160, 0, 52, 216, 217, 202, 203, 204, 205,
+	206, 207, 208, 209, 210, 211, 212, 213, 214, 0,
+	184, 30, 0, 43, 55, 0, 218, 0, 120, 0,
+	0, 0, 187, 126, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 175, 0, 0, 215, 0, 181,
+	182, 183, 38, 37, 56, 79, 80, 81, 82, 83,
+	85, 86, 95, 96, 0, 108, 109, 93, 0, 110,
+	112, 113, 289, 229, 230, 231, 234, -2, 0, -2,
+	0, 241, 0, -2, 0, 252, 0, 254, 255, 256,
+	257, 258, -2, 0, 270, 0, 261, 266, 0, 0,
+	164, 168, 173, 131, 0, 0, 98, 101, 103, 105,
+	106, 0, 89, 0, 128, 134, 0, 135, 149, 151,
+	0, 185, 186, 0, 0, 269, 155, 134, 0, 158,
+	159, 0, 0, 0, 176, 177, 0, 179, 180, 5,
+	0, 54, 35, 39, 40, 41, 46, -2, 0, 195,
+	190, 192, 193, 194, -2, 199, 196, 0, 0, 94,
+	111, 0, 0, 0, 237, 0, 0, 248, 249, 0,
+	250, 251, 245, 0, 0, 0, 0, 262, 0, 122,
+	0, 162, 0, 134, 0, 132, 78, 97, 0, 0,
+	0, 88, 0, 0, 0, 130, 0, 152, 0, 0,
+	222, 226, 223, 227, 0, 157, 220, 224, 221, 225,
+	161, 178, 0, 36, 188, 0, 195, 191, 0, 115,
+	117, 118, 0, 228, 288, 290, 291, 0, 93, 0,
+	232, 247, -2, 242, 253, 260, 263, 0, 267, 268,
+	271, 273, 272, 274, 275, 0, 121, 0, 0, 168,
+	174, 165, 167, 169, 171, 289, 104, 0, 0, 90,
+	129, 133, 141, 150, 153, 154, 156, 53, 189, 0,
+	197, 0, 119, 0, 94, 0, 264, 0, 0, 278,
+	283, 123, 0, 0, 134, 0, 99, 91, 92, 134,
+	0, 198, 116, 292, 233, 235, 276, 0, 0, 280,
+	287, 282, 124, 125, 163, 170, 0, 136, 0, 0,
+	140, 142, 144, 145, 147, 0, 279, 281, 284, 285,
+	286, 100, 102, 0, -2, 0, 0, 0, 277, 137,
+	143, 0, 148, 0, 146,
 }
 
 var yyTok1 = [...]int8{
@@ -1212,1031 +1216,1037 @@ yydefault:
 		}
 	case 34:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:417
+//line asn1.y:419
 		{
-			yyVAL.Imports = append(make([]SymbolsFromModule, 0), yyDollar[1].SymbolsFromModule)
+			yyVAL.Imports = []SymbolsFromModule{yyDollar[1].SymbolsFromModule}
 		}
 	case 35:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:418
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line asn1.y:420
 		{
-			yyVAL.Imports = append(yyDollar[1].Imports, yyDollar[2].SymbolsFromModule)
+			yyVAL.Imports = append([]SymbolsFromModule{{yyDollar[1].SymbolList, GlobalModuleReference{yyDollar[3].name, nil}}}, yyDollar[4].Imports...)
 		}
 	case 36:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-5 : yypt+1]
 //line asn1.y:421
 		{
-			yyVAL.SymbolsFromModule = SymbolsFromModule{yyDollar[1].SymbolList, yyDollar[3].GlobalModuleReference}
+			yyVAL.Imports = append([]SymbolsFromModule{{yyDollar[1].SymbolList, GlobalModuleReference{yyDollar[3].name, yyDollar[4].Value}}}, yyDollar[5].Imports...)
 		}
 	case 37:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:424
 		{
-			yyVAL.GlobalModuleReference = GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}
+			yyVAL.SymbolsFromModule = SymbolsFromModule{yyDollar[1].SymbolList, yyDollar[3].GlobalModuleReference}
 		}
 	case 38:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:427
 		{
-			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
+			yyVAL.GlobalModuleReference = GlobalModuleReference{yyDollar[1].name, nil}
 		}
 	case 39:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line asn1.y:428
 		{
-			yyVAL.Value = yyDollar[1].DefinedValue
+			yyVAL.GlobalModuleReference = GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}
 		}
 	case 40:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:429
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line asn1.y:431
 		{
-			yyVAL.Value = nil
+			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:432
 		{
-			yyVAL.SymbolList = append(make([]Symbol, 0), yyDollar[1].Symbol)
+			yyVAL.Value = yyDollar[1].DefinedValue
 		}
 	case 42:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line asn1.y:435
+		{
+			yyVAL.SymbolList = append(make([]Symbol, 0), yyDollar[1].Symbol)
+		}
+	case 43:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:433
+//line asn1.y:436
 		{
 			yyVAL.SymbolList = append(yyDollar[1].SymbolList, yyDollar[3].Symbol)
 		}
-	case 44:
+	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:440
+//line asn1.y:443
 		{
 			yyVAL.Symbol = TypeReference(yyDollar[1].TypeReference)
 		}
-	case 45:
+	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:441
+//line asn1.y:444
 		{
 			yyVAL.Symbol = ModuleReference(yyDollar[1].name)
 		}
-	case 46:
+	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:442
+//line asn1.y:445
 		{
 			yyVAL.Symbol = ValueReference(yyDollar[1].ValueReference)
 		}
-	case 47:
+	case 48:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:448
+//line asn1.y:451
 		{
 			yyVAL.AssignmentList = AssignmentList{yyDollar[1].Assignment}
 		}
-	case 48:
+	case 49:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:449
+//line asn1.y:452
 		{
 			yyVAL.AssignmentList = append(yyDollar[1].AssignmentList, yyDollar[2].Assignment)
 		}
-	case 51:
+	case 52:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:465
+//line asn1.y:468
 		{
 			yyVAL.Type = yyDollar[1].TypeReference
 		}
-	case 52:
+	case 53:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:473
+//line asn1.y:476
 		{
 			yyVAL.DefinedValue = DefinedValue{ModuleReference(yyDollar[1].name), yyDollar[3].ValueReference}
 		}
-	case 53:
+	case 54:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:474
+//line asn1.y:477
 		{
 			yyVAL.DefinedValue = DefinedValue{ValueName: yyDollar[1].ValueReference}
 		}
-	case 54:
+	case 55:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:489
+//line asn1.y:492
 		{
 			yyVAL.Assignment = TypeAssignment{yyDollar[1].TypeReference, yyDollar[3].Type}
 		}
-	case 55:
+	case 56:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:492
+//line asn1.y:495
 		{
 			yyVAL.Assignment = ValueAssignment{yyDollar[1].ValueReference, yyDollar[2].Type, yyDollar[4].Value}
 		}
-	case 77:
+	case 78:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:539
+//line asn1.y:542
 		{
 			yyVAL.NamedType = NamedType{Identifier: Identifier(yyDollar[1].name), Type: yyDollar[2].Type}
 		}
-	case 81:
+	case 82:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:562
+//line asn1.y:565
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
-	case 83:
+	case 84:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:575
+//line asn1.y:578
 		{
 			yyVAL.Type = BooleanType{}
 		}
-	case 84:
+	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:578
+//line asn1.y:581
 		{
 			yyVAL.Value = Boolean(true)
 		}
-	case 85:
+	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:579
+//line asn1.y:582
 		{
 			yyVAL.Value = Boolean(false)
 		}
-	case 86:
+	case 87:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:584
+//line asn1.y:587
 		{
 			yyVAL.Type = IntegerType{}
 		}
-	case 87:
+	case 88:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:585
+//line asn1.y:588
 		{
 			yyVAL.Type = IntegerType{yyDollar[3].NamedNumberList}
 		}
-	case 88:
+	case 89:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:588
+//line asn1.y:591
 		{
 			yyVAL.NamedNumberList = []NamedNumber{yyDollar[1].NamedNumber}
 		}
-	case 89:
+	case 90:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:589
+//line asn1.y:592
 		{
 			yyVAL.NamedNumberList = append(yyDollar[1].NamedNumberList, yyDollar[3].NamedNumber)
 		}
-	case 90:
+	case 91:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:592
+//line asn1.y:595
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].Number}
 		}
-	case 91:
+	case 92:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:593
+//line asn1.y:596
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].DefinedValue}
 		}
-	case 92:
+	case 93:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:596
+//line asn1.y:599
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
-	case 93:
+	case 94:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:597
+//line asn1.y:600
 		{
 			yyVAL.Number = yyDollar[2].Number.UnaryMinus()
 		}
-	case 94:
+	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:602
+//line asn1.y:605
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
-	case 95:
+	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:603
+//line asn1.y:606
 		{
 			yyVAL.Value = IdentifiedIntegerValue{Name: yyDollar[1].name}
 		}
-	case 96:
+	case 97:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:608
+//line asn1.y:611
 		{
 			yyVAL.Type = yyDollar[3].EnumeratedType
 		}
-	case 97:
+	case 98:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:611
+//line asn1.y:614
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
-	case 98:
+	case 99:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:612
+//line asn1.y:615
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
-	case 99:
+	case 100:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:613
+//line asn1.y:616
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration, AdditionalEnumeration: yyDollar[6].Enumeration}
 		}
-	case 102:
+	case 103:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:621
+//line asn1.y:624
 		{
 			yyVAL.Enumeration = []EnumerationItem{yyDollar[1].EnumerationItem}
 		}
-	case 103:
+	case 104:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:622
+//line asn1.y:625
 		{
 			yyVAL.Enumeration = append([]EnumerationItem{yyDollar[1].EnumerationItem}, yyDollar[3].Enumeration...)
 		}
-	case 104:
+	case 105:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:625
+//line asn1.y:628
 		{
 			yyVAL.EnumerationItem = yyDollar[1].NamedNumber
 		}
-	case 105:
+	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:626
+//line asn1.y:629
 		{
 			yyVAL.EnumerationItem = Identifier(yyDollar[1].name)
 		}
-	case 106:
+	case 107:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:631
+//line asn1.y:634
 		{
 			yyVAL.Type = RealType{}
 		}
-	case 109:
+	case 110:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:640
+//line asn1.y:643
 		{
 			yyVAL.Value = yyDollar[1].Real
 		}
-	case 110:
+	case 111:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:641
+//line asn1.y:644
 		{
 			yyVAL.Value = yyDollar[2].Real.UnaryMinus()
 		}
-	case 111:
+	case 112:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:645
+//line asn1.y:648
 		{
 			yyVAL.Value = Real(math.Inf(1))
 		}
-	case 112:
+	case 113:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:646
+//line asn1.y:649
 		{
 			yyVAL.Value = Real(math.Inf(-1))
 		}
-	case 113:
+	case 114:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:650
+//line asn1.y:653
 		{
 			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, 0)
 		}
-	case 114:
+	case 115:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:651
+//line asn1.y:654
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
-	case 115:
+	case 116:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:652
+//line asn1.y:655
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
-	case 116:
+	case 117:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:653
+//line asn1.y:656
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, "0", yyDollar[3].Number)
 		}
-	case 118:
+	case 119:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:657
+//line asn1.y:660
 		{
 			yyVAL.Number = Number(-int(yyDollar[2].Number))
 		}
-	case 119:
+	case 120:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:662
+//line asn1.y:665
 		{
 			yyVAL.Type = BitStringType{}
 		}
-	case 120:
+	case 121:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:663
+//line asn1.y:666
 		{
 			yyVAL.Type = BitStringType{NamedBits: yyDollar[4].NamedBitList}
 		}
-	case 121:
+	case 122:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:666
+//line asn1.y:669
 		{
 			yyVAL.NamedBitList = append(make([]NamedBit, 0), yyDollar[1].NamedBit)
 		}
-	case 122:
+	case 123:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:667
+//line asn1.y:670
 		{
 			yyVAL.NamedBitList = append(yyDollar[1].NamedBitList, yyDollar[3].NamedBit)
 		}
-	case 123:
+	case 124:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:670
+//line asn1.y:673
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].Number}
 		}
-	case 124:
+	case 125:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:671
+//line asn1.y:674
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].DefinedValue}
 		}
-	case 125:
+	case 126:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:676
+//line asn1.y:679
 		{
 			yyVAL.Type = OctetStringType{}
 		}
-	case 126:
+	case 127:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:681
+//line asn1.y:684
 		{
 			yyVAL.Type = NullType{}
 		}
-	case 127:
+	case 128:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:686
+//line asn1.y:689
 		{
 			yyVAL.Type = SequenceType{}
 		}
-	case 128:
+	case 129:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:687
+//line asn1.y:690
 		{
 			yyVAL.Type = SequenceType{}
 		}
-	case 129:
+	case 130:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:688
+//line asn1.y:691
 		{
 			yyVAL.Type = SequenceType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
-	case 134:
+	case 135:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:700
+//line asn1.y:703
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList}
 		}
-	case 135:
+	case 136:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:701
+//line asn1.y:704
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions}
 		}
-	case 136:
+	case 137:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line asn1.y:702
+//line asn1.y:705
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions, TrailingComponents: yyDollar[7].ComponentTypeList}
 		}
-	case 139:
+	case 140:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:714
+//line asn1.y:717
 		{
 			yyVAL.ExtensionAdditions = yyDollar[2].ExtensionAdditions
 		}
-	case 140:
+	case 141:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:715
+//line asn1.y:718
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
-	case 141:
+	case 142:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:718
+//line asn1.y:721
 		{
 			yyVAL.ExtensionAdditions = append([]ExtensionAddition{}, yyDollar[1].ExtensionAdditions...)
 		}
-	case 142:
+	case 143:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:719
+//line asn1.y:722
 		{
 			yyVAL.ExtensionAdditions = append(yyDollar[1].ExtensionAdditions, yyDollar[3].ExtensionAdditions...)
 		}
-	case 143:
+	case 144:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:722
+//line asn1.y:725
 		{
 			yyVAL.ExtensionAdditions = []ExtensionAddition{yyDollar[1].ComponentType}
 		}
-	case 144:
+	case 145:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:723
+//line asn1.y:726
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
-	case 148:
+	case 149:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:732
+//line asn1.y:735
 		{
 			yyVAL.ComponentTypeList = append(make(ComponentTypeList, 0), yyDollar[1].ComponentType)
 		}
-	case 149:
+	case 150:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:733
+//line asn1.y:736
 		{
 			yyVAL.ComponentTypeList = append(yyDollar[1].ComponentTypeList, yyDollar[3].ComponentType)
 		}
-	case 150:
+	case 151:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:736
+//line asn1.y:739
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType}
 		}
-	case 151:
+	case 152:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:737
+//line asn1.y:740
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, IsOptional: true}
 		}
-	case 152:
+	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:738
+//line asn1.y:741
 		{
 			cpy := yyDollar[3].Value
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
-	case 153:
+	case 154:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:739
+//line asn1.y:742
 		{
 			yyVAL.ComponentType = ComponentsOfComponentType{Type: yyDollar[3].Type}
 		}
-	case 154:
+	case 155:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:744
+//line asn1.y:747
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 155:
+	case 156:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:745
+//line asn1.y:748
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 156:
+	case 157:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:746
+//line asn1.y:749
 		{
 			yyVAL.Type = SetType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
-	case 157:
+	case 158:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:751
+//line asn1.y:754
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].Type}
 		}
-	case 158:
+	case 159:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:752
+//line asn1.y:755
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].NamedType}
 		}
-	case 159:
+	case 160:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:756
+//line asn1.y:759
 		{
 			yyVAL.Type = AnyType{}
 		}
-	case 160:
+	case 161:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:757
+//line asn1.y:760
 		{
 			yyVAL.Type = AnyType{Identifier(yyDollar[4].name)}
 		}
-	case 161:
+	case 162:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:762
+//line asn1.y:765
 		{
 			yyVAL.Type = yyDollar[3].ChoiceType
 		}
-	case 162:
+	case 163:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:765
+//line asn1.y:768
 		{
 			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, yyDollar[4].ExtensionAdditionAlternativesList}
 		}
-	case 163:
+	case 164:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:766
+//line asn1.y:769
 		{
 			yyVAL.ChoiceType = ChoiceType{AlternativeTypeList: yyDollar[1].AlternativeTypeList}
 		}
-	case 164:
+	case 165:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:767
+//line asn1.y:770
 		{
 			yyVAL.ChoiceType = ChoiceType{nil, yyDollar[2].ExtensionAdditionAlternativesList}
 		}
-	case 166:
+	case 167:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:774
+//line asn1.y:777
 		{
 			yyVAL.ExtensionAdditionAlternativesList = yyDollar[2].ExtensionAdditionAlternativesList
 		}
-	case 167:
+	case 168:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:775
+//line asn1.y:778
 		{
 			yyVAL.ExtensionAdditionAlternativesList = make([]ChoiceExtension, 0)
 		}
-	case 168:
+	case 169:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:778
+//line asn1.y:781
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(make([]ChoiceExtension, 0), yyDollar[1].ExtensionAdditionAlternative)
 		}
-	case 169:
+	case 170:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:779
+//line asn1.y:782
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(yyDollar[1].ExtensionAdditionAlternativesList, yyDollar[3].ExtensionAdditionAlternative)
 		}
-	case 170:
+	case 171:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:783
+//line asn1.y:786
 		{
 			yyVAL.ExtensionAdditionAlternative = yyDollar[1].NamedType
 		}
-	case 172:
+	case 173:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:790
+//line asn1.y:793
 		{
 			yyVAL.AlternativeTypeList = append(make([]NamedType, 0), yyDollar[1].NamedType)
 		}
-	case 173:
+	case 174:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:791
+//line asn1.y:794
 		{
 			yyVAL.AlternativeTypeList = append(yyDollar[1].AlternativeTypeList, yyDollar[3].NamedType)
 		}
-	case 174:
+	case 175:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:796
+//line asn1.y:799
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[2].Type}
 		}
-	case 175:
+	case 176:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:797
+//line asn1.y:800
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_IMPLICIT, HasTagType: true}
 		}
-	case 176:
+	case 177:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:798
+//line asn1.y:801
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_EXPLICIT, HasTagType: true}
 		}
-	case 177:
+	case 178:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:801
+//line asn1.y:804
 		{
 			yyVAL.Tag = Tag{Class: yyDollar[2].Class, ClassNumber: yyDollar[3].Value}
 		}
-	case 178:
+	case 179:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:804
+//line asn1.y:807
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
-	case 179:
+	case 180:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:805
+//line asn1.y:808
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
-	case 180:
+	case 181:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:808
+//line asn1.y:811
 		{
 			yyVAL.Class = CLASS_UNIVERSAL
 		}
-	case 181:
+	case 182:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:809
+//line asn1.y:812
 		{
 			yyVAL.Class = CLASS_APPLICATION
 		}
-	case 182:
+	case 183:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:810
+//line asn1.y:813
 		{
 			yyVAL.Class = CLASS_PRIVATE
 		}
-	case 183:
+	case 184:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:811
+//line asn1.y:814
 		{
 			yyVAL.Class = CLASS_CONTEXT_SPECIFIC
 		}
-	case 184:
+	case 185:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:816
+//line asn1.y:819
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].Type}
 		}
-	case 185:
+	case 186:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:817
+//line asn1.y:820
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].NamedType}
 		}
-	case 186:
+	case 187:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:822
+//line asn1.y:825
 		{
 			yyVAL.Type = ObjectIdentifierType{}
 		}
-	case 187:
+	case 188:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:827
+//line asn1.y:830
 		{
 			yyVAL.ObjectIdentifierValue = yyDollar[2].ObjectIdentifierValue
 		}
-	case 188:
+	case 189:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:828
+//line asn1.y:831
 		{
 			cpy := yyDollar[2].DefinedValue
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
-	case 189:
+	case 190:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:831
+//line asn1.y:834
 		{
 			yyVAL.ObjectIdentifierValue = ObjectIdentifierValue{yyDollar[1].ObjectIdElement}
 		}
-	case 190:
+	case 191:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:832
+//line asn1.y:835
 		{
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{yyDollar[1].ObjectIdElement}, yyDollar[2].ObjectIdentifierValue...)
 		}
-	case 191:
+	case 192:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:835
+//line asn1.y:838
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name}
 		}
-	case 194:
+	case 195:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:838
+//line asn1.y:841
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 195:
+	case 196:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:841
+//line asn1.y:844
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{ID: yyDollar[1].Number.IntValue()}
 		}
-	case 196:
+	case 197:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:842
+//line asn1.y:845
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 197:
+	case 198:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:846
+//line asn1.y:849
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name, ID: yyDollar[3].ObjectIdElement.ID, Reference: yyDollar[3].ObjectIdElement.Reference}
 		}
-	case 201:
+	case 202:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:858
+//line asn1.y:861
 		{
 			yyVAL.Type = RestrictedStringType{LexType: BMPString}
 		}
-	case 202:
+	case 203:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:859
+//line asn1.y:862
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GeneralString}
 		}
-	case 203:
+	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:860
+//line asn1.y:863
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GraphicString}
 		}
-	case 204:
+	case 205:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:861
+//line asn1.y:864
 		{
 			yyVAL.Type = RestrictedStringType{LexType: IA5String}
 		}
-	case 205:
+	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:862
+//line asn1.y:865
 		{
 			yyVAL.Type = RestrictedStringType{LexType: ISO646String}
 		}
-	case 206:
+	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:863
+//line asn1.y:866
 		{
 			yyVAL.Type = RestrictedStringType{LexType: NumericString}
 		}
-	case 207:
+	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:864
+//line asn1.y:867
 		{
 			yyVAL.Type = RestrictedStringType{LexType: PrintableString}
 		}
-	case 208:
+	case 209:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:865
+//line asn1.y:868
 		{
 			yyVAL.Type = RestrictedStringType{LexType: TeletexString}
 		}
-	case 209:
+	case 210:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:866
+//line asn1.y:869
 		{
 			yyVAL.Type = RestrictedStringType{LexType: T61String}
 		}
-	case 210:
+	case 211:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:867
+//line asn1.y:870
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UniversalString}
 		}
-	case 211:
+	case 212:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:868
+//line asn1.y:871
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UTF8String}
 		}
-	case 212:
+	case 213:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:869
+//line asn1.y:872
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VideotexString}
 		}
-	case 213:
+	case 214:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:870
+//line asn1.y:873
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VisibleString}
 		}
-	case 214:
+	case 215:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:875
+//line asn1.y:878
 		{
 			yyVAL.Type = CharacterStringType{}
 		}
-	case 215:
+	case 216:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:880
+//line asn1.y:883
 		{
 			yyVAL.Type = TypeReference("GeneralizedTime")
 		}
-	case 216:
+	case 217:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:881
+//line asn1.y:884
 		{
 			yyVAL.Type = TypeReference("UTCTime")
 		}
-	case 217:
+	case 218:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:886
+//line asn1.y:889
 		{
 			yyVAL.Type = ConstraintedType{yyDollar[1].Type, yyDollar[2].Constraint}
 		}
-	case 219:
+	case 220:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:892
+//line asn1.y:895
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
-	case 220:
+	case 221:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:893
+//line asn1.y:896
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 221:
+	case 222:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:894
+//line asn1.y:897
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
-	case 222:
+	case 223:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:895
+//line asn1.y:898
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 223:
+	case 224:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:896
+//line asn1.y:899
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
-	case 224:
+	case 225:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:897
+//line asn1.y:900
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 225:
+	case 226:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:898
+//line asn1.y:901
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
-	case 226:
+	case 227:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:899
+//line asn1.y:902
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 227:
+	case 228:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:904
+//line asn1.y:907
 		{
 			yyVAL.Constraint = Constraint{ConstraintSpec: yyDollar[2].ConstraintSpec}
 		}
-	case 228:
+	case 229:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:907
+//line asn1.y:910
 		{
 			yyVAL.ConstraintSpec = yyDollar[1].SubtypeConstraint
 		}
-	case 231:
+	case 232:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:917
+//line asn1.y:920
 		{
 			yyVAL.SubtypeConstraint = yyDollar[1].SubtypeConstraint
 		}
-	case 232:
+	case 233:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:918
+//line asn1.y:921
 		{
 			yyVAL.SubtypeConstraint = append(yyDollar[1].SubtypeConstraint, yyDollar[5].ElementSetSpec)
 		}
-	case 233:
+	case 234:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:921
+//line asn1.y:924
 		{
 			yyVAL.SubtypeConstraint = SubtypeConstraint{yyDollar[1].ElementSetSpec}
 		}
-	case 235:
+	case 236:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:927
+//line asn1.y:930
 		{
 			yyVAL.ElementSetSpec = yyDollar[1].Unions
 		}
-	case 236:
+	case 237:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:928
+//line asn1.y:931
 		{
 			yyVAL.ElementSetSpec = yyDollar[2].Exclusions
 		}
-	case 237:
+	case 238:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:931
+//line asn1.y:934
 		{
 			yyVAL.Unions = Unions{yyDollar[1].Intersections}
 		}
-	case 238:
+	case 239:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:932
+//line asn1.y:935
 		{
 			yyVAL.Unions = append(yyDollar[1].Unions, yyDollar[3].Intersections)
 		}
-	case 240:
+	case 241:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:938
+//line asn1.y:941
 		{
 			yyVAL.Intersections = Intersections{yyDollar[1].IntersectionElements}
 		}
-	case 241:
+	case 242:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:939
+//line asn1.y:942
 		{
 			yyVAL.Intersections = append(yyDollar[1].Intersections, yyDollar[3].IntersectionElements)
 		}
-	case 243:
+	case 244:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:945
+//line asn1.y:948
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements}
 		}
-	case 244:
+	case 245:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:946
+//line asn1.y:949
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements, Exclusions: yyDollar[2].Exclusions}
 		}
-	case 246:
+	case 247:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:952
+//line asn1.y:955
 		{
 			yyVAL.Exclusions = Exclusions{yyDollar[2].Elements}
 		}
-	case 251:
+	case 252:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:961
+//line asn1.y:964
 		{
 			yyVAL.Elements = yyDollar[1].Elements
 		}
-	case 252:
+	case 253:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:963
+//line asn1.y:966
 		{
 			yyVAL.Elements = yyDollar[2].ElementSetSpec
 		}
-	case 258:
+	case 259:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:978
+//line asn1.y:981
 		{
 			yyVAL.Elements = SingleValue{yyDollar[1].Value}
 		}
-	case 259:
+	case 260:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:983
+//line asn1.y:986
 		{
 			yyVAL.Elements = ValueRange{yyDollar[1].RangeEndpoint, yyDollar[3].RangeEndpoint}
 		}
-	case 260:
+	case 261:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:986
+//line asn1.y:989
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 261:
+	case 262:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:987
+//line asn1.y:990
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value, IsOpen: true}
 		}
-	case 262:
+	case 263:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:990
+//line asn1.y:993
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 263:
+	case 264:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:991
+//line asn1.y:994
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[2].Value, IsOpen: true}
 		}
-	case 265:
+	case 266:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:995
+//line asn1.y:998
 		{
 			yyVAL.Value = nil
 		}
-	case 267:
+	case 268:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:999
+//line asn1.y:1002
 		{
 			yyVAL.Value = nil
 		}
-	case 268:
+	case 269:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:1004
+//line asn1.y:1007
 		{
 			yyVAL.Elements = SizeConstraint{yyDollar[2].Constraint}
 		}
-	case 269:
+	case 270:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1009
+//line asn1.y:1012
 		{
 			yyVAL.Elements = TypeConstraint{yyDollar[1].Type}
 		}
-	case 270:
+	case 271:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1014
+//line asn1.y:1017
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-	case 271:
+	case 272:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1015
+//line asn1.y:1018
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-- 
2.43.0


From d6b094b61ccbfa1830d089c2858d5d713396973f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 21/22] fix: deeply nested block comments exhaust the stack

---
 lexer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lexer.go b/lexer.go
index 2ef4417..a00b22f 100644
--- a/lexer.go
+++ b/lexer.go
@@ -320,6 +320,7 @@ func (lex *MyLexer) skipLineComment() {
 }
 
 func (lex *MyLexer) skipBlockComment() error {
+	depth := 1 // of the nested comments, which may be arbitrarily deep
 	lastIsOpeningSlash := false
 	lastIsClosingStar := false
 	for {
@@ -332,16 +333,17 @@ func (lex *MyLexer) skipBlockComment() error {
 		}
 		if r == '/' {
 			if lastIsClosingStar {
-				return nil
+				depth -= 1
+				if depth == 0 {
+					return nil
+				}
 			} else {
 				lastIsOpeningSlash = true
 				continue
 			}
 		} else if r == '*' {
 			if lastIsOpeningSlash {
-				if err := lex.skipBlockComment(); err != nil {
-					return err
-				}
+				depth += 1
 			} else {
 				lastIsClosingStar = true
 				continue
-- 
2.43.0


From 447648221925fb57820efb07b9eb556091ee9172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 22/22] fix: do not take a signed number of a hex dump for a
 byte

---
 internal/utils/dump.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/utils/dump.go b/internal/utils/dump.go
index aaaab7e..959f6ef 100644
--- a/internal/utils/dump.go
+++ b/internal/utils/dump.go
@@ -18,7 +18,7 @@ func ParseWiresharkHex(str string) []byte {
 			if len(byteRepr) == 0 {
 				continue
 			}
-			x, err := strconv.ParseInt(byteRepr, 16, 9)
+			x, err := strconv.ParseUint(byteRepr, 16, 8)
 			if err != nil {
 				panic(err)
 			}
-- 
2.43.0

