From 61925daccc0f6ae792a6a6a9f03da1a49d82f44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 01/32] fix: do not treat opening of a comment as a part of its
 contents

'---' closed the line comment it had just opened, and '/*/' was a complete
block comment, as second character of the opening was read again.
---
 lexer.go | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/lexer.go b/lexer.go
index 235197c..6871aa0 100644
--- a/lexer.go
+++ b/lexer.go
@@ -131,10 +131,12 @@ func (lex *MyLexer) Lex(lval *yySymType) int {
 			lastWasNumber = false
 			continue
 		} else if r == '-' && lex.peekRune() == '-' {
+			lex.discard(1)
 			lex.skipLineComment()
 			lastWasNumber = false
 			continue
 		} else if r == '/' && lex.peekRune() == '*' {
+			lex.discard(1)
 			lex.skipBlockComment()
 			lastWasNumber = false
 			continue
@@ -297,6 +299,8 @@ func (lex *MyLexer) peekRuneE() (rune, error) {
 	return r, err
 }
 
+// skipLineComment skips the rest of the comment, including its end.
+// Opening of the comment should be already consumed.
 func (lex *MyLexer) skipLineComment() {
 	lastIsHyphen := false
 	for {
@@ -314,31 +318,22 @@ func (lex *MyLexer) skipLineComment() {
 	}
 }
 
+// skipBlockComment skips the rest of the comment, including comments nested in it.
+// Opening of the comment should be already consumed.
 func (lex *MyLexer) skipBlockComment() {
-	lastIsOpeningSlash := false
-	lastIsClosingStar := false
-	for {
+	depth := 1
+	for depth > 0 {
 		r, _, err := lex.readRune()
 		if err == io.EOF {
 			return
 		}
-		if r == '/' {
-			if lastIsClosingStar {
-				return
-			} else {
-				lastIsOpeningSlash = true
-				continue
-			}
-		} else if r == '*' {
-			if lastIsOpeningSlash {
-				lex.skipBlockComment()
-			} else {
-				lastIsClosingStar = true
-				continue
-			}
+		if r == '*' && lex.peekRune() == '/' {
+			lex.discard(1)
+			depth -= 1
+		} else if r == '/' && lex.peekRune() == '*' {
+			lex.discard(1)
+			depth += 1
 		}
-		lastIsClosingStar = false
-		lastIsOpeningSlash = false
 	}
 }
 
-- 
2.43.0


From f1b69f49cc67af40428e6899ef5d695771427061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 02/32] fix: reject text that ends inside of a block comment

---
 lexer.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lexer.go b/lexer.go
index 6871aa0..376a451 100644
--- a/lexer.go
+++ b/lexer.go
@@ -3,6 +3,7 @@ package asn1go
 import (
 	"bufio"
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
@@ -137,7 +138,10 @@ func (lex *MyLexer) Lex(lval *yySymType) int {
 			continue
 		} else if r == '/' && lex.peekRune() == '*' {
 			lex.discard(1)
-			lex.skipBlockComment()
+			if err := lex.skipBlockComment(); err != nil {
+				lex.Error(err.Error())
+				return -1
+			}
 			lastWasNumber = false
 			continue
 		}
@@ -320,12 +324,12 @@ func (lex *MyLexer) skipLineComment() {
 
 // skipBlockComment skips the rest of the comment, including comments nested in it.
 // Opening of the comment should be already consumed.
-func (lex *MyLexer) skipBlockComment() {
+func (lex *MyLexer) skipBlockComment() error {
 	depth := 1
 	for depth > 0 {
 		r, _, err := lex.readRune()
 		if err == io.EOF {
-			return
+			return errors.New("block comment is not terminated")
 		}
 		if r == '*' && lex.peekRune() == '/' {
 			lex.discard(1)
@@ -335,6 +339,7 @@ func (lex *MyLexer) skipBlockComment() {
 			depth += 1
 		}
 	}
+	return nil
 }
 
 func (lex *MyLexer) consumeWord() (string, error) {
-- 
2.43.0


From dc13c4954994333501e9dc2ad387b8c58bed95ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 03/32] fix: fail when input can not be read to its end

Error of the reader was either ignored, letting lexer continue with whatever
the next read returns, or made it to loop forever.
---
 lexer.go  |  7 +++++--
 parser.go | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/lexer.go b/lexer.go
index 376a451..0190943 100644
--- a/lexer.go
+++ b/lexer.go
@@ -287,7 +287,7 @@ func (lex *MyLexer) peekRunes(n int) string {
 				n -= 1
 				break
 			}
-			if err == io.EOF { // TODO if it is not a full rune, will swallow the error
+			if err != nil { // TODO if it is not a full rune, will swallow the error
 				return acc.String()
 			}
 		}
@@ -309,7 +309,7 @@ func (lex *MyLexer) skipLineComment() {
 	lastIsHyphen := false
 	for {
 		r, _, err := lex.readRune()
-		if isNewline(r) || err == io.EOF {
+		if isNewline(r) || err != nil { // any error will be repeated to the caller on next read
 			return
 		} else if r == '-' {
 			if lastIsHyphen {
@@ -331,6 +331,9 @@ func (lex *MyLexer) skipBlockComment() error {
 		if err == io.EOF {
 			return errors.New("block comment is not terminated")
 		}
+		if err != nil {
+			return fmt.Errorf("failed to read: %v", err.Error())
+		}
 		if r == '*' && lex.peekRune() == '/' {
 			lex.discard(1)
 			depth -= 1
diff --git a/parser.go b/parser.go
index 47b1bc6..00cff39 100644
--- a/parser.go
+++ b/parser.go
@@ -2,6 +2,7 @@ package asn1go
 
 import (
 	"bufio"
+	"fmt"
 	"io"
 	"math"
 	"os"
@@ -19,15 +20,45 @@ func ParseString(str string) (*ModuleDefinition, error) {
 
 // ParseStream reads text of ASN.1 definitions from provided reader and parses it into ASN.1 AST.
 func ParseStream(reader io.Reader) (*ModuleDefinition, error) {
+	input := &stickyErrReader{reader: reader}
 	lex := &MyLexer{}
-	lex.bufReader = bufio.NewReader(reader)
+	lex.bufReader = bufio.NewReader(input)
 	yyParse(lex)
+	if input.err != nil && input.err != io.EOF {
+		return nil, fmt.Errorf("failed to read: %v", input.err)
+	}
 	if lex.err != nil {
 		return nil, lex.err
 	}
 	return lex.result, nil
 }
 
+// stickyErrReader never resumes reading after the first error, and keeps it for the caller.
+// bufio.Reader reports an error only once.
+type stickyErrReader struct {
+	reader io.Reader
+	err    error
+	// emptyReads is number of preceding reads that returned neither data nor error.
+	emptyReads int
+}
+
+const maxEmptyReads = 100
+
+// Read implements io.Reader.
+func (r *stickyErrReader) Read(p []byte) (int, error) {
+	if r.err != nil {
+		return 0, r.err
+	}
+	n, err := r.reader.Read(p)
+	if n > 0 || err != nil {
+		r.emptyReads = 0
+	} else if r.emptyReads += 1; r.emptyReads >= maxEmptyReads {
+		err = io.ErrNoProgress
+	}
+	r.err = err
+	return n, err
+}
+
 // ParseFile parses ASN.1 definition file into ASN.1 AST.
 func ParseFile(name string) (*ModuleDefinition, error) {
 	file, err := os.Open(name)
-- 
2.43.0


From 77313ad63c2e371bd984e09c8aefbd1c47675f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 04/32] fix: count CR LF as a single line end in error messages

Also, do not count line end following a token as part of that token.
---
 lexer.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/lexer.go b/lexer.go
index 0190943..53fa698 100644
--- a/lexer.go
+++ b/lexer.go
@@ -109,6 +109,11 @@ type MyLexer struct {
 
 	// lineNo is 0-indexed line number used for error reporting.
 	lineNo int
+	// lastIsCR is true if last rune was carriage return; line feed following it belongs to same line terminator.
+	lastIsCR bool
+	// prevLineNo and prevLastIsCR are values to be restored by unreadRune.
+	prevLineNo   int
+	prevLastIsCR bool
 }
 
 // Lex implements yyLexer.
@@ -250,17 +255,17 @@ func (lex *MyLexer) unreadRune() error {
 	if r != nil {
 		panic(r.Error())
 	}
-	if isNewline(lex.peekRune()) {
-		lex.lineNo -= 1
-	}
+	lex.lineNo, lex.lastIsCR = lex.prevLineNo, lex.prevLastIsCR
 	return r
 }
 
 func (lex *MyLexer) readRune() (rune, int, error) {
 	r, n, err := lex.bufReader.ReadRune()
-	if isNewline(r) {
+	lex.prevLineNo, lex.prevLastIsCR = lex.lineNo, lex.lastIsCR
+	if isNewline(r) && !(r == '\n' && lex.lastIsCR) {
 		lex.lineNo += 1
 	}
+	lex.lastIsCR = r == '\r'
 	return r, n, err
 }
 
@@ -346,20 +351,20 @@ func (lex *MyLexer) skipBlockComment() error {
 }
 
 func (lex *MyLexer) consumeWord() (string, error) {
-	r, _, _ := lex.bufReader.ReadRune()
+	r, _, _ := lex.readRune()
 	acc := bytes.NewBufferString("")
 	acc.WriteRune(r)
 	lastR := r
 	for {
 		r, _, err := lex.readRune()
 		if err == io.EOF || isWhitespace(r) || !isIdentifierChar(r) {
+			if err == nil {
+				lex.unreadRune()
+			}
 			label := acc.String()
 			if label[len(label)-1] == '-' {
 				return "", fmt.Errorf("token can not end on hyphen, got %v", label)
 			}
-			if err == nil {
-				lex.unreadRune()
-			}
 			return label, nil
 		}
 		if err != nil {
@@ -378,7 +383,7 @@ func (lex *MyLexer) consumeWord() (string, error) {
 }
 
 func (lex *MyLexer) consumeNumber(lval *yySymType) int {
-	r, _, err := lex.bufReader.ReadRune()
+	r, _, err := lex.readRune()
 	if err != nil {
 		lex.Error(err.Error())
 		return -1
-- 
2.43.0


From 09dbda13299b72a2d1bd70d54d790ccebe7f13cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 05/32] fix: do not keep pointers to the parser stack in AST

Values on the stack are overwritten later, so default values and references in
object identifiers turned into values of following components.
---
 asn1.y | 4 ++--
 y.go   | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/asn1.y b/asn1.y
index e3ebfb9..c32c9c4 100644
--- a/asn1.y
+++ b/asn1.y
@@ -735,7 +735,7 @@ ComponentTypeList : ComponentType  { $$ = append(make(ComponentTypeList, 0), $1)
 
 ComponentType : NamedType  { $$ = NamedComponentType{NamedType: $1} }
               | NamedType OPTIONAL  { $$ = NamedComponentType{NamedType: $1, IsOptional: true} }
-              | NamedType DEFAULT Value  { $$ = NamedComponentType{NamedType: $1, Default: &$3} }
+              | NamedType DEFAULT Value  { cpy := $3; $$ = NamedComponentType{NamedType: $1, Default: &cpy} }
               | COMPONENTS OF Type  { $$ = ComponentsOfComponentType{Type: $3} }
 ;
 
@@ -825,7 +825,7 @@ ObjectIdentifierType : OBJECT IDENTIFIER  { $$ = ObjectIdentifierType{} }
 // 31.3
 
 ObjectIdentifierValue : OPEN_CURLY ObjIdComponentsList CLOSE_CURLY  { $$ = $2 }
-                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &$2}}, $3...) }
+                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { cpy := $2; $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, $3...) }
 ;
 
 ObjIdComponentsList :  ObjIdComponents  { $$ = ObjectIdentifierValue{$1}  }
diff --git a/y.go b/y.go
index 89762b0..7a09dd6 100644
--- a/y.go
+++ b/y.go
@@ -1670,7 +1670,8 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:738
 		{
-			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &yyDollar[3].Value}
+			cpy := yyDollar[3].Value
+			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
 	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
@@ -1874,7 +1875,8 @@ yydefault:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:828
 		{
-			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &yyDollar[2].DefinedValue}}, yyDollar[3].ObjectIdentifierValue...)
+			cpy := yyDollar[2].DefinedValue
+			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From 3adc05d2975152bfac50034c11fcf2023e809114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:34 +0000
Subject: [PATCH 06/32] fix: parse fraction and exponent of REAL values exactly

Leading zeros of a fraction were lost (1.05 was 1.5), fractions that are
powers of ten were scaled wrong (1.1 was 2), and values were not correctly
rounded. Values out of range are reported instead of turning into infinity.
---
 asn1.y    |  8 ++++----
 parser.go | 28 +++++++++++++++++++---------
 y.go      |  8 ++++----
 3 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/asn1.y b/asn1.y
index c32c9c4..213c7d6 100644
--- a/asn1.y
+++ b/asn1.y
@@ -647,10 +647,10 @@ SpecialRealValue : PLUS_INFINITY  { $$ = Real(math.Inf(1)) }
 ;
 
 // TODO this seem to be not strict enough (spaces can sneak in into composite value)
-realnumber : NUMBER  { $$ = parseRealNumber($1, 0, 0) }
-           | NUMBER DOT NUMBER  { $$ = parseRealNumber($1, $3, 0) }
-           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, $3, $5) }
-           | NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, 0, $3) }
+realnumber : NUMBER  { $$ = yylex.(*MyLexer).parseReal($<numberRepr>1, "", 0) }
+           | NUMBER DOT NUMBER  { $$ = yylex.(*MyLexer).parseReal($<numberRepr>1, $<numberRepr>3, 0) }
+           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = yylex.(*MyLexer).parseReal($<numberRepr>1, $<numberRepr>3, $5) }
+           | NUMBER EXPONENT SignedExponent  { $$ = yylex.(*MyLexer).parseReal($<numberRepr>1, "", $3) }
 ;
 
 SignedExponent : NUMBER
diff --git a/parser.go b/parser.go
index 00cff39..616e8b9 100644
--- a/parser.go
+++ b/parser.go
@@ -4,8 +4,8 @@ import (
 	"bufio"
 	"fmt"
 	"io"
-	"math"
 	"os"
+	"strconv"
 	"strings"
 )
 
@@ -69,14 +69,24 @@ func ParseFile(name string) (*ModuleDefinition, error) {
 	return ParseStream(file)
 }
 
+// parseRealNumber returns value of a real number with fraction that has no leading zeros.
 func parseRealNumber(integer Number, fraction Number, exponent Number) Real {
-	value := float64(integer)
-	if fraction != 0 {
-		shift := float64(math.Pow10(int(math.Ceil(math.Log10(float64(fraction))))))
-		value += float64(fraction) / shift
-	}
-	if exponent != 0 {
-		value *= math.Pow10(int(exponent))
+	value, _ := parseRealLiteral(strconv.Itoa(int(integer)), strconv.Itoa(int(fraction)), exponent)
+	return value
+}
+
+// parseRealLiteral returns value closest to the given decimal number.
+// Digits of the fraction are significant as they are written, and fraction can be empty.
+func parseRealLiteral(integer, fraction string, exponent Number) (Real, error) {
+	value, err := strconv.ParseFloat(fmt.Sprintf("%v.%ve%v", integer, fraction, exponent), 64)
+	return Real(value), err
+}
+
+// parseReal is parseRealLiteral reporting its error as an error of the lexer.
+func (lex *MyLexer) parseReal(integer, fraction string, exponent Number) Real {
+	value, err := parseRealLiteral(integer, fraction, exponent)
+	if err != nil {
+		lex.Error(fmt.Sprintf("Failed to parse number: %v", err.Error()))
 	}
-	return Real(value)
+	return value
 }
diff --git a/y.go b/y.go
index 7a09dd6..fa3ac80 100644
--- a/y.go
+++ b/y.go
@@ -1496,25 +1496,25 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:650
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, 0)
+			yyVAL.Real = yylex.(*MyLexer).parseReal(yyDollar[1].numberRepr, "", 0)
 		}
 	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:651
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, 0)
+			yyVAL.Real = yylex.(*MyLexer).parseReal(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
 	case 115:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line asn1.y:652
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, yyDollar[5].Number)
+			yyVAL.Real = yylex.(*MyLexer).parseReal(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:653
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, yyDollar[3].Number)
+			yyVAL.Real = yylex.(*MyLexer).parseReal(yyDollar[1].numberRepr, "", yyDollar[3].Number)
 		}
 	case 118:
 		yyDollar = yyS[yypt-2 : yypt+1]
-- 
2.43.0


From 8ed3cf3c8560077b57a82237189eb49dd5b93338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 07/32] fix: allow imports from a module without assigned
 identifier to be followed by others

'IMPORTS A FROM B C FROM D;' was a syntax error, as C was taken for the assigned identifier of B.
---
 asn1.y |   20 +-
 y.go   | 1372 ++++++++++++++++++++++++++++----------------------------
 2 files changed, 700 insertions(+), 692 deletions(-)

diff --git a/asn1.y b/asn1.y
index 213c7d6..c22b5de 100644
--- a/asn1.y
+++ b/asn1.y
@@ -57,7 +57,6 @@ import (
     SymbolsFromModule SymbolsFromModule
     SymbolList []Symbol
     Symbol Symbol
-    GlobalModuleReference GlobalModuleReference
     AlternativeTypeList []NamedType
     ChoiceType ChoiceType
     ExtensionAdditionAlternative ChoiceExtension
@@ -295,13 +294,12 @@ import (
 %type <NamedBit> NamedBit
 %type <Imports> Imports
 %type <Imports> SymbolsImported
-%type <Imports> SymbolsFromModuleList
+%type <Imports> SymbolsFromModuleList SymbolsFromModuleOpenList SymbolsFromModuleClosedList
 %type <SymbolsFromModule> SymbolsFromModule
 %type <SymbolList> SymbolList
 %type <Symbol> Symbol
 %type <Symbol> Reference  // quite questionable
 %type <Value> AssignedIdentifier
-%type <GlobalModuleReference> GlobalModuleReference
 %type <Type> ChoiceType
 %type <ChoiceType> AlternativeTypeLists
 %type <AlternativeTypeList> AlternativeTypeList RootAlternativeTypeList
@@ -414,19 +412,25 @@ SymbolsImported : SymbolsFromModuleList  { $$ = $1 }
                 | /*empty*/  { $$ = make([]SymbolsFromModule, 0) }
 ;
 
-SymbolsFromModuleList : SymbolsFromModule  { $$ = append(make([]SymbolsFromModule, 0), $1) }
-                      | SymbolsFromModuleList SymbolsFromModule  { $$ = append($1, $2) }
+// Edited from the doc - list that ends with AssignedIdentifier is separate from the list that does not,
+// so it is not necessary to decide if AssignedIdentifier is empty before seeing what follows the reference.
+SymbolsFromModuleList : SymbolsFromModuleOpenList
+                      | SymbolsFromModuleClosedList
 ;
 
-SymbolsFromModule : SymbolList FROM GlobalModuleReference  { $$ = SymbolsFromModule{$1, $3} }
+SymbolsFromModuleOpenList : SymbolsFromModule  { $$ = append(make([]SymbolsFromModule, 0), $1) }
+                          | SymbolsFromModuleOpenList SymbolsFromModule  { $$ = append($1, $2) }
+                          | SymbolsFromModuleClosedList SymbolsFromModule  { $$ = append($1, $2) }
 ;
 
-GlobalModuleReference : modulereference AssignedIdentifier  { $$ = GlobalModuleReference{$1, $2} }
+SymbolsFromModuleClosedList : SymbolsFromModuleOpenList AssignedIdentifier  { $$ = $1; $$[len($$)-1].Module.AssignedIdentifier = $2 }
+;
+
+SymbolsFromModule : SymbolList FROM modulereference  { $$ = SymbolsFromModule{$1, GlobalModuleReference{Reference: $3}} }
 ;
 
 AssignedIdentifier : ObjectIdentifierValue  { $$ = $1 }
                    | DefinedValue  { $$ = $1 }
-                   | /*empty*/  { $$ = nil }
 ;
 
 SymbolList : Symbol  { $$ = append(make([]Symbol, 0), $1) }
diff --git a/y.go b/y.go
index fa3ac80..658ba5f 100644
--- a/y.go
+++ b/y.go
@@ -59,7 +59,6 @@ type yySymType struct {
 	SymbolsFromModule                 SymbolsFromModule
 	SymbolList                        []Symbol
 	Symbol                            Symbol
-	GlobalModuleReference             GlobalModuleReference
 	AlternativeTypeList               []NamedType
 	ChoiceType                        ChoiceType
 	ExtensionAdditionAlternative      ChoiceExtension
@@ -335,7 +334,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line asn1.y:1071
+//line asn1.y:1075
 
 //line yacctab:1
 var yyExca = [...]int16{
@@ -348,355 +347,359 @@ var yyExca = [...]int16{
 	-1, 47,
 	31, 3,
 	-2, 2,
-	-1, 178,
-	44, 239,
-	94, 239,
-	-2, 235,
-	-1, 180,
-	46, 242,
-	53, 242,
-	-2, 237,
-	-1, 184,
-	60, 245,
-	-2, 243,
-	-1, 193,
-	16, 264,
-	28, 264,
-	-2, 258,
-	-1, 252,
+	-1, 130,
+	30, 48,
+	84, 48,
+	-2, 55,
+	-1, 170,
 	32, 6,
 	-2, 4,
-	-1, 329,
-	46, 242,
-	53, 242,
-	-2, 238,
-	-1, 421,
-	30, 138,
-	-2, 132,
+	-1, 197,
+	44, 241,
+	94, 241,
+	-2, 237,
+	-1, 199,
+	46, 244,
+	53, 244,
+	-2, 239,
+	-1, 203,
+	60, 247,
+	-2, 245,
+	-1, 212,
+	16, 266,
+	28, 266,
+	-2, 260,
+	-1, 337,
+	46, 244,
+	53, 244,
+	-2, 240,
+	-1, 425,
+	30, 140,
+	-2, 134,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 912
+const yyLast = 917
 
 var yyAct = [...]int16{
-	219, 205, 408, 218, 374, 208, 350, 220, 127, 17,
-	193, 177, 259, 317, 313, 17, 281, 277, 238, 291,
-	333, 242, 250, 210, 202, 262, 163, 184, 182, 180,
-	246, 159, 170, 217, 241, 3, 144, 151, 5, 19,
-	168, 38, 29, 295, 19, 416, 11, 9, 19, 168,
-	265, 19, 133, 19, 168, 19, 19, 46, 165, 54,
-	46, 296, 411, 297, 233, 204, 204, 165, 169, 334,
-	45, 54, 165, 45, 273, 227, 215, 169, 274, 46,
-	150, 232, 169, 190, 46, 225, 19, 224, 62, 24,
-	234, 10, 45, 336, 23, 417, 204, 45, 22, 152,
-	266, 172, 336, 21, 35, 31, 148, 42, 137, 142,
-	172, 415, 162, 134, 263, 172, 195, 129, 161, 58,
-	36, 162, 50, 140, 121, 135, 162, 161, 164, 128,
-	164, 128, 161, 211, 214, 61, 268, 155, 203, 260,
-	221, 171, 123, 269, 223, 47, 48, 221, 226, 231,
-	171, 221, 221, 60, 429, 171, 213, 103, 154, 139,
-	216, 139, 59, 128, 239, 228, 400, 253, 370, 245,
-	124, 65, 63, 309, 229, 318, 399, 122, 388, 385,
-	247, 125, 221, 138, 143, 384, 244, 331, 320, 164,
-	141, 126, 136, 44, 40, 53, 44, 32, 41, 271,
-	128, 278, 258, 319, 4, 48, 325, 53, 128, 345,
-	256, 270, 315, 288, 27, 44, 255, 283, 431, 145,
-	44, 343, 310, 289, 344, 430, 290, 422, 342, 430,
-	420, 406, 299, 301, 326, 403, 308, 292, 395, 394,
-	305, 307, 387, 382, 282, 372, 294, 287, 302, 253,
-	253, 286, 280, 222, 261, 62, 275, 15, 230, 425,
-	4, 48, 393, 235, 236, 164, 164, 365, 363, 164,
-	357, 311, 303, 293, 164, 323, 285, 279, 312, 314,
-	165, 199, 338, 335, 25, 30, 132, 322, 347, 211,
-	351, 328, 214, 353, 329, 360, 330, 131, 164, 130,
-	7, 348, 368, 355, 421, 346, 19, 361, 19, 358,
-	352, 327, 272, 64, 356, 354, 375, 28, 204, 359,
-	249, 12, 284, 4, 48, 240, 19, 18, 14, 424,
-	367, 371, 364, 369, 14, 26, 164, 316, 366, 257,
-	18, 298, 300, 19, 377, 335, 278, 47, 48, 304,
-	306, 4, 48, 254, 48, 373, 4, 252, 254, 4,
-	380, 321, 378, 381, 379, 383, 55, 48, 414, 397,
-	396, 376, 164, 341, 164, 340, 339, 324, 337, 267,
-	264, 390, 389, 423, 392, 410, 398, 405, 409, 402,
-	351, 55, 19, 168, 39, 34, 377, 377, 1, 412,
-	413, 401, 209, 418, 207, 211, 404, 206, 212, 419,
-	407, 165, 386, 349, 362, 201, 200, 187, 72, 120,
-	153, 169, 243, 409, 426, 427, 43, 428, 57, 56,
-	37, 360, 276, 69, 94, 77, 86, 149, 237, 99,
-	179, 93, 110, 100, 102, 84, 82, 139, 81, 80,
-	198, 79, 67, 85, 172, 91, 88, 90, 95, 114,
-	106, 71, 111, 197, 89, 162, 96, 113, 332, 194,
-	192, 161, 119, 104, 97, 191, 92, 107, 55, 19,
-	168, 108, 186, 189, 188, 109, 185, 183, 181, 178,
-	391, 115, 176, 175, 171, 105, 174, 173, 165, 116,
-	87, 68, 112, 117, 187, 33, 120, 118, 169, 49,
-	98, 196, 101, 51, 52, 167, 166, 157, 160, 78,
-	158, 94, 156, 248, 251, 83, 99, 73, 93, 110,
-	100, 75, 66, 70, 139, 74, 76, 198, 6, 16,
-	13, 172, 2, 88, 8, 95, 114, 106, 20, 111,
-	0, 89, 162, 96, 113, 0, 0, 0, 161, 119,
-	104, 97, 0, 92, 107, 47, 48, 325, 108, 0,
-	0, 0, 109, 0, 0, 0, 0, 0, 115, 0,
-	0, 171, 105, 0, 0, 0, 116, 0, 0, 112,
-	117, 0, 0, 120, 118, 326, 0, 98, 196, 101,
-	0, 0, 0, 0, 0, 0, 0, 0, 94, 0,
-	0, 0, 0, 99, 0, 93, 110, 100, 0, 0,
+	238, 224, 412, 237, 379, 227, 358, 239, 136, 17,
+	212, 196, 270, 325, 292, 17, 262, 257, 302, 288,
+	341, 229, 199, 221, 183, 168, 201, 203, 273, 166,
+	189, 162, 236, 153, 5, 38, 306, 165, 3, 160,
+	29, 11, 9, 420, 19, 19, 284, 142, 19, 308,
+	285, 149, 19, 187, 307, 415, 144, 137, 223, 209,
+	19, 252, 137, 276, 251, 46, 244, 54, 46, 243,
+	223, 128, 253, 45, 64, 127, 45, 24, 23, 54,
+	246, 188, 159, 214, 22, 19, 10, 148, 130, 46,
+	21, 35, 148, 421, 46, 223, 129, 45, 19, 187,
+	31, 161, 45, 274, 36, 234, 344, 19, 187, 419,
+	146, 151, 157, 277, 191, 143, 138, 128, 150, 342,
+	42, 123, 279, 145, 60, 182, 128, 188, 132, 280,
+	171, 181, 179, 271, 63, 62, 188, 184, 67, 184,
+	240, 240, 230, 233, 240, 163, 175, 222, 47, 48,
+	134, 105, 344, 242, 190, 50, 240, 245, 250, 137,
+	191, 147, 152, 232, 375, 171, 171, 433, 235, 191,
+	174, 182, 320, 247, 326, 258, 61, 181, 404, 403,
+	182, 240, 248, 124, 131, 133, 181, 44, 154, 53,
+	44, 126, 4, 48, 333, 261, 263, 40, 390, 137,
+	190, 53, 327, 265, 389, 65, 372, 339, 184, 190,
+	44, 44, 41, 328, 135, 32, 44, 353, 282, 269,
+	289, 267, 334, 299, 264, 27, 435, 266, 173, 241,
+	434, 137, 351, 281, 249, 352, 294, 434, 300, 254,
+	255, 301, 426, 424, 410, 407, 303, 399, 398, 392,
+	387, 310, 312, 293, 377, 319, 305, 298, 297, 316,
+	318, 291, 272, 64, 286, 429, 313, 47, 48, 15,
+	397, 371, 365, 321, 314, 304, 184, 184, 296, 290,
+	184, 323, 260, 25, 350, 184, 218, 128, 331, 141,
+	322, 140, 139, 346, 343, 7, 330, 30, 337, 355,
+	230, 359, 336, 233, 361, 338, 368, 373, 295, 184,
+	19, 356, 19, 425, 366, 354, 363, 360, 369, 335,
+	380, 66, 223, 364, 362, 283, 28, 309, 311, 367,
+	428, 167, 12, 19, 18, 315, 317, 376, 374, 14,
+	4, 48, 259, 324, 184, 14, 26, 4, 48, 172,
+	268, 18, 382, 343, 289, 332, 4, 170, 172, 47,
+	48, 55, 48, 378, 19, 48, 4, 329, 418, 386,
+	385, 384, 383, 388, 401, 400, 381, 184, 349, 184,
+	348, 347, 345, 278, 275, 427, 394, 393, 414, 396,
+	409, 402, 370, 413, 406, 359, 55, 19, 187, 39,
+	382, 382, 34, 416, 417, 405, 1, 228, 422, 230,
+	408, 226, 225, 423, 231, 411, 128, 391, 357, 220,
+	219, 74, 206, 125, 122, 43, 188, 413, 430, 431,
+	59, 432, 58, 57, 56, 368, 37, 287, 71, 96,
+	79, 88, 158, 256, 101, 198, 95, 112, 102, 104,
+	86, 84, 148, 83, 82, 217, 81, 69, 87, 191,
+	93, 90, 92, 97, 116, 108, 73, 113, 216, 91,
+	182, 98, 115, 340, 213, 211, 181, 121, 106, 99,
+	210, 94, 109, 55, 19, 187, 110, 205, 208, 207,
+	111, 204, 202, 200, 197, 395, 117, 195, 194, 190,
+	107, 193, 192, 128, 118, 89, 70, 114, 119, 206,
+	33, 122, 120, 188, 49, 100, 215, 103, 51, 52,
+	186, 185, 177, 180, 80, 178, 96, 176, 164, 169,
+	85, 101, 75, 95, 112, 102, 77, 68, 72, 148,
+	76, 78, 217, 6, 16, 13, 191, 2, 90, 8,
+	97, 116, 108, 20, 113, 0, 91, 182, 98, 115,
+	0, 0, 0, 181, 121, 106, 99, 0, 94, 109,
+	47, 48, 333, 110, 0, 0, 0, 111, 0, 0,
+	0, 0, 0, 117, 0, 0, 190, 107, 0, 0,
+	0, 118, 0, 0, 114, 119, 0, 0, 122, 120,
+	334, 0, 100, 215, 103, 0, 0, 0, 0, 0,
+	0, 0, 0, 96, 0, 0, 0, 0, 101, 0,
+	95, 112, 102, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 90, 0, 97, 116, 108,
+	0, 113, 0, 91, 55, 98, 115, 0, 0, 0,
+	0, 121, 106, 99, 0, 94, 109, 0, 0, 0,
+	110, 0, 0, 0, 111, 0, 0, 0, 0, 0,
+	117, 0, 122, 0, 107, 0, 0, 0, 118, 0,
+	0, 114, 119, 0, 0, 0, 120, 96, 0, 100,
+	0, 103, 101, 0, 95, 112, 102, 0, 0, 0,
+	0, 0, 156, 0, 0, 0, 0, 0, 0, 90,
+	0, 97, 116, 108, 0, 113, 0, 91, 0, 98,
+	115, 55, 19, 0, 0, 121, 106, 99, 0, 94,
+	109, 0, 0, 0, 110, 0, 0, 0, 111, 0,
+	0, 0, 0, 0, 117, 0, 155, 0, 107, 122,
+	0, 0, 118, 0, 0, 114, 119, 0, 0, 0,
+	120, 0, 0, 100, 96, 103, 0, 0, 0, 101,
+	0, 95, 112, 102, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 90, 0, 97, 116,
+	108, 0, 113, 0, 91, 55, 98, 115, 0, 0,
+	0, 0, 121, 106, 99, 0, 94, 109, 0, 0,
+	0, 110, 0, 0, 0, 111, 0, 0, 0, 0,
+	0, 117, 0, 122, 0, 107, 0, 0, 0, 118,
+	0, 0, 114, 119, 0, 0, 0, 120, 96, 0,
+	100, 0, 103, 101, 0, 95, 112, 102, 0, 0,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	88, 0, 95, 114, 106, 0, 111, 0, 89, 55,
-	96, 113, 0, 0, 0, 0, 119, 104, 97, 0,
-	92, 107, 0, 0, 0, 108, 0, 0, 0, 109,
-	0, 0, 0, 0, 0, 115, 0, 120, 0, 105,
-	0, 0, 0, 116, 0, 0, 112, 117, 0, 0,
-	0, 118, 94, 0, 98, 0, 101, 99, 0, 93,
-	110, 100, 0, 0, 0, 0, 0, 147, 0, 0,
-	0, 0, 0, 0, 88, 0, 95, 114, 106, 0,
-	111, 0, 89, 0, 96, 113, 55, 19, 0, 0,
-	119, 104, 97, 0, 92, 107, 0, 0, 0, 108,
-	0, 0, 0, 109, 0, 0, 0, 0, 0, 115,
-	0, 146, 0, 105, 120, 0, 0, 116, 0, 0,
-	112, 117, 0, 0, 0, 118, 0, 0, 98, 94,
-	101, 0, 0, 0, 99, 0, 93, 110, 100, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 95, 114, 106, 0, 111, 0, 89,
-	55, 96, 113, 0, 0, 0, 0, 119, 104, 97,
-	0, 92, 107, 0, 0, 0, 108, 0, 0, 0,
-	109, 0, 0, 0, 0, 0, 115, 0, 120, 0,
-	105, 0, 0, 0, 116, 0, 0, 112, 117, 0,
-	0, 0, 118, 94, 0, 98, 0, 101, 99, 0,
-	93, 110, 100, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 88, 0, 95, 114, 106,
-	0, 111, 0, 89, 0, 96, 113, 0, 0, 0,
-	0, 119, 104, 97, 0, 92, 107, 0, 0, 0,
-	108, 0, 0, 0, 109, 0, 0, 0, 0, 0,
-	115, 0, 0, 0, 105, 0, 0, 0, 116, 0,
-	0, 112, 117, 0, 0, 0, 118, 0, 0, 98,
-	0, 101,
+	90, 0, 97, 116, 108, 0, 113, 0, 91, 0,
+	98, 115, 0, 0, 0, 0, 121, 106, 99, 0,
+	94, 109, 0, 0, 0, 110, 0, 0, 0, 111,
+	0, 0, 0, 0, 0, 117, 0, 0, 0, 107,
+	0, 0, 0, 118, 0, 0, 114, 119, 0, 0,
+	0, 120, 0, 0, 100, 0, 103,
 }
 
 var yyPact = [...]int16{
-	353, -1000, -81, 274, -1000, -17, -1000, 319, 31, 20,
-	16, 11, 257, 319, -1000, -1000, -1000, 182, -1000, -1000,
-	302, -70, -1000, -1000, -1000, -1000, -1000, 332, 38, -1000,
-	164, 36, -1000, 68, -75, 139, -1000, 360, 341, 111,
-	93, 225, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 360,
-	-1000, -1000, -1000, 298, 784, -1000, 82, 341, -1000, 58,
-	-1000, -1000, 341, -1000, 784, 176, -1000, -1000, -1000, -1000,
+	360, -1000, -85, 269, -1000, -22, -1000, 326, 18, 6,
+	0, -1, 256, 326, -1000, -1000, -1000, 193, -1000, -1000,
+	311, -72, -1000, -1000, -1000, -1000, -1000, 343, 33, -1000,
+	182, 23, -1000, 52, -81, 142, -1000, 355, 353, 93,
+	92, 233, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 355,
+	-1000, -1000, -1000, 306, 789, -1000, 79, -1000, 261, 353,
+	-1000, 44, -1000, -1000, 353, -1000, 789, 199, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 51, -1000,
-	-1000, -1000, 273, 271, 260, -1000, -52, 47, -1000, 99,
-	97, -92, 633, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 40,
-	-22, -1000, -1000, 353, -1000, 168, 46, -1000, 385, 255,
-	301, 336, 336, -1000, -1000, 49, 710, -6, -8, 168,
-	48, 710, -12, -29, 7, 168, 784, 784, -1000, 317,
-	-1000, -1000, -1000, -1000, 254, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 350, -1000, -1000, 185, 331,
-	-1000, -1000, -1000, 94, -1000, -1000, 224, -1000, -1000, 54,
-	-1000, 6, -1000, 90, -1000, 54, -1000, 385, -1000, -1000,
-	-1000, -1000, -1000, -1000, 296, 168, -25, 228, -1000, 336,
-	250, 222, 214, -1000, 94, 784, 249, 221, -1000, 217,
-	-1000, 181, 196, -1000, 181, -1000, 207, 246, 216, -1000,
-	-54, -30, 168, -1000, 710, 710, -1000, -1000, 207, 245,
-	168, -1000, 710, 710, 336, 168, 168, 138, -1000, -1000,
-	-1000, 191, -1000, -1000, -1000, -1000, 244, 350, 350, -1000,
-	-1000, -1000, -1000, 180, -1000, 329, 167, 185, -1000, 155,
-	559, 294, -1000, 472, 472, -1000, -1000, 472, -1000, -1000,
-	-1000, 154, 41, 168, 202, -1000, 194, -1000, 177, -1000,
-	301, 207, 336, -1000, 168, -1000, 293, 336, 198, -1000,
-	336, 243, 292, -1000, 79, -1000, 46, 784, 168, -1000,
-	168, -1000, 241, -1000, 168, -1000, 168, -1000, -1000, -1000,
-	347, -1000, 240, -1000, -1000, 345, 277, -1000, -1000, 325,
-	-1000, -1000, -1000, -1000, 131, -1000, 323, 215, -1000, -1000,
-	-1000, -1000, -1000, -1000, 32, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 299, -1000, 336, 317, 214, -1000, -1000, 213,
-	-1000, -1000, 94, -1000, 152, 146, -1000, -1000, -1000, 212,
-	-1000, -1000, 168, -1000, -1000, -1000, 145, -1000, 167, -1000,
-	46, -1000, 385, -1000, 235, 209, 208, 168, -1000, 143,
-	133, 207, 336, 205, -1000, -1000, 201, 44, -1000, -1000,
-	-1000, -1000, -1000, -1000, 336, 336, -1000, -2, -1000, -1000,
-	-1000, -1000, -1000, 336, -1000, 200, 287, 197, -1000, -1000,
-	-1000, 321, 232, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	37, -1000, 44, 37, 117, -1000, 195, -1000, 199, -1000,
-	37, -1000,
+	50, -1000, -1000, -1000, 266, 265, 263, -1000, -57, 49,
+	-1000, 30, 25, -95, 638, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, 46, -20, -1000, -1000, -1000, -1000, -1000, 350, 197,
+	-1000, -1000, 360, -1000, 167, 100, -1000, 390, 260, 305,
+	357, 357, -1000, -1000, 78, 715, -24, -27, 167, 53,
+	715, -29, -32, -11, 167, 789, 789, -1000, 334, -1000,
+	-1000, -1000, 255, 350, 350, 197, -1000, -1000, -1000, -1000,
+	-1000, 192, -1000, 358, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 196, 342, -1000,
+	-1000, -1000, 88, -1000, -1000, 232, -1000, -1000, 43, -1000,
+	19, -1000, 76, -1000, 43, -1000, 390, -1000, -1000, -1000,
+	-1000, -1000, -1000, 309, 167, -53, 236, -1000, 357, 252,
+	231, 223, -1000, 88, 789, 251, 228, -1000, 227, -1000,
+	191, 211, -1000, 191, -1000, 216, 248, 226, -1000, -61,
+	-44, 167, -1000, 715, 715, -1000, -1000, 216, 247, 167,
+	-1000, 715, 715, 357, 167, 167, 137, -1000, -1000, -1000,
+	-1000, 246, -1000, -1000, 341, -1000, 335, 166, 196, -1000,
+	180, 564, 302, -1000, 477, 477, -1000, -1000, 477, -1000,
+	-1000, -1000, 174, 91, 167, 258, -1000, 205, -1000, 185,
+	-1000, 305, 216, 357, -1000, 167, -1000, 300, 357, 186,
+	-1000, 357, 245, 297, -1000, 41, -1000, 100, 789, 167,
+	-1000, 167, -1000, 244, -1000, 167, -1000, 167, -1000, -1000,
+	-1000, -1000, 173, -1000, 282, -1000, -1000, 330, -1000, -1000,
+	-1000, -1000, 127, -1000, 329, 224, -1000, -1000, -1000, -1000,
+	-1000, -1000, 45, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	303, -1000, 357, 334, 223, -1000, -1000, 220, -1000, -1000,
+	88, -1000, 171, 165, -1000, -1000, -1000, 219, -1000, -1000,
+	167, -1000, -1000, 166, -1000, 100, -1000, 390, -1000, 243,
+	218, 217, 167, -1000, 146, 145, 216, 357, 215, -1000,
+	-1000, 214, 37, -1000, -1000, -1000, -1000, -1000, 357, 357,
+	-1000, -4, -1000, -1000, -1000, -1000, -1000, 357, -1000, 213,
+	296, 212, -1000, -1000, -1000, 322, 238, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 38, -1000, 37, 38, 130, -1000,
+	200, -1000, 207, -1000, 38, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 32, 13, 34, 157, 1, 548, 544, 542, 540,
-	257, 321, 539, 538, 320, 14, 536, 535, 533, 532,
-	116, 531, 527, 525, 7, 22, 524, 523, 30, 31,
-	522, 10, 520, 519, 518, 517, 516, 515, 26, 18,
-	122, 514, 513, 509, 505, 21, 501, 500, 8, 497,
-	496, 493, 492, 490, 11, 489, 488, 29, 487, 28,
-	25, 27, 486, 484, 483, 482, 475, 470, 83, 469,
-	468, 463, 20, 461, 457, 455, 453, 452, 451, 449,
-	448, 446, 0, 3, 446, 33, 445, 444, 438, 437,
-	436, 435, 433, 432, 17, 430, 429, 428, 119, 162,
-	107, 426, 422, 420, 418, 416, 415, 415, 6, 16,
-	413, 412, 410, 2, 23, 408, 407, 5, 404, 403,
-	402, 398, 395, 394, 12, 24, 19, 387, 385, 383,
-	383, 380, 379, 378, 376, 375, 373, 4, 371, 370,
-	369, 368, 361,
+	0, 30, 13, 37, 151, 1, 553, 549, 547, 545,
+	269, 332, 544, 543, 331, 16, 541, 540, 538, 537,
+	83, 536, 532, 530, 7, 25, 529, 528, 31, 132,
+	527, 10, 525, 524, 523, 522, 521, 520, 24, 17,
+	155, 519, 518, 514, 510, 29, 506, 505, 8, 502,
+	501, 498, 497, 495, 11, 494, 493, 22, 492, 26,
+	28, 27, 491, 489, 488, 487, 480, 475, 59, 474,
+	473, 468, 20, 466, 462, 460, 458, 457, 456, 454,
+	453, 451, 0, 3, 451, 32, 450, 449, 443, 442,
+	441, 440, 438, 437, 19, 436, 434, 433, 432, 430,
+	124, 176, 120, 425, 423, 421, 420, 419, 419, 6,
+	14, 418, 417, 415, 2, 21, 414, 412, 5, 411,
+	408, 407, 406, 402, 399, 12, 23, 18, 390, 388,
+	385, 385, 384, 383, 382, 381, 380, 378, 4, 376,
+	375, 374, 368, 367,
 }
 
 var yyR1 = [...]uint8{
-	0, 121, 4, 3, 45, 39, 5, 8, 13, 13,
+	0, 122, 4, 3, 45, 39, 5, 8, 13, 13,
 	11, 11, 9, 9, 9, 10, 12, 7, 7, 7,
-	7, 6, 6, 44, 44, 122, 122, 122, 123, 123,
-	95, 95, 96, 96, 97, 97, 98, 103, 102, 102,
-	102, 99, 99, 100, 101, 101, 101, 43, 43, 40,
-	40, 76, 15, 15, 42, 41, 20, 20, 20, 19,
-	19, 19, 19, 19, 19, 19, 19, 19, 19, 19,
-	19, 19, 19, 19, 19, 77, 77, 24, 31, 30,
-	30, 30, 30, 18, 35, 35, 17, 17, 115, 115,
-	114, 114, 38, 38, 32, 32, 22, 116, 116, 116,
-	118, 119, 117, 117, 120, 120, 33, 34, 34, 36,
-	36, 37, 37, 1, 1, 1, 1, 2, 2, 92,
-	92, 93, 93, 94, 94, 91, 21, 78, 78, 78,
-	125, 125, 126, 126, 85, 85, 85, 84, 127, 111,
-	111, 112, 112, 113, 113, 128, 129, 129, 83, 83,
-	82, 82, 82, 82, 80, 80, 80, 81, 81, 23,
-	23, 104, 105, 105, 105, 107, 109, 109, 110, 110,
-	108, 130, 106, 106, 86, 86, 86, 87, 88, 88,
-	89, 89, 89, 89, 79, 79, 16, 29, 29, 28,
-	28, 27, 27, 27, 27, 25, 25, 26, 14, 73,
-	73, 74, 74, 74, 74, 74, 74, 74, 74, 74,
-	74, 74, 74, 74, 75, 90, 90, 46, 46, 47,
-	47, 47, 47, 47, 47, 47, 47, 48, 49, 50,
-	51, 51, 51, 52, 53, 54, 54, 55, 55, 56,
-	57, 57, 58, 59, 59, 62, 60, 131, 131, 132,
-	132, 61, 61, 65, 65, 65, 65, 65, 63, 64,
-	69, 69, 70, 70, 71, 71, 72, 72, 68, 66,
-	67, 67, 133, 134, 134, 135, 136, 137, 137, 138,
-	139, 140, 140, 141, 141, 141, 141, 124, 124, 142,
-	142, 142,
+	7, 6, 6, 44, 44, 123, 123, 123, 124, 124,
+	95, 95, 96, 96, 97, 97, 98, 98, 98, 99,
+	100, 104, 104, 101, 101, 102, 103, 103, 103, 43,
+	43, 40, 40, 76, 15, 15, 42, 41, 20, 20,
+	20, 19, 19, 19, 19, 19, 19, 19, 19, 19,
+	19, 19, 19, 19, 19, 19, 19, 77, 77, 24,
+	31, 30, 30, 30, 30, 18, 35, 35, 17, 17,
+	116, 116, 115, 115, 38, 38, 32, 32, 22, 117,
+	117, 117, 119, 120, 118, 118, 121, 121, 33, 34,
+	34, 36, 36, 37, 37, 1, 1, 1, 1, 2,
+	2, 92, 92, 93, 93, 94, 94, 91, 21, 78,
+	78, 78, 126, 126, 127, 127, 85, 85, 85, 84,
+	128, 112, 112, 113, 113, 114, 114, 129, 130, 130,
+	83, 83, 82, 82, 82, 82, 80, 80, 80, 81,
+	81, 23, 23, 105, 106, 106, 106, 108, 110, 110,
+	111, 111, 109, 131, 107, 107, 86, 86, 86, 87,
+	88, 88, 89, 89, 89, 89, 79, 79, 16, 29,
+	29, 28, 28, 27, 27, 27, 27, 25, 25, 26,
+	14, 73, 73, 74, 74, 74, 74, 74, 74, 74,
+	74, 74, 74, 74, 74, 74, 75, 90, 90, 46,
+	46, 47, 47, 47, 47, 47, 47, 47, 47, 48,
+	49, 50, 51, 51, 51, 52, 53, 54, 54, 55,
+	55, 56, 57, 57, 58, 59, 59, 62, 60, 132,
+	132, 133, 133, 61, 61, 65, 65, 65, 65, 65,
+	63, 64, 69, 69, 70, 70, 71, 71, 72, 72,
+	68, 66, 67, 67, 134, 135, 135, 136, 137, 138,
+	138, 139, 140, 141, 141, 142, 142, 142, 142, 125,
+	125, 143, 143, 143,
 }
 
 var yyR2 = [...]int8{
 	0, 8, 1, 1, 1, 1, 1, 2, 3, 0,
 	1, 2, 1, 1, 1, 1, 4, 2, 2, 2,
 	0, 2, 0, 3, 0, 3, 3, 0, 1, 0,
-	3, 0, 1, 0, 1, 2, 3, 2, 1, 1,
-	0, 1, 3, 1, 1, 1, 1, 1, 2, 1,
-	1, 1, 3, 1, 3, 4, 1, 1, 1, 1,
+	3, 0, 1, 0, 1, 1, 1, 2, 2, 2,
+	3, 1, 1, 1, 3, 1, 1, 1, 1, 1,
+	2, 1, 1, 1, 3, 1, 3, 4, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 2, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 4, 1, 3,
-	4, 4, 1, 2, 1, 1, 4, 1, 4, 6,
-	1, 1, 1, 3, 1, 1, 1, 1, 1, 1,
-	2, 1, 1, 1, 3, 5, 3, 1, 2, 2,
-	5, 1, 3, 4, 4, 2, 1, 3, 5, 4,
-	1, 2, 2, 0, 1, 5, 7, 1, 2, 2,
-	0, 1, 3, 1, 1, 4, 0, 2, 1, 3,
-	1, 2, 3, 3, 3, 5, 4, 3, 3, 1,
-	4, 4, 5, 1, 3, 1, 2, 0, 1, 3,
-	1, 4, 1, 3, 2, 3, 3, 4, 1, 1,
-	1, 1, 1, 0, 3, 3, 2, 3, 4, 1,
-	2, 1, 1, 1, 1, 1, 1, 4, 1, 1,
+	1, 1, 1, 1, 1, 1, 1, 1, 1, 2,
+	1, 1, 1, 1, 1, 1, 1, 1, 1, 4,
+	1, 3, 4, 4, 1, 2, 1, 1, 4, 1,
+	4, 6, 1, 1, 1, 3, 1, 1, 1, 1,
+	1, 1, 2, 1, 1, 1, 3, 5, 3, 1,
+	2, 2, 5, 1, 3, 4, 4, 2, 1, 3,
+	5, 4, 1, 2, 2, 0, 1, 5, 7, 1,
+	2, 2, 0, 1, 3, 1, 1, 4, 0, 2,
+	1, 3, 1, 2, 3, 3, 3, 5, 4, 3,
+	3, 1, 4, 4, 5, 1, 3, 1, 2, 0,
+	1, 3, 1, 4, 1, 3, 2, 3, 3, 4,
+	1, 1, 1, 1, 1, 0, 3, 3, 2, 3,
+	4, 1, 2, 1, 1, 1, 1, 1, 1, 4,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 2, 1, 1, 2, 1, 4,
-	4, 4, 4, 4, 4, 4, 4, 4, 1, 1,
-	1, 3, 5, 1, 1, 1, 2, 1, 3, 1,
-	1, 3, 1, 1, 2, 1, 2, 1, 1, 1,
-	1, 1, 3, 1, 1, 1, 1, 1, 1, 3,
-	1, 2, 1, 2, 1, 1, 1, 1, 2, 1,
-	3, 3, 1, 1, 1, 3, 5, 1, 3, 2,
-	2, 1, 0, 1, 1, 1, 0, 2, 0, 1,
-	1, 3,
+	1, 1, 1, 1, 1, 1, 2, 1, 1, 2,
+	1, 4, 4, 4, 4, 4, 4, 4, 4, 4,
+	1, 1, 1, 3, 5, 1, 1, 1, 2, 1,
+	3, 1, 1, 3, 1, 1, 2, 1, 2, 1,
+	1, 1, 1, 1, 3, 1, 1, 1, 1, 1,
+	1, 3, 1, 2, 1, 2, 1, 1, 1, 1,
+	2, 1, 3, 3, 1, 1, 1, 3, 5, 1,
+	3, 2, 2, 1, 0, 1, 1, 1, 0, 2,
+	0, 1, 1, 3,
 }
 
 var yyChk = [...]int16{
-	-1000, -121, -8, -3, 6, 119, -13, 26, -7, 64,
+	-1000, -122, -8, -3, 6, 119, -13, 26, -7, 64,
 	108, 63, -11, -9, -14, -10, -12, -5, 8, 7,
 	-6, 72, 78, 78, 78, 27, -11, 32, 15, 112,
-	-10, 67, 33, -44, -122, 68, 52, -95, 116, -123,
-	55, -99, -100, -101, -4, -3, -45, 6, 7, -43,
+	-10, 67, 33, -44, -123, 68, 52, -95, 116, -124,
+	55, -101, -102, -103, -4, -3, -45, 6, 7, -43,
 	-40, -42, -41, -4, -45, 6, -96, -97, -98, -99,
-	42, 42, 30, -40, 15, -20, -19, -77, -46, -92,
-	-18, -73, -104, -22, -17, -21, -16, -91, -33, -78,
-	-79, -80, -81, -23, -86, -76, -90, -47, 71, 79,
-	-74, -75, 91, 56, 49, 73, 81, 89, 125, 54,
-	58, 127, -87, -4, 88, 110, 75, 92, 96, 100,
-	57, 77, 117, 82, 74, 106, 114, 118, 122, 87,
-	34, 42, -98, 84, -100, -20, 15, -48, 32, 66,
-	26, 26, 26, 104, 66, 26, 93, -48, -68, 62,
-	26, 93, -48, -68, 128, -20, 108, 64, 66, -89,
-	102, 59, 121, -103, -3, -31, -30, -35, -32, -29,
-	-34, 86, 80, -38, -5, 26, -36, -37, 8, 36,
-	-1, 109, 69, -49, -50, -51, -52, -54, -55, 55,
-	-57, -56, -59, -58, -61, -62, -65, 32, -63, -64,
-	-68, -66, -67, -31, -69, -20, 126, -71, 65, 26,
-	-105, -106, -125, -24, 17, -5, -116, -118, -117, -120,
-	-114, -5, -115, -114, -5, 27, -125, -85, -83, -82,
-	-24, 103, -20, -24, 93, 93, -48, 27, -125, -85,
-	-20, -24, 93, 93, 83, -20, -20, -88, -39, -15,
-	8, -3, -45, -102, -29, -15, -28, -15, -27, -14,
-	-25, -26, 7, -5, 8, 31, 25, 8, -1, -124,
-	45, 30, -60, 60, -131, 44, 94, -132, 46, 53,
-	-60, -54, 16, 99, 103, 28, -93, -94, -5, 27,
-	30, -109, 30, -124, -20, 27, 30, 30, 32, 27,
-	30, -126, 30, 27, 30, 97, 115, 93, -20, -24,
-	-20, -24, -126, 27, -20, -24, -20, -24, -5, 35,
-	31, 27, -28, -15, -28, 32, 8, -2, 8, 36,
-	33, -142, -38, -15, -20, 8, 36, 17, -61, -57,
-	-59, 33, -70, -72, 28, -31, 61, -133, -48, -134,
-	-135, -136, 26, 27, 30, 32, -125, -24, -126, -110,
-	-108, -24, 17, -117, -38, -15, -114, 27, 17, -125,
-	-82, -31, -20, 27, -45, 27, -25, -15, 25, 8,
-	37, 8, 30, -72, -137, 17, -138, -5, -94, -39,
-	-15, -109, 30, -124, 33, 33, -111, 30, 33, -2,
-	-31, -53, -54, 27, 30, 30, -139, -140, -48, 33,
-	33, -126, -108, 30, -126, -127, 30, -112, -113, -82,
-	-128, 18, -137, -137, -141, 113, 47, 97, -119, -117,
-	30, 17, 30, -129, 8, 27, -83, -113, -83, 37,
-	30, 19,
+	-100, -101, 42, 42, 30, -40, 15, -20, -19, -77,
+	-46, -92, -18, -73, -105, -22, -17, -21, -16, -91,
+	-33, -78, -79, -80, -81, -23, -86, -76, -90, -47,
+	71, 79, -74, -75, 91, 56, 49, 73, 81, 89,
+	125, 54, 58, 127, -87, -4, 88, 110, 75, 92,
+	96, 100, 57, 77, 117, 82, 74, 106, 114, 118,
+	122, 87, 34, 42, -100, -104, -29, -15, 26, -3,
+	-45, -100, 84, -102, -20, 15, -48, 32, 66, 26,
+	26, 26, 104, 66, 26, 93, -48, -68, 62, 26,
+	93, -48, -68, 128, -20, 108, 64, 66, -89, 102,
+	59, 121, -28, -15, -27, -3, -45, -14, -25, -26,
+	7, -5, 8, 31, -3, -31, -30, -35, -32, -29,
+	-34, 86, 80, -38, -5, -36, -37, 8, 36, -1,
+	109, 69, -49, -50, -51, -52, -54, -55, 55, -57,
+	-56, -59, -58, -61, -62, -65, 32, -63, -64, -68,
+	-66, -67, -31, -69, -20, 126, -71, 65, 26, -106,
+	-107, -126, -24, 17, -5, -117, -119, -118, -121, -115,
+	-5, -116, -115, -5, 27, -126, -85, -83, -82, -24,
+	103, -20, -24, 93, 93, -48, 27, -126, -85, -20,
+	-24, 93, 93, 83, -20, -20, -88, -39, -15, 8,
+	27, -28, -15, -28, 32, -45, 31, 25, 8, -1,
+	-125, 45, 30, -60, 60, -132, 44, 94, -133, 46,
+	53, -60, -54, 16, 99, 103, 28, -93, -94, -5,
+	27, 30, -110, 30, -125, -20, 27, 30, 30, 32,
+	27, 30, -127, 30, 27, 30, 97, 115, 93, -20,
+	-24, -20, -24, -127, 27, -20, -24, -20, -24, -5,
+	35, 27, -25, -15, 8, -2, 8, 36, 33, -143,
+	-38, -15, -20, 8, 36, 17, -61, -57, -59, 33,
+	-70, -72, 28, -31, 61, -134, -48, -135, -136, -137,
+	26, 27, 30, 32, -126, -24, -127, -111, -109, -24,
+	17, -118, -38, -15, -115, 27, 17, -126, -82, -31,
+	-20, 27, 33, 25, 8, 37, 8, 30, -72, -138,
+	17, -139, -5, -94, -39, -15, -110, 30, -125, 33,
+	33, -112, 30, -2, -31, -53, -54, 27, 30, 30,
+	-140, -141, -48, 33, 33, -127, -109, 30, -127, -128,
+	30, -113, -114, -82, -129, 18, -138, -138, -142, 113,
+	47, 97, -120, -118, 30, 17, 30, -130, 8, 27,
+	-83, -114, -83, 37, 30, 19,
 }
 
 var yyDef = [...]int16{
 	0, -2, 0, 9, 3, 20, 7, 0, 22, 0,
-	0, 0, 0, 10, 12, 13, 14, 198, 15, 6,
+	0, 0, 0, 10, 12, 13, 14, 200, 15, 6,
 	0, 0, 17, 18, 19, 8, 11, 0, 0, 21,
 	0, -2, 16, 0, 31, 29, 1, 0, 33, 0,
-	0, 28, 41, 43, 44, 45, 46, -2, 4, 23,
-	47, 49, 50, 0, 0, 2, 0, 32, 34, 0,
-	25, 26, 0, 48, 0, 0, 56, 57, 58, 59,
+	0, 28, 43, 45, 46, 47, 48, -2, 4, 23,
+	49, 51, 52, 0, 0, 2, 0, 32, 34, 35,
+	36, 0, 25, 26, 0, 50, 0, 0, 58, 59,
 	60, 61, 62, 63, 64, 65, 66, 67, 68, 69,
-	70, 71, 72, 73, 74, 75, 76, 218, 0, 83,
-	199, 200, 0, 0, 86, 126, 0, 0, 106, 0,
-	0, 159, 0, 51, 215, 216, 201, 202, 203, 204,
-	205, 206, 207, 208, 209, 210, 211, 212, 213, 0,
-	183, 30, 35, 0, 42, 54, 0, 217, 0, 119,
-	0, 0, 0, 186, 125, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 174, 0, 0, 214, 0,
-	180, 181, 182, 36, 40, 55, 78, 79, 80, 81,
-	82, 84, 85, 94, 95, 0, 107, 108, 92, 0,
-	109, 111, 112, 288, 228, 229, 230, 233, -2, 0,
-	-2, 0, 240, 0, -2, 0, 251, 0, 253, 254,
-	255, 256, 257, -2, 0, 269, 0, 260, 265, 0,
-	0, 163, 167, 172, 130, 0, 0, 97, 100, 102,
-	104, 105, 0, 88, 0, 127, 133, 0, 134, 148,
-	150, 0, 184, 185, 0, 0, 268, 154, 133, 0,
-	157, 158, 0, 0, 0, 175, 176, 0, 178, 179,
-	5, 0, 53, 37, 38, 39, 0, 194, 189, 191,
-	192, 193, -2, 198, 195, 0, 0, 93, 110, 0,
-	0, 0, 236, 0, 0, 247, 248, 0, 249, 250,
-	244, 0, 0, 0, 0, 261, 0, 121, 0, 161,
-	0, 133, 0, 131, 77, 96, 0, 0, 0, 87,
-	0, 0, 0, 129, 0, 151, 0, 0, 221, 225,
-	222, 226, 0, 156, 219, 223, 220, 224, 160, 177,
-	0, 187, 0, 194, 190, 0, 114, 116, 117, 0,
-	227, 287, 289, 290, 0, 92, 0, 231, 246, -2,
-	241, 252, 259, 262, 0, 266, 267, 270, 272, 271,
-	273, 274, 0, 120, 0, 0, 167, 173, 164, 166,
-	168, 170, 288, 103, 0, 0, 89, 128, 132, 140,
-	149, 152, 153, 155, 52, 188, 0, 196, 0, 118,
-	0, 93, 0, 263, 0, 0, 277, 282, 122, 0,
-	0, 133, 0, 98, 90, 91, 133, 0, 197, 115,
-	291, 232, 234, 275, 0, 0, 279, 286, 281, 123,
-	124, 162, 169, 0, 135, 0, 0, 139, 141, 143,
-	144, 146, 0, 278, 280, 283, 284, 285, 99, 101,
-	0, -2, 0, 0, 0, 276, 136, 142, 0, 147,
-	0, 145,
+	70, 71, 72, 73, 74, 75, 76, 77, 78, 220,
+	0, 85, 201, 202, 0, 0, 88, 128, 0, 0,
+	108, 0, 0, 161, 0, 53, 217, 218, 203, 204,
+	205, 206, 207, 208, 209, 210, 211, 212, 213, 214,
+	215, 0, 185, 30, 37, 39, 41, 42, 0, 47,
+	-2, 38, 0, 44, 56, 0, 219, 0, 121, 0,
+	0, 0, 188, 127, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 176, 0, 0, 216, 0, 182,
+	183, 184, 0, 196, 191, 0, 55, 193, 194, 195,
+	-2, 200, 197, 0, 40, 57, 80, 81, 82, 83,
+	84, 86, 87, 96, 97, 109, 110, 94, 0, 111,
+	113, 114, 290, 230, 231, 232, 235, -2, 0, -2,
+	0, 242, 0, -2, 0, 253, 0, 255, 256, 257,
+	258, 259, -2, 0, 271, 0, 262, 267, 0, 0,
+	165, 169, 174, 132, 0, 0, 99, 102, 104, 106,
+	107, 0, 90, 0, 129, 135, 0, 136, 150, 152,
+	0, 186, 187, 0, 0, 270, 156, 135, 0, 159,
+	160, 0, 0, 0, 177, 178, 0, 180, 181, 5,
+	189, 0, 196, 192, 0, 54, 0, 0, 95, 112,
+	0, 0, 0, 238, 0, 0, 249, 250, 0, 251,
+	252, 246, 0, 0, 0, 0, 263, 0, 123, 0,
+	163, 0, 135, 0, 133, 79, 98, 0, 0, 0,
+	89, 0, 0, 0, 131, 0, 153, 0, 0, 223,
+	227, 224, 228, 0, 158, 221, 225, 222, 226, 162,
+	179, 190, 0, 198, 116, 118, 119, 0, 229, 289,
+	291, 292, 0, 94, 0, 233, 248, -2, 243, 254,
+	261, 264, 0, 268, 269, 272, 274, 273, 275, 276,
+	0, 122, 0, 0, 169, 175, 166, 168, 170, 172,
+	290, 105, 0, 0, 91, 130, 134, 142, 151, 154,
+	155, 157, 199, 0, 120, 0, 95, 0, 265, 0,
+	0, 279, 284, 124, 0, 0, 135, 0, 100, 92,
+	93, 135, 0, 117, 293, 234, 236, 277, 0, 0,
+	281, 288, 283, 125, 126, 164, 171, 0, 137, 0,
+	0, 141, 143, 145, 146, 148, 0, 280, 282, 285,
+	286, 287, 101, 103, 0, -2, 0, 0, 0, 278,
+	138, 144, 0, 149, 0, 147,
 }
 
 var yyTok1 = [...]int8{
@@ -1062,1181 +1065,1182 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line asn1.y:343
+//line asn1.y:341
 		{
 			yylex.(*MyLexer).result = &ModuleDefinition{ModuleIdentifier: yyDollar[1].ModuleIdentifier, TagDefault: yyDollar[3].TagDefault, ExtensibilityImplied: yyDollar[4].ExtensionDefault, ModuleBody: yyDollar[7].ModuleBody}
 		}
 	case 2:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:346
+//line asn1.y:344
 		{
 			yyVAL.TypeReference = TypeReference(yyDollar[1].name)
 		}
 	case 4:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:351
+//line asn1.y:349
 		{
 			yyVAL.ValueReference = ValueReference(yyDollar[1].name)
 		}
 	case 7:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:362
+//line asn1.y:360
 		{
 			yyVAL.ModuleIdentifier = ModuleIdentifier{Reference: yyDollar[1].name, DefinitiveIdentifier: yyDollar[2].DefinitiveIdentifier}
 		}
 	case 8:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:365
+//line asn1.y:363
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(yyDollar[2].DefinitiveObjIdComponentList)
 		}
 	case 9:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:366
+//line asn1.y:364
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(make([]DefinitiveObjIdComponent, 0))
 		}
 	case 10:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:369
+//line asn1.y:367
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent)
 		}
 	case 11:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:370
+//line asn1.y:368
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent), yyDollar[2].DefinitiveObjIdComponentList...)
 		}
 	case 12:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:373
+//line asn1.y:371
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name}
 		}
 	case 13:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:374
+//line asn1.y:372
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Id: yyDollar[1].Number.IntValue()}
 		}
 	case 14:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:375
+//line asn1.y:373
 		{
 			yyVAL.DefinitiveObjIdComponent = yyDollar[1].DefinitiveObjIdComponent
 		}
 	case 15:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:378
+//line asn1.y:376
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 16:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:382
+//line asn1.y:380
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name, Id: yyDollar[3].Number.IntValue()}
 		}
 	case 17:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:385
+//line asn1.y:383
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 18:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:386
+//line asn1.y:384
 		{
 			yyVAL.TagDefault = TAGS_IMPLICIT
 		}
 	case 19:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:387
+//line asn1.y:385
 		{
 			yyVAL.TagDefault = TAGS_AUTOMATIC
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:388
+//line asn1.y:386
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 21:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:391
+//line asn1.y:389
 		{
 			yyVAL.ExtensionDefault = true
 		}
 	case 22:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:392
+//line asn1.y:390
 		{
 			yyVAL.ExtensionDefault = false
 		}
 	case 23:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:395
+//line asn1.y:393
 		{
 			yyVAL.ModuleBody = ModuleBody{Imports: yyDollar[2].Imports, AssignmentList: yyDollar[3].AssignmentList}
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:396
+//line asn1.y:394
 		{
 			yyVAL.ModuleBody = ModuleBody{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:409
+//line asn1.y:407
 		{
 			yyVAL.Imports = yyDollar[2].Imports
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:410
+//line asn1.y:408
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:413
+//line asn1.y:411
 		{
 			yyVAL.Imports = yyDollar[1].Imports
 		}
 	case 33:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:414
+//line asn1.y:412
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
-	case 34:
+	case 36:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:417
+//line asn1.y:421
 		{
 			yyVAL.Imports = append(make([]SymbolsFromModule, 0), yyDollar[1].SymbolsFromModule)
 		}
-	case 35:
+	case 37:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:418
+//line asn1.y:422
 		{
 			yyVAL.Imports = append(yyDollar[1].Imports, yyDollar[2].SymbolsFromModule)
 		}
-	case 36:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:421
+	case 38:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line asn1.y:423
 		{
-			yyVAL.SymbolsFromModule = SymbolsFromModule{yyDollar[1].SymbolList, yyDollar[3].GlobalModuleReference}
+			yyVAL.Imports = append(yyDollar[1].Imports, yyDollar[2].SymbolsFromModule)
 		}
-	case 37:
+	case 39:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:424
+//line asn1.y:426
 		{
-			yyVAL.GlobalModuleReference = GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}
+			yyVAL.Imports = yyDollar[1].Imports
+			yyVAL.Imports[len(yyVAL.Imports)-1].Module.AssignedIdentifier = yyDollar[2].Value
 		}
-	case 38:
+	case 40:
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line asn1.y:429
+		{
+			yyVAL.SymbolsFromModule = SymbolsFromModule{yyDollar[1].SymbolList, GlobalModuleReference{Reference: yyDollar[3].name}}
+		}
+	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:427
+//line asn1.y:432
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
-	case 39:
+	case 42:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:428
+//line asn1.y:433
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
-	case 40:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:429
-		{
-			yyVAL.Value = nil
-		}
-	case 41:
+	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:432
+//line asn1.y:436
 		{
 			yyVAL.SymbolList = append(make([]Symbol, 0), yyDollar[1].Symbol)
 		}
-	case 42:
+	case 44:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:433
+//line asn1.y:437
 		{
 			yyVAL.SymbolList = append(yyDollar[1].SymbolList, yyDollar[3].Symbol)
 		}
-	case 44:
+	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:440
+//line asn1.y:444
 		{
 			yyVAL.Symbol = TypeReference(yyDollar[1].TypeReference)
 		}
-	case 45:
+	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:441
+//line asn1.y:445
 		{
 			yyVAL.Symbol = ModuleReference(yyDollar[1].name)
 		}
-	case 46:
+	case 48:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:442
+//line asn1.y:446
 		{
 			yyVAL.Symbol = ValueReference(yyDollar[1].ValueReference)
 		}
-	case 47:
+	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:448
+//line asn1.y:452
 		{
 			yyVAL.AssignmentList = AssignmentList{yyDollar[1].Assignment}
 		}
-	case 48:
+	case 50:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:449
+//line asn1.y:453
 		{
 			yyVAL.AssignmentList = append(yyDollar[1].AssignmentList, yyDollar[2].Assignment)
 		}
-	case 51:
+	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:465
+//line asn1.y:469
 		{
 			yyVAL.Type = yyDollar[1].TypeReference
 		}
-	case 52:
+	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:473
+//line asn1.y:477
 		{
 			yyVAL.DefinedValue = DefinedValue{ModuleReference(yyDollar[1].name), yyDollar[3].ValueReference}
 		}
-	case 53:
+	case 55:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:474
+//line asn1.y:478
 		{
 			yyVAL.DefinedValue = DefinedValue{ValueName: yyDollar[1].ValueReference}
 		}
-	case 54:
+	case 56:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:489
+//line asn1.y:493
 		{
 			yyVAL.Assignment = TypeAssignment{yyDollar[1].TypeReference, yyDollar[3].Type}
 		}
-	case 55:
+	case 57:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:492
+//line asn1.y:496
 		{
 			yyVAL.Assignment = ValueAssignment{yyDollar[1].ValueReference, yyDollar[2].Type, yyDollar[4].Value}
 		}
-	case 77:
+	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:539
+//line asn1.y:543
 		{
 			yyVAL.NamedType = NamedType{Identifier: Identifier(yyDollar[1].name), Type: yyDollar[2].Type}
 		}
-	case 81:
+	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:562
+//line asn1.y:566
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
-	case 83:
+	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:575
+//line asn1.y:579
 		{
 			yyVAL.Type = BooleanType{}
 		}
-	case 84:
+	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:578
+//line asn1.y:582
 		{
 			yyVAL.Value = Boolean(true)
 		}
-	case 85:
+	case 87:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:579
+//line asn1.y:583
 		{
 			yyVAL.Value = Boolean(false)
 		}
-	case 86:
+	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:584
+//line asn1.y:588
 		{
 			yyVAL.Type = IntegerType{}
 		}
-	case 87:
+	case 89:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:585
+//line asn1.y:589
 		{
 			yyVAL.Type = IntegerType{yyDollar[3].NamedNumberList}
 		}
-	case 88:
+	case 90:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:588
+//line asn1.y:592
 		{
 			yyVAL.NamedNumberList = []NamedNumber{yyDollar[1].NamedNumber}
 		}
-	case 89:
+	case 91:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:589
+//line asn1.y:593
 		{
 			yyVAL.NamedNumberList = append(yyDollar[1].NamedNumberList, yyDollar[3].NamedNumber)
 		}
-	case 90:
+	case 92:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:592
+//line asn1.y:596
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].Number}
 		}
-	case 91:
+	case 93:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:593
+//line asn1.y:597
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].DefinedValue}
 		}
-	case 92:
+	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:596
+//line asn1.y:600
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
-	case 93:
+	case 95:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:597
+//line asn1.y:601
 		{
 			yyVAL.Number = yyDollar[2].Number.UnaryMinus()
 		}
-	case 94:
+	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:602
+//line asn1.y:606
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
-	case 95:
+	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:603
+//line asn1.y:607
 		{
 			yyVAL.Value = IdentifiedIntegerValue{Name: yyDollar[1].name}
 		}
-	case 96:
+	case 98:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:608
+//line asn1.y:612
 		{
 			yyVAL.Type = yyDollar[3].EnumeratedType
 		}
-	case 97:
+	case 99:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:611
+//line asn1.y:615
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
-	case 98:
+	case 100:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:612
+//line asn1.y:616
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
-	case 99:
+	case 101:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:613
+//line asn1.y:617
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration, AdditionalEnumeration: yyDollar[6].Enumeration}
 		}
-	case 102:
+	case 104:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:621
+//line asn1.y:625
 		{
 			yyVAL.Enumeration = []EnumerationItem{yyDollar[1].EnumerationItem}
 		}
-	case 103:
+	case 105:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:622
+//line asn1.y:626
 		{
 			yyVAL.Enumeration = append([]EnumerationItem{yyDollar[1].EnumerationItem}, yyDollar[3].Enumeration...)
 		}
-	case 104:
+	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:625
+//line asn1.y:629
 		{
 			yyVAL.EnumerationItem = yyDollar[1].NamedNumber
 		}
-	case 105:
+	case 107:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:626
+//line asn1.y:630
 		{
 			yyVAL.EnumerationItem = Identifier(yyDollar[1].name)
 		}
-	case 106:
+	case 108:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:631
+//line asn1.y:635
 		{
 			yyVAL.Type = RealType{}
 		}
-	case 109:
+	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:640
+//line asn1.y:644
 		{
 			yyVAL.Value = yyDollar[1].Real
 		}
-	case 110:
+	case 112:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:641
+//line asn1.y:645
 		{
 			yyVAL.Value = yyDollar[2].Real.UnaryMinus()
 		}
-	case 111:
+	case 113:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:645
+//line asn1.y:649
 		{
 			yyVAL.Value = Real(math.Inf(1))
 		}
-	case 112:
+	case 114:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:646
+//line asn1.y:650
 		{
 			yyVAL.Value = Real(math.Inf(-1))
 		}
-	case 113:
+	case 115:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:650
+//line asn1.y:654
 		{
 			yyVAL.Real = yylex.(*MyLexer).parseReal(yyDollar[1].numberRepr, "", 0)
 		}
-	case 114:
+	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:651
+//line asn1.y:655
 		{
 			yyVAL.Real = yylex.(*MyLexer).parseReal(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
-	case 115:
+	case 117:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:652
+//line asn1.y:656
 		{
 			yyVAL.Real = yylex.(*MyLexer).parseReal(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
-	case 116:
+	case 118:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:653
+//line asn1.y:657
 		{
 			yyVAL.Real = yylex.(*MyLexer).parseReal(yyDollar[1].numberRepr, "", yyDollar[3].Number)
 		}
-	case 118:
+	case 120:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:657
+//line asn1.y:661
 		{
 			yyVAL.Number = Number(-int(yyDollar[2].Number))
 		}
-	case 119:
+	case 121:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:662
+//line asn1.y:666
 		{
 			yyVAL.Type = BitStringType{}
 		}
-	case 120:
+	case 122:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:663
+//line asn1.y:667
 		{
 			yyVAL.Type = BitStringType{NamedBits: yyDollar[4].NamedBitList}
 		}
-	case 121:
+	case 123:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:666
+//line asn1.y:670
 		{
 			yyVAL.NamedBitList = append(make([]NamedBit, 0), yyDollar[1].NamedBit)
 		}
-	case 122:
+	case 124:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:667
+//line asn1.y:671
 		{
 			yyVAL.NamedBitList = append(yyDollar[1].NamedBitList, yyDollar[3].NamedBit)
 		}
-	case 123:
+	case 125:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:670
+//line asn1.y:674
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].Number}
 		}
-	case 124:
+	case 126:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:671
+//line asn1.y:675
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].DefinedValue}
 		}
-	case 125:
+	case 127:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:676
+//line asn1.y:680
 		{
 			yyVAL.Type = OctetStringType{}
 		}
-	case 126:
+	case 128:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:681
+//line asn1.y:685
 		{
 			yyVAL.Type = NullType{}
 		}
-	case 127:
+	case 129:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:686
+//line asn1.y:690
 		{
 			yyVAL.Type = SequenceType{}
 		}
-	case 128:
+	case 130:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:687
+//line asn1.y:691
 		{
 			yyVAL.Type = SequenceType{}
 		}
-	case 129:
+	case 131:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:688
+//line asn1.y:692
 		{
 			yyVAL.Type = SequenceType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
-	case 134:
+	case 136:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:700
+//line asn1.y:704
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList}
 		}
-	case 135:
+	case 137:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:701
+//line asn1.y:705
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions}
 		}
-	case 136:
+	case 138:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line asn1.y:702
+//line asn1.y:706
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions, TrailingComponents: yyDollar[7].ComponentTypeList}
 		}
-	case 139:
+	case 141:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:714
+//line asn1.y:718
 		{
 			yyVAL.ExtensionAdditions = yyDollar[2].ExtensionAdditions
 		}
-	case 140:
+	case 142:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:715
+//line asn1.y:719
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
-	case 141:
+	case 143:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:718
+//line asn1.y:722
 		{
 			yyVAL.ExtensionAdditions = append([]ExtensionAddition{}, yyDollar[1].ExtensionAdditions...)
 		}
-	case 142:
+	case 144:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:719
+//line asn1.y:723
 		{
 			yyVAL.ExtensionAdditions = append(yyDollar[1].ExtensionAdditions, yyDollar[3].ExtensionAdditions...)
 		}
-	case 143:
+	case 145:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:722
+//line asn1.y:726
 		{
 			yyVAL.ExtensionAdditions = []ExtensionAddition{yyDollar[1].ComponentType}
 		}
-	case 144:
+	case 146:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:723
+//line asn1.y:727
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
-	case 148:
+	case 150:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:732
+//line asn1.y:736
 		{
 			yyVAL.ComponentTypeList = append(make(ComponentTypeList, 0), yyDollar[1].ComponentType)
 		}
-	case 149:
+	case 151:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:733
+//line asn1.y:737
 		{
 			yyVAL.ComponentTypeList = append(yyDollar[1].ComponentTypeList, yyDollar[3].ComponentType)
 		}
-	case 150:
+	case 152:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:736
+//line asn1.y:740
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType}
 		}
-	case 151:
+	case 153:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:737
+//line asn1.y:741
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, IsOptional: true}
 		}
-	case 152:
+	case 154:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:738
+//line asn1.y:742
 		{
 			cpy := yyDollar[3].Value
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
-	case 153:
+	case 155:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:739
+//line asn1.y:743
 		{
 			yyVAL.ComponentType = ComponentsOfComponentType{Type: yyDollar[3].Type}
 		}
-	case 154:
+	case 156:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:744
+//line asn1.y:748
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 155:
+	case 157:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:745
+//line asn1.y:749
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 156:
+	case 158:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:746
+//line asn1.y:750
 		{
 			yyVAL.Type = SetType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
-	case 157:
+	case 159:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:751
+//line asn1.y:755
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].Type}
 		}
-	case 158:
+	case 160:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:752
+//line asn1.y:756
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].NamedType}
 		}
-	case 159:
+	case 161:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:756
+//line asn1.y:760
 		{
 			yyVAL.Type = AnyType{}
 		}
-	case 160:
+	case 162:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:757
+//line asn1.y:761
 		{
 			yyVAL.Type = AnyType{Identifier(yyDollar[4].name)}
 		}
-	case 161:
+	case 163:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:762
+//line asn1.y:766
 		{
 			yyVAL.Type = yyDollar[3].ChoiceType
 		}
-	case 162:
+	case 164:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:765
+//line asn1.y:769
 		{
 			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, yyDollar[4].ExtensionAdditionAlternativesList}
 		}
-	case 163:
+	case 165:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:766
+//line asn1.y:770
 		{
 			yyVAL.ChoiceType = ChoiceType{AlternativeTypeList: yyDollar[1].AlternativeTypeList}
 		}
-	case 164:
+	case 166:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:767
+//line asn1.y:771
 		{
 			yyVAL.ChoiceType = ChoiceType{nil, yyDollar[2].ExtensionAdditionAlternativesList}
 		}
-	case 166:
+	case 168:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:774
+//line asn1.y:778
 		{
 			yyVAL.ExtensionAdditionAlternativesList = yyDollar[2].ExtensionAdditionAlternativesList
 		}
-	case 167:
+	case 169:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:775
+//line asn1.y:779
 		{
 			yyVAL.ExtensionAdditionAlternativesList = make([]ChoiceExtension, 0)
 		}
-	case 168:
+	case 170:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:778
+//line asn1.y:782
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(make([]ChoiceExtension, 0), yyDollar[1].ExtensionAdditionAlternative)
 		}
-	case 169:
+	case 171:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:779
+//line asn1.y:783
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(yyDollar[1].ExtensionAdditionAlternativesList, yyDollar[3].ExtensionAdditionAlternative)
 		}
-	case 170:
+	case 172:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:783
+//line asn1.y:787
 		{
 			yyVAL.ExtensionAdditionAlternative = yyDollar[1].NamedType
 		}
-	case 172:
+	case 174:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:790
+//line asn1.y:794
 		{
 			yyVAL.AlternativeTypeList = append(make([]NamedType, 0), yyDollar[1].NamedType)
 		}
-	case 173:
+	case 175:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:791
+//line asn1.y:795
 		{
 			yyVAL.AlternativeTypeList = append(yyDollar[1].AlternativeTypeList, yyDollar[3].NamedType)
 		}
-	case 174:
+	case 176:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:796
+//line asn1.y:800
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[2].Type}
 		}
-	case 175:
+	case 177:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:797
+//line asn1.y:801
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_IMPLICIT, HasTagType: true}
 		}
-	case 176:
+	case 178:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:798
+//line asn1.y:802
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_EXPLICIT, HasTagType: true}
 		}
-	case 177:
+	case 179:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:801
+//line asn1.y:805
 		{
 			yyVAL.Tag = Tag{Class: yyDollar[2].Class, ClassNumber: yyDollar[3].Value}
 		}
-	case 178:
+	case 180:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:804
+//line asn1.y:808
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
-	case 179:
+	case 181:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:805
+//line asn1.y:809
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
-	case 180:
+	case 182:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:808
+//line asn1.y:812
 		{
 			yyVAL.Class = CLASS_UNIVERSAL
 		}
-	case 181:
+	case 183:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:809
+//line asn1.y:813
 		{
 			yyVAL.Class = CLASS_APPLICATION
 		}
-	case 182:
+	case 184:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:810
+//line asn1.y:814
 		{
 			yyVAL.Class = CLASS_PRIVATE
 		}
-	case 183:
+	case 185:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:811
+//line asn1.y:815
 		{
 			yyVAL.Class = CLASS_CONTEXT_SPECIFIC
 		}
-	case 184:
+	case 186:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:816
+//line asn1.y:820
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].Type}
 		}
-	case 185:
+	case 187:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:817
+//line asn1.y:821
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].NamedType}
 		}
-	case 186:
+	case 188:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:822
+//line asn1.y:826
 		{
 			yyVAL.Type = ObjectIdentifierType{}
 		}
-	case 187:
+	case 189:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:827
+//line asn1.y:831
 		{
 			yyVAL.ObjectIdentifierValue = yyDollar[2].ObjectIdentifierValue
 		}
-	case 188:
+	case 190:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:828
+//line asn1.y:832
 		{
 			cpy := yyDollar[2].DefinedValue
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
-	case 189:
+	case 191:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:831
+//line asn1.y:835
 		{
 			yyVAL.ObjectIdentifierValue = ObjectIdentifierValue{yyDollar[1].ObjectIdElement}
 		}
-	case 190:
+	case 192:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:832
+//line asn1.y:836
 		{
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{yyDollar[1].ObjectIdElement}, yyDollar[2].ObjectIdentifierValue...)
 		}
-	case 191:
+	case 193:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:835
+//line asn1.y:839
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name}
 		}
-	case 194:
+	case 196:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:838
+//line asn1.y:842
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 195:
+	case 197:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:841
+//line asn1.y:845
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{ID: yyDollar[1].Number.IntValue()}
 		}
-	case 196:
+	case 198:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:842
+//line asn1.y:846
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 197:
+	case 199:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:846
+//line asn1.y:850
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name, ID: yyDollar[3].ObjectIdElement.ID, Reference: yyDollar[3].ObjectIdElement.Reference}
 		}
-	case 201:
+	case 203:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:858
+//line asn1.y:862
 		{
 			yyVAL.Type = RestrictedStringType{LexType: BMPString}
 		}
-	case 202:
+	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:859
+//line asn1.y:863
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GeneralString}
 		}
-	case 203:
+	case 205:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:860
+//line asn1.y:864
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GraphicString}
 		}
-	case 204:
+	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:861
+//line asn1.y:865
 		{
 			yyVAL.Type = RestrictedStringType{LexType: IA5String}
 		}
-	case 205:
+	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:862
+//line asn1.y:866
 		{
 			yyVAL.Type = RestrictedStringType{LexType: ISO646String}
 		}
-	case 206:
+	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:863
+//line asn1.y:867
 		{
 			yyVAL.Type = RestrictedStringType{LexType: NumericString}
 		}
-	case 207:
+	case 209:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:864
+//line asn1.y:868
 		{
 			yyVAL.Type = RestrictedStringType{LexType: PrintableString}
 		}
-	case 208:
+	case 210:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:865
+//line asn1.y:869
 		{
 			yyVAL.Type = RestrictedStringType{LexType: TeletexString}
 		}
-	case 209:
+	case 211:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:866
+//line asn1.y:870
 		{
 			yyVAL.Type = RestrictedStringType{LexType: T61String}
 		}
-	case 210:
+	case 212:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:867
+//line asn1.y:871
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UniversalString}
 		}
-	case 211:
+	case 213:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:868
+//line asn1.y:872
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UTF8String}
 		}
-	case 212:
+	case 214:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:869
+//line asn1.y:873
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VideotexString}
 		}
-	case 213:
+	case 215:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:870
+//line asn1.y:874
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VisibleString}
 		}
-	case 214:
+	case 216:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:875
+//line asn1.y:879
 		{
 			yyVAL.Type = CharacterStringType{}
 		}
-	case 215:
+	case 217:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:880
+//line asn1.y:884
 		{
 			yyVAL.Type = TypeReference("GeneralizedTime")
 		}
-	case 216:
+	case 218:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:881
+//line asn1.y:885
 		{
 			yyVAL.Type = TypeReference("UTCTime")
 		}
-	case 217:
+	case 219:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:886
+//line asn1.y:890
 		{
 			yyVAL.Type = ConstraintedType{yyDollar[1].Type, yyDollar[2].Constraint}
 		}
-	case 219:
+	case 221:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:892
+//line asn1.y:896
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
-	case 220:
+	case 222:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:893
+//line asn1.y:897
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 221:
+	case 223:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:894
+//line asn1.y:898
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
-	case 222:
+	case 224:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:895
+//line asn1.y:899
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 223:
+	case 225:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:896
+//line asn1.y:900
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
-	case 224:
+	case 226:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:897
+//line asn1.y:901
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 225:
+	case 227:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:898
+//line asn1.y:902
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
-	case 226:
+	case 228:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:899
+//line asn1.y:903
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 227:
+	case 229:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:904
+//line asn1.y:908
 		{
 			yyVAL.Constraint = Constraint{ConstraintSpec: yyDollar[2].ConstraintSpec}
 		}
-	case 228:
+	case 230:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:907
+//line asn1.y:911
 		{
 			yyVAL.ConstraintSpec = yyDollar[1].SubtypeConstraint
 		}
-	case 231:
+	case 233:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:917
+//line asn1.y:921
 		{
 			yyVAL.SubtypeConstraint = yyDollar[1].SubtypeConstraint
 		}
-	case 232:
+	case 234:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:918
+//line asn1.y:922
 		{
 			yyVAL.SubtypeConstraint = append(yyDollar[1].SubtypeConstraint, yyDollar[5].ElementSetSpec)
 		}
-	case 233:
+	case 235:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:921
+//line asn1.y:925
 		{
 			yyVAL.SubtypeConstraint = SubtypeConstraint{yyDollar[1].ElementSetSpec}
 		}
-	case 235:
+	case 237:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:927
+//line asn1.y:931
 		{
 			yyVAL.ElementSetSpec = yyDollar[1].Unions
 		}
-	case 236:
+	case 238:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:928
+//line asn1.y:932
 		{
 			yyVAL.ElementSetSpec = yyDollar[2].Exclusions
 		}
-	case 237:
+	case 239:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:931
+//line asn1.y:935
 		{
 			yyVAL.Unions = Unions{yyDollar[1].Intersections}
 		}
-	case 238:
+	case 240:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:932
+//line asn1.y:936
 		{
 			yyVAL.Unions = append(yyDollar[1].Unions, yyDollar[3].Intersections)
 		}
-	case 240:
+	case 242:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:938
+//line asn1.y:942
 		{
 			yyVAL.Intersections = Intersections{yyDollar[1].IntersectionElements}
 		}
-	case 241:
+	case 243:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:939
+//line asn1.y:943
 		{
 			yyVAL.Intersections = append(yyDollar[1].Intersections, yyDollar[3].IntersectionElements)
 		}
-	case 243:
+	case 245:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:945
+//line asn1.y:949
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements}
 		}
-	case 244:
+	case 246:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:946
+//line asn1.y:950
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements, Exclusions: yyDollar[2].Exclusions}
 		}
-	case 246:
+	case 248:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:952
+//line asn1.y:956
 		{
 			yyVAL.Exclusions = Exclusions{yyDollar[2].Elements}
 		}
-	case 251:
+	case 253:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:961
+//line asn1.y:965
 		{
 			yyVAL.Elements = yyDollar[1].Elements
 		}
-	case 252:
+	case 254:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:963
+//line asn1.y:967
 		{
 			yyVAL.Elements = yyDollar[2].ElementSetSpec
 		}
-	case 258:
+	case 260:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:978
+//line asn1.y:982
 		{
 			yyVAL.Elements = SingleValue{yyDollar[1].Value}
 		}
-	case 259:
+	case 261:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:983
+//line asn1.y:987
 		{
 			yyVAL.Elements = ValueRange{yyDollar[1].RangeEndpoint, yyDollar[3].RangeEndpoint}
 		}
-	case 260:
+	case 262:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:986
+//line asn1.y:990
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 261:
+	case 263:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:987
+//line asn1.y:991
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value, IsOpen: true}
 		}
-	case 262:
+	case 264:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:990
+//line asn1.y:994
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 263:
+	case 265:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:991
+//line asn1.y:995
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[2].Value, IsOpen: true}
 		}
-	case 265:
+	case 267:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:995
+//line asn1.y:999
 		{
 			yyVAL.Value = nil
 		}
-	case 267:
+	case 269:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:999
+//line asn1.y:1003
 		{
 			yyVAL.Value = nil
 		}
-	case 268:
+	case 270:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:1004
+//line asn1.y:1008
 		{
 			yyVAL.Elements = SizeConstraint{yyDollar[2].Constraint}
 		}
-	case 269:
+	case 271:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1009
+//line asn1.y:1013
 		{
 			yyVAL.Elements = TypeConstraint{yyDollar[1].Type}
 		}
-	case 270:
+	case 272:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1014
+//line asn1.y:1018
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-	case 271:
+	case 273:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1015
+//line asn1.y:1019
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-- 
2.43.0


From a64cd36a1d1d8f6556e7b0cbbce695b26e93cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 08/32] fix: allow second extension marker after extension
 additions

'CHOICE { a A, ..., b B, ... }' and the same SEQUENCE or SET were syntax errors,
as comma before the marker was always taken for one before the next addition.
---
 asn1.y |   17 +-
 y.go   | 1098 +++++++++++++++++++++++++++-----------------------------
 2 files changed, 540 insertions(+), 575 deletions(-)

diff --git a/asn1.y b/asn1.y
index c22b5de..52237a1 100644
--- a/asn1.y
+++ b/asn1.y
@@ -306,9 +306,7 @@ import (
 %type <NamedType> NamedType
 %type <ExtensionAdditionAlternative> ExtensionAdditionAlternative
 %type <ExtensionAdditionAlternativesList> ExtensionAdditionAlternatives
-%type <ExtensionAdditionAlternativesList> ExtensionAdditionAlternativesList
 %type <ExtensionAdditions> ExtensionAdditions
-%type <ExtensionAdditions> ExtensionAdditionList
 %type <ExtensionAdditions> ExtensionAddition
 %type <NamedNumber> NamedNumber
 %type <NamedNumberList> NamedNumberList
@@ -715,14 +713,12 @@ RootComponentTypeList : ComponentTypeList
 ExtensionEndMarker : COMMA ELLIPSIS
 ;
 
-ExtensionAdditions : COMMA ExtensionAdditionList  { $$ = $2 }
+// Edited from the doc - COMMA is taken together with the addition following it, otherwise
+// it is not possible to tell COMMA before next addition from COMMA before ExtensionEndMarker.
+ExtensionAdditions : ExtensionAdditions COMMA ExtensionAddition  { $$ = append($1, $3...) }
                    | /*empty*/  { $$ = nil }
 ;
 
-ExtensionAdditionList : ExtensionAddition  { $$ = append([]ExtensionAddition{}, $1...) }
-                      | ExtensionAdditionList COMMA ExtensionAddition  { $$ = append($1, $3...) }
-;
-
 ExtensionAddition : ComponentType  { $$ = []ExtensionAddition{$1} }
                   | ExtensionAdditionGroup  { $$ = nil }
 
@@ -775,14 +771,11 @@ AlternativeTypeLists : AlternativeTypeList COMMA ExtensionAndException Extension
 RootAlternativeTypeList : AlternativeTypeList
 ;
 
-ExtensionAdditionAlternatives : COMMA ExtensionAdditionAlternativesList { $$ = $2 }
+// Edited from the doc - same as ExtensionAdditions.
+ExtensionAdditionAlternatives : ExtensionAdditionAlternatives COMMA ExtensionAdditionAlternative  { $$ = append($1, $3) }
                               | /*empty*/ { $$ = make([]ChoiceExtension, 0) }
 ;
 
-ExtensionAdditionAlternativesList : ExtensionAdditionAlternative  { $$ = append(make([]ChoiceExtension, 0), $1) }
-                                  | ExtensionAdditionAlternativesList COMMA ExtensionAdditionAlternative  { $$ = append($1, $3) }
-;
-
 ExtensionAdditionAlternative : /*ExtensionAdditionAlternativesGroup
                              | */NamedType  { $$ = $1 }
 ;
diff --git a/y.go b/y.go
index 658ba5f..c699442 100644
--- a/y.go
+++ b/y.go
@@ -334,7 +334,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line asn1.y:1075
+//line asn1.y:1068
 
 //line yacctab:1
 var yyExca = [...]int16{
@@ -355,96 +355,112 @@ var yyExca = [...]int16{
 	32, 6,
 	-2, 4,
 	-1, 197,
-	44, 241,
-	94, 241,
-	-2, 237,
+	44, 237,
+	94, 237,
+	-2, 233,
 	-1, 199,
-	46, 244,
-	53, 244,
-	-2, 239,
+	46, 240,
+	53, 240,
+	-2, 235,
 	-1, 203,
-	60, 247,
-	-2, 245,
+	60, 243,
+	-2, 241,
 	-1, 212,
-	16, 266,
-	28, 266,
-	-2, 260,
-	-1, 337,
-	46, 244,
-	53, 244,
-	-2, 240,
-	-1, 425,
+	16, 262,
+	28, 262,
+	-2, 256,
+	-1, 336,
+	46, 240,
+	53, 240,
+	-2, 236,
+	-1, 416,
 	30, 140,
 	-2, 134,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 917
+const yyLast = 926
 
 var yyAct = [...]int16{
-	238, 224, 412, 237, 379, 227, 358, 239, 136, 17,
-	212, 196, 270, 325, 292, 17, 262, 257, 302, 288,
-	341, 229, 199, 221, 183, 168, 201, 203, 273, 166,
-	189, 162, 236, 153, 5, 38, 306, 165, 3, 160,
-	29, 11, 9, 420, 19, 19, 284, 142, 19, 308,
-	285, 149, 19, 187, 307, 415, 144, 137, 223, 209,
-	19, 252, 137, 276, 251, 46, 244, 54, 46, 243,
-	223, 128, 253, 45, 64, 127, 45, 24, 23, 54,
-	246, 188, 159, 214, 22, 19, 10, 148, 130, 46,
-	21, 35, 148, 421, 46, 223, 129, 45, 19, 187,
-	31, 161, 45, 274, 36, 234, 344, 19, 187, 419,
-	146, 151, 157, 277, 191, 143, 138, 128, 150, 342,
-	42, 123, 279, 145, 60, 182, 128, 188, 132, 280,
-	171, 181, 179, 271, 63, 62, 188, 184, 67, 184,
-	240, 240, 230, 233, 240, 163, 175, 222, 47, 48,
-	134, 105, 344, 242, 190, 50, 240, 245, 250, 137,
-	191, 147, 152, 232, 375, 171, 171, 433, 235, 191,
-	174, 182, 320, 247, 326, 258, 61, 181, 404, 403,
-	182, 240, 248, 124, 131, 133, 181, 44, 154, 53,
-	44, 126, 4, 48, 333, 261, 263, 40, 390, 137,
-	190, 53, 327, 265, 389, 65, 372, 339, 184, 190,
-	44, 44, 41, 328, 135, 32, 44, 353, 282, 269,
-	289, 267, 334, 299, 264, 27, 435, 266, 173, 241,
-	434, 137, 351, 281, 249, 352, 294, 434, 300, 254,
-	255, 301, 426, 424, 410, 407, 303, 399, 398, 392,
-	387, 310, 312, 293, 377, 319, 305, 298, 297, 316,
-	318, 291, 272, 64, 286, 429, 313, 47, 48, 15,
-	397, 371, 365, 321, 314, 304, 184, 184, 296, 290,
-	184, 323, 260, 25, 350, 184, 218, 128, 331, 141,
-	322, 140, 139, 346, 343, 7, 330, 30, 337, 355,
-	230, 359, 336, 233, 361, 338, 368, 373, 295, 184,
-	19, 356, 19, 425, 366, 354, 363, 360, 369, 335,
-	380, 66, 223, 364, 362, 283, 28, 309, 311, 367,
-	428, 167, 12, 19, 18, 315, 317, 376, 374, 14,
-	4, 48, 259, 324, 184, 14, 26, 4, 48, 172,
-	268, 18, 382, 343, 289, 332, 4, 170, 172, 47,
-	48, 55, 48, 378, 19, 48, 4, 329, 418, 386,
-	385, 384, 383, 388, 401, 400, 381, 184, 349, 184,
-	348, 347, 345, 278, 275, 427, 394, 393, 414, 396,
-	409, 402, 370, 413, 406, 359, 55, 19, 187, 39,
-	382, 382, 34, 416, 417, 405, 1, 228, 422, 230,
-	408, 226, 225, 423, 231, 411, 128, 391, 357, 220,
-	219, 74, 206, 125, 122, 43, 188, 413, 430, 431,
-	59, 432, 58, 57, 56, 368, 37, 287, 71, 96,
-	79, 88, 158, 256, 101, 198, 95, 112, 102, 104,
-	86, 84, 148, 83, 82, 217, 81, 69, 87, 191,
-	93, 90, 92, 97, 116, 108, 73, 113, 216, 91,
-	182, 98, 115, 340, 213, 211, 181, 121, 106, 99,
-	210, 94, 109, 55, 19, 187, 110, 205, 208, 207,
-	111, 204, 202, 200, 197, 395, 117, 195, 194, 190,
-	107, 193, 192, 128, 118, 89, 70, 114, 119, 206,
-	33, 122, 120, 188, 49, 100, 215, 103, 51, 52,
-	186, 185, 177, 180, 80, 178, 96, 176, 164, 169,
-	85, 101, 75, 95, 112, 102, 77, 68, 72, 148,
-	76, 78, 217, 6, 16, 13, 191, 2, 90, 8,
-	97, 116, 108, 20, 113, 0, 91, 182, 98, 115,
-	0, 0, 0, 181, 121, 106, 99, 0, 94, 109,
-	47, 48, 333, 110, 0, 0, 0, 111, 0, 0,
-	0, 0, 0, 117, 0, 0, 190, 107, 0, 0,
-	0, 118, 0, 0, 114, 119, 0, 0, 122, 120,
-	334, 0, 100, 215, 103, 0, 0, 0, 0, 0,
-	0, 0, 0, 96, 0, 0, 0, 0, 101, 0,
+	224, 238, 237, 376, 301, 227, 136, 324, 17, 212,
+	196, 292, 239, 270, 17, 262, 340, 257, 229, 199,
+	288, 221, 183, 201, 203, 168, 273, 189, 166, 162,
+	236, 153, 5, 38, 29, 305, 165, 3, 160, 19,
+	142, 411, 284, 307, 19, 187, 285, 11, 9, 416,
+	420, 19, 187, 306, 19, 252, 251, 244, 19, 209,
+	276, 243, 21, 128, 46, 341, 54, 46, 223, 253,
+	128, 64, 45, 188, 127, 45, 149, 24, 54, 19,
+	188, 159, 137, 23, 214, 22, 35, 130, 46, 223,
+	31, 412, 10, 46, 19, 129, 45, 157, 343, 246,
+	161, 45, 143, 42, 223, 343, 191, 410, 146, 151,
+	277, 138, 148, 191, 234, 274, 36, 182, 271, 60,
+	144, 123, 179, 181, 182, 132, 137, 47, 48, 171,
+	181, 63, 50, 62, 427, 240, 184, 319, 184, 67,
+	401, 230, 233, 150, 163, 175, 190, 400, 19, 187,
+	240, 134, 222, 190, 240, 245, 148, 325, 242, 388,
+	232, 147, 152, 250, 171, 171, 235, 128, 133, 174,
+	61, 247, 387, 105, 258, 240, 40, 188, 124, 131,
+	248, 126, 65, 137, 279, 326, 369, 145, 372, 154,
+	240, 280, 338, 261, 263, 4, 48, 332, 327, 32,
+	137, 135, 265, 352, 298, 264, 41, 184, 267, 44,
+	191, 53, 44, 27, 266, 428, 269, 282, 137, 289,
+	425, 182, 173, 53, 415, 333, 425, 181, 406, 403,
+	241, 281, 44, 44, 356, 249, 350, 293, 44, 351,
+	254, 255, 299, 396, 395, 300, 374, 302, 304, 297,
+	190, 296, 312, 291, 318, 272, 309, 311, 64, 286,
+	15, 47, 48, 421, 315, 317, 394, 368, 362, 320,
+	313, 303, 295, 290, 260, 184, 184, 25, 349, 184,
+	322, 128, 218, 141, 184, 140, 139, 330, 30, 7,
+	321, 345, 370, 342, 329, 336, 363, 355, 230, 335,
+	19, 233, 337, 358, 354, 19, 365, 184, 19, 294,
+	363, 357, 334, 353, 360, 377, 366, 66, 223, 361,
+	283, 359, 28, 424, 167, 12, 364, 373, 308, 310,
+	19, 18, 14, 4, 48, 259, 314, 316, 14, 26,
+	371, 323, 184, 4, 48, 172, 4, 170, 172, 268,
+	379, 342, 289, 47, 48, 19, 331, 18, 375, 55,
+	48, 48, 4, 328, 409, 383, 398, 397, 382, 385,
+	381, 386, 380, 184, 378, 184, 348, 347, 390, 346,
+	344, 278, 391, 275, 423, 393, 399, 419, 402, 405,
+	39, 34, 367, 1, 404, 228, 379, 379, 413, 407,
+	408, 226, 225, 231, 230, 55, 19, 187, 418, 414,
+	417, 389, 384, 220, 219, 74, 125, 43, 422, 59,
+	58, 57, 56, 37, 287, 128, 426, 365, 71, 79,
+	88, 206, 158, 122, 256, 188, 104, 86, 84, 83,
+	82, 81, 69, 87, 93, 92, 73, 216, 96, 339,
+	213, 211, 210, 101, 198, 95, 112, 102, 205, 208,
+	207, 148, 204, 202, 217, 200, 197, 392, 191, 195,
+	90, 194, 97, 116, 108, 193, 113, 192, 91, 182,
+	98, 115, 89, 70, 33, 181, 121, 106, 99, 49,
+	94, 109, 55, 19, 187, 110, 51, 52, 186, 111,
+	185, 177, 180, 80, 178, 117, 176, 164, 190, 107,
+	169, 85, 128, 118, 75, 77, 114, 119, 206, 68,
+	122, 120, 188, 72, 100, 215, 103, 76, 78, 6,
+	16, 13, 2, 8, 20, 96, 0, 0, 0, 0,
+	101, 0, 95, 112, 102, 0, 0, 0, 148, 0,
+	0, 217, 0, 0, 0, 191, 0, 90, 0, 97,
+	116, 108, 0, 113, 0, 91, 182, 98, 115, 0,
+	0, 0, 181, 121, 106, 99, 0, 94, 109, 47,
+	48, 332, 110, 0, 0, 0, 111, 0, 0, 0,
+	0, 0, 117, 0, 0, 190, 107, 0, 0, 0,
+	118, 0, 0, 114, 119, 0, 0, 122, 120, 333,
+	0, 100, 215, 103, 0, 0, 0, 0, 0, 0,
+	0, 0, 96, 0, 0, 0, 0, 101, 0, 95,
+	112, 102, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 90, 0, 97, 116, 108, 0,
+	113, 0, 91, 55, 98, 115, 0, 0, 0, 0,
+	121, 106, 99, 0, 94, 109, 0, 0, 0, 110,
+	0, 0, 0, 111, 0, 0, 0, 0, 0, 117,
+	0, 122, 0, 107, 0, 0, 0, 118, 0, 0,
+	114, 119, 0, 0, 0, 120, 96, 0, 100, 0,
+	103, 101, 0, 95, 112, 102, 0, 0, 0, 0,
+	0, 156, 0, 0, 0, 0, 0, 0, 90, 0,
+	97, 116, 108, 0, 113, 0, 91, 0, 98, 115,
+	55, 19, 0, 0, 121, 106, 99, 0, 94, 109,
+	0, 0, 0, 110, 0, 0, 0, 111, 0, 0,
+	0, 0, 0, 117, 0, 155, 0, 107, 122, 0,
+	0, 118, 0, 0, 114, 119, 0, 0, 0, 120,
+	0, 0, 100, 96, 103, 0, 0, 0, 101, 0,
 	95, 112, 102, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 90, 0, 97, 116, 108,
 	0, 113, 0, 91, 55, 98, 115, 0, 0, 0,
@@ -453,126 +469,109 @@ var yyAct = [...]int16{
 	117, 0, 122, 0, 107, 0, 0, 0, 118, 0,
 	0, 114, 119, 0, 0, 0, 120, 96, 0, 100,
 	0, 103, 101, 0, 95, 112, 102, 0, 0, 0,
-	0, 0, 156, 0, 0, 0, 0, 0, 0, 90,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 90,
 	0, 97, 116, 108, 0, 113, 0, 91, 0, 98,
-	115, 55, 19, 0, 0, 121, 106, 99, 0, 94,
+	115, 0, 0, 0, 0, 121, 106, 99, 0, 94,
 	109, 0, 0, 0, 110, 0, 0, 0, 111, 0,
-	0, 0, 0, 0, 117, 0, 155, 0, 107, 122,
+	0, 0, 0, 0, 117, 0, 0, 0, 107, 0,
 	0, 0, 118, 0, 0, 114, 119, 0, 0, 0,
-	120, 0, 0, 100, 96, 103, 0, 0, 0, 101,
-	0, 95, 112, 102, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 90, 0, 97, 116,
-	108, 0, 113, 0, 91, 55, 98, 115, 0, 0,
-	0, 0, 121, 106, 99, 0, 94, 109, 0, 0,
-	0, 110, 0, 0, 0, 111, 0, 0, 0, 0,
-	0, 117, 0, 122, 0, 107, 0, 0, 0, 118,
-	0, 0, 114, 119, 0, 0, 0, 120, 96, 0,
-	100, 0, 103, 101, 0, 95, 112, 102, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	90, 0, 97, 116, 108, 0, 113, 0, 91, 0,
-	98, 115, 0, 0, 0, 0, 121, 106, 99, 0,
-	94, 109, 0, 0, 0, 110, 0, 0, 0, 111,
-	0, 0, 0, 0, 0, 117, 0, 0, 0, 107,
-	0, 0, 0, 118, 0, 0, 114, 119, 0, 0,
-	0, 120, 0, 0, 100, 0, 103,
+	120, 0, 0, 100, 0, 103,
 }
 
 var yyPact = [...]int16{
-	360, -1000, -85, 269, -1000, -22, -1000, 326, 18, 6,
-	0, -1, 256, 326, -1000, -1000, -1000, 193, -1000, -1000,
-	311, -72, -1000, -1000, -1000, -1000, -1000, 343, 33, -1000,
-	182, 23, -1000, 52, -81, 142, -1000, 355, 353, 93,
-	92, 233, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 355,
-	-1000, -1000, -1000, 306, 789, -1000, 79, -1000, 261, 353,
-	-1000, 44, -1000, -1000, 353, -1000, 789, 199, -1000, -1000,
+	356, -1000, -87, 263, -1000, -16, -1000, 323, -10, 7,
+	5, -1, 250, 323, -1000, -1000, -1000, 181, -1000, -1000,
+	307, -78, -1000, -1000, -1000, -1000, -1000, 349, 23, -1000,
+	166, 18, -1000, 64, -83, 121, -1000, 353, 347, 91,
+	89, 228, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 353,
+	-1000, -1000, -1000, 302, 798, -1000, 79, -1000, 255, 347,
+	-1000, 41, -1000, -1000, 347, -1000, 798, 186, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	50, -1000, -1000, -1000, 266, 265, 263, -1000, -57, 49,
-	-1000, 30, 25, -95, 638, -1000, -1000, -1000, -1000, -1000,
+	45, -1000, -1000, -1000, 260, 259, 257, -1000, -64, 36,
+	-1000, 94, 50, -97, 647, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 46, -20, -1000, -1000, -1000, -1000, -1000, 350, 197,
-	-1000, -1000, 360, -1000, 167, 100, -1000, 390, 260, 305,
-	357, 357, -1000, -1000, 78, 715, -24, -27, 167, 53,
-	715, -29, -32, -11, 167, 789, 789, -1000, 334, -1000,
-	-1000, -1000, 255, 350, 350, 197, -1000, -1000, -1000, -1000,
-	-1000, 192, -1000, 358, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 196, 342, -1000,
-	-1000, -1000, 88, -1000, -1000, 232, -1000, -1000, 43, -1000,
-	19, -1000, 76, -1000, 43, -1000, 390, -1000, -1000, -1000,
-	-1000, -1000, -1000, 309, 167, -53, 236, -1000, 357, 252,
-	231, 223, -1000, 88, 789, 251, 228, -1000, 227, -1000,
-	191, 211, -1000, 191, -1000, 216, 248, 226, -1000, -61,
-	-44, 167, -1000, 715, 715, -1000, -1000, 216, 247, 167,
-	-1000, 715, 715, 357, 167, 167, 137, -1000, -1000, -1000,
-	-1000, 246, -1000, -1000, 341, -1000, 335, 166, 196, -1000,
-	180, 564, 302, -1000, 477, 477, -1000, -1000, 477, -1000,
-	-1000, -1000, 174, 91, 167, 258, -1000, 205, -1000, 185,
-	-1000, 305, 216, 357, -1000, 167, -1000, 300, 357, 186,
-	-1000, 357, 245, 297, -1000, 41, -1000, 100, 789, 167,
-	-1000, 167, -1000, 244, -1000, 167, -1000, 167, -1000, -1000,
-	-1000, -1000, 173, -1000, 282, -1000, -1000, 330, -1000, -1000,
-	-1000, -1000, 127, -1000, 329, 224, -1000, -1000, -1000, -1000,
-	-1000, -1000, 45, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	303, -1000, 357, 334, 223, -1000, -1000, 220, -1000, -1000,
-	88, -1000, 171, 165, -1000, -1000, -1000, 219, -1000, -1000,
-	167, -1000, -1000, 166, -1000, 100, -1000, 390, -1000, 243,
-	218, 217, 167, -1000, 146, 145, 216, 357, 215, -1000,
-	-1000, 214, 37, -1000, -1000, -1000, -1000, -1000, 357, 357,
-	-1000, -4, -1000, -1000, -1000, -1000, -1000, 357, -1000, 213,
-	296, 212, -1000, -1000, -1000, 322, 238, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, 38, -1000, 37, 38, 130, -1000,
-	200, -1000, 207, -1000, 38, -1000,
+	-1000, 31, -21, -1000, -1000, -1000, -1000, -1000, 340, 191,
+	-1000, -1000, 356, -1000, 168, 141, -1000, 399, 256, 301,
+	348, 348, -1000, -1000, 87, 724, -32, -36, 168, 72,
+	724, -37, -38, -14, 168, 798, 798, -1000, 327, -1000,
+	-1000, -1000, 247, 340, 340, 191, -1000, -1000, -1000, -1000,
+	-1000, 173, -1000, 354, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 183, 341, -1000,
+	-1000, -1000, 73, -1000, -1000, 225, -1000, -1000, 55, -1000,
+	16, -1000, 138, -1000, 55, -1000, 399, -1000, -1000, -1000,
+	-1000, -1000, -1000, 304, 168, -57, 231, -1000, 348, 246,
+	223, -1000, -1000, 73, 798, 245, 221, -1000, 219, -1000,
+	172, 215, -1000, 172, -1000, 217, 244, 218, -1000, -62,
+	-50, 168, -1000, 724, 724, -1000, -1000, 217, 243, 168,
+	-1000, 724, 724, 348, 168, 168, 102, -1000, -1000, -1000,
+	-1000, 242, -1000, -1000, 337, -1000, 333, 149, 183, -1000,
+	165, 573, 295, -1000, 486, 486, -1000, -1000, 486, -1000,
+	-1000, -1000, 159, 37, 168, 252, -1000, 209, -1000, 171,
+	-1000, 301, 204, -1000, 168, -1000, 294, 348, 189, -1000,
+	348, 241, 279, -1000, 51, -1000, 141, 798, 168, -1000,
+	168, -1000, 240, -1000, 168, -1000, 168, -1000, -1000, -1000,
+	-1000, 153, -1000, 267, -1000, -1000, 332, -1000, -1000, -1000,
+	-1000, 151, -1000, 319, 216, -1000, -1000, -1000, -1000, -1000,
+	-1000, 44, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 298,
+	-1000, 348, 327, -1000, -1000, -1000, 293, 73, -1000, 139,
+	126, -1000, -1000, -1000, -1000, -1000, -1000, 168, -1000, -1000,
+	149, -1000, 141, -1000, 399, -1000, 239, 214, 213, 168,
+	-1000, 114, 107, 204, -1000, -1000, 199, -1000, -1000, 198,
+	-1000, -1000, -1000, -1000, -1000, 348, 348, -1000, -6, -1000,
+	-1000, -1000, -1000, 348, -1000, 194, 32, 236, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 47, -1000, -1000, -1000, -1000,
+	315, -1000, 190, 47, 97, 47, 196, -1000, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 30, 13, 37, 151, 1, 553, 549, 547, 545,
-	269, 332, 544, 543, 331, 16, 541, 540, 538, 537,
-	83, 536, 532, 530, 7, 25, 529, 528, 31, 132,
-	527, 10, 525, 524, 523, 522, 521, 520, 24, 17,
-	155, 519, 518, 514, 510, 29, 506, 505, 8, 502,
-	501, 498, 497, 495, 11, 494, 493, 22, 492, 26,
-	28, 27, 491, 489, 488, 487, 480, 475, 59, 474,
-	473, 468, 20, 466, 462, 460, 458, 457, 456, 454,
-	453, 451, 0, 3, 451, 32, 450, 449, 443, 442,
-	441, 440, 438, 437, 19, 436, 434, 433, 432, 430,
-	124, 176, 120, 425, 423, 421, 420, 419, 419, 6,
-	14, 418, 417, 415, 2, 21, 414, 412, 5, 411,
-	408, 407, 406, 402, 399, 12, 23, 18, 390, 388,
-	385, 385, 384, 383, 382, 381, 380, 378, 4, 376,
-	375, 374, 368, 367,
+	0, 27, 7, 36, 173, 0, 534, 533, 532, 531,
+	260, 325, 530, 529, 324, 15, 528, 527, 523, 519,
+	84, 515, 514, 511, 12, 25, 510, 507, 29, 122,
+	506, 9, 504, 503, 502, 501, 500, 498, 22, 17,
+	132, 497, 496, 489, 484, 28, 483, 482, 6, 477,
+	475, 471, 469, 467, 10, 466, 465, 19, 463, 23,
+	26, 24, 462, 460, 459, 458, 452, 451, 59, 450,
+	449, 447, 16, 446, 445, 444, 443, 442, 441, 440,
+	439, 438, 1, 2, 438, 30, 437, 436, 434, 432,
+	430, 429, 428, 424, 20, 423, 422, 421, 420, 419,
+	119, 170, 103, 417, 416, 415, 414, 413, 413, 412,
+	11, 411, 410, 18, 403, 402, 5, 401, 398, 395,
+	393, 391, 390, 13, 21, 4, 389, 387, 384, 384,
+	383, 381, 380, 379, 377, 376, 3, 374, 367, 366,
+	364, 363,
 }
 
 var yyR1 = [...]uint8{
-	0, 122, 4, 3, 45, 39, 5, 8, 13, 13,
+	0, 120, 4, 3, 45, 39, 5, 8, 13, 13,
 	11, 11, 9, 9, 9, 10, 12, 7, 7, 7,
-	7, 6, 6, 44, 44, 123, 123, 123, 124, 124,
+	7, 6, 6, 44, 44, 121, 121, 121, 122, 122,
 	95, 95, 96, 96, 97, 97, 98, 98, 98, 99,
 	100, 104, 104, 101, 101, 102, 103, 103, 103, 43,
 	43, 40, 40, 76, 15, 15, 42, 41, 20, 20,
 	20, 19, 19, 19, 19, 19, 19, 19, 19, 19,
 	19, 19, 19, 19, 19, 19, 19, 77, 77, 24,
 	31, 30, 30, 30, 30, 18, 35, 35, 17, 17,
-	116, 116, 115, 115, 38, 38, 32, 32, 22, 117,
-	117, 117, 119, 120, 118, 118, 121, 121, 33, 34,
+	114, 114, 113, 113, 38, 38, 32, 32, 22, 115,
+	115, 115, 117, 118, 116, 116, 119, 119, 33, 34,
 	34, 36, 36, 37, 37, 1, 1, 1, 1, 2,
 	2, 92, 92, 93, 93, 94, 94, 91, 21, 78,
-	78, 78, 126, 126, 127, 127, 85, 85, 85, 84,
-	128, 112, 112, 113, 113, 114, 114, 129, 130, 130,
-	83, 83, 82, 82, 82, 82, 80, 80, 80, 81,
-	81, 23, 23, 105, 106, 106, 106, 108, 110, 110,
-	111, 111, 109, 131, 107, 107, 86, 86, 86, 87,
-	88, 88, 89, 89, 89, 89, 79, 79, 16, 29,
-	29, 28, 28, 27, 27, 27, 27, 25, 25, 26,
-	14, 73, 73, 74, 74, 74, 74, 74, 74, 74,
-	74, 74, 74, 74, 74, 74, 75, 90, 90, 46,
-	46, 47, 47, 47, 47, 47, 47, 47, 47, 48,
-	49, 50, 51, 51, 51, 52, 53, 54, 54, 55,
-	55, 56, 57, 57, 58, 59, 59, 62, 60, 132,
-	132, 133, 133, 61, 61, 65, 65, 65, 65, 65,
-	63, 64, 69, 69, 70, 70, 71, 71, 72, 72,
-	68, 66, 67, 67, 134, 135, 135, 136, 137, 138,
-	138, 139, 140, 141, 141, 142, 142, 142, 142, 125,
-	125, 143, 143, 143,
+	78, 78, 124, 124, 125, 125, 85, 85, 85, 84,
+	126, 111, 111, 112, 112, 127, 128, 128, 83, 83,
+	82, 82, 82, 82, 80, 80, 80, 81, 81, 23,
+	23, 105, 106, 106, 106, 108, 110, 110, 109, 129,
+	107, 107, 86, 86, 86, 87, 88, 88, 89, 89,
+	89, 89, 79, 79, 16, 29, 29, 28, 28, 27,
+	27, 27, 27, 25, 25, 26, 14, 73, 73, 74,
+	74, 74, 74, 74, 74, 74, 74, 74, 74, 74,
+	74, 74, 75, 90, 90, 46, 46, 47, 47, 47,
+	47, 47, 47, 47, 47, 48, 49, 50, 51, 51,
+	51, 52, 53, 54, 54, 55, 55, 56, 57, 57,
+	58, 59, 59, 62, 60, 130, 130, 131, 131, 61,
+	61, 65, 65, 65, 65, 65, 63, 64, 69, 69,
+	70, 70, 71, 71, 72, 72, 68, 66, 67, 67,
+	132, 133, 133, 134, 135, 136, 136, 137, 138, 139,
+	139, 140, 140, 140, 140, 123, 123, 141, 141, 141,
 }
 
 var yyR2 = [...]int8{
@@ -590,29 +589,28 @@ var yyR2 = [...]int8{
 	1, 1, 2, 1, 1, 1, 3, 5, 3, 1,
 	2, 2, 5, 1, 3, 4, 4, 2, 1, 3,
 	5, 4, 1, 2, 2, 0, 1, 5, 7, 1,
-	2, 2, 0, 1, 3, 1, 1, 4, 0, 2,
-	1, 3, 1, 2, 3, 3, 3, 5, 4, 3,
-	3, 1, 4, 4, 5, 1, 3, 1, 2, 0,
-	1, 3, 1, 4, 1, 3, 2, 3, 3, 4,
-	1, 1, 1, 1, 1, 0, 3, 3, 2, 3,
-	4, 1, 2, 1, 1, 1, 1, 1, 1, 4,
+	2, 3, 0, 1, 1, 4, 0, 2, 1, 3,
+	1, 2, 3, 3, 3, 5, 4, 3, 3, 1,
+	4, 4, 5, 1, 3, 1, 3, 0, 1, 4,
+	1, 3, 2, 3, 3, 4, 1, 1, 1, 1,
+	1, 0, 3, 3, 2, 3, 4, 1, 2, 1,
+	1, 1, 1, 1, 1, 4, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 1, 1, 2, 1, 1, 2,
-	1, 4, 4, 4, 4, 4, 4, 4, 4, 4,
-	1, 1, 1, 3, 5, 1, 1, 1, 2, 1,
-	3, 1, 1, 3, 1, 1, 2, 1, 2, 1,
-	1, 1, 1, 1, 3, 1, 1, 1, 1, 1,
-	1, 3, 1, 2, 1, 2, 1, 1, 1, 1,
-	2, 1, 3, 3, 1, 1, 1, 3, 5, 1,
-	3, 2, 2, 1, 0, 1, 1, 1, 0, 2,
-	0, 1, 1, 3,
+	1, 1, 2, 1, 1, 2, 1, 4, 4, 4,
+	4, 4, 4, 4, 4, 4, 1, 1, 1, 3,
+	5, 1, 1, 1, 2, 1, 3, 1, 1, 3,
+	1, 1, 2, 1, 2, 1, 1, 1, 1, 1,
+	3, 1, 1, 1, 1, 1, 1, 3, 1, 2,
+	1, 2, 1, 1, 1, 1, 2, 1, 3, 3,
+	1, 1, 1, 3, 5, 1, 3, 2, 2, 1,
+	0, 1, 1, 1, 0, 2, 0, 1, 1, 3,
 }
 
 var yyChk = [...]int16{
-	-1000, -122, -8, -3, 6, 119, -13, 26, -7, 64,
+	-1000, -120, -8, -3, 6, 119, -13, 26, -7, 64,
 	108, 63, -11, -9, -14, -10, -12, -5, 8, 7,
 	-6, 72, 78, 78, 78, 27, -11, 32, 15, 112,
-	-10, 67, 33, -44, -123, 68, 52, -95, 116, -124,
+	-10, 67, 33, -44, -121, 68, 52, -95, 116, -122,
 	55, -101, -102, -103, -4, -3, -45, 6, 7, -43,
 	-40, -42, -41, -4, -45, 6, -96, -97, -98, -99,
 	-100, -101, 42, 42, 30, -40, 15, -20, -19, -77,
@@ -631,75 +629,73 @@ var yyChk = [...]int16{
 	109, 69, -49, -50, -51, -52, -54, -55, 55, -57,
 	-56, -59, -58, -61, -62, -65, 32, -63, -64, -68,
 	-66, -67, -31, -69, -20, 126, -71, 65, 26, -106,
-	-107, -126, -24, 17, -5, -117, -119, -118, -121, -115,
-	-5, -116, -115, -5, 27, -126, -85, -83, -82, -24,
-	103, -20, -24, 93, 93, -48, 27, -126, -85, -20,
+	-107, -124, -24, 17, -5, -115, -117, -116, -119, -113,
+	-5, -114, -113, -5, 27, -124, -85, -83, -82, -24,
+	103, -20, -24, 93, 93, -48, 27, -124, -85, -20,
 	-24, 93, 93, 83, -20, -20, -88, -39, -15, 8,
 	27, -28, -15, -28, 32, -45, 31, 25, 8, -1,
-	-125, 45, 30, -60, 60, -132, 44, 94, -133, 46,
+	-123, 45, 30, -60, 60, -130, 44, 94, -131, 46,
 	53, -60, -54, 16, 99, 103, 28, -93, -94, -5,
-	27, 30, -110, 30, -125, -20, 27, 30, 30, 32,
-	27, 30, -127, 30, 27, 30, 97, 115, 93, -20,
-	-24, -20, -24, -127, 27, -20, -24, -20, -24, -5,
-	35, 27, -25, -15, 8, -2, 8, 36, 33, -143,
-	-38, -15, -20, 8, 36, 17, -61, -57, -59, 33,
-	-70, -72, 28, -31, 61, -134, -48, -135, -136, -137,
-	26, 27, 30, 32, -126, -24, -127, -111, -109, -24,
-	17, -118, -38, -15, -115, 27, 17, -126, -82, -31,
-	-20, 27, 33, 25, 8, 37, 8, 30, -72, -138,
-	17, -139, -5, -94, -39, -15, -110, 30, -125, 33,
-	33, -112, 30, -2, -31, -53, -54, 27, 30, 30,
-	-140, -141, -48, 33, 33, -127, -109, 30, -127, -128,
-	30, -113, -114, -82, -129, 18, -138, -138, -142, 113,
-	47, 97, -120, -118, 30, 17, 30, -130, 8, 27,
-	-83, -114, -83, 37, 30, 19,
+	27, 30, -110, -123, -20, 27, 30, 30, 32, 27,
+	30, -125, 30, 27, 30, 97, 115, 93, -20, -24,
+	-20, -24, -125, 27, -20, -24, -20, -24, -5, 35,
+	27, -25, -15, 8, -2, 8, 36, 33, -141, -38,
+	-15, -20, 8, 36, 17, -61, -57, -59, 33, -70,
+	-72, 28, -31, 61, -132, -48, -133, -134, -135, 26,
+	27, 30, 32, -124, -24, -125, 30, 17, -116, -38,
+	-15, -113, 27, 17, -124, -82, -31, -20, 27, 33,
+	25, 8, 37, 8, 30, -72, -136, 17, -137, -5,
+	-94, -39, -15, -110, -109, -24, -123, 33, 33, -111,
+	-2, -31, -53, -54, 27, 30, 30, -138, -139, -48,
+	33, 33, -125, 30, -125, -126, 30, -136, -136, -140,
+	113, 47, 97, -118, -116, 30, 17, -112, -82, -127,
+	18, 27, -83, -128, 8, 30, -83, 37, 19,
 }
 
 var yyDef = [...]int16{
 	0, -2, 0, 9, 3, 20, 7, 0, 22, 0,
-	0, 0, 0, 10, 12, 13, 14, 200, 15, 6,
+	0, 0, 0, 10, 12, 13, 14, 196, 15, 6,
 	0, 0, 17, 18, 19, 8, 11, 0, 0, 21,
 	0, -2, 16, 0, 31, 29, 1, 0, 33, 0,
 	0, 28, 43, 45, 46, 47, 48, -2, 4, 23,
 	49, 51, 52, 0, 0, 2, 0, 32, 34, 35,
 	36, 0, 25, 26, 0, 50, 0, 0, 58, 59,
 	60, 61, 62, 63, 64, 65, 66, 67, 68, 69,
-	70, 71, 72, 73, 74, 75, 76, 77, 78, 220,
-	0, 85, 201, 202, 0, 0, 88, 128, 0, 0,
-	108, 0, 0, 161, 0, 53, 217, 218, 203, 204,
-	205, 206, 207, 208, 209, 210, 211, 212, 213, 214,
-	215, 0, 185, 30, 37, 39, 41, 42, 0, 47,
-	-2, 38, 0, 44, 56, 0, 219, 0, 121, 0,
-	0, 0, 188, 127, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 176, 0, 0, 216, 0, 182,
-	183, 184, 0, 196, 191, 0, 55, 193, 194, 195,
-	-2, 200, 197, 0, 40, 57, 80, 81, 82, 83,
+	70, 71, 72, 73, 74, 75, 76, 77, 78, 216,
+	0, 85, 197, 198, 0, 0, 88, 128, 0, 0,
+	108, 0, 0, 159, 0, 53, 213, 214, 199, 200,
+	201, 202, 203, 204, 205, 206, 207, 208, 209, 210,
+	211, 0, 181, 30, 37, 39, 41, 42, 0, 47,
+	-2, 38, 0, 44, 56, 0, 215, 0, 121, 0,
+	0, 0, 184, 127, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 172, 0, 0, 212, 0, 178,
+	179, 180, 0, 192, 187, 0, 55, 189, 190, 191,
+	-2, 196, 193, 0, 40, 57, 80, 81, 82, 83,
 	84, 86, 87, 96, 97, 109, 110, 94, 0, 111,
-	113, 114, 290, 230, 231, 232, 235, -2, 0, -2,
-	0, 242, 0, -2, 0, 253, 0, 255, 256, 257,
-	258, 259, -2, 0, 271, 0, 262, 267, 0, 0,
-	165, 169, 174, 132, 0, 0, 99, 102, 104, 106,
-	107, 0, 90, 0, 129, 135, 0, 136, 150, 152,
-	0, 186, 187, 0, 0, 270, 156, 135, 0, 159,
-	160, 0, 0, 0, 177, 178, 0, 180, 181, 5,
-	189, 0, 196, 192, 0, 54, 0, 0, 95, 112,
-	0, 0, 0, 238, 0, 0, 249, 250, 0, 251,
-	252, 246, 0, 0, 0, 0, 263, 0, 123, 0,
-	163, 0, 135, 0, 133, 79, 98, 0, 0, 0,
-	89, 0, 0, 0, 131, 0, 153, 0, 0, 223,
-	227, 224, 228, 0, 158, 221, 225, 222, 226, 162,
-	179, 190, 0, 198, 116, 118, 119, 0, 229, 289,
-	291, 292, 0, 94, 0, 233, 248, -2, 243, 254,
-	261, 264, 0, 268, 269, 272, 274, 273, 275, 276,
-	0, 122, 0, 0, 169, 175, 166, 168, 170, 172,
-	290, 105, 0, 0, 91, 130, 134, 142, 151, 154,
-	155, 157, 199, 0, 120, 0, 95, 0, 265, 0,
-	0, 279, 284, 124, 0, 0, 135, 0, 100, 92,
-	93, 135, 0, 117, 293, 234, 236, 277, 0, 0,
-	281, 288, 283, 125, 126, 164, 171, 0, 137, 0,
-	0, 141, 143, 145, 146, 148, 0, 280, 282, 285,
-	286, 287, 101, 103, 0, -2, 0, 0, 0, 278,
-	138, 144, 0, 149, 0, 147,
+	113, 114, 286, 226, 227, 228, 231, -2, 0, -2,
+	0, 238, 0, -2, 0, 249, 0, 251, 252, 253,
+	254, 255, -2, 0, 267, 0, 258, 263, 0, 0,
+	163, 167, 170, 132, 0, 0, 99, 102, 104, 106,
+	107, 0, 90, 0, 129, 135, 0, 136, 148, 150,
+	0, 182, 183, 0, 0, 266, 154, 135, 0, 157,
+	158, 0, 0, 0, 173, 174, 0, 176, 177, 5,
+	185, 0, 192, 188, 0, 54, 0, 0, 95, 112,
+	0, 0, 0, 234, 0, 0, 245, 246, 0, 247,
+	248, 242, 0, 0, 0, 0, 259, 0, 123, 0,
+	161, 0, 135, 133, 79, 98, 0, 0, 0, 89,
+	0, 0, 0, 131, 0, 151, 0, 0, 219, 223,
+	220, 224, 0, 156, 217, 221, 218, 222, 160, 175,
+	186, 0, 194, 116, 118, 119, 0, 225, 285, 287,
+	288, 0, 94, 0, 229, 244, -2, 239, 250, 257,
+	260, 0, 264, 265, 268, 270, 269, 271, 272, 0,
+	122, 0, 0, 167, 171, 164, 0, 286, 105, 0,
+	0, 91, 130, 134, 142, 149, 152, 153, 155, 195,
+	0, 120, 0, 95, 0, 261, 0, 0, 275, 280,
+	124, 0, 0, 135, 166, 168, 100, 92, 93, 135,
+	117, 289, 230, 232, 273, 0, 0, 277, 284, 279,
+	125, 126, 162, 0, 137, 0, 0, 0, 276, 278,
+	281, 282, 283, 101, 103, 0, -2, 141, 143, 144,
+	146, 274, 138, 0, 0, 0, 0, 147, 145,
 }
 
 var yyTok1 = [...]int8{
@@ -1065,556 +1061,556 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line asn1.y:341
+//line asn1.y:339
 		{
 			yylex.(*MyLexer).result = &ModuleDefinition{ModuleIdentifier: yyDollar[1].ModuleIdentifier, TagDefault: yyDollar[3].TagDefault, ExtensibilityImplied: yyDollar[4].ExtensionDefault, ModuleBody: yyDollar[7].ModuleBody}
 		}
 	case 2:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:344
+//line asn1.y:342
 		{
 			yyVAL.TypeReference = TypeReference(yyDollar[1].name)
 		}
 	case 4:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:349
+//line asn1.y:347
 		{
 			yyVAL.ValueReference = ValueReference(yyDollar[1].name)
 		}
 	case 7:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:360
+//line asn1.y:358
 		{
 			yyVAL.ModuleIdentifier = ModuleIdentifier{Reference: yyDollar[1].name, DefinitiveIdentifier: yyDollar[2].DefinitiveIdentifier}
 		}
 	case 8:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:363
+//line asn1.y:361
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(yyDollar[2].DefinitiveObjIdComponentList)
 		}
 	case 9:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:364
+//line asn1.y:362
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(make([]DefinitiveObjIdComponent, 0))
 		}
 	case 10:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:367
+//line asn1.y:365
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent)
 		}
 	case 11:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:368
+//line asn1.y:366
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent), yyDollar[2].DefinitiveObjIdComponentList...)
 		}
 	case 12:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:371
+//line asn1.y:369
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name}
 		}
 	case 13:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:372
+//line asn1.y:370
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Id: yyDollar[1].Number.IntValue()}
 		}
 	case 14:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:373
+//line asn1.y:371
 		{
 			yyVAL.DefinitiveObjIdComponent = yyDollar[1].DefinitiveObjIdComponent
 		}
 	case 15:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:376
+//line asn1.y:374
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 16:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:380
+//line asn1.y:378
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name, Id: yyDollar[3].Number.IntValue()}
 		}
 	case 17:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:383
+//line asn1.y:381
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 18:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:384
+//line asn1.y:382
 		{
 			yyVAL.TagDefault = TAGS_IMPLICIT
 		}
 	case 19:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:385
+//line asn1.y:383
 		{
 			yyVAL.TagDefault = TAGS_AUTOMATIC
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:386
+//line asn1.y:384
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 21:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:389
+//line asn1.y:387
 		{
 			yyVAL.ExtensionDefault = true
 		}
 	case 22:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:390
+//line asn1.y:388
 		{
 			yyVAL.ExtensionDefault = false
 		}
 	case 23:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:393
+//line asn1.y:391
 		{
 			yyVAL.ModuleBody = ModuleBody{Imports: yyDollar[2].Imports, AssignmentList: yyDollar[3].AssignmentList}
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:394
+//line asn1.y:392
 		{
 			yyVAL.ModuleBody = ModuleBody{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:407
+//line asn1.y:405
 		{
 			yyVAL.Imports = yyDollar[2].Imports
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:408
+//line asn1.y:406
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:411
+//line asn1.y:409
 		{
 			yyVAL.Imports = yyDollar[1].Imports
 		}
 	case 33:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:412
+//line asn1.y:410
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 36:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:421
+//line asn1.y:419
 		{
 			yyVAL.Imports = append(make([]SymbolsFromModule, 0), yyDollar[1].SymbolsFromModule)
 		}
 	case 37:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:422
+//line asn1.y:420
 		{
 			yyVAL.Imports = append(yyDollar[1].Imports, yyDollar[2].SymbolsFromModule)
 		}
 	case 38:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:423
+//line asn1.y:421
 		{
 			yyVAL.Imports = append(yyDollar[1].Imports, yyDollar[2].SymbolsFromModule)
 		}
 	case 39:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:426
+//line asn1.y:424
 		{
 			yyVAL.Imports = yyDollar[1].Imports
 			yyVAL.Imports[len(yyVAL.Imports)-1].Module.AssignedIdentifier = yyDollar[2].Value
 		}
 	case 40:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:429
+//line asn1.y:427
 		{
 			yyVAL.SymbolsFromModule = SymbolsFromModule{yyDollar[1].SymbolList, GlobalModuleReference{Reference: yyDollar[3].name}}
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:432
+//line asn1.y:430
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 42:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:433
+//line asn1.y:431
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
 	case 43:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:436
+//line asn1.y:434
 		{
 			yyVAL.SymbolList = append(make([]Symbol, 0), yyDollar[1].Symbol)
 		}
 	case 44:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:437
+//line asn1.y:435
 		{
 			yyVAL.SymbolList = append(yyDollar[1].SymbolList, yyDollar[3].Symbol)
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:444
+//line asn1.y:442
 		{
 			yyVAL.Symbol = TypeReference(yyDollar[1].TypeReference)
 		}
 	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:445
+//line asn1.y:443
 		{
 			yyVAL.Symbol = ModuleReference(yyDollar[1].name)
 		}
 	case 48:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:446
+//line asn1.y:444
 		{
 			yyVAL.Symbol = ValueReference(yyDollar[1].ValueReference)
 		}
 	case 49:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:452
+//line asn1.y:450
 		{
 			yyVAL.AssignmentList = AssignmentList{yyDollar[1].Assignment}
 		}
 	case 50:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:453
+//line asn1.y:451
 		{
 			yyVAL.AssignmentList = append(yyDollar[1].AssignmentList, yyDollar[2].Assignment)
 		}
 	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:469
+//line asn1.y:467
 		{
 			yyVAL.Type = yyDollar[1].TypeReference
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:477
+//line asn1.y:475
 		{
 			yyVAL.DefinedValue = DefinedValue{ModuleReference(yyDollar[1].name), yyDollar[3].ValueReference}
 		}
 	case 55:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:478
+//line asn1.y:476
 		{
 			yyVAL.DefinedValue = DefinedValue{ValueName: yyDollar[1].ValueReference}
 		}
 	case 56:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:493
+//line asn1.y:491
 		{
 			yyVAL.Assignment = TypeAssignment{yyDollar[1].TypeReference, yyDollar[3].Type}
 		}
 	case 57:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:496
+//line asn1.y:494
 		{
 			yyVAL.Assignment = ValueAssignment{yyDollar[1].ValueReference, yyDollar[2].Type, yyDollar[4].Value}
 		}
 	case 79:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:543
+//line asn1.y:541
 		{
 			yyVAL.NamedType = NamedType{Identifier: Identifier(yyDollar[1].name), Type: yyDollar[2].Type}
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:566
+//line asn1.y:564
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:579
+//line asn1.y:577
 		{
 			yyVAL.Type = BooleanType{}
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:582
+//line asn1.y:580
 		{
 			yyVAL.Value = Boolean(true)
 		}
 	case 87:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:583
+//line asn1.y:581
 		{
 			yyVAL.Value = Boolean(false)
 		}
 	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:588
+//line asn1.y:586
 		{
 			yyVAL.Type = IntegerType{}
 		}
 	case 89:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:589
+//line asn1.y:587
 		{
 			yyVAL.Type = IntegerType{yyDollar[3].NamedNumberList}
 		}
 	case 90:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:592
+//line asn1.y:590
 		{
 			yyVAL.NamedNumberList = []NamedNumber{yyDollar[1].NamedNumber}
 		}
 	case 91:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:593
+//line asn1.y:591
 		{
 			yyVAL.NamedNumberList = append(yyDollar[1].NamedNumberList, yyDollar[3].NamedNumber)
 		}
 	case 92:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:596
+//line asn1.y:594
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].Number}
 		}
 	case 93:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:597
+//line asn1.y:595
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].DefinedValue}
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:600
+//line asn1.y:598
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 95:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:601
+//line asn1.y:599
 		{
 			yyVAL.Number = yyDollar[2].Number.UnaryMinus()
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:606
+//line asn1.y:604
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:607
+//line asn1.y:605
 		{
 			yyVAL.Value = IdentifiedIntegerValue{Name: yyDollar[1].name}
 		}
 	case 98:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:612
+//line asn1.y:610
 		{
 			yyVAL.Type = yyDollar[3].EnumeratedType
 		}
 	case 99:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:615
+//line asn1.y:613
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 100:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:616
+//line asn1.y:614
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 101:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:617
+//line asn1.y:615
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration, AdditionalEnumeration: yyDollar[6].Enumeration}
 		}
 	case 104:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:625
+//line asn1.y:623
 		{
 			yyVAL.Enumeration = []EnumerationItem{yyDollar[1].EnumerationItem}
 		}
 	case 105:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:626
+//line asn1.y:624
 		{
 			yyVAL.Enumeration = append([]EnumerationItem{yyDollar[1].EnumerationItem}, yyDollar[3].Enumeration...)
 		}
 	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:629
+//line asn1.y:627
 		{
 			yyVAL.EnumerationItem = yyDollar[1].NamedNumber
 		}
 	case 107:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:630
+//line asn1.y:628
 		{
 			yyVAL.EnumerationItem = Identifier(yyDollar[1].name)
 		}
 	case 108:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:635
+//line asn1.y:633
 		{
 			yyVAL.Type = RealType{}
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:644
+//line asn1.y:642
 		{
 			yyVAL.Value = yyDollar[1].Real
 		}
 	case 112:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:645
+//line asn1.y:643
 		{
 			yyVAL.Value = yyDollar[2].Real.UnaryMinus()
 		}
 	case 113:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:649
+//line asn1.y:647
 		{
 			yyVAL.Value = Real(math.Inf(1))
 		}
 	case 114:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:650
+//line asn1.y:648
 		{
 			yyVAL.Value = Real(math.Inf(-1))
 		}
 	case 115:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:654
+//line asn1.y:652
 		{
 			yyVAL.Real = yylex.(*MyLexer).parseReal(yyDollar[1].numberRepr, "", 0)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:655
+//line asn1.y:653
 		{
 			yyVAL.Real = yylex.(*MyLexer).parseReal(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
 	case 117:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:656
+//line asn1.y:654
 		{
 			yyVAL.Real = yylex.(*MyLexer).parseReal(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
 	case 118:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:657
+//line asn1.y:655
 		{
 			yyVAL.Real = yylex.(*MyLexer).parseReal(yyDollar[1].numberRepr, "", yyDollar[3].Number)
 		}
 	case 120:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:661
+//line asn1.y:659
 		{
 			yyVAL.Number = Number(-int(yyDollar[2].Number))
 		}
 	case 121:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:666
+//line asn1.y:664
 		{
 			yyVAL.Type = BitStringType{}
 		}
 	case 122:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:667
+//line asn1.y:665
 		{
 			yyVAL.Type = BitStringType{NamedBits: yyDollar[4].NamedBitList}
 		}
 	case 123:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:670
+//line asn1.y:668
 		{
 			yyVAL.NamedBitList = append(make([]NamedBit, 0), yyDollar[1].NamedBit)
 		}
 	case 124:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:671
+//line asn1.y:669
 		{
 			yyVAL.NamedBitList = append(yyDollar[1].NamedBitList, yyDollar[3].NamedBit)
 		}
 	case 125:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:674
+//line asn1.y:672
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].Number}
 		}
 	case 126:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:675
+//line asn1.y:673
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].DefinedValue}
 		}
 	case 127:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:680
+//line asn1.y:678
 		{
 			yyVAL.Type = OctetStringType{}
 		}
 	case 128:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:685
+//line asn1.y:683
 		{
 			yyVAL.Type = NullType{}
 		}
 	case 129:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:690
+//line asn1.y:688
 		{
 			yyVAL.Type = SequenceType{}
 		}
 	case 130:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:691
+//line asn1.y:689
 		{
 			yyVAL.Type = SequenceType{}
 		}
 	case 131:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:692
+//line asn1.y:690
 		{
 			yyVAL.Type = SequenceType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
 	case 136:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:704
+//line asn1.y:702
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList}
 		}
 	case 137:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:705
+//line asn1.y:703
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions}
 		}
 	case 138:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line asn1.y:706
+//line asn1.y:704
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions, TrailingComponents: yyDollar[7].ComponentTypeList}
 		}
 	case 141:
-		yyDollar = yyS[yypt-2 : yypt+1]
+		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:718
 		{
-			yyVAL.ExtensionAdditions = yyDollar[2].ExtensionAdditions
+			yyVAL.ExtensionAdditions = append(yyDollar[1].ExtensionAdditions, yyDollar[3].ExtensionAdditions...)
 		}
 	case 142:
 		yyDollar = yyS[yypt-0 : yypt+1]
@@ -1625,622 +1621,598 @@ yydefault:
 	case 143:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:722
-		{
-			yyVAL.ExtensionAdditions = append([]ExtensionAddition{}, yyDollar[1].ExtensionAdditions...)
-		}
-	case 144:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:723
-		{
-			yyVAL.ExtensionAdditions = append(yyDollar[1].ExtensionAdditions, yyDollar[3].ExtensionAdditions...)
-		}
-	case 145:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:726
 		{
 			yyVAL.ExtensionAdditions = []ExtensionAddition{yyDollar[1].ComponentType}
 		}
-	case 146:
+	case 144:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:727
+//line asn1.y:723
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
-	case 150:
+	case 148:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:736
+//line asn1.y:732
 		{
 			yyVAL.ComponentTypeList = append(make(ComponentTypeList, 0), yyDollar[1].ComponentType)
 		}
-	case 151:
+	case 149:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:737
+//line asn1.y:733
 		{
 			yyVAL.ComponentTypeList = append(yyDollar[1].ComponentTypeList, yyDollar[3].ComponentType)
 		}
-	case 152:
+	case 150:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:740
+//line asn1.y:736
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType}
 		}
-	case 153:
+	case 151:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:741
+//line asn1.y:737
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, IsOptional: true}
 		}
-	case 154:
+	case 152:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:742
+//line asn1.y:738
 		{
 			cpy := yyDollar[3].Value
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
-	case 155:
+	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:743
+//line asn1.y:739
 		{
 			yyVAL.ComponentType = ComponentsOfComponentType{Type: yyDollar[3].Type}
 		}
-	case 156:
+	case 154:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:748
+//line asn1.y:744
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 157:
+	case 155:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:749
+//line asn1.y:745
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 158:
+	case 156:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:750
+//line asn1.y:746
 		{
 			yyVAL.Type = SetType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
-	case 159:
+	case 157:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:755
+//line asn1.y:751
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].Type}
 		}
-	case 160:
+	case 158:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:756
+//line asn1.y:752
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].NamedType}
 		}
-	case 161:
+	case 159:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:760
+//line asn1.y:756
 		{
 			yyVAL.Type = AnyType{}
 		}
-	case 162:
+	case 160:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:761
+//line asn1.y:757
 		{
 			yyVAL.Type = AnyType{Identifier(yyDollar[4].name)}
 		}
-	case 163:
+	case 161:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:766
+//line asn1.y:762
 		{
 			yyVAL.Type = yyDollar[3].ChoiceType
 		}
-	case 164:
+	case 162:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:769
+//line asn1.y:765
 		{
 			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, yyDollar[4].ExtensionAdditionAlternativesList}
 		}
-	case 165:
+	case 163:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:770
+//line asn1.y:766
 		{
 			yyVAL.ChoiceType = ChoiceType{AlternativeTypeList: yyDollar[1].AlternativeTypeList}
 		}
-	case 166:
+	case 164:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:771
+//line asn1.y:767
 		{
 			yyVAL.ChoiceType = ChoiceType{nil, yyDollar[2].ExtensionAdditionAlternativesList}
 		}
-	case 168:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:778
+	case 166:
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line asn1.y:775
 		{
-			yyVAL.ExtensionAdditionAlternativesList = yyDollar[2].ExtensionAdditionAlternativesList
+			yyVAL.ExtensionAdditionAlternativesList = append(yyDollar[1].ExtensionAdditionAlternativesList, yyDollar[3].ExtensionAdditionAlternative)
 		}
-	case 169:
+	case 167:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:779
+//line asn1.y:776
 		{
 			yyVAL.ExtensionAdditionAlternativesList = make([]ChoiceExtension, 0)
 		}
-	case 170:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:782
-		{
-			yyVAL.ExtensionAdditionAlternativesList = append(make([]ChoiceExtension, 0), yyDollar[1].ExtensionAdditionAlternative)
-		}
-	case 171:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:783
-		{
-			yyVAL.ExtensionAdditionAlternativesList = append(yyDollar[1].ExtensionAdditionAlternativesList, yyDollar[3].ExtensionAdditionAlternative)
-		}
-	case 172:
+	case 168:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:787
+//line asn1.y:780
 		{
 			yyVAL.ExtensionAdditionAlternative = yyDollar[1].NamedType
 		}
-	case 174:
+	case 170:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:794
+//line asn1.y:787
 		{
 			yyVAL.AlternativeTypeList = append(make([]NamedType, 0), yyDollar[1].NamedType)
 		}
-	case 175:
+	case 171:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:795
+//line asn1.y:788
 		{
 			yyVAL.AlternativeTypeList = append(yyDollar[1].AlternativeTypeList, yyDollar[3].NamedType)
 		}
-	case 176:
+	case 172:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:800
+//line asn1.y:793
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[2].Type}
 		}
-	case 177:
+	case 173:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:801
+//line asn1.y:794
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_IMPLICIT, HasTagType: true}
 		}
-	case 178:
+	case 174:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:802
+//line asn1.y:795
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_EXPLICIT, HasTagType: true}
 		}
-	case 179:
+	case 175:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:805
+//line asn1.y:798
 		{
 			yyVAL.Tag = Tag{Class: yyDollar[2].Class, ClassNumber: yyDollar[3].Value}
 		}
-	case 180:
+	case 176:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:808
+//line asn1.y:801
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
-	case 181:
+	case 177:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:809
+//line asn1.y:802
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
-	case 182:
+	case 178:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:812
+//line asn1.y:805
 		{
 			yyVAL.Class = CLASS_UNIVERSAL
 		}
-	case 183:
+	case 179:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:813
+//line asn1.y:806
 		{
 			yyVAL.Class = CLASS_APPLICATION
 		}
-	case 184:
+	case 180:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:814
+//line asn1.y:807
 		{
 			yyVAL.Class = CLASS_PRIVATE
 		}
-	case 185:
+	case 181:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:815
+//line asn1.y:808
 		{
 			yyVAL.Class = CLASS_CONTEXT_SPECIFIC
 		}
-	case 186:
+	case 182:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:820
+//line asn1.y:813
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].Type}
 		}
-	case 187:
+	case 183:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:821
+//line asn1.y:814
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].NamedType}
 		}
-	case 188:
+	case 184:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:826
+//line asn1.y:819
 		{
 			yyVAL.Type = ObjectIdentifierType{}
 		}
-	case 189:
+	case 185:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:831
+//line asn1.y:824
 		{
 			yyVAL.ObjectIdentifierValue = yyDollar[2].ObjectIdentifierValue
 		}
-	case 190:
+	case 186:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:832
+//line asn1.y:825
 		{
 			cpy := yyDollar[2].DefinedValue
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
-	case 191:
+	case 187:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:835
+//line asn1.y:828
 		{
 			yyVAL.ObjectIdentifierValue = ObjectIdentifierValue{yyDollar[1].ObjectIdElement}
 		}
-	case 192:
+	case 188:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:836
+//line asn1.y:829
 		{
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{yyDollar[1].ObjectIdElement}, yyDollar[2].ObjectIdentifierValue...)
 		}
-	case 193:
+	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:839
+//line asn1.y:832
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name}
 		}
-	case 196:
+	case 192:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:842
+//line asn1.y:835
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 197:
+	case 193:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:845
+//line asn1.y:838
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{ID: yyDollar[1].Number.IntValue()}
 		}
-	case 198:
+	case 194:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:846
+//line asn1.y:839
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 199:
+	case 195:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:850
+//line asn1.y:843
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name, ID: yyDollar[3].ObjectIdElement.ID, Reference: yyDollar[3].ObjectIdElement.Reference}
 		}
-	case 203:
+	case 199:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:862
+//line asn1.y:855
 		{
 			yyVAL.Type = RestrictedStringType{LexType: BMPString}
 		}
-	case 204:
+	case 200:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:863
+//line asn1.y:856
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GeneralString}
 		}
-	case 205:
+	case 201:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:864
+//line asn1.y:857
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GraphicString}
 		}
-	case 206:
+	case 202:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:865
+//line asn1.y:858
 		{
 			yyVAL.Type = RestrictedStringType{LexType: IA5String}
 		}
-	case 207:
+	case 203:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:866
+//line asn1.y:859
 		{
 			yyVAL.Type = RestrictedStringType{LexType: ISO646String}
 		}
-	case 208:
+	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:867
+//line asn1.y:860
 		{
 			yyVAL.Type = RestrictedStringType{LexType: NumericString}
 		}
-	case 209:
+	case 205:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:868
+//line asn1.y:861
 		{
 			yyVAL.Type = RestrictedStringType{LexType: PrintableString}
 		}
-	case 210:
+	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:869
+//line asn1.y:862
 		{
 			yyVAL.Type = RestrictedStringType{LexType: TeletexString}
 		}
-	case 211:
+	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:870
+//line asn1.y:863
 		{
 			yyVAL.Type = RestrictedStringType{LexType: T61String}
 		}
-	case 212:
+	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:871
+//line asn1.y:864
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UniversalString}
 		}
-	case 213:
+	case 209:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:872
+//line asn1.y:865
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UTF8String}
 		}
-	case 214:
+	case 210:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:873
+//line asn1.y:866
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VideotexString}
 		}
-	case 215:
+	case 211:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:874
+//line asn1.y:867
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VisibleString}
 		}
-	case 216:
+	case 212:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:879
+//line asn1.y:872
 		{
 			yyVAL.Type = CharacterStringType{}
 		}
-	case 217:
+	case 213:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:884
+//line asn1.y:877
 		{
 			yyVAL.Type = TypeReference("GeneralizedTime")
 		}
-	case 218:
+	case 214:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:885
+//line asn1.y:878
 		{
 			yyVAL.Type = TypeReference("UTCTime")
 		}
-	case 219:
+	case 215:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:890
+//line asn1.y:883
 		{
 			yyVAL.Type = ConstraintedType{yyDollar[1].Type, yyDollar[2].Constraint}
 		}
-	case 221:
+	case 217:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:896
+//line asn1.y:889
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
-	case 222:
+	case 218:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:897
+//line asn1.y:890
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 223:
+	case 219:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:898
+//line asn1.y:891
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
-	case 224:
+	case 220:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:899
+//line asn1.y:892
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 225:
+	case 221:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:900
+//line asn1.y:893
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
-	case 226:
+	case 222:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:901
+//line asn1.y:894
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 227:
+	case 223:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:902
+//line asn1.y:895
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
-	case 228:
+	case 224:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:903
+//line asn1.y:896
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 229:
+	case 225:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:908
+//line asn1.y:901
 		{
 			yyVAL.Constraint = Constraint{ConstraintSpec: yyDollar[2].ConstraintSpec}
 		}
-	case 230:
+	case 226:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:911
+//line asn1.y:904
 		{
 			yyVAL.ConstraintSpec = yyDollar[1].SubtypeConstraint
 		}
-	case 233:
+	case 229:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:921
+//line asn1.y:914
 		{
 			yyVAL.SubtypeConstraint = yyDollar[1].SubtypeConstraint
 		}
-	case 234:
+	case 230:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:922
+//line asn1.y:915
 		{
 			yyVAL.SubtypeConstraint = append(yyDollar[1].SubtypeConstraint, yyDollar[5].ElementSetSpec)
 		}
-	case 235:
+	case 231:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:925
+//line asn1.y:918
 		{
 			yyVAL.SubtypeConstraint = SubtypeConstraint{yyDollar[1].ElementSetSpec}
 		}
-	case 237:
+	case 233:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:931
+//line asn1.y:924
 		{
 			yyVAL.ElementSetSpec = yyDollar[1].Unions
 		}
-	case 238:
+	case 234:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:932
+//line asn1.y:925
 		{
 			yyVAL.ElementSetSpec = yyDollar[2].Exclusions
 		}
-	case 239:
+	case 235:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:935
+//line asn1.y:928
 		{
 			yyVAL.Unions = Unions{yyDollar[1].Intersections}
 		}
-	case 240:
+	case 236:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:936
+//line asn1.y:929
 		{
 			yyVAL.Unions = append(yyDollar[1].Unions, yyDollar[3].Intersections)
 		}
-	case 242:
+	case 238:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:942
+//line asn1.y:935
 		{
 			yyVAL.Intersections = Intersections{yyDollar[1].IntersectionElements}
 		}
-	case 243:
+	case 239:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:943
+//line asn1.y:936
 		{
 			yyVAL.Intersections = append(yyDollar[1].Intersections, yyDollar[3].IntersectionElements)
 		}
-	case 245:
+	case 241:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:949
+//line asn1.y:942
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements}
 		}
-	case 246:
+	case 242:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:950
+//line asn1.y:943
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements, Exclusions: yyDollar[2].Exclusions}
 		}
-	case 248:
+	case 244:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:956
+//line asn1.y:949
 		{
 			yyVAL.Exclusions = Exclusions{yyDollar[2].Elements}
 		}
-	case 253:
+	case 249:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:965
+//line asn1.y:958
 		{
 			yyVAL.Elements = yyDollar[1].Elements
 		}
-	case 254:
+	case 250:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:967
+//line asn1.y:960
 		{
 			yyVAL.Elements = yyDollar[2].ElementSetSpec
 		}
-	case 260:
+	case 256:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:982
+//line asn1.y:975
 		{
 			yyVAL.Elements = SingleValue{yyDollar[1].Value}
 		}
-	case 261:
+	case 257:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:987
+//line asn1.y:980
 		{
 			yyVAL.Elements = ValueRange{yyDollar[1].RangeEndpoint, yyDollar[3].RangeEndpoint}
 		}
-	case 262:
+	case 258:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:990
+//line asn1.y:983
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 263:
+	case 259:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:991
+//line asn1.y:984
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value, IsOpen: true}
 		}
-	case 264:
+	case 260:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:994
+//line asn1.y:987
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 265:
+	case 261:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:995
+//line asn1.y:988
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[2].Value, IsOpen: true}
 		}
-	case 267:
+	case 263:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:999
+//line asn1.y:992
 		{
 			yyVAL.Value = nil
 		}
-	case 269:
+	case 265:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1003
+//line asn1.y:996
 		{
 			yyVAL.Value = nil
 		}
-	case 270:
+	case 266:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:1008
+//line asn1.y:1001
 		{
 			yyVAL.Elements = SizeConstraint{yyDollar[2].Constraint}
 		}
-	case 271:
+	case 267:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1013
+//line asn1.y:1006
 		{
 			yyVAL.Elements = TypeConstraint{yyDollar[1].Type}
 		}
-	case 272:
+	case 268:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1018
+//line asn1.y:1011
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-	case 273:
+	case 269:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1019
+//line asn1.y:1012
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-- 
2.43.0


From 29806e8200ee85aab9e17deddb369143c6b98995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 09/32] fix: reject letters and digits that are not a part of
 ASN.1 character set

---
 lexer.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/lexer.go b/lexer.go
index 53fa698..9932c86 100644
--- a/lexer.go
+++ b/lexer.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"io"
 	"strconv"
-	"unicode"
 	"unicode/utf8"
 )
 
@@ -152,7 +151,7 @@ func (lex *MyLexer) Lex(lval *yySymType) int {
 		}
 
 		// parse lexem
-		if unicode.IsLetter(r) {
+		if isLetter(r) {
 			if lastWasNumber && (r == 'e' || r == 'E') {
 				return EXPONENT
 			}
@@ -162,7 +161,7 @@ func (lex *MyLexer) Lex(lval *yySymType) int {
 				lex.Error(err.Error())
 				return -1
 			}
-			if unicode.IsUpper(r) {
+			if isUpperLetter(r) {
 				code, exists := RESERVED_WORDS[content]
 				if exists {
 					return code
@@ -174,7 +173,7 @@ func (lex *MyLexer) Lex(lval *yySymType) int {
 				lval.name = content
 				return VALUEIDENTIFIER
 			}
-		} else if unicode.IsDigit(r) {
+		} else if isDigit(r) {
 			lex.unreadRune()
 			lex.lastWasNumber = true
 			return lex.consumeNumber(lval)
@@ -392,8 +391,8 @@ func (lex *MyLexer) consumeNumber(lval *yySymType) int {
 	acc.WriteRune(r)
 	for {
 		r, _, err := lex.readRune()
-		if err == io.EOF || !unicode.IsDigit(r) {
-			if err == nil && !unicode.IsDigit(r) {
+		if err == io.EOF || !isDigit(r) {
+			if err == nil && !isDigit(r) {
 				lex.unreadRune()
 			}
 			repr := acc.String()
@@ -463,6 +462,21 @@ func isNewline(r rune) bool {
 	}
 }
 
+// Only Latin letters and European digits can be used outside of comments and character strings.
+// See X.680, section 10.1.
+
+func isLetter(r rune) bool {
+	return isUpperLetter(r) || r >= 'a' && r <= 'z'
+}
+
+func isUpperLetter(r rune) bool {
+	return r >= 'A' && r <= 'Z'
+}
+
+func isDigit(r rune) bool {
+	return r >= '0' && r <= '9'
+}
+
 func isIdentifierChar(r rune) bool {
-	return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '-'
+	return isLetter(r) || isDigit(r) || r == '-'
 }
-- 
2.43.0


From a80e21000ef35c0463104428037a71a3880a7bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 10/32] fix: keep the first error, which is at the place where
 the text stops making sense

---
 lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lexer.go b/lexer.go
index 9932c86..79538da 100644
--- a/lexer.go
+++ b/lexer.go
@@ -414,7 +414,11 @@ func (lex *MyLexer) consumeNumber(lval *yySymType) int {
 }
 
 // Error implements yyLexer, and is used by the parser to communicate errors.
+// Only the first error is kept: parser might continue after the lexer has failed, and report it again at a later token.
 func (lex *MyLexer) Error(e string) {
+	if lex.err != nil {
+		return
+	}
 	lex.err = fmt.Errorf("line %v: %v", lex.lineNo+1, e)
 }
 
-- 
2.43.0


From 395a9dcf1fa697adbff8772026dd85768fe9a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 11/32] fix: parse long object identifiers in linear time and
 memory

---
 asn1.y |   4 +-
 y.go   | 230 ++++++++++++++++++++++++++++-----------------------------
 2 files changed, 117 insertions(+), 117 deletions(-)

diff --git a/asn1.y b/asn1.y
index 52237a1..bbdb827 100644
--- a/asn1.y
+++ b/asn1.y
@@ -363,7 +363,7 @@ DefinitiveIdentifier : OPEN_CURLY DefinitiveObjIdComponentList CLOSE_CURLY { $$
 ;
 
 DefinitiveObjIdComponentList :  DefinitiveObjIdComponent  { $$ = append(make([]DefinitiveObjIdComponent, 0), $1) }
-                             | DefinitiveObjIdComponent DefinitiveObjIdComponentList  { $$ = append(append(make([]DefinitiveObjIdComponent, 0), $1), $2...) }
+                             | DefinitiveObjIdComponentList DefinitiveObjIdComponent  { $$ = append($1, $2) }
 ;
 
 DefinitiveObjIdComponent : NameForm  { $$ = DefinitiveObjIdComponent{Name: $1} }
@@ -826,7 +826,7 @@ ObjectIdentifierValue : OPEN_CURLY ObjIdComponentsList CLOSE_CURLY  { $$ = $2 }
 ;
 
 ObjIdComponentsList :  ObjIdComponents  { $$ = ObjectIdentifierValue{$1}  }
-                    | ObjIdComponents ObjIdComponentsList  { $$ = append(ObjectIdentifierValue{$1}, $2...)  }
+                    | ObjIdComponentsList ObjIdComponents  { $$ = append($1, $2)  }
 ;
 
 ObjIdComponents : NameForm  { $$ = ObjectIdElement{Name: $1} }
diff --git a/y.go b/y.go
index c699442..877d865 100644
--- a/y.go
+++ b/y.go
@@ -384,61 +384,61 @@ const yyLast = 926
 
 var yyAct = [...]int16{
 	224, 238, 237, 376, 301, 227, 136, 324, 17, 212,
-	196, 292, 239, 270, 17, 262, 340, 257, 229, 199,
-	288, 221, 183, 201, 203, 168, 273, 189, 166, 162,
-	236, 153, 5, 38, 29, 305, 165, 3, 160, 19,
-	142, 411, 284, 307, 19, 187, 285, 11, 9, 416,
-	420, 19, 187, 306, 19, 252, 251, 244, 19, 209,
-	276, 243, 21, 128, 46, 341, 54, 46, 223, 253,
-	128, 64, 45, 188, 127, 45, 149, 24, 54, 19,
-	188, 159, 137, 23, 214, 22, 35, 130, 46, 223,
-	31, 412, 10, 46, 19, 129, 45, 157, 343, 246,
-	161, 45, 143, 42, 223, 343, 191, 410, 146, 151,
-	277, 138, 148, 191, 234, 274, 36, 182, 271, 60,
-	144, 123, 179, 181, 182, 132, 137, 47, 48, 171,
-	181, 63, 50, 62, 427, 240, 184, 319, 184, 67,
-	401, 230, 233, 150, 163, 175, 190, 400, 19, 187,
-	240, 134, 222, 190, 240, 245, 148, 325, 242, 388,
-	232, 147, 152, 250, 171, 171, 235, 128, 133, 174,
-	61, 247, 387, 105, 258, 240, 40, 188, 124, 131,
-	248, 126, 65, 137, 279, 326, 369, 145, 372, 154,
-	240, 280, 338, 261, 263, 4, 48, 332, 327, 32,
-	137, 135, 265, 352, 298, 264, 41, 184, 267, 44,
-	191, 53, 44, 27, 266, 428, 269, 282, 137, 289,
-	425, 182, 173, 53, 415, 333, 425, 181, 406, 403,
-	241, 281, 44, 44, 356, 249, 350, 293, 44, 351,
-	254, 255, 299, 396, 395, 300, 374, 302, 304, 297,
-	190, 296, 312, 291, 318, 272, 309, 311, 64, 286,
-	15, 47, 48, 421, 315, 317, 394, 368, 362, 320,
-	313, 303, 295, 290, 260, 184, 184, 25, 349, 184,
-	322, 128, 218, 141, 184, 140, 139, 330, 30, 7,
-	321, 345, 370, 342, 329, 336, 363, 355, 230, 335,
-	19, 233, 337, 358, 354, 19, 365, 184, 19, 294,
-	363, 357, 334, 353, 360, 377, 366, 66, 223, 361,
-	283, 359, 28, 424, 167, 12, 364, 373, 308, 310,
-	19, 18, 14, 4, 48, 259, 314, 316, 14, 26,
-	371, 323, 184, 4, 48, 172, 4, 170, 172, 268,
-	379, 342, 289, 47, 48, 19, 331, 18, 375, 55,
-	48, 48, 4, 328, 409, 383, 398, 397, 382, 385,
-	381, 386, 380, 184, 378, 184, 348, 347, 390, 346,
-	344, 278, 391, 275, 423, 393, 399, 419, 402, 405,
-	39, 34, 367, 1, 404, 228, 379, 379, 413, 407,
-	408, 226, 225, 231, 230, 55, 19, 187, 418, 414,
-	417, 389, 384, 220, 219, 74, 125, 43, 422, 59,
-	58, 57, 56, 37, 287, 128, 426, 365, 71, 79,
-	88, 206, 158, 122, 256, 188, 104, 86, 84, 83,
-	82, 81, 69, 87, 93, 92, 73, 216, 96, 339,
-	213, 211, 210, 101, 198, 95, 112, 102, 205, 208,
-	207, 148, 204, 202, 217, 200, 197, 392, 191, 195,
-	90, 194, 97, 116, 108, 193, 113, 192, 91, 182,
-	98, 115, 89, 70, 33, 181, 121, 106, 99, 49,
-	94, 109, 55, 19, 187, 110, 51, 52, 186, 111,
-	185, 177, 180, 80, 178, 117, 176, 164, 190, 107,
-	169, 85, 128, 118, 75, 77, 114, 119, 206, 68,
-	122, 120, 188, 72, 100, 215, 103, 76, 78, 6,
-	16, 13, 2, 8, 20, 96, 0, 0, 0, 0,
-	101, 0, 95, 112, 102, 0, 0, 0, 148, 0,
-	0, 217, 0, 0, 0, 191, 0, 90, 0, 97,
+	196, 270, 292, 17, 257, 262, 340, 221, 288, 229,
+	183, 201, 273, 199, 164, 168, 189, 203, 166, 162,
+	236, 153, 5, 239, 38, 305, 165, 3, 160, 29,
+	142, 411, 284, 19, 19, 187, 285, 11, 9, 307,
+	252, 19, 187, 306, 149, 251, 209, 244, 19, 243,
+	137, 19, 64, 128, 46, 341, 54, 46, 416, 420,
+	128, 223, 45, 188, 127, 45, 144, 276, 54, 19,
+	188, 159, 137, 253, 24, 214, 23, 130, 46, 223,
+	148, 412, 10, 46, 22, 129, 45, 21, 343, 246,
+	161, 45, 35, 19, 187, 343, 191, 410, 146, 151,
+	31, 157, 148, 191, 143, 19, 132, 182, 138, 274,
+	42, 150, 128, 181, 182, 223, 36, 277, 50, 171,
+	181, 271, 188, 179, 123, 234, 184, 60, 184, 240,
+	67, 230, 233, 145, 163, 175, 190, 63, 62, 47,
+	48, 137, 134, 190, 240, 245, 372, 240, 147, 152,
+	427, 232, 235, 171, 171, 191, 325, 247, 61, 174,
+	279, 319, 401, 222, 258, 240, 182, 280, 65, 242,
+	248, 400, 181, 388, 250, 133, 387, 261, 369, 338,
+	154, 137, 126, 263, 326, 327, 124, 131, 40, 135,
+	32, 105, 265, 352, 41, 190, 267, 184, 4, 48,
+	332, 240, 266, 428, 298, 269, 137, 282, 264, 289,
+	27, 173, 350, 299, 425, 351, 300, 281, 425, 415,
+	406, 241, 421, 403, 356, 293, 249, 44, 333, 53,
+	44, 254, 255, 396, 395, 374, 4, 170, 172, 302,
+	304, 53, 312, 297, 318, 296, 291, 272, 64, 286,
+	44, 44, 19, 18, 171, 394, 44, 320, 4, 170,
+	172, 368, 362, 313, 303, 184, 184, 309, 311, 184,
+	322, 295, 25, 15, 184, 315, 317, 330, 261, 260,
+	321, 345, 329, 342, 290, 47, 48, 355, 230, 336,
+	337, 233, 335, 358, 349, 218, 365, 184, 141, 353,
+	294, 30, 140, 139, 360, 128, 366, 7, 370, 359,
+	361, 19, 364, 19, 19, 354, 363, 357, 334, 308,
+	310, 363, 167, 377, 223, 283, 66, 314, 316, 28,
+	14, 13, 184, 19, 18, 14, 4, 48, 259, 424,
+	379, 342, 289, 373, 26, 371, 323, 331, 375, 4,
+	48, 172, 4, 170, 172, 268, 383, 381, 382, 386,
+	380, 47, 48, 184, 18, 184, 55, 48, 390, 19,
+	48, 4, 391, 328, 409, 393, 399, 398, 402, 397,
+	385, 378, 348, 367, 404, 347, 379, 379, 346, 407,
+	408, 344, 278, 275, 230, 55, 19, 187, 418, 414,
+	423, 419, 405, 39, 34, 1, 228, 413, 422, 226,
+	225, 231, 417, 389, 384, 128, 426, 365, 220, 219,
+	74, 206, 125, 122, 43, 188, 59, 58, 57, 56,
+	37, 287, 71, 79, 88, 158, 256, 104, 96, 86,
+	84, 83, 82, 101, 198, 95, 112, 102, 81, 69,
+	87, 148, 93, 92, 217, 73, 216, 339, 191, 213,
+	90, 211, 97, 116, 108, 210, 113, 205, 91, 182,
+	98, 115, 208, 207, 204, 181, 121, 106, 99, 202,
+	94, 109, 55, 19, 187, 110, 200, 197, 392, 111,
+	195, 194, 193, 192, 89, 117, 70, 33, 190, 107,
+	49, 51, 128, 118, 52, 186, 114, 119, 206, 185,
+	122, 120, 188, 177, 100, 215, 103, 180, 80, 178,
+	176, 169, 85, 75, 77, 96, 68, 72, 76, 78,
+	101, 6, 95, 112, 102, 16, 12, 2, 148, 8,
+	20, 217, 0, 0, 0, 191, 0, 90, 0, 97,
 	116, 108, 0, 113, 0, 91, 182, 98, 115, 0,
 	0, 0, 181, 121, 106, 99, 0, 94, 109, 47,
 	48, 332, 110, 0, 0, 0, 111, 0, 0, 0,
@@ -479,67 +479,67 @@ var yyAct = [...]int16{
 }
 
 var yyPact = [...]int16{
-	356, -1000, -87, 263, -1000, -16, -1000, 323, -10, 7,
-	5, -1, 250, 323, -1000, -1000, -1000, 181, -1000, -1000,
-	307, -78, -1000, -1000, -1000, -1000, -1000, 349, 23, -1000,
-	166, 18, -1000, 64, -83, 121, -1000, 353, 347, 91,
-	89, 228, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 353,
-	-1000, -1000, -1000, 302, 798, -1000, 79, -1000, 255, 347,
-	-1000, 41, -1000, -1000, 347, -1000, 798, 186, -1000, -1000,
+	375, -1000, -87, 291, -1000, -16, -1000, 336, 25, 16,
+	8, 6, 255, -1000, -1000, -1000, -1000, 188, -1000, -1000,
+	324, -73, -1000, -1000, -1000, -1000, -1000, 366, 43, -1000,
+	167, 34, -1000, 74, -82, 143, -1000, 370, 365, 106,
+	105, 228, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 370,
+	-1000, -1000, -1000, 321, 798, -1000, 92, -1000, 289, 365,
+	-1000, 32, -1000, -1000, 365, -1000, 798, 184, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	45, -1000, -1000, -1000, 260, 259, 257, -1000, -64, 36,
-	-1000, 94, 50, -97, 647, -1000, -1000, -1000, -1000, -1000,
+	52, -1000, -1000, -1000, 287, 286, 282, -1000, -64, 48,
+	-1000, 50, 28, -97, 647, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 31, -21, -1000, -1000, -1000, -1000, -1000, 340, 191,
-	-1000, -1000, 356, -1000, 168, 141, -1000, 399, 256, 301,
-	348, 348, -1000, -1000, 87, 724, -32, -36, 168, 72,
-	724, -37, -38, -14, 168, 798, 798, -1000, 327, -1000,
-	-1000, -1000, 247, 340, 340, 191, -1000, -1000, -1000, -1000,
-	-1000, 173, -1000, 354, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 183, 341, -1000,
-	-1000, -1000, 73, -1000, -1000, 225, -1000, -1000, 55, -1000,
-	16, -1000, 138, -1000, 55, -1000, 399, -1000, -1000, -1000,
-	-1000, -1000, -1000, 304, 168, -57, 231, -1000, 348, 246,
-	223, -1000, -1000, 73, 798, 245, 221, -1000, 219, -1000,
-	172, 215, -1000, 172, -1000, 217, 244, 218, -1000, -62,
-	-50, 168, -1000, 724, 724, -1000, -1000, 217, 243, 168,
-	-1000, 724, 724, 348, 168, 168, 102, -1000, -1000, -1000,
-	-1000, 242, -1000, -1000, 337, -1000, 333, 149, 183, -1000,
-	165, 573, 295, -1000, 486, 486, -1000, -1000, 486, -1000,
-	-1000, -1000, 159, 37, 168, 252, -1000, 209, -1000, 171,
-	-1000, 301, 204, -1000, 168, -1000, 294, 348, 189, -1000,
-	348, 241, 279, -1000, 51, -1000, 141, 798, 168, -1000,
-	168, -1000, 240, -1000, 168, -1000, 168, -1000, -1000, -1000,
-	-1000, 153, -1000, 267, -1000, -1000, 332, -1000, -1000, -1000,
-	-1000, 151, -1000, 319, 216, -1000, -1000, -1000, -1000, -1000,
-	-1000, 44, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 298,
-	-1000, 348, 327, -1000, -1000, -1000, 293, 73, -1000, 139,
-	126, -1000, -1000, -1000, -1000, -1000, -1000, 168, -1000, -1000,
-	149, -1000, 141, -1000, 399, -1000, 239, 214, 213, 168,
-	-1000, 114, 107, 204, -1000, -1000, 199, -1000, -1000, 198,
-	-1000, -1000, -1000, -1000, -1000, 348, 348, -1000, -6, -1000,
-	-1000, -1000, -1000, 348, -1000, 194, 32, 236, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 47, -1000, -1000, -1000, -1000,
-	315, -1000, 190, 47, 97, 47, 196, -1000, -1000,
+	-1000, 45, -21, -1000, -1000, -1000, -1000, -1000, 356, 190,
+	-1000, -1000, 375, -1000, 159, 96, -1000, 399, 279, 317,
+	372, 372, -1000, -1000, 108, 724, -34, -36, 159, 72,
+	724, -38, -43, 0, 159, 798, 798, -1000, 340, -1000,
+	-1000, -1000, 262, 356, -1000, 190, -1000, -1000, -1000, -1000,
+	-1000, 186, -1000, 373, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 181, 357, -1000,
+	-1000, -1000, 86, -1000, -1000, 227, -1000, -1000, 59, -1000,
+	33, -1000, 124, -1000, 59, -1000, 399, -1000, -1000, -1000,
+	-1000, -1000, -1000, 319, 159, -57, 231, -1000, 372, 267,
+	226, -1000, -1000, 86, 798, 254, 225, -1000, 223, -1000,
+	182, 196, -1000, 182, -1000, 219, 247, 220, -1000, -62,
+	-44, 159, -1000, 724, 724, -1000, -1000, 219, 246, 159,
+	-1000, 724, 724, 372, 159, 159, 136, -1000, -1000, -1000,
+	-1000, -1000, -1000, 240, 353, -1000, 348, 158, 181, -1000,
+	162, 573, 311, -1000, 486, 486, -1000, -1000, 486, -1000,
+	-1000, -1000, 156, 37, 159, 278, -1000, 195, -1000, 171,
+	-1000, 317, 204, -1000, 159, -1000, 310, 372, 202, -1000,
+	372, 245, 309, -1000, 54, -1000, 96, 798, 159, -1000,
+	159, -1000, 244, -1000, 159, -1000, 159, -1000, -1000, -1000,
+	-1000, 155, -1000, 293, -1000, -1000, 347, -1000, -1000, -1000,
+	-1000, 119, -1000, 345, 215, -1000, -1000, -1000, -1000, -1000,
+	-1000, 44, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 316,
+	-1000, 372, 340, -1000, -1000, -1000, 314, 86, -1000, 153,
+	150, -1000, -1000, -1000, -1000, -1000, -1000, 159, -1000, -1000,
+	158, -1000, 96, -1000, 399, -1000, 238, 214, 213, 159,
+	-1000, 148, 139, 204, -1000, -1000, 203, -1000, -1000, 200,
+	-1000, -1000, -1000, -1000, -1000, 372, 372, -1000, -6, -1000,
+	-1000, -1000, -1000, 372, -1000, 199, 51, 205, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, 36, -1000, -1000, -1000, -1000,
+	341, -1000, 198, 36, 123, 36, 194, -1000, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 27, 7, 36, 173, 0, 534, 533, 532, 531,
-	260, 325, 530, 529, 324, 15, 528, 527, 523, 519,
-	84, 515, 514, 511, 12, 25, 510, 507, 29, 122,
-	506, 9, 504, 503, 502, 501, 500, 498, 22, 17,
-	132, 497, 496, 489, 484, 28, 483, 482, 6, 477,
-	475, 471, 469, 467, 10, 466, 465, 19, 463, 23,
-	26, 24, 462, 460, 459, 458, 452, 451, 59, 450,
-	449, 447, 16, 446, 445, 444, 443, 442, 441, 440,
-	439, 438, 1, 2, 438, 30, 437, 436, 434, 432,
-	430, 429, 428, 424, 20, 423, 422, 421, 420, 419,
-	119, 170, 103, 417, 416, 415, 414, 413, 413, 412,
-	11, 411, 410, 18, 403, 402, 5, 401, 398, 395,
-	393, 391, 390, 13, 21, 4, 389, 387, 384, 384,
-	383, 381, 380, 379, 377, 376, 3, 374, 367, 366,
-	364, 363,
+	0, 26, 7, 36, 201, 0, 550, 549, 547, 341,
+	283, 546, 545, 541, 332, 15, 539, 538, 537, 536,
+	85, 534, 533, 532, 33, 25, 531, 24, 29, 133,
+	530, 9, 529, 528, 527, 523, 519, 515, 20, 14,
+	128, 514, 511, 510, 507, 28, 506, 504, 6, 503,
+	502, 501, 500, 498, 10, 497, 496, 23, 489, 21,
+	22, 27, 484, 483, 482, 477, 475, 471, 56, 469,
+	467, 466, 16, 465, 463, 462, 460, 459, 458, 452,
+	451, 450, 1, 2, 450, 30, 449, 447, 446, 445,
+	444, 443, 442, 441, 18, 440, 439, 438, 437, 436,
+	137, 168, 120, 434, 432, 430, 429, 428, 428, 424,
+	12, 423, 422, 19, 421, 420, 5, 419, 417, 416,
+	415, 414, 413, 11, 17, 4, 412, 411, 410, 410,
+	403, 402, 401, 398, 395, 392, 3, 391, 389, 387,
+	384, 383,
 }
 
 var yyR1 = [...]uint8{
@@ -609,7 +609,7 @@ var yyR2 = [...]int8{
 var yyChk = [...]int16{
 	-1000, -120, -8, -3, 6, 119, -13, 26, -7, 64,
 	108, 63, -11, -9, -14, -10, -12, -5, 8, 7,
-	-6, 72, 78, 78, 78, 27, -11, 32, 15, 112,
+	-6, 72, 78, 78, 78, 27, -9, 32, 15, 112,
 	-10, 67, 33, -44, -121, 68, 52, -95, 116, -122,
 	55, -101, -102, -103, -4, -3, -45, 6, 7, -43,
 	-40, -42, -41, -4, -45, 6, -96, -97, -98, -99,
@@ -633,7 +633,7 @@ var yyChk = [...]int16{
 	-5, -114, -113, -5, 27, -124, -85, -83, -82, -24,
 	103, -20, -24, 93, 93, -48, 27, -124, -85, -20,
 	-24, 93, 93, 83, -20, -20, -88, -39, -15, 8,
-	27, -28, -15, -28, 32, -45, 31, 25, 8, -1,
+	27, -27, -15, -28, 32, -45, 31, 25, 8, -1,
 	-123, 45, 30, -60, 60, -130, 44, 94, -131, 46,
 	53, -60, -54, 16, 99, 103, 28, -93, -94, -5,
 	27, 30, -110, -123, -20, 27, 30, 30, 32, 27,
@@ -679,7 +679,7 @@ var yyDef = [...]int16{
 	107, 0, 90, 0, 129, 135, 0, 136, 148, 150,
 	0, 182, 183, 0, 0, 266, 154, 135, 0, 157,
 	158, 0, 0, 0, 173, 174, 0, 176, 177, 5,
-	185, 0, 192, 188, 0, 54, 0, 0, 95, 112,
+	185, 188, 192, 0, 0, 54, 0, 0, 95, 112,
 	0, 0, 0, 234, 0, 0, 245, 246, 0, 247,
 	248, 242, 0, 0, 0, 0, 259, 0, 123, 0,
 	161, 0, 135, 133, 79, 98, 0, 0, 0, 89,
@@ -1105,7 +1105,7 @@ yydefault:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line asn1.y:366
 		{
-			yyVAL.DefinitiveObjIdComponentList = append(append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent), yyDollar[2].DefinitiveObjIdComponentList...)
+			yyVAL.DefinitiveObjIdComponentList = append(yyDollar[1].DefinitiveObjIdComponentList, yyDollar[2].DefinitiveObjIdComponent)
 		}
 	case 12:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -1864,7 +1864,7 @@ yydefault:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line asn1.y:829
 		{
-			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{yyDollar[1].ObjectIdElement}, yyDollar[2].ObjectIdentifierValue...)
+			yyVAL.ObjectIdentifierValue = append(yyDollar[1].ObjectIdentifierValue, yyDollar[2].ObjectIdElement)
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From 2ad39b106689829e299ba3584516590a6043e09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 12/32] fix: parse long enumerations in linear time and memory

---
 asn1.y |   2 +-
 y.go   | 278 ++++++++++++++++++++++++++++-----------------------------
 2 files changed, 139 insertions(+), 141 deletions(-)

diff --git a/asn1.y b/asn1.y
index bbdb827..691f059 100644
--- a/asn1.y
+++ b/asn1.y
@@ -621,7 +621,7 @@ AdditionalEnumeration : Enumeration
 ;
 
 Enumeration : EnumerationItem  { $$ = []EnumerationItem{$1} }
-            | EnumerationItem COMMA Enumeration  { $$ = append([]EnumerationItem{$1}, $3...) }
+            | Enumeration COMMA EnumerationItem  { $$ = append($1, $3) }
 ;
 
 EnumerationItem : NamedNumber  { $$ = $1 }
diff --git a/y.go b/y.go
index 877d865..5516140 100644
--- a/y.go
+++ b/y.go
@@ -380,87 +380,70 @@ var yyExca = [...]int16{
 
 const yyPrivate = 57344
 
-const yyLast = 926
+const yyLast = 907
 
 var yyAct = [...]int16{
-	224, 238, 237, 376, 301, 227, 136, 324, 17, 212,
-	196, 270, 292, 17, 257, 262, 340, 221, 288, 229,
-	183, 201, 273, 199, 164, 168, 189, 203, 166, 162,
-	236, 153, 5, 239, 38, 305, 165, 3, 160, 29,
-	142, 411, 284, 19, 19, 187, 285, 11, 9, 307,
-	252, 19, 187, 306, 149, 251, 209, 244, 19, 243,
-	137, 19, 64, 128, 46, 341, 54, 46, 416, 420,
-	128, 223, 45, 188, 127, 45, 144, 276, 54, 19,
-	188, 159, 137, 253, 24, 214, 23, 130, 46, 223,
-	148, 412, 10, 46, 22, 129, 45, 21, 343, 246,
-	161, 45, 35, 19, 187, 343, 191, 410, 146, 151,
-	31, 157, 148, 191, 143, 19, 132, 182, 138, 274,
-	42, 150, 128, 181, 182, 223, 36, 277, 50, 171,
-	181, 271, 188, 179, 123, 234, 184, 60, 184, 240,
-	67, 230, 233, 145, 163, 175, 190, 63, 62, 47,
-	48, 137, 134, 190, 240, 245, 372, 240, 147, 152,
-	427, 232, 235, 171, 171, 191, 325, 247, 61, 174,
-	279, 319, 401, 222, 258, 240, 182, 280, 65, 242,
-	248, 400, 181, 388, 250, 133, 387, 261, 369, 338,
-	154, 137, 126, 263, 326, 327, 124, 131, 40, 135,
-	32, 105, 265, 352, 41, 190, 267, 184, 4, 48,
-	332, 240, 266, 428, 298, 269, 137, 282, 264, 289,
-	27, 173, 350, 299, 425, 351, 300, 281, 425, 415,
-	406, 241, 421, 403, 356, 293, 249, 44, 333, 53,
-	44, 254, 255, 396, 395, 374, 4, 170, 172, 302,
-	304, 53, 312, 297, 318, 296, 291, 272, 64, 286,
-	44, 44, 19, 18, 171, 394, 44, 320, 4, 170,
-	172, 368, 362, 313, 303, 184, 184, 309, 311, 184,
-	322, 295, 25, 15, 184, 315, 317, 330, 261, 260,
-	321, 345, 329, 342, 290, 47, 48, 355, 230, 336,
-	337, 233, 335, 358, 349, 218, 365, 184, 141, 353,
-	294, 30, 140, 139, 360, 128, 366, 7, 370, 359,
-	361, 19, 364, 19, 19, 354, 363, 357, 334, 308,
-	310, 363, 167, 377, 223, 283, 66, 314, 316, 28,
-	14, 13, 184, 19, 18, 14, 4, 48, 259, 424,
-	379, 342, 289, 373, 26, 371, 323, 331, 375, 4,
-	48, 172, 4, 170, 172, 268, 383, 381, 382, 386,
-	380, 47, 48, 184, 18, 184, 55, 48, 390, 19,
-	48, 4, 391, 328, 409, 393, 399, 398, 402, 397,
-	385, 378, 348, 367, 404, 347, 379, 379, 346, 407,
-	408, 344, 278, 275, 230, 55, 19, 187, 418, 414,
-	423, 419, 405, 39, 34, 1, 228, 413, 422, 226,
-	225, 231, 417, 389, 384, 128, 426, 365, 220, 219,
-	74, 206, 125, 122, 43, 188, 59, 58, 57, 56,
-	37, 287, 71, 79, 88, 158, 256, 104, 96, 86,
-	84, 83, 82, 101, 198, 95, 112, 102, 81, 69,
-	87, 148, 93, 92, 217, 73, 216, 339, 191, 213,
-	90, 211, 97, 116, 108, 210, 113, 205, 91, 182,
-	98, 115, 208, 207, 204, 181, 121, 106, 99, 202,
-	94, 109, 55, 19, 187, 110, 200, 197, 392, 111,
-	195, 194, 193, 192, 89, 117, 70, 33, 190, 107,
-	49, 51, 128, 118, 52, 186, 114, 119, 206, 185,
-	122, 120, 188, 177, 100, 215, 103, 180, 80, 178,
-	176, 169, 85, 75, 77, 96, 68, 72, 76, 78,
-	101, 6, 95, 112, 102, 16, 12, 2, 148, 8,
-	20, 217, 0, 0, 0, 191, 0, 90, 0, 97,
-	116, 108, 0, 113, 0, 91, 182, 98, 115, 0,
-	0, 0, 181, 121, 106, 99, 0, 94, 109, 47,
-	48, 332, 110, 0, 0, 0, 111, 0, 0, 0,
-	0, 0, 117, 0, 0, 190, 107, 0, 0, 0,
-	118, 0, 0, 114, 119, 0, 0, 122, 120, 333,
-	0, 100, 215, 103, 0, 0, 0, 0, 0, 0,
-	0, 0, 96, 0, 0, 0, 0, 101, 0, 95,
-	112, 102, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 90, 0, 97, 116, 108, 0,
-	113, 0, 91, 55, 98, 115, 0, 0, 0, 0,
-	121, 106, 99, 0, 94, 109, 0, 0, 0, 110,
-	0, 0, 0, 111, 0, 0, 0, 0, 0, 117,
-	0, 122, 0, 107, 0, 0, 0, 118, 0, 0,
-	114, 119, 0, 0, 0, 120, 96, 0, 100, 0,
-	103, 101, 0, 95, 112, 102, 0, 0, 0, 0,
-	0, 156, 0, 0, 0, 0, 0, 0, 90, 0,
-	97, 116, 108, 0, 113, 0, 91, 0, 98, 115,
-	55, 19, 0, 0, 121, 106, 99, 0, 94, 109,
-	0, 0, 0, 110, 0, 0, 0, 111, 0, 0,
-	0, 0, 0, 117, 0, 155, 0, 107, 122, 0,
-	0, 118, 0, 0, 114, 119, 0, 0, 0, 120,
-	0, 0, 100, 96, 103, 0, 0, 0, 101, 0,
+	224, 238, 237, 227, 376, 136, 196, 212, 17, 301,
+	270, 324, 292, 17, 257, 340, 262, 229, 288, 228,
+	221, 239, 183, 199, 201, 214, 273, 189, 164, 203,
+	168, 166, 162, 236, 153, 165, 3, 5, 305, 160,
+	38, 29, 11, 9, 19, 187, 142, 19, 187, 19,
+	187, 19, 411, 209, 19, 284, 306, 19, 307, 285,
+	276, 416, 420, 128, 223, 341, 128, 46, 128, 54,
+	46, 45, 253, 188, 45, 127, 188, 149, 188, 252,
+	67, 54, 159, 137, 251, 244, 243, 10, 24, 23,
+	130, 46, 134, 22, 129, 45, 46, 21, 343, 35,
+	45, 161, 412, 343, 19, 19, 191, 146, 151, 191,
+	277, 191, 64, 148, 223, 223, 31, 182, 410, 157,
+	182, 144, 182, 181, 246, 234, 181, 137, 181, 171,
+	154, 143, 138, 42, 60, 274, 184, 36, 184, 50,
+	179, 230, 233, 175, 150, 163, 190, 240, 271, 190,
+	240, 190, 123, 240, 245, 147, 152, 148, 427, 232,
+	63, 222, 279, 171, 171, 235, 132, 242, 174, 280,
+	247, 241, 250, 105, 62, 258, 249, 47, 48, 61,
+	325, 254, 255, 248, 4, 48, 332, 137, 145, 65,
+	401, 261, 372, 124, 131, 319, 263, 400, 133, 126,
+	240, 240, 388, 387, 135, 265, 369, 184, 326, 44,
+	338, 53, 44, 282, 333, 41, 269, 327, 32, 289,
+	137, 137, 352, 53, 267, 298, 40, 264, 27, 428,
+	266, 281, 44, 44, 293, 173, 350, 425, 44, 351,
+	425, 299, 297, 415, 300, 406, 403, 356, 396, 395,
+	294, 374, 302, 304, 318, 296, 291, 312, 272, 4,
+	170, 172, 64, 286, 171, 309, 311, 19, 18, 308,
+	310, 421, 15, 315, 317, 184, 184, 314, 316, 184,
+	320, 322, 394, 368, 184, 47, 48, 25, 330, 362,
+	345, 342, 261, 313, 329, 321, 303, 331, 230, 336,
+	30, 233, 355, 337, 335, 128, 365, 184, 4, 170,
+	172, 295, 353, 354, 366, 360, 290, 358, 361, 349,
+	218, 359, 141, 140, 139, 364, 7, 19, 370, 260,
+	19, 19, 363, 367, 357, 334, 66, 363, 283, 424,
+	377, 223, 184, 28, 373, 167, 13, 19, 18, 342,
+	379, 371, 289, 14, 4, 48, 259, 375, 14, 26,
+	4, 48, 172, 4, 170, 172, 383, 381, 386, 382,
+	380, 323, 268, 184, 18, 184, 47, 48, 385, 19,
+	391, 393, 390, 55, 48, 399, 55, 19, 187, 48,
+	4, 328, 409, 402, 398, 397, 379, 379, 378, 404,
+	407, 408, 348, 347, 230, 346, 128, 414, 418, 344,
+	278, 275, 206, 423, 122, 419, 188, 405, 422, 39,
+	34, 1, 413, 226, 225, 231, 426, 365, 417, 96,
+	389, 384, 220, 219, 101, 198, 95, 112, 102, 74,
+	125, 43, 148, 59, 58, 217, 57, 56, 37, 191,
+	287, 90, 71, 97, 116, 108, 79, 113, 88, 91,
+	182, 98, 115, 158, 256, 104, 181, 121, 106, 99,
+	86, 94, 109, 55, 19, 187, 110, 84, 83, 82,
+	111, 81, 69, 87, 93, 92, 117, 73, 216, 190,
+	107, 339, 213, 128, 118, 211, 210, 114, 119, 206,
+	205, 122, 120, 188, 208, 100, 215, 103, 207, 204,
+	202, 200, 197, 392, 195, 194, 96, 193, 192, 89,
+	70, 101, 33, 95, 112, 102, 49, 51, 52, 148,
+	186, 185, 217, 177, 180, 80, 191, 178, 90, 176,
+	97, 116, 108, 169, 113, 85, 91, 182, 98, 115,
+	75, 77, 68, 181, 121, 106, 99, 72, 94, 109,
+	47, 48, 332, 110, 76, 78, 6, 111, 16, 12,
+	2, 8, 20, 117, 0, 0, 190, 107, 0, 0,
+	0, 118, 0, 0, 114, 119, 0, 0, 122, 120,
+	333, 0, 100, 215, 103, 0, 0, 0, 0, 0,
+	0, 0, 0, 96, 0, 0, 0, 0, 101, 0,
 	95, 112, 102, 0, 0, 0, 0, 0, 0, 0,
 	0, 0, 0, 0, 0, 90, 0, 97, 116, 108,
 	0, 113, 0, 91, 55, 98, 115, 0, 0, 0,
@@ -469,77 +452,92 @@ var yyAct = [...]int16{
 	117, 0, 122, 0, 107, 0, 0, 0, 118, 0,
 	0, 114, 119, 0, 0, 0, 120, 96, 0, 100,
 	0, 103, 101, 0, 95, 112, 102, 0, 0, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 90,
+	0, 0, 156, 0, 0, 0, 0, 0, 0, 90,
 	0, 97, 116, 108, 0, 113, 0, 91, 0, 98,
-	115, 0, 0, 0, 0, 121, 106, 99, 0, 94,
+	115, 55, 19, 0, 0, 121, 106, 99, 0, 94,
 	109, 0, 0, 0, 110, 0, 0, 0, 111, 0,
-	0, 0, 0, 0, 117, 0, 0, 0, 107, 0,
+	0, 0, 0, 0, 117, 0, 155, 0, 107, 122,
 	0, 0, 118, 0, 0, 114, 119, 0, 0, 0,
-	120, 0, 0, 100, 0, 103,
+	120, 0, 0, 100, 96, 103, 0, 0, 0, 101,
+	0, 95, 112, 102, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 90, 0, 97, 116,
+	108, 0, 113, 0, 91, 55, 98, 115, 0, 0,
+	0, 0, 121, 106, 99, 0, 94, 109, 0, 0,
+	0, 110, 0, 0, 0, 111, 0, 0, 0, 0,
+	0, 117, 0, 122, 0, 107, 0, 0, 0, 118,
+	0, 0, 114, 119, 0, 0, 0, 120, 96, 0,
+	100, 0, 103, 101, 0, 95, 112, 102, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	90, 0, 97, 116, 108, 0, 113, 0, 91, 0,
+	98, 115, 0, 0, 0, 0, 121, 106, 99, 0,
+	94, 109, 0, 0, 0, 110, 0, 0, 0, 111,
+	0, 0, 0, 0, 0, 117, 0, 0, 0, 107,
+	0, 0, 0, 118, 0, 0, 114, 119, 0, 0,
+	0, 120, 0, 0, 100, 0, 103,
 }
 
 var yyPact = [...]int16{
-	375, -1000, -87, 291, -1000, -16, -1000, 336, 25, 16,
-	8, 6, 255, -1000, -1000, -1000, -1000, 188, -1000, -1000,
-	324, -73, -1000, -1000, -1000, -1000, -1000, 366, 43, -1000,
-	167, 34, -1000, 74, -82, 143, -1000, 370, 365, 106,
-	105, 228, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 370,
-	-1000, -1000, -1000, 321, 798, -1000, 92, -1000, 289, 365,
-	-1000, 32, -1000, -1000, 365, -1000, 798, 184, -1000, -1000,
+	384, -1000, -82, 300, -1000, -21, -1000, 340, 25, 15,
+	11, 10, 260, -1000, -1000, -1000, -1000, 196, -1000, -1000,
+	328, -71, -1000, -1000, -1000, -1000, -1000, 366, 49, -1000,
+	185, 31, -1000, 85, -76, 171, -1000, 377, 370, 132,
+	118, 232, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 377,
+	-1000, -1000, -1000, 321, 779, -1000, 110, -1000, 279, 370,
+	-1000, 82, -1000, -1000, 370, -1000, 779, 189, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	52, -1000, -1000, -1000, 287, 286, 282, -1000, -64, 48,
-	-1000, 50, 28, -97, 647, -1000, -1000, -1000, -1000, -1000,
+	66, -1000, -1000, -1000, 298, 297, 296, -1000, -58, 65,
+	-1000, 95, 51, -94, 628, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, 45, -21, -1000, -1000, -1000, -1000, -1000, 356, 190,
-	-1000, -1000, 375, -1000, 159, 96, -1000, 399, 279, 317,
-	372, 372, -1000, -1000, 108, 724, -34, -36, 159, 72,
-	724, -38, -43, 0, 159, 798, 798, -1000, 340, -1000,
-	-1000, -1000, 262, 356, -1000, 190, -1000, -1000, -1000, -1000,
-	-1000, 186, -1000, 373, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 181, 357, -1000,
-	-1000, -1000, 86, -1000, -1000, 227, -1000, -1000, 59, -1000,
-	33, -1000, 124, -1000, 59, -1000, 399, -1000, -1000, -1000,
-	-1000, -1000, -1000, 319, 159, -57, 231, -1000, 372, 267,
-	226, -1000, -1000, 86, 798, 254, 225, -1000, 223, -1000,
-	182, 196, -1000, 182, -1000, 219, 247, 220, -1000, -62,
-	-44, 159, -1000, 724, 724, -1000, -1000, 219, 246, 159,
-	-1000, 724, 724, 372, 159, 159, 136, -1000, -1000, -1000,
-	-1000, -1000, -1000, 240, 353, -1000, 348, 158, 181, -1000,
-	162, 573, 311, -1000, 486, 486, -1000, -1000, 486, -1000,
-	-1000, -1000, 156, 37, 159, 278, -1000, 195, -1000, 171,
-	-1000, 317, 204, -1000, 159, -1000, 310, 372, 202, -1000,
-	372, 245, 309, -1000, 54, -1000, 96, 798, 159, -1000,
-	159, -1000, 244, -1000, 159, -1000, 159, -1000, -1000, -1000,
-	-1000, 155, -1000, 293, -1000, -1000, 347, -1000, -1000, -1000,
-	-1000, 119, -1000, 345, 215, -1000, -1000, -1000, -1000, -1000,
-	-1000, 44, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 316,
-	-1000, 372, 340, -1000, -1000, -1000, 314, 86, -1000, 153,
-	150, -1000, -1000, -1000, -1000, -1000, -1000, 159, -1000, -1000,
-	158, -1000, 96, -1000, 399, -1000, 238, 214, 213, 159,
-	-1000, 148, 139, 204, -1000, -1000, 203, -1000, -1000, 200,
-	-1000, -1000, -1000, -1000, -1000, 372, 372, -1000, -6, -1000,
-	-1000, -1000, -1000, 372, -1000, 199, 51, 205, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 36, -1000, -1000, -1000, -1000,
-	341, -1000, 198, 36, 123, 36, 194, -1000, -1000,
+	-1000, 53, -20, -1000, -1000, -1000, -1000, -1000, 357, 204,
+	-1000, -1000, 384, -1000, 188, 40, -1000, 380, 294, 324,
+	372, 372, -1000, -1000, 98, 705, -7, -8, 188, 97,
+	705, -9, -14, -11, 188, 779, 779, -1000, 348, -1000,
+	-1000, -1000, 302, 357, -1000, 204, -1000, -1000, -1000, -1000,
+	-1000, 195, -1000, 382, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 199, 364, -1000,
+	-1000, -1000, 103, -1000, -1000, 228, -1000, -1000, 75, -1000,
+	16, -1000, 116, -1000, 75, -1000, 380, -1000, -1000, -1000,
+	-1000, -1000, -1000, 322, 188, -44, 235, -1000, 372, 289,
+	226, -1000, -1000, 103, 779, 284, 225, 212, -1000, -1000,
+	193, 214, -1000, 193, -1000, 222, 269, 223, -1000, -59,
+	-35, 188, -1000, 705, 705, -1000, -1000, 222, 266, 188,
+	-1000, 705, 705, 372, 188, 188, 160, -1000, -1000, -1000,
+	-1000, -1000, -1000, 253, 354, -1000, 363, 172, 199, -1000,
+	184, 554, 318, -1000, 467, 467, -1000, -1000, 467, -1000,
+	-1000, -1000, 177, 37, 188, 293, -1000, 209, -1000, 190,
+	-1000, 324, 217, -1000, 188, -1000, 317, 372, 178, -1000,
+	372, 262, 315, -1000, 47, -1000, 40, 779, 188, -1000,
+	188, -1000, 256, -1000, 188, -1000, 188, -1000, -1000, -1000,
+	-1000, 173, -1000, 303, -1000, -1000, 343, -1000, -1000, -1000,
+	-1000, 155, -1000, 336, 221, -1000, -1000, -1000, -1000, -1000,
+	-1000, 42, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 323,
+	-1000, 372, 348, -1000, -1000, -1000, 320, 103, -1000, 170,
+	169, -1000, -1000, -1000, -1000, -1000, -1000, 188, -1000, -1000,
+	172, -1000, 40, -1000, 380, -1000, 255, 219, 218, 188,
+	-1000, 164, 157, 217, -1000, -1000, 216, -1000, -1000, 215,
+	-1000, -1000, -1000, -1000, -1000, 372, 372, -1000, 5, -1000,
+	-1000, -1000, -1000, 372, -1000, 213, 44, 244, -1000, -1000,
+	-1000, -1000, -1000, -1000, 212, 50, -1000, -1000, -1000, -1000,
+	331, -1000, 207, 50, 121, 50, 210, -1000, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 26, 7, 36, 201, 0, 550, 549, 547, 341,
-	283, 546, 545, 541, 332, 15, 539, 538, 537, 536,
-	85, 534, 533, 532, 33, 25, 531, 24, 29, 133,
-	530, 9, 529, 528, 527, 523, 519, 515, 20, 14,
-	128, 514, 511, 510, 507, 28, 506, 504, 6, 503,
-	502, 501, 500, 498, 10, 497, 496, 23, 489, 21,
-	22, 27, 484, 483, 482, 477, 475, 471, 56, 469,
-	467, 466, 16, 465, 463, 462, 460, 459, 458, 452,
-	451, 450, 1, 2, 450, 30, 449, 447, 446, 445,
-	444, 443, 442, 441, 18, 440, 439, 438, 437, 436,
-	137, 168, 120, 434, 432, 430, 429, 428, 428, 424,
-	12, 423, 422, 19, 421, 420, 5, 419, 417, 416,
-	415, 414, 413, 11, 17, 4, 412, 411, 410, 410,
-	403, 402, 401, 398, 395, 392, 3, 391, 389, 387,
-	384, 383,
+	0, 27, 11, 35, 173, 0, 572, 571, 570, 346,
+	272, 569, 568, 566, 345, 16, 565, 564, 557, 552,
+	25, 551, 550, 545, 21, 30, 543, 28, 32, 140,
+	539, 7, 537, 535, 534, 533, 531, 530, 22, 14,
+	139, 528, 527, 526, 522, 31, 520, 519, 5, 518,
+	517, 515, 514, 513, 6, 512, 511, 23, 510, 24,
+	26, 29, 509, 508, 504, 500, 496, 495, 53, 492,
+	491, 488, 15, 487, 485, 484, 483, 482, 481, 479,
+	478, 477, 1, 2, 477, 33, 470, 465, 464, 463,
+	458, 456, 452, 450, 18, 448, 447, 446, 444, 443,
+	134, 179, 133, 441, 440, 439, 433, 432, 432, 431,
+	12, 430, 428, 17, 425, 424, 3, 423, 422, 19,
+	421, 420, 419, 10, 20, 9, 417, 415, 413, 413,
+	411, 410, 409, 405, 403, 402, 4, 398, 395, 394,
+	392, 391,
 }
 
 var yyR1 = [...]uint8{
@@ -642,7 +640,7 @@ var yyChk = [...]int16{
 	27, -25, -15, 8, -2, 8, 36, 33, -141, -38,
 	-15, -20, 8, 36, 17, -61, -57, -59, 33, -70,
 	-72, 28, -31, 61, -132, -48, -133, -134, -135, 26,
-	27, 30, 32, -124, -24, -125, 30, 17, -116, -38,
+	27, 30, 32, -124, -24, -125, 30, 17, -119, -38,
 	-15, -113, 27, 17, -124, -82, -31, -20, 27, 33,
 	25, 8, 37, 8, 30, -72, -136, 17, -137, -5,
 	-94, -39, -15, -110, -109, -24, -123, 33, 33, -111,
@@ -1448,7 +1446,7 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:624
 		{
-			yyVAL.Enumeration = append([]EnumerationItem{yyDollar[1].EnumerationItem}, yyDollar[3].Enumeration...)
+			yyVAL.Enumeration = append(yyDollar[1].Enumeration, yyDollar[3].EnumerationItem)
 		}
 	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From 3efd23ba21841b0ca1df5b07e40bd1361ef7f982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 13/32] fix: generate code for UTCTime, which is a built-in
 type

---
 ast.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 075e99d..5ac5cb1 100644
--- a/ast.go
+++ b/ast.go
@@ -729,10 +729,12 @@ const (
 var (
 	// USEFUL_TYPES are defined in X.680, section 41.
 	// These are built-in types that behave like type assignments that are always in scope.
-	// TODO: clarify why UTCTimeName is missing here.
 	USEFUL_TYPES map[string]Type = map[string]Type{
 		GeneralizedTimeName: TaggedType{ // [UNIVERSAL 24] IMPLICIT VisibleString
 			Tag:  Tag{Class: CLASS_UNIVERSAL, ClassNumber: Number(24)},
 			Type: RestrictedStringType{VisibleString}},
+		UTCTimeName: TaggedType{ // [UNIVERSAL 23] IMPLICIT VisibleString
+			Tag:  Tag{Class: CLASS_UNIVERSAL, ClassNumber: Number(23)},
+			Type: RestrictedStringType{VisibleString}},
 	}
 )
-- 
2.43.0


From ac2128967cf45cffad0a6e24502d84e9602f361c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 14/32] fix: import encoding/asn1 for RawValue

---
 codegen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.go b/codegen.go
index 005441d..e25b6a2 100644
--- a/codegen.go
+++ b/codegen.go
@@ -336,6 +336,7 @@ func numberToExpr(val Number, repr IntegerRepr) goast.Expr {
 
 func (ctx *moduleContext) generateChoiceType(t ChoiceType, isSet *bool) goast.Expr {
 	if ctx.hasTaggedAlternatives(t) {
+		ctx.requireModule("encoding/asn1")
 		return goast.NewIdent("asn1.RawValue")
 	}
 	if len(t.AlternativeTypeList) == 1 {
-- 
2.43.0


From 90b4fa956c022a6ca8da74fe85205def77098653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 15/32] fix: do not specify default value for big.Int fields

---
 codegen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index e25b6a2..e6f3ff8 100644
--- a/codegen.go
+++ b/codegen.go
@@ -413,7 +413,8 @@ func (ctx *moduleContext) asn1TagFromType(nt NamedComponentType) *goast.BasicLit
 		components = append(components, "optional")
 	}
 	if nt.Default != nil {
-		if defaultNumber, ok := (*nt.Default).(Number); ok {
+		// encoding/asn1 has defaults only for types of integer kind, and can not omit *big.Int having default
+		if defaultNumber, ok := (*nt.Default).(Number); ok && ctx.params.IntegerRepr != IntegerReprBigInt {
 			components = append(components, fmt.Sprintf("default:%v", defaultNumber.IntValue()))
 		}
 		if !nt.IsOptional { // ensure it's marked as optional
-- 
2.43.0


From fd23591f4d59c1da6abc477e18ba1852155015b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 16/32] fix: SEQUENCE OF SET is not a set

---
 codegen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index e6f3ff8..8a1ea75 100644
--- a/codegen.go
+++ b/codegen.go
@@ -247,7 +247,8 @@ func (ctx *moduleContext) generateTypeBody(typeDescr Type, isSet *bool) goast.Ex
 		*isSet = true
 		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)
 	case SequenceOfType:
-		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
+		var elementIsSet bool // does not make a set of the type itself
+		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, &elementIsSet)}
 	case SetOfType:
 		*isSet = true
 		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
-- 
2.43.0


From 91cb9f979dfe7247a05fdf276bf0b3444f5aea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 17/32] fix: do not recurse infinitely on cyclic type
 references

---
 codegen.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/codegen.go b/codegen.go
index 8a1ea75..7c8cafd 100644
--- a/codegen.go
+++ b/codegen.go
@@ -547,14 +547,20 @@ func (ctx *moduleContext) removeWrapperTypes(t Type) Type {
 }
 
 // unwrapToLeafType walks over transitive type references, tags and constraints and yields "root" type reference
+// type is not resolved if references form a cycle
 func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignment {
-	if assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name()); assignment != nil {
-		t := assignment.Type
-		if tt, ok := ctx.removeWrapperTypes(t).(TypeReference); ok {
-			return ctx.unwrapToLeafType(tt)
-		} else {
+	visited := map[TypeReference]bool{}
+	for !visited[reference] {
+		visited[reference] = true
+		assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name())
+		if assignment == nil {
+			break
+		}
+		next, ok := ctx.removeWrapperTypes(assignment.Type).(TypeReference)
+		if !ok {
 			return *assignment
 		}
+		reference = next
 	}
 	return TypeAssignment{reference, nil}
 }
-- 
2.43.0


From 2752ec99014ac43512eedcf97f2a8fd0d4b5e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 18/32] fix: specify string and set parameters for fields of
 referenced types

---
 codegen.go | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/codegen.go b/codegen.go
index 7c8cafd..b500e80 100644
--- a/codegen.go
+++ b/codegen.go
@@ -458,7 +458,8 @@ unwrap:
 		}
 	}
 	// add type-specific tags
-	switch tt := t.(type) {
+	encodedType, isReference := ctx.encodedType(t)
+	switch tt := encodedType.(type) {
 	case RestrictedStringType:
 		switch tt.LexType {
 		case IA5String:
@@ -473,9 +474,11 @@ unwrap:
 	case SetType:
 		components = append(components, "set")
 	case SetOfType:
-		components = append(components, "set")
+		if !isReference { // otherwise, it is denoted by the name of generated type
+			components = append(components, "set")
+		}
 	case TypeReference:
-		switch ctx.unwrapToLeafType(tt).TypeReference.Name() {
+		switch tt.Name() {
 		case GeneralizedTimeName:
 			components = append(components, "generalized")
 		case UTCTimeName:
@@ -493,6 +496,34 @@ unwrap:
 	}
 }
 
+// encodedType yields type that determines encoding of type t of the component.
+// It walks over references and over CHOICE types that are represented by their only alternative.
+// It yields a reference only for useful and unresolved types.
+// isReference is true if any reference was followed.
+func (ctx *moduleContext) encodedType(t Type) (leafType Type, isReference bool) {
+	visited := map[TypeReference]bool{}
+	for {
+		t = ctx.removeWrapperTypes(t)
+		switch tt := t.(type) {
+		case TypeReference:
+			leaf := ctx.unwrapToLeafType(tt)
+			isReference = true
+			if leaf.Type == nil || visited[leaf.TypeReference] {
+				return leaf.TypeReference, isReference
+			}
+			visited[leaf.TypeReference] = true
+			t = leaf.Type
+		case ChoiceType:
+			if len(tt.AlternativeTypeList) != 1 || ctx.hasTaggedAlternatives(tt) {
+				return t, isReference
+			}
+			t = tt.AlternativeTypeList[0].Type
+		default:
+			return t, isReference
+		}
+	}
+}
+
 func (ctx *moduleContext) generateSpecialCase(resolved TypeAssignment) goast.Expr {
 	if resolved.TypeReference.Name() == GeneralizedTimeName || resolved.TypeReference.Name() == UTCTimeName {
 		// time types in encoding/asn1go don't support wrapping of time.Time
-- 
2.43.0


From b42ca4be54e90150ba9b9dc3cbd7b400ed097552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 19/32] fix: report recursive types that are not possible in go

---
 codegen.go | 53 +++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/codegen.go b/codegen.go
index b500e80..8c7909c 100644
--- a/codegen.go
+++ b/codegen.go
@@ -114,6 +114,7 @@ func (gen declCodeGen) Generate(module ModuleDefinition, writer io.Writer) error
 		Name:  moduleName,
 		Decls: ctx.generateDeclarations(module),
 	}
+	ctx.checkRecursion(ast.Decls)
 	if len(ctx.errors) != 0 {
 		msg := "errors generating Go AST from module: \n"
 		for _, err := range ctx.errors {
@@ -131,6 +132,58 @@ func (gen declCodeGen) Generate(module ModuleDefinition, writer io.Writer) error
 	return goprint.Fprint(writer, gotoken.NewFileSet(), ast)
 }
 
+// checkRecursion reports types that contain themselves in a way that is not possible in go.
+func (ctx *moduleContext) checkRecursion(decls []goast.Decl) {
+	specs := map[string]*goast.TypeSpec{}
+	for _, decl := range decls {
+		if genDecl, ok := decl.(*goast.GenDecl); ok && genDecl.Tok == gotoken.TYPE {
+			for _, spec := range genDecl.Specs {
+				typeSpec := spec.(*goast.TypeSpec)
+				specs[typeSpec.Name.Name] = typeSpec
+			}
+		}
+	}
+	// reaches tells if a type named to is found in the expr.
+	// If onlyAliases is true, aliases are followed and slices are looked into.
+	// Otherwise, any types are followed and slices are not looked into.
+	var reaches func(expr goast.Expr, to string, onlyAliases bool, visited map[string]bool) bool
+	reaches = func(expr goast.Expr, to string, onlyAliases bool, visited map[string]bool) bool {
+		switch e := expr.(type) {
+		case *goast.Ident:
+			if e.Name == to {
+				return true
+			}
+			spec, ok := specs[e.Name]
+			if !ok || visited[e.Name] || onlyAliases && spec.Assign == 0 {
+				return false
+			}
+			visited[e.Name] = true
+			return reaches(spec.Type, to, onlyAliases, visited)
+		case *goast.ArrayType:
+			return onlyAliases && reaches(e.Elt, to, onlyAliases, visited)
+		case *goast.StructType:
+			for _, field := range e.Fields.List {
+				if reaches(field.Type, to, onlyAliases, visited) {
+					return true
+				}
+			}
+		}
+		return false
+	}
+	for _, decl := range decls {
+		if genDecl, ok := decl.(*goast.GenDecl); ok && genDecl.Tok == gotoken.TYPE {
+			for _, spec := range genDecl.Specs {
+				typeSpec := spec.(*goast.TypeSpec)
+				name := typeSpec.Name.Name
+				if reaches(typeSpec.Type, name, false, map[string]bool{}) ||
+					typeSpec.Assign != 0 && reaches(typeSpec.Type, name, true, map[string]bool{}) {
+					ctx.appendError(fmt.Errorf("recursive type %v is not supported", name))
+				}
+			}
+		}
+	}
+}
+
 func goifyName(name string) string {
 	return strings.Title(strings.Replace(name, "-", "_", -1))
 }
-- 
2.43.0


From 3e26f0ef854868a1efa2f798825a2461b8f1e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 20/32] fix: generate infinite and integer values of REAL type

---
 codegen.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/codegen.go b/codegen.go
index 8c7909c..7151a05 100644
--- a/codegen.go
+++ b/codegen.go
@@ -7,6 +7,7 @@ import (
 	goprint "go/printer"
 	gotoken "go/token"
 	"io"
+	"math"
 	"strings"
 )
 
@@ -248,6 +249,10 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 	switch val := val.(type) {
 	case Number:
 		valExpr = numberToExpr(val, ctx.params.IntegerRepr)
+		encodedType, _ := ctx.encodedType(t)
+		if _, isReal := encodedType.(RealType); isReal {
+			valExpr = numberToExpr(val, IntegerReprInt64)
+		}
 	case Boolean:
 		if val {
 			valExpr = &goast.BasicLit{Value: "true"}
@@ -256,6 +261,14 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 		}
 	case Real:
 		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
+		if math.IsInf(float64(val), 0) {
+			ctx.requireModule("math")
+			sign := 1
+			if val < 0 {
+				sign = -1
+			}
+			valExpr = &goast.CallExpr{Fun: goast.NewIdent("math.Inf"), Args: []goast.Expr{&goast.BasicLit{Value: fmt.Sprint(sign)}}}
+		}
 	default:
 		// TODO: produce a warning?
 		return nil
-- 
2.43.0


From 760ae50d47fb49641f3185ca315c710f1872f6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 21/32] fix: report named numbers referring to values that are
 not generated

---
 codegen.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/codegen.go b/codegen.go
index 7151a05..d30417c 100644
--- a/codegen.go
+++ b/codegen.go
@@ -370,6 +370,9 @@ func (ctx *moduleContext) generateAssociatedValuesIfNeeded(reference TypeReferen
 				if v.ModuleName != "" {
 					ctx.appendError(fmt.Errorf("%v.%v: value references from other modules are not supported", v.ModuleName, v.ValueName))
 				}
+				if !ctx.isIntegerValue(v.ValueName) {
+					ctx.appendError(fmt.Errorf("can not resolve integer value reference %v", v.ValueName))
+				}
 				valueExpr = valueRefToIdent(v.ValueName)
 			}
 			typeName := goifyName(string(reference))
@@ -388,6 +391,18 @@ func (ctx *moduleContext) generateAssociatedValuesIfNeeded(reference TypeReferen
 	}
 }
 
+// isIntegerValue tells if variable of integer type is generated for the value reference.
+func (ctx *moduleContext) isIntegerValue(reference ValueReference) bool {
+	assignment := ctx.lookupContext.AssignmentList.GetValue(reference.Name())
+	if assignment == nil {
+		return false
+	}
+	encodedType, _ := ctx.encodedType(assignment.Type)
+	_, isInteger := encodedType.(IntegerType)
+	_, isNumber := assignment.Value.(Number)
+	return isInteger && isNumber
+}
+
 func valueRefToIdent(ref ValueReference) *goast.Ident {
 	return goast.NewIdent("Val" + goifyName(string(ref)))
 }
-- 
2.43.0


From 480f3887be74ee0f732568b7a3f4973101093201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 22/32] fix: do not use error message as a format

---
 cmd/asn1go/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/asn1go/main.go b/cmd/asn1go/main.go
index b86b2da..6d6fa3e 100644
--- a/cmd/asn1go/main.go
+++ b/cmd/asn1go/main.go
@@ -77,7 +77,7 @@ func main() {
 
 	module, err := asn1go.ParseStream(input)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%v", err.Error())
 	}
 	params := asn1go.GenParams{
 		Package:     flags.packageName,
@@ -86,7 +86,7 @@ func main() {
 	gen := asn1go.NewCodeGenerator(params)
 	err = gen.Generate(*module, output)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%v", err.Error())
 	}
 
 	output.Close()
-- 
2.43.0


From 6d208b15606cafc35ce198f178798a3f0c6f06f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:36 +0000
Subject: [PATCH 23/32] fix: refuse signed numbers in hex dumps

---
 internal/utils/dump.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/utils/dump.go b/internal/utils/dump.go
index aaaab7e..959f6ef 100644
--- a/internal/utils/dump.go
+++ b/internal/utils/dump.go
@@ -18,7 +18,7 @@ func ParseWiresharkHex(str string) []byte {
 			if len(byteRepr) == 0 {
 				continue
 			}
-			x, err := strconv.ParseInt(byteRepr, 16, 9)
+			x, err := strconv.ParseUint(byteRepr, 16, 8)
 			if err != nil {
 				panic(err)
 			}
-- 
2.43.0


From 91486cd022cb61a492449f23dc384fffbb27ab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 24/32] fix: do not take offset of an indented hex dump line
 for a byte

---
 internal/utils/dump.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/utils/dump.go b/internal/utils/dump.go
index 959f6ef..8a3eb47 100644
--- a/internal/utils/dump.go
+++ b/internal/utils/dump.go
@@ -13,11 +13,11 @@ const WS_TIME_FORMAT = "2006-01-02 15:04:05"
 func ParseWiresharkHex(str string) []byte {
 	buf := bytes.NewBuffer([]byte{})
 	for _, line := range strings.Split(str, "\n") {
-		elems := strings.Split(line, " ")
+		elems := strings.Fields(line)
+		if len(elems) == 0 {
+			continue
+		}
 		for _, byteRepr := range elems[1:] {
-			if len(byteRepr) == 0 {
-				continue
-			}
 			x, err := strconv.ParseUint(byteRepr, 16, 8)
 			if err != nil {
 				panic(err)
-- 
2.43.0


From 63277e84d08d4258da930c7c6ec944ba2827cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:15 +0000
Subject: [PATCH 25/32] fix: do not put addresses into error messages

---
 codegen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index d30417c..2abdb77 100644
--- a/codegen.go
+++ b/codegen.go
@@ -349,7 +349,7 @@ func (ctx *moduleContext) generateTypeBody(typeDescr Type, isSet *bool) goast.Ex
 		return ctx.generateChoiceType(t, isSet)
 	default:
 		// NullType
-		ctx.appendError(fmt.Errorf("ignoring unsupported type %#v", typeDescr))
+		ctx.appendError(fmt.Errorf("ignoring unsupported type %T", typeDescr))
 		return nil
 	}
 }
-- 
2.43.0


From a7a046d75809897de73a37981a32006a79860e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 26/32] fix: do not look beyond the end of the input at the end
 of the buffer

---
 lexer.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lexer.go b/lexer.go
index 79538da..ed0a740 100644
--- a/lexer.go
+++ b/lexer.go
@@ -283,9 +283,8 @@ func (lex *MyLexer) peekRunes(n int) string {
 	for n > 0 {
 		for l := 1; l <= utf8.UTFMax; l++ {
 			buf, err := lex.bufReader.Peek(pos + l)
-			slice := buf[pos : pos+l]
-			if pos+l <= len(buf) && utf8.FullRune(slice) {
-				r, size := utf8.DecodeRune(slice)
+			if pos+l <= len(buf) && utf8.FullRune(buf[pos:pos+l]) {
+				r, size := utf8.DecodeRune(buf[pos : pos+l])
 				acc.WriteRune(r)
 				pos += size
 				n -= 1
-- 
2.43.0


From b1a30597bf3ad38cdd2726813bbbf4949743ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 27/32] fix: look for tags of alternatives at every type on the
 way of references

---
 codegen.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/codegen.go b/codegen.go
index 2abdb77..55ec2e4 100644
--- a/codegen.go
+++ b/codegen.go
@@ -444,11 +444,11 @@ func (ctx *moduleContext) taggedChoiceTypeAlternative(name Identifier, t Type) b
 		if t.Name() == GeneralizedTimeName || t.Name() == UTCTimeName {
 			return false
 		}
-		realType := ctx.resolveTypeReference(t)
-		if realType == nil {
+		if ctx.resolveTypeReference(t) == nil {
 			return false
 		}
-		return ctx.taggedChoiceTypeAlternative(name, realType.Type)
+		// follow references one by one, because any of them can be tagged
+		return ctx.taggedChoiceTypeAlternative(name, ctx.lookupContext.AssignmentList.GetType(t.Name()).Type)
 	case ConstraintedType:
 		return ctx.taggedChoiceTypeAlternative(name, t.Type)
 	default:
-- 
2.43.0


From d1627cd93abb49200ec4830857e5a06dfcf1488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:04 +0000
Subject: [PATCH 28/32] fix: fail when output of ws2bin can not be written

---
 cmd/ws2bin/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/ws2bin/main.go b/cmd/ws2bin/main.go
index 87664b3..eaae87d 100644
--- a/cmd/ws2bin/main.go
+++ b/cmd/ws2bin/main.go
@@ -14,7 +14,10 @@ func main() {
 		os.Exit(1)
 	}
 	outputBytes := utils.ParseWiresharkHex(string(inputBytes))
-	os.Stdout.Write(outputBytes)
+	if _, err := os.Stdout.Write(outputBytes); err != nil {
+		fmt.Fprintf(os.Stderr, "Failed to write: %v", err.Error())
+		os.Exit(1)
+	}
 	os.Stdout.Sync()
 	os.Stdout.Close()
 }
-- 
2.43.0


From a000cdd1a8f74f38fe03392e15f86feea1d48b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 29/32] fix: tag ANY and CHOICE types explicitly when tags are
 implicit

---
 codegen.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index 55ec2e4..d7ef6e9 100644
--- a/codegen.go
+++ b/codegen.go
@@ -521,7 +521,11 @@ unwrap:
 			switch tagType {
 			case TAGS_EXPLICIT:
 				components = append(components, "explicit")
-			case TAGS_IMPLICIT: // nothing to do
+			case TAGS_IMPLICIT:
+				// Tags of types that have no tag by themselves are always explicit, see x.680, section 30.6.
+				if ctx.isInterfaceType(tt.Type) {
+					components = append(components, "explicit")
+				}
 			case TAGS_AUTOMATIC:
 				ctx.appendError(fmt.Errorf("type %v: AUTOMATIC tags are not supported", nt.NamedType.Identifier))
 			}
@@ -577,6 +581,22 @@ unwrap:
 	}
 }
 
+// isInterfaceType tells if t is ANY or CHOICE without tagged alternatives, possibly wrapped or referenced.
+func (ctx *moduleContext) isInterfaceType(t Type) bool {
+	t = ctx.removeWrapperTypes(t)
+	if reference, ok := t.(TypeReference); ok {
+		t = ctx.unwrapToLeafType(reference).Type
+	}
+	switch tt := t.(type) {
+	case AnyType:
+		return true
+	case ChoiceType:
+		return !ctx.hasTaggedAlternatives(tt)
+	default:
+		return false
+	}
+}
+
 // encodedType yields type that determines encoding of type t of the component.
 // It walks over references and over CHOICE types that are represented by their only alternative.
 // It yields a reference only for useful and unresolved types.
-- 
2.43.0


From 697cd8423e0a7cc7d9867bb77c7254190a70f886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 30/32] fix: accept real numbers with more digits than an
 integer can have

Range of a number is checked where it is used as an integer.
---
 asn1.y   | 18 +++++++++---------
 lexer.go | 21 +++++++++++++++++----
 y.go     | 36 +++++++++++++++++++++++++++---------
 3 files changed, 53 insertions(+), 22 deletions(-)

diff --git a/asn1.y b/asn1.y
index 691f059..12eae74 100644
--- a/asn1.y
+++ b/asn1.y
@@ -14,7 +14,7 @@ import (
 %union{
     name         string
     numberRepr   string
-
+    numberErr    error
     Number       Number
     Real         Real
     TagDefault int
@@ -347,7 +347,7 @@ modulereference: TYPEORMODULEREFERENCE;
 valuereference: VALUEIDENTIFIER  {  $$ = ValueReference($1)  }
 ;
 
-number : NUMBER
+number : NUMBER  { $$ = yylex.(*MyLexer).integer($1, $<numberErr>1) }
 ;
 
 identifier: VALUEIDENTIFIER;
@@ -371,7 +371,7 @@ DefinitiveObjIdComponent : NameForm  { $$ = DefinitiveObjIdComponent{Name: $1} }
                          | DefinitiveNameAndNumberForm  { $$ = $1 }
 ;
 
-DefinitiveNumberForm : NUMBER  { $$ = $1 }
+DefinitiveNumberForm : NUMBER  { $$ = yylex.(*MyLexer).integer($1, $<numberErr>1) }
 ;
 
 DefinitiveNameAndNumberForm : identifier OPEN_ROUND DefinitiveNumberForm CLOSE_ROUND
@@ -595,8 +595,8 @@ NamedNumber : identifier OPEN_ROUND SignedNumber CLOSE_ROUND  { $$ = NamedNumber
           | identifier OPEN_ROUND DefinedValue CLOSE_ROUND  { $$ = NamedNumber{Identifier($1), $3} }
 ;
 
-SignedNumber : NUMBER  { $$ = $1 }
-             | MINUS NUMBER  { $$ = $2.UnaryMinus() }
+SignedNumber : NUMBER  { $$ = yylex.(*MyLexer).integer($1, $<numberErr>1) }
+             | MINUS NUMBER  { $$ = yylex.(*MyLexer).integer($2, $<numberErr>2).UnaryMinus() }
 ;
 
 // 18.9
@@ -655,8 +655,8 @@ realnumber : NUMBER  { $$ = yylex.(*MyLexer).parseReal($<numberRepr>1, "", 0) }
            | NUMBER EXPONENT SignedExponent  { $$ = yylex.(*MyLexer).parseReal($<numberRepr>1, "", $3) }
 ;
 
-SignedExponent : NUMBER
-               | MINUS NUMBER  { $$ = Number(-int($2)) }
+SignedExponent : NUMBER  { $$ = yylex.(*MyLexer).integer($1, $<numberErr>1) }
+               | MINUS NUMBER  { $$ = Number(-int(yylex.(*MyLexer).integer($2, $<numberErr>2))) }
 ;
 
 // 21.1
@@ -726,7 +726,7 @@ ExtensionAdditionGroup : LEFT_VERSION_BRACKETS VersionNumber ComponentTypeList R
 ;
 
 VersionNumber : /*empty*/
-              | NUMBER COLON
+              | NUMBER COLON  { yylex.(*MyLexer).integer($1, $<numberErr>1) }
 ;
 
 ComponentTypeList : ComponentType  { $$ = append(make(ComponentTypeList, 0), $1) }
@@ -835,7 +835,7 @@ ObjIdComponents : NameForm  { $$ = ObjectIdElement{Name: $1} }
                 | DefinedValue  { cpy := $1; $$ = ObjectIdElement{Reference: &cpy} }
 ;
 
-NumberForm : NUMBER   { $$ = ObjectIdElement{ID: $1.IntValue()} }
+NumberForm : NUMBER   { $$ = ObjectIdElement{ID: yylex.(*MyLexer).integer($1, $<numberErr>1).IntValue()} }
            | DefinedValue  { cpy := $1; $$ = ObjectIdElement{Reference: &cpy} }
 ;
 
diff --git a/lexer.go b/lexer.go
index ed0a740..f5a4ce3 100644
--- a/lexer.go
+++ b/lexer.go
@@ -396,9 +396,9 @@ func (lex *MyLexer) consumeNumber(lval *yySymType) int {
 			}
 			repr := acc.String()
 			i, err := strconv.Atoi(repr)
-			if err != nil {
-				lex.Error(fmt.Sprintf("Failed to parse number: %v", err.Error()))
-				return -1
+			lval.numberErr = nil
+			if err != nil { // it still can be a part of a real number
+				lval.numberErr = lex.errorHere(fmt.Sprintf("Failed to parse number: %v", err.Error()))
 			}
 			lval.numberRepr = repr
 			lval.Number = Number(i)
@@ -418,7 +418,20 @@ func (lex *MyLexer) Error(e string) {
 	if lex.err != nil {
 		return
 	}
-	lex.err = fmt.Errorf("line %v: %v", lex.lineNo+1, e)
+	lex.err = lex.errorHere(e)
+}
+
+// errorHere is an error with the current line.
+func (lex *MyLexer) errorHere(e string) error {
+	return fmt.Errorf("line %v: %v", lex.lineNo+1, e)
+}
+
+// integer returns the number, unless it could not be represented, which is reported as an error of the lexer.
+func (lex *MyLexer) integer(number Number, err error) Number {
+	if err != nil && lex.err == nil {
+		lex.err = err
+	}
+	return number
 }
 
 func isWhitespace(r rune) bool {
diff --git a/y.go b/y.go
index 5516140..cc5f9b7 100644
--- a/y.go
+++ b/y.go
@@ -13,10 +13,10 @@ import (
 
 //line asn1.y:14
 type yySymType struct {
-	yys        int
-	name       string
-	numberRepr string
-
+	yys                               int
+	name                              string
+	numberRepr                        string
+	numberErr                         error
 	Number                            Number
 	Real                              Real
 	TagDefault                        int
@@ -1075,6 +1075,12 @@ yydefault:
 		{
 			yyVAL.ValueReference = ValueReference(yyDollar[1].name)
 		}
+	case 5:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line asn1.y:350
+		{
+			yyVAL.Number = yylex.(*MyLexer).integer(yyDollar[1].Number, yyDollar[1].numberErr)
+		}
 	case 7:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line asn1.y:358
@@ -1127,7 +1133,7 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:374
 		{
-			yyVAL.Number = yyDollar[1].Number
+			yyVAL.Number = yylex.(*MyLexer).integer(yyDollar[1].Number, yyDollar[1].numberErr)
 		}
 	case 16:
 		yyDollar = yyS[yypt-4 : yypt+1]
@@ -1392,13 +1398,13 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:598
 		{
-			yyVAL.Number = yyDollar[1].Number
+			yyVAL.Number = yylex.(*MyLexer).integer(yyDollar[1].Number, yyDollar[1].numberErr)
 		}
 	case 95:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line asn1.y:599
 		{
-			yyVAL.Number = yyDollar[2].Number.UnaryMinus()
+			yyVAL.Number = yylex.(*MyLexer).integer(yyDollar[2].Number, yyDollar[2].numberErr).UnaryMinus()
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -1514,11 +1520,17 @@ yydefault:
 		{
 			yyVAL.Real = yylex.(*MyLexer).parseReal(yyDollar[1].numberRepr, "", yyDollar[3].Number)
 		}
+	case 119:
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line asn1.y:658
+		{
+			yyVAL.Number = yylex.(*MyLexer).integer(yyDollar[1].Number, yyDollar[1].numberErr)
+		}
 	case 120:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line asn1.y:659
 		{
-			yyVAL.Number = Number(-int(yyDollar[2].Number))
+			yyVAL.Number = Number(-int(yylex.(*MyLexer).integer(yyDollar[2].Number, yyDollar[2].numberErr)))
 		}
 	case 121:
 		yyDollar = yyS[yypt-2 : yypt+1]
@@ -1628,6 +1640,12 @@ yydefault:
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
+	case 147:
+		yyDollar = yyS[yypt-2 : yypt+1]
+//line asn1.y:729
+		{
+			yylex.(*MyLexer).integer(yyDollar[1].Number, yyDollar[1].numberErr)
+		}
 	case 148:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:732
@@ -1881,7 +1899,7 @@ yydefault:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:838
 		{
-			yyVAL.ObjectIdElement = ObjectIdElement{ID: yyDollar[1].Number.IntValue()}
+			yyVAL.ObjectIdElement = ObjectIdElement{ID: yylex.(*MyLexer).integer(yyDollar[1].Number, yyDollar[1].numberErr).IntValue()}
 		}
 	case 194:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From d381535e0070d603fb1266fa6f82f98e398ea805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:10 +0000
Subject: [PATCH 31/32] fix: accept the least integer, magnitude of which is
 out of range

---
 asn1.y   |  2 +-
 lexer.go | 11 +++++++++++
 y.go     |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/asn1.y b/asn1.y
index 12eae74..d711e93 100644
--- a/asn1.y
+++ b/asn1.y
@@ -596,7 +596,7 @@ NamedNumber : identifier OPEN_ROUND SignedNumber CLOSE_ROUND  { $$ = NamedNumber
 ;
 
 SignedNumber : NUMBER  { $$ = yylex.(*MyLexer).integer($1, $<numberErr>1) }
-             | MINUS NUMBER  { $$ = yylex.(*MyLexer).integer($2, $<numberErr>2).UnaryMinus() }
+             | MINUS NUMBER  { $$ = yylex.(*MyLexer).negativeInteger($2, $<numberRepr>2, $<numberErr>2) }
 ;
 
 // 18.9
diff --git a/lexer.go b/lexer.go
index f5a4ce3..2f15404 100644
--- a/lexer.go
+++ b/lexer.go
@@ -434,6 +434,17 @@ func (lex *MyLexer) integer(number Number, err error) Number {
 	return number
 }
 
+// negativeInteger returns the number with its sign changed.
+// Magnitude of the least integer is out of range by itself, so the sign has to be considered too.
+func (lex *MyLexer) negativeInteger(number Number, repr string, err error) Number {
+	if err != nil {
+		if least, signedErr := strconv.Atoi("-" + repr); signedErr == nil {
+			return Number(least)
+		}
+	}
+	return lex.integer(number, err).UnaryMinus()
+}
+
 func isWhitespace(r rune) bool {
 	switch x := int(r); x {
 	//HORIZONTAL TABULATION (9)
diff --git a/y.go b/y.go
index cc5f9b7..5f7f727 100644
--- a/y.go
+++ b/y.go
@@ -1404,7 +1404,7 @@ yydefault:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line asn1.y:599
 		{
-			yyVAL.Number = yylex.(*MyLexer).integer(yyDollar[2].Number, yyDollar[2].numberErr).UnaryMinus()
+			yyVAL.Number = yylex.(*MyLexer).negativeInteger(yyDollar[2].Number, yyDollar[2].numberRepr, yyDollar[2].numberErr)
 		}
 	case 96:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From 0f43cc5d054968c3e0514ba3ee41ff5c53cc0e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:02 +0000
Subject: [PATCH 32/32] fix: tag explicitly also references to constrained ANY
 and CHOICE types

---
 codegen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index d7ef6e9..855d870 100644
--- a/codegen.go
+++ b/codegen.go
@@ -585,7 +585,7 @@ unwrap:
 func (ctx *moduleContext) isInterfaceType(t Type) bool {
 	t = ctx.removeWrapperTypes(t)
 	if reference, ok := t.(TypeReference); ok {
-		t = ctx.unwrapToLeafType(reference).Type
+		t = ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type)
 	}
 	switch tt := t.(type) {
 	case AnyType:
-- 
2.43.0

