From 3c18b055c8a82fd6a8999ac835aa5af9bd313de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:36 +0000
Subject: [PATCH 01/26] fix: report an unclosed bracket instead of recursing
 forever

---
 internal/validator/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index c3207ab..a7c4e54 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -149,6 +149,9 @@ func (v *validator) validateBrackets(set bool) error {
 
 
 func (v *validator) validateBracketsAux(set bool) error {
+	if v.isOutOfRange() {
+		return v.syntaxError()
+	}
 	if v.matchToken(")") {
 		return nil
 	}
-- 
2.43.0


From 91de9e0e1e1f62961fad4ca253f85de12de66eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:38 +0000
Subject: [PATCH 02/26] fix: drop ignored MySQL indexes and exclusion
 constraints completely

---
 internal/converter/converter.go       | 4 ++++
 internal/validator/validator_mysql.go | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index d2e4919..dbef4e0 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -187,6 +187,10 @@ func (c *converter) convertTableDefinition() ([]types.Column, types.TableConstra
 	var columns []types.Column
 	var constraints types.TableConstraint
 	for !c.matchToken(")") {
+		if c.matchToken(",") {
+			c.next() // the element before was removed by the validator
+			continue
+		}
 		if (c.matchToken("CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN")) {
 			c.convertTableConstraint(&constraints);
 		} else {
diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index e07ef03..0eeb160 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -193,7 +193,7 @@ func (v *mysqlValidator) validateIndexKeys(set bool) error {
 	if err := v.validateIndexKeysAux(set); err != nil {
 		return err
 	}
-	if err := v.validateToken(true, ")"); err != nil {
+	if err := v.validateToken(set, ")"); err != nil {
 		return err
 	}
 	return nil
@@ -752,7 +752,7 @@ func (v *mysqlValidator) validateTableConstraintAux() error {
 	if v.matchTokenNext(false, "FULLTEXT", "SPATIAL") {
 		v.matchTokenNext(false, "INDEX", "KEY")
 		if !v.matchToken("(") {
-			if err := v.validateName(true); err != nil {
+			if err := v.validateName(false); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From d604b6d5177b85760f9bb8e98673b33aee51e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:39 +0000
Subject: [PATCH 03/26] fix: keep consecutive commas in expression text

---
 internal/converter/converter.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index dbef4e0..b38d87f 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -72,9 +72,6 @@ func (c *converter) next() string {
 	}
 	token := c.token()
 	c.i += 1
-	if token == "," && c.token() == "," {
-		return c.next()
-	}
 	return token
 }
 
-- 
2.43.0


From 770a34d88a5a2ecc70477001d74dd254811fe2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:39 +0000
Subject: [PATCH 04/26] fix: convert schema-qualified referenced table names

---
 internal/converter/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index b38d87f..8347050 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -370,7 +370,7 @@ func (c *converter) convertLiteralValue() interface{} {
 func (c *converter) convertReference() types.Reference {
 	var reference types.Reference
 	c.next() // skip "REFERENCES"
-	reference.TableName = c.convertName()
+	_, reference.TableName = c.convertTableName()
 	if c.matchToken("(") {
 		reference.ColumnNames = c.convertCommaSeparatedColumnNames()
 	}
-- 
2.43.0


From 1dcfb719b69925fb744b2d50f889bae8b7d7488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 05/26] fix: do not take the NOT of NOT NULL after a MySQL
 CHECK for NOT ENFORCED

---
 internal/validator/validator.go       |  9 +++++++++
 internal/validator/validator_mysql.go | 20 ++++++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index a7c4e54..f7397c0 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -134,6 +134,15 @@ func (v *validator) validateToken(set bool, keywords ...string) error {
 }
 
 
+// Whether the current token and the one after it are NOT NULL.
+func (v *validator) matchNotNull() bool {
+	i, line := v.i, v.line
+	match := v.matchTokenNext(false, "NOT") && v.matchToken("NULL")
+	v.i, v.line = i, line
+	return match
+}
+
+
 func (v *validator) validateBrackets(set bool) error {
 	if err := v.validateToken(set, "("); err != nil {
 		return err
diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 0eeb160..f4b5d89 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -555,7 +555,17 @@ func (v *mysqlValidator) validateConstraintCheck() error {
 	if err := v.validateExpr(true); err != nil {
 		return err
 	}
-	v.matchTokenNext(false, "NOT")
+	if v.matchNotNull() {
+		return nil
+	}
+	return v.validateEnforced()
+}
+
+
+func (v *mysqlValidator) validateEnforced() error {
+	if v.matchTokenNext(false, "NOT") {
+		return v.validateToken(false, "ENFORCED")
+	}
 	v.matchTokenNext(false, "ENFORCED")
 	return nil
 }
@@ -854,7 +864,13 @@ func (v *mysqlValidator) validateTableConstraintForeignKey() error {
 
 
 func (v *mysqlValidator) validateTableConstraintCheck() error {
-	return v.validateConstraintCheck()
+	if err := v.validateToken(true, "CHECK"); err != nil {
+		return err
+	}
+	if err := v.validateExpr(true); err != nil {
+		return err
+	}
+	return v.validateEnforced()
 }
 
 
-- 
2.43.0


From 7ab1c614e90829fe6e34e9a28f1e329603ca3192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 06/26] fix: accept NOT NULL after a SQLite REFERENCES clause

---
 internal/validator/validator_sqlite.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 0ba0103..7a09c95 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -413,14 +413,14 @@ func (v *sqliteValidator) validateConstraintReferences() error {
 			return err
 		}
 	}
-	if err := v.validateConstraintReferencesAux(); err != nil {
+	if err := v.validateConstraintReferencesAux(true); err != nil {
 		return err
 	}
 	return nil
 }
 
 
-func (v *sqliteValidator) validateConstraintReferencesAux() error {
+func (v *sqliteValidator) validateConstraintReferencesAux(column bool) error {
 	if v.matchTokenNext(false, "ON") {
 		if !v.matchTokenNext(false, "DELETE", "UPDATE") {
 			return v.syntaxError()
@@ -438,17 +438,17 @@ func (v *sqliteValidator) validateConstraintReferencesAux() error {
 		} else {
 			return v.syntaxError()
 		}
-		return v.validateConstraintReferencesAux()
+		return v.validateConstraintReferencesAux(column)
 	}
 
 	if v.matchTokenNext(false, "MATCH") {
 		if err := v.validateToken(false, "SIMPLE", "PARTIAL", "FULL"); err != nil {
 			return err
 		}
-		return v.validateConstraintReferencesAux()
+		return v.validateConstraintReferencesAux(column)
 	}
 
-	if v.matchToken("NOT", "DEFERRABLE") {
+	if v.matchToken("NOT", "DEFERRABLE") && !(column && v.matchNotNull()) {
 		v.matchTokenNext(false, "NOT")
 		if err := v.validateToken(false, "DEFERRABLE"); err != nil {
 			return err
@@ -458,7 +458,7 @@ func (v *sqliteValidator) validateConstraintReferencesAux() error {
 				return err
 			}
 		}
-		return v.validateConstraintReferencesAux()
+		return v.validateConstraintReferencesAux(column)
 	}
 
 	return nil
@@ -602,7 +602,7 @@ func (v *sqliteValidator) validateTableConstraintForeignKey() error {
 			return err
 		}
 	}
-	if err := v.validateConstraintReferencesAux(); err != nil {
+	if err := v.validateConstraintReferencesAux(false); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0


From 31faeff545f58094079c8f9efbffb03ae6877f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:40 +0000
Subject: [PATCH 07/26] fix: return the error from ParseForce when no dialect
 accepts the text

---
 ddlparse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ddlparse.go b/ddlparse.go
index 0303e95..a60b928 100644
--- a/ddlparse.go
+++ b/ddlparse.go
@@ -67,7 +67,8 @@ func ParseForce(ddl string) ([]Table, error) {
 	ls := []Rdbms{SQLite, PostgreSQL, MySQL}
 	var err error
 	for _, rdbms := range ls {
-		tables, err := Parse(ddl, rdbms)
+		var tables []Table
+		tables, err = Parse(ddl, rdbms)
 		if err == nil {
 			return tables, nil
 		}
-- 
2.43.0


From 8e80a5c5c7c628ea1deed6b49b4be2f89323ff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 08/26] fix: count a newline before the first token

---
 internal/validator/validator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index f7397c0..30d11bd 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -48,6 +48,7 @@ func (v *validator) init(tokens []string) {
 	v.line = 1
 	v.result = []string{}
 	if v.token() == "\n" {
+		v.line += 1
 		v.next()
 	}
 }
-- 
2.43.0


From 23ef83f13c3a0f63731a0f7d0d802e05b5d718a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:41 +0000
Subject: [PATCH 09/26] fix: do not interpret or lose text inside quotes,
 support doubled quotes

---
 internal/converter/converter.go | 11 +++-
 internal/lexer/lexer.go         | 96 ++++++---------------------------
 2 files changed, 26 insertions(+), 81 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 8347050..7f2f051 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -113,6 +113,13 @@ func (c *converter) isStringValue(token string) bool {
 }
 
 
+// Remove the enclosing quotes. A doubled quote stands for one quote.
+func (c *converter) unquote(token string) string {
+	quote := token[0:1]
+	return strings.ReplaceAll(token[1 : len(token)-1], quote + quote, quote)
+}
+
+
 func (c *converter) convert() {
 	if c.isOutOfRange() {
 		return
@@ -172,7 +179,7 @@ func (c *converter) convertTableName() (string, string) {
 func (c *converter) convertName() string {
 	token := c.next()
 	if c.isIdentifier(token) {
-		return token[1 : len(token)-1]
+		return c.unquote(token)
 	} else {
 		return token
 	}
@@ -352,7 +359,7 @@ func (c *converter) convertLiteralValue() interface{} {
 		return n
 	}
 	if c.isStringValue(token) {
-		return token[1 : len(token)-1]
+		return c.unquote(token)
 	}
 	if strings.ToUpper(token) == "NULL" {
 		return nil
diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 067a26a..d01156c 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -365,99 +365,37 @@ func (l *lexer) skipMultiLineComment() error {
 
 
 func (l *lexer) lexStringDoubleQuote() (string, error) {
-	l.next()
-	str := "\""
-	c := ""
-	for !l.isOutOfRange() {
-		c = l.char()
-		if c == "\n" {
-			l.line += 1
-			l.appendToken("\n")
-		} else if c == "\"" {
-			l.next()
-			return str + c, nil
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else {
-			str += c
-		}
-		l.next()
-	}
-	return str, l.lexError()
+	return l.lexString("\"")
 }
 
 
 func (l *lexer) lexStringSingleQuote() (string, error) {
-	l.next()
-	str := "'"
-	c := ""
-	for !l.isOutOfRange() {
-		c = l.char()
-		if c == "\n" {
-			l.line += 1
-			l.appendToken("\n")
-		} else if c == "'" {
-			l.next()
-			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else {
-			str += c
-		}
-		l.next()
-	}
-	return str, l.lexError()
+	return l.lexString("'")
 }
 
 
 func (l *lexer) lexStringBackQuote() (string, error) {
+	return l.lexString("`")
+}
+
+
+// Everything up to the closing quote belongs to the string.
+// A doubled quote is part of it.
+func (l *lexer) lexString(quote string) (string, error) {
 	l.next()
-	str := "`"
-	c := ""
+	str := quote
 	for !l.isOutOfRange() {
-		c = l.char()
+		c := l.next()
+		str += c
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
-		} else if c == "`" {
-			l.next()
-			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
+		} else if c == quote {
+			if l.char() != quote {
+				return str, nil
 			}
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else {
-			str += c
+			str += l.next()
 		}
-		l.next()
 	}
 	return str, l.lexError()
-}
\ No newline at end of file
+}
-- 
2.43.0


From 355655da017aa1ee46aff15576fe1423306e30df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 10/26] fix: recognise adjacent comments and every end of a
 block comment

---
 internal/lexer/lexer.go | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index d01156c..7c12938 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -121,21 +121,19 @@ func (l *lexer) lex() error {
 			if err := l.lexHyphen(&token); err != nil {
 				return err
 			}
+			continue
 		} else if c == "/" {
 			if err := l.lexSlash(&token); err != nil {
 				return err
 			}
+			continue
 		} else if c == "*" {
 			if err := l.lexAsterisk(&token); err != nil {
 				return err
 			}
+			continue
 		}
 
-		if l.isOutOfRange() {
-			break
-		}
-
-		c = l.char()
 		if c == "\"" {
 			if err := l.lexDoubleQuote(&token); err != nil {
 				return err
@@ -340,25 +338,15 @@ func (l *lexer) skipComment() {
 
 func (l *lexer) skipMultiLineComment() error {
 	l.next()
-	c := ""
 	for !l.isOutOfRange() {
-		c = l.char()
+		c := l.next()
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
-		} else if c == "*" {
+		} else if c == "*" && l.char() == "/" {
 			l.next()
-			if l.char() == "/" {
-				l.next()
-				return nil
-			}
-		} else if c == "/" {
-			l.next()
-			if l.char() == "*" {
-				return l.skipMultiLineComment()
-			}
+			return nil
 		}
-		l.next()
 	}
 	return l.lexError()
 }
-- 
2.43.0


From db4a5817b607ccc78de3a90a4a836a625d6ac855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 11/26] fix: keep decimal numbers in one token

---
 internal/lexer/lexer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 7c12938..ef25661 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -1,6 +1,8 @@
 package lexer
 
 import (
+	"strings"
+
 	"github.com/kodaimura/ddlparse/internal/common"
 )
 
@@ -107,6 +109,13 @@ func (l *lexer) isOutOfRange() bool {
 }
 
 
+// Whether the token is an optionally signed sequence of digits.
+func (l *lexer) isInteger(token string) bool {
+	digits := strings.TrimLeft(token, "+-")
+	return digits != "" && strings.Trim(digits, "0123456789") == ""
+}
+
+
 func (l *lexer) lexError() error {
 	return common.NewValidateError(l.line, string(l.char()))
 }
@@ -155,6 +164,10 @@ func (l *lexer) lex() error {
 		} else if c == "\n" {
 			l.lexEOL(&token)
 
+		} else if c == "." && l.isInteger(token) {
+			token += c
+			l.next()
+
 		} else if c == "(" || c == ")" || c == "," || c == "." || c == ";" {
 			l.lexSymbol(&token)
 
-- 
2.43.0


From 2aa9bb278deb26ce962578aa01f8c85fd1c7f587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 12/26] fix: separate = from its neighbours so that
 ENGINE=InnoDB is accepted

---
 internal/lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index ef25661..805d642 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -168,7 +168,7 @@ func (l *lexer) lex() error {
 			token += c
 			l.next()
 
-		} else if c == "(" || c == ")" || c == "," || c == "." || c == ";" {
+		} else if c == "(" || c == ")" || c == "," || c == "." || c == ";" || c == "=" {
 			l.lexSymbol(&token)
 
 		} else if c == "　" {
@@ -324,7 +324,7 @@ func (l *lexer) lexSpace(token *string) {
 
 func (l *lexer) lexSymbol(token *string) {
 	c := l.char()
-	if c == "(" || c == ")" || c == "," || c == "." || c == ";" {
+	if c == "(" || c == ")" || c == "," || c == "." || c == ";" || c == "=" {
 		l.appendToken(*token)
 		l.appendToken(c)
 		*token = ""
-- 
2.43.0


From 6c547c4615a007637175b520c3c3009bf6f1ee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:43 +0000
Subject: [PATCH 13/26] fix: accept a SQLite statement that ends the text
 without a semicolon

---
 internal/validator/validator_sqlite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 7a09c95..14df61a 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -137,6 +137,9 @@ func (v *sqliteValidator) validateCreateTable() error {
 	if err := v.validateTableDefinition(); err != nil {
 		return err
 	}
+	if v.isOutOfRange() {
+		return nil
+	}
 	if err := v.validateToken(true, ";"); err != nil {
 		return err
 	}
-- 
2.43.0


From 948ae3f9742dc5022a436dc74557b662bfa5f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:43 +0000
Subject: [PATCH 14/26] fix: accept USING without an index name in a MySQL
 UNIQUE constraint

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index f4b5d89..714e72b 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -806,7 +806,7 @@ func (v *mysqlValidator) validateTableConstraintUnique() error {
 		return err
 	}
 	v.matchTokenNext(false, "INDEX", "KEY")
-	if !v.matchToken("(") {
+	if !v.matchToken("USING") && !v.matchToken("(") {
 		if err := v.validateName(false); err != nil {
 			return err
 		}
-- 
2.43.0


From 28ccc7662b8802b5f220e693132d79ebcca9b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:44 +0000
Subject: [PATCH 15/26] fix: match keywords in mixed letter case

---
 internal/converter/converter.go | 8 +++-----
 internal/validator/validator.go | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 7f2f051..1dda483 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -77,11 +77,9 @@ func (c *converter) next() string {
 
 
 func (c *converter) matchToken(keywords ...string) bool {
-	return common.Contains(
-		append(
-			common.MapSlice(keywords, strings.ToLower), 
-			common.MapSlice(keywords, strings.ToUpper)...,
-		), c.token())
+	token := c.token()
+	return common.Contains(common.MapSlice(keywords, strings.ToLower), strings.ToLower(token)) &&
+		common.Contains(common.MapSlice(keywords, strings.ToUpper), strings.ToUpper(token))
 }
 
 
diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index 30d11bd..415f8a8 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -98,11 +98,9 @@ func (v *validator) syntaxError() error {
 
 
 func (v *validator) matchToken(keywords ...string) bool {
-	return common.Contains(
-		append(
-			common.MapSlice(keywords, strings.ToLower), 
-			common.MapSlice(keywords, strings.ToUpper)...,
-		), v.token())
+	token := v.token()
+	return common.Contains(common.MapSlice(keywords, strings.ToLower), strings.ToLower(token)) &&
+		common.Contains(common.MapSlice(keywords, strings.ToUpper), strings.ToUpper(token))
 }
 
 
-- 
2.43.0


From e3d67ce61ced9829e71093ae2361de534af6fb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:44 +0000
Subject: [PATCH 16/26] fix: treat a carriage return as white space

---
 internal/lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 805d642..c84a441 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -158,7 +158,7 @@ func (l *lexer) lex() error {
 		} else if c == "#" {
 			l.lexSharp(&token)
 
-		} else if c == " " || c == "\t"{
+		} else if c == " " || c == "\t" || c == "\r" {
 			l.lexSpace(&token)
 
 		} else if c == "\n" {
@@ -313,7 +313,7 @@ func (l *lexer) lexEOL(token *string) {
 
 func (l *lexer) lexSpace(token *string) {
 	c := l.char()
-	if c == " " || c == "\t" {
+	if c == " " || c == "\t" || c == "\r" {
 		l.appendToken(*token)
 		*token = ""
 	}
-- 
2.43.0


From e36e05370b06744e1763d6ad850c88e77a96e36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:44 +0000
Subject: [PATCH 17/26] fix: do not take inf and nan for numbers

---
 internal/common/utils.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/common/utils.go b/internal/common/utils.go
index d823881..a233a78 100644
--- a/internal/common/utils.go
+++ b/internal/common/utils.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"math"
 	"strconv"
 )
 
@@ -52,6 +53,6 @@ func IsPositiveIntegerToken(token string) bool {
 }
 
 func IsNumericToken(token string) bool {
-	_, err := strconv.ParseFloat(token, 64)
-	return err == nil
+	n, err := strconv.ParseFloat(token, 64)
+	return err == nil && !math.IsInf(n, 0) && !math.IsNaN(n)
 }
\ No newline at end of file
-- 
2.43.0


From b22e156d2f85f2fc12faa573180b77a53174fe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:45 +0000
Subject: [PATCH 18/26] fix: convert column constraint names that look like a
 clause of another dialect

---
 internal/converter/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 1dda483..70043e8 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -260,7 +260,7 @@ func (c *converter) convertConstraint() types.Constraint {
 	var constraint types.Constraint
 	if c.matchToken("CONSTRAINT") {
 		c.next() // skip "CONSTRAINT"
-		if (!c.matchToken("PRIMARY", "UNIQUE", "NOT", "AUTOINCREMENT", "AUTO_INCREMENT", "DEFAULT", "CHECK", "REFERENCES", "COLLATE")) {
+		if (!c.matchToken("CHECK")) {
 			constraint.Name = c.convertName()
 		}
 	}
-- 
2.43.0


From 7e0df32f59ec5b3c068a9006e1a9530646cb3565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:45 +0000
Subject: [PATCH 19/26] fix: correct the MySQL reserved word INFILE

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 714e72b..be22e2c 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -1331,7 +1331,7 @@ var ReservedWords_MySQL = []string{
 	"IGNORE",
 	"IN",
 	"INDEX",
-	"INFILEx",
+	"INFILE",
 	"INNER",
 	"INOUT",
 	"INSENSITIVE",
-- 
2.43.0


From a7384c464677be4c2d8560f19f109cabc542246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:46 +0000
Subject: [PATCH 20/26] fix: accept the documented PostgreSQL column clause AS
 (expr)

---
 internal/validator/validator_postgresql.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index 0461cd3..b879905 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -561,6 +561,13 @@ func (v *postgresqlValidator) validateConstraintReferencesAux() error {
 
 
 func (v *postgresqlValidator) validateConstraintGenerated() error {
+	if v.matchTokenNext(false, "AS") {
+		if err := v.validateExpr(false); err != nil {
+			return err
+		}
+		v.matchTokenNext(false, "STORED", "VIRTUAL")
+		return nil
+	}
 	if err := v.validateToken(false, "GENERATED"); err != nil {
 		return err
 	}
-- 
2.43.0


From fe705958da358b6553c1c73e0413ec2d56832ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:20 +0000
Subject: [PATCH 21/26] fix: accept any name after MATCH in SQLite as
 documented

---
 internal/validator/validator_sqlite.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 14df61a..bca7404 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -445,8 +445,10 @@ func (v *sqliteValidator) validateConstraintReferencesAux(column bool) error {
 	}
 
 	if v.matchTokenNext(false, "MATCH") {
-		if err := v.validateToken(false, "SIMPLE", "PARTIAL", "FULL"); err != nil {
-			return err
+		if !v.matchTokenNext(false, "FULL") {
+			if err := v.validateName(false); err != nil {
+				return err
+			}
 		}
 		return v.validateConstraintReferencesAux(column)
 	}
-- 
2.43.0


From b47f1daa87cd40b00c5e087757e68e84ea957b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:02 +0000
Subject: [PATCH 22/26] fix: accept a PostgreSQL table or schema named if,
 which is not reserved

---
 internal/converter/converter.go            |  2 +-
 internal/validator/validator.go            | 11 ++++++++---
 internal/validator/validator_postgresql.go |  3 ++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 70043e8..3411e10 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -134,7 +134,7 @@ func (c *converter) convertTable() types.Table {
 	c.next() // skip "CREATE"
 	c.next() // skip "TABLE"
 
-	if c.matchToken("IF") {
+	if c.matchToken("IF") && c.i + 1 < c.size && strings.ToUpper(c.tokens[c.i + 1]) == "NOT" {
 		c.next() // skip "IF"
 		c.next() // skip "NOT"
 		c.next() // skip "EXISTS"
diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index 415f8a8..63340cd 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -133,15 +133,20 @@ func (v *validator) validateToken(set bool, keywords ...string) error {
 }
 
 
-// Whether the current token and the one after it are NOT NULL.
-func (v *validator) matchNotNull() bool {
+// Whether the current token is first and the one after it is second.
+func (v *validator) matchTokenPair(first string, second string) bool {
 	i, line := v.i, v.line
-	match := v.matchTokenNext(false, "NOT") && v.matchToken("NULL")
+	match := v.matchTokenNext(false, first) && v.matchToken(second)
 	v.i, v.line = i, line
 	return match
 }
 
 
+func (v *validator) matchNotNull() bool {
+	return v.matchTokenPair("NOT", "NULL")
+}
+
+
 func (v *validator) validateBrackets(set bool) error {
 	if err := v.validateToken(set, "("); err != nil {
 		return err
diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index b879905..ce8460b 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -183,7 +183,8 @@ func (v *postgresqlValidator) validateCreateOther() error {
 
 
 func (v *postgresqlValidator) validateIfNotExists() error {
-	if v.matchTokenNext(true, "IF") {
+	if v.matchTokenPair("IF", "NOT") {
+		v.set(v.next())
 		if err := v.validateToken(true, "NOT"); err != nil {
 			return err
 		}
-- 
2.43.0


From 4c3dddbe99326959b520479ee0ed26aa686a720c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:48 +0000
Subject: [PATCH 23/26] fix: accept CONSTRAINT name before any constraint of a
 column

---
 internal/converter/converter.go            | 17 +++++++++++------
 internal/validator/validator_mysql.go      | 14 +++++++-------
 internal/validator/validator_postgresql.go | 10 +++++-----
 internal/validator/validator_sqlite.go     | 10 +++++-----
 4 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 3411e10..82d6a61 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -258,12 +258,6 @@ func (c *converter) convertTypeDigit() (int, int) {
 
 func (c *converter) convertConstraint() types.Constraint {
 	var constraint types.Constraint
-	if c.matchToken("CONSTRAINT") {
-		c.next() // skip "CONSTRAINT"
-		if (!c.matchToken("CHECK")) {
-			constraint.Name = c.convertName()
-		}
-	}
 	c.convertConstraintAux(&constraint)
 	return constraint
 }
@@ -273,6 +267,17 @@ func (c *converter) convertConstraintAux(constraint *types.Constraint) {
 	if c.matchToken(",", ")") {
 		return
 	}
+	if c.matchToken("CONSTRAINT") {
+		c.next() // skip "CONSTRAINT"
+		if (!c.matchToken("CHECK")) {
+			name := c.convertName()
+			if constraint.Name == "" {
+				constraint.Name = name
+			}
+		}
+		c.convertConstraintAux(constraint)
+		return
+	}
 	if c.matchToken("PRIMARY") {
 		c.next() // skip "PRIMARY"
 		c.next() // skip "KEY"
diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index be22e2c..f17b731 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -398,13 +398,6 @@ func (v *mysqlValidator) validateColumnType() error {
 
 
 func (v *mysqlValidator) validateColumnConstraints() error {
-	if v.matchTokenNext(true, "CONSTRAINT") {
-		if !v.matchToken("CHECK") {
-			if err := v.validateName(true); err != nil {
-				return err
-			}
-		}
-	}
 	return v.validateColumnConstraintsAux([]string{})
 }
 
@@ -419,6 +412,13 @@ func (v *mysqlValidator) isColumnConstraint(token string) bool {
 
 
 func (v *mysqlValidator) validateColumnConstraintsAux(ls []string) error {
+	if v.matchTokenNext(true, "CONSTRAINT") {
+		if !v.matchToken("CHECK") {
+			if err := v.validateName(true); err != nil {
+				return err
+			}
+		}
+	}
 	if !v.isColumnConstraint(v.token()) {
 		return nil
 	} 
diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index ce8460b..5fd3991 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -344,11 +344,6 @@ func (v *postgresqlValidator) validatePositiveInteger() error {
 
 
 func (v *postgresqlValidator) validateColumnConstraints() error {
-	if v.matchTokenNext(true, "CONSTRAINT") {
-		if err := v.validateName(true); err != nil {
-			return err
-		}
-	}
 	return v.validateColumnConstraintsAux([]string{})
 }
 
@@ -362,6 +357,11 @@ func (v *postgresqlValidator) isColumnConstraint(token string) bool {
 
 
 func (v *postgresqlValidator) validateColumnConstraintsAux(ls []string) error {
+	if v.matchTokenNext(true, "CONSTRAINT") {
+		if err := v.validateName(true); err != nil {
+			return err
+		}
+	}
 	if !v.isColumnConstraint(v.token()) {
 		return nil
 	} 
diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index bca7404..c30bc5b 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -243,16 +243,16 @@ func (v *sqliteValidator) validateColumnType() error {
 
 
 func (v *sqliteValidator) validateColumnConstraints() error {
-	if v.matchTokenNext(true, "CONSTRAINT") {
-		if err := v.validateName(true); err != nil {
-			return err
-		}
-	}
 	return v.validateColumnConstraintsAux([]string{})
 }
 
 
 func (v *sqliteValidator) validateColumnConstraintsAux(ls []string) error {
+	if v.matchTokenNext(true, "CONSTRAINT") {
+		if err := v.validateName(true); err != nil {
+			return err
+		}
+	}
 	if !v.isColumnConstraint(v.token()) {
 		return nil
 	} 
-- 
2.43.0


From f07329d55836e7040008573875f614973ec85021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:49 +0000
Subject: [PATCH 24/26] fix: reject CONSTRAINT name before a MySQL index, which
 cannot carry one

---
 internal/validator/validator_mysql.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index f17b731..9ec50cb 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -738,6 +738,9 @@ func (v *mysqlValidator) validateTableConstraint() error {
 				return err
 			}
 		}
+		if v.matchToken("INDEX", "KEY", "FULLTEXT", "SPATIAL") {
+			return v.syntaxError()
+		}
 	}
 	return v.validateTableConstraintAux()
 }
-- 
2.43.0


From 6d19692ed8fc3d23e130486550e1e98f7f0df0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:49 +0000
Subject: [PATCH 25/26] fix: document the MySQL table CHECK and SQLite table
 options as they are supported

---
 README.md | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index af38127..b922743 100644
--- a/README.md
+++ b/README.md
@@ -148,7 +148,7 @@ ON CONFLICT {ROLLBACK | ABORT | FAIL | IGNORE|REPLACE}
 ```
 * table-options
 ```
-[WITHOUT ROWID][STRICT]
+[WITHOUT ROWID | STRICT][, ...]
 ```
 ### PostgreSQL
 ```
@@ -232,7 +232,7 @@ REFERENCES table_name (column_name)
 {FULLTEXT | SPATIAL} [INDEX | KEY] [index_name] (key-part, ...) [index-option] ...
 [CONSTRAINT [symbol]] PRIMARY KEY [USING {BTREE | HASH}] (key-part, ...) [index-option] ...
 [CONSTRAINT [symbol]] UNIQUE [INDEX | KEY] [index_name] [USING {BTREE | HASH}] (key-part, ...)[index-option] ...
-[CONSTRAINT [symbol]] CHECK (expr) [NO INHERIT]
+[CONSTRAINT [symbol]] CHECK (expr) [[NOT] ENFORCED]
 [CONSTRAINT [symbol]] FOREIGN KEY [index_name] (column_name,...) REFERENCES table_name (key-part, ...)
                       [MATCH {FULL | PARTIAL | SIMPLE}]
                       [ON {DELETE | UPDATE} {SET NULL | SET DEFAULT | CASCADE | RESTRICT | NO ACTION}]
-- 
2.43.0


From 67c776d6525647c5a81c08ccf8fb3e6e3781d3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:30 +0000
Subject: [PATCH 26/26] fix: skip nested blocks and CASE expressions inside
 BEGIN ... END bodies

---
 internal/validator/validator_mysql.go      | 17 ++++++++++++-----
 internal/validator/validator_postgresql.go | 14 ++++++++------
 internal/validator/validator_sqlite.go     | 14 ++++++++------
 3 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 9ec50cb..b92d9a7 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -265,17 +265,24 @@ func (v *mysqlValidator) validateCreateOther() error {
 	); err != nil {
 		return err
 	}
-	begin := false
+	depth := 0
 	for true {
 		if v.isOutOfRange() {
 			return v.syntaxError()
 		}
 		if v.matchToken("BEGIN") {
-			begin = true
+			depth += 1
 		}
-		if begin {
-			if v.matchToken("END") {
-				begin = false
+		if depth > 0 {
+			if v.matchToken("CASE") {
+				depth += 1
+			} else if v.matchToken("END") {
+				v.next()
+				if !v.matchTokenNext(false, "IF", "LOOP", "WHILE", "REPEAT") {
+					depth -= 1
+					v.matchTokenNext(false, "CASE")
+				}
+				continue
 			}
 		} else {
 			if v.matchToken(";") {
diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index 5fd3991..1d1509e 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -156,17 +156,19 @@ func (v *postgresqlValidator) validateCreateOther() error {
 	); err != nil {
 		return err
 	}
-	begin := false
+	depth := 0
 	for true {
 		if v.isOutOfRange() {
 			return v.syntaxError()
 		}
-		if v.matchToken("BEGIN") {
-			begin = true
+		if depth == 0 && v.matchToken("BEGIN") {
+			depth = 1
 		}
-		if begin {
-			if v.matchToken("END") {
-				begin = false
+		if depth > 0 {
+			if v.matchToken("CASE") {
+				depth += 1
+			} else if v.matchToken("END") {
+				depth -= 1
 			}
 		} else {
 			if v.matchToken(";") {
diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index c30bc5b..c640a20 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -151,17 +151,19 @@ func (v *sqliteValidator) validateCreateOther() error {
 	if err := v.validateToken(false, "VIRTUAL", "VIEW", "TRIGGER", "INDEX", "UNIQUE"); err != nil {
 		return err
 	}
-	begin := false
+	depth := 0
 	for true {
 		if v.isOutOfRange() {
 			return v.syntaxError()
 		}
-		if v.matchToken("BEGIN") {
-			begin = true
+		if depth == 0 && v.matchToken("BEGIN") {
+			depth = 1
 		}
-		if begin {
-			if v.matchToken("END") {
-				begin = false
+		if depth > 0 {
+			if v.matchToken("CASE") {
+				depth += 1
+			} else if v.matchToken("END") {
+				depth -= 1
 			}
 		} else {
 			if v.matchToken(";") {
-- 
2.43.0

