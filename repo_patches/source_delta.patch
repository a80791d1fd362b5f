From b830c6acfc2d7e092001ba42da28c722a37fa503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:14 +0000
Subject: [PATCH 01/23] fix: return the error from ParseForce when every
 dialect rejects the DDL

The loop shadowed err, so a DDL no dialect accepts came back as an empty
list with a nil error.
---
 ddlparse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ddlparse.go b/ddlparse.go
index 0303e95..a60b928 100644
--- a/ddlparse.go
+++ b/ddlparse.go
@@ -67,7 +67,8 @@ func ParseForce(ddl string) ([]Table, error) {
 	ls := []Rdbms{SQLite, PostgreSQL, MySQL}
 	var err error
 	for _, rdbms := range ls {
-		tables, err := Parse(ddl, rdbms)
+		var tables []Table
+		tables, err = Parse(ddl, rdbms)
 		if err == nil {
 			return tables, nil
 		}
-- 
2.43.0


From 75361cd3cb72ecd7de68065b933c700a42c1f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:15 +0000
Subject: [PATCH 02/23] fix: report an unclosed bracket instead of recursing
 forever

At the end of the input neither bracket matches and next() does not
advance, so the recursion never ended and overflowed the stack.
---
 internal/validator/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index c3207ab..a7c4e54 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -149,6 +149,9 @@ func (v *validator) validateBrackets(set bool) error {
 
 
 func (v *validator) validateBracketsAux(set bool) error {
+	if v.isOutOfRange() {
+		return v.syntaxError()
+	}
 	if v.matchToken(")") {
 		return nil
 	}
-- 
2.43.0


From 02b64bda01bf88facc2114f7b9b1d8a43857ecee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:15 +0000
Subject: [PATCH 03/23] fix: drop the closing bracket of MySQL index keys with
 the rest of the index

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index e07ef03..4e2d80d 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -193,7 +193,7 @@ func (v *mysqlValidator) validateIndexKeys(set bool) error {
 	if err := v.validateIndexKeysAux(set); err != nil {
 		return err
 	}
-	if err := v.validateToken(true, ")"); err != nil {
+	if err := v.validateToken(set, ")"); err != nil {
 		return err
 	}
 	return nil
-- 
2.43.0


From 9b07db919635ec5fb0ceb895988d9cf20ceaa9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:16 +0000
Subject: [PATCH 04/23] fix: drop the name of a MySQL FULLTEXT/SPATIAL index
 with the rest of the index

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 4e2d80d..0eeb160 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -752,7 +752,7 @@ func (v *mysqlValidator) validateTableConstraintAux() error {
 	if v.matchTokenNext(false, "FULLTEXT", "SPATIAL") {
 		v.matchTokenNext(false, "INDEX", "KEY")
 		if !v.matchToken("(") {
-			if err := v.validateName(true); err != nil {
+			if err := v.validateName(false); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From f1dbb6153c2e520ed9f3212cbcf48751b1c1eb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:17 +0000
Subject: [PATCH 05/23] fix: skip the separators of dropped table constraints
 wherever they stand

A dropped constraint at the head of the definition list left "( ," and
became a column named ","; and commas repeated inside an expression were
collapsed with the separators.
---
 internal/converter/converter.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index d2e4919..8d297a1 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -72,9 +72,6 @@ func (c *converter) next() string {
 	}
 	token := c.token()
 	c.i += 1
-	if token == "," && c.token() == "," {
-		return c.next()
-	}
 	return token
 }
 
@@ -187,6 +184,10 @@ func (c *converter) convertTableDefinition() ([]types.Column, types.TableConstra
 	var columns []types.Column
 	var constraints types.TableConstraint
 	for !c.matchToken(")") {
+		if c.matchToken(",") {
+			c.next() // separator of a definition the validator dropped
+			continue
+		}
 		if (c.matchToken("CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN")) {
 			c.convertTableConstraint(&constraints);
 		} else {
-- 
2.43.0


From cc8ddbd7e84502c57bc78b091b03fc4c515e241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:18 +0000
Subject: [PATCH 06/23] fix: keep NOT NULL after a MySQL column CHECK

The optional NOT of [NOT] ENFORCED was taken even when NULL follows, so
the column lost its NOT NULL.
---
 internal/validator/validator.go       | 14 ++++++++++++++
 internal/validator/validator_mysql.go |  4 +++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index a7c4e54..bbc34a6 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -118,6 +118,20 @@ func (v *validator) matchTokenNext(set bool, keywords ...string) bool {
 }
 
 
+// matchTokenPair reports whether the current token and the one after it
+// (newlines skipped) are first and second, without consuming them.
+func (v *validator) matchTokenPair(first string, second string) bool {
+	if !v.matchToken(first) {
+		return false
+	}
+	i, line := v.i, v.line
+	v.next()
+	matched := v.matchToken(second)
+	v.i, v.line = i, line
+	return matched
+}
+
+
 func (v *validator) validateToken(set bool, keywords ...string) error {
 	if (v.isOutOfRange()) {
 		return v.syntaxError()
diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 0eeb160..ed0c244 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -555,7 +555,9 @@ func (v *mysqlValidator) validateConstraintCheck() error {
 	if err := v.validateExpr(true); err != nil {
 		return err
 	}
-	v.matchTokenNext(false, "NOT")
+	if v.matchTokenPair("NOT", "ENFORCED") {
+		v.next()
+	}
 	v.matchTokenNext(false, "ENFORCED")
 	return nil
 }
-- 
2.43.0


From e6efc618f9ece3f2771711a6c9af729c4bdbe57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:18 +0000
Subject: [PATCH 07/23] fix: accept NOT NULL after a SQLite column REFERENCES

Any NOT was taken for NOT DEFERRABLE and the column was rejected.
---
 internal/validator/validator_sqlite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 0ba0103..425e50d 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -448,7 +448,7 @@ func (v *sqliteValidator) validateConstraintReferencesAux() error {
 		return v.validateConstraintReferencesAux()
 	}
 
-	if v.matchToken("NOT", "DEFERRABLE") {
+	if v.matchToken("DEFERRABLE") || v.matchTokenPair("NOT", "DEFERRABLE") {
 		v.matchTokenNext(false, "NOT")
 		if err := v.validateToken(false, "DEFERRABLE"); err != nil {
 			return err
-- 
2.43.0


From 498625445cf2ff14f6bf6b3b1c317589e7e5926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:19 +0000
Subject: [PATCH 08/23] fix: keep quoted text verbatim up to its own closing
 quote

Another kind of quote inside the text opened a nested string, the
character after that string was skipped, and line breaks were dropped
from the text.
---
 internal/lexer/lexer.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 067a26a..e7f3d8b 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -373,15 +373,10 @@ func (l *lexer) lexStringDoubleQuote() (string, error) {
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
+			str += c
 		} else if c == "\"" {
 			l.next()
 			return str + c, nil
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else if c == "`" {
 			s, err := l.lexStringBackQuote()
 			str += s
@@ -406,15 +401,10 @@ func (l *lexer) lexStringSingleQuote() (string, error) {
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
+			str += c
 		} else if c == "'" {
 			l.next()
 			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else if c == "`" {
 			s, err := l.lexStringBackQuote()
 			str += s
@@ -439,15 +429,10 @@ func (l *lexer) lexStringBackQuote() (string, error) {
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
+			str += c
 		} else if c == "`" {
 			l.next()
 			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else if c == "'" {
 			s, err := l.lexStringSingleQuote()
 			str += s
-- 
2.43.0


From 6c28d637ffe056477934a218402725f995caf74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:20 +0000
Subject: [PATCH 09/23] fix: end block comments at the first */ and count all
 their lines

The character after a * or / inside a comment was skipped, so **/ did
not close the comment and a line break there was not counted.
---
 internal/lexer/lexer.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index e7f3d8b..2dc7a62 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -352,11 +352,7 @@ func (l *lexer) skipMultiLineComment() error {
 				l.next()
 				return nil
 			}
-		} else if c == "/" {
-			l.next()
-			if l.char() == "*" {
-				return l.skipMultiLineComment()
-			}
+			continue
 		}
 		l.next()
 	}
-- 
2.43.0


From 6327f7ea5aa6685044c2ae0d91926aa543d7cde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:20 +0000
Subject: [PATCH 10/23] fix: recognise a comment that directly follows another
 one

After a comment or an operator the next character was not tested for
starting a comment, so the second of two comment lines became tokens.
---
 internal/lexer/lexer.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 2dc7a62..0f9ad1d 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -121,21 +121,19 @@ func (l *lexer) lex() error {
 			if err := l.lexHyphen(&token); err != nil {
 				return err
 			}
+			continue
 		} else if c == "/" {
 			if err := l.lexSlash(&token); err != nil {
 				return err
 			}
+			continue
 		} else if c == "*" {
 			if err := l.lexAsterisk(&token); err != nil {
 				return err
 			}
+			continue
 		}
 
-		if l.isOutOfRange() {
-			break
-		}
-
-		c = l.char()
 		if c == "\"" {
 			if err := l.lexDoubleQuote(&token); err != nil {
 				return err
-- 
2.43.0


From 4312cba84bc2780059df7bc4ef3117b9567688e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:21 +0000
Subject: [PATCH 11/23] fix: count the first line break of the DDL in error
 lines

---
 internal/validator/validator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index bbc34a6..8197f84 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -48,6 +48,7 @@ func (v *validator) init(tokens []string) {
 	v.line = 1
 	v.result = []string{}
 	if v.token() == "\n" {
+		v.line += 1
 		v.next()
 	}
 }
-- 
2.43.0


From a30378631a077530cb3981d13b8081ed2d936bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:22 +0000
Subject: [PATCH 12/23] fix: convert a schema-qualified table name in
 REFERENCES

The "." after the schema was left for the caller, which never got past it.
---
 internal/converter/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 8d297a1..f9a1e80 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -370,7 +370,7 @@ func (c *converter) convertLiteralValue() interface{} {
 func (c *converter) convertReference() types.Reference {
 	var reference types.Reference
 	c.next() // skip "REFERENCES"
-	reference.TableName = c.convertName()
+	_, reference.TableName = c.convertTableName()
 	if c.matchToken("(") {
 		reference.ColumnNames = c.convertCommaSeparatedColumnNames()
 	}
-- 
2.43.0


From 7107f54de2d833e318eb4e97ebc8aeb322a72e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:22 +0000
Subject: [PATCH 13/23] fix: treat a carriage return as white space

A DDL with CRLF line ends was rejected, the "\r" being part of a token.
---
 internal/lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 0f9ad1d..3b8ea8d 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -149,7 +149,7 @@ func (l *lexer) lex() error {
 		} else if c == "#" {
 			l.lexSharp(&token)
 
-		} else if c == " " || c == "\t"{
+		} else if c == " " || c == "\t" || c == "\r" {
 			l.lexSpace(&token)
 
 		} else if c == "\n" {
@@ -300,7 +300,7 @@ func (l *lexer) lexEOL(token *string) {
 
 func (l *lexer) lexSpace(token *string) {
 	c := l.char()
-	if c == " " || c == "\t" {
+	if c == " " || c == "\t" || c == "\r" {
 		l.appendToken(*token)
 		*token = ""
 	}
-- 
2.43.0


From f77d4de36055f265b4cf6c80216c5f1ab438429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:23 +0000
Subject: [PATCH 14/23] fix: split tokens at "="

The table option ENGINE=InnoDB (no spaces) was rejected.
---
 internal/lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 3b8ea8d..38747ce 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -155,7 +155,7 @@ func (l *lexer) lex() error {
 		} else if c == "\n" {
 			l.lexEOL(&token)
 
-		} else if c == "(" || c == ")" || c == "," || c == "." || c == ";" {
+		} else if c == "(" || c == ")" || c == "," || c == "." || c == ";" || c == "=" {
 			l.lexSymbol(&token)
 
 		} else if c == "　" {
@@ -311,7 +311,7 @@ func (l *lexer) lexSpace(token *string) {
 
 func (l *lexer) lexSymbol(token *string) {
 	c := l.char()
-	if c == "(" || c == ")" || c == "," || c == "." || c == ";" {
+	if c == "(" || c == ")" || c == "," || c == "." || c == ";" || c == "=" {
 		l.appendToken(*token)
 		l.appendToken(c)
 		*token = ""
-- 
2.43.0


From 2d24f802870d3bb1f414c9460e0bc38b70bbd219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:23 +0000
Subject: [PATCH 15/23] fix: keep a column constraint name that reads
 AUTOINCREMENT

It is a valid name where it is not reserved, and was converted to an
unnamed auto-increment column.
---
 internal/converter/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index f9a1e80..06f057b 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -255,7 +255,7 @@ func (c *converter) convertConstraint() types.Constraint {
 	var constraint types.Constraint
 	if c.matchToken("CONSTRAINT") {
 		c.next() // skip "CONSTRAINT"
-		if (!c.matchToken("PRIMARY", "UNIQUE", "NOT", "AUTOINCREMENT", "AUTO_INCREMENT", "DEFAULT", "CHECK", "REFERENCES", "COLLATE")) {
+		if (!c.matchToken("PRIMARY", "UNIQUE", "NOT", "DEFAULT", "CHECK", "REFERENCES", "COLLATE")) {
 			constraint.Name = c.convertName()
 		}
 	}
-- 
2.43.0


From 8d83e8eaa92d6072bf337f6e08752f0f787bf185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:24 +0000
Subject: [PATCH 16/23] fix: accept a last SQLite statement without its
 semicolon, as documented

---
 internal/validator/validator_sqlite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 425e50d..c818bd9 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -137,6 +137,9 @@ func (v *sqliteValidator) validateCreateTable() error {
 	if err := v.validateTableDefinition(); err != nil {
 		return err
 	}
+	if v.isOutOfRange() {
+		return nil
+	}
 	if err := v.validateToken(true, ";"); err != nil {
 		return err
 	}
-- 
2.43.0


From 81066af28bcffdcce47d86c84b8abddc77a74f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:24 +0000
Subject: [PATCH 17/23] fix: accept the documented PostgreSQL column constraint
 AS (expr)

---
 internal/validator/validator_postgresql.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index 0461cd3..b879905 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -561,6 +561,13 @@ func (v *postgresqlValidator) validateConstraintReferencesAux() error {
 
 
 func (v *postgresqlValidator) validateConstraintGenerated() error {
+	if v.matchTokenNext(false, "AS") {
+		if err := v.validateExpr(false); err != nil {
+			return err
+		}
+		v.matchTokenNext(false, "STORED", "VIRTUAL")
+		return nil
+	}
 	if err := v.validateToken(false, "GENERATED"); err != nil {
 		return err
 	}
-- 
2.43.0


From 36b4af5a858dad6cd959615811c0b3f512305169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:25 +0000
Subject: [PATCH 18/23] fix: accept the documented SQLite MATCH name

---
 internal/validator/validator_sqlite.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index c818bd9..1f49869 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -445,8 +445,10 @@ func (v *sqliteValidator) validateConstraintReferencesAux() error {
 	}
 
 	if v.matchTokenNext(false, "MATCH") {
-		if err := v.validateToken(false, "SIMPLE", "PARTIAL", "FULL"); err != nil {
-			return err
+		if !v.matchTokenNext(false, "SIMPLE", "PARTIAL", "FULL") {
+			if err := v.validateName(false); err != nil {
+				return err
+			}
 		}
 		return v.validateConstraintReferencesAux()
 	}
-- 
2.43.0


From 46c58fc4200166129367ad84fd061498fd4e6e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:25 +0000
Subject: [PATCH 19/23] fix: accept USING in an unnamed MySQL UNIQUE table
 constraint

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index ed0c244..1c5ebf9 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -798,7 +798,7 @@ func (v *mysqlValidator) validateTableConstraintUnique() error {
 		return err
 	}
 	v.matchTokenNext(false, "INDEX", "KEY")
-	if !v.matchToken("(") {
+	if !v.matchToken("USING") && !v.matchToken("(") {
 		if err := v.validateName(false); err != nil {
 			return err
 		}
-- 
2.43.0


From 1d28aca8f3ca80918d237f504eaa8c28a8a7d87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:26 +0000
Subject: [PATCH 20/23] fix: do not take the words inf and nan for numbers

The default value became NaN or an infinity, which JSON cannot carry.
---
 internal/common/utils.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/common/utils.go b/internal/common/utils.go
index d823881..a233a78 100644
--- a/internal/common/utils.go
+++ b/internal/common/utils.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"math"
 	"strconv"
 )
 
@@ -52,6 +53,6 @@ func IsPositiveIntegerToken(token string) bool {
 }
 
 func IsNumericToken(token string) bool {
-	_, err := strconv.ParseFloat(token, 64)
-	return err == nil
+	n, err := strconv.ParseFloat(token, 64)
+	return err == nil && !math.IsInf(n, 0) && !math.IsNaN(n)
 }
\ No newline at end of file
-- 
2.43.0


From c33e452b9159eeec742bbd684b16d150af4c0b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:01 +0000
Subject: [PATCH 21/23] fix: keep the decimal point of a number inside its
 token

DEFAULT 0.5 was split at the point and rejected.
---
 internal/lexer/lexer.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 38747ce..98f37e9 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -155,6 +155,10 @@ func (l *lexer) lex() error {
 		} else if c == "\n" {
 			l.lexEOL(&token)
 
+		} else if l.isDecimalPoint() {
+			token += c
+			l.next()
+
 		} else if c == "(" || c == ")" || c == "," || c == "." || c == ";" || c == "=" {
 			l.lexSymbol(&token)
 
@@ -171,6 +175,17 @@ func (l *lexer) lex() error {
 }
 
 
+// isDecimalPoint reports whether the current character is a "." between two digits.
+func (l *lexer) isDecimalPoint() bool {
+	return l.char() == "." && l.isDigit(l.i - 1) && l.isDigit(l.i + 1)
+}
+
+
+func (l *lexer) isDigit(i int) bool {
+	return 0 <= i && i < l.size && '0' <= l.ddlr[i] && l.ddlr[i] <= '9'
+}
+
+
 func (l *lexer) lexHyphen(token *string) error {
 	c := l.char()
 	if c == "-" {
-- 
2.43.0


From 6e1b6ff3223644480163a430f97fdf79724e7c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:15 +0000
Subject: [PATCH 22/23] fix: keep the remaining kinds of quote inside quoted
 text verbatim

A backquote inside a string, and a single quote inside a backquoted name,
still opened a nested string, so a lone one was an error and a pair lost
the character after it.
---
 internal/lexer/lexer.go | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 98f37e9..4beccd3 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -386,12 +386,6 @@ func (l *lexer) lexStringDoubleQuote() (string, error) {
 		} else if c == "\"" {
 			l.next()
 			return str + c, nil
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else {
 			str += c
 		}
@@ -414,12 +408,6 @@ func (l *lexer) lexStringSingleQuote() (string, error) {
 		} else if c == "'" {
 			l.next()
 			return str + c, nil			
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else {
 			str += c
 		}
@@ -442,12 +430,6 @@ func (l *lexer) lexStringBackQuote() (string, error) {
 		} else if c == "`" {
 			l.next()
 			return str + c, nil			
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
 		} else {
 			str += c
 		}
-- 
2.43.0


From b54ab8a706e0dc08c7d0d40adfe080687f0be33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:26 +0000
Subject: [PATCH 23/23] fix: reserve the MySQL word INFILE (the list had
 INFILEx, which matches nothing)

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 1c5ebf9..79e244e 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -1317,7 +1317,7 @@ var ReservedWords_MySQL = []string{
 	"IGNORE",
 	"IN",
 	"INDEX",
-	"INFILEx",
+	"INFILE",
 	"INNER",
 	"INOUT",
 	"INSENSITIVE",
-- 
2.43.0

