From a56dec37e737c027be3fe991c149aeb9242b3d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:03 +0000
Subject: [PATCH 01/85] fix: SYSTEM RELOAD EMBEDDED at end of input no longer
 panics

---
 parser/parse_system.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index f75f091..8065ce3 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -83,10 +83,11 @@ func (p *Parser) parseSystemReloadExpr(pos Pos) (*SystemReloadExpr, error) {
 		_ = p.lexer.consumeToken()
 	case p.tryConsumeKeywords(KeywordEmbedded):
 		typ = "EMBEDDED DICTIONARIES"
-		statementEnd = p.current().End
+		dictionaries := p.current()
 		if err := p.expectKeyword(KeywordDictionaries); err != nil {
 			return nil, err
 		}
+		statementEnd = dictionaries.End
 	default:
 		return nil, fmt.Errorf("expected DICTIONARIES|DICTIONARY|EMBEDDED")
 	}
-- 
2.43.0


From 13aa91998bb0a986031a091f53a5131abd787c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 02/85] fix: CREATE USER clauses ending in a keyword no longer
 panic at end of input

---
 parser/parse_system.go  | 18 +++++++++---------
 parser/parser_common.go |  9 +++++++++
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 8065ce3..e8e112f 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -571,14 +571,14 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			return nil, err
 		}
 		auth.NotIdentified = true
-		auth.AuthEnd = p.current().End
+		auth.AuthEnd = p.clauseEnd()
 		return auth, nil
 	}
 
 	if err := p.expectKeyword(KeywordIdentified); err != nil {
 		return nil, err
 	}
-	auth.AuthEnd = p.current().End
+	auth.AuthEnd = p.clauseEnd()
 
 	if p.tryConsumeKeywords(KeywordWith) {
 		if p.matchKeyword(KeywordLdap) {
@@ -595,7 +595,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 		} else if p.matchKeyword(KeywordKerberos) {
 			_ = p.lexer.consumeToken()
 			auth.IsKerberos = true
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.clauseEnd()
 			if p.tryConsumeKeywords(KeywordRealm) {
 				realm, err := p.parseString(p.Pos())
 				if err != nil {
@@ -609,7 +609,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			authType := p.current().String
 			_ = p.lexer.consumeToken()
 			auth.AuthType = authType
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.clauseEnd()
 
 			if p.tryConsumeKeywords(KeywordBy) {
 				value, err := p.parseString(p.Pos())
@@ -637,7 +637,7 @@ func (p *Parser) parseHostClause(pos Pos) (*HostClause, error) {
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
 		host.HostType = hostType
-		host.HostEnd = p.current().End
+		host.HostEnd = p.clauseEnd()
 	case p.matchOneOfKeywords(KeywordName, KeywordRegexp, KeywordIp, KeywordLike):
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
@@ -667,7 +667,7 @@ func (p *Parser) parseDefaultRoleClause(pos Pos) (*DefaultRoleClause, error) {
 
 	if p.tryConsumeKeywords(KeywordNone) {
 		defaultRole.None = true
-		defaultRole.DefaultEnd = p.current().End
+		defaultRole.DefaultEnd = p.clauseEnd()
 		return defaultRole, nil
 	}
 
@@ -700,10 +700,10 @@ func (p *Parser) parseGranteesClause(pos Pos) (*GranteesClause, error) {
 
 	if p.tryConsumeKeywords(KeywordAny) {
 		grantees.Any = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.clauseEnd()
 	} else if p.tryConsumeKeywords(KeywordNone) {
 		grantees.None = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.clauseEnd()
 	} else {
 		// Parse list of grantees
 		granteeList := make([]*RoleName, 0)
@@ -825,7 +825,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
 			createUser.DefaultDbNone = true
-			createUser.StatementEnd = p.current().End
+			createUser.StatementEnd = p.clauseEnd()
 		} else {
 			db, err := p.parseIdent()
 			if err != nil {
diff --git a/parser/parser_common.go b/parser/parser_common.go
index 7532601..21f83e2 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -62,6 +62,15 @@ func (p *Parser) End() Pos {
 	return p.current().End
 }
 
+// clauseEnd returns the end of the current token, or the end of the input when
+// no token is left.
+func (p *Parser) clauseEnd() Pos {
+	if p.current() == nil {
+		return p.Pos()
+	}
+	return p.current().End
+}
+
 func (p *Parser) Pos() Pos {
 	last := p.current()
 	if last == nil {
-- 
2.43.0


From eb8e6fc5cafd57d11cfefe7de33c8e379c254b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 03/85] fix: CREATE USER DEFAULT ROLE/DATABASE in lower case or
 cut off after DEFAULT

---
 parser/parse_system.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index e8e112f..2a9d75e 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -808,11 +808,11 @@ func (p *Parser) parseHostClauses() ([]*HostClause, error) {
 
 func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 	nextToken, err := p.lexer.peekToken()
-	if err != nil {
+	if err != nil || nextToken == nil {
 		return false, err
 	}
 
-	if nextToken.String == KeywordRole {
+	if nextToken.ToString() == KeywordRole {
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
 			return false, err
@@ -820,7 +820,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		createUser.DefaultRole = defaultRole
 		createUser.StatementEnd = defaultRole.End()
 		return true, nil
-	} else if nextToken.String == KeywordDatabase {
+	} else if nextToken.ToString() == KeywordDatabase {
 		_ = p.lexer.consumeToken() // consume DEFAULT
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
-- 
2.43.0


From b22e8a90649b48df1a2e8cee7742950718b34621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 04/85] fix: role setting without a value no longer panics

---
 parser/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index b6eb41f..1643079 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -1655,6 +1655,9 @@ func (s *SettingPair) Pos() Pos {
 }
 
 func (s *SettingPair) End() Pos {
+	if s.Value == nil {
+		return s.Name.NameEnd
+	}
 	return s.Value.End()
 }
 
-- 
2.43.0


From a5653d40b6d586e9c3651475ac7b5f43464075a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 05/85] fix: ORDER BY cut off after AS no longer panics

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index a29fd45..9936ddf 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1033,7 +1033,7 @@ func (p *Parser) parseOrderExpr(pos Pos) (*OrderExpr, error) {
 	var alias *Ident
 	if p.matchKeyword(KeywordAs) {
 		// It should be a subquery instead of an order by alias if the `AS` is followed by `SELECT` keyword.
-		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken.ToString() == KeywordSelect {
+		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken != nil && nextToken.ToString() == KeywordSelect {
 			return &OrderExpr{
 				OrderPos: pos,
 				Expr:     columnExpr,
-- 
2.43.0


From af08858a3922bf0cb6ccfb369d7366438045ca47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 06/85] fix: WINDOW clause is formatted where it is parsed,
 after HAVING

---
 parser/format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 752c746..597ec95 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2328,10 +2328,6 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.From)
 	}
-	if s.Window != nil {
-		formatter.Break()
-		formatter.WriteExpr(s.Window)
-	}
 	if s.Prewhere != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.Prewhere)
@@ -2348,6 +2344,10 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.Having)
 	}
+	if s.Window != nil {
+		formatter.Break()
+		formatter.WriteExpr(s.Window)
+	}
 	if s.OrderBy != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.OrderBy)
-- 
2.43.0


From 3a7a9455cba6b1427bf32c29688399d35536669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 07/85] fix: WITH TOTALS without GROUP BY is kept by the
 formatter

---
 parser/format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 597ec95..44791f7 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2340,6 +2340,10 @@ func (s *SelectQuery) FormatSQL(formatter *Formatter) {
 		formatter.Break()
 		formatter.WriteExpr(s.GroupBy)
 	}
+	if s.WithTotal {
+		formatter.Break()
+		formatter.WriteString("WITH TOTALS")
+	}
 	if s.Having != nil {
 		formatter.Break()
 		formatter.WriteExpr(s.Having)
-- 
2.43.0


From 18ae01b947e85aaec438878b7b44c34eebc3c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 08/85] fix: column COMMENT is formatted before CODEC and TTL,
 the order the parser accepts

---
 parser/format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 44791f7..21847d6 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -681,6 +681,10 @@ func (c *ColumnDef) FormatSQL(formatter *Formatter) {
 		formatter.WriteString(" ALIAS ")
 		formatter.WriteExpr(c.AliasExpr)
 	}
+	if c.Comment != nil {
+		formatter.WriteString(" COMMENT ")
+		formatter.WriteExpr(c.Comment)
+	}
 	if c.Codec != nil {
 		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(c.Codec)
@@ -689,10 +693,6 @@ func (c *ColumnDef) FormatSQL(formatter *Formatter) {
 		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(c.TTL)
 	}
-	if c.Comment != nil {
-		formatter.WriteString(" COMMENT ")
-		formatter.WriteExpr(c.Comment)
-	}
 }
 
 func (c *ColumnExpr) FormatSQL(formatter *Formatter) {
-- 
2.43.0


From 9dff5784efdf24b47bb73056b7b001fb5a1ab8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 09/85] fix: CONSTRAINT and CHECK keywords are kept by the
 formatter

---
 parser/format.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index 21847d6..bd3f1eb 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -767,8 +767,9 @@ func (c *CompressionCodec) FormatSQL(formatter *Formatter) {
 }
 
 func (c *ConstraintClause) FormatSQL(formatter *Formatter) {
+	formatter.WriteString("CONSTRAINT ")
 	formatter.WriteExpr(c.Constraint)
-	formatter.WriteByte(whitespace)
+	formatter.WriteString(" CHECK ")
 	formatter.WriteExpr(c.Expr)
 }
 
-- 
2.43.0


From ab01388f8c327b7b08dc0c76f521e20fb6c0dd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 10/85] fix: UUID of CREATE LIVE VIEW is kept by the formatter

---
 parser/format.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index bd3f1eb..12bfd3f 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -859,6 +859,11 @@ func (c *CreateLiveView) FormatSQL(formatter *Formatter) {
 	}
 	formatter.WriteExpr(c.Name)
 
+	if c.UUID != nil {
+		formatter.WriteByte(whitespace)
+		formatter.WriteExpr(c.UUID)
+	}
+
 	if c.OnCluster != nil {
 		formatter.Break()
 		formatter.WriteExpr(c.OnCluster)
-- 
2.43.0


From 6f7fd8f7a41726e0063e844aa7958b812fe4247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 11/85] fix: FUNCTION keyword of INSERT INTO FUNCTION is kept
 by the formatter

---
 parser/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 12bfd3f..282d555 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1691,6 +1691,9 @@ func (i *InsertStmt) FormatSQL(formatter *Formatter) {
 	if i.HasTableKeyword {
 		formatter.WriteString("TABLE ")
 	}
+	if _, ok := i.Table.(*FunctionExpr); ok {
+		formatter.WriteString("FUNCTION ")
+	}
 	formatter.WriteExpr(i.Table)
 	if i.ColumnNames != nil {
 		formatter.Break()
-- 
2.43.0


From bb9775dec6a4d2164d65c9d56c5acddf79438dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:46 +0000
Subject: [PATCH 12/85] fix: DROP USER/ROLE modifier is formatted after FROM,
 where it is parsed

---
 parser/format.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 282d555..422363a 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1444,13 +1444,13 @@ func (d *DropUserOrRole) FormatSQL(formatter *Formatter) {
 		}
 		formatter.WriteExpr(name)
 	}
-	if len(d.Modifier) != 0 {
-		formatter.WriteString(" " + d.Modifier)
-	}
 	if d.From != nil {
 		formatter.WriteString(" FROM ")
 		formatter.WriteExpr(d.From)
 	}
+	if len(d.Modifier) != 0 {
+		formatter.WriteString(" " + d.Modifier)
+	}
 }
 
 func (e *EngineExpr) FormatSQL(formatter *Formatter) {
-- 
2.43.0


From 7bec0de6448d03c168b3679fdf644d4bd1c34a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 13/85] fix: SYSTEM START/STOP DISTRIBUTED consumes the keyword
 naming what to start or stop

---
 parser/parse_system.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 2a9d75e..db3675f 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -157,14 +157,14 @@ func (p *Parser) parseSystemCtrlExpr(pos Pos) (*SystemCtrlExpr, error) {
 	switch {
 	case p.tryConsumeKeywords(KeywordDistributed):
 		switch {
-		case p.matchKeyword(KeywordSends):
+		case p.tryConsumeKeywords(KeywordSends):
 			typ = "DISTRIBUTED SENDS"
-		case p.matchKeyword(KeywordFetches):
-			typ = "FETCHES"
-		case p.matchKeyword(KeywordMerges):
-			typ = "MERGES"
-		case p.matchKeyword(KeywordTtl):
-			typ = "TTL MERGES"
+		case p.tryConsumeKeywords(KeywordFetches):
+			typ = "DISTRIBUTED FETCHES"
+		case p.tryConsumeKeywords(KeywordMerges):
+			typ = "DISTRIBUTED MERGES"
+		case p.tryConsumeKeywords(KeywordTtl):
+			typ = "DISTRIBUTED TTL MERGES"
 			if err := p.expectKeyword(KeywordMerges); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From c5aa5dd796b36c1ce6222d7a5ec694b095fdf7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 14/85] fix: SYSTEM FLUSH DISTRIBUTED and SYNC REPLICA keywords
 are kept by the formatter

---
 parser/format.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index 422363a..cfafa66 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2520,6 +2520,7 @@ func (s *SystemFlushExpr) FormatSQL(formatter *Formatter) {
 	if s.Logs {
 		formatter.WriteString("LOGS")
 	} else {
+		formatter.WriteString("DISTRIBUTED ")
 		formatter.WriteExpr(s.Distributed)
 	}
 }
@@ -2544,7 +2545,7 @@ func (s *SystemStmt) FormatSQL(formatter *Formatter) {
 }
 
 func (s *SystemSyncExpr) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("SYNC ")
+	formatter.WriteString("SYNC REPLICA ")
 	formatter.WriteExpr(s.Cluster)
 }
 
-- 
2.43.0


From 04fb0c1ed2dbab05617cbdc904628d323a27250a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 15/85] fix: GRANT SYSTEM privileges are recorded as SYSTEM,
 not SHOW

---
 parser/parse_system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index db3675f..cfcf3d9 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1137,7 +1137,7 @@ func (p *Parser) parsePrivilegeShow(pos Pos) (*PrivilegeClause, error) {
 }
 
 func (p *Parser) parsePrivilegeSystem(pos Pos) (*PrivilegeClause, error) {
-	keywords := []string{KeywordShow}
+	keywords := []string{KeywordSystem}
 	switch {
 	case p.matchOneOfKeywords(KeywordShutdown, KeywordMerges, KeywordFetches, KeywordSends, KeywordMoves, KeywordCluster):
 		keyword := p.current().String
-- 
2.43.0


From 105ef98c6d49cdf00df627dae4208ef226ce0163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:06 +0000
Subject: [PATCH 16/85] fix: GRANT ALTER ... INDEX privilege no longer gains a
 CONSTRAINT keyword

---
 parser/parse_system.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index cfcf3d9..05ac709 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1033,6 +1033,7 @@ func (p *Parser) parsePrivilegeAlter(pos Pos) (*PrivilegeClause, error) {
 			keywords = append(keywords, KeywordColumn)
 		case p.tryConsumeKeywords(KeywordIndex):
 			keywords = append(keywords, KeywordIndex)
+		case p.tryConsumeKeywords(KeywordConstraint):
 			keywords = append(keywords, KeywordConstraint)
 		case p.tryConsumeKeywords(KeywordTtl):
 			keywords = append(keywords, KeywordTtl)
-- 
2.43.0


From 7bdda79e2c81f3c2c70d2b465254d8888c05b1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 17/85] fix: GRANT ON CLUSTER is formatted with a space before
 the privileges

---
 parser/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index cfafa66..589773b 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1568,8 +1568,8 @@ func (g *GlobalInOperation) FormatSQL(formatter *Formatter) {
 func (g *GrantPrivilegeStmt) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("GRANT ")
 	if g.OnCluster != nil {
-		formatter.WriteByte(whitespace)
 		formatter.WriteExpr(g.OnCluster)
+		formatter.WriteByte(whitespace)
 	}
 	for i, privilege := range g.Privileges {
 		if i > 0 {
-- 
2.43.0


From 83b62d483e932fa37a11e65fef301d8ba98d5bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 18/85] fix: trailing one-token statement is parsed instead of
 dropped

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 9936ddf..e515e4c 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1551,7 +1551,7 @@ func (p *Parser) ParseStmts() ([]Expr, error) {
 		if err := p.lexer.consumeToken(); err != nil {
 			return nil, p.wrapError(err)
 		}
-		if p.lexer.isEOF() {
+		if p.current() == nil {
 			break
 		}
 		if p.matchTokenKind(";") {
-- 
2.43.0


From 9f9502f7b379ad174c00036d1f9f68504fbd7fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 19/85] fix: unclosed quoted identifier or comment after a
 complete statement is an error

---
 parser/lexer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 96df452..54cbad2 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -216,7 +216,10 @@ func (l *Lexer) consumeIdent(_ Pos) error {
 		}
 		if !l.peekOk(i) || (quoteType == BackTicks && l.peekN(i) != '`') ||
 			(quoteType == DoubleQuote && l.peekN(i) != '"') {
-			return fmt.Errorf("unclosed quoted identifier: %s", l.slice(0, i))
+			err := fmt.Errorf("unclosed quoted identifier: %s", l.slice(0, i))
+			// stay at the opening quote, so that the next token fails as well
+			l.skipN(-1)
+			return err
 		}
 	}
 	slice := l.slice(0, i)
@@ -252,8 +255,7 @@ func (l *Lexer) consumeSingleLineComment() {
 }
 
 func (l *Lexer) consumeMultiLineComment() error {
-	l.skipN(2)
-	i := 0
+	i := 2
 	for l.peekOk(i) {
 		if l.peekOk(i+1) && l.peekN(i) == '*' && l.peekN(i+1) == '/' {
 			l.skipN(i + 2)
@@ -261,7 +263,7 @@ func (l *Lexer) consumeMultiLineComment() error {
 		}
 		i++
 	}
-	l.skipN(i)
+	// stay at the start of the comment, so that the next token fails as well
 	return errors.New("unclosed multi-line comment")
 }
 
-- 
2.43.0


From e8ad776d50b7be360dece3f82cad8a013ecf5dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 20/85] fix: ALTER TABLE with a one-token or missing last
 action

---
 parser/parser_alter.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 9523f01..c9467b1 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -25,7 +25,7 @@ func (p *Parser) parseAlterTable(pos Pos) (*AlterTable, error) {
 	}
 	alterTable.OnCluster = onCluster
 
-	for !p.lexer.isEOF() {
+	for {
 		var alter AlterTableClause
 		switch {
 		case p.matchKeyword(KeywordAdd):
@@ -71,9 +71,6 @@ func (p *Parser) parseAlterTable(pos Pos) (*AlterTable, error) {
 			break
 		}
 	}
-	if len(alterTable.AlterExprs) == 0 {
-		return nil, errors.New("expected token: ADD|DROP")
-	}
 	alterTable.StatementEnd = alterTable.AlterExprs[len(alterTable.AlterExprs)-1].End()
 
 	return alterTable, nil
-- 
2.43.0


From 90daee4f469532b1405fe68ce016f1ef9b0aaf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 21/85] fix: trailing comma after the last VALUES row is
 rejected at end of input

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index e515e4c..f8bf5b3 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1944,7 +1944,7 @@ func (p *Parser) parseInsertStmt(pos Pos) (*InsertStmt, error) {
 		// consume VALUES keyword
 		_ = p.lexer.consumeToken()
 		values := make([]*AssignmentValues, 0)
-		for !p.lexer.isEOF() {
+		for {
 			value, err := p.parseAssignmentValues(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 8136534019ef66db32ab77604e1be4a591e39036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 22/85] fix: named collection without parameters or with a
 trailing comma is rejected at end of input

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index f8bf5b3..b78aa38 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -228,7 +228,7 @@ func (p *Parser) parseCreateNamedCollection(pos Pos) (*CreateNamedCollection, er
 
 	// parse parameters
 	params := make([]*NamedCollectionParam, 0)
-	for !p.lexer.isEOF() {
+	for {
 		param, err := p.parseNamedCollectionParam(p.Pos())
 		if err != nil {
 			return nil, err
-- 
2.43.0


From dcf8a1050caf260b14cf60cf8abf29a82cc6e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 23/85] fix: column name and value lists no longer accept or
 require an extra parenthesis

---
 parser/parser_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index b78aa38..62c498a 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1818,7 +1818,7 @@ func (p *Parser) parseColumnNamesExpr(pos Pos) (*ColumnNamesExpr, error) {
 	}
 
 	var columnNames []NestedIdentifier
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for len(columnNames) > 0 || !p.matchTokenKind(TokenKindRParen) {
 		name, err := p.ParseNestedIdentifier(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1876,7 +1876,7 @@ func (p *Parser) parseAssignmentValues(pos Pos) (*AssignmentValues, error) {
 	var value Expr
 	var err error
 	values := make([]Expr, 0)
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for len(values) > 0 || !p.matchTokenKind(TokenKindRParen) {
 		switch {
 		case p.matchTokenKind(TokenKindLParen):
 			value, err = p.parseAssignmentValues(p.Pos())
-- 
2.43.0


From d4f5e798ddc79be9b5a0eff6721e38df26c72c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:40 +0000
Subject: [PATCH 24/85] fix: End of PARTITION ALL no longer panics

---
 parser/ast.go          | 5 +++++
 parser/parser_alter.go | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index 1643079..335720a 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2316,6 +2316,8 @@ type PartitionClause struct {
 	Expr         Expr
 	ID           *StringLiteral
 	All          bool
+
+	allEnd Pos // end of the ALL keyword
 }
 
 func (p *PartitionClause) Pos() Pos {
@@ -2326,6 +2328,9 @@ func (p *PartitionClause) End() Pos {
 	if p.ID != nil {
 		return p.ID.LiteralEnd
 	}
+	if p.All {
+		return p.allEnd
+	}
 	return p.Expr.End()
 }
 
diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index c9467b1..be9b779 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -372,8 +372,10 @@ func (p *Parser) parsePartitionClause(pos Pos) (*PartitionClause, error) {
 			return nil, err
 		}
 		partition.ID = id
-	} else if p.tryConsumeKeywords(KeywordAll) {
+	} else if p.matchKeyword(KeywordAll) {
 		partition.All = true
+		partition.allEnd = p.End()
+		_ = p.lexer.consumeToken()
 	} else {
 		expr, err := p.parseExpr(p.Pos())
 		if err != nil {
-- 
2.43.0


From 33b77f4ac9f43d253f59c68f1dc74cf2e9e59af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:51 +0000
Subject: [PATCH 25/85] fix: End of CHECK TABLE without a partition no longer
 panics

---
 parser/ast.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index 335720a..1558716 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -6232,6 +6232,9 @@ func (c *CheckStmt) Pos() Pos {
 }
 
 func (c *CheckStmt) End() Pos {
+	if c.Partition == nil {
+		return c.Table.End()
+	}
 	return c.Partition.End()
 }
 
-- 
2.43.0


From e719c7cc9adb1d4eefb9afb331f658c848fc8576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:01 +0000
Subject: [PATCH 26/85] fix: ADD INDEX IF NOT EXISTS is formatted in the order
 it is parsed

---
 parser/format.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 589773b..6dfd8c5 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -249,11 +249,11 @@ func (a *AlterTableAddColumn) FormatSQL(formatter *Formatter) {
 }
 
 func (a *AlterTableAddIndex) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("ADD ")
+	formatter.WriteString("ADD INDEX ")
 	if a.IfNotExists {
 		formatter.WriteString("IF NOT EXISTS ")
 	}
-	formatter.WriteExpr(a.Index)
+	a.Index.formatDefinition(formatter)
 	if a.After != nil {
 		formatter.WriteString(" AFTER ")
 		formatter.WriteExpr(a.After)
@@ -2640,6 +2640,11 @@ func (t *TableIdentifier) FormatSQL(formatter *Formatter) {
 func (a *TableIndex) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("INDEX")
 	formatter.WriteByte(whitespace)
+	a.formatDefinition(formatter)
+}
+
+// formatDefinition writes what follows the INDEX keyword.
+func (a *TableIndex) formatDefinition(formatter *Formatter) {
 	formatter.WriteExpr(a.Name)
 	// Add space only if column expression doesn't start with '('
 	columnExprStr := Format(a.ColumnExpr)
-- 
2.43.0


From bd49f4c86b258c57d3b56f2a1ea8aaf4dc7bec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 27/85] fix: engine ORDER BY / PARTITION BY no longer read the
 query after AS as an alias

---
 parser/parser_table.go | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 62c498a..ebca8fe 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -922,7 +922,7 @@ func (p *Parser) tryParsePartitionByClause(pos Pos) (*PartitionByClause, error)
 	}
 
 	// parse partition key list
-	columnExpr, err := p.parseColumnExprListWithLParen(p.Pos())
+	columnExpr, err := p.parsePartitionKeyList(p.Pos())
 	if err != nil {
 		return nil, err
 	}
@@ -932,6 +932,38 @@ func (p *Parser) tryParsePartitionByClause(pos Pos) (*PartitionByClause, error)
 	}, nil
 }
 
+// parsePartitionKeyList parses the expressions of a table's partition key. An
+// AS after an expression gives an alias unless a query follows, as in
+// CREATE TABLE t ENGINE = MergeTree PARTITION BY a AS SELECT ...
+func (p *Parser) parsePartitionKeyList(pos Pos) (*ColumnExprList, error) {
+	list := &ColumnExprList{ListPos: pos}
+	for {
+		expr, err := p.parseExpr(p.Pos())
+		if err != nil {
+			return nil, err
+		}
+		column := &ColumnExpr{Expr: expr}
+		if p.matchKeyword(KeywordAs) && !p.peekQuery() {
+			_ = p.lexer.consumeToken()
+			// after AS the token can only be an alias name, reserved keyword or not
+			column.Alias, err = p.parseAnyKeyword()
+			if err != nil {
+				return nil, err
+			}
+		}
+		list.Items = append(list.Items, column)
+		list.ListEnd = column.End()
+		if p.tryConsumeTokenKind(TokenKindComma) == nil {
+			return list, nil
+		}
+	}
+}
+
+// peekQuery reports whether a query starts after the current token.
+func (p *Parser) peekQuery() bool {
+	return p.peekKeyword(KeywordSelect) || p.peekKeyword(KeywordWith) || p.peekTokenKind(TokenKindLParen)
+}
+
 func (p *Parser) tryParsePrimaryKeyClause(pos Pos) (*PrimaryKeyClause, error) {
 	if !p.tryConsumeKeywords(KeywordPrimary) {
 		return nil, nil // nolint
@@ -1032,8 +1064,8 @@ func (p *Parser) parseOrderExpr(pos Pos) (*OrderExpr, error) {
 
 	var alias *Ident
 	if p.matchKeyword(KeywordAs) {
-		// It should be a subquery instead of an order by alias if the `AS` is followed by `SELECT` keyword.
-		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken != nil && nextToken.ToString() == KeywordSelect {
+		// It should be a subquery instead of an order by alias if a query follows the `AS`.
+		if p.peekQuery() {
 			return &OrderExpr{
 				OrderPos: pos,
 				Expr:     columnExpr,
-- 
2.43.0


From e09aca5092c01598935aacc79a8a7fd99c745718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 28/85] fix: formatting a dictionary source argument with a
 function no longer panics

---
 parser/parser_table.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index ebca8fe..9e7b933 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -2416,12 +2416,19 @@ func (p *Parser) parseDictionaryArgExpr(pos Pos) (*DictionaryArgExpr, error) {
 		}
 		// Check if it's followed by optional parentheses
 		if p.matchTokenKind(TokenKindLParen) {
+			leftParenPos := p.Pos()
 			_ = p.lexer.consumeToken() // consume (
+			rightParenPos := p.Pos()
 			if err := p.expectTokenKind(TokenKindRParen); err != nil {
 				return nil, err
 			}
 			value = &FunctionExpr{
 				Name: ident,
+				Params: &ParamExprList{
+					LeftParenPos:  leftParenPos,
+					RightParenPos: rightParenPos,
+					Items:         &ColumnExprList{ListPos: rightParenPos, ListEnd: rightParenPos},
+				},
 			}
 		} else {
 			value = ident
-- 
2.43.0


From 5fbc4e21d7d0829f9720d10e4bac9d8dcc3c019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 29/85] fix: IN without PARTITION is rejected in ALTER TABLE
 CLEAR and MATERIALIZE

---
 parser/parser_alter.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index be9b779..1297906 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -565,13 +565,11 @@ func (p *Parser) parseAlterTableClearClause(pos Pos) (AlterTableClause, error) {
 
 	var partition *PartitionClause
 	if p.tryConsumeKeywords(KeywordIn) {
-		partition, err = p.tryParsePartitionClause(p.Pos())
+		partition, err = p.parsePartitionClause(p.Pos())
 		if err != nil {
 			return nil, err
 		}
-		if partition != nil {
-			statementEnd = partition.End()
-		}
+		statementEnd = partition.End()
 	}
 
 	if kind == KeywordProjection {
@@ -818,7 +816,7 @@ func (p *Parser) parseAlterTableMaterialize(pos Pos) (AlterTableClause, error) {
 	statementEnd := name.End()
 	var partition *PartitionClause
 	if p.tryConsumeKeywords(KeywordIn) {
-		partition, err = p.tryParsePartitionClause(p.Pos())
+		partition, err = p.parsePartitionClause(p.Pos())
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From fe90b2070f2712b9fa15914f365d3636cf42ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 30/85] fix: type with a string parameter cut off at end of
 input no longer panics

---
 parser/parser_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index ad53333..fcc9eb1 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1311,7 +1311,7 @@ func (p *Parser) parseColumnTypeArgs(ident *Ident) (ColumnType, error) { // noli
 				return p.parseComplexType(ident, p.Pos())
 			}
 		case p.matchTokenKind(TokenKindString):
-			if peekToken, err := p.lexer.peekToken(); err == nil && peekToken.Kind == TokenKindSingleEQ {
+			if peekToken, err := p.lexer.peekToken(); err == nil && peekToken != nil && peekToken.Kind == TokenKindSingleEQ {
 				// enum values
 				return p.parseEnumType(ident, p.Pos())
 			}
-- 
2.43.0


From e9715707f73564050de5fad6010136ce379263e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 31/85] fix: '+>' is no longer read as a lambda arrow

---
 parser/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 54cbad2..b6082c9 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -389,7 +389,7 @@ func (l *Lexer) consumeToken() error {
 		// hasPrecedenceToken is used to distinguish between unary and binary operators
 		if !l.hasPrecedenceToken(prevToken) && l.peekOk(1) && IsDigit(l.peekN(1)) {
 			return l.consumeNumber()
-		} else if l.peekOk(1) && l.peekN(1) == '>' {
+		} else if l.peekN(0) == '-' && l.peekOk(1) && l.peekN(1) == '>' {
 			l.currentToken = &Token{
 				String: l.slice(0, 2),
 				Kind:   TokenKindArrow,
-- 
2.43.0


From 828f1e398464598949e13608abff5e9d5611c1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 32/85] fix: column property keywords of a column without a
 type are not read as its type

---
 parser/parser_table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 9e7b933..82039d9 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -677,7 +677,8 @@ func (p *Parser) parseTableColumnExpr(pos Pos) (*ColumnDef, error) {
 	column.Name = name
 	columnEnd := name.End()
 
-	if p.matchTokenKind(TokenKindIdent) && !p.matchKeyword(KeywordRemove) {
+	if p.matchTokenKind(TokenKindIdent) && !p.matchOneOfKeywords(KeywordRemove, KeywordNull, KeywordDefault,
+		KeywordMaterialized, KeywordAlias, KeywordComment, KeywordCodec, KeywordTtl) {
 		columnType, err := p.parseColumnType(p.Pos())
 		if err != nil {
 			return nil, err
-- 
2.43.0


From d07d7477ea11b6a521c12ef819c6a61676ba578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 33/85] fix: SYSTEM DROP ... CACHE is recorded in upper case

---
 parser/parse_system.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 05ac709..9e96a1a 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -218,7 +218,7 @@ func (p *Parser) parseSystemDropExpr(pos Pos) (*SystemDropExpr, error) {
 		return &SystemDropExpr{
 			DropPos:      pos,
 			StatementEnd: curToken.End,
-			Type:         prefixToken.String + " CACHE",
+			Type:         strings.ToUpper(prefixToken.String) + " CACHE",
 		}, nil
 	case p.matchKeyword(KeywordCompiled):
 		_ = p.lexer.consumeToken()
-- 
2.43.0


From 2ac4dd7e940b9816c3807bdcaaaf7293aceef441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 34/85] fix: empty column definitions between commas are
 rejected

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 82039d9..3633a10 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -647,7 +647,7 @@ func (p *Parser) parseTableColumns() ([]Expr, error) {
 				return nil, err
 			}
 			if column == nil {
-				break
+				return columns, nil
 			}
 			columns = append(columns, column)
 		}
-- 
2.43.0


From cb8d4e056b3a17a15cc724f719e92e30009bb163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 35/85] fix: beautified literals and quoted names with line
 breaks keep their text

---
 parser/format.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 6dfd8c5..2de2f76 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -60,6 +60,15 @@ func (f *Formatter) WriteString(s string) {
 	}
 }
 
+// writeVerbatim writes text that may contain line breaks of its own, such as
+// the inside of a literal, without indenting its lines.
+func (f *Formatter) writeVerbatim(s string) {
+	if f.mode == FormatModeBeautify {
+		f.writeIndentIfNeeded()
+	}
+	f.builder.WriteString(s)
+}
+
 func (f *Formatter) WriteByte(b byte) {
 	if f.mode == FormatModeBeautify {
 		if b == newline {
@@ -1665,15 +1674,15 @@ func (i *Ident) FormatSQL(formatter *Formatter) {
 	switch i.QuoteType {
 	case BackTicks:
 		formatter.WriteByte('`')
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 		formatter.WriteByte('`')
 	case DoubleQuote:
 		formatter.WriteByte('"')
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 		formatter.WriteByte('"')
 	case SingleQuote:
 		formatter.WriteByte('\'')
-		formatter.WriteString(i.Name)
+		formatter.writeVerbatim(i.Name)
 		formatter.WriteByte('\'')
 	default:
 		formatter.WriteString(i.Name)
@@ -2486,7 +2495,7 @@ func (s *ShowStmt) FormatSQL(formatter *Formatter) {
 
 func (s *StringLiteral) FormatSQL(formatter *Formatter) {
 	formatter.WriteByte('\'')
-	formatter.WriteString(s.Literal)
+	formatter.writeVerbatim(s.Literal)
 	formatter.WriteByte('\'')
 }
 
@@ -2651,7 +2660,7 @@ func (a *TableIndex) formatDefinition(formatter *Formatter) {
 	if len(columnExprStr) > 0 && columnExprStr[0] != '(' {
 		formatter.WriteByte(whitespace)
 	}
-	formatter.WriteString(columnExprStr)
+	formatter.writeVerbatim(columnExprStr)
 	formatter.WriteByte(whitespace)
 	formatter.WriteString("TYPE")
 	formatter.WriteByte(whitespace)
-- 
2.43.0


From 018162eaa4df5447113d36303a90d05c3c0bb721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 36/85] fix: column list of INSERT INTO FUNCTION is not read as
 function arguments

---
 parser/parser_column.go | 37 ++++++++++++++++++++++---------------
 parser/parser_table.go  | 20 +++++++++++++++++++-
 2 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index fcc9eb1..b22692a 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -808,8 +808,7 @@ func (p *Parser) parseInterval(requireKeyword bool) (*IntervalExpr, error) {
 
 func (p *Parser) parseFunctionExpr(_ Pos) (*FunctionExpr, error) {
 	// parse function name; callers gate entry (select-item modifiers match
-	// EXCEPT/APPLY/REPLACE first, INSERT INTO FUNCTION follows the FUNCTION
-	// keyword), so even reserved keywords are valid names here.
+	// EXCEPT/APPLY/REPLACE first), so even reserved keywords are valid names here.
 	name, err := p.parseAnyKeyword()
 	if err != nil {
 		return nil, err
@@ -1041,22 +1040,10 @@ func (p *Parser) parseKeywordArgFunctionParams(pos Pos, form keywordArgForm) (*P
 }
 
 func (p *Parser) parseFunctionParams(pos Pos) (*ParamExprList, error) {
-	if err := p.expectTokenKind(TokenKindLParen); err != nil {
-		return nil, err
-	}
-	params, err := p.parseColumnExprListWithLParen(p.Pos())
+	paramExprList, err := p.parseSingleFunctionParams(pos)
 	if err != nil {
 		return nil, err
 	}
-	rightParenPos := p.Pos()
-	if err := p.expectTokenKind(TokenKindRParen); err != nil {
-		return nil, err
-	}
-	paramExprList := &ParamExprList{
-		LeftParenPos:  pos,
-		RightParenPos: rightParenPos,
-		Items:         params,
-	}
 
 	// For some aggregate functions might support parametric arguments:
 	// e.g. QUANTILE(0.5)(x) or QUANTILE(0.5, 0.9)(x).
@@ -1071,6 +1058,26 @@ func (p *Parser) parseFunctionParams(pos Pos) (*ParamExprList, error) {
 	return paramExprList, nil
 }
 
+// parseSingleFunctionParams parses one parenthesized parameter list.
+func (p *Parser) parseSingleFunctionParams(pos Pos) (*ParamExprList, error) {
+	if err := p.expectTokenKind(TokenKindLParen); err != nil {
+		return nil, err
+	}
+	params, err := p.parseColumnExprListWithLParen(p.Pos())
+	if err != nil {
+		return nil, err
+	}
+	rightParenPos := p.Pos()
+	if err := p.expectTokenKind(TokenKindRParen); err != nil {
+		return nil, err
+	}
+	return &ParamExprList{
+		LeftParenPos:  pos,
+		RightParenPos: rightParenPos,
+		Items:         params,
+	}, nil
+}
+
 func (p *Parser) parseMapLiteral(pos Pos) (*MapLiteral, error) {
 	if err := p.expectTokenKind(TokenKindLBrace); err != nil {
 		return nil, err
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 3633a10..34246d0 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1953,7 +1953,7 @@ func (p *Parser) parseInsertStmt(pos Pos) (*InsertStmt, error) {
 	var table Expr
 	var err error
 	if p.tryConsumeKeywords(KeywordFunction) {
-		table, err = p.parseFunctionExpr(p.Pos())
+		table, err = p.parseInsertFunctionExpr()
 	} else {
 		table, err = p.parseTableIdentifier(p.Pos())
 	}
@@ -2000,6 +2000,24 @@ func (p *Parser) parseInsertStmt(pos Pos) (*InsertStmt, error) {
 	return insertExpr, nil
 }
 
+// parseInsertFunctionExpr parses the table function of INSERT INTO FUNCTION. A
+// second parenthesized list names the columns to insert into.
+func (p *Parser) parseInsertFunctionExpr() (*FunctionExpr, error) {
+	// after FUNCTION the token can only be a name, reserved keyword or not
+	name, err := p.parseAnyKeyword()
+	if err != nil {
+		return nil, err
+	}
+	params, err := p.parseSingleFunctionParams(p.Pos())
+	if err != nil {
+		return nil, err
+	}
+	return &FunctionExpr{
+		Name:   name,
+		Params: params,
+	}, nil
+}
+
 func (p *Parser) parseRenameStmt(pos Pos) (*RenameStmt, error) {
 	if err := p.expectKeyword(KeywordRename); err != nil {
 		return nil, err
-- 
2.43.0


From 5f83ee3b4b16b6d1fe25cbbc0796ba1943eafdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 37/85] fix: CREATE USER clauses after SETTINGS are not read as
 settings

---
 parser/parse_system.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 9e96a1a..9f647b3 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -432,7 +432,7 @@ func (p *Parser) tryParseRoleSettings(pos Pos) ([]*RoleSetting, error) {
 
 func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 	pairs := make([]*SettingPair, 0)
-	for p.matchTokenKind(TokenKindIdent) {
+	for p.matchTokenKind(TokenKindIdent) && !p.matchUserClause() {
 		name, err := p.parseIdent()
 		if err != nil {
 			return nil, err
@@ -480,6 +480,13 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 	}, nil
 }
 
+// matchUserClause reports whether a clause of CREATE USER, rather than the name
+// of a setting, starts at the current token.
+func (p *Parser) matchUserClause() bool {
+	return p.matchOneOfKeywords(KeywordIdentified, KeywordValid, KeywordHost, KeywordDefault, KeywordGrantees) &&
+		!p.peekTokenKind(TokenKindSingleEQ)
+}
+
 func (p *Parser) parseRoleSettings(_ Pos) ([]*RoleSetting, error) {
 	settings := make([]*RoleSetting, 0)
 	for {
-- 
2.43.0


From c0850245a5336c15591a58875b99da1e639e04bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 38/85] fix: empty role setting is rejected

---
 parser/parse_system.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 9f647b3..53541d3 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -475,6 +475,9 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		}
 
 	}
+	if len(pairs) == 0 {
+		return nil, fmt.Errorf("expected setting name, but got %q", p.currentTokenString())
+	}
 	return &RoleSetting{
 		SettingPairs: pairs,
 	}, nil
-- 
2.43.0


From 7480ae34cceed4ed49885865135068ecd74b600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 39/85] fix: COMMENT after the query of a materialized view is
 not its column alias

---
 parser/parser_column.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index b22692a..a97f3e4 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1212,6 +1212,9 @@ func (p *Parser) parseSelectItem() (*SelectItem, error) {
 		if err != nil {
 			return nil, err
 		}
+	case p.matchKeyword(KeywordComment) && p.peekTokenKind(TokenKindString):
+		// COMMENT '...' of the statement around the query, not an alias.
+		alias = nil
 	case p.matchTokenKind(TokenKindIdent) && !p.isSelectItemTerminatorKeyword():
 		// A bare alias can be a normal identifier or non-reserved keyword; a
 		// reserved keyword here starts the next clause (e.g. `SELECT a FROM ...`).
-- 
2.43.0


From cf877192b479ab27bdc9eb2f514efb413163b27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:40 +0000
Subject: [PATCH 40/85] fix: looking ahead at a malformed token keeps the
 current one

---
 parser/lexer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index b6082c9..4659725 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -337,12 +337,13 @@ func (l *Lexer) skipComments() error {
 
 func (l *Lexer) peekToken() (*Token, error) {
 	savedState := l.saveState()
-	if err := l.consumeToken(); err != nil {
-		return nil, err
-	}
+	err := l.consumeToken()
 	token := l.currentToken
 
 	l.restoreState(savedState)
+	if err != nil {
+		return nil, err
+	}
 	return token, nil
 }
 
-- 
2.43.0


From 2f31749cbe19d163c4c9fb1f0aa450a77a119673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:31 +0000
Subject: [PATCH 41/85] fix: DISTINCT of a parametric call's arguments kept

---
 parser/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 2de2f76..024da17 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -658,6 +658,9 @@ func (o *ClusterClause) FormatSQL(formatter *Formatter) {
 
 func (c *ColumnArgList) FormatSQL(formatter *Formatter) {
 	formatter.WriteByte('(')
+	if c.Distinct {
+		formatter.WriteString("DISTINCT ")
+	}
 	for i, item := range c.Items {
 		if i > 0 {
 			formatter.WriteString(", ")
-- 
2.43.0


From a4083cfe86478a5a183167bf8c2fada4e0a1641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 42/85] fix: USING keeps its parentheses where they matter

---
 parser/format.go | 42 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index 024da17..b0f0a41 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1912,7 +1912,12 @@ func writeJoinSQL(formatter *Formatter, expr Expr) {
 		formatter.WriteExpr(joinExpr.Left)
 		if joinExpr.Constraints != nil {
 			formatter.WriteByte(whitespace)
-			formatter.WriteExpr(joinExpr.Constraints)
+			if using, ok := joinExpr.Constraints.(*UsingClause); ok && isCommaJoin(joinExpr.Right) {
+				// without parentheses the next table would be read as one more column
+				using.writeSQL(formatter, true)
+			} else {
+				formatter.WriteExpr(joinExpr.Constraints)
+			}
 		}
 		formatter.Dedent()
 	}
@@ -1921,6 +1926,14 @@ func writeJoinSQL(formatter *Formatter, expr Expr) {
 	}
 }
 
+func isCommaJoin(right Expr) bool {
+	if right == nil {
+		return false
+	}
+	joinExpr, ok := right.(*JoinExpr)
+	return !ok || len(joinExpr.Modifiers) == 0
+}
+
 func (j *JoinTableExpr) FormatSQL(formatter *Formatter) {
 	formatter.WriteExpr(j.Table)
 	if j.SampleRatio != nil {
@@ -2791,8 +2804,35 @@ func (u *UseStmt) FormatSQL(formatter *Formatter) {
 }
 
 func (u *UsingClause) FormatSQL(formatter *Formatter) {
+	u.writeSQL(formatter, !u.isNameList())
+}
+
+// isNameList reports whether the columns are plain names, so that the list
+// can be written without parentheses.
+func (u *UsingClause) isNameList() bool {
+	for _, item := range u.Using.Items {
+		columnExpr, ok := item.(*ColumnExpr)
+		if !ok {
+			return false
+		}
+		switch columnExpr.Expr.(type) {
+		case *Ident, *NestedIdentifier, *Path:
+		default:
+			return false
+		}
+	}
+	return true
+}
+
+func (u *UsingClause) writeSQL(formatter *Formatter, paren bool) {
 	formatter.WriteString("USING ")
+	if paren {
+		formatter.WriteByte('(')
+	}
 	formatter.WriteExpr(u.Using)
+	if paren {
+		formatter.WriteByte(')')
+	}
 }
 
 func (w *WhenClause) FormatSQL(formatter *Formatter) {
-- 
2.43.0


From cbc80a8f0bc6a7542b101b43250fd84ef6b41dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:52 +0000
Subject: [PATCH 43/85] fix: engine ORDER BY and PARTITION BY stop before AS
 table function

---
 parser/parser_table.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 34246d0..69cae88 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -960,9 +960,18 @@ func (p *Parser) parsePartitionKeyList(pos Pos) (*ColumnExprList, error) {
 	}
 }
 
-// peekQuery reports whether a query starts after the current token.
+// peekQuery reports whether a query or a table function starts after the
+// current token (AS).
 func (p *Parser) peekQuery() bool {
-	return p.peekKeyword(KeywordSelect) || p.peekKeyword(KeywordWith) || p.peekTokenKind(TokenKindLParen)
+	if p.peekKeyword(KeywordSelect) || p.peekKeyword(KeywordWith) || p.peekTokenKind(TokenKindLParen) {
+		return true
+	}
+	savedState := p.lexer.saveState()
+	defer p.lexer.restoreState(savedState)
+	if p.lexer.consumeToken() != nil || !p.matchTokenKind(TokenKindIdent) {
+		return false
+	}
+	return p.peekTokenKind(TokenKindLParen)
 }
 
 func (p *Parser) tryParsePrimaryKeyClause(pos Pos) (*PrimaryKeyClause, error) {
-- 
2.43.0


From cb5ea70d12e729f37e829aedeb908c432df30a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:22 +0000
Subject: [PATCH 44/85] fix: WITH TIMEOUT without a number is formatted without
 a trailing space

---
 parser/format.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index b0f0a41..7905792 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -2957,10 +2957,14 @@ func (w *WithClause) FormatSQL(formatter *Formatter) {
 }
 
 func (w *WithTimeoutClause) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("WITH TIMEOUT ")
+	formatter.WriteString("WITH TIMEOUT")
 	if w.Number != nil {
+		formatter.WriteByte(' ')
 		formatter.WriteExpr(w.Number)
 		return
 	}
-	formatter.WriteExpr(w.Expr)
+	if w.Expr != nil {
+		formatter.WriteByte(' ')
+		formatter.WriteExpr(w.Expr)
+	}
 }
-- 
2.43.0


From 055c174d481a7f47977309d2ea3675469f809fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:44 +0000
Subject: [PATCH 45/85] fix: RENAME passes its target pairs to visitors and
 walks

---
 parser/ast.go  | 5 +----
 parser/walk.go | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 1558716..c57ce5f 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -6300,10 +6300,7 @@ func (r *RenameStmt) Accept(visitor ASTVisitor) error {
 	visitor.Enter(r)
 	defer visitor.Leave(r)
 	for _, pair := range r.TargetPairList {
-		if err := pair.Old.Accept(visitor); err != nil {
-			return err
-		}
-		if err := pair.New.Accept(visitor); err != nil {
+		if err := pair.Accept(visitor); err != nil {
 			return err
 		}
 	}
diff --git a/parser/walk.go b/parser/walk.go
index e129a35..db1cdbb 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -593,10 +593,7 @@ func Walk(node Expr, fn WalkFunc) bool {
 		}
 	case *RenameStmt:
 		for _, pair := range n.TargetPairList {
-			if !Walk(pair.Old, fn) {
-				return false
-			}
-			if !Walk(pair.New, fn) {
+			if !Walk(pair, fn) {
 				return false
 			}
 		}
-- 
2.43.0


From 4bfebaf60a113074f6ecb2c43ecabf16d735c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:54 +0000
Subject: [PATCH 46/85] fix: keys of a map literal are visited and walked in
 place, not as copies

---
 parser/ast.go  | 3 ++-
 parser/walk.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index c57ce5f..42d0dd2 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2907,7 +2907,8 @@ func (m *MapLiteral) End() Pos {
 func (m *MapLiteral) Accept(visitor ASTVisitor) error {
 	visitor.Enter(m)
 	defer visitor.Leave(m)
-	for _, kv := range m.KeyValues {
+	for i := range m.KeyValues {
+		kv := &m.KeyValues[i]
 		if err := kv.Key.Accept(visitor); err != nil {
 			return err
 		}
diff --git a/parser/walk.go b/parser/walk.go
index db1cdbb..d3c955b 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -1379,7 +1379,8 @@ func Walk(node Expr, fn WalkFunc) bool {
 			return false
 		}
 	case *MapLiteral:
-		for _, kv := range n.KeyValues {
+		for i := range n.KeyValues {
+			kv := &n.KeyValues[i]
 			if !Walk(&kv.Key, fn) {
 				return false
 			}
-- 
2.43.0


From 98d6a4e7799d0eb7cdfff08716c6639578285f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 47/85] fix: a sign after '}' is an operator, not part of the
 number

---
 parser/lexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 4659725..71cb1b0 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -355,8 +355,10 @@ func (l *Lexer) hasPrecedenceToken(last *Token) bool {
 		last.Kind == TokenKindString ||
 		// A closing bracket also terminates an expression, so a following
 		// +/- is a binary operator, e.g. (1)-1 or arr[1]-1.
+		// The same goes for a brace, e.g. {x:Int32}-1.
 		last.Kind == TokenKindRParen ||
-		last.Kind == TokenKindRBracket)
+		last.Kind == TokenKindRBracket ||
+		last.Kind == TokenKindRBrace)
 }
 
 func (l *Lexer) consumeToken() error {
-- 
2.43.0


From fa9faf7509de94e5a19599f7e999813f78e919e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:23 +0000
Subject: [PATCH 48/85] fix: array join in lower case reads a column list too

---
 parser/parser_query.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 6b5e48c..4aa6e27 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -300,10 +300,8 @@ func (p *Parser) parseJoinModifiers(pos Pos) ([]string, error) {
 	}
 
 	// ARRAY JOIN reads a column list rather than a distributed table, so it has
-	// no locality. Modifiers keep their source spelling, hence EqualFold.
-	if slices.ContainsFunc(joinType, func(modifier string) bool {
-		return strings.EqualFold(modifier, KeywordArray)
-	}) {
+	// no locality.
+	if isArrayJoin(joinType) {
 		// point at the locality, not at wherever the join op stopped
 		return nil, &ParseError{
 			Pos: locality.Pos,
@@ -315,6 +313,14 @@ func (p *Parser) parseJoinModifiers(pos Pos) ([]string, error) {
 	return append([]string{locality.String}, joinType...), nil
 }
 
+// isArrayJoin reports whether the join modifiers include ARRAY. Modifiers keep
+// their source spelling, hence EqualFold.
+func isArrayJoin(modifiers []string) bool {
+	return slices.ContainsFunc(modifiers, func(modifier string) bool {
+		return strings.EqualFold(modifier, KeywordArray)
+	})
+}
+
 // peekJoinAfterLocality reports whether the current GLOBAL/LOCAL keyword is
 // followed by a join operator, leaving the lexer where it found it. Expression
 // parsing uses it to tell a locality apart from the GLOBAL IN operator.
@@ -357,7 +363,7 @@ func (p *Parser) parseJoinRightExpr(pos Pos) (expr Expr, err error) {
 	modifiers = append(modifiers, KeywordJoin)
 
 	// Check if this is an ARRAY JOIN
-	if slices.Contains(modifiers, KeywordArray) {
+	if isArrayJoin(modifiers) {
 		// For ARRAY JOIN, parse column expression list instead of table expression
 		expr, err = p.parseColumnExprList(p.Pos())
 		if err != nil {
-- 
2.43.0


From 863c3e09a756e0a4d87a898bd2848bb0360e7931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 49/85] fix: role setting modifiers may be written in any case

---
 parser/parse_system.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 53541d3..197f175 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -437,7 +437,8 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		if err != nil {
 			return nil, err
 		}
-		switch name.Name {
+		keyword := strings.ToUpper(name.Name)
+		switch keyword {
 		case "NONE", "READABLE", "WRITABLE", "CONST", "CHANGEABLE_IN_READONLY":
 			return &RoleSetting{
 				Modifier:     name,
@@ -460,7 +461,7 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 			// docs: https://clickhouse.com/docs/en/sql-reference/statements/alter/role
 			// the operator "=" was required if the variable name is NOT in
 			// ["MIN", "MAX", "PROFILE"] and value is existed.
-			if value != nil && name.Name != "MIN" && name.Name != "MAX" && name.Name != "PROFILE" && op != TokenKindSingleEQ {
+			if value != nil && keyword != "MIN" && keyword != "MAX" && keyword != "PROFILE" && op != TokenKindSingleEQ {
 				return nil, fmt.Errorf("expected operator = or no value, but got %s", op)
 			}
 			pairs = append(pairs, &SettingPair{
-- 
2.43.0


From 85417c928073c24de5a0a6d8ad316033f09664df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 50/85] fix: the first literal of a TTL expression is
 positioned at its own text

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 69cae88..ec9e739 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1301,7 +1301,7 @@ func (p *Parser) tryParseTTLPolicy(pos Pos) (*TTLPolicy, error) {
 }
 
 func (p *Parser) parseTTLExpr(pos Pos) (*TTLExpr, error) {
-	columnExpr, err := p.parseExpr(pos)
+	columnExpr, err := p.parseExpr(p.Pos())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c57a3287a993cfce927ea57fcbc71b0c6942196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:59 +0000
Subject: [PATCH 51/85] fix: start and end of composite nodes enclose their
 children

---
 parser/ast.go          | 53 ++++++++++++++++++++++++++++--------------
 parser/parser_table.go |  6 ++---
 2 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 42d0dd2..e3f65c9 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -283,6 +283,9 @@ func (a *AlterTableDetachPartition) Pos() Pos {
 }
 
 func (a *AlterTableDetachPartition) End() Pos {
+	if a.Settings != nil {
+		return a.Settings.End()
+	}
 	return a.Partition.End()
 }
 
@@ -1616,12 +1619,12 @@ func (r *RoleName) Pos() Pos {
 }
 
 func (r *RoleName) End() Pos {
-	if r.Scope != nil {
-		return r.Scope.End()
-	}
 	if r.OnCluster != nil {
 		return r.OnCluster.End()
 	}
+	if r.Scope != nil {
+		return r.Scope.End()
+	}
 	return r.Name.End()
 }
 
@@ -2575,7 +2578,7 @@ type TTLExpr struct {
 }
 
 func (t *TTLExpr) Pos() Pos {
-	return t.TTLPos
+	return t.Expr.Pos()
 }
 
 func (t *TTLExpr) End() Pos {
@@ -2684,7 +2687,7 @@ type OrderExpr struct {
 }
 
 func (o *OrderExpr) Pos() Pos {
-	return o.OrderPos
+	return o.Expr.Pos()
 }
 
 func (o *OrderExpr) End() Pos {
@@ -2868,6 +2871,9 @@ func (f *ParamExprList) Pos() Pos {
 }
 
 func (f *ParamExprList) End() Pos {
+	if f.ColumnArgList != nil {
+		return f.ColumnArgList.End()
+	}
 	return f.RightParenPos
 }
 
@@ -3694,7 +3700,7 @@ type EnumType struct {
 }
 
 func (e *EnumType) Pos() Pos {
-	return e.ListPos
+	return e.Name.Pos()
 }
 
 func (e *EnumType) End() Pos {
@@ -4311,23 +4317,28 @@ func (d *DictionaryEngineClause) Pos() Pos {
 }
 
 func (d *DictionaryEngineClause) End() Pos {
-	if d.Settings != nil {
-		return d.Settings.End()
+	// the clauses may come in any order
+	var end Pos
+	if d.PrimaryKey != nil {
+		end = max(end, d.PrimaryKey.End())
 	}
-	if d.Range != nil {
-		return d.Range.End()
+	if d.Source != nil {
+		end = max(end, d.Source.End())
+	}
+	if d.Lifetime != nil {
+		end = max(end, d.Lifetime.End())
 	}
 	if d.Layout != nil {
-		return d.Layout.End()
+		end = max(end, d.Layout.End())
 	}
-	if d.Lifetime != nil {
-		return d.Lifetime.End()
+	if d.Range != nil {
+		end = max(end, d.Range.End())
 	}
-	if d.Source != nil {
-		return d.Source.End()
+	if d.Settings != nil {
+		end = max(end, d.Settings.End())
 	}
-	if d.PrimaryKey != nil {
-		return d.PrimaryKey.End()
+	if end != 0 {
+		return end
 	}
 	return d.EnginePos
 }
@@ -4819,7 +4830,7 @@ type AliasExpr struct {
 }
 
 func (a *AliasExpr) Pos() Pos {
-	return a.AliasPos
+	return a.Expr.Pos()
 }
 
 func (a *AliasExpr) End() Pos {
@@ -5306,6 +5317,12 @@ func (s *SelectQuery) Pos() Pos {
 }
 
 func (s *SelectQuery) End() Pos {
+	// the query that follows a set operator belongs to this one
+	for _, next := range []*SelectQuery{s.UnionAll, s.UnionDistinct, s.Except, s.Intersect} {
+		if next != nil {
+			return next.End()
+		}
+	}
 	return s.StatementEnd
 }
 
diff --git a/parser/parser_table.go b/parser/parser_table.go
index ec9e739..fcd41b6 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -578,13 +578,13 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 			}, nil
 		case p.matchTokenKind(TokenKindLParen):
 			// it's a table function
-			argsExpr, err := p.parseTableArgList(pos)
+			argsExpr, err := p.parseTableArgList(p.Pos())
 			if err != nil {
 				return nil, err
 			}
 			return &TableSchemaClause{
 				SchemaPos: pos,
-				SchemaEnd: p.End(),
+				SchemaEnd: argsExpr.End(),
 				TableFunction: &TableFunctionExpr{
 					Name: ident,
 					Args: argsExpr,
@@ -593,7 +593,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 		default:
 			return &TableSchemaClause{
 				SchemaPos: pos,
-				SchemaEnd: p.End(),
+				SchemaEnd: ident.End(),
 				AliasTable: &TableIdentifier{
 					Table: ident,
 				},
-- 
2.43.0


From 74e72e7ad9998be8dcc50562fcd1cc1cfd1bfadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 52/85] fix: clauses that end in a keyword end at that keyword,
 LIMIT with an offset at its last number

---
 parser/ast.go           | 4 ++++
 parser/lexer.go         | 4 ++++
 parser/parse_system.go  | 4 ++--
 parser/parser_alter.go  | 4 ++--
 parser/parser_common.go | 5 +++++
 parser/parser_drop.go   | 2 +-
 parser/parser_view.go   | 2 +-
 7 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index e3f65c9..92933f4 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -4956,6 +4956,10 @@ func (l *LimitClause) Pos() Pos {
 
 func (l *LimitClause) End() Pos {
 	if l.Offset != nil {
+		// LIMIT offset, limit puts the offset first
+		if l.Limit != nil {
+			return max(l.Offset.End(), l.Limit.End())
+		}
 		return l.Offset.End()
 	}
 	return l.Limit.End()
diff --git a/parser/lexer.go b/parser/lexer.go
index 71cb1b0..b7f4c9a 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -77,6 +77,7 @@ func (t *Token) ToString() string {
 type lexerState struct {
 	offset       int    // byte offset into input of the next unread character
 	currentToken *Token // current lookahead token; nil at end of input
+	lastEnd      Pos    // end of the token before the current one
 }
 
 type Lexer struct {
@@ -364,6 +365,9 @@ func (l *Lexer) hasPrecedenceToken(last *Token) bool {
 func (l *Lexer) consumeToken() error {
 	// replace the current token; keep the previous one to disambiguate unary +/-
 	prevToken := l.currentToken
+	if prevToken != nil {
+		l.lastEnd = prevToken.End
+	}
 	l.currentToken = nil
 	if err := l.skipComments(); err != nil {
 		return err
diff --git a/parser/parse_system.go b/parser/parse_system.go
index 197f175..94c6ba0 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -589,7 +589,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 	if err := p.expectKeyword(KeywordIdentified); err != nil {
 		return nil, err
 	}
-	auth.AuthEnd = p.clauseEnd()
+	auth.AuthEnd = p.lastEnd()
 
 	if p.tryConsumeKeywords(KeywordWith) {
 		if p.matchKeyword(KeywordLdap) {
@@ -620,7 +620,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			authType := p.current().String
 			_ = p.lexer.consumeToken()
 			auth.AuthType = authType
-			auth.AuthEnd = p.clauseEnd()
+			auth.AuthEnd = p.lastEnd()
 
 			if p.tryConsumeKeywords(KeywordBy) {
 				value, err := p.parseString(p.Pos())
diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 1297906..874fe5d 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -501,7 +501,7 @@ func (p *Parser) parseAlterTableFreezePartition(pos Pos) (AlterTableClause, erro
 	}
 	alterTable := &AlterTableFreezePartition{
 		FreezePos:    pos,
-		StatementEnd: p.Pos(),
+		StatementEnd: p.lastEnd(),
 	}
 	if p.matchKeyword(KeywordPartition) {
 		partition, err := p.parsePartitionClause(p.Pos())
@@ -526,7 +526,7 @@ func (p *Parser) parseAlterTableRemoveTTL(pos Pos) (AlterTableClause, error) {
 
 	return &AlterTableRemoveTTL{
 		RemovePos:    pos,
-		StatementEnd: p.Pos(),
+		StatementEnd: p.lastEnd(),
 	}, nil
 }
 
diff --git a/parser/parser_common.go b/parser/parser_common.go
index 21f83e2..f1392e1 100644
--- a/parser/parser_common.go
+++ b/parser/parser_common.go
@@ -62,6 +62,11 @@ func (p *Parser) End() Pos {
 	return p.current().End
 }
 
+// lastEnd returns the end of the token that was consumed last.
+func (p *Parser) lastEnd() Pos {
+	return p.lexer.lastEnd
+}
+
 // clauseEnd returns the end of the current token, or the end of the input when
 // no token is left.
 func (p *Parser) clauseEnd() Pos {
diff --git a/parser/parser_drop.go b/parser/parser_drop.go
index dc06329..8e3f578 100644
--- a/parser/parser_drop.go
+++ b/parser/parser_drop.go
@@ -30,7 +30,7 @@ func (p *Parser) parseDropDatabase(pos Pos) (*DropDatabase, error) {
 		return nil, err
 	}
 	if modifier != "" {
-		statementEnd = p.Pos()
+		statementEnd = p.lastEnd()
 	}
 
 	return &DropDatabase{
diff --git a/parser/parser_view.go b/parser/parser_view.go
index 02e31bc..aefe527 100644
--- a/parser/parser_view.go
+++ b/parser/parser_view.go
@@ -155,7 +155,7 @@ func (p *Parser) parseCreateMaterializedView(pos Pos) (*CreateMaterializedView,
 			return nil, fmt.Errorf("POPULATE requires ENGINE to be specified")
 		}
 		createMaterializedView.Populate = true
-		createMaterializedView.StatementEnd = p.Pos()
+		createMaterializedView.StatementEnd = p.lastEnd()
 	}
 
 	// COMMENT can appear either before or after AS SELECT.
-- 
2.43.0


From 2b87504c7ef03b0de5b708c46696a09065f1e49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 53/85] fix: CREATE and DROP statements extend to their last
 clause

---
 parser/ast.go | 68 ++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 62 insertions(+), 6 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 92933f4..d752c6b 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -60,6 +60,19 @@ func (s *SelectItem) Accept(visitor ASTVisitor) error {
 	return visitor.VisitSelectItem(s)
 }
 
+// endOf returns the end of a node that reaches at least to end and encloses the
+// given child, which may be absent.
+func endOf[T interface {
+	comparable
+	Expr
+}](end Pos, child T) Pos {
+	var none T
+	if child == none {
+		return end
+	}
+	return max(end, child.End())
+}
+
 type OperationExpr struct {
 	OperationPos Pos
 	Kind         TokenKind
@@ -1301,7 +1314,12 @@ func (c *CreateDatabase) Pos() Pos {
 }
 
 func (c *CreateDatabase) End() Pos {
-	return c.StatementEnd
+	end := c.StatementEnd
+	end = endOf(end, c.Name)
+	end = endOf(end, c.OnCluster)
+	end = endOf(end, c.Engine)
+	end = endOf(end, c.Comment)
+	return end
 }
 
 func (c *CreateDatabase) Type() string {
@@ -1355,7 +1373,16 @@ func (c *CreateTable) Pos() Pos {
 }
 
 func (c *CreateTable) End() Pos {
-	return c.StatementEnd
+	end := c.StatementEnd
+	end = endOf(end, c.Name)
+	end = endOf(end, c.UUID)
+	end = endOf(end, c.OnCluster)
+	end = endOf(end, c.TableSchema)
+	end = endOf(end, c.Engine)
+	end = endOf(end, c.SubQuery)
+	end = endOf(end, c.TableFunction)
+	end = endOf(end, c.Comment)
+	return end
 }
 
 func (c *CreateTable) Type() string {
@@ -1433,7 +1460,19 @@ func (c *CreateMaterializedView) Pos() Pos {
 }
 
 func (c *CreateMaterializedView) End() Pos {
-	return c.StatementEnd
+	end := c.StatementEnd
+	end = endOf(end, c.Name)
+	end = endOf(end, c.OnCluster)
+	end = endOf(end, c.Refresh)
+	end = endOf(end, c.RandomizeFor)
+	end = endOf(end, c.Settings)
+	end = endOf(end, c.Engine)
+	end = endOf(end, c.TableSchema)
+	end = endOf(end, c.Destination)
+	end = endOf(end, c.SubQuery)
+	end = endOf(end, c.Comment)
+	end = endOf(end, c.Definer)
+	return end
 }
 
 func (c *CreateMaterializedView) Type() string {
@@ -1525,7 +1564,14 @@ func (c *CreateView) Pos() Pos {
 }
 
 func (c *CreateView) End() Pos {
-	return c.StatementEnd
+	end := c.StatementEnd
+	end = endOf(end, c.Name)
+	end = endOf(end, c.UUID)
+	end = endOf(end, c.OnCluster)
+	end = endOf(end, c.TableSchema)
+	end = endOf(end, c.Comment)
+	end = endOf(end, c.SubQuery)
+	return end
 }
 
 func (c *CreateView) Type() string {
@@ -4066,7 +4112,15 @@ func (c *CreateLiveView) Pos() Pos {
 }
 
 func (c *CreateLiveView) End() Pos {
-	return c.StatementEnd
+	end := c.StatementEnd
+	end = endOf(end, c.Name)
+	end = endOf(end, c.UUID)
+	end = endOf(end, c.OnCluster)
+	end = endOf(end, c.Destination)
+	end = endOf(end, c.TableSchema)
+	end = endOf(end, c.WithTimeout)
+	end = endOf(end, c.SubQuery)
+	return end
 }
 
 func (c *CreateLiveView) Accept(visitor ASTVisitor) error {
@@ -5690,7 +5744,9 @@ func (d *DropUserOrRole) Pos() Pos {
 }
 
 func (d *DropUserOrRole) End() Pos {
-	return d.StatementEnd
+	end := d.StatementEnd
+	end = endOf(end, d.From)
+	return end
 }
 
 func (d *DropUserOrRole) Type() string {
-- 
2.43.0


From 405efba9e2a954de1b708fefdffbe84a76410179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:26 +0000
Subject: [PATCH 54/85] fix: WITH FILL, UNBOUNDED and privilege ends lie within
 the input

---
 parser/ast.go          | 2 +-
 parser/parse_system.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index d752c6b..f005e5c 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -5289,7 +5289,7 @@ func (f *WindowFrameUnbounded) Pos() Pos {
 }
 
 func (f *WindowFrameUnbounded) End() Pos {
-	return f.UnboundedEnd
+	return max(f.UnboundedEnd, f.UnboundedPos+Pos(len(KeywordUnbounded)))
 }
 
 func (f *WindowFrameUnbounded) Accept(visitor ASTVisitor) error {
diff --git a/parser/parse_system.go b/parser/parse_system.go
index 94c6ba0..c881f8a 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1401,7 +1401,7 @@ func (p *Parser) parseGrantPrivilegeStmt(pos Pos) (*GrantPrivilegeStmt, error) {
 		return nil, err
 	}
 	if len(options) != 0 {
-		statementEnd = p.End()
+		statementEnd = p.clauseEnd()
 	}
 
 	return &GrantPrivilegeStmt{
-- 
2.43.0


From 22fd50af311aefa9940f4f8d8ef5b7cc349dd2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 55/85] fix: a privilege ends after its keywords or column list

---
 parser/ast.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index f005e5c..b54b9d4 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -6450,7 +6450,17 @@ func (p *PrivilegeClause) Pos() Pos {
 }
 
 func (p *PrivilegeClause) End() Pos {
-	return p.PrivilegeEnd
+	if p.Params != nil {
+		return p.Params.End()
+	}
+	end := p.PrivilegePos
+	for i, keyword := range p.Keywords {
+		if i > 0 {
+			end++ // at least one blank
+		}
+		end += Pos(len(keyword))
+	}
+	return max(p.PrivilegeEnd, end)
 }
 
 func (p *PrivilegeClause) Accept(visitor ASTVisitor) error {
-- 
2.43.0


From 8f0f0d90c630c6cd68ecd0a16e35d08a04bc9855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 56/85] fix: an INTERPOLATE expression is positioned at its own
 text

---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index fcd41b6..c7013da 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1187,7 +1187,7 @@ func (p *Parser) parseInterpolateClause(interpolatePos Pos) (*InterpolateClause,
 		item := &InterpolateItem{Column: column}
 
 		if p.tryConsumeKeywords(KeywordAs) {
-			expr, err := p.parseExpr(interpolatePos)
+			expr, err := p.parseExpr(p.Pos())
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From cb1f0b5673a37f906234c294701eaf8c6597171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:23 +0000
Subject: [PATCH 57/85] fix: CURRENT ROW in a window frame ends at ROW, not
 after the next token

---
 parser/ast.go          | 4 ++++
 parser/parser_query.go | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index b54b9d4..cda34a9 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -5262,6 +5262,7 @@ func (f *BetweenClause) Accept(visitor ASTVisitor) error {
 type WindowFrameCurrentRow struct {
 	CurrentPos Pos
 	RowEnd     Pos
+	endPos     Pos
 }
 
 func (f *WindowFrameCurrentRow) Pos() Pos {
@@ -5269,6 +5270,9 @@ func (f *WindowFrameCurrentRow) Pos() Pos {
 }
 
 func (f *WindowFrameCurrentRow) End() Pos {
+	if f.endPos != 0 {
+		return f.endPos
+	}
 	return f.RowEnd
 }
 
diff --git a/parser/parser_query.go b/parser/parser_query.go
index 4aa6e27..76ebaef 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -796,10 +796,12 @@ func (p *Parser) parseFrameCurrentRow() (Expr, error) {
 	if err := p.expectKeyword(KeywordRow); err != nil {
 		return nil, err
 	}
+	endPos := p.lastEnd()
 	rowEnd := p.End()
 	return &WindowFrameCurrentRow{
 		CurrentPos: currentPos,
 		RowEnd:     rowEnd,
+		endPos:     endPos,
 	}, nil
 }
 
-- 
2.43.0


From c0258579675cdc3aacf48868d58dc589cebedd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:24 +0000
Subject: [PATCH 58/85] fix: AS SELECT after the GROUP BY of a table's TTL
 starts the query

---
 parser/parser_query.go |  8 +++++---
 parser/parser_table.go | 19 ++++++++++---------
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 76ebaef..e352b54 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -553,11 +553,13 @@ func (p *Parser) tryParseGroupByClause(pos Pos) (*GroupByClause, error) {
 	if !p.matchKeyword(KeywordGroup) {
 		return nil, nil
 	}
-	return p.parseGroupByClause(pos)
+	return p.parseGroupByClause(pos, p.parseColumnExprListWithLParen)
 }
 
 // syntax: groupByClause? (WITH (CUBE | ROLLUP))? (WITH TOTALS)?
-func (p *Parser) parseGroupByClause(pos Pos) (*GroupByClause, error) {
+//
+// parseList parses the list of grouping expressions.
+func (p *Parser) parseGroupByClause(pos Pos, parseList func(Pos) (*ColumnExprList, error)) (*GroupByClause, error) {
 	if err := p.expectKeyword(KeywordGroup); err != nil {
 		return nil, err
 	}
@@ -583,7 +585,7 @@ func (p *Parser) parseGroupByClause(pos Pos) (*GroupByClause, error) {
 		_ = p.lexer.consumeToken()
 		aggregateType = "ALL"
 	default:
-		expr, err = p.parseColumnExprListWithLParen(p.Pos())
+		expr, err = parseList(p.Pos())
 	}
 	if err != nil {
 		return nil, err
diff --git a/parser/parser_table.go b/parser/parser_table.go
index c7013da..4c77260 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -923,7 +923,7 @@ func (p *Parser) tryParsePartitionByClause(pos Pos) (*PartitionByClause, error)
 	}
 
 	// parse partition key list
-	columnExpr, err := p.parsePartitionKeyList(p.Pos())
+	columnExpr, err := p.parseTableKeyList(p.Pos())
 	if err != nil {
 		return nil, err
 	}
@@ -933,10 +933,10 @@ func (p *Parser) tryParsePartitionByClause(pos Pos) (*PartitionByClause, error)
 	}, nil
 }
 
-// parsePartitionKeyList parses the expressions of a table's partition key. An
-// AS after an expression gives an alias unless a query follows, as in
-// CREATE TABLE t ENGINE = MergeTree PARTITION BY a AS SELECT ...
-func (p *Parser) parsePartitionKeyList(pos Pos) (*ColumnExprList, error) {
+// parseTableKeyList parses the expressions of a table's partition key or of the
+// GROUP BY of its TTL. An AS after an expression gives an alias unless a query
+// follows, as in CREATE TABLE t ENGINE = MergeTree PARTITION BY a AS SELECT ...
+func (p *Parser) parseTableKeyList(pos Pos) (*ColumnExprList, error) {
 	list := &ColumnExprList{ListPos: pos}
 	for {
 		expr, err := p.parseExpr(p.Pos())
@@ -1292,11 +1292,12 @@ func (p *Parser) tryParseTTLPolicy(pos Pos) (*TTLPolicy, error) {
 	}
 	policy.Where = where
 
-	groupBy, err := p.tryParseGroupByClause(p.Pos())
-	if err != nil {
-		return nil, err
+	if p.matchKeyword(KeywordGroup) {
+		policy.GroupBy, err = p.parseGroupByClause(p.Pos(), p.parseTableKeyList)
+		if err != nil {
+			return nil, err
+		}
 	}
-	policy.GroupBy = groupBy
 	return policy, nil
 }
 
-- 
2.43.0


From d8683c7f96468b0f78fe11cc40be573fb2e420f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 59/85] fix: read CAST and EXTRACT without parentheses as names

---
 parser/parser_column.go | 4 ++--
 parser/parser_table.go  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index a97f3e4..c719246 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -611,13 +611,13 @@ func (p *Parser) parseColumnExpr(pos Pos) (Expr, error) { //nolint:funlen
 			return p.parseString(p.Pos())
 		}
 		return p.parseIdentOrFunction(pos)
-	case p.matchKeyword(KeywordCast):
+	case p.matchKeyword(KeywordCast) && p.peekTokenKind(TokenKindLParen):
 		return p.parseColumnCastExpr(pos)
 	case p.matchKeyword(KeywordCase):
 		return p.parseColumnCaseExpr(pos)
 	case p.matchKeyword(KeywordSelect):
 		return p.parseSelectQuery(pos)
-	case p.matchKeyword(KeywordExtract):
+	case p.matchKeyword(KeywordExtract) && p.peekTokenKind(TokenKindLParen):
 		return p.parseColumnExtractExpr(pos)
 	case p.matchTokenKind(TokenKindIdent):
 		return p.parseIdentOrFunction(pos)
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 4c77260..9b501fa 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -761,7 +761,7 @@ func (p *Parser) parseTableArgExpr(pos Pos) (Expr, error) {
 
 func (p *Parser) parseTableArgPrimaryExpr(pos Pos) (Expr, error) {
 	switch {
-	case p.matchKeyword(KeywordCast):
+	case p.matchKeyword(KeywordCast) && p.peekTokenKind(TokenKindLParen):
 		// CAST has its own syntax, so reading it as an ordinary function call
 		// stops at the AS separator: numbers(CAST(1 + 1 AS UInt64)) failed
 		// looking for ')'. CAST is not reserved, so it also matches
-- 
2.43.0


From cc3950382ce8f49706e1c7a1802f41eec27f0ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:50 +0000
Subject: [PATCH 60/85] fix: read TOP without a number as a column name

---
 parser/parser_query.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index e352b54..6016cab 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -41,12 +41,25 @@ func (p *Parser) parseWithClause(pos Pos) (*WithClause, error) {
 }
 
 func (p *Parser) tryParseTopClause(pos Pos) (*TopClause, error) {
-	if !p.matchKeyword(KeywordTop) {
+	if !p.matchKeyword(KeywordTop) || !p.peekIsNumber() {
 		return nil, nil
 	}
 	return p.parseTopClause(pos)
 }
 
+// peekIsNumber reports whether a number follows the current token. TOP is not
+// reserved, so without one it is a column name.
+func (p *Parser) peekIsNumber() bool {
+	if !p.peekTokenKind(TokenKindDot) {
+		return p.peekTokenKind(TokenKindInt) || p.peekTokenKind(TokenKindFloat)
+	}
+	// a dot belongs to a number only in front of digits: TOP .5 but top.name
+	savedState := p.lexer.saveState()
+	defer p.lexer.restoreState(savedState)
+	_ = p.lexer.consumeToken()
+	return p.peekTokenKind(TokenKindInt)
+}
+
 func (p *Parser) parseTopClause(pos Pos) (*TopClause, error) {
 	if err := p.expectKeyword(KeywordTop); err != nil {
 		return nil, err
-- 
2.43.0


From 9cced0774eea703220cf95eb859a28955483498e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:34 +0000
Subject: [PATCH 61/85] fix: read PARTITION ID without a string as a column

---
 parser/parser_alter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 874fe5d..c83348d 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -366,7 +366,8 @@ func (p *Parser) parsePartitionClause(pos Pos) (*PartitionClause, error) {
 	partition := &PartitionClause{
 		PartitionPos: pos,
 	}
-	if p.tryConsumeKeywords(KeywordId) {
+	if p.matchKeyword(KeywordId) && p.peekTokenKind(TokenKindString) {
+		_ = p.lexer.consumeToken()
 		id, err := p.parseString(p.Pos())
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 748107e380b61fa1ec93a8b16953ab7448fc344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:30 +0000
Subject: [PATCH 62/85] fix: ON without DISTINCT does not start a DISTINCT ON
 list

---
 parser/parser_query.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 6016cab..f326517 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -1130,9 +1130,12 @@ func (p *Parser) parseSelectStmt(pos Pos) (*SelectQuery, error) { // nolint: fun
 	}
 	// DISTINCT?
 	hasDistinct := p.tryConsumeKeywords(KeywordDistinct)
-	distinctOn, err := p.tryParseDistinctOn(p.Pos())
-	if err != nil {
-		return nil, err
+	var distinctOn *DistinctOn
+	if hasDistinct {
+		distinctOn, err = p.tryParseDistinctOn(p.Pos())
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	top, err := p.tryParseTopClause(p.Pos())
-- 
2.43.0


From 43ca6b64207b47deb1cbb44267ab2193b46ee679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 63/85] fix: a keyword in front of <> is a column name, as in
 front of !=

---
 parser/parser_column.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index c719246..9a12dfe 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -488,7 +488,7 @@ func (p *Parser) peekIsEndOfStatement() bool {
 }
 
 var expressionContinuationTokenKinds = []TokenKind{
-	TokenKindSingleEQ, TokenKindDoubleEQ, TokenKindNE,
+	TokenKindSingleEQ, TokenKindDoubleEQ, TokenKindNE, "<>",
 	TokenKindLT, TokenKindLE, TokenKindGT, TokenKindGE,
 	TokenKindPlus, TokenKindMinus, TokenKindMul, TokenKindDiv, TokenKindMod,
 	TokenKindConcat, TokenKindDash,
-- 
2.43.0


From 191a6d0199a6ea0ad52267b06261451c3ac874fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:34 +0000
Subject: [PATCH 64/85] fix: a quoted word among role settings is a name, not a
 modifier

---
 parser/parse_system.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index c881f8a..96f0576 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -438,6 +438,9 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 			return nil, err
 		}
 		keyword := strings.ToUpper(name.Name)
+		if name.QuoteType != Unquoted {
+			keyword = "" // a quoted word is only a name
+		}
 		switch keyword {
 		case "NONE", "READABLE", "WRITABLE", "CONST", "CHANGEABLE_IN_READONLY":
 			return &RoleSetting{
-- 
2.43.0


From 17d936d34a3f01fb78c68277873ed55e2c6e7083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:40 +0000
Subject: [PATCH 65/85] fix: reject repeated clauses of CREATE USER instead of
 dropping the first

---
 parser/parse_system.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 96f0576..3edd063 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 )
@@ -827,6 +828,9 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 	}
 
 	if nextToken.ToString() == KeywordRole {
+		if createUser.DefaultRole != nil {
+			return false, errors.New("duplicate DEFAULT ROLE clause")
+		}
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
 			return false, err
@@ -835,6 +839,9 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		createUser.StatementEnd = defaultRole.End()
 		return true, nil
 	} else if nextToken.ToString() == KeywordDatabase {
+		if createUser.DefaultDatabase != nil || createUser.DefaultDbNone {
+			return false, errors.New("duplicate DEFAULT DATABASE clause")
+		}
 		_ = p.lexer.consumeToken() // consume DEFAULT
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
@@ -858,6 +865,9 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 	for continueParsing {
 		switch {
 		case p.matchOneOfKeywords(KeywordNot, KeywordIdentified):
+			if createUser.Authentication != nil {
+				return errors.New("duplicate authentication clause")
+			}
 			auth, err := p.parseAuthenticationClause(p.Pos())
 			if err != nil {
 				return err
@@ -866,6 +876,9 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.StatementEnd = auth.End()
 
 		case p.matchKeyword(KeywordValid):
+			if createUser.ValidUntil != nil {
+				return errors.New("duplicate VALID UNTIL clause")
+			}
 			_ = p.lexer.consumeToken() // consume VALID keyword
 			if err := p.expectKeyword(KeywordUntil); err != nil {
 				return err
@@ -878,6 +891,9 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.StatementEnd = validUntil.End()
 
 		case p.matchKeyword(KeywordHost):
+			if createUser.Hosts != nil {
+				return errors.New("duplicate HOST clause")
+			}
 			hosts, err := p.parseHostClauses()
 			if err != nil {
 				return err
@@ -895,6 +911,9 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			}
 
 		case p.matchKeyword(KeywordGrantees):
+			if createUser.Grantees != nil {
+				return errors.New("duplicate GRANTEES clause")
+			}
 			grantees, err := p.parseGranteesClause(p.Pos())
 			if err != nil {
 				return err
@@ -903,6 +922,9 @@ func (p *Parser) parseOptionalClauses(createUser *CreateUser) error {
 			createUser.StatementEnd = grantees.End()
 
 		case p.matchKeyword(KeywordSettings):
+			if createUser.Settings != nil {
+				return errors.New("duplicate SETTINGS clause")
+			}
 			_ = p.lexer.consumeToken() // consume SETTINGS keyword
 			settings, err := p.parseRoleSettings(p.Pos())
 			if err != nil {
-- 
2.43.0


From 7ece7f70772bbfb4b83d32777e76c8a835876e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:51 +0000
Subject: [PATCH 66/85] fix: reject repeated clauses of ENGINE instead of
 dropping the first

---
 parser/parser_table.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 9b501fa..bdbe6b6 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1479,6 +1479,9 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 	for !p.lexer.isEOF() {
 		switch {
 		case p.matchKeyword(KeywordOrder):
+			if engineExpr.OrderBy != nil {
+				return nil, errors.New("duplicate ORDER BY clause")
+			}
 			orderBy, err := p.tryParseTableOrderByClause(p.Pos())
 			if err != nil {
 				return nil, err
@@ -1486,6 +1489,9 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			engineExpr.OrderBy = orderBy
 			engineEnd = orderBy.End()
 		case p.matchKeyword(KeywordPartition):
+			if engineExpr.PartitionBy != nil {
+				return nil, errors.New("duplicate PARTITION BY clause")
+			}
 			partitionBy, err := p.tryParsePartitionByClause(p.Pos())
 			if err != nil {
 				return nil, err
@@ -1493,6 +1499,9 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			engineExpr.PartitionBy = partitionBy
 			engineEnd = partitionBy.End()
 		case p.matchKeyword(KeywordPrimary):
+			if engineExpr.PrimaryKey != nil {
+				return nil, errors.New("duplicate PRIMARY KEY clause")
+			}
 			primaryKey, err := p.tryParsePrimaryKeyClause(p.Pos())
 			if err != nil {
 				return nil, err
@@ -1500,6 +1509,9 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			engineExpr.PrimaryKey = primaryKey
 			engineEnd = primaryKey.End()
 		case p.matchKeyword(KeywordSample):
+			if engineExpr.SampleBy != nil {
+				return nil, errors.New("duplicate SAMPLE BY clause")
+			}
 			sampleBy, err := p.tryParseSampleByClause(p.Pos())
 			if err != nil {
 				return nil, err
@@ -1507,6 +1519,9 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			engineExpr.SampleBy = sampleBy
 			engineEnd = sampleBy.End()
 		case p.matchKeyword(KeywordTtl):
+			if engineExpr.TTL != nil {
+				return nil, errors.New("duplicate TTL clause")
+			}
 			ttl, err := p.tryParseTTLClause(p.Pos(), true)
 			if err != nil {
 				return nil, err
@@ -1514,6 +1529,9 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			engineExpr.TTL = ttl
 			engineEnd = ttl.End()
 		case p.matchKeyword(KeywordSettings):
+			if engineExpr.Settings != nil {
+				return nil, errors.New("duplicate SETTINGS clause")
+			}
 			settingsClause, err := p.tryParseSettingsClause(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From b7d2d26e278270cbfebd7587064f218a69fa1132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:02 +0000
Subject: [PATCH 67/85] fix: reject a column that is both NULL and NOT NULL
 instead of dropping NULL

---
 parser/parser_table.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index bdbe6b6..ab521a1 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -691,9 +691,12 @@ func (p *Parser) parseTableColumnExpr(pos Pos) (*ColumnDef, error) {
 	if nullable != nil {
 		columnEnd = nullable.End()
 	}
-	notNull, err := p.tryParseNotNull(p.Pos())
-	if err != nil {
-		return nil, err
+	var notNull *NotNullLiteral
+	if nullable == nil { // NULL or NOT NULL, not both
+		notNull, err = p.tryParseNotNull(p.Pos())
+		if err != nil {
+			return nil, err
+		}
 	}
 	if notNull != nil {
 		columnEnd = notNull.End()
-- 
2.43.0


From e33a1beaf7bfe41794990778dbf8367600b460ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:13 +0000
Subject: [PATCH 68/85] fix: SHOW DATABASES NOT needs LIKE or ILIKE

---
 parser/parser_table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index ab521a1..29b0501 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1699,6 +1699,9 @@ func (p *Parser) parseShowStmt(pos Pos) (*ShowStmt, error) {
 		if p.matchKeyword(KeywordNot) {
 			stmt.NotLike = true
 			_ = p.lexer.consumeToken()
+			if !p.matchOneOfKeywords(KeywordLike, KeywordIlike) {
+				return nil, fmt.Errorf("expected LIKE or ILIKE after NOT, got %q", p.currentTokenString())
+			}
 		}
 
 		if p.matchKeyword(KeywordLike) || p.matchKeyword(KeywordIlike) {
-- 
2.43.0


From e36fab6f206b13d155d8fba4f9794de9d5f4049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:25 +0000
Subject: [PATCH 69/85] fix: format the element of a number without merging the
 dot into the number

---
 parser/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 7905792..86321c9 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1694,6 +1694,9 @@ func (i *Ident) FormatSQL(formatter *Formatter) {
 
 func (i *IndexOperation) FormatSQL(formatter *Formatter) {
 	formatter.WriteExpr(i.Object)
+	if _, isNumber := i.Object.(*NumberLiteral); isNumber {
+		formatter.WriteByte(whitespace) // the dot must not become part of the number
+	}
 	formatter.WriteString(string(i.Operation))
 	formatter.WriteExpr(i.Index)
 }
-- 
2.43.0


From f5ede7e08886f18c51392e9f0297c0fb6eef73a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:36 +0000
Subject: [PATCH 70/85] fix: keep the quotes of a quoted engine name when
 formatting

---
 parser/ast.go          | 2 ++
 parser/format.go       | 2 +-
 parser/parser_table.go | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/ast.go b/parser/ast.go
index cda34a9..197157f 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -3814,6 +3814,8 @@ type EngineExpr struct {
 	TTL         *TTLClause
 	Settings    *SettingsClause
 	OrderBy     *OrderByClause
+
+	nameQuote int // how the name was quoted; Name is the text between the quotes
 }
 
 func (e *EngineExpr) Pos() Pos {
diff --git a/parser/format.go b/parser/format.go
index 86321c9..069c1af 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1467,7 +1467,7 @@ func (d *DropUserOrRole) FormatSQL(formatter *Formatter) {
 
 func (e *EngineExpr) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("ENGINE = ")
-	formatter.WriteString(e.Name)
+	formatter.WriteExpr(&Ident{Name: e.Name, QuoteType: e.nameQuote})
 	if e.Params != nil {
 		formatter.WriteExpr(e.Params)
 	}
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 29b0501..066675b 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1466,6 +1466,7 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			return nil, err
 		}
 		engineExpr.Name = ident.Name
+		engineExpr.nameQuote = ident.QuoteType
 		engineEnd = ident.End()
 		if p.matchTokenKind(TokenKindLParen) {
 			params, err := p.parseFunctionParams(p.Pos())
-- 
2.43.0


From a9f5b78d5d684a6241f41ae83de1de5121cc265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:13 +0000
Subject: [PATCH 71/85] fix: reject a second FORMAT instead of dropping it

---
 parser/parser_table.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 066675b..d3bd2c3 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1551,6 +1551,19 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 	return engineExpr, nil
 }
 
+// hasFormat reports whether the statement has a FORMAT of its own already.
+func hasFormat(stmt Expr) bool {
+	switch s := stmt.(type) {
+	case *SelectQuery:
+		return s.Format != nil
+	case *InsertStmt:
+		return s.Format != nil
+	case *ShowStmt:
+		return s.Format != nil
+	}
+	return false
+}
+
 func (p *Parser) parseStmt(pos Pos) (Expr, error) {
 	var err error
 	var expr Expr
@@ -1598,9 +1611,11 @@ func (p *Parser) parseStmt(pos Pos) (Expr, error) {
 	if err != nil {
 		return nil, err
 	}
-	_, err = p.tryParseFormat(p.Pos())
-	if err != nil {
-		return nil, err
+	if !hasFormat(expr) {
+		_, err = p.tryParseFormat(p.Pos())
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	// Statement can be terminated by ';' or EOF
-- 
2.43.0


From 0262dedaee53ef9bfa20aa929daefe7c491ea639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:54 +0000
Subject: [PATCH 72/85] fix: format the one-element tuple (x,) with its comma

---
 parser/ast.go           | 2 ++
 parser/format.go        | 3 +++
 parser/parser_column.go | 1 +
 3 files changed, 6 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index 197157f..51a56ef 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -3919,6 +3919,8 @@ type ColumnExprList struct {
 	ListEnd     Pos
 	HasDistinct bool
 	Items       []Expr
+
+	oneTuple bool // the list was (x,): the comma makes it a tuple
 }
 
 func (c *ColumnExprList) Pos() Pos {
diff --git a/parser/format.go b/parser/format.go
index 069c1af..98e06e0 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -725,6 +725,9 @@ func (c *ColumnExprList) FormatSQL(formatter *Formatter) {
 			formatter.WriteString(", ")
 		}
 	}
+	if c.oneTuple {
+		formatter.WriteByte(',')
+	}
 }
 
 func (c *ColumnNamesExpr) FormatSQL(formatter *Formatter) {
diff --git a/parser/parser_column.go b/parser/parser_column.go
index 9a12dfe..9c558a2 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -737,6 +737,7 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 	columnList := make([]Expr, 0)
 	for !p.lexer.isEOF() || p.current() != nil {
 		if term != "" && p.matchTokenKind(term) {
+			columnExprList.oneTuple = term == TokenKindRParen && len(columnList) == 1
 			break
 		}
 		columnExpr, err := p.parseColumnsExpr(p.Pos())
-- 
2.43.0


From a6b1827164a11652ce4cb4c71747aabe9e28b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:10 +0000
Subject: [PATCH 73/85] fix: an expression list cannot end with a comma at the
 end of the input

---
 parser/parser_column.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser_column.go b/parser/parser_column.go
index 9c558a2..bccb22c 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"errors"
 	"fmt"
 	"strings"
 )
@@ -751,6 +752,9 @@ func (p *Parser) parseColumnExprListWithTerm(term TokenKind, pos Pos) (*ColumnEx
 		if p.tryConsumeTokenKind(TokenKindComma) == nil {
 			break
 		}
+		if p.current() == nil {
+			return nil, errors.New("expected an expression after ','")
+		}
 	}
 	columnExprList.Items = columnList
 	if len(columnList) > 0 {
-- 
2.43.0


From b539698597fb08bbde9aa0e1e32b08f50870202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:35 +0000
Subject: [PATCH 74/85] fix: format the DISTINCT of an array's element list

---
 parser/format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/format.go b/parser/format.go
index 98e06e0..b368a3e 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -527,6 +527,9 @@ func (a *AlterTableUpdate) FormatSQL(formatter *Formatter) {
 
 func (a *ArrayParamList) FormatSQL(formatter *Formatter) {
 	formatter.WriteString("[")
+	if a.Items.HasDistinct {
+		formatter.WriteString("DISTINCT ")
+	}
 	for i, item := range a.Items.Items {
 		if i > 0 {
 			formatter.WriteString(", ")
-- 
2.43.0


From 6f5c59659e508b3248e337852be7301371e17e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:45 +0000
Subject: [PATCH 75/85] fix: format a chain of numbered elements without
 merging a dot into a number

---
 parser/format.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index b368a3e..8756964 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1698,9 +1698,23 @@ func (i *Ident) FormatSQL(formatter *Formatter) {
 	}
 }
 
+// endsWithNumber reports whether a number is the last token of expr.
+func endsWithNumber(expr Expr) bool {
+	switch e := expr.(type) {
+	case *NumberLiteral:
+		return true
+	case *IndexOperation:
+		return endsWithNumber(e.Index)
+	case *UnaryExpr:
+		return endsWithNumber(e.Expr)
+	default:
+		return false
+	}
+}
+
 func (i *IndexOperation) FormatSQL(formatter *Formatter) {
 	formatter.WriteExpr(i.Object)
-	if _, isNumber := i.Object.(*NumberLiteral); isNumber {
+	if endsWithNumber(i.Object) {
 		formatter.WriteByte(whitespace) // the dot must not become part of the number
 	}
 	formatter.WriteString(string(i.Operation))
-- 
2.43.0


From 4bc3268fe2bfa8195b4cd74b938b48c21de41b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:54 +0000
Subject: [PATCH 76/85] fix: reject a quoted option name in GRANT ... WITH ...
 OPTION

---
 parser/parse_system.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 3edd063..d532192 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1348,6 +1348,9 @@ func (p *Parser) parseGrantOption(_ Pos) (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if ident.QuoteType != Unquoted {
+		return "", fmt.Errorf("expected an option name after WITH, got quoted name %q", ident.Name)
+	}
 	if err := p.expectKeyword(KeywordOption); err != nil {
 		return "", err
 	}
-- 
2.43.0


From edfc1c581b9ec1dfd0e6f75f88c103765347090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:36 +0000
Subject: [PATCH 77/85] fix: reject a second ON CLUSTER in DROP USER instead of
 dropping it

---
 parser/parse_system.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index d532192..57dead3 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -1000,14 +1000,6 @@ func (p *Parser) parserDropUserOrRole(pos Pos) (*DropUserOrRole, error) {
 	}
 	statementEnd := names[len(names)-1].End()
 
-	onCluster, err := p.tryParseClusterClause(p.Pos())
-	if err != nil {
-		return nil, err
-	}
-	if onCluster != nil {
-		statementEnd = onCluster.End()
-	}
-
 	var from *Ident
 	if p.tryConsumeKeywords(KeywordFrom) {
 		from, err = p.parseIdent()
-- 
2.43.0


From d1a80f1b1416121e230dae4eaf2702b64a190047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:48 +0000
Subject: [PATCH 78/85] fix: IDENTIFIED WITH needs an unquoted authentication
 type

---
 parser/parse_system.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 57dead3..87d183d 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -621,6 +621,9 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			}
 		} else if p.matchTokenKind(TokenKindIdent) {
 			// Auth types like no_password, plaintext_password, etc.
+			if p.current().QuoteType != Unquoted {
+				return nil, fmt.Errorf("expected an authentication type, got quoted name %q", p.current().String)
+			}
 			authType := p.current().String
 			_ = p.lexer.consumeToken()
 			auth.AuthType = authType
@@ -634,6 +637,8 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 				auth.AuthValue = value
 				auth.AuthEnd = value.End()
 			}
+		} else {
+			return nil, fmt.Errorf("expected an authentication type after WITH")
 		}
 	}
 
-- 
2.43.0


From 5d082665b5b32ff942599de096749254886164d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:00 +0000
Subject: [PATCH 79/85] fix: reject a repeated WITH CUBE, ROLLUP or TOTALS
 instead of dropping one

---
 parser/parser_query.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index f326517..0f3fb6f 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -619,6 +619,10 @@ func (p *Parser) parseGroupByClause(pos Pos, parseList func(Pos) (*ColumnExprLis
 		// end before it is consumed
 		keywordEnd := p.End()
 		switch {
+		case groupBy.WithCube && p.matchKeyword(KeywordCube),
+			groupBy.WithRollup && p.matchKeyword(KeywordRollup),
+			groupBy.WithTotals && p.matchKeyword(KeywordTotals):
+			return nil, fmt.Errorf("duplicate WITH %s", p.current().String)
 		case p.tryConsumeKeywords(KeywordCube):
 			groupBy.WithCube = true
 		case p.tryConsumeKeywords(KeywordRollup):
-- 
2.43.0


From 6477bf6d02f6fdee7312383338dc121fd0acd232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:11 +0000
Subject: [PATCH 80/85] fix: keep the quotes of a named argument of a table
 function

---
 parser/parser_table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index d3bd2c3..73914af 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -846,6 +846,9 @@ func (p *Parser) parseTableArgList(pos Pos) (*TableArgListExpr, error) {
 				NameEnd: p.current().End,
 				Name:    p.current().String,
 			}
+			if p.current().QuoteType != Unquoted {
+				name.QuoteType = p.current().QuoteType
+			}
 			// Consume the = token
 			if err := p.lexer.consumeToken(); err != nil {
 				return nil, err
-- 
2.43.0


From c8019af5bd8d16bd5fc04bc7c5a7994c31741ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:22 +0000
Subject: [PATCH 81/85] fix: reject an empty column list instead of dropping it

---
 parser/parser_table.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 73914af..9f38ef9 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -541,6 +541,9 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(columns) == 0 {
+			return nil, fmt.Errorf("expected a column definition after '('")
+		}
 
 		rightParenPos := p.Pos()
 		if err := p.expectTokenKind(TokenKindRParen); err != nil {
-- 
2.43.0


From a186a68e0a72e187ea11b2a759a76de01c71fa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:43 +0000
Subject: [PATCH 82/85] fix: format the numbered element of any expression that
 ends with a number

---
 parser/format.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/parser/format.go b/parser/format.go
index 8756964..c692025 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1698,23 +1698,19 @@ func (i *Ident) FormatSQL(formatter *Formatter) {
 	}
 }
 
-// endsWithNumber reports whether a number is the last token of expr.
-func endsWithNumber(expr Expr) bool {
-	switch e := expr.(type) {
-	case *NumberLiteral:
-		return true
-	case *IndexOperation:
-		return endsWithNumber(e.Index)
-	case *UnaryExpr:
-		return endsWithNumber(e.Expr)
-	default:
-		return false
+// endsWithNumber reports whether the text written so far may end with a number.
+func (f *Formatter) endsWithNumber() bool {
+	s := f.String()
+	i := len(s)
+	for i > 0 && (IsIdentPart(s[i-1])) {
+		i--
 	}
+	return i < len(s) && IsDigit(s[i])
 }
 
 func (i *IndexOperation) FormatSQL(formatter *Formatter) {
 	formatter.WriteExpr(i.Object)
-	if endsWithNumber(i.Object) {
+	if formatter.endsWithNumber() {
 		formatter.WriteByte(whitespace) // the dot must not become part of the number
 	}
 	formatter.WriteString(string(i.Operation))
-- 
2.43.0


From 6b04c543595011d3fc0e2d680e5e2139b7401e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:33 +0000
Subject: [PATCH 83/85] fix: format DETACH as DETACH, not as DROP

---
 parser/ast.go          |  6 ++++++
 parser/format.go       | 13 ++++++++++---
 parser/parser_table.go | 22 +++++++++++++++++++---
 3 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 51a56ef..9d46de0 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -5670,6 +5670,8 @@ type DropDatabase struct {
 	IfExists     bool
 	OnCluster    *ClusterClause
 	Modifier     string
+
+	detach bool // written DETACH, not DROP
 }
 
 func (d *DropDatabase) Pos() Pos {
@@ -5708,6 +5710,8 @@ type DropStmt struct {
 	OnCluster   *ClusterClause
 	IsTemporary bool
 	Modifier    string
+
+	detach bool // written DETACH, not DROP
 }
 
 func (d *DropStmt) Pos() Pos {
@@ -5745,6 +5749,8 @@ type DropUserOrRole struct {
 	IfExists     bool
 	Modifier     string
 	From         *Ident
+
+	detach bool // written DETACH, not DROP
 }
 
 func (d *DropUserOrRole) Pos() Pos {
diff --git a/parser/format.go b/parser/format.go
index c692025..d4d0957 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -1417,8 +1417,15 @@ func (s *DistinctOn) FormatSQL(formatter *Formatter) {
 	formatter.WriteByte(')')
 }
 
+func dropVerb(detach bool) string {
+	if detach {
+		return "DETACH"
+	}
+	return "DROP"
+}
+
 func (d *DropDatabase) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("DROP DATABASE ")
+	formatter.WriteString(dropVerb(d.detach) + " DATABASE ")
 	if d.IfExists {
 		formatter.WriteString("IF EXISTS ")
 	}
@@ -1433,7 +1440,7 @@ func (d *DropDatabase) FormatSQL(formatter *Formatter) {
 }
 
 func (d *DropStmt) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("DROP ")
+	formatter.WriteString(dropVerb(d.detach) + " ")
 	if d.IsTemporary {
 		formatter.WriteString("TEMPORARY ")
 	}
@@ -1452,7 +1459,7 @@ func (d *DropStmt) FormatSQL(formatter *Formatter) {
 }
 
 func (d *DropUserOrRole) FormatSQL(formatter *Formatter) {
-	formatter.WriteString("DROP " + d.Target + " ")
+	formatter.WriteString(dropVerb(d.detach) + " " + d.Target + " ")
 	if d.IfExists {
 		formatter.WriteString("IF EXISTS ")
 	}
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 9f38ef9..f11487d 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -53,18 +53,34 @@ func (p *Parser) parseDDL(pos Pos) (DDL, error) {
 		}
 	case p.matchKeyword(KeywordDrop),
 		p.matchKeyword(KeywordDetach):
+		detach := p.matchKeyword(KeywordDetach)
 		_ = p.lexer.consumeToken()
 		switch {
 		case p.matchKeyword(KeywordDatabase):
-			return p.parseDropDatabase(pos)
+			stmt, err := p.parseDropDatabase(pos)
+			if err != nil {
+				return nil, err
+			}
+			stmt.detach = detach
+			return stmt, nil
 		case p.matchKeyword(KeywordTemporary),
 			p.matchKeyword(KeywordView),
 			p.matchKeyword(KeywordDictionary),
 			p.matchKeyword(KeywordTable):
-			return p.parseDropStmt(pos)
+			stmt, err := p.parseDropStmt(pos)
+			if err != nil {
+				return nil, err
+			}
+			stmt.detach = detach
+			return stmt, nil
 		case p.matchKeyword(KeywordUser),
 			p.matchKeyword(KeywordRole):
-			return p.parserDropUserOrRole(pos)
+			stmt, err := p.parserDropUserOrRole(pos)
+			if err != nil {
+				return nil, err
+			}
+			stmt.detach = detach
+			return stmt, nil
 		default:
 			return nil, fmt.Errorf("expected keyword: DATABASE|TABLE, but got %q", p.currentTokenString())
 		}
-- 
2.43.0


From 32da40572f1aabb542a644f6084406b1e4ba56be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:50 +0000
Subject: [PATCH 84/85] fix: AS SELECT in a window's PARTITION BY is an alias
 again

---
 parser/parser_query.go | 2 +-
 parser/parser_table.go | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/parser_query.go b/parser/parser_query.go
index 0f3fb6f..8099c3a 100644
--- a/parser/parser_query.go
+++ b/parser/parser_query.go
@@ -931,7 +931,7 @@ func (p *Parser) parseWindowCondition(pos Pos) (*WindowExpr, error) {
 			return nil, err
 		}
 	}
-	partitionBy, err := p.tryParsePartitionByClause(pos)
+	partitionBy, err := p.tryParsePartitionByClause(pos, p.parseColumnExprListWithLParen)
 	if err != nil {
 		return nil, err
 	}
diff --git a/parser/parser_table.go b/parser/parser_table.go
index f11487d..29498b5 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -938,7 +938,8 @@ func (p *Parser) tryParseClusterClause(pos Pos) (*ClusterClause, error) {
 	}, nil
 }
 
-func (p *Parser) tryParsePartitionByClause(pos Pos) (*PartitionByClause, error) {
+// parseList parses the list of partition expressions.
+func (p *Parser) tryParsePartitionByClause(pos Pos, parseList func(Pos) (*ColumnExprList, error)) (*PartitionByClause, error) {
 	if !p.tryConsumeKeywords(KeywordPartition) {
 		return nil, nil // nolint
 	}
@@ -948,7 +949,7 @@ func (p *Parser) tryParsePartitionByClause(pos Pos) (*PartitionByClause, error)
 	}
 
 	// parse partition key list
-	columnExpr, err := p.parseTableKeyList(p.Pos())
+	columnExpr, err := parseList(p.Pos())
 	if err != nil {
 		return nil, err
 	}
@@ -1518,7 +1519,7 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 			if engineExpr.PartitionBy != nil {
 				return nil, errors.New("duplicate PARTITION BY clause")
 			}
-			partitionBy, err := p.tryParsePartitionByClause(p.Pos())
+			partitionBy, err := p.tryParsePartitionByClause(p.Pos(), p.parseTableKeyList)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 46172652ac5821d97e58d0e912868fad91d91864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:39 +0000
Subject: [PATCH 85/85] fix: keep an empty KERBEROS REALM in formatted text

---
 parser/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/format.go b/parser/format.go
index d4d0957..f7891e5 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -572,7 +572,7 @@ func (a *AuthenticationClause) FormatSQL(formatter *Formatter) {
 	if a.IsKerberos {
 		formatter.Break()
 		formatter.WriteString("WITH kerberos")
-		if a.KerberosRealm != nil && a.KerberosRealm.Literal != "" {
+		if a.KerberosRealm != nil {
 			formatter.WriteString(" REALM ")
 			formatter.WriteExpr(a.KerberosRealm)
 		}
-- 
2.43.0

