from seedlib import bug
PC='parser/parser_column.go';LX='parser/lexer.go';FM='parser/format.go';WK='parser/walk.go'
bug('p04-sign-after-float','P04','a sign directly after a floating-point literal',
 'a number after a float and a sign swallows the sign, so subtraction from a float is rejected',
 [(LX,'''		last.Kind == TokenKindFloat ||
''','')],'''	eq("SELECT 1.5 - 1", format("SELECT 1.5-1"))
	eq("SELECT 1 - 1", format("SELECT 1-1"))''')
bug('p15-comment-cr','P15','a line comment ended by a lone carriage return',
 'the comment runs on to the next line feed and swallows what follows',
 [(LX,'''	for l.peekOk(i) && l.peekN(i) != '\\r' && l.peekN(i) != '\\n' {''','''	for l.peekOk(i) && l.peekN(i) != '\\n' {''')],
 '''	eq(format("SELECT a FROM t WHERE b"), format("SELECT a -- c\\rFROM t WHERE b"))''')
bug('p06-clear-index-partition','P06','ALTER TABLE ... CLEAR INDEX IF EXISTS ... IN PARTITION',
 'the partition is dropped by the formatter when IF EXISTS is given',
 [(FM,'''	formatter.WriteString("CLEAR INDEX ")
	if a.IfExists {
		formatter.WriteString("IF EXISTS ")
	}
	formatter.WriteExpr(a.IndexName)
	if a.PartitionExpr != nil {
''','''	formatter.WriteString("CLEAR INDEX ")
	if a.IfExists {
		formatter.WriteString("IF EXISTS ")
	}
	formatter.WriteExpr(a.IndexName)
	if a.PartitionExpr != nil && !a.IfExists {
''')],'''	q := "ALTER TABLE t CLEAR INDEX IF EXISTS i IN PARTITION p"
	eq(q, format(q))''')
bug('p05-notin-like','P05','NOT IN after LIKE without parentheses',
 'NOT IN binds like LIKE, so a LIKE b NOT IN (c) groups to the left',
 [(PC,'''		case p.peekKeyword(KeywordIn):
			return precedenceIn
		case p.peekKeyword(KeywordLike), p.peekKeyword(KeywordIlike), p.peekKeyword(KeywordBetween):
			return PrecedenceBetweenLike''','''		case p.peekKeyword(KeywordIn), p.peekKeyword(KeywordLike), p.peekKeyword(KeywordIlike), p.peekKeyword(KeywordBetween):
			return PrecedenceBetweenLike''')],
 '''	b := parse("SELECT a LIKE b NOT IN (c)")[0].(*parser.SelectQuery).SelectItems[0].Expr.(*parser.BinaryOperation)
	eq("LIKE", b.Operation)''',checks=['P19'])
