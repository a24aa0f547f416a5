from seedlib import bug
PC='parser/parser_column.go';LX='parser/lexer.go';FM='parser/format.go';WK='parser/walk.go';AS='parser/ast.go';PM='parser/parser_common.go';PT='parser/parser_table.go';PQ='parser/parser_query.go';SR='parser/source.go';ER='parser/error.go'
bug('p10-line-start','P10','the offending token is the first thing on its line',
 'an error at the first byte of a line is reported on the line before',
 [(SR,'''		return s[i] > offset
''','''		return s[i] >= offset && s[i] > 0
''')],'''	pe := rejected("SELECT a FROM t\\n)")
	eq("2 1", fmt.Sprint(pe.Line, pe.Column))''')
bug('p10-caret-lookahead','P10','a syntax error whose offending token is longer than 16 bytes',
 'the caret line is cut to sixteen carets although the token is longer',
 [(ER,'''	b.WriteString(strings.Repeat("^", width))
''','''	if width > 16 {
		width = 16
	}
	b.WriteString(strings.Repeat("^", width))
''')],'''	pe := rejected("SELECT a FROM t ORDER BY b LIMIT 1 abcdefghijklmnopqrstuvwxyz")
	if !strings.Contains(pe.Error(), strings.Repeat("^", 26)) {
		fail("%s", pe.Error())
	}''')
bug('p13-same-span','P13','the tree has a node whose only child covers exactly the same text, and traversal must visit both',
 'WalkWithBreak and Find skip every node that covers the same text as the root',
 [(WK,'''		if child == node {
			return true
		}''','''		if child == node || (child.Pos() == node.Pos() && child.End() == node.End()) {
			return true
		}''')],'''	e := parse("SELECT a")[0].(*parser.SelectQuery).SelectItems[0]
	_, ok := parser.Find(e, func(x parser.Expr) bool { _, ok := x.(*parser.Ident); return ok })
	eq(true, ok)''')
bug('p12-leave-skipped','P12','a visitor callback fails inside ALTER TABLE ... REPLACE PARTITION',
 'a node that was entered is not left when a callback below it fails',
 [(AS,'''func (a *AlterTableReplacePartition) Accept(visitor ASTVisitor) error {
	visitor.Enter(a)
	defer visitor.Leave(a)
	if err := a.Partition.Accept(visitor); err != nil {
		return err
	}
	if err := a.Table.Accept(visitor); err != nil {
		return err
	}
	return visitor.VisitAlterTableReplacePartition(a)
''','''func (a *AlterTableReplacePartition) Accept(visitor ASTVisitor) error {
	visitor.Enter(a)
	if err := a.Partition.Accept(visitor); err != nil {
		return err
	}
	if err := a.Table.Accept(visitor); err != nil {
		return err
	}
	err := visitor.VisitAlterTableReplacePartition(a)
	visitor.Leave(a)
	return err
''')],'''	e := parse("ALTER TABLE t REPLACE PARTITION p FROM u")[0]
	v := &vis{}
	v.Visit = func(x parser.Expr) error {
		if _, ok := x.(*parser.TableIdentifier); ok && v.open > 2 {
			return errors.New("stop")
		}
		return nil
	}
	if e.Accept(v) == nil {
		fail("no error")
	}
	eq(0, v.open)
}

type vis struct {
	parser.DefaultASTVisitor
	open int
}

func (v *vis) Enter(parser.Expr) { v.open++ }
func (v *vis) Leave(parser.Expr) { v.open--''')
bug('p11-fill-guard','P11','ORDER BY ... WITH FILL with STALENESS but without STEP',
 'Walk misses the STALENESS expression of WITH FILL when there is no STEP',
 [(WK,'''		if !Walk(n.Step, fn) {
			return false
		}
		if !Walk(n.Staleness, fn) {
			return false
		}''','''		if n.Step != nil {
			if !Walk(n.Step, fn) {
				return false
			}
			if !Walk(n.Staleness, fn) {
				return false
			}
		}''')],'''	n := 0
	parser.Walk(parse("SELECT a FROM t ORDER BY a WITH FILL STALENESS 7")[0], func(x parser.Expr) bool {
		if l, ok := x.(*parser.NumberLiteral); ok && l.Literal == "7" {
			n++
		}
		return true
	})
	eq(1, n)''')
bug('p14-distinct-flag','P14','two goroutines format one tree that holds SELECT DISTINCT, or a formatter panics half way',
 'formatting writes to the tree (and puts it back), a data race between formatters of a shared tree',
 [(FM,'''	formatter.WriteString("SELECT")
	if s.HasDistinct {
		formatter.WriteString(" DISTINCT")
''','''	formatter.WriteString("SELECT")
	if s.HasDistinct {
		s.HasDistinct = false
		defer func() { s.HasDistinct = true }()
		formatter.WriteString(" DISTINCT")
''')],'''	e := parse("SELECT DISTINCT a FROM t")[0]
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func() {
			for j := 0; j < 2000; j++ {
				if s := parser.Format(e); s != "SELECT DISTINCT a FROM t" {
					fail("%s", s)
				}
			}
			done <- true
		}()
	}
	for i := 0; i < 8; i++ {
		<-done
	}''',race=True)
bug('p14-keyword-cache','P14','keywords looked up from two goroutines at once',
 'the keyword lookup remembers answers in a shared map without a lock',
 [(LX,'''	return keywords.Contains(ident)
''','''	known, ok := keywordAnswers[ident]
	if !ok {
		known = keywords.Contains(ident)
		keywordAnswers[ident] = known
	}
	return known
'''),(LX,'''type Lexer struct {
''','''var keywordAnswers = map[string]bool{}

type Lexer struct {
''')],'''	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func(i int) {
			for j := 0; j < 500; j++ {
				parse(fmt.Sprintf("SELECT a%d_%d FROM t", i, j))
			}
			done <- true
		}(i)
	}
	for i := 0; i < 8; i++ {
		<-done
	}''',race=True)
bug('p18-one-formatter','P18','several statements in one text, printed with -beautify',
 'one formatter is used for all statements, so every statement is printed again with those before it',
 [('main.go','''		for _, stmt := range stmts {
			if options.beautify {
				formatter := clickhouse.NewFormatter()
				formatter.WithBeautify()
''','''		formatter := clickhouse.NewFormatter()
		for _, stmt := range stmts {
			if options.beautify {
				formatter.WithBeautify()
''')],None,demo='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
go build -o "$d/cli" . || exit 2
[ "$("$d/cli" -beautify 'USE a; USE b')" = "$(printf 'USE a\\nUSE b')" ]
''')
bug('p18-stdout-error','P18','a batch whose second statement is rejected',
 'the statements before a rejected one are printed on standard output and the status is 0',
 [('main.go','''	stmts, err := parser.ParseStmts()
	if err != nil {
		fmt.Fprintf(os.Stderr, "parse statements error: %s\\n", err.Error())
		os.Exit(1)
	}''','''	stmts, err := parser.ParseStmts()
	if err != nil {
		fmt.Fprintf(os.Stderr, "parse statements error: %s\\n", err.Error())
		if options.format || options.beautify {
			os.Exit(0)
		}
		os.Exit(1)
	}''')],None,demo='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
go build -o "$d/cli" . || exit 2
! "$d/cli" -format 'SELECT FROM' >/dev/null 2>&1
''')
bug('p17-memo-offset','P17','an INTERVAL that is a column name in one statement of a batch, at the offset where ... in the same batch',
 'a run of separators ends the batch: what follows is ignored',
 [(PT,'''		if p.matchTokenKind(";") {
			continue
		}
		stmt, err''','''		if p.matchTokenKind(";") {
			if len(stmts) > 0 && p.peekTokenKind(";") {
				break
			}
			continue
		}
		stmt, err''')],'''	eq("USE a; USE b", format("USE a;;; USE b"))''')

bug('p01-open-bracket-end','P01','the input ends directly after an opening bracket in an expression',
 'the parser dereferences a missing token and panics',
 [(PC,"""		if peek, _ := p.lexer.peekToken(); peek != nil {
			if peek.Kind == TokenKindKeyword && strings.EqualFold(peek.String, KeywordSelect) {""","""		if peek, err := p.lexer.peekToken(); err == nil {
			if peek.Kind == TokenKindKeyword && strings.EqualFold(peek.String, KeywordSelect) {""")],"""	rejected("SELECT (")""")
bug('p02-memo-last','P02','a long chain of columns named interval',
 'only the last failed reading of INTERVAL is remembered, so chains of such columns take exponential time',
 [(PC,"""			if p.failedIntervalOffsets == nil {
				p.failedIntervalOffsets = make(map[Pos]struct{})
			}
			p.failedIntervalOffsets[intervalPos] = struct{}{}
""","""			p.failedIntervalOffsets = map[Pos]struct{}{intervalPos: {}}
""")],"""	q := "SELECT interval"
	for i := 0; i < 60; i++ {
		q += " + interval"
	}
	done := make(chan bool)
	go func() { parser.NewParser(q).ParseStmts(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("no end")
	}""")
bug('p04-hex-tail','P04','a hexadecimal literal directly followed by a letter that is no hexadecimal digit',
 '0x1G is read as 0x1 with the alias G instead of being rejected',
 [(LX,"""	if (l.peekOk(i) && IsIdentPart(l.peekN(i))) || !hasNumberPart {""","""	if (base == 10 && l.peekOk(i) && IsIdentPart(l.peekN(i))) || !hasNumberPart {""")],"""	rejected("SELECT 0x1G")""")
bug('p06-double-sign','P06','a minus sign in front of a negative number or another minus sign',
 'nested minus signs are formatted as --, which starts a comment',
 [(FM,"""	formatter.WriteString(string(n.Kind))
	formatter.WriteByte(whitespace)
	formatter.WriteExpr(n.Expr)
""","""	formatter.WriteString(string(n.Kind))
	if _, nested := n.Expr.(*UnaryExpr); !nested || n.Kind != TokenKindMinus {
		formatter.WriteByte(whitespace)
	}
	formatter.WriteExpr(n.Expr)
""")],"""	q := format("SELECT - - a")
	eq(q, format(q))""")
bug('p05-between-and','P05','LIKE directly after the upper bound of BETWEEN',
 'the upper bound of BETWEEN swallows a following LIKE',
 [(PC if False else PQ,"""	andExpr, err := p.parseSubExpr(p.Pos(), PrecedenceBetweenLike)
""","""	andExpr, err := p.parseSubExpr(p.Pos(), PrecedenceCompare)
""")],"""	e := parse("SELECT x BETWEEN 1 AND a LIKE b")[0].(*parser.SelectQuery).SelectItems[0].Expr
	b, ok := e.(*parser.BinaryOperation)
	if !ok || b.Operation != "LIKE" {
		fail("%T", e)
	}""")
bug('p15-extract-unit','P15','the unit of EXTRACT written in lower or mixed case',
 'EXTRACT(year FROM x) is rejected although EXTRACT(YEAR FROM x) is accepted',
 [(PC,"""			if intervalUnits.Contains(strings.ToUpper(ident.Name)) && p.matchKeyword(KeywordFrom) {""","""			if intervalUnits.Contains(ident.Name) && p.matchKeyword(KeywordFrom) {""")],"""	format("SELECT EXTRACT(year FROM x)")""")
bug('p15-trim-form','P15','TRIM and friends written in lower case',
 'functions with keyword arguments are only recognised in the upper-case and lower-case spelling, not in mixed case',
 [(PT,"""		if form, ok := keywordArgFunctions[strings.ToUpper(ident.Name)]; ok {""","""		if form, ok := keywordArgFunctions[strings.Replace(ident.Name, strings.ToLower(ident.Name), strings.ToUpper(ident.Name), 1)]; ok {""")],"""	eq(strings.ToLower(format("SELECT TRIM(BOTH 'a' FROM b)")), strings.ToLower(format("SELECT Trim(BOTH 'a' FROM b)")))""")
bug('p20-final-sample','P20','FINAL together with SAMPLE on one table',
 'FINAL is lost when the table is also sampled',
 [(PQ,"""			HasFinal:     hasFinal,
			StatementEnd: statementEnd,
		}, nil
	default:""","""			HasFinal:     hasFinal && sampleRatio == nil,
			StatementEnd: statementEnd,
		}, nil
	default:""")],"""	eq("SELECT a FROM t FINAL SAMPLE 0.1", format("SELECT a FROM t FINAL SAMPLE 0.1"))""")
bug('p20-array-join-next','P20','a join after ARRAY JOIN',
 'what is joined after an ARRAY JOIN with more than one column is attached twice',
 [(PQ,"""			Left:        expr,
			Right:       rightExpr,
			Modifiers:   modifiers,
			Constraints: nil,
""","""			Left:        expr,
			Right:       rightExpr,
			Modifiers:   modifiers[:1],
			Constraints: nil,
""")],"""	n := parse("SELECT a FROM t LEFT ARRAY JOIN b")[0].(*parser.SelectQuery).From.Expr.(*parser.JoinExpr).Right.(*parser.JoinExpr)
	eq("[LEFT ARRAY JOIN]", fmt.Sprint(n.Modifiers))""")
bug('p19-limit-comma-by','P19','LIMIT offset, count BY',
 'offset and count change places when a LIMIT with a comma is part of LIMIT BY',
 [(PQ,"""	var by *ColumnExprList
	if !p.tryConsumeKeywords(KeywordBy) {
		return limit, nil
	}
""","""	var by *ColumnExprList
	if !p.tryConsumeKeywords(KeywordBy) {
		return limit, nil
	}
	if limit.Offset != nil && limit.Offset.Pos() < limit.Limit.Pos() {
		limit.Limit, limit.Offset = limit.Offset, limit.Limit
	}
""")],"""	eq("SELECT a FROM t LIMIT 2 OFFSET 1 BY a", format("SELECT a FROM t LIMIT 1, 2 BY a"))""")
