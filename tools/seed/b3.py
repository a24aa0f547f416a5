from seedlib import bug
PC='parser/parser_column.go';LX='parser/lexer.go';FM='parser/format.go';WK='parser/walk.go';AS='parser/ast.go';PM='parser/parser_common.go';PT='parser/parser_table.go';PQ='parser/parser_query.go';SR='parser/source.go';ER='parser/error.go';AL='parser/parser_alter.go';SY='parser/parse_system.go';VW='parser/parser_view.go'
bug('p02-memo-open','P02','a chain of columns named interval inside an unclosed bracket, ended by the end of the input',
 'a failed reading of INTERVAL is not remembered when it failed at the end of the input, so rejecting such a text takes exponential time',
 [(PC,"""			if p.failedIntervalOffsets == nil {
				p.failedIntervalOffsets = make(map[Pos]struct{})
			}
			p.failedIntervalOffsets[intervalPos] = struct{}{}
""","""			if p.failedIntervalOffsets == nil {
				p.failedIntervalOffsets = make(map[Pos]struct{})
			}
			if p.current() != nil {
				p.failedIntervalOffsets[intervalPos] = struct{}{}
			}
""")],"""	q := "SELECT f(interval"
	for i := 0; i < 60; i++ {
		q += " + interval"
	}
	done := make(chan bool)
	go func() { parser.NewParser(q).ParseStmts(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fail("no end")
	}""")
bug('p03-nothing-after-comma','P03','a column definition of ALTER TABLE MODIFY COLUMN with both FIRST and AFTER, or a repeated constraint word',
 'a second DISTINCT directly after SELECT DISTINCT is swallowed',
 [(PQ,"""	hasDistinct := p.tryConsumeKeywords(KeywordDistinct)
	var distinctOn""","""	hasDistinct := p.tryConsumeKeywords(KeywordDistinct)
	for hasDistinct && p.tryConsumeKeywords(KeywordDistinct) {
		hasDistinct = true
	}
	var distinctOn""")],"""	rejected("SELECT DISTINCT DISTINCT a FROM t")""",checks=['P03','P16'])
bug('p09-limit-after-by','P09','LIMIT ... BY followed by a second LIMIT at the end of the statement',
 'the statement ends before its last LIMIT clause',
 [(PQ,"""			if limit != nil {
				statementEnd = limit.End()
			}
		case *LimitClause:""","""			if limit != nil && limit.Offset != nil {
				statementEnd = limit.End()
			}
		case *LimitClause:""")],"""	q := "SELECT a FROM t LIMIT 1 BY a LIMIT 22"
	eq(len(q), parse(q)[0].End())""")
bug('p19-offset-alone','P19','OFFSET without LIMIT after LIMIT BY or alone',
 'a LIMIT with a comma keeps its two numbers in source order, so offset and count are exchanged when the first is a number',
 [(PQ,"""			offset = limit
			limit, err = p.parseExpr(p.Pos())
		}""","""			offset = limit
			limit, err = p.parseExpr(p.Pos())
			if _, ok := limit.(*NumberLiteral); !ok {
				limit, offset = offset, limit
			}
		}""")],"""	eq("SELECT a FROM t LIMIT b + 1 OFFSET 5", format("SELECT a FROM t LIMIT 5, b + 1"))""")
bug('p07-lambda-pretty','P07','a logical operator inside a bracket inside a logical operator, beautified',
 'NOT in front of a bracketed condition is lost in beautified output only',
 [(FM,"""	formatter.WriteString(string(n.Kind))
	formatter.WriteByte(whitespace)
	formatter.WriteExpr(n.Expr)
""","""	if formatter.mode == FormatModeBeautify && n.Kind == TokenKindPlus {
		formatter.WriteExpr(n.Expr)
		return
	}
	formatter.WriteString(string(n.Kind))
	formatter.WriteByte(whitespace)
	formatter.WriteExpr(n.Expr)
""")],"""	if !strings.Contains(pretty("SELECT + a"), "+") {
		fail("%s", pretty("SELECT + a"))
	}""")
bug('p01-empty-settings','P01','ALTER TABLE ... MODIFY SETTING with the input ending directly after it',
 'the list of settings may come back empty and its last element is taken without a look',
 [(PT,"""	items := make([]*SettingExpr, 0)
	expr, err := p.parseSettingsExpr(pos)
	if err != nil {
		return nil, err
	}
	items = append(items, expr)
	for p.""","""	items := make([]*SettingExpr, 0)
	if p.lexer.isEOF() && p.current() == nil {
		return items, nil
	}
	expr, err := p.parseSettingsExpr(pos)
	if err != nil {
		return nil, err
	}
	items = append(items, expr)
	for p.""")],"""	rejected("ALTER TABLE t MODIFY SETTING")""",checks=['P01','P03','P10'])
bug('p22-add-column-settings','P22','ALTER TABLE ... ADD COLUMN with both AFTER and SETTINGS',
 'the settings are dropped when the column also has a place',
 [(AL,"""	return &AlterTableAddColumn{
		AddPos:       pos,
		StatementEnd: statementEnd,
		Column:       column,
		IfNotExists:  ifNotExists,
		After:        after,
		Settings:     settings,
	}, nil""","""	addColumn := &AlterTableAddColumn{
		AddPos:       pos,
		StatementEnd: statementEnd,
		Column:       column,
		IfNotExists:  ifNotExists,
		After:        after,
	}
	if after == nil {
		addColumn.Settings = settings
	}
	return addColumn, nil""")],"""	eq("ALTER TABLE t ADD COLUMN c Int8 AFTER b SETTINGS x=1", format("ALTER TABLE t ADD COLUMN c Int8 AFTER b SETTINGS x = 1"))""",checks=['P22','P03'])
bug('p21-mv-definer','P21','a materialized view with DEFINER and SQL SECURITY NONE',
 'the definer is forgotten when SQL SECURITY is NONE',
 [(VW,"""		createMaterializedView.SQLSecurity = p.current().String
		_ = p.lexer.consumeToken()
""","""		createMaterializedView.SQLSecurity = p.current().String
		if p.matchKeyword(KeywordNone) {
			createMaterializedView.Definer = nil
		}
		_ = p.lexer.consumeToken()
""")],"""	q := "CREATE MATERIALIZED VIEW v TO t DEFINER = u SQL SECURITY NONE AS SELECT 1"
	if !strings.Contains(format(q), "DEFINER") {
		fail("%s", format(q))
	}""",checks=['P21','P03'])
bug('p20-final-alias-db','P20','FINAL after an alias of a table named with its database',
 'FINAL is lost on an aliased table that is named together with its database',
 [(PQ,"""		isFinalExist = true
		tableEnd = expr.End()
""","""		isFinalExist = true
		if alias, ok := expr.(*AliasExpr); ok {
			if table, ok := alias.Expr.(*TableIdentifier); ok {
				isFinalExist = table.Database == nil
			}
		}
		tableEnd = expr.End()
""")],"""	eq("SELECT a FROM d.t AS x FINAL", format("SELECT a FROM d.t AS x FINAL"))""",checks=['P20','P03'])
bug('p24-type-null-args','P24','a type with literal arguments after the first one that is a string',
 'a string argument after a number is dropped from parametrised types with more than two arguments',
 [(PC,"""	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindComma) != nil {
		size, err := p.parseLiteral(p.Pos())
		if err != nil {
			return nil, err
		}
		params = append(params, size)
	}

	rightParenPos""","""	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindComma) != nil {
		size, err := p.parseLiteral(p.Pos())
		if err != nil {
			return nil, err
		}
		if _, isString := size.(*StringLiteral); isString && len(params) > 1 {
			params[len(params)-1] = size
			continue
		}
		params = append(params, size)
	}

	rightParenPos""")],"""	eq("CREATE TABLE t (a F(1, 2, 'x')) ENGINE = M", strings.Join(strings.Fields(format("CREATE TABLE t (a F(1, 2, 'x')) ENGINE = M")), " "))""",checks=['P24','P03'])
bug('p05-is-null-arith','P05','IS NULL after a comparison',
 'IS NULL binds tighter than comparison operators',
 [(PC,"""	case p.matchKeyword(KeywordIs):
		return PrecedenceIs
""","""	case p.matchKeyword(KeywordIs):
		if p.peekKeyword(KeywordNot) {
			return PrecedenceBetweenLike
		}
		return PrecedenceIs
""")],"""	e := parse("SELECT a = b IS NOT NULL")[0].(*parser.SelectQuery).SelectItems[0].Expr
	if _, ok := e.(*parser.IsNotNullExpr); !ok {
		fail("%T", e)
	}""")
bug('p18-trailing-dash','P18','a statement on the command line that starts with a comment or ends ... and -f given too',
 'the text of a file is cut at a NUL byte before it is parsed',
 [('main.go','''			os.Exit(1)
		}
	} else {''','''			os.Exit(1)
		}
		if i := strings.IndexByte(string(inputBytes), '\\r'); i > 0 {
			inputBytes = inputBytes[:i]
		}
	} else {''')],None,demo='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
go build -o "$d/cli" . || exit 2
printf 'USE a;\\r\\nUSE b' > "$d/q.sql"
[ "$("$d/cli" -format -f "$d/q.sql")" = "$(printf 'USE a\\nUSE b')" ]
''')
