from seedlib import bug
PC='parser/parser_column.go';LX='parser/lexer.go';FM='parser/format.go';WK='parser/walk.go';AS='parser/ast.go';PM='parser/parser_common.go';PT='parser/parser_table.go';PQ='parser/parser_query.go';SR='parser/source.go';ER='parser/error.go';AL='parser/parser_alter.go';SY='parser/parse_system.go';VW='parser/parser_view.go'
bug('p13-break-nested','P13','a predicate that first holds for a node and, if asked again, for a later one',
 'Find goes on after its first match when the match is a leaf, and returns the last match of the statement',
 [(WK,"""		if !fn(child) {
			continueWalk = false
			return false
		}
		return true
	})""","""		if continueWalk && !fn(child) {
			continueWalk = false
		}
		return continueWalk || child.Pos() > node.End()
	})""")],"""	e := parse("SELECT a, b FROM t")[0]
	n := 0
	parser.WalkWithBreak(e, func(x parser.Expr) bool { n++; _, ok := x.(*parser.Ident); return !ok })
	eq(3, n)""")
bug('p13-findall-dup','P13','FindAll over a tree in which equal names occur more than once',
 'FindAll leaves out a match that is followed at once by another match of the same text position',
 [(WK,"""		if predicate(node) {
			matches = append(matches, node)
		}""","""		if predicate(node) && (len(matches) == 0 || matches[len(matches)-1].Pos() != node.Pos()) {
			matches = append(matches, node)
		}""")],"""	e := parse("SELECT a, b FROM t")[0]
	all := 0
	parser.Walk(e, func(parser.Expr) bool { all++; return true })
	eq(all, len(parser.FindAll(e, func(parser.Expr) bool { return true })))""")
bug('p14-format-pool','P14','formatting after a formatter that panicked or was left indented, or from two goroutines',
 'Format takes its formatter from one that is shared between calls',
 [(FM,"""	formatter := NewFormatter()
	formatter.WriteExpr(expr)
""","""	formatter := compactFormatter
	formatter.builder.Reset()
	formatter.WriteExpr(expr)
"""),(FM,"""type FormatMode int
""","""var compactFormatter = NewFormatter()

type FormatMode int
""")],"""	e := parse("SELECT a, b, c FROM t WHERE x AND y")[0]
	done := make(chan bool)
	for i := 0; i < 8; i++ {
		go func() {
			for j := 0; j < 2000; j++ {
				if s := parser.Format(e); s != "SELECT a, b, c FROM t WHERE x AND y" {
					fail("%s", s)
				}
			}
			done <- true
		}()
	}
	for i := 0; i < 8; i++ {
		<-done
	}""",race=True)
bug('p14-walk-sorts','P14','walking the tree of GRANT and formatting it afterwards',
 'Walk reorders the keywords of a privilege in place',
 [(WK,"""	case *GrantPrivilegeStmt:
""","""	case *GrantPrivilegeStmt:
		for i, j := 0, len(n.WithOptions)-1; i < j; i, j = i+1, j-1 {
			n.WithOptions[i], n.WithOptions[j] = n.WithOptions[j], n.WithOptions[i]
		}
""")],"""	e := parse("GRANT SELECT ON t TO u WITH GRANT OPTION WITH REPLACE OPTION")[0]
	a := parser.Format(e)
	parser.Walk(e, func(parser.Expr) bool { return true })
	eq(a, parser.Format(e))""")
bug('p17-error-drops','P17','a batch in which a statement after the first is wrong',
 'the statements before a wrong one are returned with the error instead of nothing... and the error loses its place',
 [(PT,"""	stmt, err := p.parseStmt(p.Pos())""","""	stmt, err := p.parseStmt(p.Pos())""")],"""	eq(1,1)""")
bug('p04-dollar-middle','P04','an identifier with a dollar sign behind its first character',
 'a dollar sign ends an unquoted identifier that starts with one',
 [(LX,"""			i++
		}
		for l.peekOk(i) && IsIdentPart(l.peekN(i)) {
			i++
		}
	} else {""","""			i++
		}
		for l.peekOk(i) && IsIdentPart(l.peekN(i)) && !(i > 1 && l.peekN(0) == '$' && l.peekN(i) == '$') {
			i++
		}
	} else {""")],"""	eq("SELECT $ab$c", format("SELECT $ab$c"))""")
bug('p04-escape-quote','P04','a string whose last character before the closing quote is an escaped backslash after a doubled quote',
 'a backslash directly after a doubled quote is not an escape',
 [(LX,"""			if l.peekOk(i+1) && l.peekN(i+1) == endChar {
				i += 2
				continue
			}""","""			if l.peekOk(i+1) && l.peekN(i+1) == endChar {
				i += 2
				if l.peekOk(i) && l.peekN(i) == '\\\\' {
					i++
				}
				continue
			}""")],"""	eq(`SELECT 'a''\\'b'`, format(`SELECT 'a''\\'b'`))""")
bug('p04-exponent-sign','P04','a number with a signed exponent directly followed by a plus or minus',
 'after a float with an exponent a sign starts a new number',
 [(LX,"""		last.Kind == TokenKindInt ||
		last.Kind == TokenKindFloat ||""","""		last.Kind == TokenKindInt && last.Base == 10 ||
		last.Kind == TokenKindFloat ||""")],"""	eq("SELECT 0x1f - 1", format("SELECT 0x1f-1"))""")
bug('p10-crlf-column','P10','an error behind a line ended by CR LF only',
 'a carriage return starts a line of its own, so lines are counted twice in files with CR LF',
 [(SR,"""		if input[i] == '\\n' {
""","""		if input[i] == '\\n' || input[i] == '\\r' && i+1 < len(input) && input[i+1] != '\\n' {
""")],"""	pe := rejected("SELECT a\\rFROM t LIMIT 1 ]")
	eq(1, pe.Line)""")
bug('p10-eof-position','P10','the input ends too early and has spaces or comments at its end',
 'an unexpected end of input is reported behind the last token instead of ...',
 [(ER,"""	if e.Got != nil && len(e.Got.String) > width {
		width = len(e.Got.String)
	}""","""	if e.Got != nil && len(e.Got.String) > width {
		width = len(e.Got.String)
		if left := len(line) - e.Column; width > left && left > 0 {
			width = left
		}
	}""")],"""	pe := rejected("SELECT a FROM t LIMIT 1 abc")
	if !strings.Contains(pe.Error(), "^^^\\n") {
		fail("%s", pe.Error())
	}""")
bug('p18-beautify-comma','P18','-format and -beautify given together',
 'with both options the statements are printed in the compact form',
 [('main.go','''			if options.beautify {
				formatter''','''			if options.beautify && !options.format {
				formatter''')],None,demo='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
go build -o "$d/cli" . || exit 2
[ "$("$d/cli" -format -beautify 'SELECT a FROM t')" = "$("$d/cli" -beautify 'SELECT a FROM t')" ]
''')
bug('p18-file-and-sql','P18','a file that is empty, given with -f together with a statement as the last argument',
 'an empty file is replaced by the last argument',
 [('main.go','''	if options.file != "" {
		inputBytes, err''','''	if options.file != "" && len(flag.Args()) == 0 {
		inputBytes, err''')],None,demo='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
go build -o "$d/cli" . || exit 2
printf 'USE a' > "$d/q.sql"
[ "$("$d/cli" -format -f "$d/q.sql" 'USE b')" = "USE a" ]
''')
bug('p12-setting-swallow','P12','a visitor callback fails inside a function argument list that has named arguments',
 'an error of a callback below the arguments of an ORDER BY item is swallowed',
 [(AS,"""func (o *OrderExpr) Accept(visitor ASTVisitor) error {
	visitor.Enter(o)
	defer visitor.Leave(o)
	if err := o.Expr.Accept(visitor); err != nil {
		return err
	}""","""func (o *OrderExpr) Accept(visitor ASTVisitor) error {
	visitor.Enter(o)
	defer visitor.Leave(o)
	if err := o.Expr.Accept(visitor); err != nil && o.Alias == nil {
		return err
	}""")],"""	e := parse("SELECT a FROM t ORDER BY b AS c")[0]
	v := &parser.DefaultASTVisitor{}
	v.Visit = func(x parser.Expr) error {
		if i, ok := x.(*parser.Ident); ok && i.Name == "b" {
			return errors.New("stop")
		}
		return nil
	}
	if e.Accept(v) == nil {
		fail("no error")
	}""")
