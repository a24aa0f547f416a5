package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

func init() { checks["P10"] = checkP10 }

// lineCol is the line and column of a byte offset.
func lineCol(s string, off int) (line, col, start int) {
	start = strings.LastIndexByte(s[:off], '\n') + 1
	return strings.Count(s[:off], "\n") + 1, off - start + 1, start
}

// tokenAt finds the token starting (inside its quotes) at off.
func tokenAt(sql string, ls []Lexeme, off int) (Lexeme, string, bool) {
	for _, l := range ls {
		switch l.Kind {
		case "string", "backtick", "dquote":
			if l.Pos+1 == off {
				return l, l.Text[1 : len(l.Text)-1], true
			}
		default:
			if l.Pos == off {
				return l, l.Text, true
			}
		}
	}
	return Lexeme{}, "", false
}

// errorOracle judges the error for a rejected input; its first tokens are toks
// as far as they agree, and these begin a statement.
func (w *W) errorOracle(sql string, toks []Tok) *Finding {
	o := w.parse(sql)
	if o.Panic != "" {
		return &Finding{"panic", sql, o.Panic}
	}
	if o.Err == nil {
		return nil
	}
	w.c.count("rejected", 1)
	if len(o.Stmts) != 0 {
		return &Finding{"both", sql, "statements and an error are returned"}
	}
	var pe *parser.ParseError
	if !errors.As(o.Err, &pe) {
		return &Finding{"plain", sql, fmt.Sprintf("unstructured error: %v", o.Err)}
	}
	bad := func(kind, f string, a ...interface{}) *Finding {
		return &Finding{kind, sql, fmt.Sprintf(f, a...) + ": " + oneLine(o.Err.Error())}
	}
	off := int(pe.Pos)
	if off < 0 || off > len(sql) {
		return bad("offset", "offset %d is outside the input of %d bytes", off, len(sql))
	}
	line, col, start := lineCol(sql, off)
	if pe.Line != line || pe.Column != col {
		return bad("linecol", "offset %d is line %d column %d, reported %d:%d", off, line, col, pe.Line, pe.Column)
	}
	ls, lexErr := lexer.lex(sql)
	gotText := ""
	if pe.Got == nil {
		if off != len(sql) {
			_, err := lexer.scan(sql, off)
			broken := lexer.brokenAt(sql)
			signed := (sql[off] == '-' || sql[off] == '+') && broken == off+1
			if err == nil && !(lexErr != nil && (broken == off || signed)) {
				return bad("got", "no token reported at offset %d, yet a token stands there", off)
			}
		}
	} else {
		gotText = pe.Got.String
		if pe.Got.Pos != pe.Pos {
			return bad("got", "the reported token starts at %d, the error is at %d", pe.Got.Pos, pe.Pos)
		}
		l, raw, ok := tokenAt(sql, ls, off)
		// a sign may or may not belong to the number after it
		if !ok || raw != gotText || int(pe.Got.End) != off+len(raw) {
			return bad("got", "the reported token %q (%d..%d) is not the token at offset %d (%s %q)", gotText, pe.Got.Pos, pe.Got.End, off, l.Kind, raw)
		}
		for _, k := range pe.Expected {
			if k == pe.Got.Kind && k != parser.TokenKindIdent {
				return bad("expected", "expected %q is what was found", k)
			}
		}
		if pe.Keyword != "" && l.Kind == "ident" && strings.EqualFold(pe.Keyword, gotText) {
			return bad("expected", "expected keyword %q is what was found", pe.Keyword)
		}
	}
	viable, k, back, retried := 0, 0, 0, false
	for i, l := range ls {
		if k == 0 && l.Text == ";" {
			continue
		}
		// the last lexeme before a malformed one may be part of it
		if k == len(toks) || l.Text != toks[k].Text || i == len(ls)-1 && lexErr != nil {
			break
		}
		viable = l.End
		if l.End > off {
			back++
		}
		// words read as an operator first and as a name when that fails
		if strings.EqualFold(l.Text, "INTERVAL") || strings.EqualFold(l.Text, "CASE") {
			retried = true
		}
		k++
	}
	// a token that begins a pair of keywords, or a special argument list, may
	// be the one reported when the second is missing
	if off < viable && back >= 4 && !retried {
		return bad("early", "the error is at offset %d, although the first %d bytes begin a statement", off, viable)
	}
	// the message
	parts := strings.SplitN(o.Err.Error(), "\n", 2)
	if want := fmt.Sprintf("line %d:%d ", line, col); !strings.HasPrefix(parts[0], want) || len(parts[0]) == len(want) {
		return bad("message", "the message does not start with %q and a summary", want)
	}
	text := sql[start:]
	if i := strings.IndexByte(text, '\n'); i >= 0 {
		text = text[:i]
	}
	text = strings.TrimSuffix(text, "\r")
	tail := text + "\n" + strings.Repeat(" ", col-1) + strings.Repeat("^", max(1, len(gotText))) + "\n"
	if !strings.HasSuffix(o.Err.Error(), "\n"+tail) {
		return bad("caret", "the message does not end with the line and a caret under column %d of width %d", col, max(1, len(gotText)))
	}
	return nil
}

// brokenAt is the offset of the first malformed lexeme, -1 if there is none.
func (a *Automaton) brokenAt(s string) int {
	for i := 0; i < len(s); {
		lx, err := a.scan(s, i)
		if err != nil {
			return i
		}
		i = lx.End
	}
	return -1
}

func checkP10(c *Ctx) {
	r := c.newRenderer()
	near := []Src{{Roots: allRoots(), Budget: 1, Wild: true}, {Roots: allRoots(), Budget: 10, Sim: 1500, Wild: true}}
	if !c.Quick {
		near = []Src{{Roots: allRoots(), Budget: 2, Wild: true}, {Roots: allRoots(), Budget: 12, Sim: 30000, Wild: true}}
	}
	for _, src := range near {
		c.sentences(src, func(w *W, s *Sentence) {
			sql, at := s.Render()
			if w.rng.Intn(2) == 0 { // other spacing, lines and comments
				if x, y, ok := r.render(w.rng, s, r.styles[w.rng.Intn(len(r.styles))]); ok {
					sql, at = x, y
				}
			}
			if o := w.parse(sql); o.Err != nil || o.Panic != "" {
				c.count("not_accepted", 1)
				return
			}
			w.some(sql)
			for i := range s.Toks {
				head, tail := sql[:at[i][0]], sql[at[i][1]:]
				c.report(w.errorOracle(sql[:at[i][1]], s.Toks))
				c.report(w.errorOracle(head+tail, s.Toks[:i]))
				c.report(w.errorOracle(head+s.Toks[i].Text+" "+s.Toks[i].Text+tail, s.Toks[:i+1]))
				for _, p := range probes {
					c.report(w.errorOracle(head+p, s.Toks[:i]))
					c.report(w.errorOracle(head+p+" "+tail, s.Toks[:i]))
				}
				if n := at[i][1] - at[i][0]; n > 1 {
					c.report(w.errorOracle(sql[:at[i][0]+1+w.rng.Intn(n-1)], s.Toks[:i]))
				}
			}
		})
	}
}
