package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

func atoiS(s string) int { n, _ := strconv.Atoi(s); return n }

func sortStyles(s []Style) {
	sort.Slice(s, func(i, j int) bool { return fmt.Sprint(s[i]) < fmt.Sprint(s[j]) })
}

// lexBehaviour replays a behaviour of Lexer.tla: a string of classes whose
// first lexeme (from class from up to to) the model gives.
func (w *W) lexBehaviour(res string, from, to int, classes []string) {
	if w.rng == nil {
		w.rng = rand.New(rand.NewSource(w.c.Seed*31 + int64(w.id)))
	}
	ended := strings.HasSuffix(res, "$")
	kind := strings.TrimSuffix(res, "$")
	var b strings.Builder
	var at []int
	for i, cl := range classes {
		at = append(at, b.Len())
		s := charOf(w.rng, cl)
		if cl == "oth" && i != from && w.rng.Intn(8) == 0 {
			s = ";"
		}
		// a NUL-free, line-comment-safe choice of everything else
		b.WriteString(s)
	}
	at = append(at, b.Len())
	str := b.String()
	atomic.AddInt64(&w.c.traces, 1)
	// 1. after an operand, as the next token of a statement that is complete
	for _, head := range []string{"USE a ", "USE a\n"} {
		sql := head + str
		o := w.parse(sql)
		if o.Panic != "" {
			w.c.report(&Finding{"panic", sql, o.Panic})
			return
		}
		var pe *parser.ParseError
		if o.Err != nil && !errors.As(o.Err, &pe) {
			w.c.report(&Finding{"error", sql, "unstructured error"})
			return
		}
		switch kind {
		case "none":
			if o.Err != nil || len(o.Stmts) != 1 {
				w.c.report(&Finding{"skip", sql, fmt.Sprintf("only blanks and comments follow, yet: %v", o.Err)})
			}
		case "error":
			if o.Err == nil {
				w.c.report(&Finding{"malformed", sql, "the malformed lexeme is not an error"})
			}
		default:
			tok := str[at[from]:at[to]]
			raw := tok
			off := len(head) + at[from]
			if kind == "string" || kind == "backtick" || kind == "dquote" {
				raw = tok[1 : len(tok)-1]
				off++
			}
			if o.Err == nil {
				w.c.report(&Finding{"missed", sql, fmt.Sprintf("the %s %q after the statement is not an error", kind, tok)})
				continue
			}
			if pe.Got == nil || pe.Got.String != raw || int(pe.Got.Pos) != off || int(pe.Got.End) != off+len(raw) {
				// a malformed token after the first may be reported instead
				got := "nothing"
				if pe.Got != nil {
					got = fmt.Sprintf("%q at %d..%d", pe.Got.String, pe.Got.Pos, pe.Got.End)
				}
				w.c.report(&Finding{"token", sql, fmt.Sprintf("the first token is the %s %q at %d..%d; reported: %s (%s)", kind, raw, off, off+len(raw), got, oneLine(pe.Error()))})
			}
		}
	}
	// 2. as an operand
	if kind == "error" {
		for _, head := range []string{"SELECT ", "SELECT a = ", "SELECT a, ", "SET a = "} {
			sql := head + str
			if o := w.parse(sql); o.Panic != "" {
				w.c.report(&Finding{"panic", sql, o.Panic})
			} else if o.Err == nil {
				w.c.report(&Finding{"malformed", sql, "the malformed lexeme is accepted as an operand"})
			}
		}
	}
	if !ended {
		return
	}
	tok := str[at[from]:at[to]]
	var want *Node
	pre := "SET a = "
	field := func(n *Node) *Node { return nodeAt(n, "Settings", "Items", "Expr") }
	switch kind {
	case "ident", "backtick", "dquote":
		pre = "USE "
		field = func(n *Node) *Node { return nodeAt(n, "Database") }
		want = newNode("Ident")
		q, name := parser.Unquoted, tok
		if kind == "backtick" {
			q, name = parser.BackTicks, tok[1:len(tok)-1]
		} else if kind == "dquote" {
			q, name = parser.DoubleQuote, tok[1:len(tok)-1]
		}
		if name != "" {
			want.add("Name", Val{S: name})
		}
		want.add("QuoteType", Val{S: fmt.Sprint(q)})
	case "string":
		want = newNode("StringLiteral")
		if len(tok) > 2 {
			want.add("Literal", Val{S: tok[1 : len(tok)-1]})
		}
	case "int", "hexint", "float":
		want = newNode("NumberLiteral")
		sign := []string{"", "-", "+"}[w.rng.Intn(3)]
		pre = "SELECT a = " + sign
		field = func(n *Node) *Node { return nodeAt(n, "SelectItems", "Expr", "RightExpr") }
		want.add("Literal", Val{S: sign + tok})
		base := 10
		if kind == "hexint" {
			base = 16
		}
		want.add("Base", Val{S: fmt.Sprint(base)})
	default:
		return
	}
	if from != 0 && strings.TrimSpace(str[:at[from]]) != "" || from != 0 && (strings.HasSuffix(pre, "-") || strings.HasSuffix(pre, "+")) {
		return
	}
	sql := pre + str
	o := w.parse(sql)
	if o.Err != nil || len(o.Stmts) != 1 {
		w.c.report(&Finding{"reject", sql, fmt.Sprintf("the %s %q is rejected: %v", kind, tok, o.Err)})
		return
	}
	if d := diff(want, field(dump(o.Stmts[0])), ""); d != "" {
		w.c.report(&Finding{"text", sql, fmt.Sprintf("the %s %q is recorded differently: %s", kind, tok, d)})
	}
}

// nodeAt follows fields down a tree.
func nodeAt(n *Node, fields ...string) *Node {
	for _, f := range fields {
		if n == nil || len(n.Vals[f]) == 0 {
			return nil
		}
		n = n.Vals[f][0].Node
	}
	return n
}
