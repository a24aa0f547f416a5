package main

import (
	"fmt"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

func init() { checks["P01"] = checkP01 }

// exercise calls every operation on a tree; it returns what panicked.
func exercise(e parser.Expr) string {
	_, p := safely(func() string {
		parser.Format(e)
		f := parser.NewFormatter().WithBeautify()
		f.WriteExpr(e)
		_ = f.String()
		return ""
	})
	if p != "" {
		return "formatting: " + p
	}
	_, p = safely(func() string {
		_ = e.Accept(&parser.DefaultASTVisitor{})
		return ""
	})
	if p != "" {
		return "visiting: " + p
	}
	var at parser.Expr
	_, p = safely(func() string {
		parser.Walk(e, func(n parser.Expr) bool {
			at = n
			_ = n.Pos()
			_ = n.End()
			return true
		})
		return ""
	})
	if p != "" {
		return fmt.Sprintf("walking, at %T: %s", at, p)
	}
	return ""
}

// total checks that an arbitrary input yields a result or an error.
func (w *W) total(sql string) {
	o := w.parse(sql)
	if o.Panic != "" {
		w.c.report(&Finding{"panic", sql, "parsing: " + o.Panic})
		return
	}
	if o.Err != nil {
		if _, p := safely(func() string { return o.Err.Error() }); p != "" {
			w.c.report(&Finding{"panic", sql, "rendering the error: " + p})
		}
		return
	}
	w.c.enter(w.id, sql)
	for _, e := range o.Stmts {
		if e == nil {
			w.c.report(&Finding{"nil", sql, "nil statement returned"})
			continue
		}
		if p := exercise(e); p != "" {
			w.c.report(&Finding{"panic", sql, p})
		}
	}
	w.c.leave(w.id)
}

// mutation vocabulary: every token that occurs in some behaviour is used as a
// replacement; these are always tried.
var probes = []string{"(", ")", ",", ".", ";", "'s'", "1", "x", "*", "=", "-", "[", "]", "{", "}", ":", "::", "->", "?", "SELECT", "AS", "FROM", "NOT", "NULL", "INTERVAL", "BY", "ON", "WITH", "`q`", "'", "`", "/*", "0x", "1e", "@"}

func checkP01(c *Ctx) {
	// every prefix of every statement, and every statement less one token
	for _, src := range c.general(false) {
		c.sentences(src, func(w *W, s *Sentence) {
			sql, at := s.Render()
			w.total(sql)
			for i := range s.Toks {
				w.total(sql[:at[i][1]])
				if src.Sim > 0 || !c.Quick {
					w.total(sql[:at[i][0]] + sql[at[i][1]:])
				}
			}
			if w.rng.Intn(997) == 0 {
				c.sample(sql)
			}
		})
	}
	// every prefix continued with every probe, every deletion, replacement
	near := []Src{{Roots: allRoots(), Budget: 1}, {Roots: []string{"Select", "CreateTable"}, Budget: 10, Sim: 400}}
	if !c.Quick {
		near = []Src{{Roots: allRoots(), Budget: 2, Wild: true}, {Roots: allRoots(), Budget: 12, Sim: 30000, Wild: true}}
	}
	for _, src := range near {
		c.sentences(src, func(w *W, s *Sentence) {
			sql, at := s.Render()
			for i := range s.Toks {
				head, tail := sql[:at[i][0]], sql[at[i][1]:]
				w.total(head + tail)
				w.total(head + s.Toks[i].Text + " " + s.Toks[i].Text + tail)
				for _, p := range probes {
					w.total(head + p)
					w.total(head + p + tail)
				}
				for k := at[i][0] + 1; k < at[i][1]; k++ {
					w.total(sql[:k])
				}
			}
		})
	}
}
