package main

import (
	"fmt"
	"strings"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

func init() {
	checks["P06"] = checkP06
	checks["P07"] = checkP07
	checks["P08"] = checkP08
}

// note reports whether the sentence carries the annotation known=id.
func (s *Sentence) note(id string) bool {
	for _, n := range s.Notes {
		if n == "known="+id {
			return true
		}
	}
	return false
}

func beautify(e parser.Expr, indent string, set bool) string {
	f := parser.NewFormatter().WithBeautify()
	if set {
		f = f.WithIndent(indent)
	}
	f.WriteExpr(e)
	return f.String()
}

// mutants calls fn with inputs one token away from the sentence.
func (s *Sentence) mutants(fn func(sql string)) {
	sql, at := s.Render()
	for i := range s.Toks {
		head, tail := sql[:at[i][0]], sql[at[i][1]:]
		fn(sql[:at[i][1]])
		fn(head + tail)
		fn(head + s.Toks[i].Text + " " + s.Toks[i].Text + tail)
		if i > 0 {
			fn(sql[:at[i-1][0]] + s.Toks[i].Text + " " + s.Toks[i-1].Text + tail)
		}
		for _, p := range probes {
			fn(head + p + tail)
			fn(head + p + " " + s.Toks[i].Text + tail)
		}
	}
}

// roundTrip: the compact text of what was parsed parses to the same tree.
func (w *W) roundTrip(sql string, o Outcome) *Finding {
	for _, e := range o.Stmts {
		text, p := safely(func() string { return parser.Format(e) })
		if p != "" {
			return &Finding{"panic", sql, "Format: " + p}
		}
		w.c.eval(1)
		if f := judgeRound(dump(e), sql, text, "formatted"); f != nil {
			return f
		}
	}
	return nil
}

func (c *Ctx) pick(quick, thorough []Src) []Src {
	if c.Quick {
		return quick
	}
	return thorough
}

func checkP06(c *Ctx) {
	for _, src := range c.general(true) {
		c.sentences(src, func(w *W, s *Sentence) {
			sql, _ := s.Render()
			o := w.parse(sql)
			if o.Err != nil || o.Panic != "" {
				c.count("rejected", 1)
				return
			}
			f := w.roundTrip(sql, o)
			if f != nil && s.note("partition-id") && strings.Contains(f.What, "PartitionClause.ID: want") {
				c.deviates("partition-id", f)
				return
			}
			c.report(f)
			w.some(sql)
		})
	}
}

func checkP07(c *Ctx) {
	indents := []string{"  ", "\t", "    ", " ", ""}
	for _, src := range c.general(true) {
		c.sentences(src, func(w *W, s *Sentence) {
			sql, _ := s.Render()
			o := w.parse(sql)
			if o.Err != nil || o.Panic != "" {
				c.count("rejected", 1)
				return
			}
			for _, e := range o.Stmts {
				c.report(w.beautyOracle(sql, e, indents[w.rng.Intn(len(indents))]))
			}
			w.some(sql)
		})
	}
}

// beautyOracle: beautified text has the tokens of compact text, byte for
// byte, and parses to the same tree.
func (w *W) beautyOracle(sql string, e parser.Expr, indent string) *Finding {
	var compact, text, dflt string
	if _, p := safely(func() string {
		compact = parser.Format(e)
		text = beautify(e, indent, true)
		dflt = beautify(e, "", false)
		return ""
	}); p != "" {
		return &Finding{"panic", sql, "Format: " + p}
	}
	w.c.eval(2)
	want, err := lexer.lex(compact)
	if err != nil {
		return &Finding{"lex", sql, fmt.Sprintf("compact text %s does not lex: %v", oneLine(compact), err)}
	}
	for _, t := range []string{text, dflt} {
		got, err := lexer.lex(t)
		if err != nil {
			return &Finding{"lex", sql, fmt.Sprintf("beautified text %s does not lex: %v", oneLine(t), err)}
		}
		if i, ok := sameStrings(texts(want), texts(got)); !ok {
			return &Finding{"canon", sql, fmt.Sprintf("beautified (indent %q) as %s: token %d: want ..%s.., got ..%s..", indent, oneLine(t), i, around(texts(want), i), around(texts(got), i))}
		}
		if f := gapsBlank(t, got); f != "" {
			return &Finding{"gap", sql, fmt.Sprintf("beautified as %s: %s", oneLine(t), f)}
		}
	}
	return judgeRound(dumpOf(compact), sql, text, "beautified")
}

// dumpOf parses a compact text; the tree the beautified text must give.
func dumpOf(sql string) *Node {
	o := parse(sql)
	if o.Err != nil || len(o.Stmts) != 1 {
		return nil
	}
	return dump(o.Stmts[0])
}

// gapsBlank: only blanks between tokens (no comments, nothing else).
func gapsBlank(text string, ts []Lexeme) string {
	p := 0
	for _, t := range append(append([]Lexeme(nil), ts...), Lexeme{Pos: len(text), End: len(text)}) {
		if strings.TrimSpace(text[p:t.Pos]) != "" {
			return fmt.Sprintf("text between tokens: %q", text[p:t.Pos])
		}
		p = t.End
	}
	return ""
}

func checkP08(c *Ctx) {
	for _, src := range c.general(true) {
		c.sentences(src, func(w *W, s *Sentence) {
			sql, _ := s.Render()
			o := w.parse(sql)
			if o.Err != nil || o.Panic != "" || len(o.Stmts) != 1 {
				c.count("rejected", 1)
				return
			}
			c.report(w.stableOracle(s, sql, o.Stmts[0]))
			w.some(sql)
		})
	}
}

// stableOracle: the compact text consists of the canonical tokens, with the
// fixed spacing rules; formatting it again, in either mode and from either
// text, changes nothing.
func (w *W) stableOracle(s *Sentence, sql string, e parser.Expr) *Finding {
	text, f := judgeCanon(s, sql, e)
	if f != nil {
		return f
	}
	if m := spacing(text); m != "" {
		return &Finding{"space", sql, fmt.Sprintf("formatted as %s: %s", oneLine(text), m)}
	}
	pretty, p := safely(func() string { return beautify(e, "", false) })
	if p != "" {
		return &Finding{"panic", sql, "beautify: " + p}
	}
	for _, from := range []string{text, pretty} {
		o := w.parse(from)
		if o.Err != nil || o.Panic != "" || len(o.Stmts) != 1 {
			return &Finding{"again", sql, fmt.Sprintf("formatted text %s does not parse again: %v %s", oneLine(from), o.Err, o.Panic)}
		}
		if t := parser.Format(o.Stmts[0]); t != text {
			return &Finding{"again", sql, fmt.Sprintf("formatted as %s, formatting that again gives %s", oneLine(text), oneLine(t))}
		}
		if t := beautify(o.Stmts[0], "", false); t != pretty {
			return &Finding{"again", sql, fmt.Sprintf("beautified as %s, beautifying that again gives %s", oneLine(pretty), oneLine(t))}
		}
	}
	return nil
}

// spacing checks the spacing rules of compact text.
func spacing(text string) string {
	ts, err := lexer.lex(text)
	if err != nil {
		return err.Error()
	}
	p := 0
	for i, t := range ts {
		gap := text[p:t.Pos]
		// one blank too many, as the golden files have it
		if t.Text == "AS" && gap == "  " || t.Text == "SKIP" && i+1 < len(ts) && ts[i+1].Text == "REGEXP" && gap != "" {
			gap = gap[1:]
		}
		switch {
		case gap != "" && gap != " ":
			return fmt.Sprintf("%q before %q", gap, t.Text)
		case i == 0 && gap != "":
			return "leading blank"
		case gap == " " && (t.Text == "," || t.Text == ")" || t.Text == "]"):
			return fmt.Sprintf("blank before %q", t.Text)
		case gap == " " && i > 0 && (ts[i-1].Text == "(" || ts[i-1].Text == "["):
			return fmt.Sprintf("blank after %q", ts[i-1].Text)
		}
		p = t.End
	}
	if p != len(text) {
		return "trailing blank"
	}
	return ""
}
