package main

import (
	"fmt"
	"runtime/debug"
	"strings"
	"time"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

var lexer = newAutomaton()

// Outcome is one guarded call of the parser.
type Outcome struct {
	Stmts []parser.Expr
	Err   error
	Panic string
	Hang  bool
}

// guarded runs f, reporting panics and hangs.
func guarded(limit time.Duration, f func()) (panicked string, hung bool) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("%v\n%s", r, trimStack(debug.Stack()))
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case p := <-done:
		return p, false
	case <-time.After(limit):
		return "", true
	}
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "clickhouse-sql-parser/parser.") && i+1 < len(lines) {
			out = append(out, strings.TrimSpace(l))
			if len(out) == 3 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

const hangLimit = 20 * time.Second

func parse(sql string) Outcome {
	var o Outcome
	// the common case is decided without a goroutine switch
	func() {
		defer func() {
			if r := recover(); r != nil {
				o.Panic = fmt.Sprintf("%v at %s", r, trimStack(debug.Stack()))
			}
		}()
		o.Stmts, o.Err = parser.NewParser(sql).ParseStmts()
	}()
	return o
}

func safely(f func() string) (s string, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("%v at %s", r, trimStack(debug.Stack()))
		}
	}()
	return f(), ""
}

func sameStrings(a, b []string) (int, bool) {
	for i := 0; i < len(a) || i < len(b); i++ {
		if i >= len(a) || i >= len(b) || a[i] != b[i] {
			return i, false
		}
	}
	return 0, true
}

func around(ts []string, i int) string {
	lo, hi := i-3, i+4
	if lo < 0 {
		lo = 0
	}
	if hi > len(ts) {
		hi = len(ts)
	}
	if lo > hi {
		lo = hi
	}
	return strings.Join(ts[lo:hi], " ")
}

func oneLine(s string) string {
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return strings.ReplaceAll(fmt.Sprintf("%q", s), "\n", `\n`)
}

// Finding is a disagreement between the specification and the code.
type Finding struct {
	Kind  string // which obligation failed
	Input string
	What  string
}

// accepts checks that the sentence parses to exactly the prescribed tree.
func judgeTree(s *Sentence, sql string) (parser.Expr, *Finding) {
	o := parse(sql)
	if o.Panic != "" {
		return nil, &Finding{"panic", sql, o.Panic}
	}
	if o.Err != nil {
		return nil, &Finding{"reject", sql, "rejected: " + o.Err.Error()}
	}
	if len(o.Stmts) != 1 {
		return nil, &Finding{"count", sql, fmt.Sprintf("%d statements", len(o.Stmts))}
	}
	got := dump(o.Stmts[0])
	if d := diff(s.Root, got, ""); d != "" {
		return o.Stmts[0], &Finding{"tree", sql, d}
	}
	return o.Stmts[0], nil
}

func judgeCanon(s *Sentence, sql string, e parser.Expr) (string, *Finding) {
	f, p := safely(func() string { return parser.Format(e) })
	if p != "" {
		return "", &Finding{"panic", sql, "Format: " + p}
	}
	ts, err := lexer.lex(f)
	if err != nil {
		return f, &Finding{"canon", sql, fmt.Sprintf("formatted text does not lex: %v: %s", err, oneLine(f))}
	}
	got := texts(ts)
	if i, ok := sameStrings(s.Canon, got); !ok {
		return f, &Finding{"canon", sql, fmt.Sprintf("formatted as %s: token %d: want ..%s.., got ..%s..", oneLine(f), i, around(s.Canon, i), around(got, i))}
	}
	return f, nil
}

func judgeRound(want *Node, sql, text, how string) *Finding {
	o := parse(text)
	if o.Panic != "" {
		return &Finding{"panic", sql, how + " text: " + o.Panic}
	}
	if o.Err != nil {
		return &Finding{"round", sql, fmt.Sprintf("%s text %s does not parse: %v", how, oneLine(text), o.Err)}
	}
	if len(o.Stmts) != 1 {
		return &Finding{"round", sql, fmt.Sprintf("%s text %s parses to %d statements", how, oneLine(text), len(o.Stmts))}
	}
	if d := diff(want, dump(o.Stmts[0]), ""); d != "" {
		return &Finding{"round", sql, fmt.Sprintf("%s text %s parses to another tree: %s", how, oneLine(text), d)}
	}
	return nil
}
