package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

func init() { checks["P17"] = checkP17 }

// entry is a statement text with what the parser makes of it alone.
type entry struct {
	sql   string
	tree  string // "" if it is rejected
	off   int    // offset of the error
	last  int    // offset of the last token
	atEnd bool   // the error is at the last token or the end
}

// positions lists all recorded positions of a tree, and what Pos and End
// return, as strings relative to base; an unset (zero) position stays "0".
func positions(e parser.Expr, base int) []string {
	var out []string
	seen := map[uintptr]bool{}
	rel := func(p parser.Pos) string {
		if int(p) < base {
			return fmt.Sprintf("=%d", int(p))
		}
		return fmt.Sprint(int(p) - base)
	}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Ptr:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			if x, ok := v.Interface().(parser.Expr); ok {
				out = append(out, v.Elem().Type().Name()+":"+rel(x.Pos())+".."+rel(x.End()))
			}
			walk(v.Elem())
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath != "" {
					continue
				}
				if f := v.Field(i); f.Type() == posType {
					out = append(out, v.Type().Field(i).Name+"="+rel(parser.Pos(f.Int())))
				} else {
					walk(f)
				}
			}
		}
	}
	walk(reflect.ValueOf(e))
	return out
}

// samePositions: equal, but a position that is 0 alone may be unset.
func samePositions(alone, shifted []string) (string, bool) {
	if len(alone) != len(shifted) {
		return "different number of positions", false
	}
	for i := range alone {
		a, b := alone[i], shifted[i]
		if a == b || strings.ReplaceAll(strings.ReplaceAll(b, "=0", "0"), "=", "") == strings.ReplaceAll(a, "=", "") {
			continue
		}
		return fmt.Sprintf("%s alone, %s in the batch", a, b), false
	}
	return "", true
}

// pool collects statement texts from behaviours of the statement machine,
// and texts that are rejected, one token away from them.
func (c *Ctx) pool(src Src) (good, bad []entry) {
	var mu sync.Mutex
	c.sentences(src, func(w *W, s *Sentence) {
		sql, at := s.Render()
		g, ok := w.alone(sql)
		if !ok {
			return
		}
		var b []entry
		if g.tree == "" {
			b = append(b, g)
		}
		for k := 0; k < 2; k++ {
			i := w.rng.Intn(len(at))
			text := sql[:at[i][1]]
			switch w.rng.Intn(3) {
			case 0:
				text = sql[:at[i][0]] + sql[at[i][1]:]
			case 1:
				text = sql[:at[i][0]] + probes[w.rng.Intn(len(probes))] + " " + sql[at[i][1]:]
			}
			if x, ok := w.alone(text); ok && x.tree == "" {
				b = append(b, x)
			}
		}
		mu.Lock()
		if g.tree != "" {
			good = append(good, g)
		}
		bad = append(bad, b...)
		mu.Unlock()
	})
	// the order of arrival depends on scheduling
	by := func(es []entry) {
		sort.Slice(es, func(i, j int) bool { return es[i].sql < es[j].sql })
	}
	by(good)
	by(bad)
	return
}

// alone judges one text on its own.  Texts that hold a separator or that do
// not split into tokens cannot be moved into a batch.
func (w *W) alone(sql string) (entry, bool) {
	sql = strings.TrimRight(sql, " \t\n")
	ls, err := lexer.lex(sql)
	if err != nil || len(ls) == 0 {
		return entry{}, false
	}
	for _, l := range ls {
		if l.Text == ";" {
			return entry{}, false
		}
	}
	o := w.parse(sql)
	if o.Panic != "" {
		w.c.report(&Finding{"panic", sql, o.Panic})
		return entry{}, false
	}
	if o.Err != nil {
		var pe *parser.ParseError
		if !errors.As(o.Err, &pe) {
			return entry{}, false
		}
		return entry{sql: sql, off: int(pe.Pos), last: ls[len(ls)-1].Pos, atEnd: int(pe.Pos) >= ls[len(ls)-1].Pos}, true
	}
	if len(o.Stmts) != 1 {
		w.c.report(&Finding{"count", sql, fmt.Sprintf("%d statements without a separator", len(o.Stmts))})
		return entry{}, false
	}
	return entry{sql: sql, tree: dump(o.Stmts[0]).String()}, true
}

// starters begin a statement and nothing else can they continue.
var starters = []string{"ALTER ", "DROP ", "TRUNCATE ", "RENAME ", "OPTIMIZE ", "USE ", "GRANT ", "CREATE ", "INSERT "}

func checkP17(c *Ctx) {
	r := c.newRenderer()
	items, sim, draws := 6, 4000, 60
	if !c.Quick {
		items, sim, draws = 7, 60000, 400
	}
	good, bad := c.pool(Src{Roots: allRoots(), Budget: 6, Sim: sim})
	more, moreBad := c.pool(Src{Roots: allRoots(), Budget: 1})
	good, bad = append(good, more...), append(bad, moreBad...)
	var startGood, startBad []int
	begins := func(e entry) bool {
		for _, s := range starters {
			if strings.HasPrefix(strings.ToUpper(e.sql), s) {
				return true
			}
		}
		return false
	}
	for i, e := range good {
		if begins(e) {
			startGood = append(startGood, i)
		}
	}
	for i, e := range bad {
		if begins(e) && !e.atEnd {
			startBad = append(startBad, i)
		}
	}
	c.count("statements", int64(len(good)))
	c.count("rejected_statements", int64(len(bad)))
	gap := func(rng *rand.Rand) string {
		for {
			st := r.styles[rng.Intn(len(r.styles))]
			if s := r.sep(rng, st.A); s != "" || rng.Intn(2) == 0 {
				if s == "" || strings.Contains("/-", s[:1]) {
					s = " " + s
				}
				return s
			}
		}
	}
	c.stream(TLCRun{Module: "Batch", Cfg: fmt.Sprintf("SPECIFICATION Spec\nCONSTANT MaxItems = %d\nINVARIANTS AllOrNothing InOrder Separated ErrorIsFirst Emit\nCHECK_DEADLOCK FALSE\n", items)}, func(w *W, line string) {
		f := tlaStrings(line)
		if len(f) != 4 || f[0] != "B" {
			return
		}
		seq := tlaStrings(f[1])
		w.rng = rand.New(rand.NewSource(hash64(f[1], fmt.Sprint(c.Seed))))
		for d := 0; d < draws; d++ {
			atomic.AddInt64(&c.traces, 1)
			var b strings.Builder
			at := make([]int, len(seq))
			ents := make([]entry, len(seq))
			b.WriteString(gap(w.rng))
			for i, it := range seq {
				joined := i > 0 && seq[i-1] != ";"
				if joined {
					b.WriteString(" ")
				}
				switch it {
				case "G":
					k := w.rng.Intn(len(good))
					if joined {
						k = startGood[w.rng.Intn(len(startGood))]
					}
					ents[i] = good[k]
				case "B":
					k := w.rng.Intn(len(bad))
					if joined {
						k = startBad[w.rng.Intn(len(startBad))]
					}
					// an incomplete text could be completed by what follows
					for i+1 < len(seq) && seq[i+1] != ";" && bad[k].atEnd {
						if k++; k == len(bad) {
							k = 0
						}
					}
					ents[i] = bad[k]
				default:
					ents[i] = entry{sql: ";"}
				}
				at[i] = b.Len()
				b.WriteString(ents[i].sql)
				b.WriteString(gap(w.rng))
			}
			c.report(w.batchOracle(b.String(), seq, ents, at, f[2] == "error", int(atoi(f[3]))-1))
		}
	})
}

func (w *W) batchOracle(sql string, seq []string, ents []entry, at []int, fails bool, bad int) *Finding {
	w.some(sql)
	o := w.parse(sql)
	if o.Panic != "" {
		return &Finding{"panic", sql, o.Panic}
	}
	if fails {
		if o.Err == nil {
			return &Finding{"accept", sql, fmt.Sprintf("accepted, although item %d (%s) is not a statement on its own", bad+1, oneLine(ents[bad].sql))}
		}
		if len(o.Stmts) != 0 {
			return &Finding{"partial", sql, "an error, and some of the statements"}
		}
		var pe *parser.ParseError
		if !errors.As(o.Err, &pe) {
			return &Finding{"plain", sql, "unstructured error"}
		}
		off := int(pe.Pos)
		if seq[bad] == "B" && (bad == 0 || seq[bad-1] == ";") {
			e := ents[bad]
			lo, hi := at[bad]+min(e.off, e.last), at[bad]+e.off
			if e.atEnd {
				// alone the end of the text is what fails; now a separator
				// follows, or more text
				hi = len(sql)
				if bad+1 < len(seq) && seq[bad+1] == ";" {
					hi = at[bad+1]
				}
			}
			if off < lo || off > hi {
				return &Finding{"where", sql, fmt.Sprintf("item %d (%s) alone fails at its offset %d, so the batch must fail at %d..%d; it fails at %d: %s", bad+1, oneLine(e.sql), e.off, lo, hi, off, oneLine(o.Err.Error()))}
			}
		} else if off < at[bad-1] {
			return &Finding{"where", sql, fmt.Sprintf("the failing item is at %d, the error at %d", at[bad-1], off)}
		}
		return nil
	}
	if o.Err != nil {
		return &Finding{"reject", sql, "rejected, although each statement is accepted alone: " + o.Err.Error()}
	}
	k := 0
	for i, it := range seq {
		if it != "G" {
			continue
		}
		if k >= len(o.Stmts) {
			return &Finding{"count", sql, fmt.Sprintf("only %d statements", len(o.Stmts))}
		}
		if got := dump(o.Stmts[k]).String(); got != ents[i].tree {
			return &Finding{"tree", sql, fmt.Sprintf("item %d (%s) alone is %s, in the batch %s", i+1, oneLine(ents[i].sql), ents[i].tree, got)}
		}
		// where a statement ends may depend on the text up to its separator,
		// never on anything before it or behind the separator
		end := len(sql)
		if i+1 < len(seq) {
			end = at[i+1] + 1
		}
		alone := w.parse(sql[at[i]:end])
		if alone.Err != nil || len(alone.Stmts) != 1 {
			return &Finding{"reject", sql[at[i]:end], fmt.Sprintf("accepted in a batch, not on its own: %v", alone.Err)}
		}
		if d, ok := samePositions(positions(alone.Stmts[0], 0), positions(o.Stmts[k], at[i])); !ok {
			return &Finding{"positions", sql, fmt.Sprintf("item %d (%s): %s", i+1, oneLine(ents[i].sql), d)}
		}
		k++
	}
	if k != len(o.Stmts) {
		return &Finding{"count", sql, fmt.Sprintf("%d statements, want %d", len(o.Stmts), k)}
	}
	return nil
}
