package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

func init() { checks["P02"] = checkP02 }

// Cycle is a recursive construct of the grammar with a context for it.
type Cycle struct {
	Base       string
	U, V       []string // context
	A, B, Dflt []string
	Short      bool // at most one choice off the default path
}

// head is the trace up to and including the innermost construct.
func (y *Cycle) head(k int) []string {
	t := append([]string(nil), y.U...)
	for i := 0; i < k; i++ {
		t = append(t, y.A...)
	}
	t = append(t, y.Dflt...)
	open := 0
	for _, s := range t {
		if s == "#" {
			open--
		} else if len(s) > 1 && s[0] == '#' {
			open++
		}
	}
	for ; open > 0; open-- {
		t = append(t, "#")
	}
	return t
}

// pumped is the trace u a^k x b^k v.
func (y *Cycle) pumped(k int) []string {
	t := append([]string(nil), y.U...)
	for i := 0; i < k; i++ {
		t = append(t, y.A...)
	}
	t = append(t, y.Dflt...)
	for i := 0; i < k; i++ {
		t = append(t, y.B...)
	}
	return append(t, y.V...)
}

func pumpCfg(mode string, roots []string, budget int, view bool) string {
	s := machineCfg(roots, fmt.Sprint(budget), "", "")
	i := strings.Index(s, "INIT")
	s = s[:i] + fmt.Sprintf(" Mode = %q\nINIT PInit\nNEXT PNext\nINVARIANT PEmit\n", mode)
	if view {
		s += "VIEW CtxView\n"
	}
	return s
}

// cycles explores the recursive constructs of the grammar.
func (c *Ctx) cycles(roots []string, budget int) []*Cycle {
	type ctx struct{ u, v []string }
	ctxs := map[string]ctx{}
	run := func(mode string, b int, line func(f []string)) {
		st, err := runTLC(TLCRun{Module: "SqlPump", Cfg: pumpCfg(mode, roots, b, mode == "ctx"), Workers: 4, Line: func(l string) {
			if strings.HasPrefix(l, `<<"LEX`) {
				lexer.add(tlaStrings(l))
				return
			}
			line(tlaStrings(l))
		}})
		if err != nil {
			fatal("model checker: %v", err)
		}
		c.tlc = append(c.tlc, st)
	}
	for b := 1; b <= 3; b++ {
		found := map[string]ctx{}
		run("ctx", b, func(f []string) {
			u, v := tlaStrings(f[2]), tlaStrings(f[3])
			if o, ok := found[f[1]]; !ok || len(strings.Join(u, " "))+len(strings.Join(v, " ")) < len(strings.Join(o.u, " "))+len(strings.Join(o.v, " ")) ||
				len(strings.Join(u, " "))+len(strings.Join(v, " ")) == len(strings.Join(o.u, " "))+len(strings.Join(o.v, " ")) && strings.Join(u, " ") < strings.Join(o.u, " ") {
				found[f[1]] = ctx{u, v}
			}
		})
		for k, x := range found {
			if _, ok := ctxs[k]; !ok {
				ctxs[k] = x
			}
		}
	}
	var out []*Cycle
	seen := map[int64]bool{}
	for b := 1; b <= budget; b++ {
		run("cyc", b, func(f []string) {
			x, ok := ctxs[f[1]]
			if !ok {
				return
			}
			y := &Cycle{Base: f[1], U: x.u, V: x.v, A: tlaStrings(f[2]), B: tlaStrings(f[3]), Dflt: tlaStrings(f[4]), Short: b == 1}
			h := hash64(strings.Join(y.pumped(2), " "))
			if !seen[h] {
				seen[h] = true
				out = append(out, y)
			}
		})
	}
	sort.Slice(out, func(i, j int) bool { return strings.Join(out[i].pumped(1), " ") < strings.Join(out[j].pumped(1), " ") })
	return out
}

// work is the number of objects and bytes f allocates.
func work(f func()) (mallocs, bytes uint64) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.Mallocs - a.Mallocs, b.TotalAlloc - a.TotalAlloc
}

// costs of handling one input, per token of the input (beautifying: per byte
// of the result, since indentation grows with nesting).
type costs struct {
	parse, parseB, format, formatB, pretty, walk float64
	size                                         int // of the beautified text
	rejected                                     bool
}

var costNames = []string{"objects allocated by parsing per token", "bytes allocated by parsing per byte", "objects allocated by formatting per token", "bytes allocated by formatting per byte", "bytes allocated by beautifying per byte of the result", "objects allocated by walking per token"}

func (k costs) list() []float64 {
	return []float64{k.parse, k.parseB, k.format, k.formatB, k.pretty, k.walk}
}

// floors keep constant overheads from counting.
var costFloor = []float64{6, 60, 1, 40, 60, 1}

func (w *W) measure(sql string, toks int) costs {
	n, l := float64(toks), float64(len(sql))
	var o Outcome
	m, b := work(func() { o = w.parse(sql) })
	k := costs{parse: float64(m) / n, parseB: float64(b) / l, rejected: o.Err != nil || o.Panic != ""}
	if k.rejected || len(o.Stmts) == 0 {
		return k
	}
	w.c.enter(w.id, sql)
	defer w.c.leave(w.id)
	m, b = work(func() {
		for _, e := range o.Stmts {
			parser.Format(e)
		}
	})
	k.format, k.formatB = float64(m)/n, float64(b)/l
	size := 1
	_, b = work(func() {
		for _, e := range o.Stmts {
			size += len(beautify(e, " ", true))
		}
	})
	k.pretty, k.size = float64(b)/float64(size), size
	m, _ = work(func() {
		for _, e := range o.Stmts {
			parser.Walk(e, func(parser.Expr) bool { return true })
			_ = e.Accept(&parser.DefaultASTVisitor{})
		}
	})
	k.walk = float64(m) / n
	w.c.eval(1)
	return k
}

// growth checks that the marginal cost (of the units of text added last) stays
// level as make(k) grows.
func (w *W) growth(what string, mk func(k int) (sql string, toks int), kmax int) {
	type point struct {
		costs
		toks, size, pretty float64
	}
	at := func(sql string, toks int) point {
		k := w.measure(sql, toks)
		return point{k, float64(toks), float64(len(sql)), float64(k.size)}
	}
	// marginal costs between two points
	marginal := func(a, b point) []float64 {
		x, y := a.list(), b.list()
		out := make([]float64, len(x))
		for i := range x {
			u, v := a.toks, b.toks
			switch {
			case strings.HasSuffix(costNames[i], "of the result"):
				u, v = a.pretty, b.pretty
			case strings.HasSuffix(costNames[i], "byte"):
				u, v = a.size, b.size
			}
			if v > u {
				out[i] = (y[i]*v - x[i]*u) / (v - u)
			}
		}
		return out
	}
	var prev point
	var slope []float64
	run := make([]int, len(costNames)) // consecutive growing steps
	for k := 2; k <= kmax; k *= 2 {
		sql, toks := mk(k)
		if sql == "" {
			return
		}
		cur := at(sql, toks)
		if k > 2 && cur.rejected != prev.rejected {
			slope = nil
		} else if k > 2 {
			m := marginal(prev, cur)
			for i, x := range m {
				if slope == nil || x <= costFloor[i] || x <= slope[i]*1.3 {
					run[i] = 0
					continue
				}
				run[i]++
				// growing threefold at once, or steadily
				if x > 3*slope[i] && x > 20*costFloor[i] || run[i] >= 3 {
					again := marginal(prev, at(sql, toks))[i] // not a one-off
					if again > slope[i]*1.25 {
						w.c.report(&Finding{"growth", clip(sql, 600), fmt.Sprintf("%s: up to %d repetitions (%d tokens) the added %s are %.1f, before that %.1f", what, k, toks, costNames[i], x, slope[i])})
						return
					}
				}
			}
			slope = m
		}
		prev = cur
	}
	w.c.count("constructs_pumped", 1)
}

// slow checks the time of one large input.
func (w *W) slow(what string, mk func(k int) (string, int), k int) {
	sql, toks := mk(k)
	if sql == "" {
		return
	}
	limit := 2 * time.Second
	for try := 0; ; try++ {
		t0 := time.Now()
		o := w.parse(sql)
		if o.Err == nil && o.Panic == "" && len(o.Stmts) > 0 {
			w.c.enter(w.id, sql)
			parser.Format(o.Stmts[0])
			parser.Walk(o.Stmts[0], func(parser.Expr) bool { return true })
			w.c.leave(w.id)
		}
		if d := time.Since(t0); d < limit {
			return
		} else if try == 2 {
			w.c.report(&Finding{"slow", clip(sql, 600), fmt.Sprintf("%s: %d tokens take %v", what, toks, d)})
			return
		}
	}
}

func checkP02(c *Ctx) {
	w := &W{c: c, id: 0}
	kmax, big := 512, 2048
	budget := 2
	keep := 900
	if !c.Quick {
		kmax, big, keep = 1024, 4096, 1<<30
	}
	ys := c.cycles(allRoots(), budget)
	c.count("recursive_constructs", int64(len(ys)))
	rng := rand.New(rand.NewSource(c.Seed))
	for _, i := range rng.Perm(len(ys)) {
		y := ys[i]
		if !y.Short && keep <= 0 {
			continue
		}
		if !y.Short {
			keep--
		}
		kmax, big := kmax, big
		if !y.Short {
			kmax /= 2
		}
		mk := func(cut string) func(k int) (string, int) {
			return func(k int) (string, int) {
				s := c.instance(w, y.pumped(k), Src{})
				if s.Bad {
					return "", 0
				}
				sql, at := s.Render()
				n := len(s.Toks)
				switch cut {
				case "open": // nothing of what follows the innermost construct
					if h := len(c.instance(w, y.head(k), Src{}).Toks); h > 0 && h <= n {
						return sql[:at[h-1][1]], h
					}
					return "", 0
				case "bad": // a wrong token at the end
					return sql + " ]", n + 1
				}
				return sql, n
			}
		}
		c.traces++
		w.growth("recursion of "+y.Base, mk(""), kmax)
		if y.Short || !c.Quick {
			w.growth("recursion of "+y.Base+", cut off", mk("open"), kmax)
			w.growth("recursion of "+y.Base+", then a wrong token", mk("bad"), kmax)
			w.slow("recursion of "+y.Base, mk(""), big)
			w.slow("recursion of "+y.Base+", cut off", mk("open"), big)
		}
		if y.Short {
			sql, _ := mk("")(2)
			c.sample(sql)
		}
	}
	// the lexical automaton: every loop of it, and whole tokens repeated
	c.lexPumps(func(name, u, a, v string) {
		mk := func(k int) (string, int) { return u + strings.Repeat(a, k) + v, k }
		c.traces++
		w.growth("repeating "+name, mk, 1<<14)
		w.slow("repeating "+name, mk, 1<<16)
	})
}

// lexPumps gives a text for every loop of the lexical automaton and for
// every way of repeating separators and statements.
func (c *Ctx) lexPumps(fn func(name, u, a, v string)) {
	for _, p := range [][3]string{{"SELECT ", "a", ""}, {"SELECT ", "1", ""}, {"SELECT 0x", "f", ""}, {"SELECT '", "s", "'"}, {"SELECT '", "\\'", "'"}, {"SELECT '", "''", "'"}, {"SELECT `", "q", "`"}, {"SELECT \"", "q", "\""},
		{"SELECT ", " ", "1"}, {"SELECT ", "\n", "1"}, {"SELECT /*", "*", "*/ 1"}, {"SELECT ", "/* c */ ", "1"}, {"SELECT ", "-- c\n", "1"}, {"SELECT --", "-", "\n1"}, {"SELECT 1", " ;", ""}, {"SELECT 1", "; SELECT 1", ""}, {"SELECT 1\n", "; SELECT 1\n", "]"},
		{"SELECT '", "s", ""}, {"SELECT `", "q", ""}, {"SELECT /*", " c", ""}, {"", ";", ""}, {"", " ", ""}, {"", "\n", "]"}, {"SELECT 1.", "1", ""}, {"SELECT 1e", "1", ""}, {"SELECT ", "-", "1"}, {"SELECT ", "- ", "1"}, {"SELECT ", "(", "1"}, {"SELECT ", "[", ""}, {"SELECT ", "{", ""}, {"SELECT ", "é", ""}, {"", "]", ""}, {"SELECT a", "::Int8", ""}, {"SELECT a", "[1]", ""}, {"SELECT a", ".b", ""}} {
		fn(fmt.Sprintf("%q in %q..%q", p[1], p[0], p[2]), p[0], p[1], p[2])
	}
}
