package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

func init() { checks["P14"] = checkP14 }

// object is what an operation of Sessions.tla is given.
type object struct {
	sql  string
	tree parser.Expr // a shared tree, or
	err  error       // a shared error
}

// An operation runs and leaves its result behind; turning the result into a
// string is done afterwards, so that an operation holds nothing but calls of
// the library.
var operations = map[string]func(o *object) func() string{
	"parse": func(o *object) func() string {
		stmts, err := parser.NewParser(o.sql).ParseStmts()
		return func() string { return showParse(stmts, err) }
	},
	"message": func(o *object) func() string {
		m := o.err.Error()
		return func() string { return m }
	},
	"format": func(o *object) func() string {
		t := parser.Format(o.tree)
		return func() string { return t }
	},
	"beautify": func(o *object) func() string {
		f := parser.NewFormatter().WithBeautify().WithIndent("   ")
		f.WriteExpr(o.tree)
		t := f.String()
		return func() string { return t }
	},
	"walk": func(o *object) func() string {
		var all []parser.Expr
		parser.Walk(o.tree, func(e parser.Expr) bool { all = append(all, e); return true })
		return func() string { return showExprs(all) }
	},
	"break": func(o *object) func() string {
		var all []parser.Expr
		done := parser.WalkWithBreak(o.tree, func(e parser.Expr) bool { all = append(all, e); return len(all) < 3 })
		return func() string { return fmt.Sprint(done) + showExprs(all) }
	},
	"visit": func(o *object) func() string {
		v := &kindVisitor{}
		v.Visit = func(e parser.Expr) error { v.all = append(v.all, e); return nil }
		err := o.tree.Accept(v)
		return func() string { return fmt.Sprint(err) + showExprs(v.all) }
	},
	"find": func(o *object) func() string {
		pred := func(e parser.Expr) bool { _, ok := e.(*parser.Ident); return ok }
		all := parser.FindAll(o.tree, pred)
		one, ok := parser.Find(o.tree, pred)
		return func() string {
			s := showExprs(all)
			if ok {
				s += " first " + showExprs([]parser.Expr{one})
			}
			return s
		}
	},
	"json": func(o *object) func() string {
		b, err := json.Marshal(o.tree)
		return func() string { return string(b) + fmt.Sprint(err) }
	},
}

type kindVisitor struct {
	parser.DefaultASTVisitor
	all []parser.Expr
}

func showParse(stmts []parser.Expr, err error) string {
	var b strings.Builder
	for _, s := range stmts {
		b.WriteString(dump(s).String())
		b.WriteString(strings.Join(positions(s, 0), " "))
		b.WriteString("\n")
	}
	if err != nil {
		b.WriteString(err.Error())
		var pe *parser.ParseError
		if errors.As(err, &pe) {
			fmt.Fprintf(&b, " %d %d %d %q %q", pe.Pos, pe.Line, pe.Column, pe.Expected, pe.Msg)
		}
	}
	return b.String()
}

func showExprs(es []parser.Expr) string {
	var b strings.Builder
	for _, e := range es {
		fmt.Fprintf(&b, "%T@%d..%d ", e, e.Pos(), e.End())
	}
	return b.String()
}

// once prints the results of every operation on the text of standard input.
func once() {
	sql, _ := io.ReadAll(os.Stdin)
	b, _ := json.Marshal(results(string(sql)))
	os.Stdout.Write(b)
}

func results(sql string) map[string]string {
	out := map[string]string{}
	put := func(name string, o *object) {
		func() {
			defer func() {
				if r := recover(); r != nil {
					out[name] = fmt.Sprint("panic: ", r)
				}
			}()
			s := operations[name](o)()
			out[name] = fmt.Sprintf("%x %q", hash64(s), clip(s, 200))
		}()
	}
	o := &object{sql: sql}
	put("parse", o)
	stmts, err := parser.NewParser(sql).ParseStmts()
	if err != nil {
		o.err = err
		put("message", o)
		return out
	}
	if len(stmts) == 0 {
		return out
	}
	o.tree = stmts[0]
	for name := range operations {
		if name != "parse" && name != "message" {
			put(name, o)
		}
	}
	return out
}

// known text with the results of a process that handled nothing else
type fresh struct {
	sql string
	res map[string]string
}

func (c *Ctx) fresh(es []entry) []fresh {
	out := make([]fresh, len(es))
	var wg sync.WaitGroup
	next := int64(-1)
	for i := 0; i < nWorkers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				k := int(atomic.AddInt64(&next, 1))
				if k >= len(es) {
					return
				}
				cmd := exec.Command(os.Args[0], "once")
				cmd.Stdin = strings.NewReader(es[k].sql)
				b, err := cmd.Output()
				if err == nil {
					err = json.Unmarshal(b, &out[k].res)
				}
				if err != nil {
					fatal("fresh process on %s: %v", oneLine(es[k].sql), err)
				}
				out[k].sql = es[k].sql
				c.eval(1)
			}
		}()
	}
	wg.Wait()
	return out
}

func checkP14(c *Ctx) {
	n, runs := 240, []TLCRun{sessions(3, 3, 0, 0), sessions(3, 10, 25, c.Seed)}
	if !c.Quick {
		n, runs = 2000, []TLCRun{sessions(3, 3, 0, 0), sessions(2, 4, 0, 0), sessions(3, 12, 4000, c.Seed), sessions(4, 30, 1000, c.Seed)}
	}
	g, b := c.pool(Src{Roots: allRoots(), Budget: 8, Sim: 3000, Wild: true})
	rng := rand.New(rand.NewSource(c.Seed))
	pick := func(es []entry, n int) []entry {
		var out []entry
		for i := 0; i < n; i++ {
			out = append(out, es[rng.Intn(len(es))])
		}
		return out
	}
	good, bad := c.fresh(pick(g, n)), c.fresh(pick(b, n/3))
	c.count("texts", int64(len(good)+len(bad)))
	for _, r := range runs {
		c.stream(r, func(w *W, line string) {
			f := tlaStrings(line)
			if len(f) != 2 || f[0] != "H" {
				return
			}
			w.rng = rand.New(rand.NewSource(hash64(f[1], fmt.Sprint(c.Seed))))
			w.session(tlaStrings(f[1]), good, bad)
		})
	}
}

func sessions(procs, ops, sim int, seed int64) TLCRun {
	return TLCRun{Module: "Sessions", Simulate: sim, Depth: 2*ops + 2, Seed: seed,
		Cfg: fmt.Sprintf("SPECIFICATION Spec\nCONSTANTS NProcs = %d\n MaxOps = %d\nINVARIANTS Unchanged Functional RaceFree Emit\nCHECK_DEADLOCK FALSE\n", procs, ops)}
}

// session replays one history.
func (w *W) session(hist []string, good, bad []fresh) {
	atomic.AddInt64(&w.c.traces, 1)
	var show strings.Builder
	for i := 0; i+3 < len(hist); i += 4 {
		if hist[i] == "b" {
			fmt.Fprintf(&show, "%s: %s(%s)...  ", hist[i+1], hist[i+2], hist[i+3])
		} else {
			fmt.Fprintf(&show, "%s: done  ", hist[i+1])
		}
	}
	objs, base := map[string]*object{}, map[string]fresh{}
	for i := 3; i < len(hist); i += 4 {
		name := hist[i]
		if name == "" || objs[name] != nil {
			continue
		}
		from := good
		if name == "bad" || name == "E" {
			from = bad
		}
		b := from[w.rng.Intn(len(from))]
		o := &object{sql: b.sql}
		fmt.Fprintf(&show, "\n  %s = %s", name, b.sql)
		if name == "A" || name == "B" || name == "E" {
			stmts, err := parser.NewParser(b.sql).ParseStmts()
			if (err != nil) != (name == "E") || err == nil && len(stmts) == 0 {
				w.c.report(&Finding{"outcome", show.String(), fmt.Sprintf("%s gives %s, in a fresh process %s", b.sql, clip(showParse(stmts, err), 200), b.res["parse"])})
				return
			}
			o.err = err
			if err == nil {
				o.tree = stmts[0]
			}
		}
		objs[name], base[name] = o, b
	}
	w.some(show.String())
	w.c.enter(w.id, show.String())
	type result struct {
		show     func() string
		panicked string
	}
	type running struct {
		op, obj string
		done    chan result
	}
	now := map[string]running{}
	for i := 0; i+3 < len(hist); i += 4 {
		p := hist[i+1]
		if hist[i] == "b" {
			r := running{hist[i+2], hist[i+3], make(chan result, 1)}
			now[p] = r
			op, o := operations[r.op], objs[r.obj]
			go func() {
				var res result
				defer func() {
					if x := recover(); x != nil {
						res.panicked = fmt.Sprint(x)
					}
					r.done <- res
				}()
				res.show = op(o)
			}()
			continue
		}
		r := now[p]
		res := <-r.done
		w.c.eval(1)
		got := ""
		if res.panicked != "" {
			got = "panic: " + res.panicked
		} else {
			s := res.show()
			got = fmt.Sprintf("%x %q", hash64(s), clip(s, 200))
		}
		if want := base[r.obj].res[r.op]; got != want {
			w.c.report(&Finding{"result " + r.op, show.String(), fmt.Sprintf("%s(%s) gives %s, in a fresh process %s", r.op, r.obj, got, want)})
		}
	}
	for name, o := range objs {
		if o.tree == nil {
			continue
		}
		s := showParse([]parser.Expr{o.tree}, nil)
		if got := fmt.Sprintf("%x %q", hash64(s), clip(s, 200)); got != base[name].res["parse"] {
			w.c.report(&Finding{"mutation", show.String(), fmt.Sprintf("the tree %s is now %s, parsed in a fresh process %s", name, got, base[name].res["parse"])})
		}
	}
	w.c.leave(w.id)
}
