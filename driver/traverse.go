package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

func init() {
	checks["P11"] = checkP11
	checks["P12"] = checkP12
	checks["P13"] = checkP13
}

// RTree is the real tree found by reflection over exported fields: the nodes
// in preorder, the parent of each (1-based, 0 for the root).
type RTree struct {
	nodes []parser.Expr
	par   []int
	last  []int // last node of each subtree
	idx   map[parser.Expr]int
	dup   parser.Expr // a node reached twice
}

func reflectTree(e parser.Expr) *RTree {
	t := &RTree{idx: map[parser.Expr]int{}}
	var rec func(n *Node, parent int)
	rec = func(n *Node, parent int) {
		at := parent
		x, ok := n.Real.Interface().(parser.Expr)
		if ok {
			if t.idx[x] != 0 {
				t.dup = x
				return
			}
			t.nodes = append(t.nodes, x)
			t.par = append(t.par, parent)
			t.last = append(t.last, 0)
			at = len(t.nodes)
			t.idx[x] = at
		}
		for _, c := range n.children() {
			rec(c, at)
		}
		if ok {
			t.last[at-1] = len(t.nodes)
		}
	}
	rec(dump(e), 0)
	return t
}

// Ev is an event of Traverse.tla.
type Ev struct {
	Op string
	N  int
}

// Protocol mirrors Traverse.tla: the state of one traversal.
type Protocol struct {
	t                   *RTree
	stack               []int
	seen, visited, left []bool
	nSeen, halt         int
	done                bool
}

func newProtocol(t *RTree) *Protocol {
	n := len(t.nodes) + 1
	return &Protocol{t: t, seen: make([]bool, n), visited: make([]bool, n), left: make([]bool, n)}
}

func (p *Protocol) top() int {
	if len(p.stack) == 0 {
		return 0
	}
	return p.stack[len(p.stack)-1]
}

// step is Allowed and After of Traverse.tla.
func (p *Protocol) step(e Ev) bool {
	if p.done {
		return false
	}
	n := e.N
	switch e.Op {
	case "enter":
		if n < 1 || p.halt != 0 || p.seen[n] || p.t.par[n-1] != p.top() || p.top() != 0 && p.visited[p.top()] || (n == 1) != (p.nSeen == 0) {
			return false
		}
		p.seen[n] = true
		p.nSeen++
		p.stack = append(p.stack, n)
	case "visit", "fail":
		if n < 1 || p.halt != 0 || n != p.top() || p.visited[n] {
			return false
		}
		for m := n + 1; m <= p.t.last[n-1]; m++ {
			if p.t.par[m-1] == n && !p.left[m] {
				return false
			}
		}
		p.visited[n] = true
		if e.Op == "fail" {
			p.halt = n
		}
	case "leave":
		if n < 1 || n != p.top() || !p.visited[n] && p.halt == 0 {
			return false
		}
		p.stack = p.stack[:len(p.stack)-1]
		p.left[n] = true
	case "retv":
		if len(p.stack) != 0 || p.nSeen == 0 || n != p.halt {
			return false
		}
		p.done = true
	case "call", "stop":
		if n < 1 || p.halt != 0 || p.seen[n] || (n == 1) != (p.nSeen == 0) {
			return false
		}
		for n != 1 && p.top() != p.t.par[n-1] {
			k := p.top()
			if k == 0 {
				return false
			}
			for m := k + 1; m <= p.t.last[k-1]; m++ {
				if !p.seen[m] {
					return false
				}
			}
			p.stack = p.stack[:len(p.stack)-1]
		}
		p.seen[n] = true
		p.nSeen++
		p.stack = append(p.stack, n)
		if e.Op == "stop" {
			p.halt = n
		}
	case "retw":
		if p.halt != 0 && n != 0 || p.halt == 0 && (n != 1 || p.nSeen != len(p.t.nodes)) {
			return false
		}
		p.done = true
	}
	return true
}

// monitor runs a log through the protocol.
func (t *RTree) monitor(log []Ev) string {
	p := newProtocol(t)
	for i, e := range log {
		if !p.step(e) {
			return fmt.Sprintf("event %d of %d, %s, is not allowed after %s", i+1, len(log), t.show(e), t.tail(log[:i]))
		}
	}
	if !p.done {
		return "unfinished"
	}
	return ""
}

func (t *RTree) show(e Ev) string {
	if e.Op == "retv" || e.Op == "retw" {
		s := fmt.Sprintf("return %d", e.N)
		if e.Op == "retw" && e.N == 1 {
			p := map[int]bool{}
			for i := range t.nodes {
				p[i+1] = true
			}
			_ = p
		}
		return s
	}
	if e.N < 1 || e.N > len(t.nodes) {
		return e.Op + " of a node outside the tree"
	}
	return fmt.Sprintf("%s %T#%d (parent #%d)", e.Op, t.nodes[e.N-1], e.N, t.par[e.N-1])
}

func (t *RTree) tail(log []Ev) string {
	if len(log) > 5 {
		log = log[len(log)-5:]
	}
	var p []string
	for _, e := range log {
		p = append(p, t.show(e))
	}
	return strings.Join(p, ", ")
}

// unvisited names a node a complete traversal missed.
func (t *RTree) unvisited(log []Ev) string {
	seen := map[int]bool{}
	for _, e := range log {
		seen[e.N] = true
	}
	for i := range t.nodes {
		if !seen[i+1] {
			return fmt.Sprintf("; never reached: %T#%d (parent %T)", t.nodes[i], i+1, t.nodes[max(t.par[i]-1, 0)])
		}
	}
	return ""
}

// recorder writes traversal logs for TLC to validate.
type recorder struct {
	mu    sync.Mutex
	limit int
	seen  map[int64]bool
	logs  []recLog
	desc  []string
	tick  int
}

type recLog struct {
	Par []int    `json:"par"`
	Op  []string `json:"op"`
	N   []int    `json:"n"`
}

func (r *recorder) add(t *RTree, log []Ev, sql string) {
	if len(t.nodes) > 80 {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.logs) >= r.limit {
		return
	}
	h := hash64(fmt.Sprint(t.par, log))
	if r.seen[h] {
		return
	}
	r.seen[h] = true
	l := recLog{Par: t.par}
	for _, e := range log {
		l.Op = append(l.Op, e.Op)
		l.N = append(l.N, e.N)
	}
	r.logs = append(r.logs, l)
	r.desc = append(r.desc, sql)
}

// validate lets TLC decide whether the recorded logs are behaviours of
// Traverse.
func (c *Ctx) validate(r *recorder) {
	if len(r.logs) == 0 {
		return
	}
	dir, err := os.MkdirTemp("", "vlogs")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "logs.ndjson")
	f, _ := os.Create(path)
	bw := bufio.NewWriter(f)
	enc := json.NewEncoder(bw)
	for _, l := range r.logs {
		enc.Encode(l)
	}
	bw.Flush()
	f.Close()
	acc := 0
	st, err := runTLC(TLCRun{Module: "TrTraverse", Cfg: fmt.Sprintf("CONSTANT File = %q\nINIT Init\nNEXT Next\nINVARIANT Report\n", path),
		Line: func(l string) {
			s := tlaStrings(l)
			if len(s) < 2 {
				return
			}
			i, _ := strconv.Atoi(s[1])
			if s[0] == "ACC" {
				acc++
			} else if s[0] == "REJ" && i > 0 && i <= len(r.desc) {
				c.report(&Finding{"trace", r.desc[i-1], "the recorded traversal is not a behaviour of Traverse.tla: event " + s[len(s)-1]})
			}
		}})
	if err != nil {
		fatal("model checker: %v", err)
	}
	c.tlc = append(c.tlc, st)
	c.count("logs_validated_by_tlc", int64(acc))
}

// model checks the protocol itself.
func (c *Ctx) protocolModel(mode string) {
	n := 6
	if !c.Quick {
		n = 8
	}
	st, err := runTLC(TLCRun{Module: "MCTraverse", Cfg: fmt.Sprintf("CONSTANTS N = %d\n Mode = %q\nINIT Init\nNEXT Next\nINVARIANTS AtMostOnce Complete Balanced ParentFirst HaltStops Post Contig Progress\n", n, mode)})
	if err != nil {
		fatal("model checker: %v", err)
	}
	c.tlc = append(c.tlc, st)
}

// walkLog records Walk (or WalkWithBreak) that stops at the k-th call (0 = never).
func (t *RTree) walkLog(walk func(parser.Expr, parser.WalkFunc) bool, root parser.Expr, k int) (log []Ev, order []parser.Expr) {
	calls := 0
	ok := walk(root, func(e parser.Expr) bool {
		calls++
		n := t.idx[e]
		order = append(order, e)
		if k > 0 && calls == k {
			log = append(log, Ev{"stop", n})
			return false
		}
		log = append(log, Ev{"call", n})
		return true
	})
	v := 0
	if ok {
		v = 1
	}
	return append(log, Ev{"retw", v}), order
}

func guard(sql string, f func() *Finding) (out *Finding) {
	defer func() {
		if r := recover(); r != nil {
			out = &Finding{"panic", sql, fmt.Sprint(r)}
		}
	}()
	return f()
}

// traversals runs oracle on the tree of every statement of the sources.
func (c *Ctx) traversals(srcs []Src, oracle func(w *W, sql string, e parser.Expr, t *RTree) *Finding) {
	for _, src := range srcs {
		c.sentences(src, func(w *W, s *Sentence) {
			sql, _ := s.Render()
			o := w.parse(sql)
			if o.Err != nil || o.Panic != "" {
				c.count("rejected", 1)
				return
			}
			w.c.enter(w.id, sql)
			for _, e := range o.Stmts {
				c.report(guard(sql, func() *Finding {
					t := reflectTree(e)
					if t.dup != nil {
						return &Finding{"shared", sql, fmt.Sprintf("one %T is reached through two fields", t.dup)}
					}
					if f := oracle(w, sql, e, t); f != nil {
						return f
					}
					// the same from an inner node as the root
					var inner []int
					for i := 1; i < len(t.nodes); i++ {
						if t.last[i] > i+1 || w.rng.Intn(8) == 0 {
							inner = append(inner, i)
						}
					}
					if len(inner) == 0 {
						return nil
					}
					sub := t.nodes[inner[w.rng.Intn(len(inner))]]
					f := oracle(w, sql, sub, reflectTree(sub))
					if f != nil {
						f.What = fmt.Sprintf("from the %T: %s", sub, f.What)
					}
					return f
				}))
			}
			w.c.leave(w.id)
			w.c.eval(1)
			w.some(sql)
		})
	}
}

func (c *Ctx) treeSources() []Src {
	return c.general(false)
}

func checkP11(c *Ctx) {
	c.protocolModel("walk")
	rec := &recorder{limit: 1500, seen: map[int64]bool{}}
	if !c.Quick {
		rec.limit = 20000
	}
	c.traversals(c.treeSources(), func(w *W, sql string, e parser.Expr, t *RTree) *Finding {
		log, order := t.walkLog(parser.Walk, e, 0)
		for _, n := range order {
			if n == nil || t.idx[n] == 0 {
				return &Finding{"walk", sql, fmt.Sprintf("Walk passes %T %v, not a node of the tree", n, n)}
			}
		}
		if m := t.monitor(log); m != "" {
			return &Finding{"walk", sql, "Walk: " + m + t.unvisited(log)}
		}
		rec.add(t, log, sql)
		// a walk from an inner node is that part of the full walk
		at := map[int]int{}
		for i, n := range order {
			at[t.idx[n]] = i
		}
		for j := 0; j < 3; j++ {
			n := w.rng.Intn(len(t.nodes)) + 1
			_, sub := t.walkLog(parser.Walk, t.nodes[n-1], 0)
			want := order[at[n] : at[n]+t.last[n-1]-n+1]
			if !sameExprs(sub, want) {
				return &Finding{"subwalk", sql, fmt.Sprintf("Walk from %T#%d visits %d nodes, the same part of the full walk has %d", t.nodes[n-1], n, len(sub), len(want))}
			}
		}
		return nil
	})
	c.validate(rec)
}

func sameExprs(a, b []parser.Expr) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// recVisitor records the visitor protocol.
type recVisitor struct {
	parser.DefaultASTVisitor
	t    *RTree
	log  []Ev
	fail int // fail at the k-th visit; 0 = never
	n    int
	err  error
	bad  parser.Expr
}

func (v *recVisitor) at(e parser.Expr) int {
	n := v.t.idx[e]
	if n == 0 && v.bad == nil {
		v.bad = e
	}
	return n
}
func (v *recVisitor) Enter(e parser.Expr) { v.log = append(v.log, Ev{"enter", v.at(e)}) }
func (v *recVisitor) Leave(e parser.Expr) { v.log = append(v.log, Ev{"leave", v.at(e)}) }

var errStop = errors.New("stop")

func (t *RTree) visitLog(e parser.Expr, fail int) ([]Ev, *recVisitor) {
	v := &recVisitor{t: t, fail: fail}
	failed := 0
	v.Visit = func(x parser.Expr) error {
		v.n++
		k := v.at(x)
		if v.n == v.fail {
			v.log = append(v.log, Ev{"fail", k})
			failed = k
			v.err = fmt.Errorf("callback error at %d", k)
			return v.err
		}
		v.log = append(v.log, Ev{"visit", k})
		return nil
	}
	err := e.Accept(v)
	switch {
	case err == nil:
		v.log = append(v.log, Ev{"retv", 0})
	case err == v.err:
		v.log = append(v.log, Ev{"retv", failed})
	default:
		v.log = append(v.log, Ev{"retv", -1})
	}
	return v.log, v
}

func checkP12(c *Ctx) {
	c.protocolModel("visitor")
	rec := &recorder{limit: 1500, seen: map[int64]bool{}}
	if !c.Quick {
		rec.limit = 20000
	}
	c.traversals(c.treeSources(), func(w *W, sql string, e parser.Expr, t *RTree) *Finding {
		one := func(fail int) *Finding {
			log, v := t.visitLog(e, fail)
			if v.bad != nil {
				return &Finding{"visit", sql, fmt.Sprintf("the visitor is given %T %v, not a node of the tree", v.bad, v.bad)}
			}
			if m := t.monitor(log); m != "" {
				return &Finding{"visit", sql, fmt.Sprintf("visitor failing at visit %d: %s%s", fail, m, t.unvisited(log))}
			}
			if fail == 0 || w.rng.Intn(20) == 0 {
				rec.add(t, log, sql)
			}
			if fail == 0 {
				if n := len(log); n > 0 && log[n-1].N == 0 && t.unvisited(log) != "" {
					return &Finding{"visit", sql, "visitor" + t.unvisited(log)}
				}
			}
			return nil
		}
		if f := one(0); f != nil {
			return f
		}
		n := len(t.nodes)
		if n <= 25 {
			for k := 1; k <= n; k++ {
				if f := one(k); f != nil {
					return f
				}
			}
		} else {
			for j := 0; j < 12; j++ {
				if f := one(1 + w.rng.Intn(n)); f != nil {
					return f
				}
			}
		}
		return nil
	})
	c.validate(rec)
}

func checkP13(c *Ctx) {
	c.protocolModel("walk")
	rec := &recorder{limit: 1500, seen: map[int64]bool{}}
	if !c.Quick {
		rec.limit = 20000
	}
	c.traversals(c.treeSources(), func(w *W, sql string, e parser.Expr, t *RTree) *Finding {
		_, order := t.walkLog(parser.Walk, e, 0)
		n := len(order)
		// stop at each place
		var stops []int
		for k := 0; k <= n; k++ {
			if n <= 25 || k == 0 || w.rng.Intn(n) < 12 {
				stops = append(stops, k)
			}
		}
		for _, k := range stops {
			for name, walk := range map[string]func(parser.Expr, parser.WalkFunc) bool{"Walk": parser.Walk, "WalkWithBreak": parser.WalkWithBreak} {
				log, got := t.walkLog(walk, e, k)
				want := order
				if k > 0 {
					want = order[:k]
				}
				if !sameExprs(got, want) {
					return &Finding{"break", sql, fmt.Sprintf("%s stopped at call %d makes %d calls, the full walk's order is not kept", name, k, len(got))}
				}
				if m := t.monitor(log); m != "" {
					return &Finding{"break", sql, fmt.Sprintf("%s stopped at call %d: %s", name, k, m)}
				}
				if k > 0 && w.rng.Intn(20) == 0 {
					rec.add(t, log, sql)
				}
			}
		}
		// predicates: one kind of node, random subsets, single nodes, none, all
		kind := fmt.Sprintf("%T", order[w.rng.Intn(n)])
		mask := map[parser.Expr]bool{}
		for _, x := range order {
			if w.rng.Intn(3) == 0 {
				mask[x] = true
			}
		}
		lastOnly := order[n-1]
		for name, p := range map[string]func(parser.Expr) bool{
			"kind " + kind: func(x parser.Expr) bool { return fmt.Sprintf("%T", x) == kind },
			"a random set": func(x parser.Expr) bool { return mask[x] },
			"nothing":      func(parser.Expr) bool { return false },
			"everything":   func(parser.Expr) bool { return true },
			"the last":     func(x parser.Expr) bool { return x == lastOnly },
		} {
			var want []parser.Expr
			for _, x := range order {
				if p(x) {
					want = append(want, x)
				}
			}
			asked := 0
			all := parser.FindAll(e, func(x parser.Expr) bool { asked++; return p(x) })
			if !sameExprs(all, want) || asked != n {
				return &Finding{"findall", sql, fmt.Sprintf("FindAll(%s) finds %d nodes asking %d times, the walk of %d nodes has %d", name, len(all), asked, n, len(want))}
			}
			asked = 0
			first, ok := parser.Find(e, func(x parser.Expr) bool { asked++; return p(x) })
			wasked := n
			for i, x := range order {
				if p(x) {
					wasked = i + 1
					break
				}
			}
			if ok != (len(want) > 0) || ok && first != want[0] || !ok && first != nil || asked != wasked {
				return &Finding{"find", sql, fmt.Sprintf("Find(%s) gives %T %v after asking %d times; the walk has %d matches, the first after %d", name, first, ok, asked, len(want), wasked)}
			}
		}
		// the transforming walk
		var seen []parser.Expr
		got := parser.Transform(e, func(x parser.Expr) parser.Expr { seen = append(seen, x); return x })
		if got != e {
			return &Finding{"transform", sql, "Transform with the identity does not return the tree"}
		}
		if !sameExprs(seen, order) {
			if len(seen) == 1 && seen[0] == e {
				c.deviates("transform-root", &Finding{"transform", sql, fmt.Sprintf("Transform calls the function for the root only, not for the other %d nodes", n-1)})
			} else {
				return &Finding{"transform", sql, fmt.Sprintf("Transform calls the function for %d nodes, the walk has %d", len(seen), n)}
			}
		}
		if parser.Transform(e, func(parser.Expr) parser.Expr { return nil }) != nil {
			return &Finding{"transform", sql, "Transform to nil does not return nil"}
		}
		return nil
	})
	c.validate(rec)
}
