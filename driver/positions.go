package main

import (
	"fmt"
	"sort"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

func init() { checks["P09"] = checkP09 }

// The specification says which tokens every node is made of (First..Last of
// the behaviour).  A node starts at the first byte of its first token and
// ends within the input and not before any of its children; a name, a number
// or a string ends with its last byte.  Quotes are not part of a name or a string, and the brackets
// of a subquery are not part of it.

type place struct {
	sql  string
	toks []Tok
	at   [][2]int
}

func (p *place) inner(i int) (int, int) {
	a, b := p.at[i][0], p.at[i][1]
	if q := p.sql[a]; q == '\'' || q == '"' || q == '`' {
		return a + 1, b - 1
	}
	return a, b
}

// span is where a node is, and which listed deviations explain it.
type span struct {
	node           *Node
	p, q           int
	startID, endID string // listed deviation
}

var exactTypes = map[string]bool{"Ident": true, "NumberLiteral": true, "StringLiteral": true, "BoolLiteral": true}

// context of a node: the nearest ORDER BY, FILL or node that passes a
// position of its own down to its first expression.
type posCtx struct {
	first int // token the passed position is meant for
	pos   int
	id    string
}

const orderFocus = "OrderC,OrderBy,OrderItems+,OrderAlias,OrderDir,FillC,FillFrom,FillTo,FillStep,FillStale,Interp,InterpItem,E1"

func checkP09(c *Ctx) {
	r := c.newRenderer()
	srcs := []Src{{Roots: allRoots(), Budget: 2}, {Roots: allRoots(), Budget: 3, Frozen: skeleton}, {Roots: allRoots(), Budget: 10, Sim: 50000, Wild: true},
		{Roots: allRoots(), Budget: 1, Cover: true}, {Roots: allRoots(), Budget: 2, Cover: true, Frozen: skeleton},
		{Roots: []string{"Select"}, Budget: 9, Sim: 6000, Focus: orderFocus}, {Roots: []string{"CreateTable"}, Budget: 4, Focus: columnFocus}}
	if !c.Quick {
		srcs = []Src{{Roots: allRoots(), Budget: 2, Draws: 4}, {Roots: allRoots(), Budget: 2, Cover: true, Frozen: skeleton, Draws: 2}, {Roots: allRoots(), Budget: 1, Cover: true, Draws: 3}, {Roots: []string{"Select"}, Budget: 3}, {Roots: allRoots(), Budget: 3, Frozen: skeleton, Draws: 2}, {Roots: allRoots(), Budget: 12, Sim: 300000, Wild: true},
			{Roots: []string{"Select"}, Budget: 4, Focus: orderFocus}, {Roots: []string{"CreateTable"}, Budget: 5, Focus: columnFocus}}
	}
	for _, src := range srcs {
		c.sentences(src, func(w *W, s *Sentence) {
			sql, at := s.Render()
			if w.rng.Intn(4) != 0 {
				if x, y, ok := r.render(w.rng, s, r.styles[w.rng.Intn(len(r.styles))]); ok {
					sql, at = x, y
				}
			}
			o := w.parse(sql)
			if o.Err != nil || o.Panic != "" || len(o.Stmts) != 1 {
				c.count("rejected", 1)
				return
			}
			got := dump(o.Stmts[0])
			if diff(s.Root, got, "") != "" {
				c.count("other_tree", 1)
				return
			}
			pl := &place{sql, s.Toks, at}
			w.spans(pl, s.Root, got, nil)
			w.some(sql)
		})
	}
}

func (w *W) spans(pl *place, a, b *Node, ctx []posCtx) *span {
	if !b.Real.IsValid() {
		return nil
	}
	e, ok := b.Real.Interface().(parser.Expr)
	if !ok {
		return nil
	}
	s := &span{node: a}
	s.p, s.q = int(e.Pos()), int(e.End())
	report := func(kind, id, what string) {
		f := &Finding{kind, pl.sql, fmt.Sprintf("%s %d..%d: %s", a.Type, s.p, s.q, what)}
		w.c.eval(1)
		if id != "" {
			w.c.deviates(id, f)
		} else {
			w.c.report(f)
		}
	}
	hasToks := a.First >= 0 && a.First <= a.Last

	// positions handed down to first expressions
	ctx = append([]posCtx(nil), ctx...)
	switch x := e.(type) {
	case *parser.OrderByClause:
		for _, it := range a.Vals["Items"] {
			if it.Node != nil {
				ctx = append(ctx, posCtx{it.Node.First, int(x.OrderPos), "order-start"})
			}
		}
	case *parser.Fill:
		for _, f := range []string{"From", "To", "Step", "Staleness"} {
			for _, it := range a.Vals[f] {
				if it.Node != nil {
					ctx = append(ctx, posCtx{it.Node.First, int(x.FillPos), "fill-start"})
				}
			}
		}
	case *parser.ColumnDef:
		for _, it := range a.Vals["Comment"] {
			if it.Node != nil {
				ctx = append(ctx, posCtx{it.Node.First, pl.at[it.Node.First-1][0], "comment-start"})
			}
		}
	case *parser.CompressionCodec:
		for _, f := range []string{"TypeLevel", "Level"} {
			for _, it := range a.Vals[f] {
				if it.Node != nil {
					ctx = append(ctx, posCtx{it.Node.First, pl.at[it.Node.First-1][0], "codec-level-start"})
				}
			}
		}
	case *parser.WindowExpr:
		for _, it := range a.Vals["PartitionBy"] {
			if it.Node != nil {
				ctx = append(ctx, posCtx{it.Node.First, int(x.LeftParenPos), "window-partition-start"})
			}
		}
	case *parser.TableFunctionExpr:
		for _, it := range a.Vals["Args"] {
			if it.Node != nil {
				ctx = append(ctx, posCtx{it.Node.First, s.p, "table-args-start"})
			}
		}
	}

	var kids, all []*span
	for _, f := range a.Names {
		for i := range a.Vals[f] {
			x, y := a.Vals[f][i], b.Vals[f][i]
			if x.Node != nil && y.Node != nil {
				if k := w.spans(pl, x.Node, y.Node, ctx); k != nil {
					all = append(all, k)
					if x.Node.First >= 0 && x.Node.First <= x.Node.Last {
						kids = append(kids, k)
					}
				}
			}
		}
	}
	sort.SliceStable(kids, func(i, j int) bool { return kids[i].node.First < kids[j].node.First })

	if hasToks {
		// where it starts
		at := a.First
		switch a.Type {
		case "UUID":
			at++
		case "TableIndex":
			for pl.toks[at].Text != "INDEX" && at > 0 {
				at--
			}
		}
		want, _ := pl.inner(at)
		// the brackets of a subquery, and the words around a frame's bounds,
		// need not be part of it, nor of what starts with it
		heads := len(kids) > 0 && (kids[0].node.First == a.First || a.Type == "SubQuery" || a.Type == "BetweenClause")
		if s.p != want && heads && s.p == kids[0].p {
			s.startID = kids[0].startID
		} else if s.p != want {
			for _, x := range ctx {
				if x.first == a.First && x.pos == s.p {
					s.startID = x.id
				}
			}
			report("start", s.startID, fmt.Sprintf("its first token starts at %d", want))
		}
		// a leaf is exactly its text
		if _, want := pl.inner(a.Last); exactTypes[a.Type] && s.q != want && pl.toks[a.Last].Text != "*" {
			report("end", "", fmt.Sprintf("its text ends at %d", want))
		}
	}
	s.endID = endExcuse(pl, s, a, e, all)
	if _, ok := e.(*parser.PlaceHolder); ok && s.p == s.q { // it ends where it starts
		s.endID = s.startID
	}
	if s.p < 0 || s.q > len(pl.sql) {
		report("range", s.endID, fmt.Sprintf("outside of 0..%d", len(pl.sql)))
	}
	if s.p > s.q {
		report("inverted", first(s.endID, s.startID), "it starts behind its end")
	}
	for i, k := range kids {
		if k.p < s.p {
			report("cover", first(s.startID, k.startID), fmt.Sprintf("its child %s starts at %d", k.node.Type, k.p))
		}
		if k.q > s.q {
			report("cover", first(s.endID, k.endID), fmt.Sprintf("its child %s ends at %d", k.node.Type, k.q))
		}
		if i > 0 && (kids[i-1].p > k.p || kids[i-1].q > k.p) {
			report("siblings", first(kids[i-1].endID, k.startID, kids[i-1].startID), fmt.Sprintf("its children %s %d..%d and %s %d..%d overlap", kids[i-1].node.Type, kids[i-1].p, kids[i-1].q, k.node.Type, k.p, k.q))
		}
	}
	return s
}

func first(ids ...string) string {
	for _, x := range ids {
		if x != "" {
			return x
		}
	}
	return ""
}

// endExcuse names the listed deviation the end of a node shows: the node
// reports exactly the wrong end that is listed, or that of a child.
func endExcuse(pl *place, s *span, a *Node, e parser.Expr, kids []*span) string {
	for _, k := range kids {
		if k.endID != "" && k.q == s.q {
			return k.endID
		}
	}
	switch x := e.(type) {
	case *parser.CaseExpr:
		if s.q == 0 {
			return "case-end"
		}
	case *parser.CTEStmt:
		if s.q == int(x.Expr.End()) {
			return "cte-end"
		}
	case *parser.DeduplicateClause:
		if x.By != nil && x.Except != nil && s.q == int(x.By.End()) {
			return "deduplicate-end"
		}
	case *parser.EngineExpr:
		if x.Params != nil && s.q < int(x.Params.End()) {
			return "engine-end"
		}
	case *parser.FunctionExpr:
		if x.Params != nil && x.Params.ColumnArgList != nil && s.q == int(x.Params.RightParenPos) {
			return "parametric-call-end"
		}
	case *parser.TTLExpr:
		if x.Policy != nil && s.q == int(x.Expr.End()) {
			return "ttl-policy-end"
		}
	case *parser.AlterTableModifyColumn:
		if x.RemovePropertyType != nil && s.q == int(x.Column.End()) {
			return "modify-column-end"
		}
	case *parser.Fill:
		if x.From == nil && x.To == nil && x.Step == nil && x.Staleness == nil && s.q == int(x.FillPos)+4 {
			return "fill-end"
		}
	case *parser.AuthenticationClause, *parser.HostClause, *parser.DefaultRoleClause, *parser.GranteesClause:
		if n := a.Last + 1; n < len(pl.at) && s.q == pl.at[n][1] {
			return "user-clause-end"
		}
	case *parser.ShowStmt:
		if s.q == len(pl.sql)+1 {
			return "show-end"
		}
	}
	return ""
}
