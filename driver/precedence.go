package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/AfterShip/clickhouse-sql-parser/parser"
)

func init() { checks["P05"] = checkP05 }

// sexpr prints an expression in the notation of the Expr module.
func sexpr(e parser.Expr) string {
	fold := func(name string, xs ...string) string {
		return "(" + strings.Join(append([]string{name}, xs...), " ") + ")"
	}
	items := func(l *parser.ColumnExprList) []string {
		var out []string
		if l == nil {
			return out
		}
		if l.HasDistinct {
			out = append(out, "DISTINCT")
		}
		for _, it := range l.Items {
			out = append(out, sexpr(it))
		}
		return out
	}
	switch n := e.(type) {
	case nil:
		return "<nil>"
	case *parser.Ident:
		return n.Name
	case *parser.StringLiteral:
		return n.Literal
	case *parser.NumberLiteral:
		return n.Literal
	case *parser.PlaceHolder:
		return "?"
	case *parser.ColumnExpr:
		if n.Alias != nil {
			return fold("alias", sexpr(n.Expr), n.Alias.Name)
		}
		return sexpr(n.Expr)
	case *parser.BinaryOperation:
		op := string(n.Operation)
		if n.HasNot {
			op = "NOT " + op
		}
		if n.HasGlobal {
			op = "GLOBAL " + op
		}
		return fold(op, sexpr(n.LeftExpr), sexpr(n.RightExpr))
	case *parser.UnaryExpr:
		return fold("u"+string(n.Kind), sexpr(n.Expr))
	case *parser.IsNullExpr:
		return fold("isnull", sexpr(n.Expr))
	case *parser.IsNotNullExpr:
		return fold("isnotnull", sexpr(n.Expr))
	case *parser.BetweenClause:
		if n.Not {
			return fold("not-between", sexpr(n.Expr), sexpr(n.Between), sexpr(n.And))
		}
		return fold("between", sexpr(n.Expr), sexpr(n.Between), sexpr(n.And))
	case *parser.TernaryOperation:
		return fold("?:", sexpr(n.Condition), sexpr(n.TrueExpr), sexpr(n.FalseExpr))
	case *parser.IndexOperation:
		return fold(string(n.Operation), sexpr(n.Object), sexpr(n.Index))
	case *parser.NestedIdentifier:
		return fold("nested", sexpr(n.Ident), sexpr(n.DotIdent))
	case *parser.Path:
		s := fold("path", sexpr(n.Fields[0]), sexpr(n.Fields[1]))
		for _, f := range n.Fields[2:] {
			s = fold("path+", s, sexpr(f))
		}
		return s
	case *parser.ObjectParams:
		return fold("index", append([]string{sexpr(n.Object)}, items(n.Params.Items)...)...)
	case *parser.ArrayParamList:
		return fold("array", items(n.Items)...)
	case *parser.ParamExprList:
		if n.ColumnArgList != nil {
			return "<second list>"
		}
		return fold("paren", items(n.Items)...)
	case *parser.FunctionExpr:
		if n.Params == nil || n.Params.ColumnArgList != nil {
			return "<function>"
		}
		return fold("call", append([]string{sexpr(n.Name)}, items(n.Params.Items)...)...)
	default:
		return fmt.Sprintf("<%T>", e)
	}
}

// a place an expression can stand in
type exprPlace struct {
	before, after string
	get           func(parser.Expr) parser.Expr
}

func selOf(e parser.Expr) *parser.SelectQuery { return e.(*parser.SelectQuery) }

var exprPlaces = []exprPlace{
	{"DELETE FROM t WHERE ", "", func(e parser.Expr) parser.Expr { return e.(*parser.DeleteClause).WhereExpr }},
	{"SELECT a FROM t WHERE ", " GROUP BY q", func(e parser.Expr) parser.Expr { return selOf(e).Where.Expr }},
	{"SELECT a FROM t PREWHERE ", " WHERE q", func(e parser.Expr) parser.Expr { return selOf(e).Prewhere.Expr }},
	{"SELECT a FROM t GROUP BY q HAVING ", " ORDER BY q", func(e parser.Expr) parser.Expr { return selOf(e).Having.Expr }},
	{"SELECT ", " AS q FROM t", func(e parser.Expr) parser.Expr { return selOf(e).SelectItems[0].Expr }},
	{"SELECT ( ", " )", func(e parser.Expr) parser.Expr {
		return selOf(e).SelectItems[0].Expr.(*parser.ParamExprList).Items.Items[0].(*parser.ColumnExpr).Expr
	}},
	{"SELECT f ( q , ", " , q )", func(e parser.Expr) parser.Expr {
		return selOf(e).SelectItems[0].Expr.(*parser.FunctionExpr).Params.Items.Items[1].(*parser.ColumnExpr).Expr
	}},
	{"SELECT CASE WHEN ", " THEN q END", func(e parser.Expr) parser.Expr {
		return selOf(e).SelectItems[0].Expr.(*parser.CaseExpr).Whens[0].When
	}},
	{"SELECT CAST ( ", " , 'T' )", func(e parser.Expr) parser.Expr {
		return selOf(e).SelectItems[0].Expr.(*parser.CastExpr).Expr
	}},
	{"ALTER TABLE t DELETE WHERE ", "", func(e parser.Expr) parser.Expr {
		return e.(*parser.AlterTable).AlterExprs[0].(*parser.AlterTableDelete).WhereClause
	}},
}

var sameLevel = map[string][]string{
	"=": {"=", "==", "!=", "<", "<=", ">", ">="}, "/": {"/", "%"}, "LIKE": {"LIKE", "ILIKE"},
}

// spell writes the tokens of a behaviour; tree names the spelling chosen.
func spell(rng *rand.Rand, toks []string, tree string) (string, string) {
	out := make([]string, len(toks))
	subst := map[string]string{}
	for i, t := range toks {
		switch t {
		case "x":
			out[i] = fmt.Sprintf("x%d", i+1)
		case "s":
			out[i] = fmt.Sprintf("'s%d'", i+1)
		default:
			out[i] = t
			if alts := sameLevel[t]; alts != nil {
				if subst[t] == "" {
					subst[t] = alts[rng.Intn(len(alts))]
				}
				out[i] = subst[t]
			}
		}
	}
	for k, v := range subst {
		if k != v {
			// names of the operator and of words used as names
			fs := strings.Split(tree, " ")
			for i, f := range fs {
				core := strings.Trim(f, "()")
				if core == k {
					fs[i] = strings.Replace(f, k, v, 1)
				}
			}
			tree = strings.Join(fs, " ")
		}
	}
	return strings.Join(out, " "), tree
}

// exprCase is one state of the expression machine.
type exprCase struct {
	toks []string
	tree string
	dead []string
}

func (w *W) judgeExpr(x exprCase) {
	c := w.c
	src, tree := spell(w.rng, x.toks, x.tree)
	where := exprPlaces[0]
	if x.tree != "" && w.rng.Intn(2) == 0 {
		where = exprPlaces[w.rng.Intn(len(exprPlaces))]
	}
	if len(x.toks) > 0 {
		sql := where.before + src + where.after
		// a word in the last place is a name only before the end or an
		// operator: leave it to the place that ends there
		if where.after != "" && wordToken(x.toks[len(x.toks)-1]) {
			where = exprPlaces[0]
			sql = where.before + src
		}
		w.some(sql)
		o := w.parse(sql)
		switch {
		case o.Panic != "":
			c.report(&Finding{"panic", sql, o.Panic})
		case x.tree == "" && o.Err == nil:
			c.report(&Finding{"accept", sql, "accepted, although the expression is not complete"})
		case x.tree != "" && o.Err != nil:
			c.report(&Finding{"reject", sql, "rejected: " + o.Err.Error()})
		case x.tree != "":
			got, p := safely(func() string { return sexpr(where.get(o.Stmts[0])) })
			if p != "" {
				c.report(&Finding{"place", sql, "the expression is not where it should be: " + p})
			} else if got != tree {
				c.report(&Finding{"group", sql, fmt.Sprintf("want %s, got %s", tree, got)})
			}
		}
	}
	for _, d := range x.dead {
		ds, _ := spell(w.rng, append(append([]string(nil), x.toks...), d), "")
		for _, tail := range []string{"", []string{" q", " q )", " NULL", " : q", " ]"}[w.rng.Intn(5)]} {
			sql := exprPlaces[0].before + ds + tail
			o := w.parse(sql)
			if o.Panic != "" {
				c.report(&Finding{"panic", sql, o.Panic})
			} else if o.Err == nil {
				c.report(&Finding{"accept", sql, fmt.Sprintf("accepted, although no expression begins with %q", ds)})
			}
		}
	}
}

func wordToken(t string) bool { return strings.ToUpper(t) == t && t[0] >= 'A' && t[0] <= 'Z' }

func (c *Ctx) expressions(alphabet string, n int, sim int) {
	var set []string
	for _, t := range strings.Fields(alphabet) {
		set = append(set, strconv.Quote(t))
	}
	cfg := fmt.Sprintf("SPECIFICATION Spec\nCONSTANTS\n Alphabet = {%s}\n MaxLen = %d\nINVARIANTS Arity Ordered Alive Emit\nCHECK_DEADLOCK FALSE\n", strings.Join(set, ", "), n)
	run := TLCRun{Module: "Expr", Cfg: cfg}
	if sim > 0 {
		run.Simulate, run.Depth, run.Seed = sim, n+1, c.Seed
	}
	var seen sync.Map
	c.stream(run, func(w *W, line string) {
		s := tlaStrings(line)
		if len(s) != 4 || s[0] != "E" {
			return
		}
		if sim > 0 {
			if _, dup := seen.LoadOrStore(hash64(s[1]), true); dup {
				return
			}
		}
		w.rng = rand.New(rand.NewSource(hash64(s[1], fmt.Sprint(c.Seed))))
		atomic.AddInt64(&c.traces, 1)
		w.judgeExpr(exprCase{tlaStrings(s[1]), s[2], tlaStrings(s[3])})
	})
}

// alphabets: no run has all tokens, but every pair of operators meets
const (
	binaryOps  = "x OR AND = LIKE REGEXP IN || + / :: -> - NOT"
	wordOps    = "x AND NOT LIKE IN GLOBAL BETWEEN IS NULL ="
	bracketOps = "x s ( ) [ ] , . :: - NOT"
	ternaryOps = "x ? : BETWEEN AND NOT OR -> ( )"
	mixedOps   = "x s ? : ( ) [ ] , . * OR AND NOT = LIKE IN || + - / :: -> BETWEEN IS NULL GLOBAL REGEXP"
)

func checkP05(c *Ctx) {
	type ex struct {
		alphabet string
		n, sim   int
	}
	runs := []ex{{binaryOps, 5, 0}, {wordOps, 5, 0}, {bracketOps, 6, 0}, {ternaryOps, 6, 0}, {mixedOps, 3, 0}, {mixedOps, 20, 25}}
	if !c.Quick {
		runs = []ex{{binaryOps, 6, 0}, {wordOps, 6, 0}, {bracketOps, 7, 0}, {ternaryOps, 7, 0}, {mixedOps, 5, 0}, {mixedOps, 40, 4000}}
	}
	for _, r := range runs {
		c.expressions(r.alphabet, r.n, r.sim)
	}
	deep := []Src{{Roots: []string{"ExprStmt"}, Budget: 3, Frozen: notOperators}, {Roots: []string{"ExprStmt"}, Budget: 12, Sim: 6000}}
	if !c.Quick {
		deep = []Src{{Roots: []string{"ExprStmt"}, Budget: 4, Frozen: notOperators}, {Roots: []string{"ExprStmt"}, Budget: 20, Sim: 200000}}
	}
	for _, s := range deep {
		c.sentences(s, treeOracle)
	}
}

// notOperators: what expressions contain beside operators.
const notOperators = "ColName,Name,AnyName,FnName,CallArgs,ColAlias,ColItems+,Select,SelectNoWith,Type,CastTo,CastT,WindowSpec,CaseOperand,CaseWhens,CaseElse,ExtractArgs,IntervalOp,TrimList,SubstrList,OverlayList,PathMore,MapLit"
