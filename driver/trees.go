package main

import (
	"strings"
	"sync/atomic"
)

// skeleton: the nonterminals below clause level.  Freezing them leaves the
// clause structure, which is then explored deeper.
const skeleton = "E1,E3,E4,E5,E7,E8,E9,E10,E11,E12,E13,E14,PB,PC,PD,PDn,Prim,ColName,Name,AnyName,TName,Type,ColAlias,ColItems+,CallArgs,FnName,Paren,ClusterName,OrderItems+,NestedId,Priv"

// fromFocus: what the FROM clause is made of.
const fromFocus = "From,JoinTree,JoinMore,JoinRest,JoinOnMore,JoinMoreJ,OnList,UsingL+,UsingName,UsingX,JoinTable,SampleC,SampleOff,Ratio,TableExprF,TableAl,TblBareAlias,TableSrc,TableId,TName,TableFn,TableArgs,TableArg,ArrJoinMore,ColAlias"

// columnFocus: column definitions and types inside a table definition.
const columnFocus = "Column,ColTypeC,ColNullC,ColDefC,ColCommentC,ColCodecC,ColTTLC,Type,TypeName,TypeParMore,TypeMore,EnumVal,EnumMore,TupleFields,TupleNamed+,TupleTypes+,TupleField,JSONOptItems,JSONHints,JSONSkips,JSONHint,JSONPathMore,JSONNum,JSONSkip,Codec,TTLPolicyC,TTLRule,TTLAction,TblItems+,CastTo,CastT"

func init() {
	tree := func(id string, quick, thorough []Src) {
		checks[id] = func(c *Ctx) {
			pumps := Src{Roots: quick[0].Roots, Budget: 1, Pump: []int{2, 3, 6}}
			srcs := append([]Src{pumps}, quick...)
			if !c.Quick {
				pumps.Budget, pumps.Wild = 2, true
				srcs = append([]Src{pumps}, thorough...)
			}
			for _, s := range srcs {
				c.sentences(s, treeOracle)
			}
		}
	}
	tree("P19",
		[]Src{{Roots: []string{"Select"}, Budget: 1, Cover: true}, {Roots: []string{"Select"}, Budget: 2, Cover: true, Frozen: skeleton}, {Roots: []string{"Select"}, Budget: 2}, {Roots: []string{"Select"}, Budget: 3, Frozen: skeleton}, {Roots: []string{"Select"}, Budget: 10, Sim: 12000, Wild: true}},
		[]Src{{Roots: []string{"Select"}, Budget: 3}, {Roots: []string{"Select"}, Budget: 4, Frozen: skeleton}, {Roots: []string{"Select"}, Budget: 14, Sim: 300000, Wild: true}, {Roots: []string{"Select"}, Budget: 2, Cover: true}})
	tree("P20",
		[]Src{{Roots: []string{"Select", "Insert", "CreateView"}, Budget: 2, Cover: true, Focus: fromFocus}, {Roots: []string{"Select"}, Budget: 3, Focus: fromFocus}, {Roots: []string{"Select"}, Budget: 10, Sim: 8000, Focus: fromFocus}, {Roots: []string{"CreateView", "Insert", "AlterTable"}, Budget: 8, Sim: 4000, Focus: fromFocus + ",InsData,ViewAsC,AlterLast,Alters"}},
		[]Src{{Roots: []string{"Select", "Insert", "CreateView"}, Budget: 2, Cover: true, Focus: fromFocus}, {Roots: []string{"Select"}, Budget: 4, Focus: fromFocus}, {Roots: []string{"Select"}, Budget: 14, Sim: 200000, Focus: fromFocus}})
	tree("P21",
		[]Src{{Roots: rootsCreate, Budget: 1, Cover: true}, {Roots: rootsCreate, Budget: 2, Cover: true, Frozen: skeleton}, {Roots: rootsCreate, Budget: 2}, {Roots: rootsCreate, Budget: 10, Sim: 12000, Frozen: skeleton}},
		[]Src{{Roots: rootsCreateLight, Budget: 3}, {Roots: rootsCreate, Budget: 3, Frozen: skeleton}, {Roots: []string{"CreateTable"}, Budget: 3}, {Roots: rootsCreate, Budget: 12, Sim: 300000, Wild: true}, {Roots: rootsCreate, Budget: 2, Cover: true}})
	tree("P22",
		[]Src{{Roots: rootsAlter, Budget: 1, Cover: true}, {Roots: rootsAlter, Budget: 2, Cover: true, Frozen: skeleton}, {Roots: rootsAlter, Budget: 3, Frozen: skeleton}, {Roots: rootsAlter, Budget: 2}, {Roots: rootsAlter, Budget: 10, Sim: 10000}},
		[]Src{{Roots: rootsAlter, Budget: 3}, {Roots: rootsAlter, Budget: 4, Frozen: skeleton}, {Roots: rootsAlter, Budget: 14, Sim: 300000, Wild: true}, {Roots: rootsAlter, Budget: 2, Cover: true}})
	tree("P23",
		[]Src{{Roots: rootsAdmin, Budget: 1, Cover: true}, {Roots: rootsAdmin, Budget: 2, Cover: true, Frozen: skeleton}, {Roots: rootsAdmin, Budget: 2}, {Roots: rootsAdminLight, Budget: 3, Frozen: skeleton}, {Roots: rootsAdmin, Budget: 10, Sim: 10000}},
		[]Src{{Roots: rootsAdminLight, Budget: 3}, {Roots: rootsAdminLight, Budget: 4, Frozen: skeleton}, {Roots: rootsAdmin, Budget: 14, Sim: 300000, Wild: true}, {Roots: rootsAdmin, Budget: 2, Cover: true}})
	tree("P24",
		[]Src{{Roots: []string{"TypeStmt", "CreateTable", "CreateMV", "CreateDict", "CreateFunction", "ExprStmt"}, Budget: 2, Cover: true, Focus: columnFocus}, {Roots: []string{"TypeStmt"}, Budget: 3, Focus: columnFocus}, {Roots: []string{"CreateTable", "ExprStmt", "CreateMV", "CreateDict"}, Budget: 2, Focus: columnFocus + ",TblItem,E1,Prim,DestC,DictAttr,TblItems"}, {Roots: []string{"TypeStmt"}, Budget: 10, Sim: 10000}},
		[]Src{{Roots: []string{"TypeStmt", "CreateTable", "CreateMV", "CreateDict", "CreateFunction", "ExprStmt"}, Budget: 2, Cover: true, Focus: columnFocus}, {Roots: []string{"TypeStmt"}, Budget: 4, Focus: columnFocus}, {Roots: []string{"CreateTable", "ExprStmt", "CreateMV", "CreateDict"}, Budget: 3, Focus: columnFocus + ",TblItem,E1,Prim,DestC,DictAttr,TblItems"}, {Roots: []string{"TypeStmt", "CreateTable"}, Budget: 14, Sim: 200000, Wild: true}})
}

// treeOracle: the sentence is accepted and its tree is the one the
// specification prescribes, field by field.
func treeOracle(w *W, s *Sentence) {
	sql, _ := s.Render()
	w.c.enter(w.id, sql)
	_, f := judgeTree(s, sql)
	w.c.leave(w.id)
	w.c.eval(1)
	w.c.report(f)
	w.some(sql)
}

// some keeps a few of the inputs as samples for the evidence.
func (w *W) some(sql string) {
	if w.rng.Intn(499) == 0 || atomic.LoadInt64(&w.c.evals) < 3 {
		w.c.sample(strings.TrimSpace(sql))
	}
}
