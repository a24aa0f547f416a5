------------------------------ MODULE Grammar ------------------------------
(* The whole language: one table.                                          *)
EXTENDS GTypes, GSelect, GAlter, GAdmin

\* Hosts for constructs that are not statements.
GHosts ==
     ("ExprStmt" :> << N("SelectQuery", <<"SELECT">> \o F("SelectItems","ExprItem")) >>)
  @@ ("ExprItem" :> << N("SelectItem", F("Expr","E1")) >>)
  @@ ("TypeStmt" :> << N("AlterTable", <<"ALTER","TABLE">> \o F("TableIdentifier","TableId") \o F("AlterExprs","TypeAdd")) >>)
  @@ ("TypeAdd" :> << N("AlterTableAddColumn", <<"ADD","COLUMN">> \o F("Column","Column")) >>)

G == GExpr @@ GTypes @@ GSelect @@ GDdl @@ GAlter @@ GAdmin @@ GHosts
=============================================================================
