------------------------------ MODULE GSelect ------------------------------
(* SELECT queries, FROM / JOIN, windows.                                   *)
EXTENDS GExpr

Join(mods) == N("JoinExpr", mods \o <<"$Modifiers","JOIN">> \o F("Left","JoinTable") \o <<"JoinOnMore">>)
JoinBare(mods) == N("JoinExpr", mods \o <<"$Modifiers","JOIN">> \o F("Left","JoinTable") \o <<"JoinMore">>)
M(w) == <<"$Modifiers", w>>
M2(a, b) == M(a) \o M(b)
M3(a, b, c) == M(a) \o M(b) \o M(c)

\* After FROM any clause may follow.  Without FROM, a lone OFFSET is allowed
\* (after a table it would continue a SAMPLE), but EXCEPT is not (it would be
\* read as a column modifier).
SelBody == <<"SELECT","DistinctC","TopC","SelItems">> \o F("From","From")
           \o <<"PrewhereC","WhereC","GroupC","HavingC","WindowC","OrderC","LimitC","SettingsC","FormatC","SetOp">>
SelBodyNoFrom == <<"SELECT","DistinctC","TopC","SelItems","WhereC","GroupC","HavingC","OrderC","LimitNF","SettingsC","FormatC","SetOpNF">>

GroupBySets ==
  << N("GroupByClause", <<"GROUP","BY","$AggregateType","CUBE">> \o F("Expr","Paren1") \o <<"GroupMod">>),
     N("GroupByClause", <<"GROUP","BY","$AggregateType","ROLLUP">> \o F("Expr","Paren1") \o <<"GroupMod">>),
     N("GroupByClause", <<"GROUP","BY","%AggregateType=GROUPING SETS","GROUPING","SETS">> \o F("Expr","Paren1") \o <<"GroupMod">>),
     N("GroupByClause", <<"GROUP","BY","%AggregateType=ALL","ALL","GroupMod">>) >>

GSelect ==
     ("Select" :> << N("SelectQuery", <<"WithC">> \o SelBody), N("SelectQuery", <<"WithC">> \o SelBodyNoFrom) >>)
  @@ ("SelectNoWith" :> << N("SelectQuery", SelBody), N("SelectQuery", SelBodyNoFrom) >>)
  @@ ("WithC" :> Opt(F("With","WithClause")))
  @@ ("WithClause" :> << N("WithClause", <<"WITH","CTEs">>) >>)
  @@ ListOf("CTEs", "CTEs", "CTE")
  @@ ("CTE" :> << N("CTEStmt", F("Expr","CteName") \o <<"AS","(">> \o F("Alias","Select") \o <<")">>),
                  N("CTEStmt", F("Expr","E1") \o <<"AS">> \o F("Alias","AnyName")) >>)
  @@ ("CteName" :> << <<"@idc">>, <<"@idb">>, <<"@idd">> >>)
  @@ ("DistinctC" :> << <<>>, <<"%HasDistinct=true","DISTINCT">>,
                        <<"%HasDistinct=true","DISTINCT">> \o F("DistinctOn","DistinctOn") >>)
  @@ ("DistinctOn" :> << N("DistinctOn", <<"ON","(","OnIdents",")">>) >>)
  @@ ListOf("OnIdents", "Idents", "NestedId")
  @@ ("NestedId" :> << N("NestedIdentifier", F("Ident","Name")),
                       N("NestedIdentifier", F("Ident","Name") \o <<".">> \o F("DotIdent","AnyName")) >>)
  @@ ("TopC" :> << <<>>, F("Top","TopN"), F("Top","TopT") >>)
  @@ ("TopN" :> << N("TopClause", <<"TOP">> \o F("Number","@int")) >>)
  @@ ("TopT" :> << N("TopClause", <<"TOP">> \o F("Number","@int") \o <<"%WithTies=true","WITH","TIES">>) >>)
  @@ ListOf("SelItems", "SelectItems", "SelItem")
  @@ ("SelItem" :> << N("SelectItem", F("Expr","E1") \o <<"SelAlias">>),
                      N("SelectItem", F("Expr","@star")),
                      N("SelectItem", F("Expr","@star") \o <<"SelMods">>),
                      N("SelectItem", F("Expr","QStar") \o <<"SelMods","SelAlias">>) >>)
  @@ ("QStar" :> << N("NestedIdentifier", F("Ident","ColName") \o <<".">> \o F("DotIdent","@star")) >>)
  @@ ("SelAlias" :> << <<>>, <<"AS">> \o F("Alias","AnyName"), <<"~AS">> \o F("Alias","BareAlias") >>)
  @@ ("BareAlias" :> << <<"@id">>, <<"@idb">>, <<"@idd">>, <<"@idk">> >>)
  @@ ("SelMods" :> << F("Modifiers","SelMod"), F("Modifiers","SelMod") \o <<"SelMods">> >>)
  @@ ("SelMod" :> << N("FunctionExpr", F("Name","@kwEXCEPT") \o F("Params","Paren")),
                     N("FunctionExpr", F("Name","@kwAPPLY") \o F("Params","Paren")),
                     N("FunctionExpr", F("Name","@kwREPLACE") \o F("Params","Paren")) >>)
  \* FROM and joins
  @@ ("From" :> << N("FromClause", <<"FROM">> \o F("Expr","JoinTree")) >>)
  @@ ("JoinTree" :> << <<"JoinTable">>,
                       N("JoinExpr", F("Left","JoinTable") \o F("Right","JoinRest")),
                       N("JoinExpr", F("Left","JoinTable") \o <<",">> \o F("Right","JoinTree")) >>)
  @@ ("JoinMore" :> << <<>>, F("Right","JoinRest"), <<",">> \o F("Right","JoinTree") >>)
  @@ ("JoinRest" :> << Join(<<>>) >> \o
        << Join(M("LEFT")), Join(M("RIGHT")), Join(M("INNER")), Join(M("FULL")), JoinBare(M("CROSS")),
           Join(M2("LEFT","OUTER")), Join(M2("RIGHT","OUTER")), Join(M2("FULL","OUTER")),
           Join(M3("LEFT","OUTER","ANY")), Join(M2("LEFT","SEMI")), Join(M2("LEFT","ANTI")), Join(M2("LEFT","ANY")),
           Join(M2("LEFT","ALL")), Join(M2("LEFT","ASOF")), Join(M2("RIGHT","SEMI")), Join(M2("RIGHT","ANTI")),
           Join(M2("RIGHT","ANY")), Join(M2("RIGHT","ALL")), Join(M3("RIGHT","OUTER","ASOF")),
           Join(M2("INNER","ANY")), Join(M2("INNER","ALL")), Join(M2("INNER","ASOF")),
           Join(M3("FULL","OUTER","ALL")), Join(M2("FULL","ANY")),
           Join(M("ANY")), Join(M("ALL")), Join(M2("ANY","LEFT")), Join(M2("ALL","RIGHT")), Join(M2("ANY","INNER")),
           Join(M2("ALL","FULL")), Join(M3("ANY","FULL","OUTER")),
           Join(M("SEMI")), Join(M2("SEMI","LEFT")), Join(M2("SEMI","RIGHT")), Join(M("ASOF")), Join(M2("ASOF","LEFT")),
           Join(M3("ASOF","LEFT","OUTER")),
           Join(M("GLOBAL")), Join(M("LOCAL")), Join(M2("GLOBAL","LEFT")), Join(M3("GLOBAL","ANY","LEFT")),
           Join(M2("LOCAL","INNER")), JoinBare(M2("GLOBAL","CROSS")),
           N("JoinExpr", M("ARRAY") \o M("JOIN") \o F("Left","ExprList1")),
           N("JoinExpr", M2("LEFT","ARRAY") \o M("JOIN") \o F("Left","ExprList1") \o <<"ArrJoinMore">>),
           N("JoinExpr", M2("INNER","ARRAY") \o M("JOIN") \o F("Left","ExprList1")) >>)
  @@ ("ArrJoinMore" :> Opt(F("Right","JoinRest")))
  \* A comma after ON and after an unparenthesised USING continues the list;
  \* the parentheses of USING are redundant around plain names unless a comma
  \* join follows.
  @@ ("JoinOnMore" :> << <<"JoinMore">>, F("Constraints","OnC") \o <<"JoinMoreJ">>,
                         F("Constraints","UsingP") \o <<"JoinMoreJ">>, F("Constraints","UsingB") \o <<"JoinMoreJ">>,
                         F("Constraints","UsingE") \o <<"JoinMoreJ">>,
                         F("Constraints","UsingE2") \o <<",">> \o F("Right","JoinTree") >>)
  @@ ("JoinMoreJ" :> << <<>>, F("Right","JoinRest") >>)
  @@ ("UsingNames" :> << N("ColumnExprList", <<"UsingL">>) >>)
  @@ ListOf("UsingL", "Items", "UsingCol")
  @@ ("UsingCol" :> << N("ColumnExpr", F("Expr","UsingName") \o <<"ColAlias">>) >>)
  @@ ("UsingName" :> << <<"ColName">>, <<"PathExpr">> >>)
  @@ ("UsingE" :> << N("UsingClause", <<"USING","(">> \o F("Using","UsingEs") \o <<")">>) >>)
  @@ ("UsingE2" :> << N("UsingClause", <<"USING","(">> \o F("Using","ExprList1") \o <<")">>) >>)
  @@ ("UsingEs" :> << N("ColumnExprList", F("Items","UsingX") \o <<"ColItems+">>) >>)
  @@ ("UsingX" :> << N("ColumnExpr", F("Expr","Paren")), N("ColumnExpr", F("Expr","CallN") \o <<"ColAlias">>), N("ColumnExpr", F("Expr","UsingSum")) >>)
  @@ ("UsingSum" :> << Bin("+","E12","E13") >>)
  @@ ("OnC" :> << N("OnClause", <<"ON">> \o F("On","OnList")) >>)
  @@ ("OnList" :> << N("ColumnExprList", F("Items","ColExpr")), N("ColumnExprList", F("Items","ColExpr") \o <<",">> \o F("Items","ColExpr")) >>)
  @@ ("UsingP" :> << N("UsingClause", <<"USING","^(">> \o F("Using","UsingNames") \o <<"^)">>) >>)
  @@ ("UsingB" :> << N("UsingClause", <<"USING">> \o F("Using","UsingNames")) >>)
  @@ ("JoinTable" :> << N("JoinTableExpr", F("Table","TableExprF") \o <<"SampleC">>) >>)
  @@ ("SampleC" :> Opt(F("SampleRatio","Sample")))
  @@ ("Sample" :> << N("SampleClause", <<"SAMPLE">> \o F("Ratio","Ratio") \o <<"SampleOff">>) >>)
  @@ ("SampleOff" :> Opt(<<"OFFSET">> \o F("Offset","Ratio")))
  @@ ("Ratio" :> << N("RatioExpr", F("Numerator","@num")),
                    N("RatioExpr", F("Numerator","@num") \o <<"/">> \o F("Denominator","@num")) >>)
  @@ ("TableExprF" :> << N("TableExpr", F("Expr","TableId")),
                         N("TableExpr", F("Expr","TableId") \o <<"%HasFinal=true","FINAL">>),
                         N("TableExpr", F("Expr","TableAl")),
                         N("TableExpr", F("Expr","TableAl") \o <<"%HasFinal=true","FINAL">>),
                         N("TableExpr", F("Expr","TableFn")),
                         N("TableExpr", F("Expr","SubQueryT")) >>)
  @@ ("TableAl" :> << N("AliasExpr", F("Expr","TableSrc") \o <<"AS">> \o F("Alias","AnyName")),
                      N("AliasExpr", F("Expr","TableSrc") \o <<"~AS">> \o F("Alias","TblBareAlias")) >>)
  @@ ("TblBareAlias" :> << <<"@idt">>, <<"@idb">>, <<"@idd">> >>)
  @@ ("TableSrc" :> << <<"TableId">>, <<"TableFn">>, <<"SubQueryT">> >>)
  @@ ("TableId" :> << N("TableIdentifier", F("Table","TName")),
                      N("TableIdentifier", F("Database","TName") \o <<".">> \o F("Table","TDotName")) >>)
  @@ ("TDotName" :> << <<"@ida">>, <<"@idb">>, <<"@idd">>, <<"@idk">>, <<"@ids">>, <<"@idr">> >>)
  @@ ("TName" :> << <<"@id">>, <<"@idb">>, <<"@idd">>, <<"@idk">>, <<"@ids">> >>)
  @@ ("TableFn" :> << N("TableFunctionExpr", F("Name","TfName") \o F("Args","TableArgs")) >>)
  @@ ("TfName" :> << <<"@id">>, <<"@idb">>, <<"@idk">> >>)
  @@ ("TableArgs" :> << N("TableArgListExpr", <<"(">> \o F("Args","TArg") \o <<"TArgMore",")">>),
                        N("TableArgListExpr", <<"(",")">>) >>)
  @@ ("TArgMore" :> Opt(<<",">> \o F("Args","TArg") \o <<"TArgMore">>))
  @@ ("TArg" :> << <<"TArgV">>, N("NamedParameterExpr", F("Name","@nid") \o <<"=">> \o F("Value","TArgV")),
                  N("NamedParameterExpr", F("Name","@idb") \o <<"=">> \o F("Value","TArgV")) >>)
  @@ ("TArgV" :> << <<"Name">>, <<"@num">>, <<"@str">>,
                    N("NestedIdentifier", F("Ident","Name") \o <<".">> \o F("DotIdent","AnyName")),
                    N("TableFunctionExpr", F("Name","TfName") \o F("Args","TableArgs")),
                    <<"SubQueryP">>, <<"Paren">>, Bin("+","@num","@num"), Bin("||","@str","Call1T"),
                    N("CastExpr", <<"CAST","(">> \o F("Expr","E1") \o <<"$Separator","AS">> \o F("AsType","CastTo") \o <<")">>) >>)
  @@ ("Call1T" :> << N("FunctionExpr", F("Name","@idf") \o F("Params","CallArgs")) >>)
  \* clauses
  @@ ("PrewhereC" :> Opt(F("Prewhere","Prewhere")))
  @@ ("Prewhere" :> << N("PrewhereClause", <<"PREWHERE">> \o F("Expr","E1")) >>)
  @@ ("WhereC" :> Opt(F("Where","Where")))
  @@ ("Where" :> << N("WhereClause", <<"WHERE">> \o F("Expr","E1")) >>)
  @@ ("GroupC" :> << <<>>, F("GroupBy","GroupBy"), <<"%WithTotal=true","WITH","TOTALS">> >>)
  @@ ("GroupBy" :> << N("GroupByClause", <<"GROUP","BY">> \o F("Expr","ExprList1") \o <<"GroupMod">>) >> \o GroupBySets)
  @@ ("Paren1" :> << N("ParamExprList", <<"(">> \o F("Items","ExprList1") \o <<")">>) >>)
  @@ ("GroupMod" :> << <<>>, <<"%WithCube=true","WITH","CUBE">>, <<"%WithRollup=true","WITH","ROLLUP">>,
                       <<"%WithTotals=true","WITH","TOTALS">>,
                       <<"%WithRollup=true","WITH","ROLLUP","%WithTotals=true","WITH","TOTALS">>,
                       <<"%WithCube=true","WITH","CUBE","%WithTotals=true","WITH","TOTALS">> >>)
  @@ ("HavingC" :> << <<>>, F("Having","Having") >>)
  @@ ("Having" :> << N("HavingClause", <<"HAVING">> \o F("Expr","ColExpr")) >>)
  @@ ("WindowC" :> Opt(F("Window","WindowClause")))
  @@ ("WindowClause" :> << N("WindowClause", <<"WINDOW","Windows">>) >>)
  @@ ListOf("Windows", "Windows", "WindowDef")
  @@ ("WindowDef" :> << N("WindowDefinition", F("Name","AnyName") \o <<"AS">> \o F("Expr","WindowSpec")) >>)
  @@ ("WindowSpec" :> << N("WindowExpr", <<"(","WinName","WinPart","WinOrder","WinFrame",")">>) >>)
  @@ ("WinName" :> Opt(F("WindowName","AnyName")))
  @@ ("WinPart" :> Opt(F("PartitionBy","PartitionBy")))
  @@ ("PartitionBy" :> << N("PartitionByClause", <<"PARTITION","BY">> \o F("Expr","ExprList1")) >>)
  @@ ("WinOrder" :> Opt(F("OrderBy","OrderBy")))
  @@ ("WinFrame" :> Opt(F("Frame","Frame")))
  @@ ("Frame" :> << N("WindowFrameClause", <<"$Type","ROWS">> \o F("Extend","FrameBetween")),
                    N("WindowFrameClause", <<"$Type","RANGE">> \o F("Extend","FrameBetween")),
                    N("WindowFrameClause", <<"$Type","ROWS">> \o F("Extend","FrameExt")),
                    N("WindowFrameClause", <<"$Type","RANGE">> \o F("Extend","FrameExt")) >>)
  @@ ("FrameBetween" :> << N("BetweenClause", <<"BETWEEN">> \o F("Between","FrameExt") \o <<"AND">> \o F("And","FrameExt")) >>)
  @@ ("FrameExt" :> << N("WindowFrameUnbounded", <<"UNBOUNDED","FrameDir">>),
                       N("WindowFrameCurrentRow", <<"CURRENT","ROW">>),
                       N("WindowFrameNumber", F("Number","@int") \o <<"FrameDir">>),
                       N("WindowFrameParam", F("Param","QParam") \o <<"FrameDir">>),
                       N("WindowFrameExtendExpr", F("Expr","Interval") \o <<"FrameDir">>) >>)
  @@ ("FrameDir" :> Words("Direction", <<"PRECEDING","FOLLOWING">>))
  @@ ("QParam" :> << N("QueryParam", <<"{">> \o F("Name","AnyName") \o <<":">> \o F("Type","Type") \o <<"}">>) >>)
  @@ ("Interval" :> << N("IntervalExpr", <<"%IntervalPos=set","INTERVAL">> \o F("Expr","IntervalOp") \o F("Unit","@unit")) >>)
  @@ ("OrderC" :> Opt(F("OrderBy","OrderBy")))
  @@ ("OrderBy" :> << N("OrderByClause", <<"ORDER","BY","OrderItems">>),
                      N("OrderByClause", <<"ORDER","BY","OrderItems">> \o F("Interpolate","Interp")) >>)
  @@ ListOf("OrderItems", "Items", "OrderItem")
  @@ ("OrderItem" :> << N("OrderExpr", F("Expr","E1") \o <<"OrderAlias","OrderDir","FillC">>) >>)
  \* AS SELECT could start the query of an enclosing CREATE TABLE
  @@ ("OrderAlias" :> Opt(<<"AS">> \o F("Alias","Name")))
  @@ ("OrderDir" :> << <<>>, <<"%Direction=ASC","ASC">>, <<"%Direction=DESC","DESC">>,
                       <<"%Direction=ASC","^ASCENDING","~ASC">>, <<"%Direction=DESC","^DESCENDING","~DESC">> >>)
  @@ ("FillC" :> Opt(<<"WITH","FILL">> \o F("Fill","Fill")))
  @@ ("Fill" :> << N("Fill", <<"FillFrom","FillTo","FillStep","FillStale">>) >>)
  @@ ("FillFrom" :> Opt(<<"FROM">> \o F("From","E1")))
  @@ ("FillTo" :> Opt(<<"TO">> \o F("To","E1")))
  @@ ("FillStep" :> Opt(<<"STEP">> \o F("Step","E1")))
  @@ ("FillStale" :> Opt(<<"STALENESS">> \o F("Staleness","E1")))
  @@ ("Interp" :> << N("InterpolateClause", <<"INTERPOLATE">>),
                     N("InterpolateClause", <<"INTERPOLATE","(","InterpItems",")">>) >>)
  @@ ListOf("InterpItems", "Items", "InterpItem")
  @@ ("InterpItem" :> << N("InterpolateItem", F("Column","Name")),
                         N("InterpolateItem", F("Column","Name") \o <<"AS">> \o F("Expr","E1")) >>)
  @@ ("LimitC" :> << <<>>, F("Limit","Limit"), F("LimitBy","LimitBy"),
                     F("LimitBy","LimitBy") \o F("Limit","Limit") >>)
  @@ ("LimitNF" :> << <<>>, F("Limit","LimitAny"), F("Limit","Limit") >>)
  @@ ("Limit" :> << N("LimitClause", <<"LIMIT">> \o F("Limit","E1") \o <<"LimOff">>),
                    N("LimitClause", <<"LIMIT","!seg=2">> \o F("Offset","E1") \o <<"^,","!end","!seg=1">> \o F("Limit","E1")
                           \o <<"~OFFSET","!end">>) >>)
  @@ ("LimOff" :> Opt(<<"OFFSET">> \o F("Offset","E1")))
  @@ ("LimitAny" :> << N("LimitClause", <<"OFFSET">> \o F("Offset","E1")) >>)
  @@ ("LimitBy" :> << N("LimitByClause", F("Limit","Limit") \o <<"BY">> \o F("ByExpr","ExprList1")) >>)
  @@ ("SettingsC" :> Opt(F("Settings","Settings")))
  @@ ("Settings" :> << N("SettingsClause", <<"SETTINGS","SettingItems">>) >>)
  @@ ListOf("SettingItems", "Items", "Setting")
  @@ ("Setting" :> << N("SettingExpr", F("Name","Name") \o <<"=">> \o F("Expr","SettingVal")) >>)
  @@ ("SettingVal" :> << <<"@int">>, <<"@str">>, <<"MapLit">>, N("BoolLiteral", <<"$Literal","TRUE">>),
                         N("BoolLiteral", <<"$Literal","FALSE">>) >>)
  @@ ("FormatC" :> Opt(F("Format","FormatClause")))
  @@ ("FormatClause" :> << N("FormatClause", <<"FORMAT">> \o F("Format","Name")) >>)
  @@ ("SetOp" :> << <<>>, <<"UNION","ALL">> \o F("UnionAll","SetRhs"), <<"UNION","DISTINCT">> \o F("UnionDistinct","SetRhs"),
                    <<"EXCEPT">> \o F("Except","SetRhs"), <<"INTERSECT">> \o F("Intersect","SetRhs") >>)
  @@ ("SetOpNF" :> << <<>>, <<"UNION","ALL">> \o F("UnionAll","SetRhs"), <<"UNION","DISTINCT">> \o F("UnionDistinct","SetRhs"),
                      <<"INTERSECT">> \o F("Intersect","SetRhs") >>)
  @@ ("SetRhs" :> << <<"Select">>, <<"^(","Select","^)">> >>)
=============================================================================
