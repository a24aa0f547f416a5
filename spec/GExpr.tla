------------------------------- MODULE GExpr -------------------------------
(***************************************************************************)
(* Expressions.  The operator table is stratified: Ek derives exactly the  *)
(* expressions whose outermost operator binds at least as tightly as level *)
(* k, so a derivation tree of E1 is the unique tree precedence and         *)
(* associativity allow, and the tree is what the trace records.            *)
(***************************************************************************)
EXTENDS GBase

AArrow == << Bin2("->", <<"->">>, "E3", "E1") >>
ATern  == << N("TernaryOperation", F("Condition","E3") \o <<"?">> \o F("TrueExpr","E1")
                \o <<":">> \o F("FalseExpr","E1")) >>
AOr    == << Bin("OR", "E3", "E4") >>
AAnd   == << Bin("AND", "E4", "E5") >>
ANot   == << N("UnaryExpr", <<"$Kind","NOT">> \o F("Expr","E5")) >>
AIs    == << N("IsNullExpr",    F("Expr","E7") \o <<"IS","NULL">>),
             N("IsNotNullExpr", F("Expr","E7") \o <<"IS","NOT","NULL">>) >>
ACmp   == [i \in 1..8 |-> Bin(<<"=","==","!=","<>","<","<=",">",">=">>[i], "E8", "E9")]
ALike  == << Bin("LIKE","E9","E10"), Bin2("NOT LIKE",<<"NOT","LIKE">>,"E9","E10"),
             Bin("ILIKE","E9","E10"), Bin2("NOT ILIKE",<<"NOT","ILIKE">>,"E9","E10"),
             Bin("REGEXP","E9","E10"),
             N("BetweenClause", F("Expr","E9") \o <<"BETWEEN">> \o F("Between","E10")
                 \o <<"AND">> \o F("And","E10")),
             N("BetweenClause", F("Expr","E9") \o <<"%Not=true","NOT","BETWEEN">> \o F("Between","E10")
                 \o <<"AND">> \o F("And","E10")) >>
AIn    == << Bin("IN","E10","E11"), Bin2("NOT IN",<<"NOT","IN">>,"E10","E11"),
             Bin2("IN",<<"%HasGlobal=true","GLOBAL","IN">>,"E10","E11"),
             Bin2("IN",<<"%HasGlobal=true","%HasNot=true","GLOBAL","NOT","IN">>,"E10","E11") >>
ACat   == << Bin("||","E11","E12") >>
AAdd   == << Bin("+","E12","E13"), Bin("-","E12","E13") >>
AMul   == << Bin("*","E13","E14"), Bin("/","E13","E14"), Bin("%","E13","E14") >>

\* Postfix operators.  PB derives the operands a '[' can follow, PD those a
\* '.' member can follow, PC those a '::' can follow.
PIndex == << N("ObjectParams", F("Object","PB") \o F("Params","ArrayLit")) >>
PDot   == << N("IndexOperation", F("Object","PD") \o <<"%Operation=.", ".">> \o F("Index","@int")),
             N("IndexOperation", F("Object","PDn") \o <<"%Operation=.", ".">> \o F("Index","AnyName")) >>
PCast  == << Bin2("::",<<"::">>,"PC","CastT") >>
AUnary == << N("UnaryExpr", <<"$Kind","-">> \o F("Expr","Prim")),
             N("UnaryExpr", <<"$Kind","+">> \o F("Expr","Prim")) >>

\* Primary expressions that end in a closing token.
PrimClosed ==
  << <<"Paren">>, <<"Call">>, <<"ArrayLit">>, <<"MapLit">>, <<"SubQueryX">>,
     N("QueryParam", <<"{">> \o F("Name","AnyName") \o <<":">> \o F("Type","Type") \o <<"}">>),
     N("CastExpr", <<"CAST","(">> \o F("Expr","E1") \o <<"$Separator","AS">> \o F("AsType","CastTo") \o <<")">>),
     N("CastExpr", <<"CAST","(">> \o F("Expr","E1") \o <<"$Separator",",">> \o F("AsType","CastTo") \o <<")">>),
     N("CaseExpr", <<"CASE">> \o <<"CaseOperand">> \o <<"CaseWhens","CaseElse","END">>),
     N("ExtractExpr", <<"EXTRACT","(","ExtractArgs",")">>),
     <<"KwCall">> >>

PrimSimple ==
  << <<"@num">>, <<"@str">>, N("PlaceHolder", <<"$Type","?">>), <<"PathExpr">>,
     N("IndexOperation", F("Object","ColName") \o <<"%Operation=.",".">> \o F("Index","@int")),
     N("NestedIdentifier", F("Ident","ColName") \o <<".">> \o F("DotIdent","@star")),
     N("ObjectParams", F("Object","ColName") \o F("Params","ArrayLit")),
     N("WindowFunctionExpr", F("Function","CallN") \o <<"OVER">> \o F("OverExpr","AnyName")),
     N("WindowFunctionExpr", F("Function","CallN") \o <<"OVER">> \o F("OverExpr","WindowSpec")),
     N("IntervalExpr", <<"%IntervalPos=set","INTERVAL">> \o F("Expr","IntervalOp") \o F("Unit","@unit")) >>

PrimAll == << <<"ColName">> >> \o PrimSimple \o PrimClosed

GExpr ==
     ("E1"  :> << <<"ColName">> >> \o Cat(<<AArrow,ATern,AOr,AAnd,ANot,AIs,ACmp,ALike,AIn,ACat,AAdd,AMul,
                                        PIndex,PDot,PCast,AUnary,PrimSimple,PrimClosed>>))
  @@ ("E3"  :> << <<"ColName">> >> \o Cat(<<AOr,AAnd,ANot,AIs,ACmp,ALike,AIn,ACat,AAdd,AMul,PIndex,PDot,PCast,AUnary,PrimSimple,PrimClosed>>))
  @@ ("E4"  :> << <<"ColName">> >> \o Cat(<<AAnd,ANot,AIs,ACmp,ALike,AIn,ACat,AAdd,AMul,PIndex,PDot,PCast,AUnary,PrimSimple,PrimClosed>>))
  @@ ("E5"  :> << <<"ColName">> >> \o Cat(<<ANot,AIs,ACmp,ALike,AIn,ACat,AAdd,AMul,PIndex,PDot,PCast,AUnary,PrimSimple,PrimClosed>>))
  @@ ("E7"  :> << <<"ColName">> >> \o Cat(<<AIs,ACmp,ALike,AIn,ACat,AAdd,AMul,PIndex,PDot,PCast,AUnary,PrimSimple,PrimClosed>>))
  @@ ("E8"  :> << <<"ColName">> >> \o Cat(<<ACmp,ALike,AIn,ACat,AAdd,AMul,PIndex,PDot,PCast,AUnary,PrimSimple,PrimClosed>>))
  @@ ("E9"  :> << <<"ColName">> >> \o Cat(<<ALike,AIn,ACat,AAdd,AMul,PIndex,PDot,PCast,AUnary,PrimSimple,PrimClosed>>))
  @@ ("E10" :> << <<"ColName">> >> \o Cat(<<AIn,ACat,AAdd,AMul,PIndex,PDot,PCast,AUnary,PrimSimple,PrimClosed>>))
  @@ ("E11" :> << <<"ColName">> >> \o Cat(<<ACat,AAdd,AMul,PIndex,PDot,PCast,AUnary,PrimSimple,PrimClosed>>))
  @@ ("E12" :> << <<"ColName">> >> \o Cat(<<AAdd,AMul,PIndex,PDot,PCast,AUnary,PrimSimple,PrimClosed>>))
  @@ ("E13" :> << <<"ColName">> >> \o Cat(<<AMul,PIndex,PDot,PCast,AUnary,PrimSimple,PrimClosed>>))
  @@ ("E14" :> << <<"ColName">> >> \o Cat(<<PIndex,PDot,PCast,AUnary,PrimSimple,PrimClosed>>))
  @@ ("PC"  :> << <<"ColName">> >> \o Cat(<<PIndex,PDot,PCast,AUnary,PrimSimple,PrimClosed>>))
  @@ ("Prim" :> PrimAll)
  \* operand of an infix '[': ends in a closing bracket, a literal or a path
  @@ ("PB"  :> << <<"Paren">> >> \o << <<"Call">>, <<"ArrayLit">>, <<"MapLit">>, <<"PathExpr">>,
                  N("ObjectParams", F("Object","PB") \o F("Params","ArrayLit")),
                  N("ObjectParams", F("Object","ColName") \o F("Params","ArrayLit")),
                  N("UnaryExpr", <<"$Kind","-">> \o F("Expr","Paren")),
                  Bin2("::",<<"::">>,"PC","CallN") >>)
  @@ ("PD"  :> << <<"Paren">> >> \o << <<"Call">>, <<"ArrayLit">>,
                  N("ObjectParams", F("Object","PB") \o F("Params","ArrayLit")),
                  N("ObjectParams", F("Object","ColName") \o F("Params","ArrayLit")),
                  N("UnaryExpr", <<"$Kind","-">> \o F("Expr","Paren")) >>)
  @@ ("PDn" :> << <<"Paren">> >> \o << <<"Call">>,
                  N("IndexOperation", F("Object","PDn") \o <<"%Operation=.", ".">> \o F("Index","AnyName")),
                  N("ObjectParams", F("Object","ColName") \o F("Params","ArrayLit")) >>)
  @@ ("CastT" :> << <<"@ida">>, <<"CallN">>,
                  N("NestedType", F("Name","@tuple") \o <<"(","TupleFields",")">>) >>)
  \* names
  @@ ("ColName" :> << <<"@idc">>, <<"@idb">>, <<"@idd">>, <<"@idk">> >>)
  @@ ("Name"    :> << <<"@id">>, <<"@idb">>, <<"@idd">>, <<"@idk">> >>)
  @@ ("AnyName" :> << <<"@ida">>, <<"@idb">>, <<"@idd">>, <<"@idk">>, <<"@idr">> >>)
  @@ ("PathExpr" :> << N("Path", F("Fields","ColName") \o <<".">> \o F("Fields","AnyName") \o <<"PathMore">>) >>)
  @@ ("PathMore" :> Opt(<<".">> \o F("Fields","AnyName") \o <<"PathMore">>))
  \* parenthesised lists, tuples, calls
  @@ ("Paren"   :> << N("ParamExprList", <<"(">> \o F("Items","ExprList1") \o <<")">>),
                      N("ParamExprList", <<"(">> \o F("Items","ExprList0") \o <<")">>),
                      N("ParamExprList", <<"(">> \o F("Items","ExprListD") \o <<")">>) >>)
  @@ ("ExprList1" :> << N("ColumnExprList", <<"ColItems">>) >>)
  @@ ("ExprList0" :> << N("ColumnExprList", <<>>) >>)
  @@ ("ExprListD" :> << N("ColumnExprList", <<"%HasDistinct=true","DISTINCT","ColItems">>) >>)
  @@ ListOf("ColItems", "Items", "ColExpr")
  @@ ("ColExpr" :> << N("ColumnExpr", F("Expr","E1") \o <<"ColAlias">>) >>)
  @@ ("ColAlias" :> Opt(<<"AS">> \o F("Alias","AnyName")))
  @@ ("Call"  :> << <<"CallN">> >>)
  @@ ("CallN" :> << N("FunctionExpr", F("Name","FnName") \o F("Params","CallArgs")) >>)
  @@ ("FnName" :> << <<"@idf">>, <<"@idb">>, <<"@idk">>, <<"@fnkw">> >>)
  @@ ("CallArgs" :> << N("ParamExprList", <<"(">> \o F("Items","ExprList1") \o <<")">>),
                       N("ParamExprList", <<"(">> \o F("Items","ExprList0") \o <<")">>),
                       N("ParamExprList", <<"(">> \o F("Items","ExprListD") \o <<")">>),
                       N("ParamExprList", <<"(">> \o F("Items","ExprList1") \o <<")">> \o F("ColumnArgList","ArgList2")),
                       N("ParamExprList", <<"(">> \o F("Items","StarList") \o <<")">>) >>)
  @@ ("StarList" :> << N("ColumnExprList", F("Items","StarCol")) >>)
  @@ ("StarCol" :> << N("ColumnExpr", F("Expr","@star")) >>)
  @@ ("ArgList2" :> << N("ColumnArgList", <<"(">> \o F("Items","E1") \o <<"ArgMore",")">>),
                       N("ColumnArgList", <<"%Distinct=true","(","DISTINCT">> \o F("Items","E1") \o <<"ArgMore",")">>),
                       N("ColumnArgList", <<"(",")">>) >>)
  @@ ("ArgMore" :> Opt(<<",">> \o F("Items","E1") \o <<"ArgMore">>))
  @@ ("ArrayLit" :> << N("ArrayParamList", <<"[">> \o F("Items","ExprList1") \o <<"]">>),
                       N("ArrayParamList", <<"[">> \o F("Items","ExprList0") \o <<"]">>),
                       N("ArrayParamList", <<"[">> \o F("Items","ExprListD") \o <<"]">>) >>)
  @@ ("MapLit" :> << N("MapLiteral", <<"{">> \o F("KeyValues","MapKV") \o <<"MapMore","}">>),
                     N("MapLiteral", <<"{","}">>) >>)
  @@ ("MapMore" :> Opt(<<",">> \o F("KeyValues","MapKV") \o <<"MapMore">>))
  @@ ("MapKV" :> << N("KeyValue", F("Key","@str") \o <<":">> \o F("Value","E1")) >>)
  \* inside an expression a subquery starts with SELECT, elsewhere WITH may come first
  @@ ("SubQueryX" :> << N("SubQuery", <<"%HasParen=true","(">> \o F("Select","SelectNoWith") \o <<")">>) >>)
  @@ ("SubQueryT" :> << <<"SubQueryP">>, N("SubQuery", <<"%HasParen=true","(","^(">> \o F("Select","Select") \o <<"^)",")">>) >>)
  @@ ("SubQueryP" :> << N("SubQuery", <<"%HasParen=true","(">> \o F("Select","Select") \o <<")">>) >>)
  \* CAST targets
  @@ ("CastTo" :> << <<"Type">>, <<"@str">> >>)
  \* CASE
  @@ ("CaseOperand" :> << <<>>, <<"!notnext=sign">> \o F("Expr","E1") >>)
  @@ ("CaseWhens" :> << F("Whens","When"), F("Whens","When") \o <<"CaseWhens">> >>)
  @@ ("When" :> << N("WhenClause", <<"WHEN">> \o F("When","E1") \o <<"THEN">> \o F("Then","E1")) >>)
  @@ ("CaseElse" :> Opt(<<"ELSE">> \o F("Else","E1")))
  \* EXTRACT
  @@ ("ExtractArgs" :> << F("Parameters","ExtractFrom"),
                          F("Parameters","E1") \o <<",">> \o F("Parameters","E1"),
                          F("Parameters","ExtractFrom") \o <<",">> \o F("Parameters","E1") >>)
  @@ ("ExtractFrom" :> << N("IntervalFrom", F("Interval","@unit") \o <<"FROM">> \o F("FromExpr","E1")) >>)
  @@ ("IntervalOp" :> << <<"@num">>, <<"@idc">>, <<"@str">>, <<"IntervalCall">>, <<"Paren">>, Bin("+","@idc","@idc") >>)
  @@ ("IntervalCall" :> << N("FunctionExpr", F("Name","@id") \o F("Params","CallArgs")) >>)
  \* TRIM / SUBSTRING / OVERLAY with keyword separated arguments
  @@ ("KwCall" :> <<
       N("FunctionExpr", F("Name","@fnTRIM") \o F("Params","TrimArgs")),
       N("FunctionExpr", F("Name","@fnSUBSTRING") \o F("Params","SubstrArgs")),
       N("FunctionExpr", F("Name","@fnOVERLAY") \o F("Params","OverlayArgs")),
       N("FunctionExpr", F("Name","@fnOVERLAYUTF8") \o F("Params","OverlayArgs")) >>)
  @@ ("TrimArgs" :> << N("ParamExprList", <<"(">> \o F("Items","TrimList") \o <<")">>) >>)
  @@ ("TrimList" :> << N("ColumnExprList", F("Items","TrimFrom")), N("ColumnExprList", F("Items","TrimPlain")) >>)
  @@ ("TrimPlain" :> << N("ColumnExpr", F("Expr","E1")) >>)
  @@ ("TrimFrom" :> << N("ColumnExpr", F("Expr","TrimBin")) >>)
  @@ ("TrimBin" :> << Bin("FROM","TrimMod","E1") >>)
  @@ ("TrimMod" :> << N("UnaryExpr", <<"$Kind","BOTH">> \o F("Expr","E1")),
                      N("UnaryExpr", <<"$Kind","LEADING">> \o F("Expr","E1")),
                      N("UnaryExpr", <<"$Kind","TRAILING">> \o F("Expr","E1")) >>)
  @@ ("SubstrArgs" :> << N("ParamExprList", <<"(">> \o F("Items","SubstrList") \o <<")">>) >>)
  @@ ("SubstrList" :> << N("ColumnExprList", F("Items","SubstrFrom")), N("ColumnExprList", F("Items","SubstrFromFor")),
                         N("ColumnExprList", <<"ColItems">>),
                         N("ColumnExprList", F("Items","SubstrFrom") \o <<",">> \o F("Items","ColExpr")) >>)
  @@ ("SubstrFrom" :> << N("ColumnExpr", F("Expr","SubstrBin")) >>)
  @@ ("SubstrBin" :> << Bin("FROM","E1","E1") >>)
  @@ ("SubstrFromFor" :> << N("ColumnExpr", F("Expr","SubstrBin2")) >>)
  @@ ("SubstrBin2" :> << Bin("FOR","SubstrBin","E1") >>)
  @@ ("OverlayArgs" :> << N("ParamExprList", <<"(">> \o F("Items","OverlayList") \o <<")">>) >>)
  @@ ("OverlayList" :> << N("ColumnExprList", F("Items","OverlayC")), N("ColumnExprList", F("Items","OverlayCF")),
                          N("ColumnExprList", <<"ColItems">>) >>)
  @@ ("OverlayC" :> << N("ColumnExpr", F("Expr","OverlayBin")) >>)
  @@ ("OverlayCF" :> << N("ColumnExpr", F("Expr","OverlayBin3")) >>)
  @@ ("OverlayBin1" :> << Bin("PLACING","E1","E1") >>)
  @@ ("OverlayBin" :> << Bin("FROM","OverlayBin1","E1") >>)
  @@ ("OverlayBin3" :> << Bin("FOR","OverlayBin","E1") >>)
=============================================================================
