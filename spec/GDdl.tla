-------------------------------- MODULE GDdl --------------------------------
(* CREATE / ATTACH / DROP / DETACH / TRUNCATE / RENAME of tables, views,   *)
(* dictionaries, databases, functions, named collections.                  *)
EXTENDS GSelect

\* Clauses that may come in any order; the formatter writes them in the
\* order given.  Alternatives: none, each one alone, each ordered pair, all
\* forwards, all backwards.
Seg(k, c) == <<"!seg=" \o ToString(k)>> \o c \o <<"!end">>
RECURSIVE Singles(_,_)
Singles(cs, i) == IF i > Len(cs) THEN <<>> ELSE <<Seg(i, cs[i])>> \o Singles(cs, i+1)
RECURSIVE PairsFrom(_,_,_)
PairsFrom(cs, i, j) ==
  IF i > Len(cs) THEN <<>>
  ELSE IF j > Len(cs) THEN PairsFrom(cs, i+1, 1)
  ELSE (IF i = j THEN <<>> ELSE <<Seg(i, cs[i]) \o Seg(j, cs[j])>>) \o PairsFrom(cs, i, j+1)
RECURSIVE Forwards(_,_)
Forwards(cs, i) == IF i > Len(cs) THEN <<>> ELSE Seg(i, cs[i]) \o Forwards(cs, i+1)
RECURSIVE Backwards(_,_)
Backwards(cs, i) == IF i = 0 THEN <<>> ELSE Seg(i, cs[i]) \o Backwards(cs, i-1)
AnyOrder(cs) == << <<>> >> \o Singles(cs, 1) \o PairsFrom(cs, 1, 1)
                 \o << Forwards(cs, 1), Backwards(cs, Len(cs)) >>

Ordered(n) == <<"OrReplaceC">> \o n

\* engine clauses in formatter order
EngineParts == << F("OrderBy","TblOrderBy"), F("PartitionBy","TblPartitionBy"), F("PrimaryKey","PrimaryKey"),
                  F("SampleBy","SampleBy"), F("TTL","TTLs"), F("Settings","Settings") >>

DictParts == << F("Source","DictSource"), F("Lifetime","DictLifetime"), F("Layout","DictLayout"),
                F("Range","DictRange"), F("Settings","DictSettings") >>
DictAttrParts == << <<"DEFAULT">> \o F("Default","DictDefault"),
                    <<"EXPRESSION">> \o F("Expression","E1"),
                    <<"%Hierarchical=true","HIERARCHICAL">>, <<"%Injective=true","INJECTIVE">>,
                    <<"%IsObjectId=true","IS_OBJECT_ID">> >>
SrcAlone == Seg(1, DictParts[1])

GDdl ==
     ("IneC"  :> Flag("IfNotExists", <<"IF","NOT","EXISTS">>))
  @@ ("IeC"   :> Flag("IfExists", <<"IF","EXISTS">>))
  @@ ("OrReplaceC" :> Flag("OrReplace", <<"OR","REPLACE">>))
  @@ ("ClusterC" :> Opt(F("OnCluster","Cluster")))
  @@ ("Cluster" :> << N("ClusterClause", <<"ON","CLUSTER">> \o F("Expr","ClusterName")) >>)
  @@ ("ClusterName" :> << <<"@id">>, <<"@str">>, <<"@idb">>, <<"@idk">> >>)
  @@ ("UuidC" :> Opt(F("UUID","Uuid")))
  @@ ("Uuid"  :> << N("UUID", <<"UUID">> \o F("Value","@str")) >>)
  @@ ("CommentC" :> Opt(<<"COMMENT">> \o F("Comment","@str")))
  @@ ("CreateKw" :> << <<"CREATE">>, <<"^ATTACH","~CREATE","!known=attach">> >>)
  @@ ("DropKw" :> << <<"DROP">>, <<"DETACH">> >>)
  \* CREATE TABLE
  @@ ("CreateTable" :> << N("CreateTable", <<"CreateKw","OrReplaceC","TempC","TABLE","IneC">> \o F("Name","TableId")
                            \o <<"UuidC","ClusterC">> \o F("TableSchema","Schema") \o <<"EngineC","CommentC">>),
                         N("CreateTable", <<"CREATE","OrReplaceC","TempC","TABLE","IneC">> \o F("Name","TableId")
                            \o <<"ClusterC">> \o F("Engine","Engine") \o <<"AsC","CommentC">>),
                         N("CreateTable", <<"CREATE","TABLE">> \o F("Name","TableId")
                            \o F("TableSchema","SchemaCols") \o <<"EngineC","AsC","CommentC">>) >>)
  @@ ("TempC" :> Flag("HasTemporary", <<"TEMPORARY">>))
  @@ ("Schema" :> << <<"SchemaCols">>,
                     N("TableSchemaClause", <<"AS">> \o F("AliasTable","AsTable")),
                     N("TableSchemaClause", <<"AS">> \o F("TableFunction","TableFnN")) >>)
  @@ ("AsTable" :> << N("TableIdentifier", F("Table","Name")),
                      N("TableIdentifier", F("Database","Name") \o <<".">> \o F("Table","AnyName")) >>)
  @@ ("TableFnN" :> << N("TableFunctionExpr", F("Name","@id") \o F("Args","TableArgs")) >>)
  @@ ("SchemaCols" :> << N("TableSchemaClause", <<"(","TblItems",")">>) >>)
  @@ ListOf("TblItems", "Columns", "TblItem")
  @@ ("TblItem" :> << <<"Column">>,
                      N("TableIndex", <<"INDEX">> \o F("Name","NestedId") \o F("ColumnExpr","IndexExpr") \o <<"TYPE">>
                          \o F("ColumnType","IndexType") \o <<"GRANULARITY">> \o F("Granularity","@int")),
                      N("ConstraintClause", <<"CONSTRAINT">> \o F("Constraint","Name") \o <<"CHECK">> \o F("Expr","E1")),
                      N("TableProjection", <<"%IncludeProjectionKeyword=true","PROJECTION">> \o F("Identifier","NestedId") \o F("Select","ProjSelect")) >>)
  @@ ("IndexExpr" :> << N("ColumnExpr", F("Expr","E1") \o <<"ColAlias">>) >>)
  @@ ("IndexType" :> << N("ScalarType", F("Name","@minmax")), N("TypeWithParams", F("Name","@bloom_filter") \o <<"(">> \o F("Params","@num") \o <<")">>) >>)
  @@ ("ProjSelect" :> << N("ProjectionSelectStmt", <<"(","WithC","SELECT">> \o F("SelectColumns","ExprList1") \o <<"ProjGroupC","ProjOrderC",")">>) >>)
  @@ ("ProjOrderC" :> Opt(F("OrderBy","ProjOrder")))
  @@ ("ProjOrder" :> << N("ProjectionOrderByClause", <<"ORDER","BY">> \o F("Columns","ExprList1")) >>)
  @@ ("Column" :> << N("ColumnDef", F("Name","NestedId") \o <<"ColTypeC","ColNullC","ColDefC","ColCommentC","ColCodecC","ColTTLC">>) >>)
  @@ ("ColumnT" :> << N("ColumnDef", F("Name","NestedId") \o F("Type","Type") \o <<"ColNullC","ColDefC","ColCommentC","ColCodecC","ColTTLC">>) >>)
  @@ ("ColTypeC" :> << F("Type","Type"), <<>> >>)
  @@ ("ColNullC" :> << <<>>, F("Nullable","NullLit"), F("NotNull","NotNullLit") >>)
  @@ ("NullLit" :> << N("NullLiteral", <<"NULL">>) >>)
  @@ ("NotNullLit" :> << N("NotNullLiteral", <<"NOT">> \o F("NullLiteral","NullLit")) >>)
  @@ ("ColDefC" :> << <<>>, <<"DEFAULT">> \o F("DefaultExpr","E1"), <<"MATERIALIZED">> \o F("MaterializedExpr","E1"),
                      <<"ALIAS">> \o F("AliasExpr","E1") >>)
  @@ ("ColCommentC" :> Opt(<<"COMMENT">> \o F("Comment","@str")))
  @@ ("ColCodecC" :> Opt(F("Codec","Codec")))
  @@ ("ColTTLC" :> Opt(F("TTL","TTL1")))
  @@ ("TTL1" :> << N("TTLClause", <<"TTL">> \o F("Items","TTLItem")) >>)
  @@ ("TTLs" :> << N("TTLClause", <<"TTL","TTLItems">>) >>)
  @@ ListOf("TTLItems", "Items", "TTLItem")
  @@ ("TTLItem" :> << N("TTLExpr", F("Expr","E1") \o <<"TTLPolicyC">>) >>)
  @@ ("TTLPolicyC" :> Opt(F("Policy","TTLPolicy")))
  @@ ("TTLPolicy" :> << N("TTLPolicy", F("Item","TTLRule") \o <<"WhereC","TTLGroupC">>) >>)
  @@ ("ProjGroupC" :> Opt(F("GroupBy","GroupBy")))
  @@ ("TTLGroupC" :> Opt(F("GroupBy","GroupByT") \o <<"!notnext=comma">>))
  @@ ("GroupByT" :> << N("GroupByClause", <<"GROUP","BY">> \o F("Expr","ExprListT") \o <<"GroupMod">>) >> \o GroupBySets)
  @@ ("TTLRule" :> << N("TTLPolicyRule", <<"TO","DISK">> \o F("ToDisk","@str")),
                      N("TTLPolicyRule", <<"TO","VOLUME">> \o F("ToVolume","@str")),
                      N("TTLPolicyRule", F("Action","TTLAction")) >>)
  @@ ("TTLAction" :> << N("TTLPolicyRuleAction", <<"%Action=DELETE","DELETE">>),
                        N("TTLPolicyRuleAction", <<"%Action=RECOMPRESS","RECOMPRESS">> \o F("Codec","Codec")) >>)
  @@ ("EngineC" :> << F("Engine","Engine"), <<>> >>)
  @@ ("Engine" :> << N("EngineExpr", <<"ENGINE","EngineEq","EngineName","EngineParams","EngineParts">>) >>)
  @@ ("EngineEq" :> << <<"=">>, <<"~=">> >>)
  @@ ("EngineName" :> << <<"$Name","@id">>, <<"$Name","@idk">> >>)
  @@ ("EngineParams" :> Opt(F("Params","CallArgs")))
  @@ ("EngineParts" :> AnyOrder(EngineParts))
  @@ ("TblOrderBy" :> << N("OrderByClause", <<"ORDER","BY">> \o F("Items","TblOrderItem")) >>)
  @@ ("TblOrderItem" :> << N("OrderExpr", F("Expr","E1") \o <<"OrderDir">>) >>)
  @@ ("TblPartitionBy" :> << N("PartitionByClause", <<"PARTITION","BY">> \o F("Expr","ExprListT")) >>)
  \* here AS SELECT starts the query of the table, so an alias is a plain name
  @@ ("ExprListT" :> << N("ColumnExprList", <<"ColItemsT">>) >>)
  @@ ListOf("ColItemsT", "Items", "ColExprT")
  @@ ("ColExprT" :> << N("ColumnExpr", F("Expr","E1")), N("ColumnExpr", F("Expr","E1") \o <<"AS">> \o F("Alias","Name")) >>)
  @@ ("PrimaryKey" :> << N("PrimaryKeyClause", <<"PRIMARY","KEY">> \o F("Expr","E1")) >>)
  @@ ("SampleBy" :> << N("SampleByClause", <<"SAMPLE","BY">> \o F("Expr","E1")) >>)
  @@ ("AsC" :> << <<"AS">> \o F("SubQuery","SubQueryB"), <<"AS">> \o F("SubQuery","SubQueryT"),
                  <<"AS">> \o F("TableFunction","TableFnN"), <<>> >>)
  @@ ("SubQueryB" :> << N("SubQuery", F("Select","Select")) >>)
  \* views
  @@ ("CreateView" :> << N("CreateView", <<"CREATE","OrReplaceC","VIEW","IneC">> \o F("Name","TableId")
                            \o <<"UuidC","ClusterC","ViewSchemaC","CommentC","ViewAsC">>) >>)
  @@ ("ViewSchemaC" :> Opt(F("TableSchema","SchemaCols")))
  @@ ("ViewAsC" :> << <<"AS">> \o F("SubQuery","SubQueryB"), <<"AS">> \o F("SubQuery","SubQueryT"), <<>> >>)
  @@ ("CreateLiveView" :> << N("CreateLiveView", <<"CREATE","LIVE","VIEW","IneC">> \o F("Name","TableId")
                            \o <<"UuidC","ClusterC","TimeoutC","DestC","ViewSchemaC","ViewAsC">>) >>)
  @@ ("TimeoutC" :> Opt(F("WithTimeout","Timeout")))
  @@ ("Timeout" :> << N("WithTimeoutClause", <<"WITH","TIMEOUT">> \o F("Number","@int")),
                      N("WithTimeoutClause", <<"WITH","TIMEOUT">>) >>)
  @@ ("DestC" :> Opt(F("Destination","Dest")))
  @@ ("Dest" :> << N("DestinationClause", <<"TO">> \o F("TableIdentifier","TableId")) >>)
  @@ ("DestS" :> << N("DestinationClause", <<"TO">> \o F("TableIdentifier","TableId") \o <<"ViewSchemaC">>) >>)
  @@ ("CreateMV" :> << N("CreateMaterializedView", <<"MvHead">> \o F("Destination","DestS") \o <<"MvEmpty","MvDef","MvTail">>),
                       N("CreateMaterializedView", <<"MvHead">> \o F("Engine","Engine") \o <<"MvEmpty","MvDef","MvPop","MvTail">>),
                       N("CreateMaterializedView", <<"MvHead">> \o F("TableSchema","SchemaCols") \o F("Engine","Engine") \o <<"MvEmpty","MvDef","MvPop","MvTail">>) >>)
  @@ ("MvHead" :> << <<"CREATE","MATERIALIZED","VIEW","IneC">> \o F("Name","TableId") \o <<"ClusterC","RefreshC","RandomC","DependsC","SettingsC","AppendC">> >>)
  @@ ("RefreshC" :> Opt(F("Refresh","Refresh")))
  @@ ("Refresh" :> << N("RefreshExpr", <<"REFRESH","RefreshFreq">> \o F("Interval","IntervalB") \o <<"RefreshOff">>) >>)
  @@ ("RefreshFreq" :> Words("Frequency", <<"EVERY","AFTER">>))
  @@ ("RefreshOff" :> Opt(<<"OFFSET">> \o F("Offset","IntervalB")))
  @@ ("IntervalB" :> << N("IntervalExpr", F("Expr","@int") \o F("Unit","@unit")) >>)
  @@ ("RandomC" :> Opt(<<"RANDOMIZE","FOR">> \o F("RandomizeFor","IntervalB")))
  @@ ("DependsC" :> Opt(<<"DEPENDS","ON","DependsL">>))
  @@ ListOf("DependsL", "DependsOn", "TableId")
  @@ ("AppendC" :> Flag("HasAppend", <<"APPEND">>))
  @@ ("MvEmpty" :> Flag("HasEmpty", <<"EMPTY">>))
  @@ ("MvDef" :> << <<>>, <<"DEFINER","=">> \o F("Definer","Name"),
                    <<"SQL","SECURITY","MvSec">>, <<"DEFINER","=">> \o F("Definer","Name") \o <<"SQL","SECURITY","MvSec">> >>)
  @@ ("MvSec" :> Words("SQLSecurity", <<"DEFINER","NONE">>))
  @@ ("MvPop" :> Flag("Populate", <<"POPULATE">>))
  @@ ("MvTail" :> << <<"AS">> \o F("SubQuery","SubQueryB"), <<>>,
                     Seg(2, <<"COMMENT">> \o F("Comment","@str")) \o Seg(1, <<"AS">> \o F("SubQuery","SubQueryB")),
                     Seg(2, <<"COMMENT">> \o F("Comment","@str")) \o Seg(1, <<"AS">> \o F("SubQuery","SubQueryT")),
                     Seg(1, <<"AS">> \o F("SubQuery","SubQueryB")) \o Seg(2, <<"COMMENT">> \o F("Comment","@str")) >>)
  \* dictionaries
  @@ ("CreateDict" :> << N("CreateDictionary", <<"CREATE","OrReplaceC","DICTIONARY","IneC">> \o F("Name","TableId")
                            \o <<"UuidC","ClusterC">> \o F("Schema","DictSchema") \o F("Engine","DictEngine") \o <<"CommentC">>) >>)
  @@ ("DictSchema" :> << N("DictionarySchemaClause", <<"(","DictAttrs",")">>) >>)
  @@ ListOf("DictAttrs", "Attributes", "DictAttr")
  @@ ("DictAttr" :> << N("DictionaryAttribute", F("Name","Name") \o F("Type","Type") \o <<"DictAttrOpts">>) >>)
  @@ ("DictAttrOpts" :> AnyOrder(DictAttrParts))
  @@ ("DictDefault" :> << <<"@str">>, <<"@num">> >>)
  @@ ("DictEngine" :> << N("DictionaryEngineClause", <<"DictPkC","DictClauses">>) >>)
  @@ ("DictPkC" :> Opt(F("PrimaryKey","DictPk")))
  @@ ("DictPk" :> << N("DictionaryPrimaryKeyClause", <<"PRIMARY","KEY">> \o F("Keys","ExprList1")) >>)
  @@ ("DictClauses" :> << SrcAlone >> \o [i \in 1..4 |-> SrcAlone \o Seg(i+1, DictParts[i+1])]
                         \o [i \in 1..4 |-> Seg(i+1, DictParts[i+1]) \o SrcAlone]
                         \o << Forwards(DictParts, 1), Backwards(DictParts, 5) >>)
  @@ ("DictSource" :> << N("DictionarySourceClause", <<"SOURCE","(">> \o F("Source","Name") \o <<"(","DictArgs",")",")">>) >>)
  @@ ("DictArgs" :> << F("Args","DictArg") \o <<"DictArgMore">>, <<>> >>)
  @@ ("DictArgMore" :> Opt(F("Args","DictArg") \o <<"DictArgMore">>))
  @@ ("DictArg" :> << N("DictionaryArgExpr", F("Name","AnyName") \o F("Value","@str")),
                      N("DictionaryArgExpr", F("Name","AnyName") \o F("Value","@num")),
                      N("DictionaryArgExpr", F("Name","AnyName") \o F("Value","Name")),
                      N("DictionaryArgExpr", F("Name","AnyName") \o F("Value","DictFn")),
                      N("DictionaryArgExpr", F("Name","AnyName") \o <<"%LParenPos=set","(">> \o <<"DictArgs",")">>) >>)
  @@ ("DictFn" :> << N("FunctionExpr", F("Name","Name") \o F("Params","CallNone")) >>)
  @@ ("CallNone" :> << N("ParamExprList", <<"(">> \o F("Items","ExprList0") \o <<")">>) >>)
  @@ ("DictLayout" :> << N("DictionaryLayoutClause", <<"LAYOUT","(">> \o F("Layout","Name") \o <<"(","DictArgs",")",")">>) >>)
  @@ ("DictLifetime" :> << N("DictionaryLifetimeClause", <<"LIFETIME","(">> \o F("Value","@int") \o <<")">>),
                           N("DictionaryLifetimeClause", <<"LIFETIME","(","MIN">> \o F("Min","@int") \o <<"MAX">> \o F("Max","@int") \o <<")">>),
                           N("DictionaryLifetimeClause", <<"LIFETIME","(">> \o Seg(2, <<"MAX">> \o F("Max","@int")) \o Seg(1, <<"MIN">> \o F("Min","@int")) \o <<")">>) >>)
  @@ ("DictRange" :> << N("DictionaryRangeClause", <<"RANGE","(","MIN">> \o F("Min","Name") \o <<"MAX">> \o F("Max","Name") \o <<")">>),
                        N("DictionaryRangeClause", <<"RANGE","(">> \o Seg(2, <<"MAX">> \o F("Max","Name")) \o Seg(1, <<"MIN">> \o F("Min","Name")) \o <<")">>) >>)
  @@ ("DictSettings" :> << N("SettingsClause", <<"SETTINGS","(","SettingItems",")">>) >>)
  \* databases, functions, named collections
  @@ ("CreateDatabase" :> << N("CreateDatabase", <<"CREATE","DATABASE","IneC">> \o F("Name","Name") \o <<"ClusterC","EngineC2","CommentC">>) >>)
  @@ ("EngineC2" :> Opt(F("Engine","Engine")))
  @@ ("CreateFunction" :> << N("CreateFunction", <<"CREATE","OrReplaceC","FUNCTION","IneC">> \o F("FunctionName","Name") \o <<"ClusterC","AS">>
                              \o F("Params","Paren") \o <<"->">> \o F("Expr","E1")) >>)
  @@ ("CreateNC" :> << N("CreateNamedCollection", <<"CREATE","NAMED","COLLECTION","IneC">> \o F("Name","Name") \o <<"ClusterC","AS","NcParams">>) >>)
  @@ ListOf("NcParams", "Params", "NcParam")
  @@ ("NcParam" :> << N("NamedCollectionParam", F("Name","Name") \o <<"=">> \o <<"NcVal","NcOver">>) >>)
  @@ ("NcVal" :> << F("Value","@str"), F("Value","@num"), F("Value","@id") >>)
  @@ ("NcOver" :> << <<>>, <<"%Overridable=true","OVERRIDABLE">>, <<"%NotOverridable=true","NOT","OVERRIDABLE">> >>)
  \* DROP / TRUNCATE / RENAME
  @@ ("DropDatabase" :> << N("DropDatabase", <<"DropKw","DATABASE","IeC">> \o F("Name","Name") \o <<"ClusterC","DropMod">>) >>)
  @@ ("DropMod" :> << <<>>, <<"%Modifier=SYNC","SYNC">>, <<"%Modifier=NO DELAY","NO","DELAY">> >>)
  @@ ("Drop" :> << N("DropStmt", <<"DropKw","%DropTarget=TABLE","TABLE","IeC">> \o F("Name","TableId") \o <<"ClusterC","DropMod">>),
                   N("DropStmt", <<"DropKw","%DropTarget=TABLE","%IsTemporary=true","TEMPORARY","TABLE","IeC">> \o F("Name","TableId") \o <<"ClusterC","DropMod">>),
                   N("DropStmt", <<"DropKw","%DropTarget=VIEW","VIEW","IeC">> \o F("Name","TableId") \o <<"ClusterC","DropMod">>),
                   N("DropStmt", <<"DropKw","%DropTarget=DICTIONARY","DICTIONARY","IeC">> \o F("Name","TableId") \o <<"ClusterC","DropMod">>) >>)
  @@ ("Truncate" :> << N("TruncateTable", <<"TRUNCATE","TruncTemp","TABLE","IeC">> \o F("Name","TableId") \o <<"ClusterC">>) >>)
  @@ ("TruncTemp" :> Flag("IsTemporary", <<"TEMPORARY">>))
  @@ ("Rename" :> << N("RenameStmt", <<"RENAME","RenTarget","RenPairs","ClusterC">>) >>)
  @@ ("RenTarget" :> << <<"%RenameTarget=TABLE","TABLE">>, <<"%RenameTarget=DICTIONARY","DICTIONARY">>, <<"%RenameTarget=DATABASE","DATABASE">> >>)
  @@ ListOf("RenPairs", "TargetPairList", "RenPair")
  @@ ("RenPair" :> << N("TargetPair", F("Old","TableId") \o <<"TO">> \o F("New","TableId")) >>)
=============================================================================
