------------------------------- MODULE GAlter -------------------------------
(* ALTER TABLE.                                                            *)
EXTENDS GBase

AA(t, body) == N("AlterTable" \o t, body)

GAlter ==
     ("AlterTable" :> << N("AlterTable", <<"ALTER","TABLE">> \o F("TableIdentifier","TableId") \o <<"ClusterC","Alters">>) >>)
  \* actions that end in a comma list of their own come last
  @@ ("Alters" :> << F("AlterExprs","AlterAct") \o <<"AltersMore">>, F("AlterExprs","AlterLast") >>)
  @@ ("AltersMore" :> << <<>>, <<",">> \o F("AlterExprs","AlterAct") \o <<"AltersMore">>, <<",">> \o F("AlterExprs","AlterLast") >>)
  @@ ("AlterLast" :> << AA("ModifySetting", <<"MODIFY","SETTING","ModSettings">>), AA("ResetSetting", <<"RESET","SETTING","ResetNames">>),
       AA("ModifyQuery", <<"MODIFY","QUERY">> \o F("SelectExpr","Select")),
       AA("ModifyTTL", <<"MODIFY">> \o F("TTL","TTLs")),
       AA("AddColumn", <<"ADD","COLUMN","IneC">> \o F("Column","ColumnT") \o <<"AfterC">> \o F("Settings","SettingsN")),
       AA("DropPartition", <<"DROP">> \o F("Partition","PartitionE") \o F("Settings","SettingsN")),
       AA("DropPartition", <<"DROP","%HasDetached=true","DETACHED">> \o F("Partition","PartitionE") \o F("Settings","SettingsN")),
       AA("DetachPartition", <<"DETACH">> \o F("Partition","PartitionE") \o F("Settings","SettingsN")) >>)
  @@ ("AlterAct" :> <<
       AA("AddColumn", <<"ADD","COLUMN","IneC">> \o F("Column","Column")),
       AA("AddColumn", <<"ADD","COLUMN","IneC">> \o F("Column","ColumnT") \o <<"AFTER">> \o F("After","NestedId")),
       AA("AddIndex", <<"ADD","INDEX","IneC">> \o F("Index","AddIndex") \o <<"AfterC">>),
       AA("AddProjection", <<"ADD","PROJECTION","IneC">> \o F("TableProjection","AddProj") \o <<"AfterC">>),
       AA("DropColumn", <<"DROP","COLUMN","IeC">> \o F("ColumnName","NestedId")),
       AA("DropIndex", <<"DROP","INDEX","IeC">> \o F("IndexName","NestedId")),
       AA("DropProjection", <<"DROP","PROJECTION","IeC">> \o F("ProjectionName","NestedId")),
       AA("DropPartition", <<"DROP">> \o F("Partition","PartitionE")),
       AA("DropPartition", <<"DROP","%HasDetached=true","DETACHED">> \o F("Partition","PartitionE")),
       AA("DetachPartition", <<"DETACH">> \o F("Partition","PartitionE")),
       AA("AttachPartition", <<"ATTACH">> \o F("Partition","Partition") \o <<"AttachFrom">>),
       AA("FreezePartition", <<"FREEZE","FreezePart">>),
       AA("RemoveTTL", <<"REMOVE","TTL">>),
       AA("ClearColumn", <<"CLEAR","COLUMN","IeC">> \o F("ColumnName","NestedId") \o <<"InPartE">>),
       AA("ClearIndex", <<"CLEAR","INDEX","IeC">> \o F("IndexName","NestedId") \o <<"InPartE">>),
       AA("ClearProjection", <<"CLEAR","PROJECTION","IeC">> \o F("ProjectionName","NestedId") \o <<"InPartE">>),
       AA("RenameColumn", <<"RENAME","COLUMN","IeC">> \o F("OldColumnName","NestedId") \o <<"TO">> \o F("NewColumnName","NestedId")),
       AA("ModifyColumn", <<"MODIFY","COLUMN","IeC">> \o F("Column","Column")),
       AA("ModifyColumn", <<"MODIFY","COLUMN","IeC">> \o F("Column","BareColumn") \o F("RemovePropertyType","RemoveProp")),
       AA("ModifyOrderBy", <<"MODIFY","ORDER","BY">> \o F("OrderBy","E1")),
       AA("ReplacePartition", <<"REPLACE">> \o F("Partition","Partition") \o <<"FROM">> \o F("Table","TableId")),
       AA("MaterializeIndex", <<"MATERIALIZE","INDEX","IeC">> \o F("IndexName","NestedId") \o <<"InPart">>),
       AA("MaterializeProjection", <<"MATERIALIZE","PROJECTION","IeC">> \o F("ProjectionName","NestedId") \o <<"InPart">>),
       AA("Delete", <<"DELETE","WHERE">> \o F("WhereClause","E1")),
       AA("Update", <<"UPDATE","Assigns","InPartU","WHERE">> \o F("WhereClause","E1")) >>)
  @@ ("AfterC" :> Opt(<<"AFTER">> \o F("After","NestedId")))
  @@ ("SettingsN" :> << N("SettingsClause", <<"SETTINGS","SettingItems">>) >>)
  @@ ("AddIndex" :> << N("TableIndex", F("Name","NestedId") \o F("ColumnExpr","IndexExpr") \o <<"TYPE">>
                          \o F("ColumnType","IndexType") \o <<"GRANULARITY">> \o F("Granularity","@int")) >>)
  @@ ("AddProj" :> << N("TableProjection", F("Identifier","NestedId") \o F("Select","ProjSelect")) >>)
  @@ ("PartitionE" :> << N("PartitionClause", <<"PARTITION">> \o F("Expr","E1")) >>)
  @@ ("Partition" :> << N("PartitionClause", <<"PARTITION">> \o F("Expr","E1")),
                        N("PartitionClause", <<"PARTITION","^ID","!known=partition-id">> \o F("ID","@str")),
                        N("PartitionClause", <<"PARTITION","%All=true","ALL">>) >>)
  @@ ("AttachFrom" :> Opt(<<"FROM">> \o F("From","TableId")))
  @@ ("FreezePart" :> Opt(F("Partition","Partition")))
  @@ ("InPartE" :> Opt(<<"IN">> \o F("PartitionExpr","Partition")))
  @@ ("InPart" :> Opt(<<"IN">> \o F("Partition","Partition")))
  @@ ("InPartU" :> Opt(<<"IN">> \o F("InPartition","Partition")))
  @@ ("BareColumn" :> << N("ColumnDef", F("Name","NestedId")) >>)
  @@ ("RemoveProp" :> << N("RemovePropertyType", <<"REMOVE">> \o F("PropertyType","PropType")) >>)
  @@ ("PropType" :> << N("PropertyType", F("Name","@kwDEFAULT")), N("PropertyType", F("Name","@kwMATERIALIZED")),
                       N("PropertyType", F("Name","@kwALIAS")), N("PropertyType", F("Name","@kwCOMMENT")),
                       N("PropertyType", F("Name","@kwCODEC")), N("PropertyType", F("Name","@kwTTL")) >>)
  @@ ("ModSettings" :> << F("Settings","Setting"), F("Settings","Setting") \o <<",">> \o F("Settings","Setting") >>)
  @@ ("ResetNames" :> << F("Settings","Name"), F("Settings","Name") \o <<",">> \o F("Settings","Name") >>)
  @@ ListOf("Assigns", "Assignments", "Assign")
  @@ ("Assign" :> << N("UpdateAssignment", F("Column","NestedId") \o <<"=">> \o F("Expr","E11")) >>)
=============================================================================
