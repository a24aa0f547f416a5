------------------------------- MODULE GAdmin -------------------------------
(* Data manipulation and administration statements.                        *)
EXTENDS GDdl

KW(ws) == [i \in DOMAIN ws |-> <<"$Keywords", ws[i]>>]
Kws(ws) == Cat([i \in DOMAIN ws |-> <<"$Keywords", ws[i]>>])
Priv(ws) == N("PrivilegeClause", Kws(ws))

UserParts == << F("Authentication","Auth"), <<"VALID","UNTIL">> \o F("ValidUntil","@str"), <<"UserHosts">>,
                F("DefaultRole","DefRole"), <<"DefDb">>, F("Grantees","Grantees"), <<"SETTINGS","RoleSettings">> >>

GAdmin ==
     ("Insert" :> << N("InsertStmt", <<"INSERT","INTO","InsTableKw">> \o F("Table","InsTable") \o <<"InsCols","InsData">>) >>)
  @@ ("InsTableKw" :> Flag("HasTableKeyword", <<"TABLE">>))
  @@ ("InsTable" :> << <<"TableId">>, <<"InsFn">> >>)
  @@ ("InsFn" :> << <<"FUNCTION","InsCall">> >>)
  @@ ("InsCall" :> << N("FunctionExpr", F("Name","FnName") \o F("Params","Paren")) >>)
  @@ ("InsCols" :> << F("ColumnNames","ColNames"), <<>> >>)
  @@ ("ColNames" :> << N("ColumnNamesExpr", <<"(","ColNameL",")">>) >>)
  @@ ListOf("ColNameL", "ColumnNames", "NestedId")
  @@ ("InsData" :> << <<"VALUES","Rows">>, F("Format","FormatClause"), F("SelectExpr","SelectNoWith"), <<>> >>)
  @@ ListOf("Rows", "Values", "Row")
  @@ ("Row" :> << N("AssignmentValues", <<"(","RowVals",")">>) >>)
  @@ ListOf("RowVals", "Values", "RowVal")
  @@ ("RowVal" :> << <<"RowE">>, <<"Row">>,
                     N("TypedPlaceholder", <<"{">> \o F("Name","Name") \o <<":">> \o F("Type","Type") \o <<"}">>) >>)
  @@ ("RowE" :> << <<"@num">>, <<"@str">>, <<"@idc">>, Bin2("+",<<"+">>,"@idc","@num"), <<"CallN">>, <<"ArrayLit">>,
                   N("CastExpr", <<"CAST","(">> \o F("Expr","E1") \o <<"$Separator","AS">> \o F("AsType","CastTo") \o <<")">>) >>)
  @@ ("Delete" :> << N("DeleteClause", <<"DELETE","FROM">> \o F("Table","TableId") \o <<"ClusterC","WHERE">> \o F("WhereExpr","E1")) >>)
  @@ ("Use" :> << N("UseStmt", <<"USE">> \o F("Database","Name")) >>)
  @@ ("Set" :> << N("SetStmt", <<"SET">> \o F("Settings","SetItems")),
                  N("SetStmt", <<"^SETTINGS","~SET">> \o F("Settings","SetItems")) >>)
  @@ ("SetItems" :> << N("SettingsClause", <<"SettingItems">>) >>)
  @@ ("Optimize" :> << N("OptimizeStmt", <<"OPTIMIZE","TABLE">> \o F("Table","TableId") \o <<"ClusterC","OptPart","OptFinal","OptDedup">>) >>)
  @@ ("OptPart" :> Opt(F("Partition","Partition")))
  @@ ("OptFinal" :> Flag("HasFinal", <<"FINAL">>))
  @@ ("OptDedup" :> Opt(F("Deduplicate","Dedup")))
  @@ ("Dedup" :> << N("DeduplicateClause", <<"DEDUPLICATE">>), N("DeduplicateClause", <<"DEDUPLICATE","BY">> \o F("By","ExprList1")),
                    N("DeduplicateClause", <<"DEDUPLICATE","BY">> \o F("By","ExprList1") \o <<"EXCEPT">> \o F("Except","ExprList1")) >>)
  @@ ("Check" :> << N("CheckStmt", <<"CHECK","TABLE">> \o F("Table","TableId") \o <<"OptPart">>) >>)
  @@ ("Explain" :> << N("ExplainStmt", <<"EXPLAIN","ExplainKind">> \o F("Statement","Select")) >>)
  @@ ("ExplainKind" :> Words("Type", <<"SYNTAX","AST","PIPELINE","ESTIMATE">>))
  @@ ("Show" :> << N("ShowStmt", <<"SHOW","%ShowType=CREATE TABLE","CREATE","TABLE">> \o F("Target","TableId")),
                   N("ShowStmt", <<"SHOW","%ShowType=DATABASES","DATABASES","ShowLike","ShowLimit","ShowOut","ShowFmt">>),
                   N("ShowStmt", <<"SHOW","%ShowType=TABLES","TABLES">>) >>)
  @@ ("ShowLike" :> << <<>>, <<"%LikeType=LIKE","LIKE">> \o F("LikePattern","E1"), <<"%LikeType=ILIKE","ILIKE">> \o F("LikePattern","E1"),
                       <<"%NotLike=true","NOT","%LikeType=LIKE","LIKE">> \o F("LikePattern","E1"),
                       <<"%NotLike=true","NOT","%LikeType=ILIKE","ILIKE">> \o F("LikePattern","E1") >>)
  @@ ("ShowLimit" :> Opt(<<"LIMIT">> \o F("Limit","E1")))
  @@ ("ShowOut" :> Opt(<<"INTO","OUTFILE">> \o F("OutFile","@str")))
  @@ ("ShowFmt" :> << <<>>, <<"FORMAT">> \o F("Format","@str") >>)
  @@ ("Describe" :> << N("DescribeStmt", <<"DescKw","DescTable">> \o F("Target","TableId")) >>)
  @@ ("DescKw" :> << <<"DESCRIBE">>, <<"^DESC","~DESCRIBE">> >>)
  @@ ("DescTable" :> << <<"%DescribeType=TABLE","TABLE">>, <<>> >>)
  \* SYSTEM
  @@ ("System" :> << N("SystemStmt", <<"SYSTEM">> \o F("Expr","SysCmd")) >>)
  @@ ("SysCmd" :> <<
       N("SystemFlushExpr", <<"FLUSH","%Logs=true","LOGS">>),
       N("SystemFlushExpr", <<"FLUSH","DISTRIBUTED">> \o F("Distributed","TableId")),
       N("SystemReloadExpr", <<"RELOAD","%Type=DICTIONARIES","DICTIONARIES","ClusterC">>),
       N("SystemReloadExpr", <<"RELOAD","%Type=DICTIONARY","DICTIONARY","ClusterC">> \o F("Dictionary","TableId")),
       N("SystemReloadExpr", <<"RELOAD","%Type=DICTIONARY","DICTIONARY">> \o Seg(2, F("Dictionary","TableId")) \o Seg(1, F("OnCluster","Cluster"))),
       N("SystemReloadExpr", <<"RELOAD","%Type=EMBEDDED DICTIONARIES","EMBEDDED","DICTIONARIES","ClusterC">>),
       N("SystemSyncExpr", <<"SYNC","REPLICA">> \o F("Cluster","TableId")),
       N("SystemCtrlExpr", <<"SysStart","%Type=DISTRIBUTED SENDS","DISTRIBUTED","SENDS">> \o F("Cluster","TableId")),
       N("SystemCtrlExpr", <<"SysStart","%Type=DISTRIBUTED FETCHES","DISTRIBUTED","FETCHES">> \o F("Cluster","TableId")),
       N("SystemCtrlExpr", <<"SysStart","%Type=DISTRIBUTED MERGES","DISTRIBUTED","MERGES">> \o F("Cluster","TableId")),
       N("SystemCtrlExpr", <<"SysStart","%Type=DISTRIBUTED TTL MERGES","DISTRIBUTED","TTL","MERGES">> \o F("Cluster","TableId")),
       N("SystemCtrlExpr", <<"SysStart","%Type=REPLICATED SENDS","REPLICATED","SENDS">>),
       N("SystemDropExpr", <<"DROP","%Type=DNS CACHE","DNS","CACHE">>),
       N("SystemDropExpr", <<"DROP","%Type=MARK CACHE","MARK","CACHE">>),
       N("SystemDropExpr", <<"DROP","%Type=UNCOMPRESSED CACHE","UNCOMPRESSED","CACHE">>),
       N("SystemDropExpr", <<"DROP","%Type=FILESYSTEM CACHE","FILESYSTEM","CACHE">>),
       N("SystemDropExpr", <<"DROP","%Type=QUERY CACHE","QUERY","CACHE">>),
       N("SystemDropExpr", <<"DROP","%Type=COMPILED EXPRESSION CACHE","COMPILED","EXPRESSION","CACHE">>) >>)
  @@ ("SysStart" :> << <<"%Command=START","START">>, <<"%Command=STOP","STOP">> >>)
  \* GRANT
  @@ ("Grant" :> << N("GrantPrivilegeStmt", <<"GRANT","ClusterC","Privs","ON">> \o F("On","GrantOn") \o <<"TO","GrantTo","GrantOpts">>) >>)
  @@ ListOf("Privs", "Privileges", "Priv")
  @@ ("Priv" :> << N("PrivilegeClause", <<"$Keywords","SELECT","PrivCols">>), N("PrivilegeClause", <<"$Keywords","INSERT","PrivCols">>) >>
       \o [i \in 1..5 |-> Priv(<<"ALTER", <<"UPDATE","DELETE","USER","ROLE","QUOTA">>[i]>>)]
       \o << Priv(<<"ALTER","INDEX">>), Priv(<<"ALTER","ORDER","BY">>), Priv(<<"ALTER","SAMPLE","BY">>), Priv(<<"ALTER","SETTINGS">>),
             Priv(<<"ALTER","VIEW","MODIFY">>), Priv(<<"ALTER","VIEW","REFRESH">>), Priv(<<"ALTER","MOVE","PARTITION">>), Priv(<<"ALTER","FREEZE","PARTITION">>) >>
       \o [i \in 1..7 |-> Priv(<<"ALTER", <<"ADD","DROP","MODIFY","CLEAR","COMMENT","RENAME","MATERIALIZED">>[i], "COLUMN">>)]
       \o [i \in 1..7 |-> Priv(<<"ALTER", <<"ADD","DROP","MODIFY","CLEAR","COMMENT","RENAME","MATERIALIZED">>[i], "INDEX">>)]
       \o [i \in 1..7 |-> Priv(<<"ALTER", <<"ADD","DROP","MODIFY","CLEAR","COMMENT","RENAME","MATERIALIZED">>[i], "CONSTRAINT">>)]
       \o [i \in 1..7 |-> Priv(<<"ALTER", <<"ADD","DROP","MODIFY","CLEAR","COMMENT","RENAME","MATERIALIZED">>[i], "TTL">>)]
       \o [i \in 1..8 |-> Priv(<<"CREATE", <<"DATABASE","DICTIONARY","TABLE","FUNCTION","VIEW","USER","ROLE","QUOTA">>[i]>>)]
       \o << Priv(<<"CREATE","TEMPORARY","TABLE">>), Priv(<<"CREATE","ROWS","POLICY">>) >>
       \o [i \in 1..8 |-> Priv(<<"DROP", <<"DATABASE","DICTIONARY","TABLE","FUNCTION","VIEW","USER","ROLE","QUOTA">>[i]>>)]
       \o [i \in 1..4 |-> Priv(<<"SHOW", <<"DATABASES","DICTIONARIES","TABLES","COLUMNS">>[i]>>)]
       \o << Priv(<<"ALL">>), Priv(<<"KILL","QUERY">>), Priv(<<"ADMIN","OPTION">>), Priv(<<"OPTIMIZE">>), Priv(<<"TRUNCATE">>), Priv(<<"ROLE","ADMIN">>),
             N("PrivilegeClause", <<"$Keywords","@dictGet">>) >>
       \o [i \in 1..6 |-> Priv(<<"SYSTEM", <<"SHUTDOWN","MERGES","FETCHES","SENDS","MOVES","CLUSTER">>[i]>>)]
       \o << Priv(<<"SYSTEM","DROP","CACHE">>), Priv(<<"SYSTEM","DROP","MARK","CACHE">>), Priv(<<"SYSTEM","DROP","DNS","CACHE">>), Priv(<<"SYSTEM","DROP","UNCOMPRESSED","CACHE">>) >>
       \o [i \in 1..4 |-> Priv(<<"SYSTEM", "RELOAD", <<"DICTIONARY","FUNCTION","FUNCTIONS","CONFIG">>[i]>>)]
       \o << Priv(<<"SYSTEM","FLUSH","LOGS">>), Priv(<<"SYSTEM","FLUSH","DISTRIBUTED">>), Priv(<<"SYSTEM","TTL","MERGES">>), Priv(<<"SYSTEM","SYNC","REPLICA">>),
             Priv(<<"SYSTEM","RESTART","REPLICA">>), Priv(<<"SYSTEM","REPLICATION","QUEUES">>) >>)
  @@ ("PrivCols" :> Opt(F("Params","Paren1")))
  @@ ("GrantOn" :> << N("TableIdentifier", F("Table","GrantName")),
                      N("TableIdentifier", F("Database","GrantName") \o <<".">> \o F("Table","GrantTbl")) >>)
  @@ ("GrantName" :> << <<"@id">>, <<"@star">>, <<"@idb">>, <<"@idd">>, <<"@idk">> >>)
  @@ ("GrantTbl" :> << <<"@ida">>, <<"@star">>, <<"@idb">>, <<"@idr">> >>)
  @@ ListOf("GrantTo", "To", "Name")
  @@ ("GrantOpts" :> << <<>>, <<"WITH","$WithOptions","@kwGRANT","OPTION","GrantOpts">>, <<"WITH","$WithOptions","@kwADMIN","OPTION","GrantOpts">>,
                       <<"WITH","$WithOptions","@kwREPLACE","OPTION","GrantOpts">> >>)
  \* roles and users
  @@ ("RoleN" :> << N("RoleName", F("Name","Name") \o <<"ClusterC">>),
                    N("RoleName", F("Name","Name") \o <<"@">> \o F("Scope","@str") \o <<"ClusterC">>),
                    N("RoleName", F("Name","@str") \o <<"ClusterC">>) >>)
  @@ ("RoleRepl" :> << <<>>, <<"%IfNotExists=true","IF","NOT","EXISTS">>, <<"%OrReplace=true","OR","REPLACE">> >>)
  @@ ("CreateRole" :> << N("CreateRole", <<"CREATE","ROLE","RoleRepl","RoleNames","RoleIn","RoleSet">>) >>)
  @@ ListOf("RoleNames", "RoleNames", "RoleN")
  @@ ("RoleIn" :> Opt(<<"IN">> \o F("AccessStorageType","Name")))
  @@ ("RoleSet" :> Opt(<<"SETTINGS","RoleSettings">>))
  @@ ListOf("RoleSettings", "Settings", "RoleSetting")
  @@ ("RoleSetting" :> << N("RoleSetting", F("SettingPairs","Pair") \o <<"PairMore">>),
                          N("RoleSetting", F("SettingPairs","Pair") \o F("Modifier","PairMod")) >>)
  @@ ("PairMore" :> Opt(F("SettingPairs","Pair") \o <<"PairMore">>))
  @@ ("Pair" :> << N("SettingPair", F("Name","@id") \o <<"$Operation","=">> \o <<"PairVal">>),
                   N("SettingPair", F("Name","@id")),
                   N("SettingPair", F("Name","@kwMIN") \o <<"PairVal">>),
                   N("SettingPair", F("Name","@kwMAX") \o <<"PairVal">>),
                   N("SettingPair", F("Name","@kwMAX") \o <<"$Operation","=">> \o <<"PairVal">>),
                   N("SettingPair", F("Name","@kwPROFILE") \o F("Value","@str")) >>)
  @@ ("PairVal" :> << F("Value","@num"), F("Value","@str") >>)
  @@ ("PairMod" :> << <<"@kwREADABLE">>, <<"@kwWRITABLE">>, <<"@kwCONST">>, <<"@kwNONE">>, <<"@kwCHANGEABLE_IN_READONLY">> >>)
  @@ ("AlterRole" :> << N("AlterRole", <<"ALTER","ROLE","IeC","RolePairs","RoleSet">>) >>)
  @@ ListOf("RolePairs", "RoleRenamePairs", "RolePair")
  @@ ("RolePair" :> << N("RoleRenamePair", F("RoleName","RoleN")),
                       N("RoleRenamePair", F("RoleName","RoleN") \o <<"RENAME","TO">> \o F("NewName","Name")) >>)
  @@ ("DropUserRole" :> << N("DropUserOrRole", <<"DropKw","DropUR","IeC","DropNames","DropFrom","DropMod">>) >>)
  @@ ("DropUR" :> Words("Target", <<"USER","ROLE">>))
  @@ ListOf("DropNames", "Names", "RoleN")
  @@ ("DropFrom" :> Opt(<<"FROM">> \o F("From","Name")))
  @@ ("CreateUser" :> << N("CreateUser", <<"CREATE","USER","RoleRepl","UserNames","UserClauses">>) >>)
  @@ ListOf("UserNames", "UserNames", "RoleN")
  @@ ("UserClauses" :> AnyOrder(UserParts))
  @@ ("Auth" :> << N("AuthenticationClause", <<"%NotIdentified=true","NOT","IDENTIFIED">>),
                   N("AuthenticationClause", <<"IDENTIFIED","WITH","$AuthType","@id">>),
                   N("AuthenticationClause", <<"IDENTIFIED","WITH","$AuthType","@id","BY">> \o F("AuthValue","@str")),
                   N("AuthenticationClause", <<"IDENTIFIED","WITH","^LDAP","~ldap","SERVER">> \o F("LdapServer","@str")),
                   N("AuthenticationClause", <<"IDENTIFIED","WITH","%IsKerberos=true","^KERBEROS","~kerberos">>),
                   N("AuthenticationClause", <<"IDENTIFIED","WITH","%IsKerberos=true","^KERBEROS","~kerberos","REALM">> \o F("KerberosRealm","@str")) >>)
  @@ ("UserHosts" :> << F("Hosts","Host"), F("Hosts","Host") \o <<",">> \o F("Hosts","Host") >>)
  @@ ("Host" :> << N("HostClause", <<"HOST","$HostType","ANY">>), N("HostClause", <<"HOST","$HostType","LOCAL">>), N("HostClause", <<"HOST","$HostType","NONE">>),
                   N("HostClause", <<"HOST","$HostType","NAME">> \o F("HostValue","@str")), N("HostClause", <<"HOST","$HostType","REGEXP">> \o F("HostValue","@str")),
                   N("HostClause", <<"HOST","$HostType","IP">> \o F("HostValue","@str")), N("HostClause", <<"HOST","$HostType","LIKE">> \o F("HostValue","@str")) >>)
  @@ ("DefRole" :> << N("DefaultRoleClause", <<"DEFAULT","ROLE","DefRoles">>), N("DefaultRoleClause", <<"DEFAULT","ROLE","%None=true","NONE">>) >>)
  @@ ListOf("DefRoles", "Roles", "RoleN")
  @@ ("DefDb" :> << <<"DEFAULT","DATABASE">> \o F("DefaultDatabase","Name"), <<"DEFAULT","DATABASE","%DefaultDbNone=true","NONE">> >>)
  @@ ("Grantees" :> << N("GranteesClause", <<"GRANTEES","GranteeL","GranteeEx">>), N("GranteesClause", <<"GRANTEES","%Any=true","ANY","GranteeEx">>),
                       N("GranteesClause", <<"GRANTEES","%None=true","NONE","GranteeEx">>) >>)
  @@ ListOf("GranteeL", "Grantees", "RoleN")
  @@ ("GranteeEx" :> Opt(<<"EXCEPT","GranteeXL">>))
  @@ ListOf("GranteeXL", "ExceptUsers", "RoleN")
=============================================================================
