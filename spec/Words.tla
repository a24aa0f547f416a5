------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* The keywords, and those of them that are reserved: a reserved word is   *)
(* not a name unless quoted (or where nothing but a name can stand: after  *)
(* AS, after a dot, in braces).  Every other keyword is a name wherever    *)
(* the grammar does not let it be read as the keyword.                     *)
(***************************************************************************)
EXTENDS TLC

Reserved == {
    "ALTER", "AND", "AS", "BETWEEN", "BY", "CASE", "CREATE", "CROSS", "DESCRIBE", "DISTINCT",
    "DROP", "ELSE", "EXCEPT", "EXPLAIN", "FORMAT", "FROM", "GRANT", "GROUP", "HAVING", "ILIKE",
    "IN", "INNER", "INSERT", "INTERVAL", "INTO", "IS", "KILL", "LIKE", "LIMIT", "NOT", "OFFSET",
    "ON", "OPTIMIZE", "OR", "ORDER", "PREWHERE", "RENAME", "SELECT", "SETTINGS", "SHOW", "THEN",
    "TRUNCATE", "UNION", "USE", "USING", "WHEN", "WHERE", "WINDOW", "WITH" }

Keywords == Reserved \cup {
    "ADD", "ADMIN", "AFTER", "ALIAS", "ALL", "ANTI", "ANY", "APPEND", "APPLY", "ARRAY", "ASC",
    "ASCENDING", "ASOF", "AST", "ASYNC", "ATTACH", "BOTH", "CACHE", "CAST", "CHECK", "CLEAR",
    "CLUSTER", "CODEC", "COLLATE", "COLLECTION", "COLUMN", "COLUMNS", "COMMENT", "COMPILED",
    "CONFIG", "CONSTRAINT", "CUBE", "CURRENT", "DATABASE", "DATABASES", "DATE", "DAY",
    "DEDUPLICATE", "DEFAULT", "DEFINER", "DELAY", "DELETE", "DEPENDS", "DESC", "DESCENDING",
    "DETACH", "DETACHED", "DICTIONARIES", "DICTIONARY", "DISK", "DISTRIBUTED", "DNS",
    "EMBEDDED", "EMPTY", "END", "ENGINE", "ESTIMATE", "EVENTS", "EVERY", "EXISTS", "EXPRESSION",
    "EXTRACT", "FALSE", "FETCHES", "FILESYSTEM", "FILL", "FINAL", "FIRST", "FLUSH", "FOLLOWING",
    "FOR", "FREEZE", "FULL", "FUNCTION", "FUNCTIONS", "GLOBAL", "GRANTEES", "GRANULARITY",
    "GROUPING", "HIERARCHICAL", "HOST", "HOUR", "ID", "IDENTIFIED", "IF", "INDEX", "INF",
    "INJECTIVE", "INTERPOLATE", "INTERSECT", "IP", "IS_OBJECT_ID", "JOIN", "JSON", "KERBEROS",
    "KEY", "LAST", "LAYOUT", "LDAP", "LEADING", "LEFT", "LIFETIME", "LIVE", "LOCAL", "LOGS",
    "MARK", "MATERIALIZE", "MATERIALIZED", "MAX", "MERGES", "MIN", "MINUTE", "MODIFY", "MONTH",
    "MOVE", "MOVES", "MUTATION", "NAME", "NAMED", "NAN_SQL", "NO", "NONE", "NULL", "NULLS",
    "OPTION", "OUTER", "OUTFILE", "OVER", "OVERLAY", "OVERLAYUTF8", "OVERRIDABLE", "PARTITION",
    "PIPELINE", "PLACING", "POLICY", "POPULATE", "PRECEDING", "PRIMARY", "PROJECTION",
    "QUARTER", "QUERY", "QUEUES", "QUOTA", "RANDOMIZE", "RANGE", "REALM", "RECOMPRESS",
    "REFRESH", "REGEXP", "RELOAD", "REMOVE", "REPLACE", "REPLICA", "REPLICATED", "REPLICATION",
    "RESET", "RESTART", "RIGHT", "ROLE", "ROLLUP", "ROW", "ROWS", "SAMPLE", "SECOND",
    "SECURITY", "SEMI", "SENDS", "SERVER", "SET", "SETS", "SETTING", "SHUTDOWN", "SKIP",
    "SOURCE", "SQL", "STALENESS", "START", "STEP", "STOP", "SUBSTRING", "SYNC", "SYNTAX",
    "SYSTEM", "TABLE", "TABLES", "TEMPORARY", "TEST", "TIES", "TIMEOUT", "TIMESTAMP", "TO",
    "TOP", "TOTALS", "TRAILING", "TRIM", "TRUE", "TTL", "TYPE", "UNBOUNDED", "UNCOMPRESSED",
    "UNTIL", "UPDATE", "USER", "UUID", "VALID", "VALUES", "VIEW", "VOLUME", "WATCH", "WEEK",
    "YEAR" }

\* Where one neighbour alone makes a word the keyword: the words on the right of
\* the token on the left, as far as they can follow it ("*" any token); and for
\* CASE, whose reading as a name the word behind it decides.
LeftTaken == [ l \in {"*", "CASE", "AS", "DISTINCT", "::", "@", ")", ", $", ", @"} |->
    CASE l = "*"    -> {"IF", "TABLE", "FUNCTION", "REGEXP", "SKIP", "ANY", "NONE", "APPLY", "REPLACE", "GLOBAL", "INTERSECT", "WITH"}
      [] l = "CASE" -> Reserved \cup {"END", "INTERSECT"}
      [] l = "AS"   -> {"SELECT", "WITH"}
      [] l = "DISTINCT" -> {"ON"}
      [] l \in {"@", ")"} -> {"APPLY", "REPLACE"}
      [] l = ", $"  -> {"FROM", "WHERE", "PREWHERE", "GROUP", "HAVING", "WINDOW", "ORDER", "LIMIT",
                        "OFFSET", "SETTINGS", "FORMAT", "UNION", "EXCEPT", "INTERSECT"}  \* behind a trailing comma
      [] l = ", @"  -> {"INTERSECT"}
      [] l = "::"   -> Reserved ]
\* ... and the words on the left of the token on the right: those that call a
\* syntax of their own, and TOP in front of a number like .5.
RightTaken == [ r \in {"(", "."} |->
    CASE r = "(" -> {"CAST", "EXTRACT", "SELECT", "NOT", "CASE", "DISTINCT", "INTERVAL"}
      [] r = "." -> {"TOP"} ]
\* Words that are modifiers or start another clause among the settings of a role or user.
UserWords == {"NONE", "READABLE", "WRITABLE", "CONST", "DEFAULT", "GRANTEES", "HOST", "IDENTIFIED", "VALID"}
\* A reserved word is an operand's name in front of one of these, which no
\* clause or expression it begins could continue with.
Follow == { ",", ")", "]", "$", "AS",
    "FROM", "WHERE", "PREWHERE", "GROUP", "HAVING", "WINDOW", "ORDER", "LIMIT", "OFFSET",
    "SETTINGS", "FORMAT", "UNION", "EXCEPT", "INTERSECT",
    "=", "==", "!=", "<>", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "||", "::",
    "AND", "OR", "NOT", "IN", "LIKE", "ILIKE", "BETWEEN", "IS", "THEN", "ELSE", "END" }
\* Reserved words that begin an expression or its argument list themselves.
Prefix == {"NOT", "DISTINCT", "INTERVAL", "SELECT", "CASE"}

ASSUME \A l \in DOMAIN LeftTaken : PrintT(<<"TAKEN", l, ToString(LeftTaken[l])>>)
ASSUME \A r \in DOMAIN RightTaken : PrintT(<<"RTAKEN", r, ToString(RightTaken[r])>>)
ASSUME PrintT(<<"USERWORDS", ToString(UserWords)>>)
ASSUME PrintT(<<"FOLLOW", ToString(Follow)>>) /\ PrintT(<<"PREFIX", ToString(Prefix)>>)
ASSUME \A w \in Keywords : PrintT(<<"WORD", w, IF w \in Reserved THEN "reserved" ELSE "free">>)
=============================================================================
