------------------------------ MODULE LexTable ------------------------------
(***************************************************************************)
(* The lexical automaton.  Input characters are abstracted to classes;     *)
(* Delta is the transition function of a deterministic automaton whose     *)
(* longest path into an accepting state is the next token.  "ERR" is a     *)
(* lexical error, "" means no transition.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Classes == {"sp","nl",                        \* blanks, line ends
            "zero","dig","e","hex","x","al",  \* 0, 1-9, eE, a-dfA-DF, x, other letters and _
            "dol","sq","bt","dq","bs",        \* $ ' ` " \
            "dot","plus","minus","slash","star",
            "gt","lt","eq","bang","pipe","colon",
            "oth",                            \* other single-character tokens: ( ) [ ] { } , ; ? % @ ...
            "hi"}                             \* non-ASCII bytes that are not blanks

Digit == {"zero","dig"}
Letter == {"e","hex","x","al"}
IdentPart == Digit \cup Letter \cup {"dol"}

Row(s) ==
  CASE s = "Start" -> [c \in Classes |->
         CASE c \in {"sp","nl"} -> "Blank" [] c = "zero" -> "Zero" [] c = "dig" -> "Dec"
           [] c \in Letter -> "Id" [] c = "dol" -> "Id"
           [] c = "sq" -> "Str" [] c = "bt" -> "Bt" [] c = "dq" -> "Dq"
           [] c = "minus" -> "Minus" [] c = "slash" -> "Slash" [] c = "gt" -> "Gt" [] c = "lt" -> "Lt"
           [] c = "eq" -> "Eq" [] c = "bang" -> "Bang" [] c = "pipe" -> "Pipe" [] c = "colon" -> "Colon"
           [] c = "hi" -> "ERR"
           [] OTHER -> "One"]
    [] s = "Blank" -> [c \in Classes |-> IF c \in {"sp","nl"} THEN "Blank" ELSE ""]
    [] s = "Id"    -> [c \in Classes |-> IF c \in IdentPart THEN "Id" ELSE ""]
    \* numbers
    [] s = "Zero"  -> [c \in Classes |-> CASE c \in Digit -> "Dec" [] c = "x" -> "Hex0" [] c = "dot" -> "Frac"
                                          [] c = "e" -> "Exp0" [] c \in IdentPart -> "ERR" [] OTHER -> ""]
    [] s = "Dec"   -> [c \in Classes |-> CASE c \in Digit -> "Dec" [] c = "dot" -> "Frac" [] c = "e" -> "Exp0"
                                          [] c \in IdentPart -> "ERR" [] OTHER -> ""]
    [] s = "Frac"  -> [c \in Classes |-> CASE c \in Digit -> "Frac" [] c = "dot" -> "ERR" [] c = "e" -> "Exp0"
                                          [] c \in IdentPart -> "ERR" [] OTHER -> ""]
    [] s = "Exp0"  -> [c \in Classes |-> CASE c \in Digit -> "Exp" [] c \in {"plus","minus"} -> "Exp1" [] OTHER -> "ERR"]
    [] s = "Exp1"  -> [c \in Classes |-> IF c \in Digit THEN "Exp" ELSE "ERR"]
    [] s = "Exp"   -> [c \in Classes |-> CASE c \in Digit -> "Exp" [] c = "dot" -> "ERR" [] c \in IdentPart -> "ERR" [] OTHER -> ""]
    [] s = "Hex0"  -> [c \in Classes |-> IF c \in Digit \cup {"e","hex"} THEN "Hex" ELSE "ERR"]
    [] s = "Hex"   -> [c \in Classes |-> CASE c \in Digit \cup {"e","hex"} -> "Hex" [] c = "dot" -> "ERR"
                                          [] c \in IdentPart -> "ERR" [] OTHER -> ""]
    \* quoted lexemes
    [] s = "Str"   -> [c \in Classes |-> CASE c = "sq" -> "StrQ" [] c = "bs" -> "StrB" [] OTHER -> "Str"]
    [] s = "StrB"  -> [c \in Classes |-> "Str"]
    [] s = "StrQ"  -> [c \in Classes |-> IF c = "sq" THEN "Str" ELSE ""]
    [] s = "Bt"    -> [c \in Classes |-> IF c = "bt" THEN "BtE" ELSE "Bt"]
    [] s = "Dq"    -> [c \in Classes |-> IF c = "dq" THEN "DqE" ELSE "Dq"]
    \* operators and comments
    [] s = "Minus" -> [c \in Classes |-> CASE c = "gt" -> "Two" [] c = "minus" -> "Line" [] OTHER -> ""]
    [] s = "Line"  -> [c \in Classes |-> IF c = "nl" THEN "" ELSE "Line"]
    [] s = "Slash" -> [c \in Classes |-> IF c = "star" THEN "Blk" ELSE ""]
    [] s = "Blk"   -> [c \in Classes |-> IF c = "star" THEN "BlkS" ELSE "Blk"]
    [] s = "BlkS"  -> [c \in Classes |-> CASE c = "slash" -> "BlkE" [] c = "star" -> "BlkS" [] OTHER -> "Blk"]
    [] s = "Gt"    -> [c \in Classes |-> IF c = "eq" THEN "Two" ELSE ""]
    [] s = "Lt"    -> [c \in Classes |-> IF c \in {"eq","gt"} THEN "Two" ELSE ""]
    [] s \in {"Eq","Bang"} -> [c \in Classes |-> IF c = "eq" THEN "Two" ELSE ""]
    [] s = "Pipe"  -> [c \in Classes |-> IF c = "pipe" THEN "Two" ELSE ""]
    [] s = "Colon" -> [c \in Classes |-> IF c = "colon" THEN "Two" ELSE ""]
    [] OTHER -> [c \in Classes |-> ""]

States == {"Start","Blank","Id","Zero","Dec","Frac","Exp0","Exp1","Exp","Hex0","Hex","Str","StrB","StrQ","Bt","Dq",
           "BtE","DqE","Minus","Line","Slash","Blk","BlkS","BlkE","Gt","Lt","Eq","Bang","Pipe","Colon","One","Two"}

Delta == [s \in States |-> Row(s)]

\* What an accepting state yields; "skip" separates tokens, "" is a state
\* in which the input may not end.
Kind == [s \in States |->
  CASE s \in {"Blank","Line","BlkE"} -> "skip"
    [] s = "Id" -> "ident"
    [] s \in {"Zero","Dec"} -> "int" [] s = "Hex" -> "hexint" [] s \in {"Frac","Exp"} -> "float"
    [] s = "StrQ" -> "string" [] s = "BtE" -> "backtick" [] s = "DqE" -> "dquote"
    [] s \in {"Minus","Slash","Gt","Lt","Eq","Bang","Pipe","Colon","One","Two"} -> "op"
    [] OTHER -> ""]

LexRows == { <<"LEX", s, c, Delta[s][c]>> : s \in States, c \in Classes }
LexKinds == { <<"LEXK", s, Kind[s]>> : s \in States }
\* A sign directly before a digit belongs to the number unless an operand
\* precedes it: the kinds and single-character tokens that end an operand.
OperandEnd == {"ident","int","hexint","float","string","backtick","dquote",")","]","}"}

DumpLex == /\ \A k \in OperandEnd : PrintT(<<"LEXS", k>>)
           /\ \A r \in LexRows : r[4] = "" \/ PrintT(r)
           /\ \A r \in LexKinds : PrintT(r)


ASSUME DumpLex
=============================================================================
