------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The lexer as a machine: it reads a string of character classes, one     *)
(* character per step, following LexTable, and stops at the end of the     *)
(* first token.  TLC enumerates every class string up to MaxLen; each      *)
(* finished behaviour says which token (kind and length) or error the      *)
(* string starts with, and is replayed against the parser.                 *)
(***************************************************************************)
EXTENDS LexTable

CONSTANTS MaxLen,
          Firsts,   \* classes the string may start with
          Inner     \* classes it goes on with

VARIABLES str,    \* characters chosen so far
          st,     \* automaton state
          tokAt,  \* where the current lexeme starts
          res     \* "" while running, else the verdict

vars == <<str, st, tokAt, res>>

Init == str = <<>> /\ st = "Start" /\ tokAt = 0 /\ res = ""

\* Reading class c in state s, at position n (0-based) of the string.
Read(c) ==
  LET n  == Len(str)
      s1 == Delta[st][c]
  IN /\ str' = Append(str, c)
     /\ IF s1 = "ERR" THEN st' = st /\ tokAt' = tokAt /\ res' = "error"
        ELSE IF s1 # "" THEN st' = s1 /\ tokAt' = tokAt /\ res' = ""
        ELSE IF Kind[st] = "skip"
             THEN LET s2 == Delta["Start"][c] IN
                  IF s2 = "ERR" THEN st' = st /\ tokAt' = tokAt /\ res' = "error"
                  ELSE st' = s2 /\ tokAt' = n /\ res' = ""
        ELSE st' = st /\ tokAt' = tokAt /\ res' = Kind[st]

Step == /\ res = "" /\ Len(str) < MaxLen
        /\ \E c \in (IF str = <<>> THEN Firsts ELSE Inner) : Read(c)

\* The input ends here.
Stop == /\ res = "" /\ str # <<>>
        /\ res' = (IF st = "Start" \/ Kind[st] = "skip" THEN "none" ELSE IF Kind[st] = "" THEN "error" ELSE Kind[st] \o "$")
        /\ UNCHANGED <<str, st, tokAt>>

Next == Step \/ Stop
Spec == Init /\ [][Next]_vars

Ended == Len(res) > 0 /\ SubSeq(res, Len(res), Len(res)) = "$"
TokEnd == IF Ended THEN Len(str) ELSE Len(str) - 1

\* Every token is non-empty and lies inside the text read.
Progress == (res \notin {"", "error", "none"}) => (TokEnd > tokAt /\ TokEnd <= Len(str))
\* An accepted token cannot be extended by the character that ended it.
LongestMatch == (res \notin {"", "error", "none"} /\ ~Ended) => Delta[st][str[Len(str)]] = ""
\* The automaton never gets stuck silently: a state without continuation accepts.
NoTrap == \A s \in States : (\A c \in Classes : Delta[s][c] = "") => Kind[s] # ""

Emit == (res # "") => PrintT(<<"L", res, ToString(tokAt), ToString(TokEnd), ToString(str)>>)
=============================================================================
