------------------------------ MODULE Adjacent ------------------------------
(***************************************************************************)
(* Which source tokens can stand next to each other in a statement.  A     *)
(* non-reserved word w written as a name between tokens p and n can only   *)
(* be taken for the keyword w if both <<p, w>> and <<w, n>> are adjacent   *)
(* in some statement; otherwise it must be read as the name.  (Adjacency   *)
(* over-approximates: it looks at the two neighbours only.)                *)
(***************************************************************************)
EXTENDS Grammar, LexTable, Words

CONSTANT Roots

NT == DOMAIN G
Name == "@"        \* any name, number or string
End  == "$"        \* end of the statement

\* The source token a symbol stands for, "" if none.
Term(s) ==
  IF Len(s) = 1 THEN IF s = "#" THEN "" ELSE s
  ELSE LET c == SubSeq(s, 1, 1) IN
       CASE c \in {"#", "&", "$", "~"} -> ""
         [] c = "%" -> ""
         [] c = "!" -> IF s = "!=" THEN s ELSE ""
         [] c = "^" -> SubSeq(s, 2, Len(s))
         [] c = "@" -> IF s = "@star" THEN "*" ELSE IF s = "@null" THEN "NULL" ELSE Name
         [] OTHER -> s

Silent(s) == s \notin NT /\ Term(s) = ""

\* Productions without the symbols that are not source tokens.
P == [n \in NT |-> [i \in DOMAIN G[n] |-> SelectSeq(G[n][i], LAMBDA s : ~Silent(s))]]

\* The fixpoints are reached step by step.
VARIABLES nul,    \* nonterminals that can be empty
          first,  \* tokens a nonterminal can start with
          last,   \* tokens it can end with
          stage   \* "null", "ends", then one state per token, then "done"
vars == <<nul, first, last, stage>>

RECURSIVE FirstOf(_), LastOf(_)
FirstOf(q) == IF q = <<>> THEN {}
              ELSE LET h == Head(q) IN
                   IF h \notin NT THEN {Term(h)}
                   ELSE first[h] \cup (IF h \in nul THEN FirstOf(Tail(q)) ELSE {})
LastOf(q) == IF q = <<>> THEN {}
             ELSE LET h == q[Len(q)] IN
                  IF h \notin NT THEN {Term(h)}
                  ELSE last[h] \cup (IF h \in nul THEN LastOf(SubSeq(q, 1, Len(q)-1)) ELSE {})

Init == /\ nul = {} /\ stage = "null"
        /\ first = [n \in NT |-> {}] /\ last = [n \in NT |-> {}]

Null == /\ stage = "null"
        /\ nul' = {n \in NT : \E i \in DOMAIN P[n] : \A j \in DOMAIN P[n][i] : P[n][i][j] \in nul}
        /\ stage' = IF nul' = nul THEN "ends" ELSE "null"
        /\ UNCHANGED <<first, last>>

Ends == /\ stage = "ends"
        /\ first' = [n \in NT |-> UNION {FirstOf(P[n][i]) : i \in DOMAIN P[n]}]
        /\ last'  = [n \in NT |-> UNION {LastOf(P[n][i])  : i \in DOMAIN P[n]}]
        /\ stage' = IF first' = first /\ last' = last THEN "done" ELSE "ends"
        /\ UNCHANGED nul

Next == Null \/ Ends

\* What may follow symbol j of production i of n, and the tokens that ends in.
LastSym(s)  == IF s \in NT THEN last[s] ELSE {Term(s)}
Occ == UNION { UNION { {<<n, i, j>> : j \in 1..(Len(P[n][i])-1)} : i \in DOMAIN P[n] } : n \in NT }

Emit == stage = "done" =>
          /\ PrintT(<<"ADJ", "^", ToString(UNION {first[r] : r \in Roots})>>)
          /\ PrintT(<<"ADJ$", ToString(UNION {last[r] : r \in Roots})>>)
          /\ \A o \in Occ : PrintT(<<"ADJ2", ToString(LastSym(P[o[1]][o[2]][o[3]])),
                                     ToString(FirstOf(SubSeq(P[o[1]][o[2]], o[3]+1, Len(P[o[1]][o[2]]))))>>)
=============================================================================
