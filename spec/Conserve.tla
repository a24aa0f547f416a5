------------------------------ MODULE Conserve ------------------------------
(***************************************************************************)
(* What becomes of the tokens of a statement.  The syntax tree, and with   *)
(* it the canonical text, holds every token of the source, except that a   *)
(* production may have tokens the source has and the tree has not ("^",    *)
(* a redundant spelling) or the other way round ("~", a default written    *)
(* out).  The exceptions are few; every accepted text, whether the grammar *)
(* derives it or not, must be explained by them.                           *)
(***************************************************************************)
EXTENDS Grammar, LexTable, Words

Text(s) == SubSeq(s, 2, Len(s))
Only(q, c) == LET k == SelectSeq(q, LAMBDA s : Len(s) > 1 /\ SubSeq(s, 1, 1) = c)
              IN [i \in DOMAIN k |-> Text(k[i])]

\* Keywords both texts have with it: it happens no more often than they do.
Anchor(n, q) == IF n = "SubQueryT" THEN <<"FROM","JOIN","AS",",">>
                ELSE IF n = "SetRhs" THEN <<"UNION","EXCEPT","INTERSECT">>
                ELSE LET k == SelectSeq(q, LAMBDA s : s \in Keywords /\ s \notin DOMAIN G)
                     IN IF k = <<>> THEN <<>> ELSE <<k[1]>>

\* <<tokens of the source only, tokens of the canonical text only, anchors>>
Exchanges == UNION { { <<Only(G[n][i], "^"), Only(G[n][i], "~"), Anchor(n, G[n][i])>> : i \in DOMAIN G[n] } : n \in DOMAIN G }
             \cup { << <<>>, <<"(", ")">>, <<"USING">> >> } \* a list that is not of names alone gets its brackets

ASSUME \A e \in Exchanges : e[1] \o e[2] = <<>> \/ PrintT(<<"EXCHANGE", ToString(e[1]), ToString(e[2]), ToString(e[3])>>)

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
