----------------------------- MODULE SqlMachine -----------------------------
(***************************************************************************)
(* The statement machine: a leftmost-derivation machine over the grammar G *)
(* defined in the Grammar module.  A behaviour of the machine starts from  *)
(* a root nonterminal and ends when nothing is left to expand; its output  *)
(* `out` is then the complete parser trace of one statement: the tokens    *)
(* the parser must consume interleaved with the events it must produce     *)
(* (nodes opened and closed, fields set, tokens of the canonical text).    *)
(*                                                                         *)
(* Alternative 1 of every nonterminal is its default and is free; taking   *)
(* any other alternative costs one unit of the deviation budget, so with   *)
(* budget D the reachable final states are exactly the statements that     *)
(* differ from a default statement in at most D choices.                   *)
(***************************************************************************)
EXTENDS Grammar, LexTable

CONSTANTS Roots,    \* set of root nonterminals
          Budget,   \* deviation budget D
          Focus,    \* nonterminals that may deviate; {} = all of them
          Frozen    \* nonterminals that may not

VARIABLES todo,     \* stack of symbols still to expand, top first
          out,      \* trace emitted so far
          bud,      \* deviations left
          depth     \* number of open nodes (ghost, for the invariants)

vars == <<todo, out, bud, depth>>

NT == DOMAIN G
MayDeviate(n) == n \notin Frozen /\ (Focus = {} \/ n \in Focus)

IsOpen(s)  == /\ Len(s) > 1 /\ SubSeq(s,1,1) = "#"
IsClose(s) == s = "#"

\* Expand deterministically until a genuine choice is on top of the stack.
RECURSIVE Settle(_,_,_)
Settle(t, o, b) ==
  IF t = <<>> THEN <<t, o>>
  ELSE LET h == Head(t) IN
       IF h \in NT
       THEN IF b = 0 \/ Len(G[h]) = 1 \/ ~MayDeviate(h)
            THEN Settle(G[h][1] \o Tail(t), o, b)
            ELSE <<t, o>>
       ELSE Settle(Tail(t), Append(o, h), b)

Start(r) == LET s == Settle(<<r>>, <<>>, Budget) IN
            /\ todo = s[1] /\ out = s[2] /\ bud = Budget /\ depth = 0

Init == \E r \in Roots : Start(r)

Choose(i) ==
  LET h == Head(todo)
      b == IF i = 1 THEN bud ELSE bud - 1
      s == Settle(G[h][i] \o Tail(todo), out, b)
  IN /\ todo' = s[1] /\ out' = s[2] /\ bud' = b /\ depth' = depth

Expand == /\ todo # <<>>
          /\ \E i \in DOMAIN G[Head(todo)] : Choose(i)

Next == Expand

Spec == Init /\ [][Next]_vars

Finished == todo = <<>>

Emit == Finished => PrintT(<<"T", ToString(out)>>)
=============================================================================
