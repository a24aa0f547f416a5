------------------------------- MODULE Batch -------------------------------
(***************************************************************************)
(* The statement loop.  The input is a sequence of items: a statement the  *)
(* parser accepts on its own (G), one it rejects on its own (B), or a      *)
(* separator.  The loop reads items from left to right; statements it has  *)
(* finished are recorded by item number.  The first statement that is      *)
(* rejected, or that follows another without a separator, ends the call:   *)
(* the outcome is then that error and no statements.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANT MaxItems
VARIABLES items, mode, done, bad
vars == <<items, mode, done, bad>>

Init == items = <<>> /\ mode = "idle" /\ done = <<>> /\ bad = 0

Read(x) ==
  /\ Len(items) < MaxItems
  /\ items' = Append(items, x)
  /\ CASE mode = "error" -> UNCHANGED <<mode, done, bad>>
       [] x = ";" -> mode' = "idle" /\ UNCHANGED <<done, bad>>
       [] mode = "idle" /\ x = "G" -> mode' = "ended" /\ done' = Append(done, Len(items) + 1) /\ UNCHANGED bad
       [] OTHER -> mode' = "error" /\ done' = <<>> /\ bad' = Len(items) + 1

Next == \E x \in {"G", "B", ";"} : Read(x)
Spec == Init /\ [][Next]_vars

Goods == {i \in DOMAIN items : items[i] = "G"}
\* all accepted statements, in order, or an error: never some of them
AllOrNothing == IF mode = "error" THEN done = <<>> ELSE {done[i] : i \in DOMAIN done} = {i \in DOMAIN items : items[i] # ";"}
InOrder == \A i, j \in DOMAIN done : i < j => done[i] < done[j]
\* separators at the ends and repeated separators change nothing
Separated == mode # "error" => \A i \in 1..Len(items) - 1 : items[i] = ";" \/ items[i+1] = ";"
ErrorIsFirst == mode = "error" => \A i \in 1..bad - 1 : items[i] # "B"

Emit == PrintT(<<"B", ToString(items), mode, ToString(bad)>>)
=============================================================================
