------------------------------ MODULE Traverse ------------------------------
(***************************************************************************)
(* The traversal protocols of a syntax tree: the visitor (Enter / Visit /  *)
(* Leave, with errors), the walk (one call per node, which may ask to      *)
(* stop) and what the search helpers answer.                               *)
(*                                                                         *)
(* A tree is the sequence par of parents: nodes are 1..Len(par), par[1]=0, *)
(* numbered so that a subtree is a range.  The order in which the children of a node are taken is the *)
(* implementation's; everything else is fixed here.                        *)
(*                                                                         *)
(* Events: <<"enter",n>> <<"visit",n>> <<"fail",n>> <<"leave",n>>          *)
(*         <<"call",n>>  <<"stop",n>>  <<"ret",v>>                         *)
(*   fail: the callback of n was called and returned an error              *)
(*   stop: the callback of n was called and declined to go on              *)
(*   ret:  the traversal returned: n = the failing node for a visitor (0 = *)
(*         nil error), 1/0 = true/false for a walk                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Nodes(par) == 1..Len(par)
Kids(par, n) == {m \in Nodes(par) : par[m] = n}
RECURSIVE LastOf(_,_,_)
LastOf(par, n, m) == IF m = Len(par) \/ par[m+1] < n THEN m ELSE LastOf(par, n, m+1)
Desc(par, n) == (n+1)..LastOf(par, n, n)

\* A traversal state: the open nodes (innermost last), the nodes already
\* visited and closed, and how it ended.
Idle == [stack |-> <<>>, seen |-> {}, visited |-> {}, left |-> {}, halt |-> 0, done |-> FALSE]

Top(s) == IF s.stack = <<>> THEN 0 ELSE s.stack[Len(s.stack)]
Pop(q) == SubSeq(q, 1, Len(q)-1)

--------------------------------------------------------------------------
(* Visitor: what may happen next in state s. *)
EnterOk(par, s, n) == /\ ~s.done /\ s.halt = 0
                      /\ n \notin s.seen /\ par[n] = Top(s)
                      /\ Top(s) \notin s.visited
                      /\ (n = 1) = (s.seen = {})
VisitOk(par, s, n) == /\ ~s.done /\ s.halt = 0
                      /\ n = Top(s) /\ n \notin s.visited
                      /\ Kids(par, n) \subseteq s.left
LeaveOk(par, s, n) == /\ ~s.done /\ n = Top(s) /\ n # 0
                      /\ (n \in s.visited \/ s.halt # 0)
RetVOk(par, s, n)  == /\ ~s.done /\ s.stack = <<>> /\ s.seen # {} /\ n = s.halt

(* Walk: a node is called once, after its parent and within its parent's
   subtree: the nodes that are dropped from the path are complete. *)
RECURSIVE Unwind(_,_,_)
Unwind(par, s, n) ==      \* path after leaving complete subtrees, down to n's parent
  IF Top(s) = par[n] THEN s.stack
  ELSE IF s.stack = <<>> \/ ~(Desc(par, Top(s)) \subseteq s.seen) THEN <<0>>
  ELSE Unwind(par, [s EXCEPT !.stack = Pop(s.stack)], n)
CallOk(par, s, n) == /\ ~s.done /\ s.halt = 0 /\ n \notin s.seen
                     /\ (n = 1) = (s.seen = {})
                     /\ (n # 1 => Unwind(par, s, n) # <<0>>)
RetWOk(par, s, v) == /\ ~s.done
                     /\ IF s.halt # 0 THEN v = 0 ELSE v = 1 /\ s.seen = Nodes(par)

Allowed(par, s, e) ==
  CASE e[1] = "enter" -> EnterOk(par, s, e[2])
    [] e[1] \in {"visit","fail"} -> VisitOk(par, s, e[2])
    [] e[1] = "leave" -> LeaveOk(par, s, e[2])
    [] e[1] = "retv"  -> RetVOk(par, s, e[2])
    [] e[1] \in {"call","stop"} -> CallOk(par, s, e[2])
    [] e[1] = "retw"  -> RetWOk(par, s, e[2])
    [] OTHER -> FALSE

After(par, s, e) ==
  CASE e[1] = "enter" -> [s EXCEPT !.stack = Append(@, e[2]), !.seen = @ \cup {e[2]}]
    [] e[1] = "visit" -> [s EXCEPT !.visited = @ \cup {e[2]}]
    [] e[1] = "fail"  -> [s EXCEPT !.visited = @ \cup {e[2]}, !.halt = e[2]]
    [] e[1] = "leave" -> [s EXCEPT !.stack = Pop(@), !.left = @ \cup {e[2]}]
    [] e[1] \in {"call","stop"} ->
         [s EXCEPT !.stack = Append(IF e[2] = 1 THEN <<>> ELSE Unwind(par, s, e[2]), e[2]),
                   !.seen = @ \cup {e[2]}, !.halt = IF e[1] = "stop" THEN e[2] ELSE @]
    [] OTHER -> [s EXCEPT !.done = TRUE]
=============================================================================
