----------------------------- MODULE MCTraverse -----------------------------
(* All behaviours of the traversal protocols over all trees of at most N   *)
(* nodes, with a failure or a stop at any callback; the properties follow. *)
EXTENDS Traverse
CONSTANTS N, Mode        \* Mode: "visitor" or "walk"
VARIABLES par, s, log

RECURSIVE Anc(_,_)
Anc(t, n) == IF n = 0 THEN {} ELSE {n} \cup Anc(t, t[n])
RECURSIVE Trees(_)
Trees(k) == IF k = 1 THEN {<<0>>}
            ELSE UNION {{Append(t, p) : p \in Anc(t, k-1)} : t \in Trees(k-1)}

Init == /\ par \in UNION {Trees(k) : k \in 1..N}
        /\ s = Idle /\ log = <<>>

Kinds == IF Mode = "visitor" THEN {"enter","visit","fail","leave","retv"} ELSE {"call","stop","retw"}
Next == \E k \in Kinds, n \in 0..Len(par) :
          LET e == <<k, n>> IN
          /\ (k \in {"retv","retw"} \/ n > 0)
          /\ Allowed(par, s, e)
          /\ s' = After(par, s, e) /\ log' = Append(log, e) /\ par' = par

Count(k, n) == Cardinality({i \in DOMAIN log : log[i] = <<k, n>>})
At(k, n) == CHOOSE i \in DOMAIN log : log[i] = <<k, n>>
Has(k, n) == Count(k, n) > 0

AtMostOnce == \A n \in Nodes(par) : \A k \in Kinds : Count(k, n) <= 1
\* a complete traversal without failure reaches every node
Complete == (s.done /\ s.halt = 0) => s.seen = Nodes(par)
\* leaving is balanced even after a failure
Balanced == (s.done /\ Mode = "visitor") => s.left = s.seen
ParentFirst == \A n \in s.seen \ {1} : par[n] \in s.seen
\* nothing but leaving after a failure, nothing at all after a stop
HaltStops == \A i \in DOMAIN log : log[i][1] \in {"fail","stop"} =>
               \A j \in (i+1)..Len(log) : log[j][1] \in {"leave","retv","retw"}
\* children are visited before their parent
Post == Mode = "visitor" => \A n \in Nodes(par) \ {1} : Has("visit", par[n]) => Has("visit", n)
\* a node's subtree is contiguous in the walk
Contig == Mode = "walk" => \A n \in s.seen : \A i, j \in DOMAIN log :
            (i < j /\ log[i][2] \in Desc(par, n) \cup {n} /\ log[j][2] \in Desc(par, n) \cup {n}) =>
              \A k \in i..j : log[k][2] \in Desc(par, n) \cup {n}
\* an unfinished traversal can always go on
Progress == s.done \/ ENABLED Next
=============================================================================
