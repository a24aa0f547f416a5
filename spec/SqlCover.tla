------------------------------ MODULE SqlCover ------------------------------
(***************************************************************************)
(* The statement machine, aimed: for every occurrence of a nonterminal in  *)
(* the productions of G (production n, alternative i, position j) the      *)
(* machine first derives a shortest context that contains that occurrence  *)
(* (all choices forced, free of charge), and only the occurrence itself    *)
(* may then deviate, in at most Budget choices.  So every use of every     *)
(* production is replayed with every combination of Budget choices below   *)
(* it, however deeply the use is nested.                                   *)
(***************************************************************************)
EXTENDS Grammar, LexTable

CONSTANTS Roots, Budget, Focus, Frozen

VARIABLES todo,   \* stack of symbols still to expand, top first
          out,    \* trace emitted so far
          bud,    \* deviations left below the occurrence
          phase   \* "on" while the occurrence is being expanded

vars == <<todo, out, bud, phase>>

NT == DOMAIN G
MayDeviate(n) == n \notin Frozen /\ (Focus = {} \/ n \in Focus)

\* Occurrences <<n, i, j>> of nonterminals.
Occ == UNION { UNION { {<<n, i, j>> : j \in {j \in DOMAIN G[n][i] : G[n][i][j] \in NT}} : i \in DOMAIN G[n] } : n \in NT }

At(o) == G[o[1]][o[2]][o[3]]

\* A shortest path of forced choices <<n, i>> from a root to each nonterminal.
RECURSIVE Grow(_)
Grow(P) ==
  LET es == {e \in Occ : e[1] \in DOMAIN P /\ At(e) \notin DOMAIN P}
      new == {At(e) : e \in es}
  IN IF new = {} THEN P
     ELSE Grow(P @@ [m \in new |-> LET e == CHOOSE e \in es : At(e) = m IN Append(P[e[1]], <<e[1], e[2]>>)])

Path == Grow([r \in Roots |-> <<>>])

\* Expand what is forced until a choice below the occurrence is on top.
\* p is the rest of the path; its last step marks the occurrence.
RECURSIVE Settle(_,_,_,_,_,_)
Settle(t, o, b, ph, p, k) ==
  IF t = <<>> THEN [todo |-> t, out |-> o, phase |-> ph]
  ELSE LET h == Head(t) r == Tail(t) IN
       IF h = "{{" THEN IF b > 0 /\ Len(G[Head(r)]) > 1
                        THEN [todo |-> t, out |-> o, phase |-> "on"]
                        ELSE Settle(G[Head(r)][1] \o Tail(r), o, b, "on", p, k)
       ELSE IF h = "}}" THEN Settle(r, o, 0, "done", p, k)
       ELSE IF h \notin NT THEN Settle(r, Append(o, h), b, ph, p, k)
       ELSE IF p # <<>> /\ p[1][1] = h
            THEN LET a == G[h][p[1][2]] IN
                 IF Len(p) > 1 THEN Settle(a \o r, o, b, ph, Tail(p), k)
                 ELSE Settle(SubSeq(a, 1, k-1) \o <<"{{", a[k], "}}">> \o SubSeq(a, k+1, Len(a)) \o r, o, b, ph, <<>>, k)
            ELSE IF ph # "on" \/ b = 0 \/ Len(G[h]) = 1 \/ ~MayDeviate(h)
                 THEN Settle(G[h][1] \o r, o, b, ph, p, k)
                 ELSE [todo |-> t, out |-> o, phase |-> ph]

IsRoot(r) == r \in Roots

Init == \E o \in {o \in Occ : o[1] \in DOMAIN Path} :
          \E r \in {IF Path[o[1]] = <<>> THEN o[1] ELSE Path[o[1]][1][1]} :
            LET s == Settle(<<r>>, <<>>, Budget, "path", Append(Path[o[1]], <<o[1], o[2]>>), o[3])
            IN todo = s.todo /\ out = s.out /\ phase = s.phase /\ bud = Budget

Choose(i) ==
  LET top == Head(todo) = "{{"
      h == IF top THEN todo[2] ELSE Head(todo)
      r == IF top THEN Tail(Tail(todo)) ELSE Tail(todo)
      b == IF i = 1 THEN bud ELSE bud - 1
      s == Settle(G[h][i] \o r, out, b, "on", <<>>, 0)
  IN /\ i \in DOMAIN G[h]
     /\ todo' = s.todo /\ out' = s.out /\ bud' = b /\ phase' = s.phase

Next == /\ todo # <<>>
        /\ \E i \in 1..Len(G[IF Head(todo) = "{{" THEN todo[2] ELSE Head(todo)]) : Choose(i)

Emit == todo = <<>> => PrintT(<<"T", ToString(out)>>)
=============================================================================
