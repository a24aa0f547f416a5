------------------------------ MODULE SqlPump ------------------------------
(***************************************************************************)
(* Pumping the statement grammar.  A path in the grammar goes from one     *)
(* nonterminal to one of the nonterminals of one of its alternatives;      *)
(* everything beside the path takes its default.  A path from X back to X  *)
(* derives a X b; a path from a root to X gives it a context u X v; then   *)
(* u a^k x b^k v is a statement for every k.                               *)
(*                                                                         *)
(* Mode "ctx" emits contexts <<"C", X, u, v>>, mode "cyc" emits cycles     *)
(* <<"Y", X, a, b, x>> (as traces of the statement machine).  The driver   *)
(* puts them together for growing k.                                       *)
(***************************************************************************)
EXTENDS SqlMachine
CONSTANT Mode

VARIABLES base,   \* where the path started
          cur,    \* where it is
          rest,   \* what follows cur
          path    \* nonterminals passed
pvars == <<todo, out, bud, depth, base, cur, rest, path>>

Dflt(t) == Settle(t, <<>>, 0)[2]
Hide == todo = <<>> /\ depth = 0

PInit == /\ Hide /\ out = <<>> /\ rest = <<>> /\ path = {} /\ bud = Budget
         /\ cur \in (IF Mode = "ctx" THEN Roots ELSE NT) /\ base = cur

Step(i, j) ==
  LET a == G[cur][i] IN
  /\ a[j] \in NT
  /\ i # 1 => bud > 0 /\ MayDeviate(cur)
  /\ bud' = IF i = 1 THEN bud ELSE bud - 1
  /\ cur' = a[j] /\ cur' \notin path
  /\ path' = path \cup {cur'}
  /\ out' = out \o Dflt(SubSeq(a, 1, j-1))
  /\ rest' = Dflt(SubSeq(a, j+1, Len(a))) \o rest
  /\ UNCHANGED <<todo, depth, base>>

PNext == /\ (Mode = "ctx" \/ path = {} \/ cur # base)
         /\ \E i \in DOMAIN G[cur] : \E j \in DOMAIN G[cur][i] : Step(i, j)

PEmit == CASE Mode = "ctx" -> PrintT(<<"C", cur, ToString(out), ToString(rest)>>)
           [] path # {} /\ cur = base -> PrintT(<<"Y", base, ToString(out), ToString(rest), ToString(Dflt(<<base>>))>>)
           [] OTHER -> TRUE

\* one context per construct and number of deviations
CtxView == <<cur, bud>>
=============================================================================
