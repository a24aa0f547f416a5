----------------------------- MODULE TrTraverse -----------------------------
(* Trace validation: the traversals recorded from the implementation are   *)
(* behaviours of Traverse.  Logs == sequence of [par, ev].                 *)
EXTENDS Traverse, Json
CONSTANT File
VARIABLES i, l, s
Logs == ndJsonDeserialize(File)
Init == i \in DOMAIN Logs /\ l = 0 /\ s = Idle
Ev(k, j) == <<Logs[k].op[j], Logs[k].n[j]>>
Next == /\ l < Len(Logs[i].op)
        /\ Allowed(Logs[i].par, s, Ev(i, l+1))
        /\ s' = After(Logs[i].par, s, Ev(i, l+1))
        /\ l' = l + 1 /\ i' = i
\* reported: finished logs, and logs whose next event the protocol forbids
Report == CASE l = Len(Logs[i].op) /\ s.done -> PrintT(<<"ACC", ToString(i)>>)
            [] l < Len(Logs[i].op) /\ ~Allowed(Logs[i].par, s, Ev(i, l+1)) -> PrintT(<<"REJ", ToString(i), ToString(l+1)>>)
            [] l = Len(Logs[i].op) /\ ~s.done -> PrintT(<<"REJ", ToString(i), ToString(l+1)>>)
            [] OTHER -> TRUE
=============================================================================
