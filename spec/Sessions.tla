------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* Callers of the library.  Processes run operations that may overlap:     *)
(* each operation begins, and ends later.  It reads the object it is given *)
(* (a syntax tree or an error two processes may share, or a text) and      *)
(* yields a result.  Objects never change, so a result depends on the      *)
(* object and the operation only, whatever ran before or runs meanwhile.   *)
(*                                                                         *)
(* A behaviour is a history of begin and end events.  An event happens     *)
(* before the next, except that nothing orders two operations that overlap.*)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NProcs, MaxOps

Procs == 1..NProcs
TreeOps == {"format", "beautify", "walk", "break", "visit", "find", "json"}
Ops == {<<o, s>> : o \in TreeOps, s \in {"A", "B"}}
       \union {<<"parse", s>> : s \in {"x", "y", "bad"}}
       \union {<<"message", "E">>}

Objects == {"A", "B", "x", "y", "bad", "E"}
Content0 == [s \in Objects |-> s]          \* every object differs from the others

VARIABLES content,  \* what each object holds
          run,      \* the operation a process is in, with what it has read; <<>> if none
          got,      \* results delivered: <<operation, result>>
          hist,     \* the events so far
          started
vars == <<content, run, got, hist, started>>

Init == /\ content = Content0 /\ run = [p \in Procs |-> <<>>]
        /\ got = {} /\ hist = <<>> /\ started = 0

Reads(o)  == {o[2]}
Writes(o) == {}

Used(s) == \E i \in DOMAIN hist : hist[i][1] = "b" /\ hist[i][4] = s
Before == [s \in {"B", "y"} |-> IF s = "B" THEN "A" ELSE "x"]

Begin(p, o) ==
  /\ started < MaxOps /\ run[p] = <<>>
  \* processes, and objects of a kind, are interchangeable: use them in order
  /\ \A q \in 1..(p - 1) : run[q] # <<>> \/ \E i \in DOMAIN hist : hist[i][2] = ToString(q)
  /\ o[2] \in {"B", "y"} => Used(Before[o[2]])
  /\ run' = [run EXCEPT ![p] = <<o, [s \in Reads(o) |-> content[s]]>>]
  /\ hist' = Append(hist, <<"b", ToString(p), o[1], o[2]>>)
  /\ started' = started + 1
  /\ UNCHANGED <<content, got>>

End(p) ==
  /\ run[p] # <<>>
  /\ got' = got \union {<<run[p][1], <<run[p][1][1], run[p][2]>> >>}
  /\ run' = [run EXCEPT ![p] = <<>>]
  /\ hist' = Append(hist, <<"e", ToString(p), "", "">>)
  /\ content' = [s \in Objects |-> IF s \in Writes(run[p][1]) THEN "?" ELSE content[s]]
  /\ UNCHANGED started

Next == \E p \in Procs : End(p) \/ \E o \in Ops : Begin(p, o)
Spec == Init /\ [][Next]_vars

\* the contract
Unchanged == content = Content0
Functional == \A r \in got : r[2] = <<r[1][1], [s \in Reads(r[1]) |-> Content0[s]]>>
RaceFree == \A p, q \in Procs : p # q /\ run[p] # <<>> /\ run[q] # <<>> =>
              Writes(run[p][1]) \intersect (Reads(run[q][1]) \union Writes(run[q][1])) = {}

Finished == started = MaxOps /\ \A p \in Procs : run[p] = <<>>
Flat[i \in 0..Len(hist)] == IF i = 0 THEN <<>> ELSE Flat[i-1] \o hist[i]
Emit == Finished => PrintT(<<"H", ToString(Flat[Len(hist)])>>)
=============================================================================
