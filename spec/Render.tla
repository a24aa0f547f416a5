------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Writing a token sequence as text.  Between two tokens any separator may *)
(* stand (or nothing, where the lexical automaton still sees two tokens);  *)
(* before the first and after the last token likewise; redundant statement *)
(* separators may be added; keywords may be written in any case.  None of  *)
(* this is visible to the statement machine: every rendering of a          *)
(* behaviour must give the same tree.                                      *)
(*                                                                         *)
(* A rendering is driven by a style: two separators used alternately, what *)
(* stands in front and behind, and the case of keywords.                   *)
(***************************************************************************)
EXTENDS LexTable

\* Separators, as strings of character classes; each is skipped by the automaton.
Seps == [ none  |-> <<>>,
          blank |-> <<"sp">>,
          blanks|-> <<"sp","sp","sp">>,
          line  |-> <<"nl">>,
          crlf  |-> <<"nl","nl","sp">>,
          block |-> <<"slash","star","star","slash">>,
          blockq|-> <<"sp","slash","star","sq","bt","dq","oth","star","al","star","star","slash">>,
          blockl|-> <<"slash","star","nl","minus","minus","nl","star","slash","sp">>,
          dash  |-> <<"sp","minus","minus","nl">>,
          dashq |-> <<"sp","minus","minus","sp","sq","slash","star","oth","nl">>,
          wide  |-> <<"sp","nl","sp","slash","star","al","star","slash","minus","minus","al","nl","nl">> ]

Names == DOMAIN Seps
Cases == {"upper", "lower", "title", "mixed"}
Lead  == {"none", "blank", "wide", "blockq", "dashq", "semi"}
Trail == {"none", "blank", "line", "blockl", "dashend", "semi", "semis"}

\* Reading separator w from the start leaves nothing but skipped lexemes.
RECURSIVE Skips(_,_)
Skips(s, w) == IF w = <<>> THEN Kind[s] = "skip" \/ s = "Start"
               ELSE LET n == Delta[s][Head(w)] IN
                    IF n \notin {"", "ERR"} THEN Skips(n, Tail(w))
                    ELSE Kind[s] = "skip" /\ Skips("Start", w)
ASSUME \A n \in Names : Skips("Start", Seps[n])

VARIABLE style
Init == style \in [a : Names, b : Names, lead : Lead, trail : Trail, case : Cases]
Next == FALSE /\ UNCHANGED style
Emit == PrintT(<<"S", style.a, style.b, style.lead, style.trail, style.case>>)
DumpSeps == \A n \in Names : PrintT(<<"SEP", n, ToString(Seps[n])>>)
ASSUME DumpSeps
=============================================================================
