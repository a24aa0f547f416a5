-------------------------------- MODULE Expr --------------------------------
(***************************************************************************)
(* A shift-reduce machine for expressions, driven by the operator table    *)
(* alone (the grammar module states the same language by stratification;   *)
(* the two are independent).  One step reads one token.  The machine keeps *)
(* a stack of finished operands (as trees) and a stack of operators and    *)
(* brackets that still wait for their right side; an arriving operator     *)
(* first reduces every waiting operator that binds at least as tightly.    *)
(*                                                                         *)
(* In every state the machine knows which tokens may come next (Viable),   *)
(* which may not (Dead: the input is rejected whatever follows) and what   *)
(* the tree is if the input ends here.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Alphabet, MaxLen

VARIABLES toks,     \* tokens read
          opnd,     \* stack of trees
          ops,      \* stack of [t |-> operator or bracket, n |-> items so far]
          mode      \* what the machine is in the middle of

vars == <<toks, opnd, ops, mode>>

Infix == [t \in {"OR","AND","=","LIKE","REGEXP","IN","||","+","-","*","/","::","->"} |->
  CASE t = "->" -> 1 [] t = "OR" -> 3 [] t = "AND" -> 4 [] t = "=" -> 8
    [] t \in {"LIKE","REGEXP"} -> 9 [] t = "IN" -> 10 [] t = "||" -> 11 [] t \in {"+","-"} -> 12
    [] t \in {"*","/"} -> 13 [] t = "::" -> 16]
LTern == 2  LNot == 5  LIs == 7  LBetween == 9  LIn == 10  LBracket == 14  LDot == 15

\* how tightly a waiting operator holds what comes on its right; 0: everything
Hold(t) == CASE t \in {"->","?:"} -> 0
             [] t = "uNOT" -> LNot
             [] t \in {"u-","u+"} -> 99
             [] t \in {"NOT IN","GLOBAL IN","GLOBAL NOT IN"} -> LIn
             [] t \in {"NOT LIKE","band","nband"} -> LBetween
             [] OTHER -> Infix[t]
Barriers == {"(","[","[i","f(","?","between","nbetween"}
Brackets == {"(","[","[i","f("}

Top(s) == s[Len(s)]
Pop(s, k) == SubSeq(s, 1, Len(s) - k)
Fold(name, items) == LET F[i \in 0..Len(items)] == IF i = 0 THEN "(" \o name ELSE F[i-1] \o " " \o items[i]
                     IN F[Len(items)] \o ")"

\* reduce the top operator of <<opnd, ops>>
Reduce1(c) ==
  LET o == Top(c[2]).t
      k == CASE o \in {"uNOT","u-","u+"} -> 1 [] o \in {"?:","band","nband"} -> 3 [] OTHER -> 2
      nm == CASE o = "band" -> "between" [] o = "nband" -> "not-between" [] OTHER -> o
  IN << Append(Pop(c[1], k), Fold(nm, SubSeq(c[1], Len(c[1]) - k + 1, Len(c[1])))), Pop(c[2], 1) >>

\* (the set comprehensions below make TLC evaluate each reduction once)
\* reduce while the top operator binds at least as tightly as l
RECURSIVE Reduce(_,_)
Reduce(c, l) == IF c[2] = <<>> \/ Top(c[2]).t \in Barriers \/ Hold(Top(c[2]).t) < l THEN c
                ELSE CHOOSE r \in {Reduce(v, l) : v \in {Reduce1(c)}} : TRUE
\* reduce everything down to a bracket, a ternary or BETWEEN in progress, or the bottom
RECURSIVE ReduceAll(_)
ReduceAll(c) == IF c[2] = <<>> \/ Top(c[2]).t \in Barriers THEN c ELSE CHOOSE r \in {ReduceAll(v) : v \in {Reduce1(c)}} : TRUE
TopIs(c, ts) == c[2] # <<>> /\ Top(c[2]).t \in ts

Cur == <<opnd, ops>>
Dead == [opnd |-> <<>>, ops |-> <<>>, mode |-> "dead"]
Skip == [opnd |-> <<>>, ops |-> <<>>, mode |-> "skip"]      \* left open here
To(c, m) == [opnd |-> c[1], ops |-> c[2], mode |-> m]
Push(c, t) == <<c[1], Append(c[2], [t |-> t, n |-> 0])>>
Op1(c, x) == <<Append(c[1], x), c[2]>>

\* BETWEEN in progress takes the next operator that binds no tighter, which has to be AND
Blocked(c, l) == TopIs(c, {"between","nbetween"}) /\ l <= LBetween
InfixStep(t, l, name, m) ==
  LET c == Reduce(Cur, l) IN
  IF Blocked(c, l)
  THEN IF t = "AND"
       THEN To(<<c[1], Append(Pop(c[2],1), [t |-> IF Top(c[2]).t = "between" THEN "band" ELSE "nband", n |-> 0])>>, "operand")
       ELSE Dead
  ELSE To(Push(c, name), m)

\* the end of a bracket: the items counted so far plus the last one
CloseWith(t, c, k) ==
  LET b == Top(c[2])
      items == SubSeq(c[1], Len(c[1]) - k + 1, Len(c[1]))
      rest == Pop(c[1], k)
      c2 == Pop(c[2], 1)
  IN CASE t = ")" /\ b.t = "(" -> To(<<Append(rest, Fold("paren", items)), c2>>, "paren")
       [] t = ")" /\ b.t = "f(" -> To(<<Append(Pop(rest,1), Fold("call", <<Top(rest)>> \o items)), c2>>, "call")
       [] t = "]" /\ b.t = "[" -> To(<<Append(rest, Fold("array", items)), c2>>, "value")
       [] t = "]" /\ b.t = "[i" -> To(<<Append(Pop(rest,1), Fold("index", <<Top(rest)>> \o items)), c2>>, "value")
       [] OTHER -> Dead

Words == {"OR","AND","NOT","IN","LIKE","BETWEEN","IS","GLOBAL","REGEXP","NULL"}
ReservedW == {"OR","AND","NOT","IN","LIKE","BETWEEN","IS"}
\* a word where an operand is due is a name if one of these follows it, or the end
GoesOn == {"=","+","-","*","/","||","::",")","]",",","AND","OR","NOT","IN","LIKE","BETWEEN","IS"}

\* names and strings carry the number of their token
Leaf(t) == IF t \in {"x","s"} THEN t \o ToString(Len(toks) + 1) ELSE t

Operand(t) ==   \* t read where an operand is due
  CASE t = "x" -> To(Op1(Cur, Leaf(t)), "ident")
    [] t = "s" -> To(Op1(Cur, Leaf(t)), "value")
    [] t = "?" -> To(Op1(Cur, "?"), "value")
    [] t = "*" -> To(Op1(Cur, "*"), "value")
    [] t = "(" -> To(Push(Cur, "("), "opened")
    [] t = "[" -> To(Push(Cur, "["), "opened")
    [] t \in Words -> To(Op1(Cur, t), "word")
    [] OTHER -> Dead

\* t read after a complete operand of which nothing more can be part
After(t) ==
  CASE t \in {"OR","AND","=","LIKE","REGEXP","IN","||","+","-","*","/","::","->"} -> InfixStep(t, Infix[t], t, "operand")
    [] t = "NOT" -> To(Cur, "not")
    [] t = "GLOBAL" -> To(Cur, "global")
    [] t = "IS" -> LET c == Reduce(Cur, LIs) IN IF Blocked(c, LIs) THEN Dead ELSE To(c, "is")
    [] t = "BETWEEN" -> InfixStep(t, LBetween, "between", "operand")
    [] t = "?" -> InfixStep(t, LTern, "?", "operand")
    [] t = ":" -> LET c == ReduceAll(Cur) IN
                  IF TopIs(c, {"?"}) THEN To(Push(<<c[1], Pop(c[2],1)>>, "?:"), "operand") ELSE Dead
    [] t = "." -> To(Reduce(Cur, LDot), "dot")
    [] t = "[" -> To(Push(Reduce(Cur, LBracket), "[i"), "opened")
    [] t = "," -> LET c == ReduceAll(Cur) IN
                  IF TopIs(c, Brackets) THEN To(<<c[1], [c[2] EXCEPT ![Len(c[2])].n = @ + 1]>>, "comma") ELSE Dead
    [] t \in {")","]"} -> LET c == ReduceAll(Cur) IN
                          IF TopIs(c, Brackets) THEN CloseWith(t, c, Top(c[2]).n + 1) ELSE Dead
    [] OTHER -> Dead

Step(t) ==
  CASE mode = "operand" ->
         (CASE t = "-" -> To(Push(Cur, "u-"), "primary")
            [] t = "+" -> To(Push(Cur, "u+"), "primary")
            [] t = "NOT" -> To(Push(Cur, "uNOT"), "operand")
            [] OTHER -> Operand(t))
    [] mode = "primary" -> Operand(t)
    [] mode = "opened" ->
         (CASE t \in {")","]"} -> CloseWith(t, Cur, 0)
            [] t = "-" -> To(Push(Cur, "u-"), "primary")
            [] t = "+" -> To(Push(Cur, "u+"), "primary")
            [] t = "NOT" -> To(Push(Cur, "uNOT"), "operand")
            [] OTHER -> Operand(t))
    [] mode = "comma" ->
         (CASE t \in {")","]"} -> Skip       \* a trailing comma
            [] t = "-" -> To(Push(Cur, "u-"), "primary")
            [] t = "+" -> To(Push(Cur, "u+"), "primary")
            [] t = "NOT" -> To(Push(Cur, "uNOT"), "operand")
            [] OTHER -> Operand(t))
    [] mode = "word" ->
         (CASE t = "(" -> To(Push(Cur, "f("), "opened")
            [] t \in GoesOn -> After(t)
            [] Top(opnd) \in ReservedW -> Dead
            [] t = "[" -> To(Push(Cur, "[i"), "opened")
            [] t = "." -> To(Cur, "path")
            [] OTHER -> After(t))
    [] mode = "ident" ->
         (CASE t = "(" -> To(Push(Cur, "f("), "opened")
            [] t = "[" -> To(Push(Cur, "[i"), "opened")
            [] t = "." -> To(Cur, "path")
            [] OTHER -> After(t))
    [] mode = "path" ->       \* x . _
         (CASE t \in {"x"} \union Words -> To(<<Append(Pop(opnd,1), Fold("path", <<Top(opnd), Leaf(t)>>)), ops>>, "pathed")
            [] t = "*" -> To(<<Append(Pop(opnd,1), Fold("nested", <<Top(opnd), t>>)), ops>>, "value")
            [] OTHER -> Dead)
    [] mode = "pathed" -> (IF t = "." THEN To(Cur, "path+") ELSE After(t))
    [] mode = "path+" -> (IF t \in {"x"} \union Words
                          THEN To(<<Append(Pop(opnd,1), Fold("path+", <<Top(opnd), Leaf(t)>>)), ops>>, "pathed") ELSE Dead)
    [] mode = "dot" -> (IF t \in {"x"} \union Words
                        THEN To(<<Append(Pop(opnd,1), Fold(".", <<Top(opnd), Leaf(t)>>)), ops>>, "value") ELSE Dead)
    [] mode = "paren" -> (IF t = "(" THEN Skip ELSE After(t))    \* a second argument list
    [] mode = "call" -> (IF t = "(" THEN Skip ELSE After(t))
    [] mode = "value" -> After(t)
    [] mode = "not" ->
         (CASE t = "IN" -> InfixStep(t, LIn, "NOT IN", "operand")
            [] t = "LIKE" -> InfixStep(t, LBetween, "NOT LIKE", "operand")
            [] t = "BETWEEN" -> InfixStep(t, LBetween, "nbetween", "operand")
            [] OTHER -> Dead)
    [] mode = "global" -> (CASE t = "IN" -> InfixStep(t, LIn, "GLOBAL IN", "operand")
                             [] t = "NOT" -> To(Cur, "globalnot") [] OTHER -> Dead)
    [] mode = "globalnot" -> (IF t = "IN" THEN InfixStep(t, LIn, "GLOBAL NOT IN", "operand") ELSE Dead)
    [] mode = "is" -> (CASE t = "NULL" -> To(<<Append(Pop(opnd,1), Fold("isnull", <<Top(opnd)>>)), ops>>, "value")
                         [] t = "NOT" -> To(Cur, "isnot") [] OTHER -> Dead)
    [] mode = "isnot" -> (IF t = "NULL" THEN To(<<Append(Pop(opnd,1), Fold("isnotnull", <<Top(opnd)>>)), ops>>, "value") ELSE Dead)

Complete == mode \in {"ident","word","value","paren","call","pathed"}
Tree == LET c == ReduceAll(Cur) IN IF Complete /\ c[2] = <<>> THEN c[1][1] ELSE ""

Init == toks = <<>> /\ opnd = <<>> /\ ops = <<>> /\ mode = "operand"
Read(t) == LET r == Step(t) IN
           /\ r \notin {Dead, Skip}
           /\ toks' = Append(toks, t) /\ opnd' = r.opnd /\ ops' = r.ops /\ mode' = r.mode
Next == Len(toks) < MaxLen /\ \E t \in Alphabet : Read(t)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties of the machine itself.                                       *)
(***************************************************************************)
\* as many operands as the waiting operators need
Arity == LET need(o) == CASE o.t \in {"uNOT","u-","u+"} -> 0 [] o.t \in {"?:","band","nband"} -> 2
                          [] o.t \in {"(","["} -> o.n [] o.t \in {"f(","[i"} -> o.n + 1 [] OTHER -> 1
             S[i \in 0..Len(ops)] == IF i = 0 THEN 0 ELSE S[i-1] + need(ops[i])
         IN Len(opnd) = S[Len(ops)] + (IF mode \in {"operand","primary","opened","comma"} THEN 0 ELSE 1)
\* waiting operators bind ever more tightly between two barriers, except that a
\* prefix operator, which has nothing on its left, may follow anything
Ordered == \A i \in 1..Len(ops) - 1 :
             LET a == ops[i].t  b == ops[i+1].t IN
             (a \notin Barriers /\ b \notin Barriers \union {"uNOT","u-","u+","->","?:"}) => Hold(a) < Hold(b)
\* from every state some token leads on, or the input may end
Alive == Complete \/ \E t \in {"x","NULL","IN"} : Step(t) \notin {Dead, Skip}

DeadSet == {t \in Alphabet : Step(t) = Dead}
Emit == PrintT(<<"E", ToString(toks), Tree, ToString(DeadSet)>>)
=============================================================================
