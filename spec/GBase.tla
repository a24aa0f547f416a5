------------------------------- MODULE GBase -------------------------------
(***************************************************************************)
(* Vocabulary shared by the grammar modules.  A grammar is a function from *)
(* nonterminal names to sequences of alternatives; an alternative is a     *)
(* sequence of symbols.  A symbol in the domain of the grammar is a        *)
(* nonterminal; every other symbol goes to the trace:                      *)
(*                                                                         *)
(*   #T      open a node of type T        #       close it                 *)
(*   &f      the next node goes to field f of the open node                *)
(*   $f      the text of the next token goes to field f (as written)       *)
(*   %f=v    field f holds the constant v                                  *)
(*   @c      a lexeme of class c (identifier, number, string, ...); it is  *)
(*           also a leaf node                                              *)
(*   ~t      token t occurs only in the canonical (formatted) text         *)
(*   ^t      token t occurs only in the source text                        *)
(*   !seg=k .. !end   the enclosed tokens are the k-th segment of the       *)
(*           canonical text of the segments next to each other             *)
(*   !notnext=c   lookahead restriction: the next source token is not of   *)
(*           class c; a behaviour that breaks it is not a statement        *)
(*   !known=d     the construct shows the recorded deviation d             *)
(*   other   the token itself                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

\* A node of type t with the given body.
N(t, body) == <<"#" \o t>> \o body \o <<"#">>

\* Field f is filled by (one node from) nonterminal or lexeme class x.
F(f, x) == <<"&" \o f, x>>

\* An optional part, absent by default.
Opt(x) == << <<>>, x >>

\* A comma separated, non-empty list of x into field f; two nonterminals.
ListOf(name, f, x) ==
     (name :> << F(f, x) \o <<name \o "+">> >>)
  @@ ((name \o "+") :> << <<>>, <<",">> \o F(f, x) \o <<name \o "+">> >>)

\* A flag written as the given tokens.
Flag(f, toks) == << <<>>, <<"%" \o f \o "=true">> \o toks >>

\* Choice of several single-symbol tokens recorded in field f.
Words(f, ws) == [i \in DOMAIN ws |-> <<"$" \o f, ws[i]>>]

\* Binary operations; the operator is recorded as written, or as opname.
Bin(op, l, r) ==
  N("BinaryOperation", F("LeftExpr", l) \o <<"$Operation", op>> \o F("RightExpr", r))

Bin2(opname, toks, l, r) ==
  N("BinaryOperation", F("LeftExpr", l) \o <<"%Operation=" \o opname>> \o toks \o F("RightExpr", r))

\* All alternatives of several groups.
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
=============================================================================
