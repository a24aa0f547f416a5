-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line tool.  Arguments are read from left to right; reading  *)
(* of options stops at the first argument that is not one, or after "--".  *)
(* What is printed depends on the options seen, on the last argument and   *)
(* on whether the parser accepts the text.                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANT MaxArgs

Options == {"-format", "-beautify", "-h", "-v", "--format", "-format=false", "-beautify=true", "-beautify=false"}
\* texts: accepted (one, several or no statements) or rejected
Texts == {"good", "many", "empty", "bad"}
FileArgs == {"f:good", "f:many", "f:empty", "f:bad", "f:missing", "f:"}     \* "-f FILE"
Args == Options \union Texts \union FileArgs \union {"--", "-", "-unknown", "-f"}     \* "-f" without a name is only drawn in last place

VARIABLES args, scanning, opt, file, err
vars == <<args, scanning, opt, file, err>>

Init == args = <<>> /\ scanning = TRUE /\ opt = {} /\ file = "" /\ err = FALSE

Read(a) ==
  /\ Len(args) < MaxArgs
  /\ args # <<>> => args[Len(args)] # "-f"
  /\ args' = Append(args, a)
  /\ IF ~scanning \/ err THEN UNCHANGED <<scanning, opt, file, err>>
     ELSE CASE a \in Texts \union {"-"} -> scanning' = FALSE /\ UNCHANGED <<opt, file, err>>
            [] a = "--" -> scanning' = FALSE /\ UNCHANGED <<opt, file, err>>
            [] a \in {"-unknown", "-f"} -> err' = TRUE /\ UNCHANGED <<scanning, opt, file>>
            [] a \in FileArgs -> file' = (IF a = "f:" THEN "" ELSE a) /\ UNCHANGED <<scanning, opt, err>>
            [] a = "-format=false" -> opt' = opt \ {"format"} /\ UNCHANGED <<scanning, file, err>>
            [] a = "-beautify=false" -> opt' = opt \ {"beautify"} /\ UNCHANGED <<scanning, file, err>>
            [] OTHER -> /\ opt' = opt \union {CASE a \in {"-format","--format"} -> "format"
                                                [] a \in {"-beautify","-beautify=true"} -> "beautify"
                                                [] a = "-h" -> "help" [] a = "-v" -> "version"}
                        /\ UNCHANGED <<scanning, file, err>>

Next == \E a \in Args : Read(a)
Spec == Init /\ [][Next]_vars

\* the text that is parsed: a file, or the last argument whatever it is
Last == IF args = <<>> THEN "" ELSE args[Len(args)]
FileText(f) == CASE f = "f:good" -> "good" [] f = "f:many" -> "many" [] f = "f:empty" -> "empty" [] f = "f:bad" -> "bad" [] OTHER -> "missing"
Dashed(a) == a \notin Texts \union FileArgs
\* a file argument that was not read as an option leaves its file name in last place
Source == CASE file # "" -> FileText(file) [] Last = "f:" -> "empty" [] Last \in FileArgs -> "name" [] OTHER -> Last

Form == CASE "beautify" \in opt -> "beautify" [] "format" \in opt -> "format" [] OTHER -> "json"

\* what is printed on standard output, on standard error, and the exit status
Outcome ==
  CASE err -> <<"none", "usage", 2>>
    [] "version" \in opt -> <<"version", "none", 0>>
    [] args = <<>> \/ "help" \in opt -> <<"help", "none", 0>>
    [] file = "" /\ Dashed(Last) -> <<"help", "none", 0>>
    [] Source = "missing" -> <<"none", "file error", 1>>
    [] Source \in {"bad", "name"} -> <<"none", "parse error", 1>>
    [] OTHER -> <<Form, "none", 0>>

\* something is printed on exactly one of the two, except for an empty text
OneStream == (Outcome[1] = "none") = (Outcome[2] # "none")
FailsLoudly == (Outcome[3] = 0) = (Outcome[2] = "none")
Emit == PrintT(<<"C", ToString(args), Source, Outcome[1], Outcome[2], ToString(Outcome[3])>>)
=============================================================================
