------------------------------ MODULE CliMC ------------------------------
(* All uses of the tool on a few files, with any texts whose formatting is sound (C18). *)
EXTENDS Cli, FiniteSets, TLC

Texts == 1..3
Files == 1..2

Sound(T) == \A x \in Texts :
  /\ T[x].ok => T[x].valid
  /\ T[x].valid => T[T[x].fmt].valid /\ T[T[x].fmt].ok = T[x].ok /\ T[T[x].fmt].fmt = T[x].fmt

Tables == {T \in [Texts -> [valid : BOOLEAN, fmt : Texts, ok : BOOLEAN]] :
             Sound(T) /\ \A x \in Texts : ~T[x].valid => T[x].fmt = 1}

ArgLists == UNION {[1..n -> Files] : n \in 1..2}
Ops == {[op |-> k, args |-> a] : k \in {"fmt", "diff", "pipe", "check", "rust"}, a \in ArgLists}

VARIABLES T, fs, last, exit
vars == <<T, fs, last, exit>>

Init == T \in Tables /\ fs \in [Files -> Texts] /\ last = [op |-> "none", args |-> <<>>] /\ exit = 0
Next == \E o \in Ops :
  LET r == Run(T, fs, o) IN fs' = r.fs /\ exit' = r.exit /\ last' = o /\ UNCHANGED T
Spec == Init /\ [][Next]_vars

\* After formatting, the files are formatted: checking says so, and formatting again does nothing.
Formatted ==
  last.op = "fmt" =>
    LET again == Run(T, fs, last) IN
    again.fs = fs /\ again.exit = exit /\ Run(T, fs, [last EXCEPT !.op = "diff"]).exit = exit

\* Formatting neither creates nor removes errors, and never touches what it can't read or isn't asked to.
Gentle ==
  [][\A f \in Files :
       /\ T[fs'[f]].ok = T[fs[f]].ok
       /\ T[fs'[f]].valid = T[fs[f]].valid
       /\ fs'[f] # fs[f] => last'.op = "fmt" /\ f \in Named(last') /\ T[fs[f]].valid]_vars
=============================================================================
