------------------------------- MODULE Cli -------------------------------
(***************************************************************************)
(* The command line tool: what each of its commands does to files, and     *)
(* which exit status and output it has.                                    *)
(*                                                                         *)
(* Texts are numbers. T[x] is what there is to know about text x as a      *)
(* schema:                                                                 *)
(*   valid  it has no syntax errors                                        *)
(*   fmt    what it looks like when formatted (if valid)                   *)
(*   ok     it has no errors when its imports can be found                 *)
(* fs is a sequence of files (texts). 0 is no text.                        *)
(*                                                                         *)
(* An operation o is                                                       *)
(*   [op |-> "fmt",    args]   formats the files args (a sequence)         *)
(*   [op |-> "diff",   args]   fmt --check                                 *)
(*   [op |-> "pipe",   args]   formats the text of the first one, stdin    *)
(*   [op |-> "check",  args]   reports errors and warnings                 *)
(*   [op |-> "rust",   args]   generates code for the first one            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Named(o) == {o.args[i] : i \in DOMAIN o.args}

Status(good) == IF good THEN 0 ELSE 1

\* [fs |-> files afterwards, exit |-> status, out |-> text on stdout (pipe), code |-> whether code is written (rust)]
Run(T, fs, o) ==
  LET no == [fs |-> fs, exit |-> 0, out |-> 0, code |-> FALSE]
      valid(f) == T[fs[f]].valid
      first == fs[o.args[1]]
  IN CASE o.op = "fmt" ->
            [no EXCEPT !.fs = [f \in DOMAIN fs |-> IF f \in Named(o) /\ valid(f) THEN T[fs[f]].fmt ELSE fs[f]],
                       !.exit = Status(\A f \in Named(o) : valid(f))]
       [] o.op = "diff" ->
            [no EXCEPT !.exit = Status(\A f \in Named(o) : valid(f) /\ T[fs[f]].fmt = fs[f])]
       [] o.op = "pipe" ->
            [no EXCEPT !.exit = Status(T[first].valid), !.out = IF T[first].valid THEN T[first].fmt ELSE 0]
       [] o.op = "check" -> [no EXCEPT !.exit = Status(\A f \in Named(o) : T[fs[f]].ok)]
       [] o.op = "rust" -> [no EXCEPT !.exit = Status(T[first].ok), !.code = T[first].ok]
=============================================================================
