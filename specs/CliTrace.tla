----------------------------- MODULE CliTrace -----------------------------
(***************************************************************************)
(* Judges recorded uses of the real tool. Lines: [texts, fs, ops]. texts   *)
(* are the schemas that occur (of the library), fs the files at first, and *)
(* ops what was done: op, args, exit, and what was found afterwards: fs    *)
(* (0: something else), out, code (0: nothing, 1: the library's code, 2:   *)
(* something else).                                                        *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

RECURSIVE Bad(_, _, _)
\* The first operation from n on that isn't as specified, or 0.
Bad(l, fs, n) ==
  IF n > Len(l.ops) THEN 0
  ELSE LET o == l.ops[n]
           r == Run(l.texts, fs, o)
       IN IF /\ o.exit = r.exit /\ o.fs = r.fs
             /\ o.op = "pipe" => o.out = r.out
             /\ o.op = "rust" => o.code = (IF r.code THEN 1 ELSE 0)
          THEN Bad(l, r.fs, n + 1)
          ELSE n

VARIABLES i, fails
vars == <<i, fails>>

Init == i = 1 /\ fails = 0
Next ==
  /\ i <= Len(Log)
  /\ i' = i + 1
  /\ LET b == Bad(Log[i], Log[i].fs, 1) IN
     IF b = 0 THEN UNCHANGED fails
     ELSE PrintT(<<"BROKEN", i, b>>) /\ fails' = fails + 1
Spec == Init /\ [][Next]_vars
Done == i = Len(Log) + 1 => PrintT(<<"DONE", i - 1, fails>>)
=============================================================================
