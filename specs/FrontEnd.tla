------------------------------ MODULE FrontEnd ------------------------------
(***************************************************************************)
(* The schema front end on any text: what may happen in which order, and   *)
(* how each operation may end.                                             *)
(*                                                                         *)
(* Operations, as recorded:                                                *)
(*   parse     r, errors, warnings: how many diagnostics there are         *)
(*   render    r, n: renders all of them, n of them to something           *)
(*   again     r, same: parses and renders once more                       *)
(*   format    r, same: formats twice                                      *)
(*   generate  r, same: generates code twice                               *)
(* r is "ok", "refused", "failed" (an error) or "panic". An operation that *)
(* doesn't come to an end is never recorded.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

Start == [parsed |-> FALSE, errors |-> 0, warnings |-> 0, ran |-> {}]

Allowed(s, o) ==
  CASE o.op = "parse"    -> ~s.parsed /\ o.r = "ok"
    [] o.op = "render"   -> s.parsed /\ o.r = "ok" /\ o.n = s.errors + s.warnings
    [] o.op = "again"    -> s.parsed /\ o.r = "ok" /\ o.same
    (* Only errors (of syntax, or of reading a schema) are a reason not to format. *)
    [] o.op = "format"   -> s.parsed /\ o.same /\ (o.r = "ok" \/ (o.r = "refused" /\ s.errors > 0))
    (* There is a generator if and only if there are no errors. *)
    [] o.op = "generate" -> s.parsed /\ o.same /\ (IF s.errors > 0 THEN o.r = "refused" ELSE o.r = "ok")
    [] OTHER -> FALSE

Do(s, o) ==
  LET t == [s EXCEPT !.ran = @ \cup {o.op}] IN
  IF o.op = "parse" THEN [t EXCEPT !.parsed = TRUE, !.errors = o.errors, !.warnings = o.warnings] ELSE t

Complete(s) == s.ran = {"parse", "render", "again", "format", "generate"}

RECURSIVE Behaves(_, _)
Behaves(s, ops) == IF ops = <<>> THEN Complete(s) ELSE Allowed(s, Head(ops)) /\ Behaves(Do(s, Head(ops)), Tail(ops))
=============================================================================
