---------------------------- MODULE SchemaTrace ----------------------------
(***************************************************************************)
(* Judges what the real parser and formatter made of schemas.              *)
(* Lines: [known, ast, outs]. ast is the schema of SchemaGen the texts     *)
(* were laid out from (known), or what was parsed from a text that was     *)
(* there already. outs are the different outcomes of the texts:            *)
(*   r    "ok", "invalid" (first text has syntax errors), "broken"         *)
(*        (formatted text has syntax errors), "panic"                      *)
(*   a1, a2  schemas parsed from the text, and from the formatted text     *)
(*   i1, i2  sets of diagnostics, as sequences                             *)
(*   idem    whether formatting again changed nothing                      *)
(***************************************************************************)
EXTENDS Schema, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

Range(q) == {q[n] : n \in DOMAIN q}

OutOK(l, o) ==
  /\ o.r = "ok"
  /\ l.known => o.a1 = l.ast
  /\ Same(o.a1, o.a2)
  /\ Range(o.i1) = Range(o.i2)
  /\ o.idem

VARIABLES i, fails
vars == <<i, fails>>

Init == i = 1 /\ fails = 0
Next ==
  /\ i <= Len(Log)
  /\ i' = i + 1
  /\ LET bad == {n \in DOMAIN Log[i].outs : ~OutOK(Log[i], Log[i].outs[n])} IN
     IF bad = {} THEN UNCHANGED fails
     ELSE PrintT(<<"BROKEN", i, CHOOSE n \in bad : TRUE>>) /\ fails' = fails + 1
Spec == Init /\ [][Next]_vars
Done == i = Len(Log) + 1 => PrintT(<<"DONE", i - 1, fails>>)
=============================================================================
