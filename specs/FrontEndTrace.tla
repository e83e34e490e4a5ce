--------------------------- MODULE FrontEndTrace ---------------------------
(* Judges recorded uses of the front end. Lines: [ops, n, src]; n inputs like src behaved that way. *)
EXTENDS FrontEnd, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, fails
Init == i = 1 /\ fails = 0
Next ==
  /\ i <= Len(Log)
  /\ i' = i + 1
  /\ IF Behaves(Start, Log[i].ops) THEN UNCHANGED fails ELSE PrintT(<<"BROKEN", i>>) /\ fails' = fails + 1
Spec == Init /\ [][Next]_<<i, fails>>
Done == i = Len(Log) + 1 => PrintT(<<"DONE", i - 1, fails>>)
=============================================================================
