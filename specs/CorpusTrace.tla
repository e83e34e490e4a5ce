----------------------------- MODULE CorpusTrace -----------------------------
(***************************************************************************)
(* Judges what generated code did to values.                               *)
(* Lines: [n, u, types, runs]; a run is [t, in, r, outs, why]: the bytes   *)
(* in were decoded as types[t]; r is "ok", "err" or "broken"; outs are the *)
(* different ways in which the result was encoded, after it was            *)
(* decoded and encoded by value, by reference, piece by piece, ...         *)
(***************************************************************************)
EXTENDS Values, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

(* The value that bytes stand for, No if they are anything else. *)
ValueOf(b) == LET s == W!Value(b) IN IF W!Whole(b, s) /\ s.u THEN s.v ELSE No

Verdict(l, r) ==
  LET v == ValueOf(r.in)
      e == IF v = No THEN No ELSE Re(l.u, l.types[r.t], v) IN
  IF r.r = "broken" THEN "broken"
  ELSE IF (r.r = "ok") # (e # No) THEN (IF e = No THEN "accepted" ELSE "rejected")
  ELSE IF r.r = "ok" /\ (r.outs = <<>> \/ \E i \in DOMAIN r.outs : ValueOf(r.outs[i]) # e) THEN "changed"
  ELSE ""

VARIABLES i, fails, taken
vars == <<i, fails, taken>>

Init == i = 1 /\ fails = 0 /\ taken = 0
Next ==
  /\ i <= Len(Log)
  /\ i' = i + 1
  /\ LET l == Log[i]
         bad == {j \in DOMAIN l.runs : Verdict(l, l.runs[j]) # ""} IN
     /\ \A j \in bad : PrintT(<<"WRONG", i, j, Verdict(l, l.runs[j])>>)
     /\ fails' = fails + Cardinality(bad)
     /\ taken' = taken + Cardinality({j \in DOMAIN l.runs : l.runs[j].r = "ok"})
Spec == Init /\ [][Next]_vars

Done == i = Len(Log) + 1 => PrintT(<<"DONE", i - 1, fails, taken>>)
=============================================================================
