----------------------------- MODULE LayoutTrace -----------------------------
(***************************************************************************)
(* Judges recorded type ids and introspection records.                     *)
(* Lines: [n, bad, base, recs, edits]. base and every edit is a universe   *)
(* with ids: [u, types, ids]; recs are the records of base's types; bad is *)
(* what went wrong while recording.                                        *)
(***************************************************************************)
EXTENDS Layout, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

Pairs(w) == {<<Canon(w.u, w.types[i]), w.ids[i]>> : i \in DOMAIN w.ids}
(* One to one *)
Faithful(P) == Cardinality({p[1] : p \in P}) = Cardinality(P) /\ Cardinality({p[2] : p \in P}) = Cardinality(P)

Complete(w) == DOMAIN w.ids = DOMAIN w.types

RecordsOK(l) ==
  LET Id(t) == l.base.ids[CHOOSE i \in DOMAIN l.base.types : l.base.types[i] = t] IN
  \A i \in DOMAIN l.recs :
    /\ l.recs[i].id = l.base.ids[i]
    /\ Dumped(l.recs[i]) = Record(l.base.u, l.base.types[i], Id)

LineOK(l) ==
  /\ l.bad = <<>>
  /\ Complete(l.base) /\ \A j \in DOMAIN l.edits : Complete(l.edits[j])
  /\ DOMAIN l.recs = DOMAIN l.base.types
  /\ RecordsOK(l)
  /\ Faithful(Pairs(l.base) \cup UNION {Pairs(l.edits[j]) : j \in DOMAIN l.edits})

(* A pair of types whose ids are wrong: [line, universe (0: base), type] twice *)
Universe(l, j) == IF j = 0 THEN l.base ELSE l.edits[j]
Why(l) ==
  IF l.bad # <<>> THEN <<"recording">>
  ELSE IF ~RecordsOK(l) THEN LET Id(t) == l.base.ids[CHOOSE i \in DOMAIN l.base.types : l.base.types[i] = t] IN
       <<"record", CHOOSE i \in DOMAIN l.recs : ~(l.recs[i].id = l.base.ids[i] /\ Dumped(l.recs[i]) = Record(l.base.u, l.base.types[i], Id))>>
  ELSE LET all == UNION {{<<Canon(Universe(l, j).u, Universe(l, j).types[i]), Universe(l, j).ids[i], j, i>> : i \in DOMAIN Universe(l, j).ids} :
                           j \in 0 .. Len(l.edits)}
           x == CHOOSE x \in all : \E y \in all : (x[1] = y[1]) # (x[2] = y[2])
           y == CHOOSE y \in all : (x[1] = y[1]) # (x[2] = y[2]) IN
       <<"ids", x[3], x[4], y[3], y[4], x[1] = y[1]>>

VARIABLES i, fails, seen
vars == <<i, fails, seen>>

Init == i = 1 /\ fails = 0 /\ seen = {}
Next ==
  /\ i <= Len(Log)
  /\ i' = i + 1
  /\ seen' = seen \cup Pairs(Log[i].base)
  /\ IF LineOK(Log[i]) THEN UNCHANGED fails
     ELSE PrintT(<<"BROKEN", i, ToString(Why(Log[i]))>>) /\ fails' = fails + 1
Spec == Init /\ [][Next]_vars

(* In the end: the same type has the same id wherever it is, different types have different ones. *)
Done == i = Len(Log) + 1 =>
          /\ PrintT(<<"DONE", i - 1, fails>>)
          /\ (Faithful(seen) \/ PrintT(<<"MIXED", Cardinality(seen)>>))
=============================================================================
