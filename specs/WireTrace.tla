----------------------------- MODULE WireTrace -----------------------------
(***************************************************************************)
(* Judges recorded uses of the real value codec by Wire.tla. The file      *)
(* named by TRACE holds one JSON record per line:                          *)
(*   "v"  a byte string and what reading its kind, measuring, skipping,    *)
(*        splitting off, decoding, walking, carrying as unknown field or   *)
(*        variant and converting it returned                               *)
(*   "s"  a value, its serialization and what that decoded to              *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils, TLC, TLCExt

Lines == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, fails
vars == <<i, fails>>

\* Values as recorded list the entries of maps, sets and structs in any order.
RECURSIVE Canon(_)
Canon(r) ==
  LET k == r[1] IN
  CASE k \in {-1, 0} -> r
    [] k = 1 -> <<1, Canon(r[2])>>
    [] k = 17 -> <<17, [j \in 1..Len(r[2]) |-> Canon(r[2][j])]>>
    [] k = 40 -> <<40, <<r[2][1], Canon(r[2][2])>>>>
    [] k \in 29..38 -> <<k, Range(r[2])>>
    [] k \in 19..28 \cup {39} ->
         <<k, {<<r[2][j][1], Canon(r[2][j][2])>> : j \in 1..Len(r[2])}>>
    [] OTHER -> r

RECURSIVE VDepth(_)
VDepth(v) ==
  LET k == v[1]
      deepest(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A n \in S : m >= n
  IN CASE k = 1 -> 1 + VDepth(v[2])
       [] k = 17 -> 1 + deepest({VDepth(v[2][j]) : j \in 1..Len(v[2])})
       [] k = 40 -> 1 + VDepth(v[2][2])
       [] k \in 19..28 \cup {39} -> 1 + deepest({VDepth(e[2]) : e \in v[2]})
       [] OTHER -> 1

\* The names of those requirements in S (pairs of name and truth value) that do not hold.
Broken(S) == {x[1] : x \in {y \in S : ~y[2]}}

----------------------------------------------------------------------------
(* Carrying a value as field or variant 7 of something else *)
Field7(v)   == <<39, {<<<<7, 0, 0, 0>>, v>>}>>
Variant7(v) == <<40, <<<<7, 0, 0, 0>>, v>>>>

CarryOK(s, c, outer) ==
  IF s.d + 1 > MaxDepth THEN ~c.ok
  ELSE c.ok /\ c.same /\ (s.u => c.dec /\ Match(outer, Canon(c.v))) /\ (~s.u => ~c.dec)

PartOK(b, s, p) ==
  Broken({<<"skip-part", p.skip>>, <<"split-part", p.split /\ p.same>>, <<"skip-less", ~p.less>>,
          <<"decode-part", p.dec = s.u /\ (p.dec => Match(s.v, Canon(p.v)))>>,
          <<"unknown-field", CarryOK(s, p.carry[1], Field7(s.v)) /\ CarryOK(s, p.carry[2], Field7(s.v))>>,
          <<"unknown-variant", CarryOK(s, p.carry[3], Variant7(s.v))>>})

WalkOK(b, s, w) ==
  IF ~Whole(b, s) THEN ~w.ok
  ELSE IF w.ok THEN Match(s.v, Canon(w.v)) ELSE ~s.u

\* An allocation of more than this is not a small multiple of the input.
AllocLimit(b) == 512 * Len(b) + 16384

ConvFields(b, s, c) ==
  Broken({<<"convert", ConvertOK(b, s, c.f, c.t, c)>>,
          <<"convert-forms", c.same>>,
          <<"convert-twice", c.again>>,
          <<"convert-decodes", (c.ok /\ Whole(b, s) /\ s.u) => c.dec /\ Match(s.v, Canon(c.v))>>})

JudgeValue(l) ==
  LET b == l.b
      s == Value(b)
      dec == DecodeOK(b, s, l.dec) /\ (l.dec.ok => Match(s.v, Canon(l.v)))
  IN Broken({<<"kind", l.kind.ok = (b[1] <= 65) /\ (l.kind.ok => l.kind.k = b[1])>>,
             <<"measure", SkipOK(s, l.len)>>,
             <<IF Whole(b, s) \/ (TooDeep(s) /\ ~l.dec.ok) THEN "decode-valid" ELSE "decode-invalid", dec>>,
             <<"walk", \A j \in DOMAIN l.walks : WalkOK(b, s, l.walks[j])>>,
             <<"allocation", l.alloc <= AllocLimit(b)>>,
             <<"panic", \A j \in DOMAIN l.panics : FALSE>>})
     \cup (IF l.part # <<>> /\ WellFormed(s) THEN PartOK(b, s, l.part[1]) ELSE {})
     \cup UNION {ConvFields(b, s, l.conv[j]) : j \in DOMAIN l.conv}

JudgeSer(l) ==
  LET v == Canon(l.v)
      o == Value(l.out)
  IN Broken({<<"panic-serialize", l.panics = <<>>>>,
             <<"serialize-depth", IF VDepth(v) <= MaxDepth THEN l.ok ELSE ~l.ok /\ l.deep>>,
             <<"serialize-bytes", l.ok => Whole(l.out, o) /\ o.u /\ o.v = v>>,
             <<"serialize-legacy", l.ok /\ l.how = 1 => o.w <= 42>>,
             <<"round-trip", l.ok => l.dec /\ Canon(l.back) = v>>})

Judge(l) == IF l.t = "v" THEN JudgeValue(l) ELSE JudgeSer(l)

Expected(l) == IF l.t = "v" THEN Value(l.b) ELSE <<VDepth(Canon(l.v)), IF l.ok THEN Value(l.out) ELSE 0>>

Init == i = 1 /\ fails = 0

Next ==
  /\ i <= Len(Lines)
  /\ i' = i + 1
  /\ LET l == Lines[i]
         J == Judge(l)
     IN IF J = {} THEN UNCHANGED fails
        ELSE /\ PrintT(<<"BROKEN", i, J>>)
             /\ PrintT(<<"EXPECTED", IF fails < 30 THEN Expected(l) ELSE "-">>)
             /\ fails' = fails + 1

Spec == Init /\ [][Next]_vars
Done == i = Len(Lines) + 1 => PrintT(<<"DONE", i - 1, fails>>)
=============================================================================
