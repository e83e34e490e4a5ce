------------------------------ MODULE MessageMC ------------------------------
(***************************************************************************)
(* All messages over small domains of fields, and the frames close to      *)
(* theirs: every truncation, every byte replaced, one byte too many, with  *)
(* and without the length set right. The frames are printed for the real   *)
(* parser to be tried on.                                                  *)
(***************************************************************************)
EXTENDS Message, Json, IOUtils, TLC

Part == atoi(IOEnv.PART)      \* kinds that are PART modulo 8
Wide == IOEnv.WIDE = "1"

Numbers  == IF Wide THEN {<<0, 0, 0, 0>>, <<251, 0, 0, 0>>, <<252, 0, 0, 0>>, <<0, 1, 0, 0>>, <<255, 255, 255, 255>>, <<0, 0, 0, 128>>}
            ELSE {<<7, 0, 0, 0>>, <<252, 0, 0, 0>>, <<255, 255, 255, 255>>}
Uuids    == {[i \in 1..16 |-> 0], [i \in 1..16 |-> i]}
Payloads == {<<0>>, <<13, 2, 195, 168>>} \cup (IF Wide THEN {<<255>>, [i \in 1..256 |-> IF i = 1 THEN 18 ELSE i % 256]} ELSE {})

RECURSIVE AllFields(_)
\* Pairs of fields and whether the payload stays.
AllFields(lay) ==
  IF lay = <<>> THEN {<< <<>>, TRUE >>}
  ELSE LET it == lay[1]
           put(S, R) == {<< <<s>> \o r[1], r[2] >> : s \in S, r \in R}
       IN CASE it[1] = "n" -> put(Numbers, AllFields(Tail(lay)))
            [] it[1] = "u" -> put(Uuids, AllFields(Tail(lay)))
            [] it[1] = "x" -> {<<r[1], FALSE>> : r \in AllFields(Tail(lay))}
            [] it[1] = "c" -> UNION {put({<<d - 1>>}, AllFields(it[2][d] \o Tail(lay))) : d \in 1..Len(it[2])}

Messages(k) ==
  {[ok |-> TRUE, k |-> k, f |-> x[1], v |-> v] :
     x \in AllFields(Layout(k)), v \in {<<>>} \cup {<<p>> : p \in Payloads}}

Legal(m) == (m.v # <<>>) = (m.k \in HasValue /\ \E x \in AllFields(Layout(m.k)) : x = <<m.f, TRUE>>)

Fixed4(b) == IF Len(b) < 4 THEN b ELSE Le4(Len(b)) \o SubSeq(b, 5, Len(b))

VARIABLES b, step
vars == <<b, step>>

Init ==
  /\ step = 0
  /\ \E k \in {k \in Kinds : k % 8 = Part} : \E m \in {m \in Messages(k) : Legal(m)} :
       /\ Assert(Parse(Frame(m)) = m, <<"not its own parse", m>>)
       /\ b = Frame(m)

Near(c) ==
  {SubSeq(c, 1, n) : n \in 0..(Len(c) - 1)}
  \cup {Append(c, x) : x \in {0, 1}}
  \cup {[c EXCEPT ![i] = x] : i \in DOMAIN c, x \in {0, 1, 2, 63, 252, 255}}
  \cup {[c EXCEPT ![i] = (@ + 1) % 256] : i \in DOMAIN c}
  \cup {SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c)) : i \in DOMAIN c}

\* Mutations of frames with long or many equal parts add little.
Next ==
  /\ step = 0
  /\ Len(b) < (IF Wide THEN 120 ELSE 30)
  /\ step' = 1
  /\ \E c \in Near(b) : b' \in {c, Fixed4(c)}
Spec == Init /\ [][Next]_vars

\* Whatever is a frame is the frame of one message.
Strict == LET m == Parse(b) IN
          m.ok => /\ Parse(Frame(m)) = m
                  /\ \A x \in {0, 255} : ~Parse(Append(b, x)).ok /\ ~Parse(Fixed4(Append(b, x))).ok
                  /\ ~Parse(Fixed4(SubSeq(b, 1, Len(b) - 1))).ok

Show == PrintT("BYTES " \o ToJson(b))
=============================================================================
