---------------------------- MODULE MessageTrace ----------------------------
(***************************************************************************)
(* Judges recorded uses of the real message codec by Message.tla. The file *)
(* named by TRACE holds one JSON record per line: the bytes b, the message *)
(* m the real parser made of them (if ok), whether the parsers of the      *)
(* single kinds agree with that, and rt: serializations of the message,    *)
(* also with other payloads, and what parsing them gave.                   *)
(***************************************************************************)
EXTENDS Message, Json, IOUtils, TLC

Lines == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, fails
vars == <<i, fails>>

Broken(S) == {x[1] : x \in {y \in S : ~y[2]}}

\* The frame c.out of message m, with payload c.v.
AgainOK(m, c) ==
  LET p == Parse(c.out) IN
  Broken({<<"serialize", c.ser>>,
          <<"frame-length", c.ser => Len(c.out) >= 5 /\ AsLen(Bytes(c.out, 1, 4)) = Len(c.out)>>,
          <<"frame-content", c.ser => p.ok /\ p.k = m.k /\ p.f = m.f /\ p.v = c.v>>,
          <<"parse-again", c.ser => c.ok>>,
          <<"parse-same", c.ok => c.same>>})

Judge(l) ==
  LET s == Parse(l.b) IN
  Broken({<<"accept", s.ok => l.ok>>,
          <<"reject", l.ok => s.ok>>,
          <<"fields", s.ok /\ l.ok => l.m.k = s.k /\ l.m.f = s.f>>,
          <<"payload", s.ok /\ l.ok => l.m.v = s.v>>,
          <<"single-kinds", l.agree>>,
          <<"panic", l.panics = <<>>>>})
  \cup UNION {AgainOK(l.m, l.rt[j]) : j \in DOMAIN l.rt}

Init == i = 1 /\ fails = 0

Next ==
  /\ i <= Len(Lines)
  /\ i' = i + 1
  /\ LET l == Lines[i]
         J == Judge(l)
     IN IF J = {} THEN UNCHANGED fails
        ELSE /\ PrintT(<<"BROKEN", i, J>>)
             /\ PrintT(<<"EXPECTED", IF fails < 30 THEN Parse(l.b) ELSE "-">>)
             /\ fails' = fails + 1

Spec == Init /\ [][Next]_vars
Done == i = Len(Lines) + 1 => PrintT(<<"DONE", i - 1, fails>>)
=============================================================================
