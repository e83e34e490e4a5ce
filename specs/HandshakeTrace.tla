--------------------------- MODULE HandshakeTrace ---------------------------
(***************************************************************************)
(* Judges recorded handshakes. Lines:                                      *)
(*   sc       the handshake, as printed by HandshakeMC                     *)
(*   up       messages that the client sent, down those of the broker      *)
(*   client   [r, d]: how it ended for the client                          *)
(*   broker   [r, d, ver]: what the broker made of the first message       *)
(*   let      "ok" if the broker then went along, "" if nothing to decide, *)
(*            the error otherwise                                          *)
(***************************************************************************)
EXTENDS Handshake, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

As(sc, m) == IF m.k = "Connect2" THEN [m EXCEPT !.min = sc.as] ELSE m
Eof == [M0 EXCEPT !.k = "eof"]
Or(ms) == IF ms = <<>> THEN Eof ELSE ms[1]
Rd(sc) == IF sc.decide = "default" THEN 0 ELSE sc.rd

\* What reaches the broker, and what it says.
Heard(sc) == IF sc.t = "broker" THEN sc.m ELSE As(sc, Hello(sc.api, sc.d))
Said(sc) == AtOnce(Heard(sc)) \o Decided(Heard(sc), sc.decide, Rd(sc))

Wrong(l) ==
    LET sc == l.sc
        cl == Result(sc.api, IF sc.t = "client" THEN sc.m ELSE Or(Said(sc)))
    IN
    (IF sc.t # "broker" /\ ~SameMessages(<<Hello(sc.api, sc.d)>>, l.up) THEN {"hello"} ELSE {})
    \* Whether a reply that cannot be read is looked at otherwise is up to the client.
    \cup (IF sc.t # "broker" /\ (IF sc.m.d = -1 /\ cl.r = "deserialize" /\ sc.m.r # "Ok" THEN l.client.r = "ok"
                                 ELSE l.client.r # cl.r \/ l.client.d # cl.d) THEN {"result"} ELSE {})
    \cup (IF sc.t # "client" /\ ~SameMessages(Said(sc), l.down) THEN {"reply"} ELSE {})
    \* The default way of accepting doesn't show the version.
    \cup (IF sc.t # "client" /\ sc.decide # "default" /\ l.broker # First(Heard(sc)) THEN {"what the broker understood"} ELSE {})
    \cup (IF sc.t # "client" /\ l.let # (IF First(Heard(sc)).r = "ok" THEN "ok"
                                         ELSE IF sc.decide = "default" THEN First(Heard(sc)).r ELSE "") THEN {"admission"} ELSE {})

VARIABLES i, fails
Init == i = 1 /\ fails = 0
Next ==
  /\ i <= Len(Log)
  /\ i' = i + 1
  /\ LET w == Wrong(Log[i]) IN
     IF w = {} THEN UNCHANGED fails ELSE PrintT(<<"BROKEN", i, w>>) /\ fails' = fails + 1
Spec == Init /\ [][Next]_<<i, fails>>
Done == i = Len(Log) + 1 => PrintT(<<"DONE", i - 1, fails>>)
=============================================================================
