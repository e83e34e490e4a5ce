----------------------------- MODULE Handshake -----------------------------
(***************************************************************************)
(* How a client and a broker come to terms.                                *)
(*                                                                         *)
(* The client says hello with one of two messages and waits for one        *)
(* message back. The broker reads one message; if versions go together,    *)
(* somebody decides whether to let the client in. Both can attach a value. *)
(*                                                                         *)
(* Messages are records with all of these fields:                          *)
(*   k   kind                                                              *)
(*   maj, min   version in Connect (min only) and Connect2                 *)
(*   r, v   result and version in ConnectReply and ConnectReply2           *)
(*   d   attached value: 0 none, a number standing for a value otherwise,  *)
(*       -1 something that cannot be read                                  *)
(*   w   encoding of everything attached: 0 no containers, 1 only such as  *)
(*       every version knows, 2 some that only 1.20 knows                  *)
(* Version numbers: -1 is the largest possible one.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

Major == 1
Oldest == 14
Newest == 20

M0 == [k |-> "", maj |-> 0, min |-> 0, r |-> "", v |-> 0, d |-> 0, w |-> 0]
Big(v) == IF v = -1 THEN 2147483647 ELSE v
Min(a, b) == IF Big(a) < Big(b) THEN a ELSE b

(***************************************************************************)
(* The client                                                              *)
(***************************************************************************)
\* What it sends first; it doesn't know yet what the broker understands.
Hello(api, d) ==
    IF api = 1 THEN [M0 EXCEPT !.k = "Connect", !.min = Oldest, !.d = d, !.w = 1]
    ELSE [M0 EXCEPT !.k = "Connect2", !.maj = Major, !.min = Newest, !.d = d, !.w = 1]

No(r) == [r |-> r, d |-> 0, ver |-> 0]

\* What comes of it if m is what comes back.
Result(api, m) ==
    CASE m.k \in {"eof", "err"} -> No("transport")
      [] m.k # (IF api = 1 THEN "ConnectReply" ELSE "ConnectReply2") -> No("unexpected")
      [] m.d = -1 /\ api = 2 -> No("deserialize")
      [] m.r = "Rejected" -> [No("rejected") EXCEPT !.d = m.d]
      [] m.r = "IncompatibleVersion" -> No("incompatible")
      [] m.r = "Ok" /\ api = 2 /\ Big(m.v) > Newest -> No("incompatible")
      [] m.r = "Ok" -> [r |-> "ok", d |-> m.d, ver |-> IF api = 1 THEN Oldest ELSE m.v]

(***************************************************************************)
(* The broker                                                              *)
(***************************************************************************)
\* The version that comes of a hello, 0 if none.
Negotiated(m) ==
    CASE m.k = "Connect"  -> IF m.min = Oldest THEN Oldest ELSE 0
      [] m.k = "Connect2" -> IF m.maj = Major /\ Big(m.min) >= Oldest THEN Min(m.min, Newest) ELSE 0

Reply(m, r, v, d) ==
    IF m.k = "Connect" THEN [M0 EXCEPT !.k = "ConnectReply", !.r = r, !.d = d, !.w = 1,
                                       !.v = IF r = "IncompatibleVersion" THEN Oldest ELSE 0]
    ELSE [M0 EXCEPT !.k = "ConnectReply2", !.r = r, !.v = v, !.d = d, !.w = IF v >= Newest THEN 2 ELSE 1]

\* What the broker makes of its first message: what to decide about, or why not.
First(m) ==
    CASE m.k \in {"eof", "err"} -> No("transport")
      [] m.k \notin {"Connect", "Connect2"} -> No("unexpected")
      [] m.k = "Connect2" /\ m.d = -1 -> No("deserialize")
      [] Negotiated(m) = 0 -> No("incompatible")
      [] OTHER -> [r |-> "ok", d |-> m.d, ver |-> Negotiated(m)]

\* What it sends at once, and what after a decision: who is "accepted" or "rejected" gets the value rd.
AtOnce(m) == IF First(m).r = "incompatible" THEN <<Reply(m, "IncompatibleVersion", 0, 0)>> ELSE <<>>
Decided(m, decide, rd) ==
    IF First(m).r # "ok" THEN <<>>
    ELSE IF decide = "reject" THEN <<[Reply(m, "Rejected", 0, rd) EXCEPT !.w = IF First(m).ver >= Newest THEN 2 ELSE 1]>>
    ELSE <<Reply(m, "Ok", IF m.k = "Connect" THEN 0 ELSE First(m).ver, rd)>>

(***************************************************************************)
(* Comparing                                                               *)
(***************************************************************************)
\* An encoding that is older than necessary is no mistake.
SameMessage(want, got) == [want EXCEPT !.w = 0] = [got EXCEPT !.w = 0] /\ got.w <= want.w
SameMessages(want, got) == Len(want) = Len(got) /\ \A i \in DOMAIN want : SameMessage(want[i], got[i])
=============================================================================
