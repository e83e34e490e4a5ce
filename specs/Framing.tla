------------------------------ MODULE Framing ------------------------------
(***************************************************************************)
(* Framing of a byte stream: the packetizer, and the transport that is     *)
(* built on it and on some I/O that may be slow, short or broken.          *)
(*                                                                         *)
(* Bytes are counted, not named: byte k of a direction is the k-th byte of *)
(* the concatenation of all frames. Recorders establish by comparison that *)
(* a piece of data is the expected one.                                    *)
(*                                                                         *)
(* State of a connection:                                                  *)
(*   lens     lengths of the frames of the peer                            *)
(*   fed      bytes that came in                                           *)
(*   got      frames that were handed out                                  *)
(*   tx       lengths of the frames to send                                *)
(*   started  messages taken over for sending                              *)
(*   written  bytes accepted by the I/O                                    *)
(*   dirty    the I/O accepted bytes since it was last flushed             *)
(***************************************************************************)
EXTENDS Naturals, Sequences

RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)

Start(lens, tx) == [lens |-> lens, fed |-> 0, got |-> 0, tx |-> tx, started |-> 0, written |-> 0, dirty |-> FALSE]

\* The next frame of the peer is there with all its bytes.
Complete(s) == s.got < Len(s.lens) /\ Sum(s.lens, s.got + 1) <= s.fed

Owed(s) == Sum(s.tx, s.started) - s.written

----------------------------------------------------------------------------
(* Packetizer *)

Feed(s, n) == [s EXCEPT !.fed = @ + n]
\* Number of the frame that must be handed out now, 0 if none.
Frame(s) == IF Complete(s) THEN s.got + 1 ELSE 0
Took(s)  == IF Complete(s) THEN [s EXCEPT !.got = @ + 1] ELSE s

----------------------------------------------------------------------------
(* One call of the I/O: k read, write or flush; r ok, pending, zero, err;  *)
(* n bytes; same: the bytes written were the next ones of the stream.      *)

IoOK(s, c) == c.k = "write" /\ c.r = "ok" => c.same /\ c.n <= Owed(s)

IoStep(s, c) ==
  CASE c.k = "read" /\ c.r = "ok"  -> Feed(s, c.n)
    [] c.k = "write" /\ c.r = "ok" -> [s EXCEPT !.written = @ + c.n, !.dirty = TRUE]
    [] c.k = "flush" /\ c.r = "ok" -> [s EXCEPT !.dirty = FALSE]
    [] OTHER -> s

RECURSIVE IoAll(_, _)
\* State after the calls, and whether all of them were in order.
IoAll(s, cs) ==
  IF cs = <<>> THEN [s |-> s, ok |-> TRUE]
  ELSE LET r == IoAll(IoStep(s, cs[1]), Tail(cs)) IN [r EXCEPT !.ok = @ /\ IoOK(s, cs[1])]

Saw(cs, k, r) == \E i \in DOMAIN cs : cs[i].k = k /\ cs[i].r = r
SawPending(cs) == \E i \in DOMAIN cs : cs[i].r = "pending"

\* An operation o of the transport: op, res (and m, the frame that was received), io.
\* s is the state behind its I/O. A message that an operation starts counts from its beginning.
Starts(o) == o.op \in {"start", "sendflush"} \/ (o.op = "send" /\ o.res # "pending")

\* I/O that fails is reported by the operation that met it, and nothing else is reported.
Failed(o) == \E i \in DOMAIN o.io : o.io[i].r \in {"zero", "err"}

\* An operation may be pending only if the I/O that it waits for is.
ResultOK(s, o) ==
  /\ o.res = "err" <=> Failed(o)
  /\ CASE o.op = "recv" ->
            CASE o.res = "msg"     -> o.m = Frame(s) /\ o.m # 0
              [] o.res = "pending" -> Saw(o.io, "read", "pending") /\ ~Complete(s)
              [] o.res = "err"     -> ~Complete(s)
              [] OTHER -> FALSE
       [] o.op \in {"ready", "send"} ->
            CASE o.res \in {"ok", "err"} -> TRUE
              [] o.res = "pending" -> SawPending(o.io)
              [] OTHER -> FALSE
       [] o.op = "start" -> o.res = "ok"
       [] o.op \in {"flush", "sendflush"} ->
            CASE o.res = "ok"      -> Owed(s) = 0 /\ ~s.dirty
              [] o.res = "pending" -> SawPending(o.io)
              [] o.res = "err"     -> TRUE
              [] OTHER -> FALSE

Before(s, o) == IF Starts(o) THEN [s EXCEPT !.started = @ + 1] ELSE s
After(s, o)  == IF o.op = "recv" /\ o.res = "msg" THEN Took(s) ELSE s

\* Nothing is left over once all I/O was done.
EndOK(s) == s.got = Len(s.lens) /\ Owed(s) = 0 /\ ~s.dirty

StepOK(s, o) == LET r == IoAll(Before(s, o), o.io) IN r.ok /\ ResultOK(r.s, o)
Step(s, o)   == LET r == IoAll(Before(s, o), o.io) IN After(r.s, o)
=============================================================================
