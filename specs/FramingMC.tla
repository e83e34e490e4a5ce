------------------------------ MODULE FramingMC ------------------------------
(***************************************************************************)
(* Explores Framing. MODE "packet": all ways of feeding a stream of frames *)
(* to a packetizer. MODE "transport": a reference transport on I/O that    *)
(* answers in every possible way; every step of it must be one that        *)
(* Framing allows, and Framing must allow nothing that loses, duplicates   *)
(* or reorders data. The operations are printed for the real code.         *)
(***************************************************************************)
EXTENDS Framing, Json, IOUtils, TLC, Integers

Mode   == IOEnv.MODE
Depth  == atoi(IOEnv.DEPTH)
Sample == atoi(IOEnv.SAMPLE)
Walk   == IOEnv.WALK = "1"

Lens == IF Mode = "packet" THEN <<5, 7, 6>> ELSE <<5, 7>>
Tx   == IF Mode = "packet" THEN <<>> ELSE <<5, 7, 5>>
Total == Sum(Lens, Len(Lens))
Boundary == 8      \* more than this is not buffered by the reference transport

VARIABLES s, hist, out, wrote, broken
vars == <<s, hist, out, wrote, broken>>
\* out: frames handed out; wrote: bytes written, as numbers of the stream; broken: an operation failed

Init == s = Start(Lens, Tx) /\ hist = <<>> /\ out = <<>> /\ wrote = <<>> /\ broken = FALSE

\* The argument keeps TLC from evaluating this only once.
Pick(h) == IF Walk THEN TRUE ELSE RandomElement(1..(100000 + 0 * Len(h))) <= Sample
Emit(h) == Pick(h) => PrintT("HIST " \o ToJson([kind |-> Mode, lens |-> Lens, tx |-> Tx, ops |-> h]))

----------------------------------------------------------------------------
FeedSome ==
  \E n \in {1, 2, 3, 4, 5, 8, 13} : \E spare \in BOOLEAN :
    /\ s.fed + n <= Total
    /\ s' = Feed(s, n)
    /\ hist' = Append(hist, [op |-> "feed", n |-> n, spare |-> spare])
    /\ UNCHANGED <<out, wrote, broken>>

TakeNext ==
  /\ s' = Took(s)
  /\ out' = IF Frame(s) = 0 THEN out ELSE Append(out, Frame(s))
  /\ hist' = Append(hist, [op |-> "next", n |-> 0, spare |-> FALSE])
  /\ UNCHANGED <<wrote, broken>>

----------------------------------------------------------------------------
(* The reference transport. Every operation comes with a script, the       *)
(* answers of the I/O; behind its end the I/O is pending.                  *)

Ans(r, n) == [r |-> r, n |-> n]
Reads  == {Ans("pending", 0), Ans("zero", 0), Ans("err", 0), Ans("ok", 1), Ans("ok", 4), Ans("ok", 6), Ans("ok", 12)}
Writes == {Ans("pending", 0), Ans("zero", 0), Ans("err", 0), Ans("ok", 1), Ans("ok", 4), Ans("ok", 99)}
Flushes == {Ans("pending", 0), Ans("err", 0), Ans("ok", 0)}
Scripts(A) == {<<>>} \cup {<<a>> : a \in A} \cup {<<a, b>> : a \in {x \in A : x.r = "ok"}, b \in A}

MinOf(a, b) == IF a <= b THEN a ELSE b
Io(k, r, n) == [k |-> k, r |-> r, n |-> n, same |-> TRUE]

RECURSIVE DoRead(_, _, _)
DoRead(t, sc, io) ==
  IF Complete(t) THEN [op |-> "recv", res |-> "msg", m |-> t.got + 1, io |-> io]
  ELSE LET a == IF sc = <<>> THEN Ans("pending", 0) ELSE sc[1]
           n == IF a.r = "ok" THEN MinOf(a.n, Total - t.fed) ELSE 0
           r == IF a.r = "ok" /\ n = 0 THEN "zero" ELSE a.r
           io2 == Append(io, Io("read", r, n))
       IN CASE r = "ok" -> DoRead(Feed(t, n), Tail(sc), io2)
            [] r = "pending" -> [op |-> "recv", res |-> "pending", m |-> 0, io |-> io2]
            [] r \in {"zero", "err"} -> [op |-> "recv", res |-> "err", m |-> 0, io |-> io2]

RECURSIVE DoFlush(_, _, _, _, _)
DoFlush(op, t, ws, f, io) ==
  IF Owed(t) > 0
  THEN LET a == IF ws = <<>> THEN Ans("pending", 0) ELSE ws[1]
           n == IF a.r = "ok" THEN MinOf(a.n, Owed(t)) ELSE 0
           io2 == Append(io, Io("write", a.r, n))
       IN IF a.r = "ok" THEN DoFlush(op, IoStep(t, Io("write", "ok", n)), Tail(ws), f, io2)
          ELSE [op |-> op, res |-> IF a.r = "zero" THEN "err" ELSE a.r, m |-> 0, io |-> io2]
  ELSE [op |-> op, res |-> f.r, m |-> 0, io |-> Append(io, Io("flush", f.r, 0))]

Recv(sc)      == DoRead(s, sc, <<>>)
Flush(ws, f)  == DoFlush("flush", s, ws, f, <<>>)
Ready(ws, f)  == IF Owed(s) >= Boundary THEN DoFlush("ready", s, ws, f, <<>>)
                 ELSE [op |-> "ready", res |-> "ok", m |-> 0, io |-> <<>>]
StartMsg      == [op |-> "start", res |-> "ok", m |-> 0, io |-> <<>>]

NewBytes(o) == LET n == Step(s, o).written - s.written IN [k \in 1..n |-> s.written + k]

Do(o, script, fl) ==
  /\ Assert(StepOK(s, o), <<"the reference transport is not allowed to do this", s, o>>)
  /\ s' = Step(s, o)
  /\ out' = IF o.op = "recv" /\ o.res = "msg" THEN Append(out, o.m) ELSE out
  /\ wrote' = wrote \o NewBytes(o)
  /\ broken' = (o.res = "err")
  /\ hist' = Append(hist, [op |-> o.op, script |-> script, fl |-> fl])

CanStart == s.started < Len(Tx)
\* Starting a message requires that the transport was just found ready.
Operate ==
  \/ \E sc \in Scripts(Reads) : Do(Recv(sc), sc, Ans("ok", 0))
  \/ \E ws \in Scripts(Writes), f \in Flushes : Do(Flush(ws, f), ws, f)
  \/ CanStart /\ \E ws \in Scripts(Writes) : Do(Ready(ws, Ans("ok", 0)), ws, Ans("ok", 0))
  \/ CanStart /\ hist # <<>> /\ hist[Len(hist)].op = "ready" /\ Do(StartMsg, <<>>, Ans("ok", 0))

----------------------------------------------------------------------------
Next == /\ Len(hist) < Depth /\ ~broken
        /\ IF Mode = "packet" THEN FeedSome \/ TakeNext ELSE Operate
        /\ IF ~Walk \/ Len(hist') = Depth THEN Emit(hist') ELSE TRUE

Spec == Init /\ [][Next]_vars
View == <<s, out, wrote, broken, Len(hist), IF hist # <<>> THEN hist[Len(hist)].op ELSE "">>

\* What was handed out is a prefix of what was sent, without gaps or duplicates, and complete.
InOrder  == out = [k \in 1..Len(out) |-> k] /\ Sum(Lens, Len(out)) <= s.fed
WroteAll == wrote = [k \in 1..s.written |-> k] /\ s.written <= Sum(Tx, s.started)

\* Framing allows a flush to succeed only with everything written, and a receive nothing but the next frame.
Strict ==
  Mode = "transport" =>
  /\ Owed(s) > 0 => ~StepOK(s, [op |-> "flush", res |-> "ok", m |-> 0, io |-> <<Io("flush", "ok", 0)>>])
  /\ \A m \in 1..3 : StepOK(s, [op |-> "recv", res |-> "msg", m |-> m, io |-> <<>>]) => m = Len(out) + 1
=============================================================================
