---------------------------- MODULE FramingTrace ----------------------------
(***************************************************************************)
(* Checks recorded uses of the real packetizer and transport.              *)
(* Lines: reset (lens, tx), feed (n, spare, room), next (r), op (an        *)
(* operation of the transport, see Framing),                               *)
(* end (everything that can be read was read, everything was flushed).     *)
(***************************************************************************)
EXTENDS Framing, Json, IOUtils, TLC, Integers

Lines == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, s, skip, fails
vars == <<i, s, skip, fails>>

LineOK(l) ==
  CASE l.t = "feed" -> ~l.spare \/ (l.room >= 1 /\ l.n <= l.room)
    [] l.t = "next" -> l.r = Frame(s)
    [] l.t = "op"   -> StepOK(s, l)
    [] l.t = "end"  -> EndOK(s)
    [] OTHER -> FALSE

After2(l) ==
  CASE l.t = "feed" -> Feed(s, l.n)
    [] l.t = "next" -> Took(s)
    [] l.t = "op"   -> Step(s, l)
    [] OTHER -> s

Init == i = 1 /\ s = Start(<<>>, <<>>) /\ skip = FALSE /\ fails = 0

Next ==
  /\ i <= Len(Lines)
  /\ i' = i + 1
  /\ LET l == Lines[i] IN
     IF l.t = "reset" THEN s' = Start(l.lens, l.tx) /\ skip' = FALSE /\ UNCHANGED fails
     ELSE IF skip THEN UNCHANGED <<s, skip, fails>>
     ELSE IF LineOK(l) THEN s' = After2(l) /\ UNCHANGED <<skip, fails>>
     ELSE /\ PrintT(<<"BROKEN", i, {l.t}>>)
          /\ PrintT(<<"EXPECTED", s, Frame(s)>>)
          /\ fails' = fails + 1
          /\ skip' = TRUE
          /\ UNCHANGED s

Spec == Init /\ [][Next]_vars
Done == i = Len(Lines) + 1 => PrintT(<<"DONE", i - 1, fails>>)
=============================================================================
