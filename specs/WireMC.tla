------------------------------- MODULE WireMC -------------------------------
(***************************************************************************)
(* All byte strings over a small alphabet that are values or can still     *)
(* become one, and for every one of them one more byte. The reference      *)
(* decoder and encoders are checked on them; the strings are printed for   *)
(* the real codec to be tried on.                                          *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils, TLC

Focus == IOEnv.FOCUS
Depth == atoi(IOEnv.DEPTH)

Alpha ==
  CASE Focus = "nest"    -> {0, 1, 2, 17, 39, 40, 43, 65}
    [] Focus = "maps"    -> {0, 1, 19, 21, 26, 45, 47, 255, 248}
    [] Focus = "sets"    -> {0, 1, 24, 29, 32, 35, 55, 58, 252, 61}
    [] Focus = "strings" -> {0, 1, 2, 13, 27, 53, 37, 63, 195, 168, 128}
    [] Focus = "utf8"    -> {13, 3, 4, 97, 224, 237, 240, 244, 128, 160, 144, 191}
    [] Focus = "bytes"   -> {0, 1, 2, 3, 18, 44, 252, 17}
    [] Focus = "ints"    -> {0, 1, 5, 6, 7, 8, 9, 10, 127, 128, 247, 248, 251, 252, 253, 254, 255}
    [] Focus = "mixed"   -> {0, 1, 2, 3, 13, 18, 28, 36, 39, 43, 66, 255}

VARIABLE b
Init == b = <<>>
Next == /\ Len(b) < Depth
        /\ b = <<>> \/ Value(b).c = 1
        /\ \E x \in Alpha : b' = Append(b, x)
Spec == Init /\ [][Next]_b

\* What follows a value does not matter.
Prefix == b # <<>> => LET s == Value(b) IN s.c = 0 => Value(b \o <<0>>) = s /\ Value(b \o <<255, 1>>) = s

\* Both encoders give a value its meaning back, the old one without the new kinds, and, unless a
\* key is repeated, the new encoding is not ambiguous either.
Encoders ==
  b # <<>> =>
  LET s == Value(b) IN
  s.c = 0 => \A two \in BOOLEAN :
               LET e == Enc(s.v, two)
                   t == Value(e)
               IN /\ Whole(e, t) /\ t.v = s.v /\ t.u = s.u /\ t.d = s.d
                  /\ ~two => t.w <= 42
                  /\ ConvertOK(b, s, 20, 14, [ok |-> TRUE, out |-> Enc(s.v, FALSE)])

\* Removing the last byte leaves something incomplete.
Minimal == Len(b) > 1 => LET s == Value(b) IN s.c = 0 => Value(SubSeq(b, 1, Len(b) - 1)).c = 1

Show == b = <<>> \/ PrintT("BYTES " \o ToJson(b))
=============================================================================
