------------------------------- MODULE Message -------------------------------
(***************************************************************************)
(* Frames of aldrin's protocol messages, as a reference parser over        *)
(* sequences of bytes, and a reference encoder.                            *)
(*                                                                         *)
(*   frame = length of the frame (4 bytes, little endian), kind,           *)
(*           [length of the payload (4 bytes), payload,] fields            *)
(*                                                                         *)
(* A message is a record: k its kind, f its fields as sequences of bytes   *)
(* (number: 4, uuid: 16, discriminant: 1), v its payload as a sequence of  *)
(* length 0 or 1.                                                          *)
(***************************************************************************)
EXTENDS Wire

N == <<"n">>                 \* number
U == <<"u">>                 \* uuid
X == <<"x">>                 \* the payload is not part of the message
C(alts) == <<"c", alts>>     \* discriminant, then what belongs to it

Nothing(n) == [i \in 1..n |-> <<>>]
Plain(n)   == C(Nothing(n))
OptN       == C(<< <<>>, <<N>> >>)
OptU       == C(<< <<>>, <<U>> >>)
OkN(n)     == C(<< <<N>> >> \o Nothing(n))       \* number if ok, n errors
OkU(n)     == C(<< <<U>> >> \o Nothing(n))
EndC       == C(<< <<>>, <<N>> >>)               \* sender, receiver with capacity
End        == Plain(2)
Filter     == C(<< <<>>, <<U>>, <<>>, <<U>>, <<U>>, <<U, U>> >>)
BusEvent   == C(<< <<U, U>>, <<U, U>>, <<U, U, U, U>>, <<U, U, U, U>> >>)

HasValue == {0, 1, 11, 12, 16, 27, 28, 46, 47, 49, 51, 52, 54, 62}
Kinds    == 0..62

Layout(k) ==
  CASE k = 0  -> <<N>>                                        \* Connect
    [] k = 1  -> <<C(<< <<>>, <<X, N>>, <<>> >>)>>            \* ConnectReply
    [] k = 2  -> <<>>                                         \* Shutdown
    [] k = 3  -> <<N, U>>                                     \* CreateObject
    [] k = 4  -> <<N, OkU(1)>>
    [] k = 5  -> <<N, U>>                                     \* DestroyObject
    [] k = 6  -> <<N, Plain(3)>>
    [] k = 7  -> <<N, U, U, N>>                               \* CreateService
    [] k = 8  -> <<N, OkU(3)>>
    [] k = 9  -> <<N, U>>                                     \* DestroyService
    [] k = 10 -> <<N, Plain(3)>>
    [] k = 11 -> <<N, U, N>>                                  \* CallFunction
    [] k = 12 -> <<N, C(<< <<>>, <<>>, <<X>>, <<X>>, <<X>>, <<X>> >>)>>
    [] k = 13 -> <<OptN, U, N>>                               \* SubscribeEvent
    [] k = 14 -> <<N, Plain(2)>>
    [] k = 15 -> <<U, N>>                                     \* UnsubscribeEvent
    [] k = 16 -> <<U, N>>                                     \* EmitEvent
    [] k = 17 -> <<N, U>>                                     \* QueryServiceVersion
    [] k = 18 -> <<N, OkN(1)>>
    [] k = 19 -> <<N, EndC>>                                  \* CreateChannel
    [] k = 20 -> <<N, U>>
    [] k = 21 -> <<N, U, End>>                                \* CloseChannelEnd
    [] k = 22 -> <<N, Plain(3)>>
    [] k = 23 -> <<U, End>>                                   \* ChannelEndClosed
    [] k = 24 -> <<N, U, EndC>>                               \* ClaimChannelEnd
    [] k = 25 -> <<N, OkN(3)>>
    [] k = 26 -> <<U, EndC>>                                  \* ChannelEndClaimed
    [] k = 27 -> <<U>>                                        \* SendItem
    [] k = 28 -> <<U>>                                        \* ItemReceived
    [] k = 29 -> <<U, N>>                                     \* AddChannelCapacity
    [] k = 30 -> <<N>>                                        \* Sync
    [] k = 31 -> <<N>>
    [] k = 32 -> <<U>>                                        \* ServiceDestroyed
    [] k = 33 -> <<N>>                                        \* CreateBusListener
    [] k = 34 -> <<N, U>>
    [] k = 35 -> <<N, U>>                                     \* DestroyBusListener
    [] k = 36 -> <<N, Plain(2)>>
    [] k = 37 -> <<U, Filter>>                                \* AddBusListenerFilter
    [] k = 38 -> <<U, Filter>>                                \* RemoveBusListenerFilter
    [] k = 39 -> <<U>>                                        \* ClearBusListenerFilters
    [] k = 40 -> <<N, U, Plain(3)>>                           \* StartBusListener
    [] k = 41 -> <<N, Plain(3)>>
    [] k = 42 -> <<N, U>>                                     \* StopBusListener
    [] k = 43 -> <<N, Plain(3)>>
    [] k = 44 -> <<OptU, BusEvent>>                           \* EmitBusEvent
    [] k = 45 -> <<U>>                                        \* BusListenerCurrentFinished
    [] k = 46 -> <<N, N>>                                     \* Connect2
    [] k = 47 -> <<OkN(2)>>
    [] k = 48 -> <<N>>                                        \* AbortFunctionCall
    [] k = 49 -> <<>>                                         \* RegisterIntrospection
    [] k = 50 -> <<N, U>>                                     \* QueryIntrospection
    [] k = 51 -> <<N, C(<< <<>>, <<X>> >>)>>
    [] k = 52 -> <<N, U, U>>                                  \* CreateService2
    [] k = 53 -> <<N, U>>                                     \* QueryServiceInfo
    [] k = 54 -> <<N, C(<< <<>>, <<X>> >>)>>
    [] k = 55 -> <<N, U>>                                     \* SubscribeService
    [] k = 56 -> <<N, Plain(2)>>
    [] k = 57 -> <<U>>                                        \* UnsubscribeService
    [] k = 58 -> <<OptN, U>>                                  \* SubscribeAllEvents
    [] k = 59 -> <<N, Plain(3)>>
    [] k = 60 -> <<OptN, U>>                                  \* UnsubscribeAllEvents
    [] k = 61 -> <<N, Plain(3)>>
    [] k = 62 -> <<N, U, N, OptN>>                            \* CallFunction2

----------------------------------------------------------------------------
(* Parsing: ok, position behind, fields, whether the payload stays *)

BadFields == [ok |-> FALSE, p |-> 0, f |-> <<>>, keep |-> TRUE]

RECURSIVE Fields(_, _, _, _, _)
Fields(b, p, lay, f, keep) ==
  IF lay = <<>> THEN [ok |-> TRUE, p |-> p, f |-> f, keep |-> keep]
  ELSE LET it == lay[1] IN
  CASE it[1] = "n" -> LET r == Varint(b, p, 4) IN
                      IF r.c # 0 THEN BadFields ELSE Fields(b, r.p, Tail(lay), Append(f, r.v), keep)
    [] it[1] = "u" -> IF ~Have(b, p, 16) THEN BadFields
                      ELSE Fields(b, p + 16, Tail(lay), Append(f, Bytes(b, p, 16)), keep)
    [] it[1] = "x" -> Fields(b, p, Tail(lay), f, FALSE)
    [] it[1] = "c" -> IF ~Have(b, p, 1) \/ b[p] >= Len(it[2]) THEN BadFields
                      ELSE Fields(b, p + 1, it[2][b[p] + 1] \o Tail(lay), Append(f, <<b[p]>>), keep)

NoMessage == [ok |-> FALSE, k |-> 0, f |-> <<>>, v |-> <<>>]

Parse(b) ==
  IF Len(b) < 5 \/ AsLen(Bytes(b, 1, 4)) # Len(b) \/ b[5] \notin Kinds THEN NoMessage
  ELSE LET k == b[5]
           has == k \in HasValue
           vlen == IF has /\ Have(b, 6, 4) THEN AsLen(Bytes(b, 6, 4)) ELSE 0
           r == Fields(b, IF has THEN 10 + vlen ELSE 6, Layout(k), <<>>, TRUE)
       IN IF has /\ (vlen = 0 \/ ~Have(b, 10, vlen)) THEN NoMessage
          ELSE IF ~r.ok \/ r.p # Len(b) + 1 THEN NoMessage
          ELSE [ok |-> TRUE, k |-> k, f |-> r.f,
                v |-> IF has /\ r.keep THEN <<Bytes(b, 10, vlen)>> ELSE <<>>]

----------------------------------------------------------------------------
(* Encoding *)

Le4(n) == Num(n)
WithLength(kind, body) == Le4(Len(body) + 5) \o <<kind>> \o body
PutField(f) == IF Len(f) = 4 THEN PutVarint(f) ELSE f

RECURSIVE PutFields(_)
PutFields(fs) == IF fs = <<>> THEN <<>> ELSE PutField(fs[1]) \o PutFields(Tail(fs))

Frame(m) ==
  LET p == IF m.v = <<>> THEN <<0>> ELSE m.v[1] IN
  WithLength(m.k, (IF m.k \in HasValue THEN Le4(Len(p)) \o p ELSE <<>>) \o PutFields(m.f))
=============================================================================
