------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* A client of the bus (aldrin::Client together with everything that its   *)
(* handles, objects, services, proxies, channel ends and bus listeners do),*)
(* from two sides: what it exchanges with the broker, and what the         *)
(* application sees of it.                                                 *)
(*                                                                         *)
(* An application starts operations (Req), may cancel them (Cancel), and   *)
(* sees them complete (Rets).  Operations and dropped values put requests  *)
(* into the client's queue; the client takes them out one by one (Handle), *)
(* receives messages (Receive), and sends messages in the order in which   *)
(* it produced them (Send).  It stops handling requests at some point      *)
(* (Drain) and finally ends (End).                                         *)
(*                                                                         *)
(* All of these are functions of the state, except for those whose outcome *)
(* the client leaves open; they yield sets of states.  A state with a      *)
(* non-empty "bad" is one that must never be reached.                      *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

\* Same as in the broker: refill if not more than this is left.
LowCapacity == 4

EMPTY == [x \in {} |-> x]

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == (k :> v) @@ f
Range(q) == {q[i] : i \in 1..Len(q)}

Bad(s, why) == IF s.bad = "" THEN [s EXCEPT !.bad = why] ELSE s

Start(v) ==
  [ v |-> v,           \* negotiated minor version
    mode |-> "run",    \* run, end (Shutdown was received), drain, dead
    wait |-> FALSE,    \* waits for the broker's Shutdown
    failed |-> FALSE,  \* the transport has failed
    sent |-> FALSE,    \* Shutdown has been sent
    q |-> <<>>,        \* requests of the handles
    out |-> <<>>,      \* messages not yet sent
    pend |-> EMPTY,    \* <<kind, serial>> -> what the reply is for
    ops |-> EMPTY,     \* running operations
    exp |-> EMPTY,     \* token -> outcome that has been determined
    lost |-> {},       \* tokens that nobody waits for anymore
    aborts |-> {},     \* calls whose AbortFunctionCall may be on its way
    ent |-> EMPTY,     \* what the application holds
    svc |-> EMPTY,     \* service cookie -> its queue of calls
    ab |-> {},         \* calls that have been received, not aborted, not answered
    bsub |-> EMPTY,    \* service cookie -> events somebody is interested in
    px |-> EMPTY,      \* proxies
    ch |-> [S |-> EMPTY, R |-> EMPTY],  \* claimed channel ends: P(ending) E(stablished) C(losed)
    cell |-> EMPTY,    \* <<end, cookie>> -> what the owner of a claimed channel end sees
    bl |-> EMPTY,      \* bus listeners
    intro |-> {},      \* local introspections
    gone |-> FALSE,    \* the application dropped its handle
    bad |-> "" ]

R0 == [r |-> "ok", ck |-> 0, v |-> 0, f |-> "", ver |-> "", ty |-> 0, sa |-> "none"]
Res(r) == [R0 EXCEPT !.r = r]

(***************************************************************************)
(* Outcomes.  An outcome consists of the result, the entities that the     *)
(* application gets, and the requests that are made if nobody takes it.    *)
(***************************************************************************)

Outcome(res, ents, drops) == [res |-> res, ents |-> ents, drops |-> drops]
Plain(r) == Outcome(Res(r), <<>>, <<>>)

Enq(s, reqs) == IF s.mode = "dead" THEN s ELSE [s EXCEPT !.q = @ \o reqs]

\* What happens to the receiving half of a service or proxy whose value is dropped.
Orphan(s, reqs) ==
  LET D == {reqs[i] : i \in 1..Len(reqs)}
      S == {r.ck : r \in {x \in D : x.k = "DestroyService"}}
      P == {r.id : r \in {x \in D : x.k = "DestroyProxy"}}
      B == {r.ck : r \in {x \in D : x.k = "DestroyBusListener"}}
      C == {<<r.end, r.ck>> : r \in {x \in D : x.k = "CloseChannelEnd"}}
  IN [s EXCEPT
       !.svc = [k \in DOMAIN @ |-> IF k \in S THEN [@[k] EXCEPT !.rx = FALSE] ELSE @[k]],
       !.px = [k \in DOMAIN @ |-> IF k \in P THEN [@[k] EXCEPT !.rx = FALSE] ELSE @[k]],
       !.bl = [k \in DOMAIN @ |-> IF k \in B THEN [@[k] EXCEPT !.rx = FALSE] ELSE @[k]],
       !.cell = [k \in DOMAIN @ \ C |-> @[k]]]

DropAll(s, reqs) == Enq(IF reqs = <<>> THEN s ELSE Orphan(s, reqs), reqs)

Deliver(s, tok, o) ==
  IF tok = 0 THEN DropAll(s, o.drops)
  ELSE IF tok \in s.lost THEN DropAll([s EXCEPT !.lost = @ \ {tok}], o.drops)
  ELSE [s EXCEPT !.exp = With(@, tok, o)]

\* The application no longer waits for the outcome.
Lose(s, tok) ==
  IF tok \in DOMAIN s.exp
  THEN DropAll([s EXCEPT !.exp = Without(@, tok)], s.exp[tok].drops)
  ELSE IF s.mode = "dead" THEN s ELSE [s EXCEPT !.lost = @ \cup {tok}]

(***************************************************************************)
(* Messages.                                                               *)
(***************************************************************************)

\* Kind of serials a message uses.
SerialKind(k) == CASE k = "CallFunction2" -> "CallFunction"
                   [] k = "CreateService2" -> "CreateService"
                   [] OTHER -> k

\* A message with a new serial, to be remembered together with d.
Ask(s, m, d) == [s EXCEPT !.out = Append(@, [x |-> "ask", m |-> m, d |-> d])]
Tell(s, m) == [s EXCEPT !.out = Append(@, [x |-> "tell", m |-> m])]
\* Several messages in any order.
TellAll(s, M) == IF M = {} THEN s ELSE [s EXCEPT !.out = Append(@, [x |-> "any", ms |-> M])]

Cap(n) == <<0, n>>

(***************************************************************************)
(* Requests.                                                               *)
(***************************************************************************)

InProxies(s, ck) == {p \in DOMAIN s.px : s.px[p].in /\ s.px[p].ck = ck}
AnySub(s, ck, ev, P) == \E p \in InProxies(s, ck) \ P : ev \in s.px[p].evs
AnyAll(s, ck, P) == \E p \in InProxies(s, ck) \ P : s.px[p].all

IntroRefs(ty) == CASE ty = 7001 -> {7001, 7002}
                   [] ty = 7004 -> {7001, 7002, 7004}
                   [] OTHER -> {ty}

Handle0(s, r) ==
  CASE r.k = "CreateObject" -> Ask(s, [k |-> r.k, s |-> "", u |-> r.u], [tok |-> r.tok, u |-> r.u])
    [] r.k = "DestroyObject" -> Ask(s, [k |-> r.k, s |-> "", ck |-> r.ck], [tok |-> r.tok])
    [] r.k = "CreateService" ->
         IF s.v >= 17
         THEN Ask(s, [k |-> "CreateService2", s |-> "", ock |-> r.ock, u |-> r.u,
                      info |-> [ok |-> TRUE, v |-> r.ver, ty |-> r.ty,
                                sa |-> IF s.v >= 18 THEN "yes" ELSE "none"]],
                  [tok |-> r.tok])
         ELSE Ask(s, [k |-> r.k, s |-> "", ock |-> r.ock, u |-> r.u, v |-> r.ver], [tok |-> r.tok])
    [] r.k = "DestroyService" ->
         Ask(s, [k |-> r.k, s |-> "", ck |-> r.ck], [tok |-> r.tok, ck |-> r.ck])
    [] r.k = "CallFunction" ->
         LET d == [tok |-> r.tok, v |-> r.v] IN
         IF s.v >= 19
         THEN Ask(s, [k |-> "CallFunction2", s |-> "", ck |-> r.ck, f |-> r.f, v |-> r.ver,
                      p |-> r.v], d)
         ELSE Ask(s, [k |-> r.k, s |-> "", ck |-> r.ck, f |-> r.f, p |-> r.v], d)
    [] r.k = "CallFunctionReply" ->
         Tell([s EXCEPT !.ab = @ \ {r.s}], [k |-> r.k, s |-> r.s, r |-> r.r, p |-> r.p])
    [] r.k = "EmitEvent" ->
         IF r.ck \in DOMAIN s.bsub /\ ({r.ev, "*"} \cap s.bsub[r.ck] # {})
         THEN Tell(s, [k |-> r.k, ck |-> r.ck, ev |-> r.ev, p |-> r.v])
         ELSE s
    [] r.k = "CreateClaimedSender" ->
         Ask(s, [k |-> "CreateChannel", s |-> "", end |-> "S", cap |-> Cap(0)],
             [tok |-> r.tok, end |-> "S", cap |-> 0])
    [] r.k = "CreateClaimedReceiver" ->
         Ask(s, [k |-> "CreateChannel", s |-> "", end |-> "R", cap |-> Cap(r.cap)],
             [tok |-> r.tok, end |-> "R", cap |-> r.cap])
    [] r.k = "CloseChannelEnd" ->
         Ask(s, [k |-> r.k, s |-> "", ck |-> r.ck, end |-> r.end],
             [tok |-> r.tok, ck |-> r.ck, end |-> r.end])
    [] r.k = "ClaimSender" ->
         Ask(s, [k |-> "ClaimChannelEnd", s |-> "", ck |-> r.ck, end |-> "S", cap |-> Cap(0)],
             [tok |-> r.tok, ck |-> r.ck, end |-> "S", cap |-> 0])
    [] r.k = "ClaimReceiver" ->
         Ask(s, [k |-> "ClaimChannelEnd", s |-> "", ck |-> r.ck, end |-> "R", cap |-> Cap(r.cap)],
             [tok |-> r.tok, ck |-> r.ck, end |-> "R", cap |-> r.cap])
    [] r.k = "SendItem" -> Tell(s, [k |-> r.k, ck |-> r.ck, p |-> r.v])
    [] r.k = "AddChannelCapacity" -> Tell(s, [k |-> r.k, ck |-> r.ck, cap |-> Cap(r.cap)])
    [] r.k = "SyncClient" -> Deliver(s, r.tok, Plain("ok"))
    [] r.k = "SyncBroker" -> Ask(s, [k |-> "Sync", s |-> ""], [tok |-> r.tok])
    [] r.k = "CreateBusListener" -> Ask(s, [k |-> r.k, s |-> ""], [tok |-> r.tok])
    [] r.k = "DestroyBusListener" ->
         Ask(s, [k |-> r.k, s |-> "", ck |-> r.ck], [tok |-> r.tok, ck |-> r.ck])
    [] r.k = "AddBusListenerFilter" ->
         IF r.ck \notin DOMAIN s.bl \/ ~s.bl[r.ck].known THEN s
         ELSE [Tell(s, [k |-> r.k, ck |-> r.ck, flt |-> r.flt])
               EXCEPT !.bl[r.ck].flt = @ \cup {r.flt}]
    [] r.k = "RemoveBusListenerFilter" ->
         IF r.ck \notin DOMAIN s.bl \/ ~s.bl[r.ck].known THEN s
         ELSE [Tell(s, [k |-> r.k, ck |-> r.ck, flt |-> r.flt])
               EXCEPT !.bl[r.ck].flt = @ \ {r.flt}]
    [] r.k = "ClearBusListenerFilters" ->
         IF r.ck \notin DOMAIN s.bl \/ ~s.bl[r.ck].known THEN s
         ELSE [Tell(s, [k |-> r.k, ck |-> r.ck]) EXCEPT !.bl[r.ck].flt = {}]
    [] r.k = "StartBusListener" ->
         Ask(s, [k |-> r.k, s |-> "", ck |-> r.ck, scope |-> r.scope],
             [tok |-> r.tok, ck |-> r.ck, scope |-> r.scope])
    [] r.k = "StopBusListener" ->
         Ask(s, [k |-> r.k, s |-> "", ck |-> r.ck], [tok |-> r.tok, ck |-> r.ck])
    [] r.k = "GetProtocolVersion" ->
         Deliver(s, r.tok, Outcome([R0 EXCEPT !.v = s.v], <<>>, <<>>))
    [] r.k = "CreateProxy" ->
         Ask(s, [k |-> IF s.v >= 17 THEN "QueryServiceInfo" ELSE "QueryServiceVersion",
                 s |-> "", ck |-> r.ck],
             [tok |-> r.tok, ck |-> r.ck])
    [] r.k = "DestroyProxy" ->
         IF ~s.px[r.id].in THEN s
         ELSE LET p == s.px[r.id]
                  s1 == [s EXCEPT !.px[r.id].in = FALSE]
                  last == InProxies(s1, p.ck) = {}
                  s2 == IF last /\ s.v >= 18
                        THEN Tell(s1, [k |-> "UnsubscribeService", ck |-> p.ck]) ELSE s1
                  s3 == TellAll(s2, {[k |-> "UnsubscribeEvent", ck |-> p.ck, ev |-> e] :
                                       e \in {e \in p.evs : ~AnySub(s1, p.ck, e, {})}})
              IN IF p.all /\ ~AnyAll(s1, p.ck, {})
                 THEN Tell(s3, [k |-> "UnsubscribeAllEvents", s |-> "-1", ck |-> p.ck])
                 ELSE s3
    [] r.k = "SubscribeEvent" ->
         LET p == s.px[r.id] IN
         IF ~p.in THEN Deliver(s, r.tok, Plain("InvalidService"))
         ELSE LET s1 == [s EXCEPT !.px[r.id].evs = @ \cup {r.ev}] IN
              IF r.ev \in p.evs \/ AnySub(s, p.ck, r.ev, {r.id})
              THEN Deliver(s1, r.tok, Plain("ok"))
              ELSE Ask(s1, [k |-> r.k, s |-> "", ck |-> p.ck, ev |-> r.ev], [tok |-> r.tok])
    [] r.k = "UnsubscribeEvent" ->
         LET p == s.px[r.id] IN
         IF ~p.in THEN Deliver(s, r.tok, Plain("InvalidService"))
         ELSE LET s1 == [s EXCEPT !.px[r.id].evs = @ \ {r.ev}]
                  s2 == IF r.ev \in p.evs /\ ~AnySub(s1, p.ck, r.ev, {})
                        THEN Tell(s1, [k |-> r.k, ck |-> p.ck, ev |-> r.ev]) ELSE s1
              IN Deliver(s2, r.tok, Plain("ok"))
    [] r.k = "SubscribeAllEvents" ->
         LET p == s.px[r.id] IN
         IF s.v < 18 THEN Deliver(s, r.tok, Plain("NotSupported"))
         ELSE IF ~p.in THEN Deliver(s, r.tok, Plain("InvalidService"))
         ELSE LET s1 == [s EXCEPT !.px[r.id].all = TRUE] IN
              IF p.all \/ AnyAll(s, p.ck, {r.id})
              THEN Deliver(s1, r.tok, Plain("ok"))
              ELSE Ask(s1, [k |-> r.k, s |-> "", ck |-> p.ck], [tok |-> r.tok])
    [] r.k = "UnsubscribeAllEvents" ->
         LET p == s.px[r.id] IN
         IF ~p.in THEN Deliver(s, r.tok, Plain("InvalidService"))
         ELSE LET s1 == [s EXCEPT !.px[r.id] = [@ EXCEPT !.evs = {}, !.all = FALSE]]
                  s2 == TellAll(s1, {[k |-> "UnsubscribeEvent", ck |-> p.ck, ev |-> e] :
                                       e \in {e \in p.evs : ~AnySub(s1, p.ck, e, {})}})
              IN IF p.all /\ ~AnyAll(s1, p.ck, {})
                 THEN Ask(s2, [k |-> r.k, s |-> "", ck |-> p.ck], [tok |-> r.tok])
                 ELSE Deliver(s2, r.tok, Plain("ok"))
    [] r.k = "RegisterIntrospection" -> [s EXCEPT !.intro = @ \cup IntroRefs(r.ty)]
    [] r.k = "SubmitIntrospection" ->
         IF s.v >= 17 /\ s.intro # {}
         THEN [s EXCEPT !.out = Append(@, [x |-> "types", ts |-> s.intro])]
         ELSE s
    [] r.k = "QueryIntrospection" ->
         IF r.ty \in s.intro THEN Deliver(s, r.tok, Outcome([R0 EXCEPT !.ty = r.ty], <<>>, <<>>))
         ELSE IF s.v >= 17
         THEN Ask(s, [k |-> r.k, s |-> "", ty |-> r.ty], [tok |-> r.tok, ty |-> r.ty])
         ELSE Deliver(s, r.tok, Plain("none"))
    [] OTHER -> Bad(s, "request " \o r.k)

\* Nothing that belongs to the application keeps the client alive.
Abandoned(s) ==
  /\ s.gone
  /\ \A e \in DOMAIN s.ent : s.ent[e].k = "reply"
  /\ \A o \in DOMAIN s.ops : s.ops[o].k = "awaitreply"

\* Requests that the broker fulfils anyway once the client is gone.
Cleanup(s) ==
  {r \in Range(s.q) :
     /\ r.k \in {"DestroyObject", "DestroyService", "DestroyProxy", "DestroyBusListener",
                 "CloseChannelEnd"}
     /\ r.tok = 0}

\* The client takes the next request out of its queue.
Handle(s, k) ==
  CASE s.failed \/ s.mode # "run" -> Bad(s, "handles a request although it is about to end")
    [] k = "Drain" -> Bad(s, "stops")
    [] s.q = <<>> -> Bad(s, "handles a request that was never made: " \o k)
    [] Head(s.q).k # k -> Bad(s, "handles " \o k \o " instead of " \o Head(s.q).k)
    [] OTHER -> Handle0([s EXCEPT !.q = Tail(@)], Head(s.q))

\* The client stops handling requests.
Drain(s) ==
  LET go(w) == [s EXCEPT !.mode = "drain", !.wait = w,
                         !.out = Append(@, [x |-> "tell", m |-> [k |-> "Shutdown"]])]
  IN CASE s.failed -> Bad(s, "goes on after an error")
       [] s.mode = "end" -> go(FALSE)
       [] s.mode = "run" /\ s.q # <<>> /\ Head(s.q).k = "Shutdown" ->
            [go(TRUE) EXCEPT !.q = Tail(@)]
       [] s.mode = "run" /\ Range(s.q) \subseteq Cleanup(s) /\ Abandoned(s) -> go(TRUE)
       [] OTHER -> Bad(s, "stops for no reason")

(***************************************************************************)
(* Sending.                                                                *)
(***************************************************************************)

Send(s, m) ==
  CASE s.mode = "dead" \/ s.failed -> Bad(s, "sends after its end")
    [] m.k = "AbortFunctionCall" ->
         IF s.v >= 16 /\ m.s \in s.aborts /\ ~s.sent
         THEN [s EXCEPT !.aborts = @ \ {m.s},
                        !.pend = IF <<"CallFunction", m.s>> \in DOMAIN @
                                 THEN [@ EXCEPT ![<<"CallFunction", m.s>>].aborted = TRUE] ELSE @]
         ELSE Bad(s, "aborts a call for no reason")
    [] s.out = <<>> -> Bad(s, "sends what nobody asked for")
    [] OTHER ->
         LET o == Head(s.out)
             rest == [s EXCEPT !.out = Tail(@)]
         IN CASE o.x = "tell" ->
                   IF m.k # o.m.k THEN Bad(s, "sends the wrong message, expected " \o o.m.k)
                   ELSE IF m.k = "CallFunctionReply"
                        THEN IF /\ m.s = o.m.s /\ m.r = o.m.r
                                /\ m.r \in {"Ok", "Err"} => m.p = o.m.p
                             THEN rest ELSE Bad(s, "sends the wrong reply")
                   ELSE IF m.k = "QueryIntrospectionReply"
                        THEN IF m.s = o.m.s /\ m.r = o.m.r THEN rest
                             ELSE Bad(s, "sends the wrong reply")
                   ELSE IF m.k = "Shutdown" THEN [rest EXCEPT !.sent = TRUE]
                   ELSE IF m = o.m THEN rest
                   ELSE Bad(s, "sends the wrong " \o m.k)
              [] o.x = "ask" ->
                   LET key == <<SerialKind(m.k), m.s>> IN
                   IF m.k # o.m.k THEN Bad(s, "sends the wrong message, expected " \o o.m.k)
                   ELSE IF [m EXCEPT !.s = ""] # o.m THEN Bad(s, "sends the wrong " \o m.k)
                   ELSE IF key \in DOMAIN s.pend THEN Bad(s, "uses a serial twice")
                   ELSE IF SerialKind(m.k) = "CallFunction"
                        THEN [rest EXCEPT
                               !.pend = With(@, key, o.d @@ [aborted |-> FALSE]),
                               !.aborts = IF o.d.tok \in s.lost THEN @ \cup {m.s} ELSE @]
                   ELSE [rest EXCEPT !.pend = With(@, key, o.d)]
              [] o.x = "any" ->
                   IF m \in o.ms
                   THEN IF o.ms = {m} THEN rest ELSE [s EXCEPT !.out[1].ms = @ \ {m}]
                   ELSE Bad(s, "sends the wrong message, expected one of several")
              [] o.x = "types" ->
                   IF m.k = "RegisterIntrospection" /\ m.ok /\ Range(m.types) = o.ts
                      /\ Len(m.types) = Cardinality(o.ts)
                   THEN rest ELSE Bad(s, "registers the wrong types")

(***************************************************************************)
(* Receiving.                                                              *)
(***************************************************************************)

\* A channel end's state at the client goes away.
DropEnd(s, end, ck) ==
  LET key == <<end, ck>> IN
  [s EXCEPT !.ch[end] = Without(@, ck),
            !.cell = IF key \in DOMAIN @
                     THEN [@ EXCEPT ![key].st = IF @ = "wait" THEN "gone" ELSE @,
                                    ![key].term = TRUE]
                     ELSE @]

\* Adds to the queue of a bus listener, for each of the states its owner may be in.
BusPut(s, ck, e) ==
  IF s.bl[ck].rx
  THEN [s EXCEPT !.bl[ck].alts = {[a EXCEPT !.q = Append(@, e)] : a \in @}]
  ELSE s

FltMatches(f, m) ==
  CASE f.t = "O" -> m.be \in {"OC", "OD"} /\ f.o \in {0, m.ou}
    [] OTHER -> m.be \in {"SC", "SD"} /\ f.o \in {0, m.ou} /\ f.s \in {0, m.su}

BusEvent(m) ==
  [be |-> m.be, id |-> IF m.be \in {"OC", "OD"} THEN <<m.ou, m.ock>>
                       ELSE <<m.ou, m.ock, m.su, m.sck>>]

Includes(scope, what) == scope = "All" \/ scope = what

NewBus(s, ck, kind) ==
  [s EXCEPT !.bl = With(@, ck,
     [known |-> TRUE, scope |-> "", cf |-> FALSE, flt |-> {}, rx |-> TRUE, closed |-> FALSE,
      alts |-> {[ps |-> 0, pst |-> 0, pcf |-> 0, scope |-> "", term |-> FALSE, q |-> <<>>]}])]

FinishProxy(s, d, ok, ver, ty, sa) ==
  IF ~ok THEN Deliver(s, d.tok, Plain("InvalidService"))
  ELSE LET id == d.tok
           first == InProxies(s, d.ck) = {}
           s1 == [s EXCEPT !.px = With(@, id, [ck |-> d.ck, evs |-> {}, all |-> FALSE,
                                               in |-> TRUE, q |-> <<>>, rx |-> TRUE])]
           s2 == Deliver(s1, d.tok,
                   Outcome([R0 EXCEPT !.ck = d.ck, !.ver = ver, !.ty = ty,
                                      !.sa = IF sa = "yes" THEN "yes" ELSE "no"],
                           <<[k |-> "px", id |-> id, sa |-> sa = "yes"]>>,
                           <<[k |-> "DestroyProxy", id |-> id, tok |-> 0]>>))
       IN IF first /\ s.v >= 18
          THEN Ask(s2, [k |-> "SubscribeService", s |-> "", ck |-> d.ck], [tok |-> 0, ck |-> d.ck])
          ELSE s2

RemoveService(s, ck) ==
  [s EXCEPT !.px = [p \in DOMAIN @ |-> IF @[p].ck = ck THEN [@[p] EXCEPT !.in = FALSE] ELSE @[p]]]

ReplyKinds ==
  {"CreateObjectReply", "DestroyObjectReply", "CreateServiceReply", "DestroyServiceReply",
   "CallFunctionReply", "CreateChannelReply", "CloseChannelEndReply", "ClaimChannelEndReply",
   "SyncReply", "CreateBusListenerReply", "DestroyBusListenerReply", "StartBusListenerReply",
   "StopBusListenerReply", "QueryIntrospectionReply", "QueryServiceInfoReply",
   "QueryServiceVersionReply", "SubscribeEventReply", "SubscribeServiceReply",
   "SubscribeAllEventsReply", "UnsubscribeAllEventsReply"}

RequestOf == [k \in ReplyKinds |->
  CASE k = "CreateObjectReply" -> "CreateObject"
    [] k = "DestroyObjectReply" -> "DestroyObject"
    [] k = "CreateServiceReply" -> "CreateService"
    [] k = "DestroyServiceReply" -> "DestroyService"
    [] k = "CallFunctionReply" -> "CallFunction"
    [] k = "CreateChannelReply" -> "CreateChannel"
    [] k = "CloseChannelEndReply" -> "CloseChannelEnd"
    [] k = "ClaimChannelEndReply" -> "ClaimChannelEnd"
    [] k = "SyncReply" -> "Sync"
    [] k = "CreateBusListenerReply" -> "CreateBusListener"
    [] k = "DestroyBusListenerReply" -> "DestroyBusListener"
    [] k = "StartBusListenerReply" -> "StartBusListener"
    [] k = "StopBusListenerReply" -> "StopBusListener"
    [] k = "QueryIntrospectionReply" -> "QueryIntrospection"
    [] k = "QueryServiceInfoReply" -> "QueryServiceInfo"
    [] k = "QueryServiceVersionReply" -> "QueryServiceVersion"
    [] k = "SubscribeEventReply" -> "SubscribeEvent"
    [] k = "SubscribeServiceReply" -> "SubscribeService"
    [] k = "SubscribeAllEventsReply" -> "SubscribeAllEvents"
    [] OTHER -> "UnsubscribeAllEvents"]

\* A reply m to the request remembered as d.
Reply(s, m, d) ==
  LET del(r) == Deliver(s, d.tok, Plain(r)) IN
  CASE m.k = "CreateObjectReply" ->
         IF m.r = "Ok"
         THEN Deliver(s, d.tok, Outcome([R0 EXCEPT !.ck = m.ck], <<[k |-> "obj", ck |-> m.ck]>>,
                                        <<[k |-> "DestroyObject", tok |-> 0, ck |-> m.ck]>>))
         ELSE IF m.r = "DuplicateObject" THEN del(m.r) ELSE Bad(s, "bad reply")
    [] m.k = "DestroyObjectReply" ->
         IF m.r = "Ok" THEN del("ok")
         ELSE IF m.r = "InvalidObject" THEN del(m.r) ELSE Bad(s, "bad reply")
    [] m.k = "CreateServiceReply" ->
         IF m.r = "Ok"
         THEN Deliver([s EXCEPT !.svc = With(@, m.ck, [calls |-> <<>>, open |-> TRUE, rx |-> TRUE])],
                      d.tok, Outcome([R0 EXCEPT !.ck = m.ck], <<[k |-> "svc", ck |-> m.ck]>>,
                                     <<[k |-> "DestroyService", tok |-> 0, ck |-> m.ck]>>))
         ELSE IF m.r \in {"DuplicateService", "InvalidObject"} THEN del(m.r)
         ELSE Bad(s, "bad reply")
    [] m.k = "DestroyServiceReply" ->
         IF m.r = "Ok"
         THEN IF d.ck \in DOMAIN s.svc /\ s.svc[d.ck].open
              THEN Deliver([s EXCEPT !.svc[d.ck].open = FALSE, !.bsub = Without(@, d.ck)],
                           d.tok, Plain("ok"))
              ELSE Bad(s, "an unknown service was destroyed")
         ELSE IF m.r = "InvalidService" THEN del(m.r) ELSE Bad(s, "bad reply")
    [] m.k = "CallFunctionReply" ->
         LET o == CASE m.r \in {"Ok", "Err"} ->
                         Outcome([R0 EXCEPT !.r = IF m.r = "Ok" THEN "ok" ELSE "err", !.v = m.p],
                                 <<>>, <<>>)
                    [] m.r = "Aborted" -> Plain("CallAborted")
                    [] m.r = "InvalidArgs" -> Plain("InvalidArguments")
                    [] OTHER -> Plain(m.r)
         IN IF m.r \in {"Ok", "Err"} /\ m.p # d.v + 1000000
            THEN Bad(s, "reply to another call")
            ELSE Deliver(s, d.tok, o)
    [] m.k = "CreateChannelReply" ->
         LET other == IF d.end = "S" THEN "UR" ELSE "US"
             s1 == [s EXCEPT !.ch[d.end] = With(@, m.ck, "P"),
                             !.cell = With(@, <<d.end, m.ck>>,
                                           [st |-> "wait", cap |-> 0, cur |-> d.cap, max |-> d.cap,
                                            items |-> <<>>, term |-> FALSE])]
         IN IF m.ck \in DOMAIN s.ch[d.end] THEN Bad(s, "channel exists already")
            ELSE Deliver(s1, d.tok,
                   Outcome([R0 EXCEPT !.ck = m.ck],
                     <<[k |-> "P" \o d.end, end |-> d.end, ck |-> m.ck, st |-> "open", ct |-> 0],
                       [k |-> other, end |-> IF d.end = "S" THEN "R" ELSE "S", ck |-> m.ck,
                        st |-> "open", ct |-> 0]>>,
                     <<[k |-> "CloseChannelEnd", tok |-> 0, ck |-> m.ck, end |-> "S"],
                       [k |-> "CloseChannelEnd", tok |-> 0, ck |-> m.ck, end |-> "R"]>>))
    [] m.k = "CloseChannelEndReply" ->
         IF m.r = "Ok" THEN Deliver(DropEnd(s, d.end, d.ck), d.tok, Plain("ok"))
         ELSE Deliver(s, d.tok, Plain("InvalidChannel"))
    [] m.k = "ClaimChannelEndReply" ->
         IF m.r \in {"InvalidChannel", "AlreadyClaimed"} THEN del("InvalidChannel")
         ELSE IF m.r # (IF d.end = "S" THEN "SenderClaimed" ELSE "ReceiverClaimed")
         THEN Bad(s, "the wrong end was claimed")
         ELSE IF d.ck \in DOMAIN s.ch[d.end] THEN Bad(s, "channel end claimed twice")
         ELSE LET cap == IF d.end = "S" THEN m.cap[2] ELSE 0
                  s1 == [s EXCEPT !.ch[d.end] = With(@, d.ck, "E")]
                  s2 == IF d.tok \in s.lost THEN s1
                        ELSE [s1 EXCEPT !.cell = With(@, <<d.end, d.ck>>,
                                [st |-> "ok", cap |-> cap, cur |-> d.cap, max |-> d.cap,
                                 items |-> <<>>, term |-> FALSE])]
              IN Deliver(s2, d.tok,
                   Outcome(R0, <<[k |-> d.end, end |-> d.end, ck |-> d.ck, st |-> "open",
                                  ct |-> 0]>>, <<>>))
    [] m.k = "SyncReply" -> del("ok")
    [] m.k = "CreateBusListenerReply" ->
         Deliver(NewBus(s, m.ck, "bus"), d.tok,
                 Outcome(R0, <<[k |-> "bus", ck |-> m.ck, flt |-> {}]>>,
                         <<[k |-> "DestroyBusListener", tok |-> 0, ck |-> m.ck]>>))
    [] m.k = "DestroyBusListenerReply" ->
         IF m.r = "Ok"
         THEN IF s.bl[d.ck].known
              THEN Deliver([s EXCEPT !.bl[d.ck].known = FALSE], d.tok, Plain("ok"))
              ELSE Bad(s, "an unknown listener was destroyed")
         ELSE del("InvalidBusListener")
    [] m.k = "StartBusListenerReply" ->
         IF m.r = "Ok"
         THEN IF ~s.bl[d.ck].known \/ s.bl[d.ck].scope # ""
              THEN Bad(s, "a listener was started that must not")
              ELSE Deliver(BusPut([s EXCEPT !.bl[d.ck].scope = d.scope,
                                            !.bl[d.ck].cf = ~Includes(d.scope, "Current")],
                                  d.ck, [x |-> "started", scope |-> d.scope]),
                           d.tok, Plain("ok"))
         ELSE del(IF m.r = "AlreadyStarted" THEN "BusListenerAlreadyStarted" ELSE m.r)
    [] m.k = "StopBusListenerReply" ->
         IF m.r = "Ok"
         THEN IF ~s.bl[d.ck].known \/ s.bl[d.ck].scope = ""
              THEN Bad(s, "a listener was stopped that must not")
              ELSE Deliver(BusPut([s EXCEPT !.bl[d.ck].scope = ""], d.ck, [x |-> "stopped"]),
                           d.tok, Plain("ok"))
         ELSE del(IF m.r = "NotStarted" THEN "BusListenerNotStarted" ELSE m.r)
    [] m.k = "QueryIntrospectionReply" ->
         IF s.v < 17 THEN Bad(s, "not supported")
         ELSE IF m.r = "Ok"
         THEN Deliver(s, d.tok, Outcome([R0 EXCEPT !.ty = d.ty], <<>>, <<>>))
         ELSE del("none")
    [] m.k = "QueryServiceInfoReply" ->
         IF s.v < 17 THEN Bad(s, "not supported")
         ELSE FinishProxy(s, d, m.r = "Ok", m.info.v, m.info.ty, m.info.sa)
    [] m.k = "QueryServiceVersionReply" ->
         IF s.v >= 17 THEN Bad(s, "not supported")
         ELSE FinishProxy(s, d, m.r = "Ok", m.v, 0, "none")
    [] m.k = "SubscribeEventReply" -> del(IF m.r = "Ok" THEN "ok" ELSE m.r)
    [] m.k = "SubscribeServiceReply" ->
         IF m.r = "InvalidService" THEN RemoveService(s, d.ck) ELSE s
    [] m.k \in {"SubscribeAllEventsReply", "UnsubscribeAllEventsReply"} ->
         IF m.r = "NotSupported" THEN Bad(s, "not supported")
         ELSE del(IF m.r = "Ok" THEN "ok" ELSE m.r)

Call(s, m, ver) ==
  IF m.ck \notin DOMAIN s.svc \/ ~s.svc[m.ck].open THEN Bad(s, "call to an unknown service")
  ELSE IF s.svc[m.ck].rx
  THEN IF m.s \in s.ab THEN Bad(s, "serial of a call in use")
       ELSE [s EXCEPT !.svc[m.ck].calls = Append(@, [s |-> m.s, f |-> m.f, ver |-> ver, v |-> m.p]),
                      !.ab = @ \cup {m.s}]
  ELSE Tell(s, [k |-> "CallFunctionReply", s |-> m.s, r |-> "InvalidService", p |-> 0])

Sub(s, ck, x) ==
  [s EXCEPT !.bsub = With(@, ck, (IF ck \in DOMAIN @ THEN @[ck] ELSE {}) \cup {x})]
Unsub(s, ck, x) == IF ck \in DOMAIN s.bsub THEN [s EXCEPT !.bsub[ck] = @ \ {x}] ELSE s

Receive0(s, m) ==
  CASE m.k \in ReplyKinds ->
         LET key == <<RequestOf[m.k], m.s>> IN
         IF key \notin DOMAIN s.pend THEN Bad(s, "reply to nothing")
         ELSE Reply([s EXCEPT !.pend = Without(@, key)], m, s.pend[key])
    [] m.k = "CallFunction" -> Call(s, m, "-1")
    [] m.k = "CallFunction2" -> IF s.v >= 19 THEN Call(s, m, m.v) ELSE Bad(s, "not supported")
    [] m.k = "SubscribeEvent" -> Sub(s, m.ck, m.ev)
    [] m.k = "UnsubscribeEvent" -> Unsub(s, m.ck, m.ev)
    [] m.k = "SubscribeAllEvents" ->
         IF s.v >= 18 /\ m.s = "-1" THEN Sub(s, m.ck, "*") ELSE Bad(s, "not supported")
    [] m.k = "UnsubscribeAllEvents" ->
         IF s.v >= 18 /\ m.s = "-1" THEN Unsub(s, m.ck, "*") ELSE Bad(s, "not supported")
    [] m.k = "EmitEvent" ->
         LET P == {p \in InProxies(s, m.ck) : s.px[p].rx /\ (s.px[p].all \/ m.ev \in s.px[p].evs)}
         IN [s EXCEPT !.px = [p \in DOMAIN @ |->
               IF p \in P THEN [@[p] EXCEPT !.q = Append(@, [ev |-> m.ev, v |-> m.p])] ELSE @[p]]]
    [] m.k = "ServiceDestroyed" -> RemoveService(s, m.ck)
    [] m.k = "AbortFunctionCall" ->
         IF s.v >= 16 THEN [s EXCEPT !.ab = @ \ {m.s}] ELSE Bad(s, "not supported")
    [] m.k = "ChannelEndClosed" ->
         LET end == IF m.end = "S" THEN "R" ELSE "S"
             key == <<end, m.ck>>
         IN IF m.ck \notin DOMAIN s.ch[end] \/ s.ch[end][m.ck] = "C"
            THEN Bad(s, "end of an unknown channel closed")
            ELSE [s EXCEPT
                   !.ch[end][m.ck] = "C",
                   !.cell = IF key \in DOMAIN @
                            THEN [@ EXCEPT ![key].st = IF @ = "wait" THEN "bad" ELSE @,
                                           ![key].term = TRUE]
                            ELSE @]
    [] m.k = "ChannelEndClaimed" ->
         LET end == IF m.end = "S" THEN "R" ELSE "S"
             key == <<end, m.ck>>
         IN IF m.ck \notin DOMAIN s.ch[end] \/ s.ch[end][m.ck] # "P"
            THEN Bad(s, "end of a channel claimed that is not pending")
            ELSE [s EXCEPT
                   !.ch[end][m.ck] = "E",
                   !.cell = IF key \in DOMAIN @ /\ @[key].st = "wait"
                            THEN [@ EXCEPT ![key].st = "ok", ![key].cap = m.cap[2]]
                            ELSE @]
    [] m.k = "ItemReceived" ->
         LET key == <<"R", m.ck>> IN
         IF m.ck \notin DOMAIN s.ch.R \/ s.ch.R[m.ck] # "E"
         THEN Bad(s, "item for a channel that is not established")
         ELSE IF key \in DOMAIN s.cell /\ ~s.cell[key].term
         THEN [s EXCEPT !.cell[key].items = Append(@, m.p)] ELSE s
    [] m.k = "AddChannelCapacity" ->
         LET key == <<"S", m.ck>> IN
         IF m.ck \notin DOMAIN s.ch.S \/ s.ch.S[m.ck] # "E"
         THEN Bad(s, "capacity for a channel that is not established")
         ELSE IF key \in DOMAIN s.cell /\ ~s.cell[key].term
         THEN [s EXCEPT !.cell[key].cap = @ + m.cap[2]] ELSE s
    [] m.k = "EmitBusEvent" ->
         IF m.ck # 0
         THEN IF m.ck \notin DOMAIN s.bl \/ ~s.bl[m.ck].known
                 \/ ~Includes(s.bl[m.ck].scope, "Current") \/ s.bl[m.ck].cf
              THEN Bad(s, "unexpected bus event")
              ELSE BusPut(s, m.ck, [x |-> "event", be |-> BusEvent(m)])
         ELSE [s EXCEPT !.bl = [b \in DOMAIN @ |->
                 IF /\ @[b].known /\ @[b].rx /\ Includes(@[b].scope, "New")
                    /\ \E f \in @[b].flt : FltMatches(f, m)
                 THEN [@[b] EXCEPT !.alts = {[a EXCEPT !.q = Append(@, [x |-> "event",
                                                                       be |-> BusEvent(m)])]
                                             : a \in @}]
                 ELSE @[b]]]
    [] m.k = "BusListenerCurrentFinished" ->
         IF m.ck \notin DOMAIN s.bl \/ ~s.bl[m.ck].known \/ s.bl[m.ck].cf
         THEN Bad(s, "unexpected end of current bus events")
         ELSE BusPut([s EXCEPT !.bl[m.ck].cf = TRUE], m.ck, [x |-> "finished"])
    [] m.k = "QueryIntrospection" ->
         IF s.v < 17 THEN Bad(s, "not supported")
         ELSE Tell(s, [k |-> "QueryIntrospectionReply", s |-> m.s, p |-> 0,
                       r |-> IF m.ty \in s.intro THEN "Ok" ELSE "Unavailable"])
    [] OTHER -> Bad(s, "message that no client expects: " \o m.k)

Receive(s, m) ==
  CASE s.failed \/ s.mode \in {"dead", "end"} -> Bad(s, "receives after its end")
    [] s.mode = "drain" -> IF m.k = "Shutdown" THEN [s EXCEPT !.wait = FALSE] ELSE s
    [] m.k = "Shutdown" -> [s EXCEPT !.mode = "end"]
    [] OTHER -> Receive0(s, m)

\* The transport fails.
Fail(s) == IF s.failed \/ s.mode = "dead" THEN Bad(s, "uses its transport after an error")
           ELSE [s EXCEPT !.failed = TRUE]

\* The client is done; r is what it returns.
End(s, r) ==
  LET s1 == [s EXCEPT
              !.mode = "dead", !.q = <<>>, !.out = <<>>, !.pend = EMPTY, !.lost = {}, !.ab = {},
              !.bsub = EMPTY, !.aborts = {},
              !.svc = [k \in DOMAIN @ |-> [@[k] EXCEPT !.open = FALSE]],
              !.px = [k \in DOMAIN @ |-> [@[k] EXCEPT !.in = FALSE]],
              !.cell = [k \in DOMAIN @ |->
                          [@[k] EXCEPT !.term = TRUE, !.st = IF @ = "wait" THEN "gone" ELSE @]],
              !.bl = [k \in DOMAIN @ |-> [@[k] EXCEPT !.known = FALSE]],
              !.ch = [S |-> EMPTY, R |-> EMPTY]]
  IN CASE s.mode = "dead" -> Bad(s, "ends twice")
       [] r = "ok" ->
            IF s.mode = "drain" /\ ~s.wait /\ s.out = <<>> /\ ~s.failed THEN s1
            ELSE Bad(s, "ends although it is not done")
       [] r = "transport" -> IF s.failed THEN s1 ELSE Bad(s, "ends with an error for no reason")
       [] OTHER -> Bad(s, "ends with an error: " \o r)

(***************************************************************************)
(* Operations.                                                             *)
(***************************************************************************)

\* Operation o is started and makes request r.
Op(s, o, r) == [s EXCEPT !.ops = With(@, o.op, o)]
Ask1(s, o, r) ==
  LET s1 == [s EXCEPT !.ops = With(@, o.op, [k |-> o.k, op |-> o.op, tok |-> o.op])] IN
  IF s.mode = "dead" THEN [s1 EXCEPT !.exp = With(@, o.op, Plain("Shutdown"))]
  ELSE Enq(s1, <<r>>)
\* One that is over at once.
Now(s, o, r) == [s EXCEPT !.ops = With(@, o.op, [k |-> o.k, op |-> o.op, tok |-> o.op]),
                          !.exp = With(@, o.op, r)]
\* One that makes a request and doesn't wait for anything.
NowReq(s, o, r) ==
  Now(Enq(s, <<r>>), o, IF s.mode = "dead" THEN Plain("Shutdown") ELSE Plain("ok"))
\* One that waits for something to happen to entity e.
Wait(s, o) == [s EXCEPT !.ops = With(@, o.op, [k |-> o.k, op |-> o.op, e |-> o.e])]

CapMin(c) == IF c[2] = 0 /\ c[1] = 0 THEN 1 ELSE c[2]

CloseReq(tok, e) == [k |-> "CloseChannelEnd", tok |-> tok, ck |-> e.ck, end |-> e.end]

\* The application gives up an entity.
DropEnt(s, id) ==
  LET e == s.ent[id]
      s1 == [s EXCEPT !.ent = Without(@, id)]
  IN CASE e.k = "obj" -> Enq(s1, <<[k |-> "DestroyObject", tok |-> 0, ck |-> e.ck]>>)
       [] e.k = "svc" -> DropAll(s1, <<[k |-> "DestroyService", tok |-> 0, ck |-> e.ck]>>)
       [] e.k = "px" -> DropAll(s1, <<[k |-> "DestroyProxy", tok |-> 0, id |-> e.id]>>)
       [] e.k = "reply" ->
            \* The call is aborted if it is still unanswered.
            LET open == {key \in DOMAIN s.pend : key[1] = "CallFunction" /\ s.pend[key].tok = id}
            IN [Lose(s1, id) EXCEPT !.aborts = @ \cup {key[2] : key \in open}]
       [] e.k = "prom" ->
            Enq(s1, <<[k |-> "CallFunctionReply", s |-> e.s, r |-> e.drop, p |-> 0]>>)
       [] e.k = "bus" -> DropAll(s1, <<[k |-> "DestroyBusListener", tok |-> 0, ck |-> e.ck]>>)
       [] e.k \in {"US", "UR"} -> IF e.st = "open" THEN Enq(s1, <<CloseReq(0, e)>>)
                                  ELSE IF e.st = "closing" THEN Lose(s1, e.ct) ELSE s1
       [] OTHER ->
            LET s2 == [s1 EXCEPT !.cell = Without(@, <<e.end, e.ck>>)] IN
            IF e.st = "open" THEN Enq(s2, <<CloseReq(0, e)>>)
            ELSE IF e.st = "closing" THEN Lose(s2, e.ct) ELSE s2

\* An unclaimed or pending channel end is used up by an operation.
Consume(s, o) == [s EXCEPT !.ent = Without(@, o.e)]

Req(s, o) ==
  LET e == s.ent[o.e] IN
  CASE o.k = "createobj" -> Ask1(s, o, [k |-> "CreateObject", tok |-> o.op, u |-> o.u])
    [] o.k = "destroyobj" -> Ask1(s, o, [k |-> "DestroyObject", tok |-> o.op, ck |-> e.ck])
    [] o.k = "createsvc" ->
         Ask1(s, o, [k |-> "CreateService", tok |-> o.op, ock |-> e.ck, u |-> o.u, ver |-> o.ver,
                     ty |-> o.ty])
    [] o.k = "destroysvc" -> Ask1(s, o, [k |-> "DestroyService", tok |-> o.op, ck |-> e.ck])
    \* Values nested too deeply can't be sent.
    [] o.k = "emit" -> IF o.deep THEN Now(s, o, Plain("Serialize")) ELSE NowReq(s, o, [k |-> "EmitEvent", ck |-> e.ck, ev |-> o.ev, v |-> o.v])
    [] o.k = "reply" ->
         LET s1 == [s EXCEPT !.ent = Without(@, o.e)]
             r == [k |-> "CallFunctionReply", s |-> e.s, p |-> o.v,
                   r |-> IF o.deep THEN "Aborted" ELSE IF o.how = "drop" THEN e.drop ELSE o.how]
         IN IF o.deep THEN Now(Enq(s1, <<r>>), o, Plain("Serialize"))
            ELSE IF o.how = "drop" THEN Enq(s1, <<r>>) ELSE NowReq(s1, o, r)
    [] o.k = "isaborted" -> Now(s, o, Plain(IF e.s \in s.ab THEN "no" ELSE "yes"))
    [] o.k \in {"nextcall", "aborted", "nextevent", "awaitreply", "waitest", "send", "rclosed",
                "nextitem", "busnext"} ->
         LET s1 == Wait(s, o) IN
         CASE o.k = "send" -> [s1 EXCEPT !.ops[o.op] = @ @@ [v |-> o.v, deep |-> o.deep]]
           [] o.k = "nextcall" -> [s1 EXCEPT !.ops[o.op] = @ @@ [how |-> o.how]]
           [] o.k \in {"awaitreply", "nextitem"} -> [s1 EXCEPT !.ops[o.op] = @ @@ [bad |-> o.bad]]
           [] OTHER -> s1
    [] o.k = "createproxy" -> Ask1(s, o, [k |-> "CreateProxy", tok |-> o.op, ck |-> o.ck])
    [] o.k = "call" ->
         LET s1 == [s EXCEPT !.ent = With(@, o.op, [k |-> "reply"])] IN
         IF o.deep THEN [s1 EXCEPT !.exp = With(@, o.op, Plain("Serialize"))]
         ELSE IF s.mode = "dead" THEN [s1 EXCEPT !.exp = With(@, o.op, Plain("Shutdown"))]
         ELSE Enq(s1, <<[k |-> "CallFunction", tok |-> o.op, ck |-> s.px[e.id].ck, f |-> o.f,
                         ver |-> o.ver, v |-> o.v]>>)
    [] o.k = "sub" -> Ask1(s, o, [k |-> "SubscribeEvent", tok |-> o.op, id |-> e.id, ev |-> o.ev])
    [] o.k = "unsub" ->
         Ask1(s, o, [k |-> "UnsubscribeEvent", tok |-> o.op, id |-> e.id, ev |-> o.ev])
    [] o.k = "suball" ->
         IF e.sa THEN Ask1(s, o, [k |-> "SubscribeAllEvents", tok |-> o.op, id |-> e.id])
         ELSE Now(s, o, Plain("NotSupported"))
    [] o.k = "unsuball" -> Ask1(s, o, [k |-> "UnsubscribeAllEvents", tok |-> o.op, id |-> e.id])
    [] o.k = "createchan" ->
         Ask1(s, o, IF o.end = "S" THEN [k |-> "CreateClaimedSender", tok |-> o.op]
                    ELSE [k |-> "CreateClaimedReceiver", tok |-> o.op, cap |-> CapMin(o.cap)])
    [] o.k = "unbind" ->
         LET s1 == [s EXCEPT !.ent = Without(@, o.e)] IN
         IF e.st = "closing" THEN Lose(s1, e.ct) ELSE s1
    [] o.k = "bind" ->
         [s EXCEPT !.ent = With(@, o.op, [k |-> "U" \o o.end, end |-> o.end, ck |-> o.ck,
                                          st |-> "open", ct |-> 0])]
    [] o.k = "claim" ->
         LET r == IF e.end = "S" THEN [k |-> "ClaimSender", tok |-> o.op, ck |-> e.ck]
                  ELSE [k |-> "ClaimReceiver", tok |-> o.op, ck |-> e.ck, cap |-> CapMin(o.cap)]
             s1 == Ask1(Consume(s, o), o, r)
         IN [s1 EXCEPT !.ops[o.op] = @ @@ [ce |-> e]]
    [] o.k = "establish" ->
         LET s1 == Consume(s, o) IN
         [s1 EXCEPT !.ops = With(@, o.op, [k |-> o.k, op |-> o.op, ce |-> e])]
    [] o.k = "close" ->
         LET key == <<e.end, e.ck>>
             s1 == [s EXCEPT !.ops = With(@, o.op, [k |-> o.k, op |-> o.op, e |-> o.e]),
                             !.cell = IF key \in DOMAIN @ /\ e.k \notin {"US", "UR"}
                                      THEN [@ EXCEPT ![key].term = TRUE, ![key].st = "gone"]
                                      ELSE @]
         IN IF e.st # "open" THEN s1
            ELSE IF s.mode = "dead"
            THEN [s1 EXCEPT !.ent[o.e].st = "closing", !.ent[o.e].ct = o.op,
                            !.exp = With(@, o.op, Plain("Shutdown"))]
            ELSE Enq([s1 EXCEPT !.ent[o.e].st = "closing", !.ent[o.e].ct = o.op],
                     <<CloseReq(o.op, e)>>)
    [] o.k = "newbus" -> Ask1(s, o, [k |-> "CreateBusListener", tok |-> o.op])
    [] o.k = "addf" ->
         IF o.flt \in e.flt THEN Now(s, o, Plain("ok"))
         ELSE NowReq([s EXCEPT !.ent[o.e].flt = @ \cup {o.flt}], o,
                     [k |-> "AddBusListenerFilter", ck |-> e.ck, flt |-> o.flt])
    [] o.k = "rmf" ->
         IF o.flt \notin e.flt THEN Now(s, o, Plain("ok"))
         ELSE NowReq([s EXCEPT !.ent[o.e].flt = @ \ {o.flt}], o,
                     [k |-> "RemoveBusListenerFilter", ck |-> e.ck, flt |-> o.flt])
    [] o.k = "clrf" ->
         IF e.flt = {} THEN Now(s, o, Plain("ok"))
         ELSE NowReq([s EXCEPT !.ent[o.e].flt = {}], o,
                     [k |-> "ClearBusListenerFilters", ck |-> e.ck])
    [] o.k = "startbus" ->
         LET s1 == Ask1(s, o, [k |-> "StartBusListener", tok |-> o.op, ck |-> e.ck,
                               scope |-> o.scope])
         IN [s1 EXCEPT !.ops[o.op] = @ @@ [ck |-> e.ck, scope |-> o.scope]]
    [] o.k = "stopbus" ->
         LET s1 == Ask1(s, o, [k |-> "StopBusListener", tok |-> o.op, ck |-> e.ck])
         IN [s1 EXCEPT !.ops[o.op] = @ @@ [ck |-> e.ck]]
    [] o.k = "destroybus" ->
         LET s1 == Ask1(s, o, [k |-> "DestroyBusListener", tok |-> o.op, ck |-> e.ck])
         IN [s1 EXCEPT !.ops[o.op] = @ @@ [ck |-> e.ck]]
    [] o.k = "busfinished" -> Wait(s, o)
    [] o.k = "sync" -> Ask1(s, o, [k |-> "SyncClient", tok |-> o.op])
    [] o.k = "syncb" -> Ask1(s, o, [k |-> "SyncBroker", tok |-> o.op])
    [] o.k = "version" -> Ask1(s, o, [k |-> "GetProtocolVersion", tok |-> o.op])
    [] o.k = "regintro" -> NowReq(s, o, [k |-> "RegisterIntrospection", ty |-> o.ty])
    [] o.k = "submit" -> NowReq(s, o, [k |-> "SubmitIntrospection"])
    [] o.k = "query" -> Ask1(s, o, [k |-> "QueryIntrospection", tok |-> o.op, ty |-> o.ty])
    [] o.k = "drop" -> DropEnt(s, o.e)
    [] o.k = "shutdown" -> Enq(s, <<[k |-> "Shutdown"]>>)
    [] o.k = "gone" -> [s EXCEPT !.gone = TRUE]

(***************************************************************************)
(* What the owner of a bus listener sees.                                  *)
(***************************************************************************)

BusFinished(a) ==
  a.term \/ (~Includes(a.scope, "New") /\ a.ps = 0 /\ a.pst = 0 /\ a.pcf = 0)

Dec(n) == IF n = 0 THEN 0 ELSE n - 1

BusStep(a, e) ==
  CASE e.x = "started" -> [a EXCEPT !.scope = e.scope, !.ps = Dec(@), !.q = Tail(@)]
    [] e.x = "stopped" -> [a EXCEPT !.scope = "", !.pst = Dec(@), !.q = Tail(@)]
    [] e.x = "finished" -> [a EXCEPT !.pcf = Dec(@), !.q = Tail(@)]
    [] OTHER -> [a EXCEPT !.q = Tail(@)]

\* One attempt to get the next event: [r, be, a].
RECURSIVE BusPoll(_, _)
BusPoll(a, closed) ==
  CASE BusFinished(a) -> [r |-> "none", a |-> a]
    [] a.q = <<>> -> IF closed THEN [r |-> "none", a |-> [a EXCEPT !.term = TRUE]]
                     ELSE [r |-> "pending", a |-> a]
    [] Head(a.q).x = "event" -> [r |-> "ok", be |-> Head(a.q).be, a |-> BusStep(a, Head(a.q))]
    [] OTHER -> BusPoll(BusStep(a, Head(a.q)), closed)

\* All states after a partial attempt.
RECURSIVE BusPartial(_)
BusPartial(a) ==
  IF BusFinished(a) \/ a.q = <<>> THEN {a}
  ELSE IF Head(a.q).x = "event" THEN {a}
  ELSE {a} \cup BusPartial(BusStep(a, Head(a.q)))

BusClosed(s, ck) == ~s.bl[ck].known \/ s.bl[ck].closed

(***************************************************************************)
(* Completion: the possible results of an operation and the states after.  *)
(***************************************************************************)

Fin(s, op) == [s EXCEPT !.ops = Without(@, op)]
Is(r, s) == {[res |-> r, s |-> s]}

\* Requests that the client throws away once it doesn't handle them anymore.
Dropped(s, tok) ==
  /\ s.mode = "drain"
  /\ \E i \in 1..Len(s.q) : s.q[i].k # "Shutdown" /\ "tok" \in DOMAIN s.q[i] /\ s.q[i].tok = tok

\* What is known about the outcome with this token.
Known(s, tok) ==
  CASE tok \in DOMAIN s.exp -> {s.exp[tok]}
    [] s.mode = "dead" -> {Plain("Shutdown")}
    [] Dropped(s, tok) -> {Plain("Shutdown")}
    [] OTHER -> {}

Take(s, tok) == [s EXCEPT !.exp = Without(@, tok)]

Rets(s, op) ==
  LET o == s.ops[op] IN
  CASE o.k \in {"startbus", "stopbus", "destroybus"} ->
         {[res |-> x.res,
           s |-> LET s1 == Take(Fin(s, op), op) IN
                 IF x.res.r # "ok" THEN s1
                 ELSE CASE o.k = "startbus" ->
                             [s1 EXCEPT !.bl[o.ck].alts =
                               {[a EXCEPT !.ps = @ + 1,
                                          !.pcf = IF Includes(o.scope, "Current") THEN @ + 1 ELSE @]
                                : a \in @}]
                        [] o.k = "stopbus" ->
                             [s1 EXCEPT !.bl[o.ck].alts = {[a EXCEPT !.pst = @ + 1] : a \in @}]
                        [] OTHER ->
                             [s1 EXCEPT !.bl[o.ck].closed = TRUE,
                                        !.bl[o.ck].alts = {[a EXCEPT !.ps = 0, !.pst = 0, !.pcf = 0]
                                                           : a \in @}]]
          : x \in Known(s, op)}
    [] o.k = "claim" ->
         {[res |-> x.res,
           s |-> LET s1 == Take(Fin(s, op), op) IN
                 IF x.res.r = "ok"
                 THEN [s1 EXCEPT !.ent = With(@, op, [o.ce EXCEPT !.k = o.ce.end])]
                 ELSE s1]
          : x \in Known(s, op)}
    [] o.k = "awaitreply" ->
         {[res |-> IF o.bad /\ x.res.r \in {"ok", "err"} THEN Res("InvalidReply") ELSE x.res,
           s |-> [Take(Fin(s, op), o.e) EXCEPT !.ent = Without(@, o.e)]] : x \in Known(s, o.e)}
    [] o.k = "close" ->
         LET e == s.ent[o.e] IN
         IF e.st = "closed" THEN Is(Res("ok"), Fin(s, op))
         ELSE {[res |-> x.res, s |-> [Take(Fin(s, op), e.ct) EXCEPT !.ent[o.e].st = "closed"]]
               : x \in Known(s, e.ct)}
    [] "tok" \in DOMAIN o ->
         {[res |-> x.res,
           s |-> LET s1 == Take(Fin(s, op), op)
                     n == Len(x.ents)
                 IN CASE n = 0 -> s1
                      [] n = 1 -> [s1 EXCEPT !.ent = With(@, op, x.ents[1])]
                      [] OTHER -> [s1 EXCEPT !.ent = With(With(@, op, x.ents[1]), op + 1,
                                                         x.ents[2])]]
          : x \in Known(s, op)}
    [] o.k = "nextcall" ->
         LET c == s.svc[s.ent[o.e].ck] IN
         IF c.calls # <<>>
         THEN LET h == Head(c.calls)
                  s1 == [Fin(s, op) EXCEPT !.svc[s.ent[o.e].ck].calls = Tail(@)]
                  r == [R0 EXCEPT !.v = h.v, !.f = h.f, !.ver = h.ver]
              IN \* The service expected other arguments.
                 IF o.how = "bad"
                 THEN Is([r EXCEPT !.r = "InvalidArguments"],
                         Enq(s1, <<[k |-> "CallFunctionReply", s |-> h.s, p |-> 0,
                                    r |-> "InvalidArgs"]>>))
                 ELSE Is(r, [s1 EXCEPT !.ent = With(@, op,
                               [k |-> "prom", s |-> h.s,
                                drop |-> IF o.how = "unk" THEN "InvalidFunction" ELSE "Aborted"])])
         ELSE IF c.open THEN {} ELSE Is(Res("none"), Fin(s, op))
    [] o.k = "aborted" -> IF s.ent[o.e].s \in s.ab THEN {} ELSE Is(R0, Fin(s, op))
    [] o.k = "nextevent" ->
         LET id == s.ent[o.e].id
             p == s.px[id]
         IN IF p.q # <<>>
            THEN Is([R0 EXCEPT !.v = Head(p.q).v, !.f = Head(p.q).ev],
                    [Fin(s, op) EXCEPT !.px[id].q = Tail(@)])
            ELSE IF p.in THEN {} ELSE Is(Res("none"), Fin(s, op))
    [] o.k = "waitest" ->
         IF s.cell[<<s.ent[o.e].end, s.ent[o.e].ck>>].st = "wait" THEN {} ELSE Is(R0, Fin(s, op))
    [] o.k = "establish" ->
         LET e == o.ce
             key == <<e.end, e.ck>>
             c == s.cell[key]
             s1 == Fin(s, op)
             lost == LET s2 == [s1 EXCEPT !.cell = Without(@, key)] IN
                     IF e.st = "open" THEN Enq(s2, <<CloseReq(0, e)>>)
                     ELSE IF e.st = "closing" THEN Lose(s2, e.ct) ELSE s2
         IN CASE c.st = "wait" -> {}
              [] c.st = "ok" -> Is(R0, [s1 EXCEPT !.ent = With(@, op, [e EXCEPT !.k = e.end])])
              [] c.st = "bad" -> Is(Res("InvalidChannel"), lost)
              [] OTHER -> Is(Res("Shutdown"), lost)
    [] o.k = "send" ->
         LET e == s.ent[o.e]
             key == <<"S", e.ck>>
             c == s.cell[key]
         IN CASE c.term -> Is(Res("InvalidChannel"), Fin(s, op))
              [] c.cap = 0 -> {}
              [] o.deep -> Is(Res("Serialize"), Fin(s, op))
              [] e.st # "open" -> Is(Res("InvalidChannel"), Fin(s, op))
              [] OTHER -> Is(R0, Enq([Fin(s, op) EXCEPT !.cell[key].cap = @ - 1],
                                     <<[k |-> "SendItem", ck |-> e.ck, v |-> o.v]>>))
    [] o.k = "rclosed" ->
         IF s.cell[<<"S", s.ent[o.e].ck>>].term THEN Is(R0, Fin(s, op)) ELSE {}
    [] o.k = "nextitem" ->
         LET e == s.ent[o.e]
             key == <<"R", e.ck>>
             c == s.cell[key]
         IN IF c.items # <<>>
            THEN LET left == c.cur - 1
                     more == IF left <= LowCapacity THEN c.max - left ELSE 0
                     s1 == [Fin(s, op) EXCEPT !.cell[key].items = Tail(@),
                                              !.cell[key].cur = left + more]
                 IN Is(IF o.bad THEN Res("InvalidItem") ELSE [R0 EXCEPT !.v = Head(c.items)],
                       IF more > 0 /\ e.st = "open"
                       THEN Enq(s1, <<[k |-> "AddChannelCapacity", ck |-> e.ck, cap |-> more]>>)
                       ELSE s1)
            ELSE IF c.term THEN Is(Res("none"), Fin(s, op)) ELSE {}
    [] o.k = "busnext" ->
         LET ck == s.ent[o.e].ck
             P == {BusPoll(a, BusClosed(s, ck)) : a \in s.bl[ck].alts}
             ress == {IF p.r = "ok" THEN R0 @@ [be |-> p.be] ELSE Res("none")
                      : p \in {x \in P : x.r # "pending"}}
         IN {[res |-> r,
              s |-> [Fin(s, op) EXCEPT !.bl[ck].alts =
                      {p.a : p \in {x \in P : (IF x.r = "ok" THEN R0 @@ [be |-> x.be]
                                               ELSE IF x.r = "none" THEN Res("none")
                                               ELSE Res("pending")) = r}}]]
             : r \in ress}
    [] o.k = "busfinished" ->
         LET ck == s.ent[o.e].ck
             yes == {a \in s.bl[ck].alts : BusFinished(a)}
             no == s.bl[ck].alts \ yes
         IN (IF yes = {} THEN {} ELSE Is(Res("yes"), [Fin(s, op) EXCEPT !.bl[ck].alts = yes]))
            \cup (IF no = {} THEN {} ELSE Is(Res("no"), [Fin(s, op) EXCEPT !.bl[ck].alts = no]))

\* Operation op is given up by the application.
Cancel(s, op) ==
  LET o == s.ops[op]
      s1 == Fin(s, op)
      dropEnd(t, e) == IF e.st = "open" THEN Enq(t, <<CloseReq(0, e)>>)
                       ELSE IF e.st = "closing" THEN Lose(t, e.ct) ELSE t
  IN CASE o.k = "claim" ->
            LET s2 == [s1 EXCEPT !.cell = Without(@, <<o.ce.end, o.ce.ck>>)] IN
            dropEnd(IF op \in DOMAIN s.exp /\ s.exp[op].res.r # "ok"
                    THEN Take(s1, op)
                    ELSE IF op \in DOMAIN s.exp THEN Take(s2, op) ELSE Lose(s1, op), o.ce)
       [] o.k = "establish" ->
            dropEnd([s1 EXCEPT !.cell = Without(@, <<o.ce.end, o.ce.ck>>)], o.ce)
       [] o.k = "busnext" ->
            [s1 EXCEPT !.bl[s.ent[o.e].ck].alts = UNION {BusPartial(a) : a \in @}]
       [] "tok" \in DOMAIN o -> Lose(s1, op)
       [] OTHER -> s1

\* Operations that could complete right now.
Due(s) == {op \in DOMAIN s.ops : Rets(s, op) # {}}
=============================================================================
