-------------------------------- MODULE Broker --------------------------------
(***************************************************************************)
(* The aldrin broker as a state machine: one event in, a set of possible   *)
(* results (next state and messages to connections) out.                   *)
(*                                                                         *)
(* The state s is one record:                                              *)
(*   conns   id -> minor protocol version of every live connection         *)
(*   objs    object cookie -> [u, c]         (uuid, owner)                 *)
(*   svcs    service cookie -> [o, u, v, sa, ty]                           *)
(*   calls   set of [bs, cs, caller, svc, ab]   pending calls; bs is the   *)
(*           serial shown to the callee, cs the one chosen by the caller   *)
(*   es, as, ss   event / all-events / service subscriptions               *)
(*   chans   channel cookie -> [s, r, gs, gr]: owner of either end (0       *)
(*           unclaimed, -1 closed), credit announced to the sender and      *)
(*           credit granted by the receiver                                *)
(*   lst     listener cookie -> [c, f, sc]                                 *)
(*   intro   type -> [prov, kn, p, q, qs, pend]                            *)
(*   used    every cookie ever handed out                                  *)
(*   idle, gone  idle shutdown requested / all broker handles dropped      *)
(*   stop    the broker was told to shut down                              *)
(*                                                                         *)
(* Choices the broker is free to make (cookies, serials, which provider is *)
(* asked, when credit is announced) come from the record Ch of candidate   *)
(* sets, so that the same definitions serve exhaustive exploration and the *)
(* validation of recorded traces.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NP == [v |-> 0, w |-> 0, bad |-> FALSE]
NoCap == <<0, 0>>
EmptyFn == [x \in {} |-> 0]

Init0 == [conns |-> EmptyFn, objs |-> EmptyFn, svcs |-> EmptyFn, calls |-> {},
          es |-> {}, as |-> {}, ss |-> {}, chans |-> EmptyFn, lst |-> EmptyFn,
          intro |-> EmptyFn, used |-> {}, idle |-> FALSE, gone |-> FALSE, stop |-> FALSE]

Without(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]
R(s, o) == {[s |-> s, o |-> o]}
AsSeq(S) == SetToSeq(S)

\* Capacities are pairs <<high 16 bits, low 16 bits>>.
CapLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
CapLe(a, b) == a = b \/ CapLt(a, b)
CapAdd(a, b) == LET lo == a[2] + b[2] IN <<a[1] + b[1] + lo \div 65536, lo % 65536>>
CapOver(a) == a[1] > 65535
CapSub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>>
                ELSE <<a[1] - b[1] - 1, a[2] + 65536 - b[2]>>
CapOne == <<0, 1>>

Live(s, c) == c \in DOMAIN s.conns
Ver(s, c) == s.conns[c]
OwnerOfSvc(s, k) == s.objs[s.svcs[k].o].c
SvcLive(s, k) == k \in DOMAIN s.svcs
ObjLive(s, k) == k \in DOMAIN s.objs

\* Re-encoding of a payload on its way from a peer with minor version f to one with version t.
\* Payloads of new peers lose the new encodings on their way to old peers.
Converts(f, t) == f >= 20 /\ t < 20
Fwd(p, f, t) == IF Converts(f, t) /\ p.w = 2 THEN [p EXCEPT !.w = 1] ELSE p

(***************************************************************************)
(* Bus listeners                                                           *)
(***************************************************************************)
MatchesObj(f, u) == f.t = "O" /\ f.o \in {0, u}
MatchesSvc(f, u, v) == f.t = "S" /\ f.o \in {0, u} /\ f.s \in {0, v}
BusEv(be, s, k) ==
    IF be \in {"OC", "OD"}
    THEN [k |-> "EmitBusEvent", ck |-> 0, be |-> be, ou |-> s.objs[k].u, ock |-> k,
          su |-> 0, sck |-> 0]
    ELSE [k |-> "EmitBusEvent", ck |-> 0, be |-> be, ou |-> s.objs[s.svcs[k].o].u,
          ock |-> s.svcs[k].o, su |-> s.svcs[k].u, sck |-> k]
MatchesEv(f, e) == IF e.be \in {"OC", "OD"} THEN MatchesObj(f, e.ou) ELSE MatchesSvc(f, e.ou, e.su)

\* Connections that want to hear about a new event.
Hears(s, e) == {c \in DOMAIN s.conns :
    \E l \in DOMAIN s.lst : /\ s.lst[l].c = c
                            /\ s.lst[l].sc \in {"New", "All"}
                            /\ \E f \in s.lst[l].f : MatchesEv(f, e)}
Announce(s, e) == AsSeq({<<c, e>> : c \in Hears(s, e)})

RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
AnnounceAll(s, E) == Flat([i \in 1..Cardinality(E) |-> Announce(s, AsSeq(E)[i])])

(***************************************************************************)
(* Removal of services, objects and connections                            *)
(***************************************************************************)
Subscribers(s, k) == {c \in DOMAIN s.conns :
    <<k, c>> \in s.ss \/ \E t \in s.es : t[1] = k /\ t[3] = c}

\* Messages caused by the services K going away; s is the state in which they still exist.
SvcsGoneOut(s, K) ==
    AsSeq({<<c, [k |-> "ServiceDestroyed", ck |-> k]>> :
             <<k, c>> \in {<<k, c>> \in K \X DOMAIN s.conns : c \in Subscribers(s, k)}})
    \o LET dead == {x \in s.calls : x.svc \in K /\ ~x.ab /\ Live(s, x.caller)} IN
       [i \in 1..Cardinality(dead) |->
          LET x == AsSeq(dead)[i] IN
          <<x.caller, [k |-> "CallFunctionReply", s |-> x.cs, r |-> "InvalidService", p |-> NP]>>]
    \o AnnounceAll(s, {BusEv("SD", s, k) : k \in K})

DropSvcs(s, K) ==
    [s EXCEPT !.svcs = Without(@, K),
              !.calls = {x \in @ : x.svc \notin K},
              !.es = {t \in @ : t[1] \notin K},
              !.as = {t \in @ : t[1] \notin K},
              !.ss = {t \in @ : t[1] \notin K}]

SvcsOf(s, O) == {k \in DOMAIN s.svcs : s.svcs[k].o \in O}

ObjsGoneOut(s, O) ==
    SvcsGoneOut(s, SvcsOf(s, O)) \o AnnounceAll(s, {BusEv("OD", s, o) : o \in O})
DropObjs(s, O) == [DropSvcs(s, SvcsOf(s, O)) EXCEPT !.objs = Without(@, O)]

\* One end of a channel closes (by request, violation or disconnect). The peer is told if it is
\* there; the channel disappears once nobody owns an end of it.
CloseEnd(s, ch, end) ==
    LET c == s.chans[ch]
        c2 == IF end = "S" THEN [c EXCEPT !.s = -1] ELSE [c EXCEPT !.r = -1]
        other == IF end = "S" THEN c.r ELSE c.s
        tell == other > 0 /\ Live(s, other)
    IN [s |-> [s EXCEPT !.chans = IF tell THEN [@ EXCEPT ![ch] = c2] ELSE Without(@, {ch})],
        o |-> IF tell THEN <<<<other, [k |-> "ChannelEndClosed", ck |-> ch, end |-> end]>>>> ELSE <<>>]

RECURSIVE CloseEnds(_, _)
CloseEnds(s, q) ==
    IF q = <<>> THEN [s |-> s, o |-> <<>>]
    ELSE IF q[1][1] \notin DOMAIN s.chans THEN CloseEnds(s, Tail(q))
    ELSE LET r == CloseEnd(s, q[1][1], q[1][2])
             n == CloseEnds(r.s, Tail(q))
         IN [s |-> n.s, o |-> r.o \o n.o]

\* A provider of introspection is gone: whoever else knows about the type may be asked next.
\* pv[t] is a set of candidates <<provider, serial>>.
IntroGone(s, c, Ch) ==
    LET strip(t) == [s.intro[t] EXCEPT !.prov = @ \ {c},
                                       !.pend = SelectSeq(@, LAMBDA x : x[1] # c)]
        lost == {t \in DOMAIN s.intro : s.intro[t].prov \subseteq {c}}
        again == {t \in DOMAIN s.intro \ lost : s.intro[t].q = c}
        unanswered == {t \in lost : s.intro[t].q # 0}
        out1 == Flat([i \in 1..Cardinality(unanswered) |->
                  LET p == strip(AsSeq(unanswered)[i]).pend IN
                  [j \in 1..Len(p) |-> <<p[j][1], [k |-> "QueryIntrospectionReply", s |-> p[j][2],
                                                   r |-> "Unavailable", p |-> NP]>>]])
        pick == {f \in [again -> UNION {Ch.pv[t] : t \in again}] :
                   \A t \in again : f[t] \in Ch.pv[t] /\ f[t][1] \in strip(t).prov}
    IN {[s |-> [s EXCEPT !.intro = [t \in DOMAIN s.intro \ lost |->
                   IF t \in again THEN [strip(t) EXCEPT !.q = f[t][1], !.qs = f[t][2]]
                   ELSE strip(t)]],
         o |-> out1 \o AsSeq({<<f[t][1], [k |-> "QueryIntrospection", s |-> f[t][2], ty |-> t]>> :
                               t \in again})] : f \in pick}

\* Everything a connection owned or subscribed to disappears with it.
Leave(s0, c, Ch) ==
    IF ~Live(s0, c) THEN R(s0, <<>>) ELSE
    LET s1 == [s0 EXCEPT !.conns = Without(@, {c}),
                         !.lst = Without(@, {l \in DOMAIN @ : @[l].c = c})]
        O == {o \in DOMAIN s1.objs : s1.objs[o].c = c}
        outO == ObjsGoneOut(s1, O)
        s2 == DropObjs(s1, O)
        \* subscriptions
        evs == {<<t[1], t[2]>> : t \in {t \in s2.es : t[3] = c}}
        lastE == {x \in evs : ~\E t \in s2.es : t[1] = x[1] /\ t[2] = x[2] /\ t[3] # c}
        alls == {t[1] : t \in {t \in s2.as : t[2] = c}}
        lastA == {k \in alls : ~\E t \in s2.as : t[1] = k /\ t[2] # c}
        outE == AsSeq({<<OwnerOfSvc(s2, x[1]), [k |-> "UnsubscribeEvent", ck |-> x[1], ev |-> x[2]]>> :
                        x \in lastE})
        outA == AsSeq({<<OwnerOfSvc(s2, k), [k |-> "UnsubscribeAllEvents", s |-> "-1", ck |-> k]>> :
                        k \in lastA})
        s3 == [s2 EXCEPT !.es = {t \in @ : t[3] # c}, !.as = {t \in @ : t[2] # c},
                         !.ss = {t \in @ : t[2] # c}]
        \* channels
        ends == AsSeq({<<ch, "S">> : ch \in {ch \in DOMAIN s3.chans : s3.chans[ch].s = c}}
                      \cup {<<ch, "R">> : ch \in {ch \in DOMAIN s3.chans : s3.chans[ch].r = c}})
        r4 == CloseEnds(s3, ends)
        s4 == r4.s
        \* calls made by the connection
        mine == {x \in s4.calls : x.caller = c /\ ~x.ab}
        outC == AsSeq({<<OwnerOfSvc(s4, x.svc), [k |-> "AbortFunctionCall", s |-> x.bs]>> :
                        x \in {x \in mine : Ver(s4, OwnerOfSvc(s4, x.svc)) >= 16}})
        s5 == [s4 EXCEPT !.calls = {IF x \in mine THEN [x EXCEPT !.ab = TRUE] ELSE x : x \in @}]
    IN {[s |-> r.s, o |-> outO \o outE \o outA \o r4.o \o outC \o r.o] : r \in IntroGone(s5, c, Ch)}

\* The broker closes a connection because of what it sent.
Close(s, c, Ch) == {[s |-> r.s, o |-> Append(r.o, <<c, [k |-> "Closed"]>>)] : r \in Leave(s, c, Ch)}

(***************************************************************************)
(* Messages. m is the message, c the live connection it comes from.        *)
(***************************************************************************)
Rep(s, c, m) == R(s, <<<<c, m>>>>)

HCreateObject(s, c, m, Ch) ==
    IF \E o \in DOMAIN s.objs : s.objs[o].u = m.u
    THEN Rep(s, c, [k |-> "CreateObjectReply", s |-> m.s, r |-> "DuplicateObject", ck |-> 0])
    ELSE UNION {LET s2 == [s EXCEPT !.objs = @ @@ (ck :> [u |-> m.u, c |-> c]), !.used = @ \cup {ck}] IN
         R(s2, <<<<c, [k |-> "CreateObjectReply", s |-> m.s, r |-> "Ok", ck |-> ck]>>>>
               \o Announce(s2, BusEv("OC", s2, ck)))
         : ck \in Ch.ck \ s.used}

HDestroyObject(s, c, m, Ch) ==
    LET rep(r) == [k |-> "DestroyObjectReply", s |-> m.s, r |-> r] IN
    IF ~ObjLive(s, m.ck) THEN Rep(s, c, rep("InvalidObject"))
    ELSE IF s.objs[m.ck].c # c THEN Rep(s, c, rep("ForeignObject"))
    ELSE R(DropObjs(s, {m.ck}), <<<<c, rep("Ok")>>>> \o ObjsGoneOut(s, {m.ck}))

AddSvc(s, c, m, info, Ch) ==
    UNION {LET s2 == [s EXCEPT !.svcs = @ @@ (ck :> [o |-> m.ock, u |-> m.u, v |-> info.v,
                                                    sa |-> info.sa, ty |-> info.ty]),
                              !.used = @ \cup {ck}] IN
           R(s2, <<<<c, [k |-> "CreateServiceReply", s |-> m.s, r |-> "Ok", ck |-> ck]>>>>
                 \o Announce(s2, BusEv("SC", s2, ck)))
           : ck \in Ch.ck \ s.used}

SvcProblem(s, c, m) ==
    IF ~ObjLive(s, m.ock) THEN "InvalidObject"
    ELSE IF \E k \in DOMAIN s.svcs : s.svcs[k].o = m.ock /\ s.svcs[k].u = m.u THEN "DuplicateService"
    ELSE IF s.objs[m.ock].c # c THEN "ForeignObject"
    ELSE "Ok"

HCreateService(s, c, m, info, Ch) ==
    LET pr == SvcProblem(s, c, m) IN
    IF pr # "Ok"
    THEN Rep(s, c, [k |-> "CreateServiceReply", s |-> m.s, r |-> pr, ck |-> 0])
    ELSE IF ~info.ok THEN Close(s, c, Ch)
    ELSE AddSvc(s, c, m, IF Ver(s, c) < 18 /\ m.k = "CreateService2" THEN [info EXCEPT !.sa = "no"] ELSE info, Ch)

HDestroyService(s, c, m) ==
    LET rep(r) == [k |-> "DestroyServiceReply", s |-> m.s, r |-> r] IN
    IF ~SvcLive(s, m.ck) THEN Rep(s, c, rep("InvalidService"))
    ELSE IF OwnerOfSvc(s, m.ck) # c THEN Rep(s, c, rep("ForeignObject"))
    ELSE R(DropSvcs(s, {m.ck}), <<<<c, rep("Ok")>>>> \o SvcsGoneOut(s, {m.ck}))

PendingCall(s, c, cs) == {x \in s.calls : x.caller = c /\ x.cs = cs /\ ~x.ab}
CallsTo(s, c, bs) == {x \in s.calls : x.bs = bs /\ OwnerOfSvc(s, x.svc) = c}

HCall(s, c, m, v, Ch) ==
    IF ~SvcLive(s, m.ck)
    THEN Rep(s, c, [k |-> "CallFunctionReply", s |-> m.s, r |-> "InvalidService", p |-> NP])
    ELSE IF PendingCall(s, c, m.s) # {} THEN Close(s, c, Ch)
    ELSE LET callee == OwnerOfSvc(s, m.ck)
             p == Fwd(m.p, Ver(s, c), Ver(s, callee))
         IN UNION {
            R([s EXCEPT !.calls = @ \cup {[bs |-> bs, cs |-> m.s, caller |-> c, svc |-> m.ck, ab |-> FALSE]}],
              <<<<callee, IF Ver(s, callee) >= 19
                          THEN [k |-> "CallFunction2", s |-> bs, ck |-> m.ck, f |-> m.f, v |-> v, p |-> p]
                          ELSE [k |-> "CallFunction", s |-> bs, ck |-> m.ck, f |-> m.f, p |-> p]>>>>)
            : bs \in {b \in Ch.bs[callee] : CallsTo(s, callee, b) = {}}}

HCallReply(s, c, m) ==
    LET X == CallsTo(s, c, m.s) IN
    IF X = {} THEN R(s, <<>>)
    ELSE LET x == CHOOSE x \in X : TRUE
             s2 == [s EXCEPT !.calls = @ \ {x}]
         IN IF x.ab \/ ~Live(s, x.caller) THEN R(s2, <<>>)
            ELSE R(s2, <<<<x.caller, [k |-> "CallFunctionReply", s |-> x.cs, r |-> m.r,
                                      p |-> Fwd(m.p, Ver(s, c), Ver(s, x.caller))]>>>>)

HAbort(s, c, m) ==
    LET X == PendingCall(s, c, m.s) IN
    IF X = {} THEN R(s, <<>>)
    ELSE LET x == CHOOSE x \in X : TRUE
             callee == OwnerOfSvc(s, x.svc)
         IN R([s EXCEPT !.calls = (@ \ {x}) \cup {[x EXCEPT !.ab = TRUE]}],
              (IF Ver(s, callee) >= 16
               THEN <<<<callee, [k |-> "AbortFunctionCall", s |-> x.bs]>>>> ELSE <<>>)
              \o <<<<c, [k |-> "CallFunctionReply", s |-> m.s, r |-> "Aborted", p |-> NP]>>>>)

EvSubs(s, k, ev) == {t[3] : t \in {t \in s.es : t[1] = k /\ t[2] = ev}}
AllSubs(s, k) == {t[2] : t \in {t \in s.as : t[1] = k}}

HSubscribeEvent(s, c, m, Ch) ==
    LET rep(r) == [k |-> "SubscribeEventReply", s |-> m.s, r |-> r] IN
    IF m.s = "-1" THEN Close(s, c, Ch)
    ELSE IF ~SvcLive(s, m.ck) THEN Rep(s, c, rep("InvalidService"))
    ELSE R([s EXCEPT !.es = @ \cup {<<m.ck, m.ev, c>>}],
           <<<<c, rep("Ok")>>>> \o
           IF EvSubs(s, m.ck, m.ev) = {}
           THEN <<<<OwnerOfSvc(s, m.ck), [k |-> "SubscribeEvent", s |-> "-1", ck |-> m.ck, ev |-> m.ev]>>>>
           ELSE <<>>)

HUnsubscribeEvent(s, c, m) ==
    IF SvcLive(s, m.ck) /\ <<m.ck, m.ev, c>> \in s.es
    THEN R([s EXCEPT !.es = @ \ {<<m.ck, m.ev, c>>}],
           IF EvSubs(s, m.ck, m.ev) = {c}
           THEN <<<<OwnerOfSvc(s, m.ck), [k |-> "UnsubscribeEvent", ck |-> m.ck, ev |-> m.ev]>>>>
           ELSE <<>>)
    ELSE R(s, <<>>)

HSubscribeAll(s, c, m, Ch) ==
    LET rep(r) == [k |-> "SubscribeAllEventsReply", s |-> m.s, r |-> r] IN
    IF m.s = "-1" THEN Close(s, c, Ch)
    ELSE IF ~SvcLive(s, m.ck) THEN Rep(s, c, rep("InvalidService"))
    ELSE IF s.svcs[m.ck].sa # "yes" \/ Ver(s, OwnerOfSvc(s, m.ck)) < 18
    THEN Rep(s, c, rep("NotSupported"))
    ELSE R([s EXCEPT !.as = @ \cup {<<m.ck, c>>}],
           <<<<c, rep("Ok")>>>> \o
           IF AllSubs(s, m.ck) = {}
           THEN <<<<OwnerOfSvc(s, m.ck), [k |-> "SubscribeAllEvents", s |-> "-1", ck |-> m.ck]>>>>
           ELSE <<>>)

HUnsubscribeAll(s, c, m) ==
    LET rep(r) == IF m.s = "-1" THEN <<>>
                  ELSE <<<<c, [k |-> "UnsubscribeAllEventsReply", s |-> m.s, r |-> r]>>>> IN
    IF ~SvcLive(s, m.ck) THEN R(s, rep("InvalidService"))
    ELSE IF Ver(s, OwnerOfSvc(s, m.ck)) < 18 THEN R(s, rep("NotSupported"))
    ELSE R([s EXCEPT !.as = @ \ {<<m.ck, c>>}],
           rep("Ok") \o
           IF AllSubs(s, m.ck) = {c}
           THEN <<<<OwnerOfSvc(s, m.ck), [k |-> "UnsubscribeAllEvents", s |-> "-1", ck |-> m.ck]>>>>
           ELSE <<>>)

HEmit(s, c, m) ==
    IF SvcLive(s, m.ck) /\ OwnerOfSvc(s, m.ck) = c
    THEN R(s, AsSeq({<<x, [m EXCEPT !.p = Fwd(@, Ver(s, c), Ver(s, x))]>> :
                      x \in (EvSubs(s, m.ck, m.ev) \cup AllSubs(s, m.ck)) \cap DOMAIN s.conns}))
    ELSE R(s, <<>>)

HCreateChannel(s, c, m, Ch) ==
    UNION {R([s EXCEPT !.used = @ \cup {ck},
                 !.chans = @ @@ (ck :> IF m.end = "S"
                                       THEN [s |-> c, r |-> 0, gs |-> NoCap, gr |-> NoCap]
                                       ELSE [s |-> 0, r |-> c, gs |-> m.cap, gr |-> m.cap])],
             <<<<c, [k |-> "CreateChannelReply", s |-> m.s, ck |-> ck]>>>>)
           : ck \in Ch.ck \ s.used}

EndOf(ch, end) == IF end = "S" THEN ch.s ELSE ch.r
OtherOf(ch, end) == IF end = "S" THEN ch.r ELSE ch.s

HCloseEnd(s, c, m) ==
    LET rep(r) == <<<<c, [k |-> "CloseChannelEndReply", s |-> m.s, r |-> r]>>>> IN
    IF m.ck \notin DOMAIN s.chans \/ EndOf(s.chans[m.ck], m.end) = -1
    THEN R(s, rep("InvalidChannel"))
    ELSE IF EndOf(s.chans[m.ck], m.end) \notin {0, c} THEN R(s, rep("ForeignChannel"))
    ELSE LET r == CloseEnd(s, m.ck, m.end) IN R(r.s, rep("Ok") \o r.o)

HClaim(s, c, m) ==
    LET rep(r, cap) == <<<<c, [k |-> "ClaimChannelEndReply", s |-> m.s, r |-> r, cap |-> cap]>>>> IN
    IF m.ck \notin DOMAIN s.chans \/ EndOf(s.chans[m.ck], m.end) = -1
    THEN R(s, rep("InvalidChannel", NoCap))
    ELSE LET ch == s.chans[m.ck] IN
      IF EndOf(ch, m.end) # 0 THEN R(s, rep("AlreadyClaimed", NoCap))
      ELSE LET told == <<<<OtherOf(ch, m.end), [k |-> "ChannelEndClaimed", ck |-> m.ck,
                                                end |-> m.end, cap |-> m.cap]>>>> IN
        IF m.end = "S"
        THEN \* everything granted so far is announced to the new sender
             R([s EXCEPT !.chans[m.ck] = [ch EXCEPT !.s = c, !.gs = ch.gr]],
               rep("SenderClaimed", ch.gr) \o told)
        ELSE R([s EXCEPT !.chans[m.ck] = [ch EXCEPT !.r = c, !.gs = m.cap, !.gr = m.cap]],
               rep("ReceiverClaimed", NoCap) \o told)

\* The broker may pass granted credit on to the sender, and must if the sender would otherwise
\* have none although the receiver granted some. ann is the announced amount.
Credit(s, k, ch, ann, out) ==
    IF /\ CapLe(CapAdd(ch.gs, ann), ch.gr)
       /\ ~(CapAdd(ch.gs, ann) = NoCap /\ ch.gr # NoCap)
    THEN R([s EXCEPT !.chans[k] = [ch EXCEPT !.gs = CapAdd(@, ann)]],
           out \o IF ann = NoCap THEN <<>>
                  ELSE <<<<ch.s, [k |-> "AddChannelCapacity", ck |-> k, cap |-> ann]>>>>)
    ELSE {}

HSendItem(s, c, m, Ch) ==
    IF m.ck \notin DOMAIN s.chans \/ s.chans[m.ck].s # c THEN R(s, <<>>)
    ELSE LET ch == s.chans[m.ck] IN
      IF ch.r = -1 THEN R(s, <<>>)
      ELSE IF ch.r = 0
      THEN R([s EXCEPT !.chans = Without(@, {m.ck})],
             <<<<c, [k |-> "ChannelEndClosed", ck |-> m.ck, end |-> "R"]>>>>)
      ELSE IF ch.gs = NoCap
      THEN LET r == CloseEnd(s, m.ck, "S") IN R(r.s, r.o)
      ELSE LET ch2 == [ch EXCEPT !.gs = CapSub(@, CapOne), !.gr = CapSub(@, CapOne)]
               item == <<<<ch.r, [k |-> "ItemReceived", ck |-> m.ck, p |-> Fwd(m.p, Ver(s, c), Ver(s, ch.r))]>>>>
           IN UNION {Credit(s, m.ck, ch2, ann, item) : ann \in Ch.ann[m.ck]}

HAddCapacity(s, c, m, Ch) ==
    IF m.ck \notin DOMAIN s.chans \/ s.chans[m.ck].r # c \/ m.cap = NoCap THEN R(s, <<>>)
    ELSE LET ch == s.chans[m.ck]
             sum == CapAdd(ch.gr, m.cap)
         IN IF CapOver(sum) THEN LET r == CloseEnd(s, m.ck, "R") IN R(r.s, r.o)
            ELSE IF ch.s <= 0 THEN R([s EXCEPT !.chans[m.ck].gr = sum], <<>>)
            ELSE UNION {Credit(s, m.ck, [ch EXCEPT !.gr = sum], ann, <<>>) : ann \in Ch.ann[m.ck]}

HCreateListener(s, c, m, Ch) ==
    UNION {R([s EXCEPT !.used = @ \cup {ck},
                       !.lst = @ @@ (ck :> [c |-> c, f |-> {}, sc |-> "no"])],
             <<<<c, [k |-> "CreateBusListenerReply", s |-> m.s, ck |-> ck]>>>>)
           : ck \in Ch.ck \ s.used}

OwnsListener(s, c, k) == k \in DOMAIN s.lst /\ s.lst[k].c = c

CurrentOut(s, c, k) ==
    LET F == s.lst[k].f
        O == {BusEv("OC", s, o) : o \in {o \in DOMAIN s.objs :
                 \E f \in F : MatchesObj(f, s.objs[o].u)}}
        S == {BusEv("SC", s, x) : x \in {x \in DOMAIN s.svcs :
                 \E f \in F : MatchesSvc(f, s.objs[s.svcs[x].o].u, s.svcs[x].u)}}
    IN AsSeq({<<c, [e EXCEPT !.ck = k]>> : e \in O \cup S})
       \o <<<<c, [k |-> "BusListenerCurrentFinished", ck |-> k]>>>>

HStart(s, c, m) ==
    LET rep(r) == <<<<c, [k |-> "StartBusListenerReply", s |-> m.s, r |-> r]>>>> IN
    IF ~OwnsListener(s, c, m.ck) THEN R(s, rep("InvalidBusListener"))
    ELSE IF s.lst[m.ck].sc # "no" THEN R(s, rep("AlreadyStarted"))
    ELSE R([s EXCEPT !.lst[m.ck].sc = m.scope],
           rep("Ok") \o IF m.scope \in {"Current", "All"} THEN CurrentOut(s, c, m.ck) ELSE <<>>)

HStop(s, c, m) ==
    LET rep(r) == <<<<c, [k |-> "StopBusListenerReply", s |-> m.s, r |-> r]>>>> IN
    IF ~OwnsListener(s, c, m.ck) THEN R(s, rep("InvalidBusListener"))
    ELSE IF s.lst[m.ck].sc = "no" THEN R(s, rep("NotStarted"))
    ELSE R([s EXCEPT !.lst[m.ck].sc = "no"], rep("Ok"))

HFilters(s, c, m) ==
    IF ~OwnsListener(s, c, m.ck) THEN R(s, <<>>)
    ELSE R([s EXCEPT !.lst[m.ck].f =
              CASE m.k = "AddBusListenerFilter" -> @ \cup {m.flt}
                [] m.k = "RemoveBusListenerFilter" -> @ \ {m.flt}
                [] OTHER -> {}], <<>>)

HDestroyListener(s, c, m) ==
    LET rep(r) == <<<<c, [k |-> "DestroyBusListenerReply", s |-> m.s, r |-> r]>>>> IN
    IF ~OwnsListener(s, c, m.ck) THEN R(s, rep("InvalidBusListener"))
    ELSE R([s EXCEPT !.lst = Without(@, {m.ck})], rep("Ok"))

NewIntro == [prov |-> {}, kn |-> FALSE, p |-> NP, q |-> 0, qs |-> "", pend |-> <<>>]
HRegister(s, c, m, Ch) ==
    IF ~m.ok THEN Close(s, c, Ch)
    ELSE LET T == {m.types[i] : i \in 1..Len(m.types)} IN
         R([s EXCEPT !.intro = [t \in DOMAIN @ \cup T |->
              LET e == IF t \in DOMAIN @ THEN @[t] ELSE NewIntro IN
              IF t \in T THEN [e EXCEPT !.prov = @ \cup {c}] ELSE e]], <<>>)

HQueryIntro(s, c, m, Ch) ==
    LET rep(r, p) == [k |-> "QueryIntrospectionReply", s |-> m.s, r |-> r, p |-> p] IN
    IF m.ty \notin DOMAIN s.intro THEN Rep(s, c, rep("Unavailable", NP))
    ELSE LET e == s.intro[m.ty] IN
      IF e.kn THEN Rep(s, c, rep("Ok", Fwd(e.p, 20, Ver(s, c))))
      ELSE IF e.q # 0 THEN R([s EXCEPT !.intro[m.ty].pend = Append(@, <<c, m.s>>)], <<>>)
      ELSE UNION {R([s EXCEPT !.intro[m.ty] = [@ EXCEPT !.q = x[1], !.qs = x[2],
                                                      !.pend = Append(@, <<c, m.s>>)]],
                    <<<<x[1], [k |-> "QueryIntrospection", s |-> x[2], ty |-> m.ty]>>>>)
                  : x \in {x \in Ch.pv[m.ty] : x[1] \in e.prov}}

\* A provider that declares a type unavailable may or may not still be answered itself.
HIntroReply(s, c, m, Ch) ==
    LET T == {t \in DOMAIN s.intro : s.intro[t].q = c /\ s.intro[t].qs = m.s} IN
    IF T = {} THEN Close(s, c, Ch)
    ELSE LET t == CHOOSE t \in T : TRUE
             e == s.intro[t]
             ans(pend, r, p) == [i \in 1..Len(pend) |->
                <<pend[i][1], [k |-> "QueryIntrospectionReply", s |-> pend[i][2], r |-> r,
                               p |-> IF r = "Ok" THEN Fwd(p, 20, Ver(s, pend[i][1])) ELSE NP]>>]
             others == SelectSeq(e.pend, LAMBDA x : x[1] # c)
         IN IF m.r = "Ok"
            THEN R([s EXCEPT !.intro[t] = [@ EXCEPT !.kn = TRUE, !.p = m.p, !.q = 0, !.qs = "",
                                                    !.pend = <<>>]], ans(e.pend, "Ok", m.p))
            ELSE IF e.prov = {c}
            THEN UNION {R([s EXCEPT !.intro = Without(@, {t})], ans(pend, "Unavailable", NP))
                        : pend \in {e.pend, others}}
            ELSE {[s |-> [s EXCEPT !.intro[t] = [@ EXCEPT !.prov = @ \ {c}, !.q = x[1][1], !.qs = x[1][2],
                                                          !.pend = x[2]]],
                   o |-> <<<<x[1][1], [k |-> "QueryIntrospection", s |-> x[1][2], ty |-> t]>>>>]
                  : x \in {x \in Ch.pv[t] : x[1] \in e.prov \ {c}} \X {e.pend, others}}

MinVersion(k) ==
    CASE k = "AbortFunctionCall" -> 16
      [] k \in {"RegisterIntrospection", "QueryIntrospection", "QueryIntrospectionReply",
                "CreateService2", "QueryServiceInfo"} -> 17
      [] k \in {"SubscribeService", "UnsubscribeService", "SubscribeAllEvents",
                "UnsubscribeAllEvents"} -> 18
      [] k = "CallFunction2" -> 19
      [] OTHER -> 14

\* Kinds only a broker may send.
WrongWay == {"Connect", "ConnectReply", "Connect2", "ConnectReply2", "CreateObjectReply",
    "DestroyObjectReply", "CreateServiceReply", "DestroyServiceReply", "SubscribeEventReply",
    "QueryServiceVersionReply", "QueryServiceInfoReply", "CreateChannelReply",
    "CloseChannelEndReply", "ChannelEndClosed", "ClaimChannelEndReply", "ChannelEndClaimed",
    "ItemReceived", "SyncReply", "ServiceDestroyed", "CreateBusListenerReply",
    "DestroyBusListenerReply", "StartBusListenerReply", "StopBusListenerReply", "EmitBusEvent",
    "BusListenerCurrentFinished", "SubscribeServiceReply", "SubscribeAllEventsReply",
    "UnsubscribeAllEventsReply"}

NoInfo == [ok |-> FALSE, v |-> "-1", sa |-> "none", ty |-> 0]
Msg(s, c, m, Ch) ==
    IF ~Live(s, c) THEN R(s, <<>>)
    ELSE IF m.k \in WrongWay \/ Ver(s, c) < MinVersion(m.k) THEN Close(s, c, Ch)
    ELSE CASE m.k = "CreateObject" -> HCreateObject(s, c, m, Ch)
      [] m.k = "DestroyObject" -> HDestroyObject(s, c, m, Ch)
      [] m.k = "CreateService" ->
            HCreateService(s, c, m, [ok |-> TRUE, v |-> m.v, sa |-> "none", ty |-> 0], Ch)
      [] m.k = "CreateService2" -> HCreateService(s, c, m, m.info, Ch)
      [] m.k = "DestroyService" -> HDestroyService(s, c, m)
      [] m.k = "CallFunction" -> HCall(s, c, m, "-1", Ch)
      [] m.k = "CallFunction2" -> HCall(s, c, m, m.v, Ch)
      [] m.k = "CallFunctionReply" -> HCallReply(s, c, m)
      [] m.k = "AbortFunctionCall" -> HAbort(s, c, m)
      [] m.k = "SubscribeEvent" -> HSubscribeEvent(s, c, m, Ch)
      [] m.k = "UnsubscribeEvent" -> HUnsubscribeEvent(s, c, m)
      [] m.k = "SubscribeAllEvents" -> HSubscribeAll(s, c, m, Ch)
      [] m.k = "UnsubscribeAllEvents" -> HUnsubscribeAll(s, c, m)
      [] m.k = "EmitEvent" -> HEmit(s, c, m)
      [] m.k = "SubscribeService" ->
            IF SvcLive(s, m.ck)
            THEN R([s EXCEPT !.ss = @ \cup {<<m.ck, c>>}],
                   <<<<c, [k |-> "SubscribeServiceReply", s |-> m.s, r |-> "Ok"]>>>>)
            ELSE Rep(s, c, [k |-> "SubscribeServiceReply", s |-> m.s, r |-> "InvalidService"])
      [] m.k = "UnsubscribeService" -> R([s EXCEPT !.ss = @ \ {<<m.ck, c>>}], <<>>)
      [] m.k = "QueryServiceVersion" ->
            Rep(s, c, IF SvcLive(s, m.ck)
                      THEN [k |-> "QueryServiceVersionReply", s |-> m.s, r |-> "Ok", v |-> s.svcs[m.ck].v]
                      ELSE [k |-> "QueryServiceVersionReply", s |-> m.s, r |-> "InvalidService", v |-> "-1"])
      [] m.k = "QueryServiceInfo" ->
            Rep(s, c, IF SvcLive(s, m.ck)
                      THEN [k |-> "QueryServiceInfoReply", s |-> m.s, r |-> "Ok", w |-> 0,
                            info |-> [ok |-> TRUE, v |-> s.svcs[m.ck].v, sa |-> s.svcs[m.ck].sa,
                                      ty |-> s.svcs[m.ck].ty]]
                      ELSE [k |-> "QueryServiceInfoReply", s |-> m.s, r |-> "InvalidService", w |-> 0,
                            info |-> NoInfo])
      [] m.k = "CreateChannel" -> HCreateChannel(s, c, m, Ch)
      [] m.k = "CloseChannelEnd" -> HCloseEnd(s, c, m)
      [] m.k = "ClaimChannelEnd" -> HClaim(s, c, m)
      [] m.k = "SendItem" -> HSendItem(s, c, m, Ch)
      [] m.k = "AddChannelCapacity" -> HAddCapacity(s, c, m, Ch)
      [] m.k = "Sync" -> Rep(s, c, [k |-> "SyncReply", s |-> m.s])
      [] m.k = "CreateBusListener" -> HCreateListener(s, c, m, Ch)
      [] m.k = "DestroyBusListener" -> HDestroyListener(s, c, m)
      [] m.k \in {"AddBusListenerFilter", "RemoveBusListenerFilter", "ClearBusListenerFilters"} ->
            HFilters(s, c, m)
      [] m.k = "StartBusListener" -> HStart(s, c, m)
      [] m.k = "StopBusListener" -> HStop(s, c, m)
      [] m.k = "RegisterIntrospection" -> HRegister(s, c, m, Ch)
      [] m.k = "QueryIntrospection" -> HQueryIntro(s, c, m, Ch)
      [] m.k = "QueryIntrospectionReply" -> HIntroReply(s, c, m, Ch)

(***************************************************************************)
(* Everything that can happen                                              *)
(***************************************************************************)
\* Handshake: the reply, and the negotiated version (0 if there is no connection).
Handshake(e) ==
    LET rep(r, v) == IF e.how = "legacy" THEN [k |-> "ConnectReply", r |-> r, v |-> v]
                     ELSE [k |-> "ConnectReply2", r |-> r, v |-> v, w |-> 0]
        bad == [ver |-> 0, o |-> <<rep("IncompatibleVersion", IF e.how = "legacy" THEN "14" ELSE "-1")>>]
        min == IF e.min > 20 THEN 20 ELSE e.min
    IN IF e.how \in {"other", "baddata"} THEN [ver |-> 0, o |-> <<>>]
       ELSE IF e.how = "legacy" /\ e.min # 14 THEN bad
       ELSE IF e.how = "connect2" /\ (e.maj # 1 \/ e.min < 14) THEN bad
       ELSE IF e.rej THEN [ver |-> 0, o |-> <<rep("Rejected", "-1")>>]
       ELSE [ver |-> min, o |-> <<rep("Ok", IF e.how = "legacy" THEN "-1" ELSE ToString(min))>>]

Connect(s, e) ==
    LET h == Handshake(e)
        out == [i \in 1..Len(h.o) |-> <<e.c, h.o[i]>>]
    IN IF h.ver = 0 THEN R(s, Append(out, <<e.c, [k |-> "Closed"]>>))
       ELSE R([s EXCEPT !.conns = @ @@ (e.c :> h.ver)], out)

Bye(c) == <<<<c, [k |-> "Shutdown"]>>, <<c, [k |-> "Closed"]>>>>

\* Shutting down the broker: every connection is told.
StopAll(s) == R([Init0 EXCEPT !.used = s.used, !.stop = TRUE, !.gone = s.gone, !.idle = s.idle],
                Flat([i \in 1..Cardinality(DOMAIN s.conns) |-> Bye(AsSeq(DOMAIN s.conns)[i])]))

Terminated(s) == s.stop \/ ((s.idle \/ s.gone) /\ DOMAIN s.conns = {})

Step(s, e, Ch) ==
    IF Terminated(s) THEN R(s, <<>>)
    ELSE CASE e.e = "connect" -> Connect(s, e)
      [] e.e = "msg" -> Msg(s, e.c, e.m, Ch)
      [] e.e \in {"shut", "eof", "terr", "drop", "xfail"} -> Leave(s, e.c, Ch)
      [] e.e = "xconv" -> Close(s, e.c, Ch)
      [] e.e = "kill" -> IF Live(s, e.c)
                         THEN {[s |-> r.s, o |-> r.o \o Bye(e.c)] : r \in Leave(s, e.c, Ch)}
                         ELSE R(s, <<>>)
      [] e.e = "stop" -> StopAll(s)
      [] e.e = "idle" -> R([s EXCEPT !.idle = TRUE], <<>>)
      [] e.e = "dropall" -> R([s EXCEPT !.gone = TRUE], <<>>)
      [] e.e \in {"serr", "nop"} -> R(s, <<>>)

(***************************************************************************)
(* Order of the messages that one event sends to one connection: a has to  *)
(* arrive before b.                                                        *)
(***************************************************************************)
Precedes(a, b) ==
    \/ /\ a.k = "EmitBusEvent" /\ b.k = "EmitBusEvent" /\ a.ock = b.ock /\ a.ck = b.ck
       /\ \/ a.be = "OC" /\ b.be \in {"SC", "SD", "OD"}
          \/ a.be = "SC" /\ b.be \in {"SD", "OD"}
          \/ a.be = "SD" /\ b.be = "OD"
    \/ a.k = "EmitBusEvent" /\ b.k = "BusListenerCurrentFinished" /\ a.ck = b.ck
    \/ a.k # "Closed" /\ b.k = "Closed"
    \/ a.k \notin {"Shutdown", "Closed"} /\ b.k = "Shutdown"
===============================================================================
