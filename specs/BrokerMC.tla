------------------------------- MODULE BrokerMC -------------------------------
(***************************************************************************)
(* Explores Broker.tla exhaustively for small constants.                   *)
(*                                                                         *)
(* For each focus (environment variable FOCUS) a short setup is played,    *)
(* then every sequence of up to DEPTH events of that focus. Every          *)
(* transition is judged by monitors (Broken) that state the properties in  *)
(* terms of the exchanged messages and of the states before and after, and *)
(* not in terms of the handlers of Broker.tla. The histories of a sample   *)
(* of all transitions are printed and replayed against the real broker.    *)
(***************************************************************************)
EXTENDS Broker, Json, IOUtils, TLCExt, Randomization

Focus == IOEnv.FOCUS
Depth == atoi(IOEnv.DEPTH)
Sample == atoi(IOEnv.SAMPLE)
Seed == atoi(IOEnv.SEED)
Walk == IOEnv.WALK = "1"    \* behaviours for the simulator: stop after DEPTH events and print

VARIABLES sys,    \* state of the broker
          gh,     \* what can be learned from the messages alone
          hist,   \* events so far
          base,   \* the setup
          err     \* names of the monitors that complained
vars == <<sys, gh, hist, base, err>>

(***************************************************************************)
(* Choices of the broker                                                   *)
(***************************************************************************)
Serials == IF Focus \in {"leave", "hostile"} THEN {"0", "1", "2", "3", "4", "5", "6", "7"} ELSE {"0", "1", "2", "3"}
FreeBs(st) == LET F == {b \in Serials : \A x \in st.calls : x.bs # b}
              IN IF F = {} THEN {} ELSE {CHOOSE b \in F : \A d \in F : atoi(b) <= atoi(d)}
ChFor(st, e) ==
    [ck |-> {Cardinality(st.used) + 1},
     bs |-> [c \in DOMAIN st.conns |-> FreeBs(st)],
     pv |-> [t \in DOMAIN st.intro |-> {<<c, "q" \o ToString(t)>> : c \in st.intro[t].prov}],
     ann |-> [k \in DOMAIN st.chans |->
                LET ch == st.chans[k]
                    msg == e.e = "msg"
                    more == IF msg /\ e.m.k = "AddChannelCapacity" THEN e.m.cap ELSE NoCap
                    room == CapAdd(ch.gr, more)
                    one == IF msg /\ e.m.k = "SendItem" /\ ch.gs # NoCap THEN CapOne ELSE NoCap
                    gr == IF CapLe(one, room) THEN CapSub(room, one) ELSE room
                    gs == IF CapLe(one, ch.gs) THEN CapSub(ch.gs, one) ELSE ch.gs
                IN IF ch.s <= 0 THEN {NoCap}
                   ELSE {NoCap} \cup (IF CapLe(gs, gr) THEN {CapSub(gr, gs)} ELSE {})]]

(***************************************************************************)
(* Events                                                                  *)
(***************************************************************************)
Cn(c, min) == [e |-> "connect", c |-> c, maj |-> 1, min |-> min,
               how |-> IF min = 14 THEN "legacy" ELSE "connect2", rej |-> FALSE]
M(c, m) == [e |-> "msg", c |-> c, m |-> m]
P(n) == [v |-> n, w |-> 2, bad |-> FALSE]
CreateObj(c, u) == M(c, [k |-> "CreateObject", s |-> "7", u |-> u])
DestroyObj(c, ck) == M(c, [k |-> "DestroyObject", s |-> "8", ck |-> ck])
CreateSvc(c, o, u) == M(c, [k |-> "CreateService", s |-> "9", ock |-> o, u |-> u, v |-> "3"])
CreateSvc2(c, o, u, sa) == M(c, [k |-> "CreateService2", s |-> "9", ock |-> o, u |-> u,
                                 info |-> [ok |-> TRUE, v |-> "4", sa |-> sa, ty |-> 7001]])
DestroySvc(c, ck) == M(c, [k |-> "DestroyService", s |-> "10", ck |-> ck])
Call(c, ck, cs, n) == M(c, [k |-> "CallFunction", s |-> cs, ck |-> ck, f |-> "1", p |-> P(n)])
Call2(c, ck, cs, n) == M(c, [k |-> "CallFunction2", s |-> cs, ck |-> ck, f |-> "1", v |-> "2", p |-> P(n)])
Reply(c, bs, r, n) == M(c, [k |-> "CallFunctionReply", s |-> bs, r |-> r,
                            p |-> IF r \in {"Ok", "Err"} THEN P(n) ELSE NP])
Abort(c, cs) == M(c, [k |-> "AbortFunctionCall", s |-> cs])
SubEv(c, ck, ev) == M(c, [k |-> "SubscribeEvent", s |-> "11", ck |-> ck, ev |-> ev])
UnsubEv(c, ck, ev) == M(c, [k |-> "UnsubscribeEvent", ck |-> ck, ev |-> ev])
SubAll(c, ck) == M(c, [k |-> "SubscribeAllEvents", s |-> "12", ck |-> ck])
UnsubAll(c, ck) == M(c, [k |-> "UnsubscribeAllEvents", s |-> "13", ck |-> ck])
SubSvc(c, ck) == M(c, [k |-> "SubscribeService", s |-> "14", ck |-> ck])
UnsubSvc(c, ck) == M(c, [k |-> "UnsubscribeService", ck |-> ck])
Emit(c, ck, ev, n) == M(c, [k |-> "EmitEvent", ck |-> ck, ev |-> ev, p |-> P(n)])
QVer(c, ck) == M(c, [k |-> "QueryServiceVersion", s |-> "15", ck |-> ck])
QInfo(c, ck) == M(c, [k |-> "QueryServiceInfo", s |-> "16", ck |-> ck])
CreateCh(c, end, cap) == M(c, [k |-> "CreateChannel", s |-> "17", end |-> end, cap |-> cap])
CloseCh(c, ck, end) == M(c, [k |-> "CloseChannelEnd", s |-> "18", ck |-> ck, end |-> end])
Claim(c, ck, end, cap) == M(c, [k |-> "ClaimChannelEnd", s |-> "19", ck |-> ck, end |-> end, cap |-> cap])
Send(c, ck, n) == M(c, [k |-> "SendItem", ck |-> ck, p |-> P(n)])
AddCap(c, ck, cap) == M(c, [k |-> "AddChannelCapacity", ck |-> ck, cap |-> cap])
Synch(c) == M(c, [k |-> "Sync", s |-> "20"])
CreateL(c) == M(c, [k |-> "CreateBusListener", s |-> "21"])
DestroyL(c, ck) == M(c, [k |-> "DestroyBusListener", s |-> "22", ck |-> ck])
AddF(c, ck, f) == M(c, [k |-> "AddBusListenerFilter", ck |-> ck, flt |-> f])
RemF(c, ck, f) == M(c, [k |-> "RemoveBusListenerFilter", ck |-> ck, flt |-> f])
ClearF(c, ck) == M(c, [k |-> "ClearBusListenerFilters", ck |-> ck])
StartL(c, ck, sc) == M(c, [k |-> "StartBusListener", s |-> "23", ck |-> ck, scope |-> sc])
StopL(c, ck) == M(c, [k |-> "StopBusListener", s |-> "24", ck |-> ck])
Register(c, T) == M(c, [k |-> "RegisterIntrospection", ok |-> TRUE, types |-> T])
QIntro(c, t) == M(c, [k |-> "QueryIntrospection", s |-> "25", ty |-> t])
IntroReply(c, sr, r, n) == M(c, [k |-> "QueryIntrospectionReply", s |-> sr, r |-> r,
                                 p |-> IF r = "Ok" THEN P(n) ELSE NP])
Go(c, how) == [e |-> how, c |-> c]

FO(u) == [t |-> "O", o |-> u, s |-> 0]
FS(o, u) == [t |-> "S", o |-> o, s |-> u]

(***************************************************************************)
(* The foci: setup and events                                              *)
(***************************************************************************)
Three(a, b, c) == <<Cn(1, a), Cn(2, b), Cn(3, c)>>
Setups ==
    CASE Focus = "calls" ->
           {Three(v[1], v[2], v[3]) \o <<CreateObj(1, 5001), CreateSvc(1, 1, 6001)>>
            : v \in {<<20, 20, 20>>, <<14, 20, 16>>, <<20, 15, 18>>}}
      [] Focus = "reg" -> {<<Cn(1, 20), Cn(2, 16)>>}
      [] Focus = "events" ->
           {Three(20, 20, 14) \o <<CreateObj(1, 5001), CreateSvc2(1, 1, 6001, "yes")>>}
      [] Focus = "events2" ->
           {Three(20, 19, 18) \o <<CreateObj(1, 5001), CreateSvc2(1, 1, 6001, "yes"),
                                   CreateObj(2, 5002), CreateSvc2(2, 3, 6001, "yes")>>}
      [] Focus = "chan" -> {Three(20, 20, 14)}
      [] Focus = "flow" ->
           {<<Cn(1, 20), Cn(2, 20), CreateCh(1, "R", <<0, 3>>), Claim(2, 1, "S", NoCap)>>,
            <<Cn(1, 20), Cn(2, 17), CreateCh(1, "S", NoCap), Claim(2, 1, "R", <<0, 6>>)>>}
      [] Focus = "listen" ->
           {<<Cn(1, 20), Cn(2, 14), CreateObj(2, 5001), CreateL(1), AddF(1, 2, FO(0)), CreateL(1)>>,
            <<Cn(1, 15), Cn(2, 20), CreateObj(2, 5001), CreateSvc(2, 1, 6001), CreateL(1), CreateL(1),
              AddF(1, 3, FS(0, 6001)), AddF(1, 4, FS(5002, 0)), AddF(1, 4, FO(0))>>}
      [] Focus \in {"leave", "hostile"} ->
           {Three(v[1], v[2], v[3]) \o
            <<CreateObj(1, 5001), CreateSvc2(1, 1, 6001, "yes"),
              CreateObj(2, 5002), CreateSvc(2, 3, 6001),
              SubEv(2, 2, "1"), SubSvc(3, 2), SubEv(3, 4, "1"), SubEv(1, 4, "1"), SubAll(2, 2),
              Call(2, 2, "0", 1), Call(3, 2, "0", 2), Call(3, 4, "1", 3), Call(1, 4, "0", 4),
              CreateCh(1, "R", <<0, 2>>), Claim(3, 5, "S", NoCap),
              CreateCh(2, "S", NoCap), Claim(1, 6, "R", <<0, 5>>), Send(2, 6, 5),
              CreateL(3), AddF(3, 7, FO(0)), AddF(3, 7, FS(0, 0)), StartL(3, 7, "New"),
              Register(1, <<7001, 7002>>), Register(2, <<7001>>), QIntro(3, 7001)>>
            : v \in {<<20, 20, 18>>, <<18, 19, 20>>}}
      [] Focus = "intro" -> {Three(20, 19, 17)}
      [] Focus = "gate" ->
           {<<Cn(1, a), Cn(2, b), CreateObj(1, 5001), CreateSvc(1, 1, 6001)>> : a, b \in 14..20}
      [] Focus = "hello" -> {<<>>}

Ncks(st) == {9001} \cup 1..(Cardinality(st.used))
Mine(st) == {9001} \cup DOMAIN st.svcs
Chs(st) == {9001} \cup DOMAIN st.chans
N == Len(hist)
Ways == {"shut", "eof", "terr", "kill"}
BigCap == <<65535, 65535>>

Everything(st, C) ==
    LET K == Ncks(st) IN
    {CreateObj(c, u) : c \in C, u \in {5001, 5003}}
    \cup {f : f \in UNION {{DestroyObj(c, k), DestroySvc(c, k), SubSvc(c, k), UnsubSvc(c, k),
                  SubAll(c, k), UnsubAll(c, k), SubEv(c, k, "1"), UnsubEv(c, k, "1"), UnsubEv(c, k, "2"),
                  Emit(c, k, "1", N), QVer(c, k), QInfo(c, k), CreateSvc(c, k, 6001),
                  CreateSvc2(c, k, 6002, "no"), Call(c, k, "0", N), Call(c, k, "5", N), Call2(c, k, "6", N),
                  CloseCh(c, k, "S"), CloseCh(c, k, "R"), Claim(c, k, "S", NoCap),
                  Claim(c, k, "R", <<0, 1>>), Send(c, k, N), AddCap(c, k, <<0, 1>>), AddCap(c, k, BigCap),
                  DestroyL(c, k), AddF(c, k, FO(0)), RemF(c, k, FO(0)), ClearF(c, k),
                  StartL(c, k, "All"), StartL(c, k, "Current"), StopL(c, k)} : c \in C, k \in K}}
    \cup {Reply(c, b, r, N) : c \in C, b \in {"0", "1", "2", "3"}, r \in {"Ok", "InvalidArgs"}}
    \cup {Abort(c, x) : c \in C, x \in {"0", "1", "9"}}
    \cup {CreateCh(c, e, <<0, 0>>) : c \in C, e \in {"S", "R"}}
    \cup {CreateL(c) : c \in C}
    \cup {Register(c, <<7001>>) : c \in C}
    \cup {QIntro(c, t) : c \in C, t \in {7001, 7003}}
    \cup {IntroReply(c, x, r, N) : c \in C, x \in {"q7001", "9"}, r \in {"Ok", "Unavailable"}}
    \cup {Synch(c) : c \in C}
    \cup {M(c, [k |-> "SubscribeEvent", s |-> "-1", ck |-> 2, ev |-> "1"]) : c \in C}
    \cup {M(c, [k |-> "UnsubscribeAllEvents", s |-> "-1", ck |-> 2]) : c \in C}
    \cup {M(c, [k |-> "RegisterIntrospection", ok |-> FALSE, types |-> <<>>]) : c \in C}
    \cup {M(c, [k |-> "ServiceDestroyed", ck |-> 2]) : c \in C}
    \cup {M(c, [k |-> "ItemReceived", ck |-> 5, p |-> P(1)]) : c \in C}
    \cup {M(c, [k |-> "SyncReply", s |-> "1"]) : c \in C}

Events(st) ==
    LET C == DOMAIN st.conns IN
    CASE Focus = "calls" ->
           {Call(c, k, x, N) : c \in C, k \in Mine(st), x \in {"0", "1"}}
           \cup {Call2(c, k, "0", N) : c \in C \ {1}, k \in DOMAIN st.svcs}
           \cup {Reply(c, b, r, N) : c \in C, b \in Serials, r \in {"Ok", "Err"}}
           \cup {Abort(c, x) : c \in C, x \in {"0", "1"}}
           \cup {DestroySvc(1, k) : k \in DOMAIN st.svcs} \cup {DestroyObj(1, 1)}
           \cup {CreateSvc(1, 1, u) : u \in {6001}} 
           \cup {Go(c, "eof") : c \in C}
      [] Focus = "reg" ->
           {CreateObj(c, u) : c \in C, u \in {5001, 5002}}
           \cup {DestroyObj(c, k) : c \in C, k \in {9001} \cup DOMAIN st.objs}
           \cup {CreateSvc(c, k, u) : c \in C, k \in {9001} \cup DOMAIN st.objs, u \in {6001, 6002}}
           \cup {DestroySvc(c, k) : c \in C, k \in Ncks(st)}
           \cup {QVer(c, k) : c \in C, k \in Ncks(st)}
           \cup {SubEv(c, k, "0") : c \in C, k \in Ncks(st)}
           \cup {Go(c, w) : c \in C, w \in {"shut", "kill"}}
      [] Focus \in {"events", "events2"} ->
           {SubEv(c, k, x) : c \in C, k \in Mine(st), x \in {"0", "1"}}
           \cup {UnsubEv(c, k, x) : c \in C, k \in DOMAIN st.svcs, x \in {"0", "1"}}
           \cup UNION {{SubAll(c, k), UnsubAll(c, k), SubSvc(c, k), UnsubSvc(c, k)} : c \in C, k \in DOMAIN st.svcs}
           \cup {Emit(c, k, x, N) : c \in C, k \in DOMAIN st.svcs, x \in {"0", "1"}}
           \cup {DestroySvc(c, k) : c \in C, k \in DOMAIN st.svcs}
           \cup {Go(c, "terr") : c \in C}
      [] Focus = "chan" ->
           {CreateCh(c, "S", NoCap) : c \in C} \cup {CreateCh(c, "R", k) : c \in C, k \in {<<0, 0>>, <<0, 2>>}}
           \cup {Claim(c, k, "S", NoCap) : c \in C, k \in Chs(st)}
           \cup {Claim(c, k, "R", n) : c \in C, k \in Chs(st), n \in {<<0, 0>>, <<0, 1>>}}
           \cup {CloseCh(c, k, e) : c \in C, k \in Chs(st), e \in {"S", "R"}}
           \cup {Send(c, k, N) : c \in C, k \in Chs(st)}
           \cup {AddCap(c, k, n) : c \in C, k \in Chs(st), n \in {<<0, 1>>, BigCap}}
           \cup {Go(c, "eof") : c \in C}
      [] Focus = "flow" ->
           {Send(c, 1, N) : c \in C}
           \cup {AddCap(c, 1, n) : c \in C, n \in {<<0, 0>>, <<0, 1>>, <<0, 4>>, <<0, 7>>, <<65535, 65528>>, BigCap}}
           \cup {CloseCh(1, 1, "R"), CloseCh(2, 1, "S")}
      [] Focus = "listen" ->
           LET L == DOMAIN st.lst IN
           UNION {{StartL(1, k, "All"), StartL(1, k, "New"), StartL(1, k, "Current"), StopL(1, k),
                   DestroyL(1, k), AddF(1, k, FO(5002)), AddF(1, k, FS(5001, 0)), AddF(1, k, FO(0)),
                   RemF(1, k, FO(0)), ClearF(1, k)} : k \in L}
           \cup {StartL(2, k, "All") : k \in L} \cup {AddF(2, k, FO(0)) : k \in L}
           \cup {CreateObj(c, u) : c \in C, u \in {5001, 5002}}
           \cup {DestroyObj(2, k) : k \in DOMAIN st.objs}
           \cup {CreateSvc(2, k, 6001) : k \in DOMAIN st.objs}
           \cup {DestroySvc(2, k) : k \in DOMAIN st.svcs}
           \cup {Go(2, "shut")}
      [] Focus = "leave" ->
           {Go(c, w) : c \in C, w \in Ways}
           \cup {Abort(2, "0"), Abort(3, "1"), DestroyObj(2, 3), DestroySvc(1, 2), IntroReply(1, "q7001", "Unavailable", 1),
                 IntroReply(2, "q7001", "Ok", 1), CloseCh(1, 5, "R"), CloseCh(2, 6, "S"), CreateObj(3, 5003), StopL(3, 7)}
           \cup {e \in {[e |-> "idle"], [e |-> "stop"]} : ~st.idle}
      [] Focus = "hostile" -> Everything(st, C) \cup {Go(c, "eof") : c \in C}
      [] Focus = "intro" ->
           {Register(c, T) : c \in C, T \in {<<7001>>, <<7001, 7002>>}}
           \cup {QIntro(c, t) : c \in C, t \in {7001, 7002}}
           \cup {IntroReply(c, "q7001", r, N) : c \in C, r \in {"Ok", "Unavailable"}}
           \cup {Go(c, "eof") : c \in C}
      [] Focus = "gate" ->
           IF Len(hist) = Len(base)
           THEN UNION {{Call(c, 2, "0", N), Call2(c, 2, "0", N), SubAll(c, 2), UnsubAll(c, 2), SubSvc(c, 2), UnsubSvc(c, 2),
                  Abort(c, "0"), Register(c, <<7001>>), QIntro(c, 7001), QInfo(c, 2),
                  CreateSvc2(c, 1, 6002, "yes"), IntroReply(c, "5", "Ok", N), SubEv(c, 2, "1"),
                  CreateCh(c, "R", <<0, 2>>), Synch(c)} : c \in {1, 2}}
           ELSE UNION {{Abort(2, "0"), Reply(1, "0", "Ok", N), Emit(1, 2, "1", N), Go(2, "eof"), SubAll(2, 2), SubAll(2, 3),
                  Emit(1, 3, "1", N), QIntro(2, 7001), IntroReply(1, "q7001", "Ok", N), QInfo(2, 3), UnsubAll(2, 3),
                  Call2(2, 2, "0", N), DestroySvc(1, 2), Claim(2, 3, "S", NoCap), Send(2, 3, N), Claim(1, 3, "S", NoCap),
                  Send(1, 3, N)}}
      [] Focus = "hello" ->
           {[e |-> "connect", c |-> Len(hist) + 1, maj |-> a, min |-> n, how |-> h, rej |-> r] :
              a \in 0..2, n \in {0, 13, 14, 15, 16, 17, 18, 19, 20, 21, 1000},
              h \in {"legacy", "connect2", "other", "baddata"}, r \in BOOLEAN}

Small(st) ==
    /\ Cardinality(st.calls) <= IF Focus \in {"leave", "hostile"} THEN 7 ELSE 3
    /\ Cardinality(st.used) <= IF Focus = "reg" THEN 5 ELSE IF Focus = "chan" THEN 2
                               ELSE IF Focus = "listen" THEN 6 ELSE 12
    /\ \A k \in DOMAIN st.chans : CapLe(st.chans[k].gr, <<0, 14>>) \/ CapLt(<<1, 0>>, st.chans[k].gr)
    /\ \A t \in DOMAIN st.intro : Len(st.intro[t].pend) <= 2
    /\ Cardinality(DOMAIN st.conns) <= 4

(***************************************************************************)
(* Monitors                                                                *)
(***************************************************************************)
Outs(r) == {r.o[j] : j \in DOMAIN r.o}
Nr(r, m) == Cardinality({j \in DOMAIN r.o : r.o[j] = m})
To(r, T(_)) == {j \in DOMAIN r.o : T(r.o[j][2])}
IsMsg(e, k) == e.e = "msg" /\ e.m.k = k
Leaving(st, st2) == DOMAIN st.conns \ DOMAIN st2.conns

\* C02: what a caller is owed.
IsCall(e) == e.e = "msg" /\ e.m.k \in {"CallFunction", "CallFunction2"}
IsCallReply(m) == m.k = "CallFunctionReply"
Replies(r) == {<<r.o[j][1], r.o[j][2].s>> : j \in To(r, IsCallReply)}
\* A serial can be used again while it is pending if the second call fails at once.
Owed(st, e, d) == (IF d \in gh.due THEN 1 ELSE 0)
                  + (IF IsCall(e) /\ Live(st, e.c) /\ d = <<e.c, e.m.s>> THEN 1 ELSE 0)
Paid(r, d) == Cardinality({j \in To(r, IsCallReply) : <<r.o[j][1], r.o[j][2].s>> = d})
GCalls(st, e, r) ==
    LET all == gh.due \cup (IF IsCall(e) THEN {<<e.c, e.m.s>>} ELSE {})
    IN {d \in all : Live(r.s, d[1]) /\ Owed(st, e, d) > Paid(r, d)}
CallErrs(st, e, r) ==
    (IF \A d \in Replies(r) : Paid(r, d) <= Owed(st, e, d) THEN {} ELSE {"C02 more replies than calls"})
    \cup (IF \A j \in To(r, IsCallReply) :
               LET m == r.o[j][2] IN
               m.r \in {"Ok", "Err"} =>
                  /\ IsMsg(e, "CallFunctionReply") /\ m.r = e.m.r /\ m.p.v = e.m.p.v
                  /\ \E x \in st.calls : x.bs = e.m.s /\ OwnerOfSvc(st, x.svc) = e.c /\ x.caller = r.o[j][1]
          THEN {} ELSE {"C02 result from elsewhere"})
    \cup (IF \A d \in GCalls(st, e, r) : \E x \in r.s.calls : x.caller = d[1] /\ x.cs = d[2] /\ ~x.ab /\ SvcLive(r.s, x.svc)
          THEN {} ELSE {"C02 forgotten call"})
    \cup (IF \A x \in r.s.calls : SvcLive(r.s, x.svc) THEN {} ELSE {"C02 call without service"})
    \cup (IF \A x, y \in r.s.calls : x.bs = y.bs /\ x.svc = y.svc => x = y THEN {} ELSE {"C02 ambiguous serial"})

\* C03
CreateKinds == {"CreateObjectReply", "CreateServiceReply", "CreateChannelReply", "CreateBusListenerReply"}
RegErrs(st, e, r) ==
    LET t == r.s
        isOk(m) == m.k \in CreateKinds /\ (m.k \in {"CreateObjectReply", "CreateServiceReply"} => m.r = "Ok")
    IN
    (IF \A a, b \in DOMAIN t.objs : t.objs[a].u = t.objs[b].u => a = b THEN {} ELSE {"C03 two objects"})
    \cup (IF \A a, b \in DOMAIN t.svcs : t.svcs[a].o = t.svcs[b].o /\ t.svcs[a].u = t.svcs[b].u => a = b
          THEN {} ELSE {"C03 two services"})
    \cup (IF \A k \in DOMAIN t.svcs : t.svcs[k].o \in DOMAIN t.objs THEN {} ELSE {"C03 service without object"})
    \cup (IF \A k \in DOMAIN t.objs : Live(t, t.objs[k].c) THEN {} ELSE {"C03 object without owner"})
    \cup (IF \A j \in To(r, isOk) : r.o[j][2].ck \notin st.used THEN {} ELSE {"C03 cookie used before"})
    \cup (IF \A k \in (DOMAIN st.objs) \ (DOMAIN t.objs) :
               \/ ~Live(t, st.objs[k].c) \/ t.stop
               \/ IsMsg(e, "DestroyObject") /\ e.m.ck = k /\ e.c = st.objs[k].c
          THEN {} ELSE {"C03 object destroyed by a stranger"})
    \cup (IF \A k \in (DOMAIN st.svcs) \ (DOMAIN t.svcs) :
               \/ st.svcs[k].o \notin DOMAIN t.objs
               \/ IsMsg(e, "DestroyService") /\ e.m.ck = k /\ e.c = OwnerOfSvc(st, k)
          THEN {} ELSE {"C03 service destroyed by a stranger"})
    \cup (IF \A k \in DOMAIN t.svcs \ DOMAIN st.svcs : e.e = "msg" /\ e.c = t.objs[t.svcs[k].o].c
          THEN {} ELSE {"C03 service created by a stranger"})
    \cup (IF e.e = "msg" /\ e.m.k \in {"QueryServiceVersion", "SubscribeEvent", "SubscribeService", "QueryServiceInfo"}
             /\ Live(st, e.c) /\ Live(t, e.c)
             /\ ~(\E j \in DOMAIN r.o : r.o[j][1] = e.c /\ "r" \in DOMAIN r.o[j][2]
                                        /\ (r.o[j][2].r = "Ok") = (e.m.ck \in DOMAIN st.svcs))
          THEN {"C03 query"} ELSE {})

\* C04: what the owner believes to be wanted.
IsTold(m) == m.k \in {"SubscribeEvent", "UnsubscribeEvent", "SubscribeAllEvents", "UnsubscribeAllEvents"}
Key(m) == <<m.ck, IF m.k \in {"SubscribeEvent", "UnsubscribeEvent"} THEN m.ev ELSE "*">>
GTold(r) ==
    LET J == To(r, IsTold)
        on == {Key(r.o[j][2]) : j \in {j \in J : r.o[j][2].k \in {"SubscribeEvent", "SubscribeAllEvents"}}}
        off == {Key(r.o[j][2]) : j \in {j \in J : r.o[j][2].k \in {"UnsubscribeEvent", "UnsubscribeAllEvents"}}}
    IN {x \in (gh.told \cup on) \ off : SvcLive(r.s, x[1])}
Wanted(st) == {<<t[1], t[2]>> : t \in st.es} \cup {<<t[1], "*">> : t \in st.as}
EventErrs(st, e, r) ==
    LET J == To(r, IsTold)
        isEmit(m) == m.k = "EmitEvent"
        isGone(m) == m.k = "ServiceDestroyed"
        E == To(r, isEmit)
        subs == {c \in DOMAIN st.conns : <<e.m.ck, e.m.ev, c>> \in st.es \/ <<e.m.ck, c>> \in st.as}
        dead == (DOMAIN st.svcs) \ (DOMAIN r.s.svcs)
        needs == {<<c, k>> \in ((DOMAIN st.conns) \cap (DOMAIN r.s.conns)) \X dead :
                    <<k, c>> \in st.ss \/ \E t \in st.es : t[1] = k /\ t[3] = c}
    IN (IF GTold(r) = Wanted(r.s) THEN {} ELSE {"C04 owner misinformed"})
       \cup (IF \A j \in J : /\ r.o[j][1] = OwnerOfSvc(r.s, r.o[j][2].ck)
                             /\ (Key(r.o[j][2]) \in gh.told) =
                                (r.o[j][2].k \in {"UnsubscribeEvent", "UnsubscribeAllEvents"})
             THEN {} ELSE {"C04 told without a change"})
       \cup (IF E # {} /\ ~(IsMsg(e, "EmitEvent") /\ SvcLive(st, e.m.ck) /\ OwnerOfSvc(st, e.m.ck) = e.c)
             THEN {"C04 event out of nothing"} ELSE {})
       \cup (IF IsMsg(e, "EmitEvent") /\ SvcLive(st, e.m.ck) /\ OwnerOfSvc(st, e.m.ck) = e.c
             THEN IF {r.o[j][1] : j \in E} = subs /\ Cardinality(E) = Cardinality(subs)
                     /\ \A j \in E : r.o[j][2].p.v = e.m.p.v /\ r.o[j][2].ck = e.m.ck /\ r.o[j][2].ev = e.m.ev
                  THEN {} ELSE {"C04 wrong recipients"}
             ELSE {})
       \cup (IF r.s.stop \/ ({<<r.o[j][1], r.o[j][2].ck>> : j \in To(r, isGone)} = needs
                              /\ Cardinality(To(r, isGone)) = Cardinality(needs))
             THEN {} ELSE {"C04 destruction not announced once"})
       \cup (IF \A k \in dead : \A t \in r.s.es \cup r.s.as \cup r.s.ss : t[1] # k
             THEN {} ELSE {"C04 subscription outlives service"})

\* C05: credit as seen on the wire: <<announced to the sender - sent, granted - forwarded>>.
GCred(st, e, r) ==
    LET ch(k) == r.s.chans[k]
        old(k) == IF k \in DOMAIN gh.cred THEN gh.cred[k] ELSE <<NoCap, NoCap>>
        isAnn(m) == m.k = "AddChannelCapacity"
        isItem(m) == m.k = "ItemReceived"
        ann(k) == {j \in To(r, isAnn) : r.o[j][2].ck = k}
        item(k) == {j \in To(r, isItem) : r.o[j][2].ck = k}
        \* announcements of the initial capacity
        hello(k) ==
            LET a == {j \in DOMAIN r.o : r.o[j][2].k = "ChannelEndClaimed" /\ r.o[j][2].ck = k /\ r.o[j][2].end = "R"}
                b == {j \in DOMAIN r.o : r.o[j][2].k = "ClaimChannelEndReply" /\ r.o[j][2].r = "SenderClaimed"
                                         /\ IsMsg(e, "ClaimChannelEnd") /\ e.m.ck = k}
            IN a \cup b
        grant(k) == IF IsMsg(e, "CreateChannel") /\ e.m.end = "R" /\ k \notin DOMAIN st.chans THEN e.m.cap
                    ELSE IF IsMsg(e, "ClaimChannelEnd") /\ e.m.ck = k /\ e.m.end = "R" /\ st.chans[k].r = 0 THEN e.m.cap
                    ELSE IF IsMsg(e, "AddChannelCapacity") /\ e.m.ck = k /\ k \in DOMAIN st.chans /\ st.chans[k].r = e.c
                    THEN e.m.cap ELSE NoCap
        plus(a, J) == IF J = {} THEN a ELSE CapAdd(a, r.o[CHOOSE j \in J : TRUE][2].cap)
        minus(a, J) == IF J = {} THEN a ELSE IF a = NoCap THEN <<-1, 0>> ELSE CapSub(a, CapOne)
    IN [k \in DOMAIN r.s.chans |->
          IF ch(k).s = -1 \/ ch(k).r = -1 THEN <<NoCap, NoCap>>
          ELSE <<plus(plus(minus(old(k)[1], item(k)), ann(k)), hello(k)),
                 minus(CapAdd(old(k)[2], grant(k)), item(k))>>]
ChanErrs(st, e, r) ==
    LET n == GCred(st, e, r)
        isItem(m) == m.k = "ItemReceived"
        isClosed(m) == m.k = "ChannelEndClosed"
        isClaimed(m) == m.k = "ChannelEndClaimed"
        both == {k \in DOMAIN r.s.chans : r.s.chans[k].s > 0 /\ r.s.chans[k].r > 0}
        \* ends that closed while the other one is owned by somebody who is still there
        shut == {<<k, x>> \in (DOMAIN st.chans) \X {"S", "R"} :
                   /\ EndOf(st.chans[k], x) # -1
                   /\ k \notin DOMAIN r.s.chans \/ EndOf(r.s.chans[k], x) = -1
                   /\ OtherOf(st.chans[k], x) > 0 /\ Live(r.s, OtherOf(st.chans[k], x))
                   /\ k \in DOMAIN r.s.chans}
        told == {<<r.o[j][2].ck, r.o[j][2].end>> : j \in To(r, isClosed)}
        unclaimedSend == IsMsg(e, "SendItem") /\ e.m.ck \in DOMAIN st.chans /\ st.chans[e.m.ck].s = e.c
                         /\ st.chans[e.m.ck].r = 0
    IN (IF \A k \in DOMAIN n : n[k][1][1] >= 0 /\ n[k][2][1] >= 0 /\ n[k][2][1] <= 65535 THEN {} ELSE {"C05 credit exceeded"})
       \cup (IF \A k \in both : CapLe(n[k][1], n[k][2]) THEN {} ELSE {"C05 announced more than granted"})
       \cup (IF \A k \in both : n[k][2] # NoCap => n[k][1] # NoCap THEN {} ELSE {"C05 sender starves"})
       \cup (IF IsMsg(e, "SendItem") /\ e.m.ck \in DOMAIN st.chans /\ st.chans[e.m.ck].s = e.c
                /\ st.chans[e.m.ck].r > 0
             THEN IF gh.cred[e.m.ck][1] # NoCap
                  THEN IF /\ Cardinality(To(r, isItem)) = 1
                          /\ \E j \in To(r, isItem) : r.o[j][1] = st.chans[e.m.ck].r /\ r.o[j][2].p.v = e.m.p.v
                          /\ r.s.chans[e.m.ck].s = e.c /\ r.s.chans[e.m.ck].r = st.chans[e.m.ck].r
                       THEN {} ELSE {"C05 item not delivered once"}
                  ELSE IF To(r, isItem) = {} /\ Live(r.s, e.c) THEN {} ELSE {"C05 too many items"}
             ELSE IF To(r, isItem) = {} THEN {} ELSE {"C05 item out of nothing"})
       \cup (IF r.s.stop \/ unclaimedSend \/ (told = shut /\ Cardinality(To(r, isClosed)) = Cardinality(shut))
             THEN {} ELSE {"C05 closing not announced once"})
       \cup (IF \A j \in To(r, isClosed) : unclaimedSend \/ r.o[j][1] = OtherOf(st.chans[r.o[j][2].ck], r.o[j][2].end)
             THEN {} ELSE {"C05 wrong peer told"})
       \cup (IF \A k \in (DOMAIN st.chans) \cap (DOMAIN r.s.chans) : \A x \in {"S", "R"} :
                  LET a == EndOf(st.chans[k], x) b == EndOf(r.s.chans[k], x) IN
                  a # b => \/ a = 0 /\ b > 0 /\ IsMsg(e, "ClaimChannelEnd") /\ e.c = b
                              /\ Cardinality({j \in To(r, isClaimed) : r.o[j][1] = OtherOf(st.chans[k], x)}) = 1
                           \/ b = -1 /\ a = 0 /\ IsMsg(e, "CloseChannelEnd")
                           \/ b = -1 /\ a > 0 /\ (~Live(r.s, a) \/ e.c = a)
             THEN {} ELSE {"C05 end state machine"})

\* C09
LeaveErrs(st, e, r) ==
    LET t == r.s IN
    (IF DOMAIN t.conns = {} /\ ~(/\ t.objs = EmptyFn /\ t.svcs = EmptyFn /\ t.calls = {} /\ t.es = {} /\ t.as = {}
                                 /\ t.ss = {} /\ t.chans = EmptyFn /\ t.lst = EmptyFn /\ t.intro = EmptyFn)
     THEN {"C09 residue"} ELSE {})
    \cup (IF \A c \in Leaving(st, t) : \A j \in DOMAIN r.o :
               r.o[j][1] = c => r.o[j][2].k \in {"Shutdown", "Closed"}
          THEN {} ELSE {"C09 message to nobody"})
    \cup (IF \A c \in Leaving(st, t) :
               /\ \A k \in DOMAIN t.lst : t.lst[k].c # c
               /\ \A k \in DOMAIN t.chans : t.chans[k].s # c /\ t.chans[k].r # c
               /\ \A x \in t.calls : x.caller = c => x.ab
               /\ \A y \in t.es : y[3] # c
               /\ \A y \in t.as \cup t.ss : y[2] # c
               /\ \A y \in DOMAIN t.intro : c \notin t.intro[y].prov /\ t.intro[y].q # c
          THEN {} ELSE {"C09 leftovers"})
    \cup (IF e.e = "stop" /\ ~Terminated(st)
             /\ ~(t.stop /\ \A c \in DOMAIN st.conns : <<c, [k |-> "Shutdown"]>> \in Outs(r))
          THEN {"C09 shutdown"} ELSE {})

\* C10
Ents(st) == {<<"O", k>> : k \in DOMAIN st.objs} \cup {<<"S", k>> : k \in DOMAIN st.svcs}
EntOf(m) == IF m.be \in {"OC", "OD"} THEN <<"O", m.ock>> ELSE <<"S", m.sck>>
FltHit(st, f, x) ==
    IF x[1] = "O" THEN f.t = "O" /\ (f.o = 0 \/ f.o = st.objs[x[2]].u)
    ELSE LET v == st.svcs[x[2]] IN
         f.t = "S" /\ (f.o = 0 \/ f.o = st.objs[v.o].u) /\ (f.s = 0 \/ f.s = v.u)
ListenErrs(st, e, r) ==
    LET isBus(m) == m.k = "EmitBusEvent"
        isEnd(m) == m.k = "BusListenerCurrentFinished"
        B == To(r, isBus)
        fresh == {j \in B : r.o[j][2].ck = 0}
        tagged == B \ fresh
        born == Ents(r.s) \ Ents(st)
        died == Ents(st) \ Ents(r.s)
        hears(c, q, x) == \E l \in DOMAIN st.lst : st.lst[l].c = c /\ st.lst[l].sc \in {"New", "All"}
                                                     /\ \E f \in st.lst[l].f : FltHit(q, f, x)
        stay == (DOMAIN st.conns) \cap (DOMAIN r.s.conns)
        need == {<<c, x, "+">> : <<c, x>> \in {<<c, x>> \in stay \X born : hears(c, r.s, x)}}
                \cup {<<c, x, "-">> : <<c, x>> \in {<<c, x>> \in stay \X died : hears(c, st, x)}}
        got == {<<r.o[j][1], EntOf(r.o[j][2]), IF r.o[j][2].be \in {"OC", "SC"} THEN "+" ELSE "-">> : j \in fresh}
        starts == IsMsg(e, "StartBusListener") /\ e.m.ck \in DOMAIN st.lst /\ st.lst[e.m.ck].c = e.c
                  /\ st.lst[e.m.ck].sc = "no" /\ e.m.scope \in {"Current", "All"}
        cur == {x \in Ents(st) : \E f \in st.lst[e.m.ck].f : FltHit(st, f, x)}
    IN (IF r.s.stop \/ (got = need /\ Cardinality(got) = Cardinality(fresh)) THEN {} ELSE {"C10 new events"})
       \cup (IF starts
             THEN IF /\ {EntOf(r.o[j][2]) : j \in tagged} = cur /\ Cardinality(tagged) = Cardinality(cur)
                     /\ \A j \in tagged : r.o[j][1] = e.c /\ r.o[j][2].ck = e.m.ck /\ r.o[j][2].be \in {"OC", "SC"}
                     /\ Cardinality(To(r, isEnd)) = 1
                     /\ \A j \in To(r, isEnd) : r.o[j][2].ck = e.m.ck /\ \A i \in tagged : i < j
                  THEN {} ELSE {"C10 current entities"}
             ELSE IF tagged = {} /\ To(r, isEnd) = {} THEN {} ELSE {"C10 tag out of nothing"})
       \cup (IF \A i, j \in fresh : i < j => ~Precedes(r.o[j][2], r.o[i][2]) THEN {} ELSE {"C10 order"})

\* C12: kinds by the version that introduced them.
Since(k) ==
    CASE k = "AbortFunctionCall" -> 16
      [] k \in {"QueryIntrospection", "QueryIntrospectionReply", "QueryServiceInfoReply"} -> 17
      [] k \in {"SubscribeServiceReply", "SubscribeAllEvents", "SubscribeAllEventsReply",
                "UnsubscribeAllEvents", "UnsubscribeAllEventsReply"} -> 18
      [] k = "CallFunction2" -> 19
      [] k = "ConnectReply2" -> 14
      [] OTHER -> 14
VersErrs(st, e, r) ==
    LET ver(c) == IF Live(st, c) THEN st.conns[c] ELSE IF Live(r.s, c) THEN r.s.conns[c] ELSE 20
    IN (IF \A j \in DOMAIN r.o : Since(r.o[j][2].k) <= ver(r.o[j][1]) THEN {} ELSE {"C12 kind too new"})
       \cup (IF \A j \in DOMAIN r.o : "p" \in DOMAIN r.o[j][2] /\ ver(r.o[j][1]) < 20 /\ e.e = "msg" /\ ver(e.c) = 20
                                       => r.o[j][2].p.w < 2
             THEN {} ELSE {"C12 new encoding sent to an old peer"})
       \cup (IF e.e = "msg" /\ Live(st, e.c) /\ Ver(st, e.c) < MinVersion(e.m.k) /\ Live(r.s, e.c)
             THEN {"C12 message too new accepted"} ELSE {})
       \cup (IF e.e = "connect" /\ Live(r.s, e.c)
                /\ ~(\/ e.how = "legacy" /\ e.min = 14 /\ r.s.conns[e.c] = 14
                     \/ e.how = "connect2" /\ e.maj = 1 /\ e.min >= 14
                        /\ r.s.conns[e.c] = (IF e.min < 20 THEN e.min ELSE 20))
             THEN {"C12 handshake"} ELSE {})

\* C11: what belongs to others is untouched, and nobody else is thrown out.
HostErrs(st, e, r) ==
    LET t == r.s IN
    (IF e.e = "msg" /\ ~((DOMAIN st.conns) \ (DOMAIN t.conns) \subseteq {e.c}) THEN {"C11 somebody else thrown out"} ELSE {})
    \cup (IF e.e = "msg" /\ \E k \in DOMAIN st.objs : st.objs[k].c # e.c /\ k \notin DOMAIN t.objs
          THEN {"C11 foreign object gone"} ELSE {})
    \cup (IF e.e = "msg" /\ \E k \in DOMAIN st.lst : st.lst[k].c # e.c /\ (k \notin DOMAIN t.lst \/ t.lst[k] # st.lst[k])
          THEN {"C11 foreign listener changed"} ELSE {})
    \cup (IF e.e = "msg" /\ \E x \in st.es : x[3] # e.c /\ SvcLive(t, x[1]) /\ x \notin t.es
          THEN {"C11 foreign subscription gone"} ELSE {})
    \cup (IF e.e = "msg" /\ \E x \in st.calls : x.caller # e.c /\ OwnerOfSvc(st, x.svc) # e.c /\ x \notin t.calls
          THEN {"C11 foreign call gone"} ELSE {})

Broken(st, e, r) ==
    IF Terminated(st) THEN {}
    ELSE UNION {RegErrs(st, e, r), CallErrs(st, e, r), EventErrs(st, e, r), ChanErrs(st, e, r),
                LeaveErrs(st, e, r), ListenErrs(st, e, r), VersErrs(st, e, r), HostErrs(st, e, r)}

(***************************************************************************)
(* Behaviours                                                              *)
(***************************************************************************)
G0 == [due |-> {}, told |-> {}, cred |-> EmptyFn]
GNext(st, e, r) ==
    IF r.s.stop THEN G0
    ELSE [due |-> GCalls(st, e, r), told |-> GTold(r), cred |-> GCred(st, e, r)]

\* For the replay: which alias a call forwarded by the broker gets.
Tag(st, e, r) ==
    IF IsCall(e)
    THEN LET X == r.s.calls \ st.calls IN
         e @@ [al |-> IF X = {} THEN "" ELSE (CHOOSE x \in X : TRUE).bs]
    ELSE e

Do(e) ==
    LET X == Step(sys, e, ChFor(sys, e)) IN
    \/ /\ X = {}
       /\ err' = {"C11 no reaction"}
       /\ hist' = Append(hist, e)
       /\ UNCHANGED <<sys, gh, base>>
    \/ \E r \in X :
       /\ sys' = r.s
       /\ hist' = Append(hist, Tag(sys, e, r))
       /\ gh' = GNext(sys, e, r)
       /\ err' = Broken(sys, e, r)
       /\ UNCHANGED base

\* The setup is played step by step, so that the monitors watch it too.
Init == sys = Init0 /\ gh = G0 /\ err = {} /\ hist = <<>> /\ base \in Setups
Next == IF Len(hist) < Len(base)
        THEN Do(base[Len(hist) + 1])
        ELSE IF Walk /\ Len(hist) - Len(base) = Depth
        THEN PrintT("HIST " \o ToJson(hist)) /\ UNCHANGED vars
        ELSE \E e \in IF Walk THEN RandomSubset(6, Events(sys)) ELSE Events(sys) : Do(e)

Bound == Len(hist) - Len(base) <= Depth /\ Small(sys)
Held == err = {}

\* Prints the histories of a sample of all transitions.
Show == \/ Walk
        \/ Len(hist') <= Len(base)
         \/ TLCFP(<<hist', Seed>>) % 100000 >= Sample
         \/ PrintT("HIST " \o ToJson(hist'))
Played == IF Len(hist) < Len(base) THEN Len(hist) ELSE -1
View2 == <<sys, gh, err, base, Played>>
Spec == Init /\ [][Next]_vars
===============================================================================
