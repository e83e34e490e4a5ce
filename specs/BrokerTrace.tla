------------------------------ MODULE BrokerTrace ------------------------------
(***************************************************************************)
(* Checks recorded behaviour of the real broker against Broker.tla.        *)
(*                                                                         *)
(* The file named by TRACE holds one JSON value per line: "reset" starts a *)
(* fresh broker, "step" is a batch of events in the order in which the     *)
(* broker dequeued them together with everything every connection received *)
(* until the system was quiet again.                                       *)
(*                                                                         *)
(* The broker's free choices make the specification nondeterministic, so   *)
(* the variable cfg is the set of all specification states that explain    *)
(* everything observed so far; a step that leaves it empty is a violation. *)
(***************************************************************************)
EXTENDS Broker, Json, IOUtils, TLCExt

TraceFile == IOEnv.TRACE
Lines == ndJsonDeserialize(TraceFile)

VARIABLES i,       \* next line
          cfg,     \* set of possible broker states
          bad,     \* current trace already failed
          trace,   \* id of the current trace
          fails,   \* number of failed traces
          known    \* how often the known findings showed up
vars == <<i, cfg, bad, trace, fails, known>>

(***************************************************************************)
(* Observations                                                            *)
(***************************************************************************)
NormM(m, ver) ==
    IF m.k = "Closed" THEN [k |-> "Closed"]
    ELSE IF m.k = "ConnectReply2" THEN [m EXCEPT !.w = 0]
    ELSE IF m.k = "QueryServiceInfoReply" THEN [m EXCEPT !.w = IF @ = 2 /\ ver < 20 THEN 2 ELSE 0]
    ELSE m

\* Minor version of every connection in the states of cfg or connecting in this step.
VersOf(s, evs) ==
    LET new == {e \in ToSet(evs) : e.e = "connect"} IN
    [c \in DOMAIN s.conns \cup {e.c : e \in new} |->
        IF c \in DOMAIN s.conns THEN s.conns[c]
        ELSE LET e == CHOOSE e \in new : e.c = c IN IF e.min > 20 THEN 20 ELSE e.min]

ObsOf(l, s) ==
    LET ver == VersOf(s, l.ev)
        who == {o.c : o \in ToSet(l.out)}
    IN [c \in who \cup DOMAIN ver |->
          IF c \in who
          THEN LET o == CHOOSE o \in ToSet(l.out) : o.c = c
               IN [j \in 1..Len(o.ms) |-> NormM(o.ms[j], IF c \in DOMAIN ver THEN ver[c] ELSE 20)]
          ELSE <<>>]

Deaf(l) == {e.c : e \in {e \in ToSet(l.ev) :
                e.e \in {"shut", "eof", "terr", "drop", "xfail", "xconv"}}}

Count(x, q) == Cardinality({j \in DOMAIN q : q[j] = x})
Matches(exp, seg) ==
    /\ exp = seg \/ \A j \in DOMAIN exp : Count(exp[j], exp) = Count(exp[j], seg)
    /\ \A a, b \in DOMAIN seg : a < b => ~Precedes(seg[b], seg[a])

\* Payloads that cannot be re-encoded for an old peer.
Lost(s, e, o) ==
    /\ e.e = "msg" /\ Live(s, e.c) /\ Live(s, o[1]) /\ Ver(s, o[1]) < 20
    /\ "p" \in DOMAIN o[2] /\ o[2].p.bad
    /\ o[2].k = "QueryIntrospectionReply" \/ Ver(s, e.c) >= 20

(***************************************************************************)
(* Candidates for the choices of the broker, taken from the observations.  *)
(***************************************************************************)
Rest(x, obs, c) == IF c \in DOMAIN obs THEN SubSeq(obs[c], x.pos[c] + 1, Len(obs[c])) ELSE <<>>
First(q, T(_)) == LET J == {j \in DOMAIN q : T(q[j])} IN
                  IF J = {} THEN {} ELSE {q[CHOOSE j \in J : \A k \in J : j <= k]}

\* A placeholder for a serial nobody got to see.
Unseen(S) == "?" \o ToString(CHOOSE n \in 0..Cardinality(S) : ("?" \o ToString(n)) \notin S)

CreateReplies == {"CreateObjectReply", "CreateServiceReply", "CreateChannelReply",
                  "CreateBusListenerReply"}
Cands(l, x, obs, e) ==
    LET deaf == Deaf(l) \cup x.z
        s == x.s
        rest == [c \in DOMAIN obs |-> Rest(x, obs, c)]
        all == UNION {{<<c, rest[c][j]>> : j \in DOMAIN rest[c]} : c \in DOMAIN rest}
        msg == e.e = "msg"
        ck == IF ~msg \/ "s" \notin DOMAIN e.m THEN {}
              ELSE IF e.c \in deaf
              THEN {-1000 - Cardinality(s.used)}
                   \cup UNION {{y[2].ock, y[2].sck} : y \in {y \in all : y[2].k = "EmitBusEvent"}}
              ELSE LET f == First(rest[e.c], LAMBDA m : m.k \in CreateReplies /\ m.s = e.m.s)
                   IN {m.ck : m \in f} \ {0}
        said(c, k) == {f.m.s : f \in {f \in ToSet(l.ev) : f.e = "msg" /\ f.c = c /\ f.m.k = k}}
        bs == [c \in DOMAIN s.conns |->
                 IF ~msg THEN {}
                 ELSE IF c \in deaf
                 THEN {Unseen({y.bs : y \in s.calls})} \cup said(c, "CallFunctionReply")
                 ELSE {m.s : m \in First(rest[c], LAMBDA m : m.k \in {"CallFunction", "CallFunction2"})}]
        pv == [t \in DOMAIN s.intro |->
                 {<<y[1], y[2].s>> : y \in {y \in all : y[2].k = "QueryIntrospection" /\ y[2].ty = t
                                                        /\ y[1] \notin deaf}}
                 \cup UNION {{<<c, r>> : r \in {"?" \o ToString(t)} \cup said(c, "QueryIntrospectionReply")}
                             : c \in deaf}]
        ann == [k \in DOMAIN s.chans |->
                 LET ch == s.chans[k]
                     more == IF msg /\ e.m.k = "AddChannelCapacity" THEN e.m.cap ELSE NoCap
                     room == CapAdd(ch.gr, more)
                 IN {NoCap} \cup
                    IF ch.s <= 0 THEN {}
                    ELSE IF ch.s \in deaf
                    THEN (IF CapLe(ch.gs, ch.gr) THEN {CapSub(ch.gr, ch.gs)} ELSE {})
                         \cup (IF CapLe(ch.gs, room) THEN {CapSub(room, ch.gs)} ELSE {})
                    ELSE {m.cap : m \in First(rest[ch.s],
                              LAMBDA m : m.k = "AddChannelCapacity" /\ m.ck = k)}]
    IN [ck |-> ck, bs |-> bs, pv |-> pv, ann |-> ann]

(***************************************************************************)
(* One event: x is [s, pos, lost]                                          *)
(***************************************************************************)
LooseOnStop == {"ServiceDestroyed", "CallFunctionReply", "UnsubscribeEvent",
    "UnsubscribeAllEvents", "ChannelEndClosed", "EmitBusEvent", "AbortFunctionCall",
    "QueryIntrospectionReply", "QueryIntrospection"}

StopOk(q) == LET n == Len(q) IN
    /\ n >= 2 /\ q[n - 1].k = "Shutdown" /\ q[n].k = "Closed"
    /\ \A j \in 1..(n - 2) : q[j].k \in LooseOnStop

\* Connections whose task was dropped. The broker is supposed to let go of such a connection at
\* once; the real one notices when it next tries to send something to it (known finding), which
\* it then has to. z holds the connections that are gone but not yet noticed.
RECURSIVE Noticed(_, _, _)
Noticed(r, z, Ch) ==
    LET hit(c) == {r.o[j][2].k : j \in {j \in DOMAIN r.o : r.o[j][1] = c}}
        D == {c \in z : Live(r.s, c) /\ hit(c) # {}}
        \* failures of these are ignored
        M == {c \in D : ~(hit(c) \subseteq {"SubscribeEvent", "SubscribeAllEvents", "UnsubscribeAllEvents"})}
    IN (IF M = {} THEN {r} ELSE {})
       \cup UNION {UNION {Noticed([s |-> q.s, o |-> r.o \o q.o], z, Ch) : q \in Leave(r.s, c, Ch)}
                   : c \in IF M = {} THEN D ELSE M}

\* Results [s, z, o] of event e.
Outcomes(l, x, e, Ch) ==
    LET fin(S, z) == {[s |-> r.s, o |-> r.o, z |-> z \cap DOMAIN r.s.conns] : r \in S}
        dropped == {f.c : f \in {f \in ToSet(l.ev) : f.e = "drop"}}
        z == x.z \cup (dropped \cap DOMAIN x.s.conns)
        S1 == Step(x.s, e, Ch)
        own == e.e = "msg" /\ e.c \in z /\ \E r \in S1 : \E j \in DOMAIN r.o : r.o[j][1] = e.c
    IN IF e.e = "drop"
       THEN fin(S1, x.z) \cup (IF Live(x.s, e.c) /\ ~Terminated(x.s)
                               THEN {[s |-> x.s, o |-> <<>>, z |-> z]} ELSE {})
       ELSE fin(UNION {Noticed(r, z, Ch) : r \in S1}, x.z)
            \cup (IF own THEN fin(UNION {Noticed(r, z, Ch) : r \in Leave(x.s, e.c, Ch)}, x.z) ELSE {})

Event(l, obs, x, e) ==
    IF e.e = "stop"
    THEN IF Terminated(x.s) THEN {x}
         ELSE {[s |-> r.s, lost |-> x.lost, z |-> {},
           pos |-> [c \in DOMAIN obs |->
                      IF c \in DOMAIN x.s.conns THEN Len(obs[c]) ELSE x.pos[c]]] :
           r \in {r \in StopAll(x.s) :
                \A c \in (DOMAIN x.s.conns \ Deaf(l)) \ x.z : StopOk(Rest(x, obs, c))}}
    ELSE UNION {LET lost == {r.o[j] : j \in {j \in DOMAIN r.o : Lost(x.s, e, r.o[j])}}
                    o == SelectSeq(r.o, LAMBDA m : m \notin lost)
                    to(c) == LET q == SelectSeq(o, LAMBDA m : m[1] = c)
                             IN [j \in DOMAIN q |-> q[j][2]]
                    who == ({o[j][1] : j \in DOMAIN o} \ Deaf(l)) \ x.z
                    ok == \A c \in who :
                            /\ x.pos[c] + Len(to(c)) <= Len(obs[c])
                            /\ Matches(to(c), SubSeq(obs[c], x.pos[c] + 1, x.pos[c] + Len(to(c))))
                IN IF ok
                   THEN {[s |-> r.s, lost |-> x.lost \cup {m[1] : m \in lost}, z |-> r.z,
                          pos |-> [c \in DOMAIN obs |->
                                     IF c \in who THEN x.pos[c] + Len(to(c)) ELSE x.pos[c]]]}
                   ELSE {}
                : r \in Outcomes(l, x, e, Cands(l, x, obs, e))}

RECURSIVE Fold(_, _, _, _)
Fold(l, obs, X, evs) ==
    IF evs = <<>> THEN X
    ELSE Fold(l, obs, UNION {Event(l, obs, x, Head(evs)) : x \in X}, Tail(evs))

(***************************************************************************)
(* What has to hold once the system is quiet                               *)
(***************************************************************************)
Size(f) == Cardinality(DOMAIN f)
SnapOk(s, n) ==
    /\ n.conns = Size(s.conns)
    /\ n.objs = Size(s.objs) /\ n.obj_uuids = Size(s.objs)
    /\ n.svcs = Size(s.svcs) /\ n.svc_uuids = Size(s.svcs)
    /\ LET ab == Cardinality({x \in s.calls : x.ab})
           open == Cardinality(s.calls) - ab IN
       n.conn_calls = open /\ n.calls - n.aborted = open /\ n.aborted <= ab
    /\ n.channels = Size(s.chans)
    /\ n.listeners = Size(s.lst)
    /\ n.events = Cardinality(s.es)
    /\ n.all_events = Cardinality(s.as)
    /\ n.subscriptions = Cardinality(s.ss)
    /\ n.introspection = Size(s.intro)
    /\ n.queries = Cardinality({t \in DOMAIN s.intro : s.intro[t].q # 0})
    /\ n.bad = <<>>

StatsOk(s, n) ==
    /\ n.conns = Size(s.conns) /\ n.objs = Size(s.objs) /\ n.svcs = Size(s.svcs)
    /\ n.channels = Size(s.chans) /\ n.listeners = Size(s.lst)

\* Connections that ended by themselves are closed by the broker, one that said goodbye properly
\* is answered.
DeafOk(l, obs, s0) ==
    \A e \in ToSet(l.ev) :
        /\ e.e \in {"shut", "eof", "terr", "xfail", "xconv"} =>
              e.c \in DOMAIN obs /\ obs[e.c] # <<>> /\ Last(obs[e.c]).k = "Closed"
        /\ e.e = "shut" /\ e.c \in DOMAIN s0.conns /\ ~(\E f \in ToSet(l.ev) : f.e \in {"xfail", "xconv"}) =>
              \E j \in DOMAIN obs[e.c] : obs[e.c][j].k = "Shutdown"

\* Without any handle, the broker also ends with the last connection task.
TerminatedZ(x) == Terminated(x.s) \/ (x.s.gone /\ DOMAIN x.s.conns \subseteq x.z)

Quiet(l, obs, x) ==
    /\ \A c \in DOMAIN obs \ Deaf(l) : x.pos[c] = Len(obs[c])
    /\ l.term = TerminatedZ(x)
    /\ l.hassnap => SnapOk(x.s, l.snap)
    /\ l.hasstats => StatsOk(x.s, l.stats)
    /\ \A e \in ToSet(l.ev) : e.e = "xconv" => e.c \in x.lost

AfterEvents(l, s, z) ==
    LET obs == ObsOf(l, s) IN
    Fold(l, obs, {[s |-> s, z |-> z, lost |-> {}, pos |-> [c \in DOMAIN obs |-> 0]]}, l.ev)

After(l, S) ==
    IF l.hang \/ l.panics # <<>> THEN {}
    ELSE UNION {LET obs == ObsOf(l, c.s) IN
                {[s |-> x.s, z |-> x.z] :
                   x \in {x \in AfterEvents(l, c.s, c.z) : DeafOk(l, obs, c.s) /\ Quiet(l, obs, x)}}
                : c \in S}

(***************************************************************************)
(* Diagnosis                                                               *)
(***************************************************************************)
Why(l, c) ==
    IF l.hang THEN <<"the broker does not come to rest">>
    ELSE IF l.panics # <<>> THEN <<"panic", l.panics>>
    ELSE LET s == c.s
             X == AfterEvents(l, s, c.z) IN
         IF X = {} THEN <<"messages differ from", {r.o : r \in
              UNION {Step(s, Head(l.ev), Cands(l, [s |-> s, z |-> {}, pos |-> [d \in DOMAIN ObsOf(l, s) |-> 0]],
                                               ObsOf(l, s), Head(l.ev)))}}>>
         ELSE <<"state differs", {[pos |-> x.pos, lost |-> x.lost, term |-> Terminated(x.s),
                snap |-> l.hassnap => SnapOk(x.s, l.snap),
                stats |-> l.hasstats => StatsOk(x.s, l.stats)] : x \in X},
                IF l.hassnap THEN l.snap ELSE "", IF l.hasstats THEN l.stats ELSE "",
                {[objs |-> Size(x.s.objs), svcs |-> Size(x.s.svcs), calls |-> x.s.calls,
                  chans |-> x.s.chans, lst |-> Size(x.s.lst), conns |-> DOMAIN x.s.conns] : x \in X}>>

Start == {[s |-> Init0, z |-> {}]}
Init == i = 1 /\ cfg = Start /\ bad = FALSE /\ trace = "" /\ fails = 0 /\ known = [conv |-> 0, zombie |-> 0]

Reset(l) == /\ cfg' = Start /\ bad' = FALSE /\ trace' = l.id
            /\ UNCHANGED <<fails, known>>

Good(l) ==
    LET A == After(l, cfg) IN
    /\ A # {}
    /\ cfg' = A
    /\ known' = [conv |-> known.conv + Cardinality({j \in DOMAIN l.ev : l.ev[j].e = "xconv"}),
                  zombie |-> known.zombie + IF (\E j \in DOMAIN l.ev : l.ev[j].e = "drop")
                                               /\ \A x \in A : x.z # {} THEN 1 ELSE 0]
    /\ UNCHANGED <<bad, trace, fails>>

Mismatch(l) ==
    /\ After(l, cfg) = {}
    /\ PrintT(<<"MISMATCH", trace, i>>)
    /\ PrintT(<<"LINE", l>>)
    /\ PrintT(<<"WHY", Why(l, CHOOSE c \in cfg : TRUE)>>)
    /\ bad' = TRUE /\ fails' = fails + 1
    /\ UNCHANGED <<cfg, trace, known>>

Next ==
    /\ i <= Len(Lines)
    /\ i' = i + 1
    /\ LET l == Lines[i] IN
       IF l.t = "reset" THEN Reset(l)
       ELSE IF bad THEN UNCHANGED <<cfg, bad, trace, fails, known>>
       ELSE Good(l) \/ Mismatch(l)

Spec == Init /\ [][Next]_vars

\* Printed once at the end.
Done == i = Len(Lines) + 1 => PrintT(<<"DONE", i - 1, fails, known.conv, known.zombie>>)
View == i
===============================================================================
