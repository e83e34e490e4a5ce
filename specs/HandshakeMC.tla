---------------------------- MODULE HandshakeMC ----------------------------
(***************************************************************************)
(* Every handshake within bounds: a client alone with whatever comes back, *)
(* a broker alone with whatever arrives, and both of them with a link that *)
(* makes the client an older or newer one. Prints all of them.             *)
(***************************************************************************)
EXTENDS Handshake, TLC, Json

Values == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17}
Few == {0, 2, 3, 5, 7}
Versions == {0, 1, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 100, -1}
Others == {"Shutdown", "Sync", "SyncReply", "CreateObject", "CreateObjectReply", "CallFunction", "EmitEvent"}
Ends == {"eof", "err"}

\* Messages that may arrive at a client.
Answers ==
    {[M0 EXCEPT !.k = "ConnectReply2", !.r = "Ok", !.v = v, !.d = d, !.w = w] :
        v \in {x \in Versions : Big(x) >= Oldest}, d \in Few \cup {-1}, w \in {1, 2}}
    \cup {[M0 EXCEPT !.k = "ConnectReply2", !.r = r, !.d = d, !.w = w] :
        r \in {"Rejected", "IncompatibleVersion"}, d \in Few \cup {-1}, w \in {1, 2}}
    \cup {[M0 EXCEPT !.k = "ConnectReply", !.r = r, !.d = d, !.w = w] : r \in {"Ok", "Rejected"}, d \in Few, w \in {1, 2}}
    \cup {[M0 EXCEPT !.k = "ConnectReply", !.r = "IncompatibleVersion", !.v = v] : v \in {1, 14, 20, -1}}
    \cup {[M0 EXCEPT !.k = k] : k \in Others \cup Ends \cup {"Connect", "Connect2"}}
\* And at a broker.
Hellos ==
    {[M0 EXCEPT !.k = "Connect", !.min = v, !.d = d, !.w = w] : v \in Versions, d \in Few, w \in {1, 2}}
    \cup {[M0 EXCEPT !.k = "Connect2", !.maj = a, !.min = v, !.d = d, !.w = w] :
             a \in {1}, v \in Versions, d \in Few, w \in {1, 2}}
    \cup {[M0 EXCEPT !.k = "Connect2", !.maj = 1, !.min = v, !.d = -1] : v \in 14..21}
    \cup {[M0 EXCEPT !.k = "Connect2", !.maj = a, !.min = v, !.d = 2, !.w = 1] : a \in {0, 2, 20, -1}, v \in Versions}
    \cup {[M0 EXCEPT !.k = k] : k \in Others \cup Ends \cup {"ConnectReply", "ConnectReply2"}}

VARIABLES phase, sc, up, down, client, broker
vars == <<phase, sc, up, down, client, broker>>

Sc(t, api, d, as, decide, rd, m) ==
    [t |-> t, api |-> api, d |-> d, as |-> as, decide |-> decide, rd |-> rd, m |-> m]

Init ==
    /\ phase = "start" /\ up = <<>> /\ down = <<>> /\ client = No("waiting") /\ broker = No("waiting")
    /\ sc \in {Sc("client", api, d, 20, "", 0, m) : api \in {1, 2}, d \in {0, 3}, m \in Answers}
              \cup {Sc("client", api, d, 20, "", 0, [M0 EXCEPT !.k = "eof"]) : api \in {1, 2}, d \in Values}
              \cup {Sc("broker", 0, 0, 0, decide, rd, m) : decide \in {"accept", "reject"}, rd \in {0, 2, 3, 5}, m \in Hellos}
              \cup {Sc("both", api, d, as, decide, rd, M0) :
                       api \in {1, 2}, d \in Few, as \in Versions \ {0, 1}, decide \in {"accept", "reject"}, rd \in Few}
              \cup {Sc("both", api, d, as, "default", 0, M0) : api \in {1, 2}, d \in Few, as \in Versions \ {0, 1}}

\* The link changes the client's version.
As(m) == IF m.k = "Connect2" THEN [m EXCEPT !.min = sc.as] ELSE m

Say == /\ phase = "start" /\ sc.t # "broker"
       /\ up' = <<As(Hello(sc.api, sc.d))>>
       /\ phase' = "said" /\ UNCHANGED <<sc, down, client, broker>>
Inject == \/ /\ phase = "start" /\ sc.t = "broker" /\ up' = <<sc.m>> /\ phase' = "said"
             /\ UNCHANGED <<sc, down, client, broker>>
          \/ /\ phase = "said" /\ sc.t = "client" /\ down' = <<sc.m>> /\ up' = <<>> /\ phase' = "answered"
             /\ UNCHANGED <<sc, client, broker>>
Hear == /\ phase = "said" /\ sc.t # "client" /\ up # <<>>
        /\ broker' = First(up[1]) /\ down' = AtOnce(up[1])
        /\ phase' = IF broker'.r = "ok" THEN "heard" ELSE "answered"
        /\ UNCHANGED <<sc, up, client>>
Decide == /\ phase = "heard"
          /\ down' = Decided(up[1], sc.decide, IF sc.decide = "default" THEN 0 ELSE sc.rd)
          /\ phase' = "answered" /\ UNCHANGED <<sc, up, client, broker>>
\* The broker drops the transport if it doesn't reply.
Learn == /\ phase = "answered"
         /\ client' = IF sc.t = "broker" THEN client
                      ELSE Result(sc.api, IF down = <<>> THEN [M0 EXCEPT !.k = "eof"] ELSE down[1])
         /\ phase' = "end" /\ UNCHANGED <<sc, up, down, broker>>
Next == Say \/ Inject \/ Hear \/ Decide \/ Learn
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The property, of client and broker together, in the words of the protocol.
Succeeds ==
    phase = "end" /\ sc.t = "both" =>
        /\ (client.r = "ok") = ((sc.api = 1 \/ Big(sc.as) >= 14) /\ sc.decide # "reject")
        /\ (client.r = "incompatible") = (sc.api = 2 /\ Big(sc.as) < 14)
        /\ client.r = "rejected" => sc.decide = "reject"
        /\ client.r \in {"ok", "incompatible", "rejected"}
        /\ client.r = "ok" => /\ client.ver = broker.ver
                              /\ client.ver = (IF sc.api = 1 THEN 14 ELSE IF Big(sc.as) < 20 THEN sc.as ELSE 20)
                              /\ broker.d = sc.d
        /\ client.r \in {"ok", "rejected"} => client.d = IF sc.decide = "default" THEN 0 ELSE sc.rd
\* Nobody gets what they might not understand.
Understood ==
    /\ \A i \in DOMAIN up : sc.t = "both" => up[i].w <= 1
    /\ \A i \in DOMAIN down : sc.t # "client" /\ down[i].w = 2 => broker.ver = 20
    /\ \A i \in DOMAIN down : sc.t # "client" => (down[i].k = "ConnectReply") = (up[1].k = "Connect")
\* A broker says why it doesn't let somebody in, if asked properly.
Told ==
    phase = "end" /\ sc.t = "broker" /\ broker.r = "incompatible" =>
        Len(down) = 1 /\ down[1].r = "IncompatibleVersion"

Emit == phase = "end" => PrintT("HELLO " \o ToJson(sc))
Stuck == phase # "end" => ENABLED Next
=============================================================================
