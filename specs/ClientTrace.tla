------------------------------ MODULE ClientTrace ------------------------------
(***************************************************************************)
(* Checks recorded runs of real clients, connected to a real broker.       *)
(* The lines of one client after another, then what happened overall:      *)
(*   reset(v)   a client, with its protocol version                        *)
(*   req/ret/cancel(op)  the application                                   *)
(*   h(k)       the client handles a request                               *)
(*   tx/rx(m), terr      its transport                                     *)
(*   run(r)     the client has ended                                       *)
(*   quiet      nothing can happen anymore, unless somebody does something *)
(*   settled    the same, and the application waits for nobody             *)
(*   final      the end; everything is over                                *)
(*   world      what is left                                               *)
(***************************************************************************)
EXTENDS Client, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, s, skip, fails, drops
vars == <<i, s, skip, fails, drops>>

(* Why a client ends without a fault. If it and the broker shut down at once ("both"), the   *)
(* client still gets the broker's shutdown. Which of them closes the transport first is open. *)
Clean == {"shutdown", "gone", "kick", "broker"}

Apply(l) ==
  CASE l.t = "req" -> Req(s, l)
    [] l.t = "cancel" -> Cancel(s, l.op)
    [] l.t = "h" -> IF l.k = "Drain" THEN Drain(s) ELSE Handle(s, l.k)
    [] l.t = "tx" -> Send(s, l.m)
    [] l.t = "rx" -> Receive(s, l.m)
    [] l.t = "terr" -> Fail(s)
    [] l.t = "run" -> End(s, l.r)

\* Calls that nobody has answered.
Unanswered ==
  \A key \in DOMAIN s.pend :
    key[1] = "CallFunction" /\ (s.v >= 16 => s.pend[key].tok \notin s.lost)

QuietWhy(settled) ==
  CASE s.mode = "dead" -> IF Due(s) = {} THEN "" ELSE "operations don't complete"
    [] s.mode # "run" \/ s.failed -> "the client doesn't end"
    [] s.q # <<>> -> "requests are not handled"
    [] s.out # <<>> -> "messages are not sent"
    [] Due(s) # {} -> "operations don't complete"
    [] settled /\ DOMAIN s.pend # {} -> "requests are not answered"
    [] ~Unanswered -> "requests are not answered"
    [] OTHER -> ""

FinalWhy(l) ==
  CASE s.mode # "dead" -> "the client doesn't end"
    [] DOMAIN s.ops # {} -> "operations don't complete"
    [] l.cause = "connection dropped" -> ""
    [] l.conn = "" -> "the connection doesn't end"
    [] l.cause \in Clean \cup {"both"} /\ s.failed -> "the transport fails for no reason"
    [] l.cause \in Clean /\ l.conn # "ok" -> "the connection fails for no reason"
    [] OTHER -> ""

WorldWhy(l) ==
  CASE l.panics # <<>> -> "panic"
    [] ~l.ok -> "no quiescence"
    [] drops -> ""
    [] ~l.stopped -> "the broker doesn't stop"
    [] l.left.n # 0 \/ l.left.bad # <<>> -> "the broker has something left"
    [] OTHER -> ""

Why(l) ==
  CASE l.t = "ret" ->
         IF l.op \notin DOMAIN s.ops THEN "an operation that doesn't run completes"
         ELSE IF \E x \in Rets(s, l.op) : x.res = l.r THEN "" ELSE "wrong result"
    [] l.t \in {"quiet", "settled"} ->
         IF l.ok THEN QuietWhy(l.t = "settled") ELSE "no quiescence"
    [] l.t = "final" -> FinalWhy(l)
    [] l.t = "world" -> WorldWhy(l)
    [] OTHER -> Apply(l).bad

After(l) ==
  CASE l.t = "ret" -> (CHOOSE x \in Rets(s, l.op) : x.res = l.r).s
    [] l.t \in {"quiet", "settled", "final", "world"} -> s
    [] OTHER -> Apply(l)

Init == i = 1 /\ s = Start(0) /\ skip = FALSE /\ fails = 0 /\ drops = FALSE

Next ==
  /\ i <= Len(Lines)
  /\ i' = i + 1
  /\ LET l == Lines[i] IN
     /\ drops' = IF l.t = "final" THEN drops \/ l.cause = "connection dropped"
                 ELSE IF l.t = "world" THEN FALSE ELSE drops
     /\ IF l.t = "reset" THEN s' = Start(l.v) /\ skip' = FALSE /\ UNCHANGED fails
        ELSE IF skip /\ l.t # "world" THEN UNCHANGED <<s, skip, fails>>
        ELSE LET why == Why(l) IN
             IF why = "" THEN s' = After(l) /\ UNCHANGED <<skip, fails>>
             ELSE /\ PrintT(<<"BROKEN", i, why>>)
                  /\ PrintT(<<"EXPECTED", s,
                       IF l.t = "ret" /\ l.op \in DOMAIN s.ops
                       THEN {x.res : x \in Rets(s, l.op)} ELSE Due(s)>>)
                  /\ fails' = fails + 1
                  /\ skip' = TRUE
                  /\ UNCHANGED s

Spec == Init /\ [][Next]_vars
Done == i = Len(Lines) + 1 => PrintT(<<"DONE", i - 1, fails>>)
=============================================================================
