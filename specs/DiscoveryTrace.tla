---------------------------- MODULE DiscoveryTrace ----------------------------
(***************************************************************************)
(* Checks recorded programs that look for objects. All lines of a program  *)
(* in the order in which things happened:                                  *)
(*   reset                                                                 *)
(*   bus(be, id)       the observer: what happens on the bus               *)
(*   req/ret/cancel    the applications                                    *)
(*   view, hasended    what an application sees at once                    *)
(*   end(c)            a client ends; what it says then doesn't matter     *)
(*   settled           nothing happens anymore by itself                   *)
(*   world             the end                                             *)
(* The observer learns about a bus event before anybody else does.         *)
(***************************************************************************)
EXTENDS Discovery, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, s, skip, fails
vars == <<i, s, skip, fails>>

Start ==
  [h |-> <<Bus>>, ops |-> <<>>, objs |-> <<>>, svcs |-> <<>>, disc |-> <<>>, life |-> <<>>,
   over |-> {}]

Now == Len(s.h)
Cur == s.h[Len(s.h)]

Elems(q) == {q[n] : n \in 1..Len(q)}

----------------------------------------------------------------------------
\* Requests.

Gone(t, e) == [t EXCEPT !.objs = Without(@, {e}), !.svcs = Without(@, {e}),
                        !.disc = Without(@, {e}), !.life = Without(@, {e})]

Req(l) ==
  LET t == IF l.k = "drop" THEN Gone(s, l.e)
           ELSE IF l.k \in {"destroyobj", "destroysvc", "endscope"}
           THEN [s EXCEPT !.objs = Without(@, {l.e}), !.svcs = Without(@, {l.e})]
           ELSE s
  IN IF l.k = "drop" THEN t
     ELSE [t EXCEPT !.ops = With(@, l.op, [req |-> l, lo |-> Now, hi |-> 0])]

\* A search that is done.
Found(o, l) ==
  \E n \in o.lo..Now :
    LET m == Matches(s.h[n], o.req.o, o.req.svcs) IN
    IF l.r.r = "none" THEN o.req.k = "find" /\ m = {}
    ELSE l.r.r = "ok" /\ l.r.id \in m /\ l.r.svcs = Ids(s.h[n], l.r.id, o.req.svcs)

Candidates(ents, scope, o) ==
  LET all == Started(s.h, ents, o.lo, Now)
  IN IF scope = "CurrentWait"
     THEN {[c EXCEPT !.left = {}] : c \in all}
     ELSE all

Disc(ents, scope, o) ==
  [ents |-> ents, scope |-> scope, fin |-> scope = "CurrentWait",
   cands |-> Candidates(ents, scope, o)]

\* The state after a result, or why it is wrong.
Bad(why) == [why |-> why, s |-> s]
Good(t) == [why |-> "", s |-> t]

Ret(l) ==
  IF l.op \notin DOMAIN s.ops THEN Bad("an operation that doesn't run completes")
  ELSE
  LET o == s.ops[l.op]
      k == o.req.k
      t == [s EXCEPT !.ops = Without(@, {l.op})]
      r == l.r.r
  IN
  CASE l.c \in s.over -> Good(t)
    [] k = "createobj" ->
         Good(IF r = "ok" THEN [t EXCEPT !.objs = With(@, l.op, [c |-> l.c, id |-> <<o.req.u, l.r.ck>>])]
              ELSE t)
    [] k = "scope" ->
         IF r # "ok" THEN Bad("wrong result")
         ELSE Good([t EXCEPT !.objs = With(@, l.op, [c |-> l.c, id |-> l.r.id])])
    [] k = "createsvc" ->
         Good(IF r = "ok"
              THEN [t EXCEPT !.svcs = With(@, l.op, [c |-> l.c, e |-> o.req.e, id |-> <<o.req.u, l.r.ck>>])]
              ELSE t)
    [] k \in {"destroyobj", "destroysvc", "endscope"} -> Good(t)
    [] k = "dbuild" ->
         IF r # "ok" THEN Bad("wrong result")
         ELSE Good([t EXCEPT !.disc = With(@, l.op, Disc(o.req.entries, o.req.scope, o))])
    [] k = "drestart" ->
         IF r # "ok" THEN Bad("wrong result")
         ELSE Good([t EXCEPT !.disc = With(@, o.req.e, Disc(s.disc[o.req.e].ents, o.req.scope, o))])
    [] k = "dwait" ->
         LET d == s.disc[o.req.e] IN
         IF r # "ok" \/ (d.scope = "All" /\ d.ents # <<>>) THEN Bad("wrong result")
         ELSE Good([t EXCEPT !.disc[o.req.e] =
                      [@ EXCEPT !.fin = TRUE, !.cands = {[c EXCEPT !.left = {}] : c \in @}]])
    [] k = "dnext" ->
         LET d == s.disc[o.req.e] IN
         IF r = "none"
         THEN LET m == {c \in d.cands : c.left = {}} IN
              IF d.ents = <<>> THEN Good(t)
              ELSE IF d.scope = "All" THEN Bad("a discoverer ends")
              ELSE IF m = {} THEN Bad("a discoverer misses an object")
              ELSE Good([t EXCEPT !.disc[o.req.e] = [@ EXCEPT !.fin = TRUE, !.cands = m]])
         ELSE LET m == Report(s.h, d, <<l.r.key, l.r.kind, l.r.id>>, l.r.svcs) IN
              IF r # "ok" \/ m = {} THEN Bad("a discoverer reports something wrong")
              ELSE Good([t EXCEPT !.disc[o.req.e].cands = m])
    [] k \in {"find", "wait"} -> IF Found(o, l) THEN Good(t) ELSE Bad("not an object to be found")
    [] k = "bind" ->
         IF r # "ok" THEN Bad("wrong result")
         ELSE Good([t EXCEPT !.life = With(@, l.op, [id |-> o.req.id, done |-> FALSE])])
    [] k = "ended" ->
         IF r # "ok" THEN Bad("wrong result")
         ELSE IF s.life[o.req.e].id \in Cur.objs THEN Bad("a lifetime ends too early")
         ELSE Good([t EXCEPT !.life[o.req.e].done = TRUE])
    [] OTHER -> Bad("an operation that nobody knows")

View(l) ==
  LET d == s.disc[l.e]
      m == Look(s.h, d, [k \in 1..Len(d.ents) |-> Elems(l.view[k])])
  IN IF l.c \in s.over THEN Good(s)
     ELSE IF l.odd # "" THEN Bad("a discoverer contradicts itself")
     ELSE IF \E k \in 1..Len(l.view) : Cardinality(Elems(l.view[k])) # Len(l.view[k])
     THEN Bad("a discoverer shows an object twice")
     ELSE IF m = {} THEN Bad("a discoverer shows something wrong")
     ELSE IF ~Finished(d, l.fin) THEN Bad("a discoverer has (not) finished")
     ELSE Good([s EXCEPT !.disc[l.e].cands = m])

\* Operations that may wait forever.
Waiting(o) ==
  LET k == o.req.k IN
  CASE o.req.c \in s.over -> ""
    [] k = "dnext" ->
         LET d == s.disc[o.req.e] IN
         IF d.scope = "All" /\ d.ents # <<>> /\ \E c \in d.cands : Consumed(s.h, d, c)
         THEN "" ELSE "a discoverer misses something"
    [] k = "wait" ->
         IF \E p \in o.lo..o.hi : \A n \in p..Now : Matches(s.h[n], o.req.o, o.req.svcs) = {}
         THEN "" ELSE "an object isn't found"
    [] k = "ended" ->
         IF s.life[o.req.e].id \in Cur.objs THEN "" ELSE "a lifetime doesn't end"
    [] OTHER -> "an operation doesn't complete"

\* What is on the bus according to the applications.
Truth ==
  LET live == {e \in DOMAIN s.objs : s.objs[e].c \notin s.over}
      svcs == {e \in DOMAIN s.svcs : s.svcs[e].e \in live}
  IN [objs |-> {s.objs[e].id : e \in live},
      svcs |-> {LET x == s.svcs[e]
                    o == s.objs[x.e].id
                IN <<o[1], o[2], x.id[1], x.id[2]>> : e \in svcs}]

Settled(l) ==
  LET t == [s EXCEPT !.ops = [op \in DOMAIN @ |-> IF @[op].hi = 0 THEN [@[op] EXCEPT !.hi = Now] ELSE @[op]]]
      w == {Waiting(t.ops[op]) : op \in DOMAIN t.ops} \ {""}
  IN IF ~l.ok THEN Bad("no quiescence")
     ELSE IF w # {} THEN Bad(CHOOSE x \in w : TRUE)
     ELSE IF Truth # Cur THEN Bad("the bus isn't what it should be")
     ELSE Good(t)

Do(l) ==
  CASE l.t = "bus" ->
         IF ~Sound(Cur, l.be, l.id) THEN Bad("a bus event that makes no sense")
         ELSE Good([s EXCEPT !.h = Append(@, Fold(Cur, l.be, l.id))])
    [] l.t = "req" -> Good(Req(l))
    [] l.t = "ret" -> Ret(l)
    [] l.t = "cancel" -> Good([s EXCEPT !.ops = Without(@, {l.op})])
    [] l.t = "view" -> View(l)
    [] l.t = "hasended" ->
         IF l.c \in s.over \/ (l.r = "yes") = s.life[l.e].done THEN Good(s)
         ELSE Bad("a lifetime has (not) ended")
    [] l.t = "end" -> Good([s EXCEPT !.over = @ \cup {l.c}])
    [] l.t = "settled" -> Settled(l)
    [] OTHER ->
         IF l.panics # <<>> THEN Bad("panic") ELSE IF ~l.ok THEN Bad("no quiescence") ELSE Good(s)

Init == i = 1 /\ s = Start /\ skip = FALSE /\ fails = 0

Next ==
  /\ i <= Len(Lines)
  /\ i' = i + 1
  /\ LET l == Lines[i] IN
     IF l.t = "reset" THEN s' = Start /\ skip' = FALSE /\ UNCHANGED fails
     ELSE IF skip THEN UNCHANGED <<s, skip, fails>>
     ELSE LET d == Do(l) IN
          IF d.why = "" THEN s' = d.s /\ UNCHANGED <<skip, fails>>
          ELSE /\ PrintT(<<"BROKEN", i, d.why>>)
               /\ PrintT(<<"EXPECTED", s>>)
               /\ fails' = fails + 1
               /\ skip' = TRUE
               /\ UNCHANGED s

Spec == Init /\ [][Next]_vars
Done == i = Len(Lines) + 1 => PrintT(<<"DONE", i - 1, fails>>)
=============================================================================
