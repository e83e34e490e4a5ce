------------------------------ MODULE Discovery ------------------------------
(***************************************************************************)
(* Discoverers, lifetimes and searches for objects, as functions of the    *)
(* history of the bus.                                                     *)
(*                                                                         *)
(* h is the history: the states of the bus, one after every bus event.     *)
(* An entry of a discoverer asks for an object (or any, 0) with some       *)
(* services. What a discoverer reports is determined by the position in    *)
(* the history at which the broker started it: the matches at that time    *)
(* in any order, then the changes that later bus events cause, one bus     *)
(* event after another. The position is not known exactly, but it lies     *)
(* between the request and its result; cands are the possible ones.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
With(f, x, v) == (x :> v) @@ f

----------------------------------------------------------------------------
\* The bus.

Bus == [objs |-> {}, svcs |-> {}]

Obj(x) == <<x[1], x[2]>>

Fold(b, be, id) ==
  CASE be = "OC" -> [b EXCEPT !.objs = @ \cup {id}]
    [] be = "OD" -> [b EXCEPT !.objs = @ \ {id}]
    [] be = "SC" -> [b EXCEPT !.svcs = @ \cup {id}]
    [] OTHER -> [b EXCEPT !.svcs = @ \ {id}]

\* A bus event makes sense.
Sound(b, be, id) ==
  CASE be = "OC" -> \A x \in b.objs : x[1] # id[1] /\ x[2] # id[2]
    [] be = "OD" -> id \in b.objs /\ \A x \in b.svcs : Obj(x) # id
    [] be = "SC" -> Obj(id) \in b.objs
                    /\ \A x \in b.svcs : x[4] # id[4] /\ (Obj(x) = Obj(id) => x[3] # id[3])
    [] OTHER -> id \in b.svcs

Matches(b, o, svcs) ==
  {x \in b.objs :
     /\ o \in {0, x[1]}
     /\ \A n \in 1..Len(svcs) : \E y \in b.svcs : Obj(y) = x /\ y[3] = svcs[n]}

Ids(b, x, svcs) ==
  [n \in 1..Len(svcs) |->
     <<svcs[n], (CHOOSE y \in b.svcs : Obj(y) = x /\ y[3] = svcs[n])[4]>>]

----------------------------------------------------------------------------
\* Discoverers.

\* The events of the bus event that led to h[n+1], or those at the start.
Initial(ents, b) ==
  UNION {{<<k, "C", x>> : x \in Matches(b, ents[k][1], ents[k][2])} : k \in 1..Len(ents)}

Changes(ents, a, b) ==
  UNION {LET old == Matches(a, ents[k][1], ents[k][2])
             new == Matches(b, ents[k][1], ents[k][2])
         IN {<<k, "C", x>> : x \in new \ old} \cup {<<k, "D", x>> : x \in old \ new}
         : k \in 1..Len(ents)}

\* p: the state whose changes are reported at the moment. left: what hasn't been reported yet.
\* first: it is the state at the start.
Started(h, ents, lo, hi) ==
  {[p |-> p, first |-> TRUE, left |-> Initial(ents, h[p])] : p \in lo..hi}

RECURSIVE Later(_, _, _)
Later(h, ents, p) ==
  IF p >= Len(h) THEN 0
  ELSE IF Changes(ents, h[p], h[p + 1]) # {} THEN p + 1
  ELSE Later(h, ents, p + 1)

\* Everything has been reported.
Consumed(h, d, c) ==
  c.left = {} /\ (d.scope # "All" \/ Later(h, d.ents, c.p) = 0)

\* The candidates that report ev next.
Report(h, d, ev, ids) ==
  LET ents == d.ents
      step(c) ==
        IF c.left # {}
        THEN IF ev \in c.left THEN {[c EXCEPT !.left = @ \ {ev}]} ELSE {}
        ELSE IF d.scope # "All" THEN {}
        ELSE LET p == Later(h, ents, c.p) IN
             IF p = 0 THEN {}
             ELSE LET all == Changes(ents, h[p - 1], h[p]) IN
                  IF ev \in all THEN {[p |-> p, first |-> FALSE, left |-> all \ {ev}]} ELSE {}
      good(c) == ev[2] = "D" \/ ids = Ids(h[c.p], ev[3], ents[ev[1]][2])
  IN {c \in UNION {step(c) : c \in d.cands} : good(c)}

\* What it shows, entry by entry: sets of <<uuid, cookie, ids>>.
Shown(b, ents) ==
  [k \in 1..Len(ents) |->
     {<<x[1], x[2], Ids(b, x, ents[k][2])>> : x \in Matches(b, ents[k][1], ents[k][2])}]

Look(h, d, view) ==
  {c \in d.cands :
     LET all == Shown(h[c.p], d.ents) IN
     \A k \in 1..Len(d.ents) :
       IF c.first
       THEN /\ view[k] \subseteq all[k]
            /\ \A x \in all[k] : x \in view[k] \/ <<k, "C", Obj(x)>> \in c.left
       ELSE view[k] = all[k]}

Finished(d, fin) ==
  CASE d.ents = <<>> -> fin = "yes"
    [] d.scope = "All" -> fin = "no"
    [] d.fin -> fin = "yes"
    [] \E c \in d.cands : c.left = {} -> TRUE
    [] OTHER -> fin = "no"
=============================================================================
