------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Descriptions of types, and when two of them have the same type id.      *)
(*                                                                         *)
(* A universe is a sequence of definitions:                                *)
(*   struct   [k, s, n, doc, fields, fb]                                   *)
(*   enum     [k, s, n, doc, vars, fb]                                     *)
(*   newtype  [k, s, n, doc, ty]                                           *)
(*   svc      [k, s, n, doc, uuid, version, fns, evs, ffb, efb]            *)
(* s is the schema and n the name. Something optional is a sequence of at  *)
(* most one element; ids and versions are decimal strings.                 *)
(*   field    [id, n, doc, req, ty]                                        *)
(*   variant  [id, n, doc, ty]          with an optional type              *)
(*   function [id, n, doc, args, ok, err], all three optional              *)
(*   event    [id, n, doc, ty]                                             *)
(*   fallback [n, doc]                                                     *)
(*                                                                         *)
(* A type is [k], [k, a], [k, a, b], an array [k, a, len], or the name of  *)
(* a definition: [k |-> "ref", s, n], [k |-> "svc", s, n] for services.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Unary  == {"option", "box", "vec", "set", "sender", "receiver"}
Binary == {"map", "result"}
Named  == {"ref", "svc"}

ToSet(s) == {s[i] : i \in DOMAIN s}
OneOf(s, F(_)) == IF s = <<>> THEN <<>> ELSE <<F(s[1])>>

(* What a definition means is wire-relevant: everything but doc strings and the order. *)
Fb(f) == f.n

Essence(d) ==
  CASE d.k = "struct"  -> <<"struct", d.s, d.n, {<<f.id, f.n, f.req, f.ty>> : f \in ToSet(d.fields)}, OneOf(d.fb, Fb)>>
    [] d.k = "enum"    -> <<"enum", d.s, d.n, {<<v.id, v.n, v.ty>> : v \in ToSet(d.vars)}, OneOf(d.fb, Fb)>>
    [] d.k = "newtype" -> <<"newtype", d.s, d.n, d.ty>>
    [] d.k = "svc"     -> <<"svc", d.s, d.n, d.uuid, d.version, {<<f.id, f.n, f.args, f.ok, f.err>> : f \in ToSet(d.fns)},
                            {<<e.id, e.n, e.ty>> : e \in ToSet(d.evs)}, OneOf(d.ffb, Fb), OneOf(d.efb, Fb)>>

(* The types that a definition mentions *)
Mentions(d) ==
  CASE d.k = "struct"  -> {f.ty : f \in ToSet(d.fields)}
    [] d.k = "enum"    -> UNION {ToSet(v.ty) : v \in ToSet(d.vars)}
    [] d.k = "newtype" -> {d.ty}
    [] d.k = "svc"     -> UNION {ToSet(f.args) \cup ToSet(f.ok) \cup ToSet(f.err) : f \in ToSet(d.fns)} \cup UNION {ToSet(e.ty) : e \in ToSet(d.evs)}

Find(u, t) == u[CHOOSE i \in DOMAIN u : u[i].s = t.s /\ u[i].n = t.n /\ (t.k = "svc") = (u[i].k = "svc")]

(* The types that a type mentions directly *)
Direct(u, t) ==
  CASE t.k \in Named             -> Mentions(Find(u, t))
    [] t.k \in Unary \/ t.k = "array" -> {t.a}
    [] t.k \in Binary            -> {t.a, t.b}
    [] OTHER                     -> {}

RECURSIVE Closure(_, _, _)
Closure(u, new, seen) ==
  IF new = {} THEN seen
  ELSE LET more == UNION {Direct(u, t) : t \in new} IN Closure(u, more \ (seen \cup new), seen \cup new)

(* All types that a type depends on *)
Needs(u, t) == Closure(u, Direct(u, t), {})

(* The wire-relevant description of a type: two types have the same id if and only if these are the same. *)
Canon(u, t) ==
  <<IF t.k \in Named THEN Essence(Find(u, t)) ELSE <<"type", t>>,
    {Essence(Find(u, x)) : x \in {y \in Needs(u, t) : y.k \in Named}}>>

-----------------------------------------------------------------------------
(* The introspection record of a type, given the ids of the types it mentions directly. *)

Record(u, t, Id(_)) ==
  LET opt(s) == OneOf(s, Id)
      fb(s) == OneOf(s, LAMBDA f : <<f.n, f.doc>>)
      d == Find(u, t) IN
  [refs |-> {Id(x) : x \in Direct(u, t)},
   layout |->
     CASE t.k \in Unary  -> <<t.k, Id(t.a)>>
       [] t.k \in Binary -> <<t.k, Id(t.a), Id(t.b)>>
       [] t.k = "array"  -> <<t.k, Id(t.a), t.len>>
       [] t.k \in Named  ->
           (CASE d.k = "struct"  -> <<"struct", d.s, d.n, d.doc, {<<f.id, f.n, f.doc, f.req, Id(f.ty)>> : f \in ToSet(d.fields)}, fb(d.fb)>>
              [] d.k = "enum"    -> <<"enum", d.s, d.n, d.doc, {<<v.id, v.n, v.doc, opt(v.ty)>> : v \in ToSet(d.vars)}, fb(d.fb)>>
              [] d.k = "newtype" -> <<"newtype", d.s, d.n, d.doc, Id(d.ty)>>
              [] d.k = "svc"     -> <<"svc", d.s, d.n, d.doc, d.uuid, d.version,
                                      {<<f.id, f.n, f.doc, opt(f.args), opt(f.ok), opt(f.err)>> : f \in ToSet(d.fns)},
                                      {<<e.id, e.n, e.doc, opt(e.ty)>> : e \in ToSet(d.evs)}, fb(d.ffb), fb(d.efb)>>)
       [] OTHER          -> <<t.k>>]

(* What a recorded introspection record says, in the same form. *)
Dumped(r) ==
  LET l == r.layout
      fb(s) == OneOf(s, LAMBDA f : <<f.n, f.doc>>) IN
  [refs |-> ToSet(r.refs),
   layout |->
     CASE l.k \in Unary    -> <<l.k, l.a>>
       [] l.k \in Binary   -> <<l.k, l.a, l.b>>
       [] l.k = "array"    -> <<l.k, l.a, l.len>>
       [] l.k = "struct"   -> <<"struct", l.s, l.n, l.doc, {<<f.id, f.n, f.doc, f.req, f.ty>> : f \in ToSet(l.fields)}, fb(l.fb)>>
       [] l.k = "enum"     -> <<"enum", l.s, l.n, l.doc, {<<v.id, v.n, v.doc, v.ty>> : v \in ToSet(l.vars)}, fb(l.fb)>>
       [] l.k = "newtype"  -> <<"newtype", l.s, l.n, l.doc, l.ty>>
       [] l.k = "svc"      -> <<"svc", l.s, l.n, l.doc, l.uuid, l.version, {<<f.id, f.n, f.doc, f.args, f.ok, f.err>> : f \in ToSet(l.fns)},
                                {<<e.id, e.n, e.doc, e.ty>> : e \in ToSet(l.evs)}, fb(l.ffb), fb(l.efb)>>
       [] OTHER            -> <<l.k>>]
=============================================================================
