------------------------------ MODULE LayoutGen ------------------------------
(***************************************************************************)
(* Universes of type descriptions to try, each with everything that a      *)
(* single edit makes of it: edits that the type ids must show and edits    *)
(* that they must not show. What an edit is follows from where it is made; *)
(* the invariant EditsOK checks it against the specification of ids.       *)
(***************************************************************************)
EXTENDS Layout, Chance, TLC, Json, IOUtils

SimpleSeq == <<"bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "string",
               "uuid", "object_id", "service_id", "value", "bytes", "lifetime", "unit">>
UnarySeq == <<"option", "box", "vec", "set", "sender", "receiver">>
Ids == <<"0", "1", "2", "3", "7", "251", "252", "256", "65536", "4294967295">>
Uuids == <<"00000000-0000-0000-0000-000000000000", "5ca1ab1e-0000-4000-8000-00000000000f", "deadbeef-dead-beef-dead-deadbeefdead">>
Lens == <<"0", "1", "2", "32", "4294967295">>
Names == <<"a", "b", "A", "a_b", "x1", "NonAscii", "value", "">>
Docs == <<"", "Doc", "Doc of two", "id">>
TypeNames == <<"A", "B", "C", "D", "E">>
Schemas == <<"s", "t">>

Doc(h) == Maybe(h, 30, LAMBDA g : Of(g, Docs))

(* A universe has one schema or two; keys: the names of its types. *)
RECURSIVE GenType(_, _, _)
GenType(h, keys, d) ==
  LET r == Num(Sub(h, 1), 100) IN
  IF r < 35 /\ keys # <<>> THEN LET x == Of(Sub(h, 3), keys) IN [k |-> "ref", s |-> x.s, n |-> x.n]
  ELSE IF d = 0 \/ r < 60 THEN [k |-> Of(Sub(h, 2), SimpleSeq)]
  ELSE IF r < 80 THEN [k |-> Of(Sub(h, 4), UnarySeq), a |-> GenType(Sub(h, 5), keys, d - 1)]
  ELSE IF r < 93 THEN [k |-> Of(Sub(h, 6), <<"map", "result">>), a |-> GenType(Sub(h, 7), keys, d - 1), b |-> GenType(Sub(h, 8), keys, d - 1)]
  ELSE [k |-> "array", a |-> GenType(Sub(h, 9), keys, d - 1), len |-> Of(Sub(h, 11), Lens)]

(* Distinct ids: a window of Ids that starts anywhere *)
Many(h, max, F(_, _)) ==
  LET n == Num(Sub(h, 901), max + 1) o == Num(Sub(h, 904), Len(Ids)) IN
  [i \in 1 .. n |-> F(Sub(h, i), Ids[((o + i * 3) % Len(Ids)) + 1])]

GenFb(h) == [n |-> Of(Sub(h, 1), Names), doc |-> Doc(Sub(h, 2))]
GenField(h, id, keys) == [id |-> id, n |-> Of(Sub(h, 1), Names), doc |-> Doc(Sub(h, 2)), req |-> Chance(Sub(h, 3), 50), ty |-> GenType(Sub(h, 4), keys, 2)]
Item(h, id, keys) == [id |-> id, n |-> Of(Sub(h, 1), Names), doc |-> Doc(Sub(h, 2)), ty |-> Maybe(Sub(h, 5), 60, LAMBDA g : GenType(g, keys, 2))]
GenFn(h, id, keys) == [id |-> id, n |-> Of(Sub(h, 1), Names), doc |-> Doc(Sub(h, 2)),
                       args |-> Maybe(Sub(h, 5), 50, LAMBDA g : GenType(g, keys, 2)), ok |-> Maybe(Sub(h, 6), 50, LAMBDA g : GenType(g, keys, 2)),
                       err |-> Maybe(Sub(h, 7), 50, LAMBDA g : GenType(g, keys, 2))]

GenDef(h, key, keys) ==
  LET r == Num(Sub(h, 1), 100) doc == Doc(Sub(h, 2)) fb == Maybe(Sub(h, 3), 30, GenFb) IN
  CASE key.k = "struct"  -> [k |-> "struct", s |-> key.s, n |-> key.n, doc |-> doc, fb |-> fb, fields |-> Many(Sub(h, 4), 3, LAMBDA g, i : GenField(g, i, keys))]
    [] key.k = "enum"    -> [k |-> "enum", s |-> key.s, n |-> key.n, doc |-> doc, fb |-> fb, vars |-> Many(Sub(h, 4), 3, LAMBDA g, i : Item(g, i, keys))]
    [] key.k = "newtype" -> [k |-> "newtype", s |-> key.s, n |-> key.n, doc |-> doc, ty |-> GenType(Sub(h, 4), keys, 2)]
    [] key.k = "svc"     -> [k |-> "svc", s |-> key.s, n |-> key.n, doc |-> doc, uuid |-> Of(Sub(h, 5), Uuids), version |-> Of(Sub(h, 6), Ids),
                             fns |-> Many(Sub(h, 7), 2, LAMBDA g, i : GenFn(g, i, keys)), evs |-> Many(Sub(h, 8), 2, LAMBDA g, i : Item(g, i, keys)),
                             ffb |-> fb, efb |-> Maybe(Sub(h, 9), 30, GenFb)]

GenUniverse(h) ==
  LET n == Num(Sub(h, 1), 4) + 1
      all == [i \in 1 .. n |-> [k |-> Of(Sub(h, 20 + i), <<"struct", "struct", "enum", "enum", "newtype", "svc">>),
                                s |-> Of(Sub(h, 40 + i), IF Chance(Sub(h, 2), 50) THEN <<"s">> ELSE Schemas), n |-> TypeNames[i]]]
      keys == SelectSeq(all, LAMBDA x : x.k # "svc") IN
  [i \in 1 .. n |-> GenDef(Sub(h, 60 + i), all[i], keys)]

-----------------------------------------------------------------------------
(* Edits: [u, sem, at, why]; sem: whether the description of the type defined at that position changes. *)

NewDoc(doc) == IF doc = <<>> THEN <<"New">> ELSE IF doc[1] = "Doc" THEN <<>> ELSE <<"Doc">>
OtherType(t) == IF t.k = "u32" THEN [k |-> "i32"] ELSE IF t.k \in Unary THEN t.a ELSE [k |-> "u32"]
OtherOpt(o) == IF o = <<>> THEN <<[k |-> "unit"]>> ELSE <<>>
OtherName(n) == n \o "x"
Fresh(items) == CHOOSE id \in ToSet(Ids) : \A i \in DOMAIN items : items[i].id # id
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]

Ed(d, sem, why) == [d |-> d, sem |-> sem, why |-> why]

ItemEdits(items, set(_), typed(_)) ==
  UNION {{Ed(set([items EXCEPT ![i].doc = NewDoc(@)]), FALSE, "doc of item"),
          Ed(set([items EXCEPT ![i].id = Fresh(items)]), TRUE, "id of item"),
          Ed(set([items EXCEPT ![i].n = OtherName(@)]), TRUE, "name of item"),
          Ed(set(Without(items, i)), TRUE, "item removed"),
          Ed(set(Append(items, [items[i] EXCEPT !.id = Fresh(items)])), TRUE, "item added")}
         \cup {Ed(set([items EXCEPT ![i] = x]), TRUE, "type of item") : x \in typed(items[i])} : i \in DOMAIN items}
  \cup {Ed(set(Rev(items)), FALSE, "order")}
  \cup (IF Len(items) > 1 /\ items[1].n # items[2].n
        THEN {Ed(set([items EXCEPT ![1].n = items[2].n, ![2].n = items[1].n]), TRUE, "names swapped")} ELSE {})

FbEdits(fb, set(_)) ==
  IF fb = <<>> THEN {Ed(set(<<[n |-> "z", doc |-> <<>>]>>), TRUE, "fallback added")}
  ELSE {Ed(set(<<>>), TRUE, "fallback removed"), Ed(set(<<[fb[1] EXCEPT !.n = OtherName(@)]>>), TRUE, "name of fallback"),
        Ed(set(<<[fb[1] EXCEPT !.doc = NewDoc(@)]>>), FALSE, "doc of fallback")}

DefEdits(d) ==
  {Ed([d EXCEPT !.doc = NewDoc(@)], FALSE, "doc")}
  \cup CASE d.k = "struct" ->
              ItemEdits(d.fields, LAMBDA x : [d EXCEPT !.fields = x],
                        LAMBDA f : {[f EXCEPT !.req = ~@], [f EXCEPT !.ty = OtherType(@)], [f EXCEPT !.ty = [k |-> "option", a |-> @]]})
              \cup FbEdits(d.fb, LAMBDA x : [d EXCEPT !.fb = x])
              \cup {Ed([k |-> "enum", s |-> d.s, n |-> d.n, doc |-> d.doc, fb |-> d.fb,
                        vars |-> [i \in DOMAIN d.fields |-> [id |-> d.fields[i].id, n |-> d.fields[i].n, doc |-> d.fields[i].doc, ty |-> <<d.fields[i].ty>>]]], TRUE, "kind")}
         [] d.k = "enum" ->
              ItemEdits(d.vars, LAMBDA x : [d EXCEPT !.vars = x],
                        LAMBDA v : {[v EXCEPT !.ty = OtherOpt(@)]} \cup {[v EXCEPT !.ty = <<OtherType(t)>>] : t \in ToSet(v.ty)})
              \cup FbEdits(d.fb, LAMBDA x : [d EXCEPT !.fb = x])
         [] d.k = "newtype" ->
              {Ed([d EXCEPT !.ty = OtherType(@)], TRUE, "target"), Ed([d EXCEPT !.ty = [k |-> "box", a |-> @]], TRUE, "target")}
         [] d.k = "svc" ->
              ItemEdits(d.fns, LAMBDA x : [d EXCEPT !.fns = x],
                        LAMBDA f : {[f EXCEPT !.args = OtherOpt(@)], [f EXCEPT !.ok = OtherOpt(@)], [f EXCEPT !.err = OtherOpt(@)]}
                                   \cup {[f EXCEPT !.args = f.ok, !.ok = f.args] : x \in {y \in {1} : f.ok # f.args}}
                                   \cup {[f EXCEPT !.err = f.ok, !.ok = f.err] : x \in {y \in {1} : f.ok # f.err}}
                                   \cup {[f EXCEPT !.ok = <<OtherType(t)>>] : t \in ToSet(f.ok)})
              \cup ItemEdits(d.evs, LAMBDA x : [d EXCEPT !.evs = x],
                        LAMBDA v : {[v EXCEPT !.ty = OtherOpt(@)]} \cup {[v EXCEPT !.ty = <<OtherType(t)>>] : t \in ToSet(v.ty)})
              \cup FbEdits(d.ffb, LAMBDA x : [d EXCEPT !.ffb = x]) \cup FbEdits(d.efb, LAMBDA x : [d EXCEPT !.efb = x])
              \cup {Ed([d EXCEPT !.uuid = CHOOSE x \in ToSet(Uuids) : x # @], TRUE, "uuid"), Ed([d EXCEPT !.version = CHOOSE x \in ToSet(Ids) : x # @], TRUE, "version")}
              \cup (IF OneOf(d.ffb, Fb) # OneOf(d.efb, Fb) THEN {Ed([d EXCEPT !.ffb = d.efb, !.efb = d.ffb], TRUE, "fallbacks swapped")} ELSE {})

Key(d) == [k |-> IF d.k = "svc" THEN "svc" ELSE "ref", s |-> d.s, n |-> d.n]

(* A type gets another name everywhere. *)
RECURSIVE Renamed(_, _, _)
Renamed(t, from, to) ==
  IF t = from THEN to
  ELSE IF t.k \in Unary \/ t.k = "array" THEN [t EXCEPT !.a = Renamed(@, from, to)]
  ELSE IF t.k \in Binary THEN [t EXCEPT !.a = Renamed(@, from, to), !.b = Renamed(@, from, to)]
  ELSE t

RenamedDef(d, from, to) ==
  LET R(t) == Renamed(t, from, to)
      o(s) == OneOf(s, R)
      e == IF Key(d) = from THEN [d EXCEPT !.s = to.s, !.n = to.n] ELSE d IN
  CASE d.k = "struct"  -> [e EXCEPT !.fields = [i \in DOMAIN @ |-> [@[i] EXCEPT !.ty = R(@)]]]
    [] d.k = "enum"    -> [e EXCEPT !.vars = [i \in DOMAIN @ |-> [@[i] EXCEPT !.ty = o(@)]]]
    [] d.k = "newtype" -> [e EXCEPT !.ty = R(@)]
    [] d.k = "svc"     -> [e EXCEPT !.fns = [i \in DOMAIN @ |-> [@[i] EXCEPT !.args = o(@), !.ok = o(@), !.err = o(@)]],
                                    !.evs = [i \in DOMAIN @ |-> [@[i] EXCEPT !.ty = o(@)]]]

Edits(u) ==
  UNION {{[u |-> [u EXCEPT ![i] = e.d], sem |-> e.sem, at |-> Key(u[i]), was |-> Key(u[i]), why |-> e.why] : e \in DefEdits(u[i])} : i \in DOMAIN u}
  \cup {[u |-> Rev(u), sem |-> FALSE, at |-> Key(u[1]), was |-> Key(u[1]), why |-> "order of definitions"]}
  \cup UNION {{[u |-> [j \in DOMAIN u |-> RenamedDef(u[j], Key(u[i]), to)], sem |-> TRUE, at |-> to, was |-> Key(u[i]), why |-> "type renamed"] :
                 to \in {[Key(u[i]) EXCEPT !.n = OtherName(@)], [Key(u[i]) EXCEPT !.s = OtherName(@)]}} : i \in DOMAIN u}

-----------------------------------------------------------------------------
Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)

VARIABLES n, u, edits
vars == <<n, u, edits>>

Root(k) == RootOf(Seed, k)

Init == \E k \in 1 .. Count : n = k /\ u = GenUniverse(Root(k)) /\ edits = Edits(u)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

AllTypes(w) == {Key(w[i]) : i \in DOMAIN w} \cup UNION {{Key(w[i])} \cup Needs(w, Key(w[i])) : i \in DOMAIN w}

(* An edit shows in the description of the type itself and of everything that depends on it, and nowhere else. *)
EditsOK ==
  \A e \in edits :
    /\ (Canon(u, e.was) # Canon(e.u, e.at)) = e.sem
    /\ \A i \in DOMAIN u :
         LET t == Key(u[i]) IN
         e.why \in {"type renamed"} \/ ((Canon(u, t) # Canon(e.u, t)) = (e.sem /\ (t = e.at \/ e.at \in Needs(u, t))))

RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})

(* The first m of a sequence, as a set *)
Front(s, m) == {s[i] : i \in 1 .. (IF Len(s) < m THEN Len(s) ELSE m)}

(* What can be made of a type with the types that it depends on anyway: all of these differ in nothing but how they are put together. *)
Made(w, x) ==
  LET needs == Needs(w, x)
      ks == Front(Listed({y \in needs : y.k \in ToSet(SimpleSeq)}), 3) IN
  {[k |-> c, a |-> x] : c \in Unary} \cup {[k |-> "array", a |-> x, len |-> l] : l \in {"1", "2"}}
  \cup {[k |-> c, a |-> x, b |-> x] : c \in Binary}
  \cup UNION {{[k |-> c, a |-> y, b |-> x], [k |-> c, a |-> x, b |-> y]} : c \in Binary, y \in ks}
  \cup UNION {{[k |-> c, a |-> y, b |-> z] : c \in Binary, z \in ks} : y \in ks}

MadeTypes(w) == LET xs == {Key(w[i]) : i \in {j \in DOMAIN w : w[j].k # "svc"}} IN UNION {Made(w, x) : x \in Front(Listed(xs), 2)}
Closed(w, S) == S \cup UNION {Needs(w, t) : t \in S}

Emit ==
  LET w(x) == [u |-> x, types |-> Listed(AllTypes(x))]
      b(x) == [u |-> x, types |-> Listed(Closed(x, AllTypes(x) \cup MadeTypes(x)))] IN
  PrintT("LAYOUT " \o ToJson([n |-> n, base |-> b(u), edits |-> Listed({w(e.u) : e \in edits})]))
=============================================================================
