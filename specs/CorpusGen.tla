------------------------------ MODULE CorpusGen ------------------------------
(***************************************************************************)
(* Valid schemas and values to try on the code that is generated from      *)
(* them. A case has three schemas: lib, main that imports lib, and next,   *)
(* which is a newer version of main: all its structs and enums may have    *)
(* more fields and variants.                                               *)
(*                                                                         *)
(* Every value is either made to conform to a type or differs from such a  *)
(* value in one place. What it means to a type is up to Values.            *)
(***************************************************************************)
EXTENDS Chance, FiniteSets, TLC, Json, IOUtils

S == INSTANCE Schema
L == INSTANCE Layout
V == INSTANCE Values
W == INSTANCE Wire

SimpleSeq == <<"bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "string",
               "uuid", "object_id", "service_id", "value", "bytes", "lifetime", "unit">>
KeySeq == V!KeyKinds

TypeNames == <<"Foo", "Bar", "Baz", "Qux", "Type", "Fn", "Async", "Thing", "String", "Vec", "Option", "Result", "Default", "Boxed", "X1", "Loop", "Clone", "Debug", "HashMap",
               "UnknownFields", "Introspectable", "Value", "Ok", "Err", "Some", "None", "Serialize", "Deserializer", "Iterator", "Into", "From", "Send", "Copy">>
LibNames == <<"Dep", "Other", "Lib1", "Match">>
FieldNames == <<"a", "b", "c", "type", "match", "fn", "async", "value", "id", "x1", "serializer", "deserializer", "required", "fallback", "struct", "enum", "r",
                "result", "field", "key", "kind", "name", "some", "none", "ok", "err", "v0", "this", "num_fields", "as_", "T0", "new", "from", "dyn", "try", "mut", "ref",
                "_deserializer", "_fallback", "_x">>
VarNames == <<"A", "B", "C", "Some", "None", "Ok", "Err", "Type", "Match", "Value", "SelfValue", "Fn", "X1", "LongName", "Unknown", "Async", "Error", "String", "Default">>
FnNames == <<"f", "get", "set_value", "type", "match", "x1", "do_it", "async", "r", "args">>
EvNames == <<"e", "changed", "loop", "value_set", "fn_done", "y2">>
SvcNames == <<"Svc", "Service1", "Try">>
ConstNames == <<"N", "LEN", "MAX_LEN", "X_1">>

Doc(h) == IF Chance(Sub(h, 1), 20) THEN [n \in 1 .. Num(Sub(h, 2), 2) + 1 |-> "T" \o ToString(Num(Sub(h, 3 + n), 40))] ELSE <<>>

(* Distinct ids, names, ...: a window that starts anywhere *)
Win(h, seq, i, step) == seq[((Num(h, Len(seq)) + i * step) % Len(seq)) + 1]
Many(h, min, max, F(_, _)) == LET n == Num(Sub(h, 901), max - min + 1) + min IN [i \in 1 .. n |-> F(Sub(h, i), i)]

-----------------------------------------------------------------------------
(* Types. env: early  references that may be used anywhere                 *)
(*             all    references that may be used behind something that    *)
(*                    can be empty                                         *)
(*             keys   newtypes that may be keys                            *)
(*             lens   constants                                            *)

GenKey(h, env) == IF env.keys # <<>> /\ Chance(Sub(h, 1), 35) THEN Of(Sub(h, 2), env.keys) ELSE [k |-> Of(Sub(h, 3), KeySeq)]

RECURSIVE GenT(_, _, _, _)
GenT(h, env, d, g) ==
  LET r == Num(Sub(h, 1), 100)
      refs == IF g THEN env.all ELSE env.early
      a(gg) == GenT(Sub(h, 5), env, d - 1, gg)
      b(gg) == GenT(Sub(h, 6), env, d - 1, gg) IN
  IF r < 30 /\ refs # <<>> THEN Of(Sub(h, 2), refs)
  ELSE IF d = 0 \/ r < 52 THEN [k |-> Of(Sub(h, 3), SimpleSeq)]
  ELSE IF r < 60 THEN (IF Chance(Sub(h, 4), 50) THEN [k |-> "option", a |-> a(g)] ELSE [k |-> "option", a |-> [k |-> "box", a |-> a(TRUE)]])
  ELSE IF r < 64 THEN [k |-> "box", a |-> a(g)]
  ELSE IF r < 73 THEN [k |-> "vec", a |-> IF Chance(Sub(h, 4), 15) THEN [k |-> "u8"] ELSE a(TRUE)]
  ELSE IF r < 79 THEN [k |-> "map", a |-> GenKey(Sub(h, 7), env), b |-> b(TRUE)]
  ELSE IF r < 84 THEN [k |-> "set", a |-> GenKey(Sub(h, 7), env)]
  ELSE IF r < 88 THEN [k |-> Of(Sub(h, 4), <<"sender", "receiver">>), a |-> a(TRUE)]
  ELSE IF r < 94 THEN [k |-> "result", a |-> a(g), b |-> b(g)]
  ELSE [k |-> "array", a |-> a(g), len |-> IF env.lens # <<>> /\ Chance(Sub(h, 4), 50) THEN Of(Sub(h, 8), env.lens) ELSE [k |-> "lit", v |-> Of(Sub(h, 9), V!LenSeq)]]

GenField(h, id, name, env) ==
  LET req == Chance(Sub(h, 1), 45)
      t == GenT(Sub(h, 2), env, 2, FALSE) IN
  [comment |-> <<>>, doc |-> Doc(Sub(h, 3)), req |-> req, name |-> name, id |-> id,
   ty |-> IF ~req /\ Chance(Sub(h, 4), 20) THEN [k |-> "box", a |-> GenT(Sub(h, 5), env, 1, TRUE)] ELSE t]

(* The first variant is one that values can always have. *)
GenVar(h, id, name, env, i) ==
  [comment |-> <<>>, doc |-> Doc(Sub(h, 3)), name |-> name, id |-> id,
   ty |-> Maybe(Sub(h, 1), 65, LAMBDA g : IF i > 1 /\ Chance(Sub(g, 1), 25) THEN [k |-> "box", a |-> GenT(Sub(g, 2), env, 1, TRUE)] ELSE GenT(Sub(g, 3), env, 2, FALSE))]

GenFb(h, name) == [comment |-> <<>>, doc |-> Doc(Sub(h, 3)), name |-> name]

GenFields(h, env, max) == Many(h, 0, max, LAMBDA g, i : GenField(g, Win(Sub(h, 800), V!IdSeq, i, 5), Win(Sub(h, 801), FieldNames, i, 7), env))
GenVars(h, env, min, max) == Many(h, min, max, LAMBDA g, i : GenVar(g, Win(Sub(h, 800), V!IdSeq, i, 3), Win(Sub(h, 801), VarNames, i, 4), env, i))
Fb(h, pct, name) == Maybe(h, pct, LAMBDA g : GenFb(g, name))

Rust(os) == <<[name |-> "rust", opts |-> os]>>
Plain(t) == t.k \in {"bool", "u8", "i16", "u32", "i64", "uuid", "object_id", "service_id", "lifetime"}

GenDef(h, kind, name, env) ==
  CASE kind = "struct" ->
         LET fs == GenFields(Sub(h, 2), env, 5) fb == Fb(Sub(h, 3), 45, "more") IN
         [k |-> "struct", comment |-> <<>>, doc |-> Doc(Sub(h, 1)), name |-> name, fields |-> fs, fb |-> fb,
          attrs |-> IF fb = <<>> /\ \A i \in DOMAIN fs : Plain(fs[i].ty) THEN Rust(<<"impl_copy", "impl_partial_eq", "impl_eq", "impl_partial_ord", "impl_ord", "impl_hash">>) ELSE <<>>]
    [] kind = "enum" ->
         LET fb == Fb(Sub(h, 3), 45, "Other") vs == GenVars(Sub(h, 2), env, IF fb = <<>> THEN 1 ELSE 0, 4) IN
         [k |-> "enum", comment |-> <<>>, doc |-> Doc(Sub(h, 1)), name |-> name, vars |-> vs, fb |-> fb,
          attrs |-> IF fb = <<>> /\ \A i \in DOMAIN vs : vs[i].ty = <<>> \/ Plain(vs[i].ty[1]) THEN Rust(<<"impl_partial_eq", "impl_eq">>) ELSE <<>>]
    [] kind = "newtype" -> [k |-> "newtype", comment |-> <<>>, doc |-> Doc(Sub(h, 1)), attrs |-> <<>>, name |-> name, ty |-> GenT(Sub(h, 2), env, 3, FALSE)]
    [] kind = "key"     -> [k |-> "newtype", comment |-> <<>>, doc |-> Doc(Sub(h, 1)), attrs |-> <<>>, name |-> name, ty |-> GenKey(Sub(h, 2), env)]

Ref(s, n) == [k |-> "ref", s |-> s, n |-> n]

(* Definitions one after the other; the earlier ones can be used anywhere. *)
RECURSIVE GenDefs(_, _, _, _, _)
GenDefs(h, kinds, names, env, acc) ==
  IF kinds = <<>> THEN [defs |-> acc, env |-> env]
  ELSE LET d == GenDef(Sub(h, Len(kinds)), kinds[1], names[1], env)
           r == Ref("", names[1])
           e2 == [env EXCEPT !.early = Append(@, r), !.keys = IF kinds[1] = "key" THEN Append(@, r) ELSE @] IN
       GenDefs(h, Tail(kinds), Tail(names), e2, Append(acc, d))

GenConst(h, name) ==
  [k |-> "const", comment |-> <<>>, doc |-> Doc(Sub(h, 1)), name |-> name,
   ct |-> Of(Sub(h, 2), V!IntKinds), val |-> Of(Sub(h, 3), V!LenSeq)]

OtherConsts == <<
  [k |-> "const", comment |-> <<>>, doc |-> <<>>, name |-> "LOW", ct |-> "i64", val |-> "-9223372036854775808"],
  [k |-> "const", comment |-> <<>>, doc |-> <<>>, name |-> "HIGH", ct |-> "u64", val |-> "18446744073709551615"],
  [k |-> "const", comment |-> <<>>, doc |-> <<>>, name |-> "ZERO", ct |-> "u8", val |-> "007"],
  [k |-> "const", comment |-> <<>>, doc |-> <<>>, name |-> "STR", ct |-> "string", val |-> "\"a b \\\" \\\\ {} $x \\\\u{41}\""],
  [k |-> "const", comment |-> <<>>, doc |-> <<>>, name |-> "UUID", ct |-> "uuid", val |-> "5ca1ab1e-0000-4000-8000-00000000000F"]>>

-----------------------------------------------------------------------------
(* Services *)

GenInline(h, env) ==
  LET r == Num(Sub(h, 1), 100) IN
  IF r < 45 THEN [k |-> "type", ty |-> GenT(Sub(h, 2), env, 2, FALSE)]
  ELSE IF r < 75 THEN [k |-> "struct", doc |-> Doc(Sub(h, 3)), attrs |-> <<>>, fields |-> GenFields(Sub(h, 5), env, 3), fb |-> Fb(Sub(h, 6), 35, "more")]
  ELSE LET fb == Fb(Sub(h, 6), 35, "Other") IN
       [k |-> "enum", doc |-> Doc(Sub(h, 3)), attrs |-> <<>>, vars |-> GenVars(Sub(h, 5), env, IF fb = <<>> THEN 1 ELSE 0, 3), fb |-> fb]
Part(h, env) == [comment |-> <<>>, ty |-> GenInline(h, env)]

GenService(h, name, env) ==
  LET fns == Many(Sub(h, 1), 0, 3, LAMBDA g, i :
               [k |-> "fn", comment |-> <<>>, doc |-> Doc(Sub(g, 1)), name |-> Win(Sub(h, 11), FnNames, i, 3), id |-> Win(Sub(h, 12), V!IdSeq, i, 5),
                args |-> Maybe(Sub(g, 2), 50, LAMBDA x : Part(x, env)), ok |-> Maybe(Sub(g, 3), 60, LAMBDA x : Part(x, env)),
                err |-> Maybe(Sub(g, 4), 35, LAMBDA x : Part(x, env))])
      evs == Many(Sub(h, 2), 0, 2, LAMBDA g, i :
               [k |-> "event", comment |-> <<>>, doc |-> Doc(Sub(g, 1)), name |-> Win(Sub(h, 13), EvNames, i, 1), id |-> Win(Sub(h, 14), V!IdSeq, i, 3),
                ty |-> Maybe(Sub(g, 2), 60, LAMBDA x : GenInline(x, env))]) IN
  [k |-> "service", comment |-> <<>>, doc |-> Doc(Sub(h, 3)), name |-> name, uc |-> <<>>,
   uuid |-> Of(Sub(h, 4), <<"5ca1ab1e-0000-4000-8000-00000000000F", "deadbeef-dead-beef-dead-deadbeefdead", "00000000-0000-0000-0000-000000000001">>),
   vc |-> <<>>, version |-> Win(Sub(h, 5), V!IdSeq, 0, 1), items |-> IF Chance(Sub(h, 6), 50) THEN fns \o evs ELSE evs \o fns,
   ffb |-> Fb(Sub(h, 7), 35, "unknown"), efb |-> Fb(Sub(h, 8), 35, "other")]

-----------------------------------------------------------------------------
(* Newer versions *)

Unused(ids) == SelectSeq(V!IdSeq, LAMBDA id : id \notin ids)
Newer(h, d, env) ==
  CASE d.k = "struct" ->
         LET free == Unused({d.fields[i].id : i \in DOMAIN d.fields}) IN
         [d EXCEPT !.attrs = <<>>, !.fields = @ \o Many(Sub(h, 1), 0, 2, LAMBDA g, i : GenField(g, Win(Sub(h, 2), free, i, 1), <<"n1", "n2">>[i], env))]
    [] d.k = "enum" ->
         LET free == Unused({d.vars[i].id : i \in DOMAIN d.vars}) IN
         [d EXCEPT !.attrs = <<>>, !.vars = @ \o Many(Sub(h, 1), 0, 2, LAMBDA g, i : GenVar(g, Win(Sub(h, 2), free, i, 1), <<"New1", "New2">>[i], env, 2))]
    [] OTHER -> d

-----------------------------------------------------------------------------
(* A case *)

Schema(imports, defs) == [comment |-> <<>>, doc |-> <<>>, imports |-> [i \in DOMAIN imports |-> [comment |-> <<>>, name |-> imports[i]]], defs |-> defs]

GenCase(h) ==
  LET lk == Many(Sub(h, 1), 1, 3, LAMBDA g, i : Of(g, <<"struct", "enum", "key", "newtype">>))
      ln == [i \in DOMAIN lk |-> LibNames[i]]
      lenv == [early |-> <<>>, all |-> [i \in DOMAIN ln |-> Ref("", ln[i])], keys |-> <<>>, lens |-> <<>>]
      lib == GenDefs(Sub(h, 2), lk, ln, lenv, <<>>)
      lcs == <<GenConst(Sub(h, 3), "N")>>
      ext(rs) == [i \in DOMAIN rs |-> [rs[i] EXCEPT !.s = "lib"]]
      mk == Many(Sub(h, 4), 3, 5, LAMBDA g, i : Of(g, <<"struct", "struct", "enum", "enum", "key", "newtype", "newtype">>))
      mn == [i \in DOMAIN mk |-> Win(Sub(h, 5), TypeNames, i, 7)]
      mcs == Many(Sub(h, 6), 0, 2, LAMBDA g, i : GenConst(g, ConstNames[i]))
      menv == [early |-> ext(lib.env.early), all |-> ext(lib.env.early) \o [i \in DOMAIN mn |-> Ref("", mn[i])], keys |-> ext(lib.env.keys),
               lens |-> [i \in DOMAIN mcs |-> Ref("", mcs[i].name)] \o <<Ref("lib", "N")>>]
      main == GenDefs(Sub(h, 7), mk, mn, menv, <<>>)
      svc == Maybe(Sub(h, 8), 60, LAMBDA g : GenService(g, Of(Sub(g, 99), SvcNames), main.env))
      next == Chance(Sub(h, 9), 50)
      nenv(i) == [main.env EXCEPT !.early = SubSeq(@, 1, Len(lib.env.early) + i - 1)] IN
  [lib |-> Schema(<<>>, lcs \o lib.defs),
   main |-> Schema(<<"lib">>, (IF Chance(Sub(h, 10), 20) THEN OtherConsts ELSE <<>>) \o mcs \o main.defs \o svc),
   next |-> IF next THEN <<Schema(<<"lib">>, mcs \o [i \in DOMAIN main.defs |-> Newer(Sub(Sub(h, 11), i), main.defs[i], nenv(i))])>> ELSE <<>>]

-----------------------------------------------------------------------------
(* What a case describes, in the terms of Layout. Docs don't matter here.  *)

Camel(n) ==
  CASE n = "f" -> "F" [] n = "get" -> "Get" [] n = "set_value" -> "SetValue" [] n = "type" -> "Type" [] n = "match" -> "Match" [] n = "x1" -> "X1"
    [] n = "do_it" -> "DoIt" [] n = "async" -> "Async" [] n = "r" -> "R" [] n = "args" -> "Args" [] n = "e" -> "E" [] n = "changed" -> "Changed"
    [] n = "loop" -> "Loop" [] n = "value_set" -> "ValueSet" [] n = "fn_done" -> "FnDone" [] n = "y2" -> "Y2"

ConstOf(web, s, n) == LET ds == web[s].defs IN ds[CHOOSE i \in DOMAIN ds : ds[i].k = "const" /\ ds[i].name = n].val

RECURSIVE LT(_, _, _)
LT(web, s, t) ==
  LET own(x) == IF x.s = "" THEN s ELSE x.s IN
  CASE t.k = "vec" /\ t.a.k = "u8" -> [k |-> "bytes"]
    [] t.k \in L!Unary  -> [k |-> t.k, a |-> LT(web, s, t.a)]
    [] t.k \in L!Binary -> [k |-> t.k, a |-> LT(web, s, t.a), b |-> LT(web, s, t.b)]
    [] t.k = "array"    -> [k |-> "array", a |-> LT(web, s, t.a), len |-> IF t.len.k = "lit" THEN t.len.v ELSE ConstOf(web, own(t.len), t.len.n)]
    [] t.k = "ref"      -> [k |-> "ref", s |-> own(t), n |-> t.n]
    [] OTHER            -> t

Fbs(f) == L!OneOf(f, LAMBDA x : [n |-> x.name, doc |-> <<>>])

Describe1(web, s, d, n) ==
  CASE d.k = "struct" -> [k |-> "struct", s |-> s, n |-> n, doc |-> <<>>, fb |-> Fbs(d.fb),
                          fields |-> [i \in DOMAIN d.fields |-> [id |-> d.fields[i].id, n |-> d.fields[i].name, doc |-> <<>>, req |-> d.fields[i].req, ty |-> LT(web, s, d.fields[i].ty)]]]
    [] d.k = "enum"   -> [k |-> "enum", s |-> s, n |-> n, doc |-> <<>>, fb |-> Fbs(d.fb),
                          vars |-> [i \in DOMAIN d.vars |-> [id |-> d.vars[i].id, n |-> d.vars[i].name, doc |-> <<>>, ty |-> L!OneOf(d.vars[i].ty, LAMBDA t : LT(web, s, t))]]]
    [] d.k = "newtype" -> [k |-> "newtype", s |-> s, n |-> n, doc |-> <<>>, ty |-> LT(web, s, d.ty)]

(* The types of inline definitions: <<name, definition>> *)
InlineOf(svc, x) ==
  LET p(o, suffix) == IF o # <<>> /\ o[1].k # "type" THEN <<<<svc \o Camel(x.name) \o suffix, o[1]>>>> ELSE <<>>
      q(o) == IF o = <<>> THEN <<>> ELSE <<o[1].ty>> IN
  IF x.k = "fn" THEN p(q(x.args), "Args") \o p(q(x.ok), "Ok") \o p(q(x.err), "Error") ELSE p(x.ty, "Args")

PartType(web, s, svc, x, o, suffix) ==
  IF o = <<>> THEN <<>>
  ELSE IF o[1].k = "type" THEN <<LT(web, s, o[1].ty)>>
  ELSE <<[k |-> "ref", s |-> s, n |-> svc \o Camel(x.name) \o suffix]>>

Described(web, s, d) ==
  CASE d.k = "const"   -> <<>>
    [] d.k = "service" ->
         LET q(o) == IF o = <<>> THEN <<>> ELSE <<o[1].ty>>
             fns == SelectSeq(d.items, LAMBDA x : x.k = "fn")
             evs == SelectSeq(d.items, LAMBDA x : x.k = "event")
             inl == S!Flat([i \in DOMAIN d.items |-> InlineOf(d.name, d.items[i])]) IN
         <<[k |-> "svc", s |-> s, n |-> d.name, doc |-> <<>>,
            uuid |-> IF d.uuid = "5ca1ab1e-0000-4000-8000-00000000000F" THEN "5ca1ab1e-0000-4000-8000-00000000000f" ELSE d.uuid, version |-> d.version,
            fns |-> [i \in DOMAIN fns |-> [id |-> fns[i].id, n |-> fns[i].name, doc |-> <<>>, args |-> PartType(web, s, d.name, fns[i], q(fns[i].args), "Args"),
                                           ok |-> PartType(web, s, d.name, fns[i], q(fns[i].ok), "Ok"), err |-> PartType(web, s, d.name, fns[i], q(fns[i].err), "Error")]],
            evs |-> [i \in DOMAIN evs |-> [id |-> evs[i].id, n |-> evs[i].name, doc |-> <<>>, ty |-> PartType(web, s, d.name, evs[i], evs[i].ty, "Args")]],
            ffb |-> Fbs(d.ffb), efb |-> Fbs(d.efb)]>>
         \o [i \in DOMAIN inl |-> Describe1(web, s, inl[i][2], inl[i][1])]
    [] OTHER -> <<Describe1(web, s, d, d.name)>>

SchemasOf(c) == IF c.next = <<>> THEN <<"lib", "main">> ELSE <<"lib", "main", "next">>
Web(c) == [lib |-> c.lib, main |-> c.main, next |-> IF c.next = <<>> THEN c.lib ELSE c.next[1]]
Universe(c) ==
  LET web == Web(c) ss == SchemasOf(c) IN
  S!Flat([j \in DOMAIN ss |-> LET ds == web[ss[j]].defs IN S!Flat([i \in DOMAIN ds |-> Described(web, ss[j], ds[i])])])

Key(d) == [k |-> IF d.k = "svc" THEN "svc" ELSE "ref", s |-> d.s, n |-> d.n]

-----------------------------------------------------------------------------
(* Values *)

ByteSeq == <<0, 1, 127, 128, 250, 251, 252, 253, 254, 255, 77, 0>>
RawN(h, n) == [i \in 1 .. n |-> Of(Sub(h, i), ByteSeq)]
IntN(h, n) ==
  LET top == Num(Sub(h, 901), n + 1) fill == IF Chance(Sub(h, 902), 25) THEN 255 ELSE 0 IN
  [i \in 1 .. n |-> IF i <= top THEN Of(Sub(h, i), ByteSeq) ELSE fill]
Strs == <<<<>>, <<97>>, <<104, 105>>, <<195, 164>>, <<240, 159, 152, 128>>, <<0>>, <<34, 92>>>>
LongStr == [i \in 1 .. 300 |-> 97]
Str(h) == IF Chance(Sub(h, 1), 3) THEN LongStr ELSE Of(Sub(h, 2), Strs)

GenKeyV(h, kk) == IF kk = 8 THEN Str(h) ELSE IF kk = 9 THEN RawN(h, 16) ELSE IntN(h, V!IntWidth[kk + 1])
KeySet(h, kk, max) == {GenKeyV(Sub(h, i), kk) : i \in 1 .. Num(Sub(h, 900), max + 1)}

(* Anything *)
RECURSIVE Anything(_, _)
Anything(h, d) ==
  LET r == Num(Sub(h, 1), IF d = 0 THEN 17 ELSE 24) x(n) == Anything(Sub(h, 20 + n), d - 1) IN
  CASE r = 0  -> <<0>>
    [] r = 1  -> <<2, Num(Sub(h, 2), 2)>>
    [] r \in 3 .. 10 -> <<r, IntN(Sub(h, 2), V!IntWidth[r - 2])>>
    [] r = 11 -> <<11, RawN(Sub(h, 2), 4)>>
    [] r = 12 -> <<12, RawN(Sub(h, 2), 8)>>
    [] r = 13 -> <<13, Str(Sub(h, 2))>>
    [] r = 14 -> <<Of(Sub(h, 3), <<14, 41, 42>>), RawN(Sub(h, 2), 16)>>
    [] r = 15 -> <<15, RawN(Sub(h, 2), 32)>>
    [] r = 16 -> <<16, RawN(Sub(h, 2), 64)>>
    [] r = 2  -> <<18, RawN(Sub(h, 2), Num(Sub(h, 3), 4))>>
    [] r = 17 -> <<1, x(0)>>
    [] r \in {18, 23} -> <<17, [i \in 1 .. Num(Sub(h, 2), 4) |-> x(i)]>>
    [] r = 19 -> LET kk == Num(Sub(h, 3), 10) IN <<19 + kk, {<<k, x(0)>> : k \in KeySet(Sub(h, 2), kk, 2)}>>
    [] r = 20 -> LET kk == Num(Sub(h, 3), 10) IN <<29 + kk, KeySet(Sub(h, 2), kk, 3)>>
    [] r = 21 -> <<39, {<<V!IdWire[1 + ((i * 3) % 16)], x(i)>> : i \in 1 .. Num(Sub(h, 2), 4)}>>
    [] r = 22 -> <<40, <<Of(Sub(h, 2), V!IdWire), x(0)>>>>

(* A value that conforms to type t. At d = 0 it is as small as possible. *)
RECURSIVE Val(_, _, _, _)
Val(u, t, h, d) ==
  LET n(max) == IF d <= 0 THEN 0 ELSE Num(Sub(h, 1), max + 1) IN
  CASE V!In(t.k, V!IntKinds) -> LET i == V!Index(t.k, V!IntKinds) IN <<i + 2, IntN(h, V!IntWidth[i])>>
    [] t.k = "bool"   -> <<2, Num(h, 2)>>
    [] t.k = "f32"    -> <<11, RawN(h, 4)>>
    [] t.k = "f64"    -> <<12, RawN(h, 8)>>
    [] t.k = "string" -> <<13, Str(h)>>
    [] t.k = "uuid"   -> <<14, RawN(h, 16)>>
    [] t.k \in {"object_id", "lifetime"} -> <<15, RawN(h, 32)>>
    [] t.k = "service_id" -> <<16, RawN(h, 64)>>
    [] t.k = "value"  -> Anything(h, IF d <= 0 THEN 0 ELSE 2)
    [] t.k = "bytes"  -> <<18, RawN(Sub(h, 2), Num(h, 4))>>
    [] t.k = "unit"   -> <<0>>
    [] t.k = "option" -> IF d <= 0 \/ Chance(Sub(h, 2), 30) THEN <<0>> ELSE <<1, Val(u, t.a, Sub(h, 3), d)>>
    [] t.k = "box"    -> Val(u, t.a, h, d)
    [] t.k = "vec"    -> <<17, [i \in 1 .. n(3) |-> Val(u, t.a, Sub(h, 10 + i), d - 1)]>>
    [] t.k = "array"  -> <<17, [i \in 1 .. V!LenOf(t.len) |-> Val(u, t.a, Sub(h, 10 + i), d - 1)]>>
    [] t.k = "set"    -> LET kk == V!KeyKind(u, t.a) IN <<29 + kk, KeySet(Sub(h, 2), kk, 3)>>
    [] t.k = "map"    -> LET kk == V!KeyKind(u, t.a) ks == IF d <= 0 THEN {} ELSE KeySet(Sub(h, 2), kk, 3) IN
                         <<19 + kk, {<<k, Val(u, t.b, Sub(h, Len(k) + (IF k = <<>> THEN 0 ELSE k[1])), d - 1)>> : k \in ks}>>
    [] t.k = "sender" -> <<41, RawN(h, 16)>>
    [] t.k = "receiver" -> <<42, RawN(h, 16)>>
    [] t.k = "result" -> LET r == Num(Sub(h, 1), 2) IN <<40, <<V!IdWire[r + 1], Val(u, IF r = 0 THEN t.a ELSE t.b, Sub(h, 2), d)>>>>
    [] t.k = "ref" ->
         LET def == V!Find(u, t) IN
         CASE def.k = "newtype" -> Val(u, def.ty, h, d)
           [] def.k = "struct" ->
                LET here(i) == def.fields[i].req \/ (d > 0 /\ Chance(Sub(h, 30 + i), 65))
                    val(i) == LET f == def.fields[i] IN
                              IF f.req THEN Val(u, f.ty, Sub(h, 60 + i), d - 1)
                              ELSE IF Chance(Sub(h, 90 + i), 25) THEN <<0>>
                              ELSE <<1, Val(u, f.ty, Sub(h, 60 + i), d - 1)>>
                    ids == {def.fields[i].id : i \in DOMAIN def.fields}
                    free == SelectSeq(V!IdSeq, LAMBDA id : id \notin ids)
                    extra == IF Chance(Sub(h, 4), 30) THEN Num(Sub(h, 5), 3) ELSE 0 IN
                <<39, {<<V!IdBytes(def.fields[i].id), val(i)>> : i \in {j \in DOMAIN def.fields : here(j)}}
                      \cup {<<V!IdBytes(Win(Sub(h, 6), free, i, 1)), Anything(Sub(h, 7 + i), 1)>> : i \in 1 .. extra}>>
           [] def.k = "enum" ->
                LET ids == {def.vars[i].id : i \in DOMAIN def.vars}
                    free == SelectSeq(V!IdSeq, LAMBDA id : id \notin ids)
                    i == IF d <= 0 THEN 1 ELSE Num(Sub(h, 2), Len(def.vars)) + 1
                    var == def.vars[i] IN
                IF def.vars = <<>> \/ (def.fb # <<>> /\ Chance(Sub(h, 3), 25))
                THEN <<40, <<V!IdBytes(Of(Sub(h, 4), free)), Anything(Sub(h, 5), 1)>>>>
                ELSE <<40, <<V!IdBytes(var.id), IF var.ty = <<>> THEN <<0>> ELSE Val(u, var.ty[1], Sub(h, 6), d - 1)>>>>

-----------------------------------------------------------------------------
(* Values that differ from v in one place *)

RECURSIVE SetSeq(_)
SetSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SetSeq(X \ {x})

Odd(h) == IF Chance(Sub(h, 1), 60) THEN Anything(Sub(h, 2), 1)
          ELSE Of(Sub(h, 3), <<<<0>>, <<1, <<0>>>>, <<17, <<>>>>, <<39, {}>>, <<40, <<V!IdWire[1], <<0>>>>>>, <<18, <<>>>>, <<1, <<3, <<1>>>>>>>>)

Tweak(v, h) ==
  LET k == v[1] IN
  CASE k \in 3 .. 10 /\ Chance(Sub(h, 1), 60) -> LET j == Num(Sub(h, 2), 8) + 3 IN <<j, IntN(Sub(h, 3), V!IntWidth[j - 2])>>
    [] k = 1 -> v[2]
    [] k = 17 /\ Chance(Sub(h, 1), 70) ->
         IF v[2] = <<>> \/ Chance(Sub(h, 2), 50) THEN <<17, Append(v[2], IF v[2] = <<>> THEN Odd(Sub(h, 3)) ELSE v[2][1])>> ELSE <<17, Tail(v[2])>>
    [] k \in 19 .. 28 /\ Chance(Sub(h, 1), 50) -> <<29 + k - 19, {e[1] : e \in v[2]}>>
    [] k \in 29 .. 38 /\ Chance(Sub(h, 1), 50) -> LET j == Num(Sub(h, 2), 10) IN <<29 + j, IF j = k - 29 THEN v[2] ELSE KeySet(Sub(h, 3), j, 2)>>
    [] k = 39 /\ Chance(Sub(h, 1), 80) ->
         LET es == SetSeq(v[2]) IN
         IF es = <<>> \/ Chance(Sub(h, 2), 25)
         THEN LET id == Of(Sub(h, 4), V!IdWire) IN <<39, {e \in v[2] : e[1] # id} \cup {<<id, Odd(Sub(h, 3))>>}>>
         ELSE LET e == Of(Sub(h, 5), es) IN
              IF Chance(Sub(h, 6), 50) THEN <<39, v[2] \ {e}>> ELSE <<39, (v[2] \ {e}) \cup {<<e[1], Odd(Sub(h, 7))>>}>>
    [] k = 40 /\ Chance(Sub(h, 1), 80) ->
         IF Chance(Sub(h, 2), 50) THEN <<40, <<Of(Sub(h, 3), V!IdWire), v[2][2]>>>> ELSE <<40, <<v[2][1], Odd(Sub(h, 4))>>>>
    [] OTHER -> Odd(Sub(h, 9))

RECURSIVE Mutant(_, _)
Mutant(v, h) ==
  LET k == v[1] stop == Chance(Sub(h, 1), 30) g == Sub(h, 2) IN
  IF stop THEN Tweak(v, Sub(h, 3))
  ELSE CASE k = 1 -> <<1, Mutant(v[2], g)>>
         [] k = 17 /\ v[2] # <<>> -> LET i == Num(Sub(h, 4), Len(v[2])) + 1 IN <<17, [v[2] EXCEPT ![i] = Mutant(@, g)]>>
         [] (k \in 19 .. 28 \/ k = 39) /\ v[2] # {} -> LET e == Of(Sub(h, 4), SetSeq(v[2])) IN <<k, (v[2] \ {e}) \cup {<<e[1], Mutant(e[2], g)>>}>>
         [] k = 40 -> <<40, <<v[2][1], Mutant(v[2][2], g)>>>>
         [] OTHER -> Tweak(v, Sub(h, 3))

(* What every struct or enum has to show: each field missing, null, odd. *)
Systematic(v, h) ==
  IF v[1] = 39 THEN S!Flat([i \in DOMAIN SetSeq(v[2]) |-> LET e == SetSeq(v[2])[i] rest == v[2] \ {e} IN
                       <<<<39, rest>>, <<39, rest \cup {<<e[1], <<0>>>>}>>, <<39, rest \cup {<<e[1], <<1, e[2]>>>>}>>, <<39, rest \cup {<<e[1], Tweak(e[2], Sub(h, i))>>}>>>>])
                    \o <<<<39, {}>>>>
  ELSE IF v[1] = 40 THEN [i \in DOMAIN V!IdWire |-> <<40, <<V!IdWire[i], v[2][2]>>>>] \o <<<<40, <<v[2][1], <<0>>>>>>, <<40, <<v[2][1], <<1, v[2][2]>>>>>>>>
  ELSE <<>>

-----------------------------------------------------------------------------
(* Bytes: each container in the one or the other encoding, entries in any order *)

Rot(s, k) == [i \in DOMAIN s |-> s[((i + k - 1) % Len(s)) + 1]]

RECURSIVE Put(_, _, _)
Put(v, mode, h) ==
  LET k == v[1]
      two == mode = 2 \/ (mode = 3 /\ Chance(Sub(h, 1), 50))
      es == IF k \in 19 .. 39 THEN Rot(SetSeq(v[2]), Num(Sub(h, 2), 5)) ELSE <<>> IN
  CASE k = 1  -> <<1>> \o Put(v[2], mode, Sub(h, 3))
    [] k = 17 -> W!Wrap(two, k, [i \in DOMAIN v[2] |-> Put(v[2][i], mode, Sub(h, 10 + i))])
    [] k \in 19 .. 28 -> W!Wrap(two, k, [i \in DOMAIN es |-> W!PutKey(k - 19, es[i][1]) \o Put(es[i][2], mode, Sub(h, 10 + i))])
    [] k \in 29 .. 38 -> W!Wrap(two, k, [i \in DOMAIN es |-> W!PutKey(k - 29, es[i])])
    [] k = 39 -> W!Wrap(two, k, [i \in DOMAIN es |-> W!PutVarint(es[i][1]) \o Put(es[i][2], mode, Sub(h, 10 + i))])
    [] k = 40 -> <<40>> \o W!PutVarint(v[2][1]) \o Put(v[2][2], mode, Sub(h, 3))
    [] OTHER  -> W!Enc(v, two)

-----------------------------------------------------------------------------
Seed == atoi(IOEnv.SEED)
From == atoi(IOEnv.FROM)
Count == atoi(IOEnv.COUNT)
Per == atoi(IOEnv.VALUES)

VARIABLES n, c, u
vars == <<n, c, u>>
Init == \E k \in From .. From + Count - 1 : n = k /\ c = GenCase(RootOf(Seed, k)) /\ u = Universe(c)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Types == SelectSeq([i \in DOMAIN u |-> Key(u[i])], LAMBDA t : t.k = "ref")

Conforming(t) == LET h == Sub(RootOf(Seed, n), 12) IN [i \in 1 .. Per |-> Val(u, t, Sub(Sub(h, V!Index(t, Types)), i), 2 + (i % 2))]

(* Conforming values are accepted; what comes back is a fixed point; and what newer code knows survives older code that has fallbacks everywhere. *)
RECURSIVE Open(_, _)
Open(t, seen) ==
  IF t \in seen THEN TRUE
  ELSE IF t.k = "ref" THEN LET d == V!Find(u, t) IN (d.k = "newtype" \/ d.fb # <<>>) /\ \A x \in L!Mentions(d) : Open(x, seen \cup {t})
  ELSE IF t.k \in L!Binary THEN Open(t.a, seen \cup {t}) /\ Open(t.b, seen \cup {t})
  ELSE IF t.k \in L!Unary \/ t.k = "array" THEN Open(t.a, seen \cup {t})
  ELSE TRUE

ValuesOK ==
  \A i \in DOMAIN Types : \A j \in 1 .. Per :
    LET t == Types[i] v == Conforming(t)[j] r == V!Re(u, t, v) IN
    /\ r # V!No /\ V!Re(u, t, r) = r
    /\ (t.s = "next" /\ Open([t EXCEPT !.s = "main"], {})) =>
          LET o == V!Re(u, [t EXCEPT !.s = "main"], v) IN o # V!No /\ V!Re(u, t, o) = r

ValsFor(i) ==
  LET t == Types[i]
      h == Sub(Sub(RootOf(Seed, n), 13), i)
      vs == Conforming(t)
      ms == S!Flat([j \in DOMAIN vs |-> <<Mutant(vs[j], Sub(h, j)), Mutant(vs[j], Sub(h, 500 + j))>>]) \o Systematic(vs[1], Sub(h, 700)) IN
  [j \in DOMAIN vs |-> <<i, Put(vs[j], 1 + (j % 3), Sub(h, 300 + j))>>] \o [j \in DOMAIN ms |-> <<i, Put(ms[j], 1 + (j % 3), Sub(h, 400 + j))>>]

AllTypes == LET ks == {Key(u[i]) : i \in DOMAIN u} IN SetSeq(ks \cup UNION {L!Needs(u, k) : k \in ks})

Emit ==
  PrintT("CASE " \o ToJson([n |-> n, lib |-> S!Tokens(1 + (n % 6), c.lib), main |-> S!Tokens(1 + (n % 6), c.main),
                            next |-> IF c.next = <<>> THEN <<>> ELSE <<S!Tokens(2, c.next[1])>>,
                            u |-> u, types |-> Types, all |-> AllTypes, vals |-> S!Flat([i \in DOMAIN Types |-> ValsFor(i)])]))
=============================================================================
