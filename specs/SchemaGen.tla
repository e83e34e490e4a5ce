----------------------------- MODULE SchemaGen -----------------------------
(***************************************************************************)
(* Schemas to try.                                                         *)
(*                                                                         *)
(* Small ones, exhaustively (MODE fields, items, defs, head): every        *)
(* sequence of up to three neighbours, each with and without the things    *)
(* that may stand in front of it, and every fallback behind them.          *)
(*                                                                         *)
(* Large ones, by chance (MODE random): everything that the grammar        *)
(* allows, valid or not.                                                   *)
(***************************************************************************)
EXTENDS Schema, Chance, TLC, Json, IOUtils

Text(h) == "T" \o ToString(IF Chance(Sub(h, 1), 70) THEN Num(Sub(h, 2), 40) ELSE Num(Sub(h, 2), 1000))
Texts(h, pct) == IF Chance(Sub(h, 3), pct) THEN [n \in 1 .. Num(Sub(h, 4), 3) + 1 |-> Text(Sub(h, 10 + n))] ELSE <<>>

TypeNames == <<"Foo", "Bar", "Baz", "A1", "Ty", "foo_bar", "Self2", "UNI", "X", "String1", "struct", "fn", "_A">>
FieldNames == <<"a", "b", "c", "required", "type", "x1", "CamelCase", "SHOUT", "uni", "value", "self", "_", "fallback",
                "struct", "enum", "uuid", "version", "args", "ok", "err", "fn", "r", "import">>
ItemNames == <<"f", "g", "get", "fallback", "BadName", "uni", "fn", "event", "x_y", "version">>
Schemas == <<"dep", "other", "missing", "BadName", "self", "import", "std">>
Ints == <<"0", "1", "2", "3", "7", "007", "4294967295", "4294967296", "-1", "-0", "99999999999999999999">>
Uuids == <<"00000000-0000-0000-0000-000000000000", "5ca1ab1e-0000-4000-8000-00000000000F",
           "DEADBEEF-dead-BEEF-dead-DEADBEEFDEAD", "12345678-9abc-def0-1234-56789abcdef0">>
Strings == <<"\"\"", "\"a b\"", "\"\\\"\"", "\"\\\\\"", "\"// no comment\"", "\"\\n\"", "\"UNI {}\"", "\"\\u{41}\"">>
IntTypes == <<"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64">>

SimpleSeq == <<"bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "string",
               "uuid", "object_id", "service_id", "value", "bytes", "lifetime", "unit">>
UnarySeq == <<"option", "box", "vec", "set", "sender", "receiver">>

GenRef(h) == [k |-> "ref", s |-> IF Chance(Sub(h, 1), 25) THEN Of(Sub(h, 2), Schemas) ELSE "", n |-> Of(Sub(h, 3), TypeNames)]

RECURSIVE GenType(_, _)
GenType(h, d) ==
  LET r == Num(Sub(h, 1), 100) IN
  IF d = 0 \/ r < 45 THEN [k |-> Of(Sub(h, 2), SimpleSeq)]
  ELSE IF r < 60 THEN GenRef(Sub(h, 3))
  ELSE IF r < 80 THEN [k |-> Of(Sub(h, 4), UnarySeq), a |-> GenType(Sub(h, 5), d - 1)]
  ELSE IF r < 93 THEN [k |-> Of(Sub(h, 6), <<"map", "result">>), a |-> GenType(Sub(h, 7), d - 1), b |-> GenType(Sub(h, 8), d - 1)]
  ELSE [k |-> "array", a |-> GenType(Sub(h, 9), d - 1),
        len |-> IF Chance(Sub(h, 10), 60) THEN [k |-> "lit", v |-> Of(Sub(h, 11), Ints)] ELSE GenRef(Sub(h, 12))]

GenAttr(h) == [name |-> Of(Sub(h, 1), <<"rust", "foo", "rust">>),
               opts |-> List(Sub(h, 2), 3, LAMBDA g, n : Of(g, <<"impl_copy", "impl_partial_eq", "bar", "impl_eq", "impl_hash", "x">>))]
Attrs(h) == IF Chance(Sub(h, 1), 15) THEN List(Sub(h, 2), 2, LAMBDA g, n : GenAttr(g)) ELSE <<>>

CD == 18 \* percentage of things with comments, and with doc strings

GenField(h) == [comment |-> Texts(Sub(h, 1), CD), doc |-> Texts(Sub(h, 2), CD), req |-> Chance(Sub(h, 3), 40),
                name |-> Of(Sub(h, 4), FieldNames), id |-> Of(Sub(h, 5), Ints), ty |-> GenType(Sub(h, 6), 3)]
GenFb(h) == [comment |-> Texts(Sub(h, 1), CD), doc |-> Texts(Sub(h, 2), CD), name |-> Of(Sub(h, 3), FieldNames)]
GenVariant(h) == [comment |-> Texts(Sub(h, 1), CD), doc |-> Texts(Sub(h, 2), CD), name |-> Of(Sub(h, 4), FieldNames \o TypeNames),
                  id |-> Of(Sub(h, 5), Ints), ty |-> Maybe(Sub(h, 6), 60, LAMBDA g : GenType(g, 2))]

GenFields(h, max) == List(h, max, LAMBDA g, n : GenField(g))
GenVars(h, max) == List(h, max, LAMBDA g, n : GenVariant(g))

GenInline(h) ==
  LET r == Num(Sub(h, 1), 100) IN
  IF r < 50 THEN [k |-> "type", ty |-> GenType(Sub(h, 2), 2)]
  ELSE IF r < 75 THEN [k |-> "struct", doc |-> Texts(Sub(h, 3), 30), attrs |-> Attrs(Sub(h, 4)), fields |-> GenFields(Sub(h, 5), 3),
                       fb |-> Maybe(Sub(h, 6), 25, GenFb)]
  ELSE [k |-> "enum", doc |-> Texts(Sub(h, 3), 30), attrs |-> Attrs(Sub(h, 4)), vars |-> GenVars(Sub(h, 5), 3),
        fb |-> Maybe(Sub(h, 6), 25, GenFb)]

GenPart(h) == [comment |-> Texts(Sub(h, 1), CD), ty |-> GenInline(Sub(h, 2))]

GenItem(h) ==
  LET c == Texts(Sub(h, 1), CD) d == Texts(Sub(h, 2), CD) n == Of(Sub(h, 3), ItemNames) id == Of(Sub(h, 4), Ints) IN
  IF Chance(Sub(h, 5), 60)
  THEN [k |-> "fn", comment |-> c, doc |-> d, name |-> n, id |-> id, args |-> Maybe(Sub(h, 6), 35, GenPart),
        ok |-> Maybe(Sub(h, 7), 55, GenPart), err |-> Maybe(Sub(h, 8), 30, GenPart)]
  ELSE [k |-> "event", comment |-> c, doc |-> d, name |-> n, id |-> id, ty |-> Maybe(Sub(h, 9), 50, GenInline)]

GenDef(h) ==
  LET c == Texts(Sub(h, 1), CD) d == Texts(Sub(h, 2), CD) n == Of(Sub(h, 3), TypeNames) a == Attrs(Sub(h, 4))
      fb == Maybe(Sub(h, 5), 25, GenFb) r == Num(Sub(h, 6), 100) IN
  IF r < 25 THEN [k |-> "struct", comment |-> c, doc |-> d, attrs |-> a, name |-> n, fields |-> GenFields(Sub(h, 7), 4), fb |-> fb]
  ELSE IF r < 50 THEN [k |-> "enum", comment |-> c, doc |-> d, attrs |-> a, name |-> n, vars |-> GenVars(Sub(h, 8), 4), fb |-> fb]
  ELSE IF r < 60 THEN [k |-> "newtype", comment |-> c, doc |-> d, attrs |-> a, name |-> n, ty |-> GenType(Sub(h, 9), 3)]
  ELSE IF r < 75 THEN
    LET v == Of(Sub(h, 11), <<<<"int">>, <<"string">>, <<"uuid">>, <<"int">>>>)[1] IN
    [k |-> "const", comment |-> c, doc |-> d, name |-> n,
     ct |-> IF v = "int" THEN Of(Sub(h, 12), IntTypes) ELSE v,
     val |-> CASE v = "int" -> Of(Sub(h, 13), Ints) [] v = "string" -> Of(Sub(h, 14), Strings) [] v = "uuid" -> Of(Sub(h, 15), Uuids)]
  ELSE [k |-> "service", comment |-> c, doc |-> d, name |-> n, uc |-> Texts(Sub(h, 16), 20), uuid |-> Of(Sub(h, 17), Uuids),
        vc |-> Texts(Sub(h, 18), 20), version |-> Of(Sub(h, 19), Ints), items |-> List(Sub(h, 20), 5, LAMBDA g, m : GenItem(g)),
        ffb |-> Maybe(Sub(h, 21), 30, GenFb), efb |-> Maybe(Sub(h, 22), 30, GenFb)]

GenSchema(h) ==
  LET doc == Texts(Sub(h, 1), 30) IN
  [comment |-> IF doc = <<>> THEN <<>> ELSE Texts(Sub(h, 2), 40), doc |-> doc,
   imports |-> List(Sub(h, 3), 3, LAMBDA g, n : [comment |-> Texts(Sub(g, 1), 25), name |-> Of(Sub(g, 2), Schemas)]),
   defs |-> List(Sub(h, 4), 5, LAMBDA g, n : GenDef(g))]

-----------------------------------------------------------------------------
(* The small ones. *)

F0 == [comment |-> <<>>, doc |-> <<>>, req |-> FALSE, name |-> "a", id |-> "0", ty |-> [k |-> "u8"]]
V0 == [comment |-> <<>>, doc |-> <<>>, name |-> "A", id |-> "0", ty |-> <<>>]
B0 == [comment |-> <<>>, doc |-> <<>>, name |-> "z"]
C == <<"T41">>
D == <<"T42">>

With(x) == {x, [x EXCEPT !.comment = C], [x EXCEPT !.doc = D], [x EXCEPT !.comment = C, !.doc = D]}
FieldShapes == With(F0)
VarShapes == With(V0) \cup {[V0 EXCEPT !.ty = <<[k |-> "u8"]>>], [V0 EXCEPT !.ty = <<[k |-> "u8"]>>, !.comment = C]}
FbShapes == {<<x>> : x \in With(B0)}
Fbs == {<<>>} \cup FbShapes

UpTo(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}

S0 == [k |-> "struct", comment |-> <<>>, doc |-> <<>>, attrs |-> <<>>, name |-> "S", fields |-> <<>>, fb |-> <<>>]
E0 == [k |-> "enum", comment |-> <<>>, doc |-> <<>>, attrs |-> <<>>, name |-> "E", vars |-> <<>>, fb |-> <<>>]
N0 == [k |-> "newtype", comment |-> <<>>, doc |-> <<>>, attrs |-> <<>>, name |-> "N", ty |-> [k |-> "u8"]]
K0 == [k |-> "const", comment |-> <<>>, doc |-> <<>>, name |-> "K", ct |-> "u8", val |-> "1"]
X0 == [k |-> "service", comment |-> <<>>, doc |-> <<>>, name |-> "X", uc |-> <<>>, uuid |-> "5ca1ab1e-0000-4000-8000-00000000000F",
       vc |-> <<>>, version |-> "1", items |-> <<>>, ffb |-> <<>>, efb |-> <<>>]
A0 == <<[name |-> "rust", opts |-> <<"impl_copy", "impl_eq">>]>>
Plain(ds) == [comment |-> <<>>, doc |-> <<>>, imports |-> <<>>, defs |-> ds]

SI0 == [k |-> "struct", doc |-> <<>>, attrs |-> <<>>, fields |-> <<>>, fb |-> <<>>]
EI0 == [k |-> "enum", doc |-> <<>>, attrs |-> <<>>, vars |-> <<>>, fb |-> <<>>]
TI0 == [k |-> "type", ty |-> [k |-> "u8"]]

FieldsSpace ==
  {Plain(<<[S0 EXCEPT !.fields = fs, !.fb = fb]>>) : fs \in UpTo(FieldShapes, 3), fb \in Fbs}
  \cup {Plain(<<[E0 EXCEPT !.vars = vs, !.fb = fb]>>) : vs \in UpTo(VarShapes, 2), fb \in Fbs}
  \cup {Plain(<<[X0 EXCEPT !.items = <<[k |-> "fn", comment |-> <<>>, doc |-> <<>>, name |-> "f", id |-> "0", args |-> <<>>,
                                       ok |-> <<[comment |-> <<>>, ty |-> [SI0 EXCEPT !.fields = fs, !.fb = fb, !.doc = d]]>>, err |-> <<>>]>>]>>)
          : fs \in UpTo(FieldShapes, 2), fb \in Fbs, d \in {<<>>, D}}

Inlines == {TI0, SI0, EI0, [SI0 EXCEPT !.doc = D], [SI0 EXCEPT !.fields = <<F0>>], [EI0 EXCEPT !.attrs = A0], [EI0 EXCEPT !.vars = <<V0>>]}
Part0 == [comment |-> <<>>, ty |-> TI0]
Parts == {[comment |-> c, ty |-> t] : c \in {<<>>, C}, t \in Inlines}
FewParts == {Part0, [comment |-> C, ty |-> TI0], [comment |-> <<>>, ty |-> SI0], [comment |-> <<>>, ty |-> [EI0 EXCEPT !.vars = <<V0>>]]}
FN0 == [k |-> "fn", comment |-> <<>>, doc |-> <<>>, name |-> "f", id |-> "0", args |-> <<>>, ok |-> <<>>, err |-> <<>>]
EV0 == [k |-> "event", comment |-> <<>>, doc |-> <<>>, name |-> "e", id |-> "0", ty |-> <<>>]

OneItem ==
  {[FN0 EXCEPT !.args = a, !.ok = o, !.err = e] : a \in {<<>>} \cup {<<p>> : p \in FewParts}, o \in {<<>>} \cup {<<p>> : p \in Parts},
                                                 e \in {<<>>} \cup {<<p>> : p \in FewParts}}
  \cup With(FN0) \cup With(EV0) \cup {[EV0 EXCEPT !.ty = <<t>>] : t \in Inlines}

ItemShapes == {FN0, [FN0 EXCEPT !.comment = C], [FN0 EXCEPT !.doc = D], [FN0 EXCEPT !.ok = <<Part0>>],
               [FN0 EXCEPT !.ok = <<[comment |-> <<>>, ty |-> SI0]>>], [FN0 EXCEPT !.ok = <<[comment |-> C, ty |-> TI0]>>],
               [FN0 EXCEPT !.args = <<Part0>>], [FN0 EXCEPT !.err = <<[comment |-> <<>>, ty |-> [EI0 EXCEPT !.vars = <<V0>>]]>>],
               EV0, [EV0 EXCEPT !.comment = C], [EV0 EXCEPT !.doc = D], [EV0 EXCEPT !.ty = <<TI0>>],
               [EV0 EXCEPT !.ty = <<[SI0 EXCEPT !.fields = <<F0>>]>>]}
FewItems == {FN0, [FN0 EXCEPT !.doc = D], EV0, [EV0 EXCEPT !.comment = C], [FN0 EXCEPT !.args = <<Part0>>]}

ItemsSpace ==
  {Plain(<<[X0 EXCEPT !.items = <<i>>]>>) : i \in OneItem}
  \cup {Plain(<<[X0 EXCEPT !.items = is]>>) : is \in UpTo(ItemShapes, 2)}
  \cup {Plain(<<[X0 EXCEPT !.items = is, !.ffb = f, !.efb = e, !.uc = u, !.vc = v]>>) :
          is \in UpTo(FewItems, 1), f \in Fbs, e \in Fbs, u \in {<<>>, C}, v \in {<<>>, C}}
  \cup {Plain(<<[X0 EXCEPT !.items = is, !.ffb = f, !.efb = e]>>) :
          is \in UpTo(FewItems, 3), f \in {<<>>, <<B0>>, <<[B0 EXCEPT !.doc = D]>>}, e \in {<<>>, <<B0>>, <<[B0 EXCEPT !.comment = C]>>}}

DefShapes == {S0, [S0 EXCEPT !.comment = C], [S0 EXCEPT !.attrs = A0], [S0 EXCEPT !.fields = <<F0>>], [S0 EXCEPT !.fb = <<B0>>],
              [E0 EXCEPT !.doc = D], [E0 EXCEPT !.vars = <<V0>>], E0, N0, [N0 EXCEPT !.comment = C], [N0 EXCEPT !.attrs = A0, !.doc = D],
              K0, [K0 EXCEPT !.doc = D], [K0 EXCEPT !.comment = C], X0, [X0 EXCEPT !.comment = C, !.doc = D]}
FewDefs == {S0, [S0 EXCEPT !.comment = C], K0, [K0 EXCEPT !.doc = D], N0, X0}
I(n, c) == [comment |-> c, name |-> n]
Imports == {I("b", <<>>), I("a", <<>>), I("a", C), I("c", C)}
Heads == {<<<<>>, <<>>>>, <<<<>>, D>>, <<C, D>>, <<<<"T43", "T13">>, <<"T13", "T44">>>>}

DefsSpace == {Plain(ds) : ds \in UpTo(DefShapes, 2)} \cup {Plain(ds) : ds \in [1 .. 3 -> FewDefs]}
HeadSpace == {[comment |-> h[1], doc |-> h[2], imports |-> is, defs |-> ds] :
                h \in Heads, is \in UpTo(Imports, 3), ds \in {<<>>} \cup {<<d>> : d \in FewDefs}}

-----------------------------------------------------------------------------
Mode == IOEnv.MODE
Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)

Space == CASE Mode = "fields" -> FieldsSpace
           [] Mode = "items"  -> ItemsSpace
           [] Mode = "defs"   -> DefsSpace
           [] Mode = "head"   -> HeadSpace
           [] Mode = "random" -> {}

VARIABLES n, s, order
vars == <<n, s, order>>

Root(k) == RootOf(Seed, k)

Init == IF Mode = "random" THEN \E k \in 1 .. Count : n = k /\ s = GenSchema(Root(k)) /\ order = Num(Sub(Root(k), 77), 7) + 1
        ELSE n = 0 /\ s \in Space /\ order \in {1, 7}
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

WellFormed == s.doc = <<>> => s.comment = <<>>
(* Being the same is an equivalence that reordering imports does not affect, and the token sequences of *)
(* a schema do not depend on anything but the schema and the free order of preludes. *)
SameOK == /\ Same(s, s)
          /\ Same(s, [s EXCEPT !.imports = [k \in DOMAIN @ |-> @[Len(@) + 1 - k]]])
          /\ s.defs # <<>> => ~Same(s, [s EXCEPT !.defs = Tail(@)])
Emit == PrintT("SCHEMA " \o ToJson([ast |-> s, toks |-> Tokens(order, s)]))
=============================================================================
