------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* What types mean on the wire: which values they accept, and which value  *)
(* comes back when such a value is decoded and encoded again.              *)
(*                                                                         *)
(* Types and definitions are those of Layout, values those of Wire.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

W == INSTANCE Wire

IntKinds == <<"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64">>
IntWidth == <<1, 1, 2, 2, 4, 4, 8, 8>>
KeyKinds == IntKinds \o <<"string", "uuid">>
Index(x, seq) == CHOOSE i \in DOMAIN seq : seq[i] = x
In(x, seq) == \E i \in DOMAIN seq : seq[i] = x

(* Ids are decimal strings in descriptions and four bytes on the wire. *)
IdSeq   == <<"0", "1", "2", "3", "5", "7", "250", "251", "252", "255", "256", "65535", "65536", "16777216", "4294967294", "4294967295">>
IdWire  == <<<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<2, 0, 0, 0>>, <<3, 0, 0, 0>>, <<5, 0, 0, 0>>, <<7, 0, 0, 0>>, <<250, 0, 0, 0>>, <<251, 0, 0, 0>>, <<252, 0, 0, 0>>,
             <<255, 0, 0, 0>>, <<0, 1, 0, 0>>, <<255, 255, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<254, 255, 255, 255>>, <<255, 255, 255, 255>>>>
IdBytes(id) == IdWire[Index(id, IdSeq)]
LenSeq == <<"1", "2", "3", "4", "5", "33">>
LenNat == <<1, 2, 3, 4, 5, 33>>
LenOf(len) == LenNat[Index(len, LenSeq)]

Find(u, t) == u[CHOOSE i \in DOMAIN u : u[i].k # "svc" /\ u[i].s = t.s /\ u[i].n = t.n]

RECURSIVE KeyKind(_, _)
KeyKind(u, t) == IF t.k = "ref" THEN KeyKind(u, Find(u, t).ty) ELSE Index(t.k, KeyKinds) - 1

SimpleKind ==
  [bool |-> 2, f32 |-> 11, f64 |-> 12, string |-> 13, uuid |-> 14, object_id |-> 15, service_id |-> 16, bytes |-> 18, lifetime |-> 15, unit |-> 0,
   u8 |-> 3, i8 |-> 4, u16 |-> 5, i16 |-> 6, u32 |-> 7, i32 |-> 8, u64 |-> 9, i64 |-> 10]

(* Nothing, for values that are rejected *)
No == <<>>

(* If a type has a fallback, what it doesn't know is kept. *)
RECURSIVE Re(_, _, _)

ReAll(u, t, vs) ==
  LET rs == [i \in DOMAIN vs |-> Re(u, t, vs[i])] IN
  IF \E i \in DOMAIN rs : rs[i] = No THEN <<FALSE>> ELSE <<TRUE, rs>>

ReStruct(u, d, es) ==
  LET known(e) == \E i \in DOMAIN d.fields : IdBytes(d.fields[i].id) = e[1]
      field(e) == d.fields[CHOOSE i \in DOMAIN d.fields : IdBytes(d.fields[i].id) = e[1]]
      re(e) == LET f == field(e) IN Re(u, IF f.req THEN f.ty ELSE [k |-> "option", a |-> f.ty], e[2])
      rs == {<<e[1], IF known(e) THEN re(e) ELSE e[2]>> : e \in {x \in es : known(x) \/ d.fb # <<>>}} IN
  IF \/ \E i \in DOMAIN d.fields : d.fields[i].req /\ ~\E e \in es : e[1] = IdBytes(d.fields[i].id)
     \/ \E r \in rs : r[2] = No
  THEN No
  ELSE <<39, {r \in rs : ~(known(r) /\ ~field(r).req /\ r[2] = <<0>>)}>>

ReEnum(u, d, v) ==
  LET S == {i \in DOMAIN d.vars : IdBytes(d.vars[i].id) = v[2][1]} IN
  IF S = {} THEN (IF d.fb = <<>> THEN No ELSE v)
  ELSE LET var == d.vars[CHOOSE i \in S : TRUE]
           r == Re(u, IF var.ty = <<>> THEN [k |-> "unit"] ELSE var.ty[1], v[2][2]) IN
       IF r = No THEN No ELSE <<40, <<v[2][1], r>>>>

(* Re(u, t, v): the value that type t gives back for v, or No. *)
Re(u, t, v) ==
  CASE t.k = "value"  -> v
    [] t.k = "option" -> (IF v[1] = 0 THEN v
                          ELSE IF v[1] = 1 THEN LET r == Re(u, t.a, v[2]) IN (IF r = No THEN No ELSE <<1, r>>)
                          ELSE No)
    [] t.k = "box"    -> Re(u, t.a, v)
    [] t.k = "vec"    -> (IF v[1] # 17 THEN No ELSE LET r == ReAll(u, t.a, v[2]) IN IF r[1] THEN <<17, r[2]>> ELSE No)
    [] t.k = "array"  -> (IF v[1] # 17 \/ Len(v[2]) # LenOf(t.len) THEN No
                          ELSE LET r == ReAll(u, t.a, v[2]) IN IF r[1] THEN <<17, r[2]>> ELSE No)
    [] t.k = "set"    -> (IF v[1] = 29 + KeyKind(u, t.a) THEN v ELSE No)
    [] t.k = "map"    -> (IF v[1] # 19 + KeyKind(u, t.a) THEN No
                          ELSE LET rs == {<<e[1], Re(u, t.b, e[2])>> : e \in v[2]} IN
                               IF \E r \in rs : r[2] = No THEN No ELSE <<v[1], rs>>)
    [] t.k = "sender" -> (IF v[1] = 41 THEN v ELSE No)
    [] t.k = "receiver" -> (IF v[1] = 42 THEN v ELSE No)
    [] t.k = "result" -> (IF v[1] # 40 \/ v[2][1] \notin {IdWire[1], IdWire[2]} THEN No
                          ELSE LET r == Re(u, IF v[2][1] = IdWire[1] THEN t.a ELSE t.b, v[2][2]) IN
                               IF r = No THEN No ELSE <<40, <<v[2][1], r>>>>)
    [] t.k = "ref"    -> LET d == Find(u, t) IN
                         (CASE d.k = "newtype" -> Re(u, d.ty, v)
                            [] d.k = "struct"  -> IF v[1] = 39 THEN ReStruct(u, d, v[2]) ELSE No
                            [] d.k = "enum"    -> IF v[1] = 40 THEN ReEnum(u, d, v) ELSE No)
    [] OTHER          -> IF v[1] = SimpleKind[t.k] THEN v ELSE No
=============================================================================
