------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* Schemas of Aldrin: their abstract syntax, their concrete syntax as      *)
(* sequences of tokens, and what formatting keeps.                         *)
(*                                                                         *)
(* A schema is [comment, doc, imports, defs]. Comments and doc strings are *)
(* sequences of texts; a text is opaque here ("T7") and stands for one     *)
(* line. Something optional is a sequence of at most one element.          *)
(*                                                                         *)
(* A token is [t, v]: t = "w" is a word, "k" a keyword that white space    *)
(* must follow, "g" a word that white space must not follow, "p"           *)
(* punctuation, "c" a comment, "d" a doc string, "i" an inline doc string. *)
(* White space is free between all other tokens.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Simple == {"bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "string",
           "uuid", "object_id", "service_id", "value", "bytes", "lifetime", "unit"}
Unary  == {"option", "box", "vec", "set", "sender", "receiver"}

W(x) == <<[t |-> "w", v |-> x]>>
K(x) == <<[t |-> "k", v |-> x]>>
P(x) == <<[t |-> "p", v |-> x]>>
Lines(t, xs) == [n \in DOMAIN xs |-> [t |-> t, v |-> xs[n]]]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Opt(ss, F(_)) == IF ss = <<>> THEN <<>> ELSE F(ss[1])
Each(ss, F(_)) == Flat([n \in DOMAIN ss |-> F(ss[n])])

(* How comments (1), doc strings (2) and attributes (3) alternate is lost. The token sequences *)
(* use the order that perm says, which has to mention each of them once.                       *)
Mix(perm, c, d, a) == Flat([n \in DOMAIN perm |-> CASE perm[n] = 1 -> c [] perm[n] = 2 -> d [] perm[n] = 3 -> a])

(* One by one: the first comment, the first doc string, the first attribute, the second comment, ... *)
RECURSIVE Zip(_, _, _)
Zip(c, d, a) ==
  IF c = <<>> /\ d = <<>> /\ a = <<>> THEN <<>>
  ELSE LET H(s) == IF s = <<>> THEN <<>> ELSE Head(s)
           T(s) == IF s = <<>> THEN <<>> ELSE Tail(s) IN
       H(c) \o H(d) \o H(a) \o Zip(T(c), T(d), T(a))

One(s) == [n \in DOMAIN s |-> <<s[n]>>]

Perms == <<<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>, <<0>>>>

(* o: an index of Perms *)
Prelude(o, c, d, attrs) ==
  LET cs == Lines("c", c) ds == Lines("d", d) IN
  IF o = 7 THEN Zip(One(cs), One(ds), attrs) ELSE Mix(Perms[o], cs, ds, Flat(attrs))

Attr(o, excl, a) ==
  P("#") \o (IF excl THEN P("!") ELSE <<>>) \o P("[") \o W(a.name)
  \o (IF a.opts = <<>> THEN <<>>
      ELSE P("(") \o Flat([n \in DOMAIN a.opts |-> (IF n = 1 THEN <<>> ELSE P(",")) \o W(a.opts[n])])
           \o (IF o \in {2, 4, 6} THEN P(",") ELSE <<>>) \o P(")"))
  \o P("]")

Ref(r) == (IF r.s = "" THEN <<>> ELSE W(r.s) \o P("::")) \o W(r.n)

RECURSIVE Type(_)
Type(ty) ==
  CASE ty.k \in Simple   -> W(ty.k)
    [] ty.k \in Unary    -> W(ty.k) \o P("<") \o Type(ty.a) \o P(">")
    [] ty.k = "map"      -> W("map") \o P("<") \o Type(ty.a) \o P("->") \o Type(ty.b) \o P(">")
    [] ty.k = "result"   -> W("result") \o P("<") \o Type(ty.a) \o P(",") \o Type(ty.b) \o P(">")
    [] ty.k = "array"    -> P("[") \o Type(ty.a) \o P(";") \o (IF ty.len.k = "lit" THEN W(ty.len.v) ELSE Ref(ty.len)) \o P("]")
    [] ty.k = "ref"      -> Ref(ty)

(* A field of that name that is not required itself has to stick to its "@". *)
Name(x, glue) == IF glue /\ x = "required" THEN <<[t |-> "g", v |-> x]>> ELSE W(x)

Field(o, f) ==
  Prelude(o, f.comment, f.doc, <<>>) \o (IF f.req THEN K("required") ELSE <<>>)
  \o Name(f.name, ~f.req) \o P("@") \o W(f.id) \o P("=") \o Type(f.ty) \o P(";")
Fallback(o, kw, f) == Prelude(o, f.comment, f.doc, <<>>) \o kw \o W(f.name) \o P("=") \o W("fallback") \o P(";")
Variant(o, v) ==
  Prelude(o, v.comment, v.doc, <<>>) \o W(v.name) \o P("@") \o W(v.id)
  \o Opt(v.ty, LAMBDA t : P("=") \o Type(t)) \o P(";")

Fields(o, d) == P("{") \o Each(d.fields, LAMBDA f : Field(o, f)) \o Opt(d.fb, LAMBDA f : Fallback(o, <<>>, f)) \o P("}")
Variants(o, d) == P("{") \o Each(d.vars, LAMBDA v : Variant(o, v)) \o Opt(d.fb, LAMBDA f : Fallback(o, <<>>, f)) \o P("}")

Inner(o, d) ==
  LET ds == Lines("i", d.doc) as == [n \in DOMAIN d.attrs |-> Attr(o, TRUE, d.attrs[n])] IN
  IF o = 7 THEN Zip(<<>>, One(ds), as) ELSE IF o > 3 THEN Flat(as) \o ds ELSE ds \o Flat(as)

TypeOrInline(o, x) ==
  CASE x.k = "type"   -> Type(x.ty) \o P(";")
    [] x.k = "struct" -> K("struct") \o P("{") \o Inner(o, x) \o Tail(Fields(o, x))
    [] x.k = "enum"   -> K("enum") \o P("{") \o Inner(o, x) \o Tail(Variants(o, x))

Part(o, kw, p) == Lines("c", p.comment) \o W(kw) \o P("=") \o TypeOrInline(o, p.ty)

(* A function with nothing but a result may be written in short, unless that result has a comment. *)
FnBody(o, f) ==
  IF f.args = <<>> /\ f.err = <<>> /\ f.ok = <<>> THEN (IF o > 3 THEN P("{") \o P("}") ELSE P(";"))
  ELSE IF f.args = <<>> /\ f.err = <<>> /\ f.ok[1].comment = <<>> /\ o > 2
       THEN P("=") \o TypeOrInline(o, f.ok[1].ty)
  ELSE P("{") \o Opt(f.args, LAMBDA p : Part(o, "args", p)) \o Opt(f.ok, LAMBDA p : Part(o, "ok", p))
       \o Opt(f.err, LAMBDA p : Part(o, "err", p)) \o P("}")

Item(o, x) ==
  Prelude(o, x.comment, x.doc, <<>>)
  \o (IF x.k = "fn" THEN K("fn") \o W(x.name) \o P("@") \o W(x.id) \o FnBody(o, x)
      ELSE K("event") \o W(x.name) \o P("@") \o W(x.id)
           \o (IF x.ty = <<>> THEN P(";") ELSE P("=") \o TypeOrInline(o, x.ty[1])))

Def(o, d) ==
  CASE d.k \in {"struct", "enum", "newtype"} ->
         Prelude(o, d.comment, d.doc, [n \in DOMAIN d.attrs |-> Attr(o, FALSE, d.attrs[n])])
         \o K(d.k) \o W(d.name)
         \o (CASE d.k = "struct" -> Fields(o, d)
               [] d.k = "enum" -> Variants(o, d)
               [] d.k = "newtype" -> P("=") \o Type(d.ty) \o P(";"))
    [] d.k = "const" ->
         Prelude(o, d.comment, d.doc, <<>>) \o K("const") \o W(d.name) \o P("=") \o W(d.ct) \o P("(")
         \o W(d.val) \o P(")") \o P(";")
    [] d.k = "service" ->
         LET f == Opt(d.ffb, LAMBDA x : Fallback(o, K("fn"), x))
             e == Opt(d.efb, LAMBDA x : Fallback(o, K("event"), x)) IN
         Prelude(o, d.comment, d.doc, <<>>) \o K("service") \o W(d.name) \o P("{")
         \o Lines("c", d.uc) \o W("uuid") \o P("=") \o W(d.uuid) \o P(";")
         \o Lines("c", d.vc) \o W("version") \o P("=") \o W(d.version) \o P(";")
         \o Each(d.items, LAMBDA x : Item(o, x)) \o (IF o > 3 THEN e \o f ELSE f \o e) \o P("}")

(* Comments of the schema itself are recognised by the inline doc string that follows them. *)
Header(o, s) ==
  LET cs == Lines("c", s.comment) ds == Lines("i", s.doc) IN
  IF o = 7 /\ Len(cs) <= Len(ds) THEN Zip(One(cs), One(ds), <<>>) ELSE cs \o ds

Import(i) == Lines("c", i.comment) \o K("import") \o W(i.name) \o P(";")

Tokens(o, s) == Header(o, s) \o Each(s.imports, Import) \o Each(s.defs, LAMBDA d : Def(o, d))

(***************************************************************************)
(* What two schemas have to have in common to be the same: everything but  *)
(* the order of imports.                                                   *)
(***************************************************************************)
Bag(ss) == [x \in {ss[n] : n \in DOMAIN ss} |-> Cardinality({n \in DOMAIN ss : ss[n] = x})]
Same(x, y) ==
  /\ x.comment = y.comment /\ x.doc = y.doc
  /\ x.defs = y.defs
  /\ Bag(x.imports) = Bag(y.imports)
=============================================================================
