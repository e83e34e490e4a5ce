-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The value wire format of aldrin, as a reference decoder over sequences  *)
(* of bytes (numbers 0..255).                                              *)
(*                                                                         *)
(* A decoder returns a record                                              *)
(*   c  0 well-formed, 1 the input ends too early, 2 ill-formed            *)
(*   p  index behind the last byte that was read                           *)
(*   d  nesting depth of the value, the value itself being level 1         *)
(*   v  the value                                                          *)
(*   u  TRUE if all strings are UTF-8                                      *)
(*   w  greatest kind byte met (43.. are the encodings introduced in 1.20) *)
(*                                                                         *)
(* A value is <<kind, ...>> with the kind byte of its pre-1.20 encoding    *)
(* for containers. Integers are two's complement little-endian bytes of    *)
(* their full width. Maps, sets and structs are sets of entries.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MaxDepth == 32
\* Nesting that the reference decoder follows; beyond it a value is just "deeper".
DepthCap == 40

Ok(p, d, v, u, w) == [c |-> 0, p |-> p, d |-> d, v |-> v, u |-> u, w |-> w]
Err(c)            == [c |-> c, p |-> 0, d |-> 0, v |-> <<>>, u |-> TRUE, w |-> 0]
Max(a, b) == IF a >= b THEN a ELSE b

Bytes(b, p, n) == SubSeq(b, p, p + n - 1)
Have(b, p, n)  == p + n - 1 <= Len(b)

----------------------------------------------------------------------------
(* Variable-width integers: one byte up to 255-N, else that many bytes follow. *)

Varint(b, p, N) ==
  IF ~Have(b, p, 1) THEN Err(1)
  ELSE LET f == b[p] IN
       IF f <= 255 - N
       THEN Ok(p + 1, 0, [i \in 1..N |-> IF i = 1 THEN f ELSE 0], TRUE, 0)
       ELSE LET k == f + N - 255 IN
            IF ~Have(b, p + 1, k) THEN Err(1)
            ELSE Ok(p + 1 + k, 0, [i \in 1..N |-> IF i <= k THEN b[p + i] ELSE 0], TRUE, 0)

\* Zigzag: n >> 1, complemented if the lowest bit is set.
UnZigzag(n) ==
  LET N == Len(n)
      half == [i \in 1..N |-> n[i] \div 2 + (IF i < N THEN 128 * (n[i + 1] % 2) ELSE 0)]
  IN IF n[1] % 2 = 0 THEN half ELSE [i \in 1..N |-> 255 - half[i]]

\* A 32-bit number as a length; anything from 2^30 on is more than any input has.
AsLen(n) == IF n[4] >= 64 THEN 1073741824
            ELSE n[1] + 256 * n[2] + 65536 * n[3] + 16777216 * n[4]

----------------------------------------------------------------------------
(* UTF-8 (RFC 3629) *)

Cont(b, i, q) == i < q /\ b[i] >= 128 /\ b[i] <= 191

Utf8(b, p, q) ==     \* bytes p..q-1
  \A i \in p..(q - 1) :
     LET x == b[i]
         \* how many bytes a character takes whose first one is y
         size(y) == IF y < 128 THEN 1 ELSE IF y < 194 THEN 0 ELSE IF y <= 223 THEN 2
                    ELSE IF y <= 239 THEN 3 ELSE IF y <= 244 THEN 4 ELSE 0
     IN \/ x < 128
        \/ /\ x \in 128..191
           /\ \E k \in 1..3 : i - k >= p /\ size(b[i - k]) > k /\ \A j \in 1..(k - 1) : Cont(b, i - j, q)
        \/ /\ size(x) > 1
           /\ \A k \in 1..(size(x) - 1) : Cont(b, i + k, q)
           /\ x = 224 => b[i + 1] >= 160
           /\ x = 237 => b[i + 1] <= 159
           /\ x = 240 => b[i + 1] >= 144
           /\ x = 244 => b[i + 1] <= 143

----------------------------------------------------------------------------
(* Parts of values *)

Fixed(b, p, n) == IF Have(b, p, n) THEN Ok(p + n, 0, Bytes(b, p, n), TRUE, 0) ELSE Err(1)

Signed(r) == IF r.c = 0 THEN [r EXCEPT !.v = UnZigzag(@)] ELSE r

\* Length-prefixed bytes.
Counted(b, p) ==
  LET n == Varint(b, p, 4) IN
  IF n.c # 0 THEN n ELSE Fixed(b, n.p, AsLen(n.v))

Str(b, p) ==
  LET r == Counted(b, p) IN
  IF r.c # 0 THEN r ELSE [r EXCEPT !.u = Utf8(r.v, 1, Len(r.v) + 1)]

\* Keys of maps and elements of sets; 0 u8, 1 i8, 2 u16, ..., 7 i64, 8 string, 9 uuid.
Key(b, p, kt) ==
  CASE kt \in {0, 1} -> Fixed(b, p, 1)
    [] kt = 2 -> Varint(b, p, 2)
    [] kt = 3 -> Signed(Varint(b, p, 2))
    [] kt = 4 -> Varint(b, p, 4)
    [] kt = 5 -> Signed(Varint(b, p, 4))
    [] kt = 6 -> Varint(b, p, 8)
    [] kt = 7 -> Signed(Varint(b, p, 8))
    [] kt = 8 -> Str(b, p)
    [] kt = 9 -> Fixed(b, p, 16)

\* Chunks of bytes up to an empty one.
RECURSIVE Chunks(_, _, _)
Chunks(b, p, acc) ==
  LET n == Varint(b, p, 4) IN
  IF n.c # 0 THEN n
  ELSE LET k == AsLen(n.v) IN
       IF k = 0 THEN Ok(n.p, 0, acc, TRUE, 0)
       ELSE IF ~Have(b, n.p, k) THEN Err(1)
       ELSE Chunks(b, n.p + k, acc \o Bytes(b, n.p, k))

----------------------------------------------------------------------------
(* Values *)

\* Entries: "e" plain values, "s" struct fields, otherwise keyed by key type: <<"m", kt>>, <<"k", kt>>.
RECURSIVE Dec(_, _, _), Seqn(_, _, _, _, _, _)

Tag(r, k, d) == IF r.c # 0 THEN r ELSE [r EXCEPT !.v = <<k, @>>, !.d = Max(@, d), !.w = Max(@, k)]

Elem(b, p, el, d) ==
  IF el[1] = "e" THEN Dec(b, p, d)
  ELSE IF el[1] = "k" THEN Key(b, p, el[2])
  ELSE LET k == IF el[1] = "s" THEN Varint(b, p, 4) ELSE Key(b, p, el[2]) IN
       IF k.c # 0 THEN k
       ELSE LET r == Dec(b, k.p, d) IN
            IF r.c # 0 THEN r ELSE [r EXCEPT !.v = <<k.v, @>>, !.u = @ /\ k.u]

\* Up to n entries, or (term) entries up to the terminator. In halves, since there may be very many. end tells that
\* the terminator has been seen.
Piece(r, v, end) == [c |-> r.c, p |-> r.p, d |-> r.d, v |-> v, u |-> r.u, w |-> r.w, end |-> end]
Seqn(b, p, n, el, d, term) ==
  IF n = 0 THEN Piece(Ok(p, 0, <<>>, TRUE, 0), <<>>, FALSE)
  ELSE IF n = 1
       THEN LET one(q) ==
                  LET r == Elem(b, q, el, d) IN
                  Piece(r, <<r.v>>, FALSE)
            IN IF ~term THEN one(p)
               ELSE IF ~Have(b, p, 1) THEN Piece(Err(1), <<>>, FALSE)
               ELSE IF b[p] = 0 THEN Piece(Ok(p + 1, 0, <<>>, TRUE, 0), <<>>, TRUE)
               ELSE IF b[p] = 1 THEN one(p + 1)
               ELSE Piece(Err(2), <<>>, FALSE)
  ELSE LET x == Seqn(b, p, n \div 2, el, d, term) IN
       IF x.c # 0 \/ x.end THEN x
       ELSE LET y == Seqn(b, x.p, n - (n \div 2), el, d, term) IN
            IF y.c # 0 THEN y
            ELSE [y EXCEPT !.v = x.v \o @, !.d = Max(x.d, @), !.u = x.u /\ @, !.w = Max(x.w, @)]

Range(s) == {s[i] : i \in 1..Len(s)}

Container(b, p, two, el, d, k) ==
  LET n == IF two THEN Ok(p, 0, <<>>, TRUE, 0) ELSE Varint(b, p, 4)
      r == IF n.c # 0 THEN n
           ELSE Seqn(b, n.p, IF two THEN Len(b) + 1 ELSE AsLen(n.v), el, d + 1, two)
  IN IF r.c # 0 THEN [Err(0) EXCEPT !.c = r.c]
     ELSE [Ok(r.p, r.d, r.v, r.u, r.w) EXCEPT !.v = <<k, IF el[1] = "e" THEN @ ELSE Range(@)>>,
                    !.d = Max(@, d),
                    !.w = Max(@, IF two THEN 43 ELSE k)]

Dec(b, p, d) ==
  IF d > DepthCap THEN [Err(0) EXCEPT !.c = 3]
  ELSE IF ~Have(b, p, 1) THEN Err(1)
  ELSE LET k == b[p]  q == p + 1 IN
  CASE k = 0 -> Ok(q, d, <<0>>, TRUE, 0)
    [] k = 1 -> Tag(Dec(b, q, d + 1), 1, d)
    [] k = 2 -> LET r == Fixed(b, q, 1) IN
                IF r.c # 0 THEN r ELSE Ok(r.p, d, <<2, IF r.v[1] = 0 THEN 0 ELSE 1>>, TRUE, 2)
    [] k \in {3, 4} -> Tag(Fixed(b, q, 1), k, d)
    [] k = 5  -> Tag(Varint(b, q, 2), k, d)
    [] k = 6  -> Tag(Signed(Varint(b, q, 2)), k, d)
    [] k = 7  -> Tag(Varint(b, q, 4), k, d)
    [] k = 8  -> Tag(Signed(Varint(b, q, 4)), k, d)
    [] k = 9  -> Tag(Varint(b, q, 8), k, d)
    [] k = 10 -> Tag(Signed(Varint(b, q, 8)), k, d)
    [] k = 11 -> Tag(Fixed(b, q, 4), k, d)
    [] k = 12 -> Tag(Fixed(b, q, 8), k, d)
    [] k = 13 -> Tag(Str(b, q), k, d)
    [] k \in {14, 41, 42} -> Tag(Fixed(b, q, 16), k, d)
    [] k = 15 -> Tag(Fixed(b, q, 32), k, d)
    [] k = 16 -> Tag(Fixed(b, q, 64), k, d)
    [] k = 17 -> Container(b, q, FALSE, <<"e">>, d, 17)
    [] k = 43 -> Container(b, q, TRUE,  <<"e">>, d, 17)
    [] k = 18 -> Tag(Counted(b, q), 18, d)
    [] k = 44 -> LET r == Chunks(b, q, <<>>) IN
                 IF r.c # 0 THEN r ELSE Ok(r.p, d, <<18, r.v>>, TRUE, 44)
    [] k \in 19..28 -> Container(b, q, FALSE, <<"m", k - 19>>, d, k)
    [] k \in 45..54 -> Container(b, q, TRUE,  <<"m", k - 45>>, d, k - 26)
    [] k \in 29..38 -> Container(b, q, FALSE, <<"k", k - 29>>, d, k)
    [] k \in 55..64 -> Container(b, q, TRUE,  <<"k", k - 55>>, d, k - 26)
    [] k = 39 -> Container(b, q, FALSE, <<"s">>, d, 39)
    [] k = 65 -> Container(b, q, TRUE,  <<"s">>, d, 39)
    [] k = 40 -> LET n == Varint(b, q, 4) IN
                 IF n.c # 0 THEN n
                 ELSE LET r == Dec(b, n.p, d + 1) IN
                      IF r.c # 0 THEN r ELSE [r EXCEPT !.v = <<40, <<n.v, @>>>>, !.w = Max(@, 40)]
    [] OTHER -> Err(2)

Value(b) == Dec(b, 1, 1)

----------------------------------------------------------------------------
(* What a decoder of the implementation may return for value s: a map or    *)
(* struct whose encoding repeats a key keeps one entry for it.             *)

RECURSIVE Match(_, _)
Match(s, r) ==
  \/ s = r
  \/ r = <<-1>>                                     \* not looked at
  \/ /\ Len(s) = Len(r) /\ s[1] = r[1]
     /\ CASE s[1] = 1 -> Match(s[2], r[2])
          [] s[1] = 17 -> /\ Len(s[2]) = Len(r[2])
                          /\ \A i \in 1..Len(s[2]) : Match(s[2][i], r[2][i])
          [] s[1] = 40 -> s[2][1] = r[2][1] /\ Match(s[2][2], r[2][2])
          [] s[1] \in 19..28 \cup {39} ->
               /\ {e[1] : e \in s[2]} = {e[1] : e \in r[2]}
               /\ \A e \in r[2] : \E f \in s[2] : e[1] = f[1] /\ Match(f[2], e[2])
          [] OTHER -> FALSE

----------------------------------------------------------------------------
(* Reference encoders: the current one and the one before 1.20.            *)

PutVarint(n) ==
  LET N == Len(n)
      k == CHOOSE i \in 1..N : (i = 1 \/ n[i] # 0) /\ \A j \in (i + 1)..N : n[j] = 0
  IN IF k = 1 /\ n[1] <= 255 - N THEN <<n[1]>> ELSE <<255 - N + k>> \o SubSeq(n, 1, k)

Zigzag(n) ==
  LET N == Len(n)
      neg == n[N] >= 128
      m == IF neg THEN [i \in 1..N |-> 255 - n[i]] ELSE n
      dbl == [i \in 1..N |-> ((m[i] * 2) % 256) + (IF i > 1 /\ m[i - 1] >= 128 THEN 1 ELSE 0)]
  IN IF neg THEN [dbl EXCEPT ![1] = @ + 1] ELSE dbl

Num(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
PutLen(n) == PutVarint(Num(n))

PutKey(kt, k) ==
  CASE kt \in {0, 1, 9} -> k
    [] kt \in {2, 4, 6} -> PutVarint(k)
    [] kt \in {3, 5, 7} -> PutVarint(Zigzag(k))
    [] kt = 8 -> PutLen(Len(k)) \o k

RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

RECURSIVE Cat(_, _, _)
Cat(ss, i, pre) == IF i > Len(ss) THEN <<>> ELSE pre \o ss[i] \o Cat(ss, i + 1, pre)

\* The encoded entries of a container of kind k.
Wrap(two, k, parts) ==
  IF two THEN <<k + 26>> \o Cat(parts, 1, <<1>>) \o <<0>>
  ELSE <<k>> \o PutLen(Len(parts)) \o Cat(parts, 1, <<>>)

RECURSIVE Enc(_, _)
Enc(v, two) ==
  LET k == v[1] IN
  CASE k = 0 -> <<0>>
    [] k = 1 -> <<1>> \o Enc(v[2], two)
    [] k = 2 -> <<2, v[2]>>
    [] k \in {3, 4, 11, 12, 14, 15, 16, 41, 42} -> <<k>> \o v[2]
    [] k \in {5, 7, 9} -> <<k>> \o PutVarint(v[2])
    [] k \in {6, 8, 10} -> <<k>> \o PutVarint(Zigzag(v[2]))
    [] k = 13 -> <<k>> \o PutLen(Len(v[2])) \o v[2]
    [] k = 17 -> Wrap(two, k, [i \in 1..Len(v[2]) |-> Enc(v[2][i], two)])
    [] k = 18 -> IF ~two THEN <<k>> \o PutLen(Len(v[2])) \o v[2]
                 ELSE IF v[2] = <<>> THEN <<44, 0>>
                 ELSE <<44>> \o PutLen(Len(v[2])) \o v[2] \o <<0>>
    [] k \in 19..28 -> LET es == SetSeq(v[2]) IN
         Wrap(two, k, [i \in 1..Len(es) |-> PutKey(k - 19, es[i][1]) \o Enc(es[i][2], two)])
    [] k \in 29..38 -> LET es == SetSeq(v[2]) IN
         Wrap(two, k, [i \in 1..Len(es) |-> PutKey(k - 29, es[i])])
    [] k = 39 -> LET es == SetSeq(v[2]) IN
         Wrap(two, k, [i \in 1..Len(es) |-> PutVarint(es[i][1]) \o Enc(es[i][2], two)])
    [] k = 40 -> <<40>> \o PutVarint(v[2][1]) \o Enc(v[2][2], two)

----------------------------------------------------------------------------
(* Requirements on what the implementation does with the bytes b. s is     *)
(* Value(b); results are records with ok and, on failure, deep.            *)

WellFormed(s)  == s.c = 0 /\ s.d <= MaxDepth
TooDeep(s)     == s.c = 0 /\ s.d > MaxDepth
Whole(b, s)    == WellFormed(s) /\ s.p = Len(b) + 1

\* Measuring, skipping and splitting off: everything but UTF-8 decides; n is the reported length.
SkipOK(s, r) ==
  IF WellFormed(s) THEN r.ok /\ r.n = s.p - 1
  ELSE ~r.ok /\ (TooDeep(s) => r.deep)

\* Decoding all of b.
DecodeOK(b, s, r) ==
  IF Whole(b, s) /\ s.u THEN r.ok
  ELSE ~r.ok /\ (TooDeep(s) /\ s.u => r.deep)

\* Versions are minor numbers of major version 1; -1 stands for "not given", which means newest.
Epoch(m) == IF m \in 14..19 THEN 1 ELSE IF m = 20 \/ m = -1 THEN 2 ELSE 0

\* Conversion; o is Value of the output, i.e. Value(r.out).
ConvertOK(b, s, from, to, r) ==
  IF Epoch(from) = 0 \/ Epoch(to) = 0 \/ to = -1 THEN ~r.ok
  ELSE IF Epoch(to) >= Epoch(from)
       THEN IF r.ok THEN r.out = b ELSE ~(Whole(b, s) /\ s.u)
  ELSE IF Whole(b, s) /\ (s.u \/ r.ok)
       THEN /\ r.ok
            /\ LET o == Value(r.out) IN
               Whole(r.out, o) /\ o.v = s.v /\ o.w <= 42 /\ o.u = s.u
       ELSE ~r.ok
=============================================================================
