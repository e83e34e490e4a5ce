------------------------------- MODULE Chance -------------------------------
(***************************************************************************)
(* Chance that is a function of a seed. A seed is a pair of numbers, Sub   *)
(* gives independent seeds, the others pick.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

Sub(h, k) == <<(h[1] * 31421 + k * 6927 + 17) % 65521, (h[2] * 28411 + k * 134 + h[1]) % 65519>>
Num(h, n) == (((h[1] \div 7) + (h[2] \div 3)) % n)
Of(h, seq) == seq[Num(h, Len(seq)) + 1]
Chance(h, pct) == Num(h, 100) < pct
List(h, max, F(_, _)) == [n \in 1 .. Num(Sub(h, 901), max + 1) |-> F(Sub(h, n), n)]
Maybe(h, pct, F(_)) == IF Chance(Sub(h, 902), pct) THEN <<F(Sub(h, 903))>> ELSE <<>>

(* The seed of number k *)
RootOf(seed, k) == Sub(Sub(<<seed % 65521, k % 65519>>, k % 8000), k \div 8000)
=============================================================================
