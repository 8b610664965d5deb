------------------------------- MODULE Whole --------------------------------
(* Whole numbers of any size: sequences of limbs in base 10^8, least first.  *)
(* All limbs but the last are in 0..10^8-1; the last carries the sign, so    *)
(* <<99999998, -2>> is negative.   << >> is zero.                            *)
EXTENDS Integers, Sequences, TLC

WBase == 100000000
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE LimbSum(_, _, _)
LimbSum(w, i, j) == IF j = 0 THEN 0 ELSE Limb(w[j], i) + LimbSum(w, i, j - 1)

\* k v + the sum of the numbers w, from limb i on, with carry c; |k| + Len(w) < 21
RECURSIVE Combine(_, _, _, _, _)
Combine(k, v, w, i, c) ==
   IF i > Len(v) /\ (\A j \in DOMAIN w : i > Len(w[j])) THEN (IF c = 0 THEN << >> ELSE <<c>>)
   ELSE LET t == k * Limb(v, i) + LimbSum(w, i, Len(w)) + c
        IN <<t % WBase>> \o Combine(k, v, w, i + 1, t \div WBase)

\* without redundant limbs at the end
RECURSIVE Strip(_)
Strip(a) ==
   IF a = << >> THEN a
   ELSE IF a[Len(a)] = 0 THEN Strip(SubSeq(a, 1, Len(a) - 1))
   ELSE IF a[Len(a)] = -1 /\ Len(a) > 1 THEN Strip([SubSeq(a, 1, Len(a) - 1) EXCEPT ![Len(a) - 1] = @ - WBase])
   ELSE a
WSum(k, v, w) == Strip(Combine(k, v, w, 1, 0))
WNeg(a) == Combine(-1, a, << >>, 1, 0)
Negative(a) == LET s == Strip(a) IN s # << >> /\ s[Len(s)] < 0
WAbs(a) == Strip(IF Negative(a) THEN WNeg(a) ELSE a)
WMinus(a, b) == Combine(-1, b, <<a>>, 1, 0)
WTimes(a, k) == Combine(k, a, << >>, 1, 0)
RECURSIVE WPow(_, _)
WPow(k, n) == IF n = 0 THEN <<1>> ELSE WTimes(WPow(k, n - 1), k)

\* products, of numbers without sign
Half == 10000
RECURSIVE Halves(_, _)
Halves(a, i) == IF i > Len(a) THEN << >> ELSE <<a[i] % Half, a[i] \div Half>> \o Halves(a, i + 1)
RECURSIVE Doubles(_, _)
Doubles(h, i) == IF i > Len(h) THEN << >> ELSE <<h[i] + (IF i < Len(h) THEN h[i + 1] * Half ELSE 0)>> \o Doubles(h, i + 2)
\* column k of the product of p and q (halves); at most 20 halves in p or in q
RECURSIVE Column(_, _, _, _)
Column(p, q, k, i) == IF i = 0 THEN 0 ELSE Limb(p, i) * Limb(q, k + 1 - i) + Column(p, q, k, i - 1)
RECURSIVE Carry(_, _, _, _)
Carry(p, q, k, c) ==
   IF k > Len(p) + Len(q) THEN (IF c = 0 THEN << >> ELSE <<c>>)
   ELSE LET lo == IF k - Len(q) > 1 THEN k - Len(q) ELSE 1
            t == Column(SubSeq(p, lo, IF k < Len(p) THEN k ELSE Len(p)), q, k + 1 - lo, (IF k < Len(p) THEN k ELSE Len(p)) + 1 - lo) + c
        IN <<t % Half>> \o Carry(p, q, k + 1, t \div Half)
WMul(a, b) == LET p == Halves(Strip(a), 1)
                  q == Halves(Strip(b), 1)
              IN Strip(Doubles(Carry(p, q, 1, 0), 1))

\* a <= b for numbers without sign
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == IF i = 0 THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LeqFrom(a, b, i - 1)
WLeq(a, b) == LET s == Strip(a)
                  t == Strip(b)
              IN Len(s) < Len(t) \/ (Len(s) = Len(t) /\ LeqFrom(s, t, Len(s)))

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
\* the nine leading digits of a positive number, and how many digits it has
RECURSIVE Digits(_)
Digits(t) == IF t < 10 THEN 1 ELSE 1 + Digits(t \div 10)
Lead(a) ==
   LET t == a[Len(a)]
       d == Digits(t)
       u == IF Len(a) > 1 THEN a[Len(a) - 1] ELSE 0
   IN [m |-> t * Pow10(9 - d) + u \div Pow10(d - 1), x |-> d + 8 * (Len(a) - 1)]

\* m 10^(x-9) is r.m 10^(r.x-9) up to tol units of the ninth digit; zero is exact
Near(m, x, r, tol) ==
   IF r.m = 0 \/ m <= 0 THEN m = r.m
   ELSE IF x = r.x THEN (m - r.m <= tol /\ r.m - m <= tol)
   ELSE IF x = r.x + 1 THEN m < 110000000 /\ r.m > 900000000 /\ 10 * (m - WBase) + (1000000000 - r.m) <= tol
   ELSE x = r.x - 1 /\ r.m < 110000000 /\ m > 900000000 /\ 10 * (r.m - WBase) + (1000000000 - m) <= tol
=============================================================================
