-------------------------------- MODULE Base --------------------------------
(* Index arithmetic shared by all the specifications.  Boxes are given by    *)
(* sequences of dimensions; index sets are sequences of 0-based indices;     *)
(* flat positions are 0-based.                                               *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1 ELSE s[k] * ProdTo(s, k - 1)
Prod(s) == ProdTo(s, Len(s))

RECURSIVE ProdFrom(_, _)
ProdFrom(s, k) == IF k > Len(s) THEN 1 ELSE s[k] * ProdFrom(s, k + 1)

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
RECURSIVE SumOf(_, _, _)
SumOf(s, a, b) == IF a = b THEN s[a] ELSE LET m == (a + b) \div 2 IN SumOf(s, a, m) + SumOf(s, m + 1, b)
SumSeq(s) == IF Len(s) < 64 THEN SumTo(s, Len(s)) ELSE SumOf(s, 1, Len(s))     \* (long sums in halves: TLC's stack)

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Wrap(i, n) == i % n                      \* TLC: result in 0..n-1, also for i < 0

(* strides: row major = last index fastest, column major = first fastest     *)
Stride(dims, i, rowMajor) == IF rowMajor THEN ProdFrom(dims, i + 1) ELSE ProdTo(dims, i - 1)
Strides(dims, rowMajor) == [i \in 1..Len(dims) |-> Stride(dims, i, rowMajor)]

Unflatten(dims, flat, rowMajor) ==
   [i \in 1..Len(dims) |-> (flat \div Stride(dims, i, rowMajor)) % dims[i]]
Flatten(dims, inds, rowMajor) ==
   SumSeq([i \in 1..Len(dims) |-> Stride(dims, i, rowMajor) * inds[i]])

Cells(dims) == 0 .. (Prod(dims) - 1)

(* the cell at a periodically wrapped offset *)
Shift(dims, flat, off, rowMajor) ==
   LET ix == Unflatten(dims, flat, rowMajor)
   IN  Flatten(dims, [i \in 1..Len(dims) |-> Wrap(ix[i] + off[i], dims[i])], rowMajor)

UnitOff(nd, j, d) == [i \in 1..nd |-> IF i = j THEN d ELSE 0]

Add(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
Sub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]

(* Whole numbers beyond the integers of TLC: limbs in base 10^4, least first,*)
(* without leading zeros; << >> is zero.  Factors up to 10^5.                *)
RECURSIVE LimbsMulAdd(_, _, _, _)
LimbsMulAdd(a, f, c, i) ==          \* a f + c, from limb i on
   IF i > Len(a) THEN (IF c = 0 THEN << >> ELSE <<c % 10000>> \o LimbsMulAdd(a, f, c \div 10000, i))
   ELSE LET t == a[i] * f + c IN <<t % 10000>> \o LimbsMulAdd(a, f, t \div 10000, i + 1)
RECURSIVE LimbsHorner(_, _, _)
LimbsHorner(dims, ix, k) == IF k = 0 THEN << >> ELSE LimbsMulAdd(LimbsHorner(dims, ix, k - 1), dims[k], ix[k], 1)
RevSeq(a) == [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]
LimbsFlatten(dims, ix, rowMajor) ==
   IF rowMajor THEN LimbsHorner(dims, ix, Len(dims)) ELSE LimbsHorner(RevSeq(dims), RevSeq(ix), Len(dims))
RECURSIVE LimbsProd(_, _)
LimbsProd(dims, k) == IF k = 0 THEN <<1>> ELSE LimbsMulAdd(LimbsProd(dims, k - 1), dims[k], 0, 1)

InBox(ix, lo, hi) == \A i \in 1..Len(ix) : lo[i] <= ix[i] /\ ix[i] < hi[i]
=============================================================================
