------------------------------- MODULE Upwind -------------------------------
(* First-order upwind advection on a periodic grid, exactly, in integers.    *)
(* A field is a sequence of numerators over a common scale S: the value of   *)
(* cell i is F[i] / S, cells in row-major order (last index fastest).        *)
(* A time step is described by the signed Courant numbers c[j] / D along the *)
(* axes.  A step maps (F, S) to (F', S*D) with                               *)
(*     F'[i] = D*F[i] - sum over j of |c[j]| * (F[i] - F[up(i, j)])          *)
(* where up(i, j) is the periodic neighbour the flow along axis j comes from *)
EXTENDS Base, TLC

Delta0(dims) == [i \in 1..Prod(dims) |-> IF i = 1 THEN 1 ELSE 0]

UpCell(dims, i, j, c) == Shift(dims, i - 1, UnitOff(Len(dims), j, IF c < 0 THEN 1 ELSE -1), TRUE) + 1
UpTable(dims, c) == TLCEval([j \in 1..Len(dims) |-> [i \in 1..Prod(dims) |-> UpCell(dims, i, j, c[j])]])

RECURSIVE Flux(_, _, _, _, _)
Flux(F, up, c, i, j) ==
   IF j = 0 THEN 0
   ELSE Abs(c[j]) * (F[i] - F[up[j][i]]) + Flux(F, up, c, i, j - 1)

StepF(F, up, c, D) == TLCEval([i \in DOMAIN F |-> D * F[i] - Flux(F, up, c, i, Len(c))])

RECURSIVE Iterate(_, _, _, _, _)
Iterate(F, up, c, D, n) == IF n = 0 THEN F ELSE Iterate(StepF(F, up, c, D), up, c, D, n - 1)
Advance(dims, F, c, D, n) == IF n = 0 THEN F ELSE Iterate(F, UpTable(dims, c), c, D, n)

RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)

SumSq(s) == SumSeq([i \in 1..Len(s) |-> s[i] * s[i]])

(* S^2 ntot^2 times the variance                                             *)
ScaledVariance(F) == Len(F) * SumSq(F) - SumSeq(F) * SumSeq(F)

Stable(c, D) == SumSeq([j \in 1..Len(c) |-> Abs(c[j])]) <= D
=============================================================================
