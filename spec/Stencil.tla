------------------------------ MODULE Stencil -------------------------------
(* A stencil on a periodic grid.  Fields are sequences over the cells in     *)
(* row-major order; a stencil is a sequence of [o |-> offset, w |-> weight]. *)
EXTENDS Base, TLC

RECURSIVE Weighted(_, _, _, _, _)
Weighted(dims, F, st, i, k) ==
   IF k = 0 THEN 0 ELSE st[k].w * F[Shift(dims, i - 1, st[k].o, TRUE) + 1] + Weighted(dims, F, st, i, k - 1)
Apply(dims, F, st) == TLCEval([i \in 1..Prod(dims) |-> Weighted(dims, F, st, i, Len(st))])

NonZeros(o) == Cardinality({j \in 1..Len(o) : o[j] # 0})
Axial(st) == \A k \in 1..Len(st) : NonZeros(st[k].o) <= 1
\* how far the stencil reaches to the side d (+1, -1) of axis j of a neighbour's sub-domain:
\* an offset in direction -d reads cells on side d of the sub-domain it comes from
Reach(st, j, d) ==
   LET S == {Abs(st[k].o[j]) : k \in {q \in 1..Len(st) : Sgn(st[q].o[j]) = -d}}
   IN  IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
MaxReach(st, j) == Max2(Reach(st, j, 1), Reach(st, j, -1))
=============================================================================
