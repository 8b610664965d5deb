----------------------------- MODULE MultiIter ------------------------------
(* The multi-dimensional array iterator (C14): a box [lo, hi), an order and  *)
(* a position.                                                               *)
EXTENDS Base

VARIABLES lo, hi, rm, pos
vars == <<lo, hi, rm, pos>>

Dims == Sub(hi, lo)
N == Prod(Dims)

(* what the interface shows in a state *)
IndicesAt(p) == Add(lo, Unflatten(Dims, p, rm))
FlatOf(ix) == Flatten(Dims, Sub(ix, lo), rm)

Build(l, h, r) == lo' = l /\ hi' = h /\ rm' = r /\ pos' = 0
Begin == pos' = 0 /\ UNCHANGED <<lo, hi, rm>>
Next == pos + 1 <= N /\ pos' = pos + 1 /\ UNCHANGED <<lo, hi, rm>>
Move(p) == p \in 0..(N - 1) /\ pos' = p /\ UNCHANGED <<lo, hi, rm>>

(* Properties of the mathematics behind the interface.                       *)
InverseOK == \A p \in 0..(N - 1) : InBox(IndicesAt(p), lo, hi) /\ FlatOf(IndicesAt(p)) = p
\* injective and into the box of N elements: every index set is visited once
VisitsOK == Cardinality({IndicesAt(p) : p \in 0..(N - 1)}) = N
Less(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Rev(a) == [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]
OrderOK == \A p \in 0..(N - 2) :
             IF rm THEN Less(IndicesAt(p), IndicesAt(p + 1))
                   ELSE Less(Rev(IndicesAt(p)), Rev(IndicesAt(p + 1)))
=============================================================================
