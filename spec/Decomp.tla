------------------------------- MODULE Decomp -------------------------------
(* Regular domain decomposition of a grid on a number of processes: which    *)
(* decompositions exist (C03), which are optimal (C04), who neighbours whom  *)
(* (C05).  A decomposition is a sequence of parts per axis; rank r owns the  *)
(* sub-domain whose block position is given by an enumeration of the blocks. *)
EXTENDS Base

Divides(a, b) == b % a = 0
Divisors(n) == {d \in 1..n : Divides(d, n)}

(* the decompositions of the grid on p processes *)
RECURSIVE DecompsFrom(_, _, _)
DecompsFrom(dims, k, p) ==
   IF k > Len(dims) THEN (IF p = 1 THEN {<< >>} ELSE {})
   ELSE UNION { { <<d>> \o rest : rest \in DecompsFrom(dims, k + 1, p \div d) }
                : d \in {x \in Divisors(p) : Divides(x, dims[k])} }
Decomps(dims, p) == DecompsFrom(dims, 1, p)

LocalDims(dims, dec) == [i \in 1..Len(dims) |-> dims[i] \div dec[i]]

(* the volume of a sub-domain is the same for all the decompositions on p    *)
(* processes; the surface decides                                            *)
Surface(ld) == SumSeq([i \in 1..Len(ld) |-> Prod([j \in 1..Len(ld) |-> IF j = i THEN 1 ELSE ld[j]])])
Optimal(dims, p, dec) ==
   \A d \in Decomps(dims, p) : Surface(LocalDims(dims, dec)) <= Surface(LocalDims(dims, d))

(* A table tab gives the low corner of the sub-domain of each rank (tab[r+1])*)
IsTiling(dims, dec, tab) ==
   LET ld == LocalDims(dims, dec)
   IN  /\ Len(tab) = Prod(dec)
       /\ \A r \in 1..Len(tab) : \A i \in 1..Len(dims) :
            /\ tab[r][i] % ld[i] = 0
            /\ 0 <= tab[r][i] /\ tab[r][i] + ld[i] <= dims[i]
       \* different ranks, different blocks: with equal boxes at multiples of
       \* the box this is disjointness, and with Prod(dec) ranks it is coverage
       /\ Cardinality({tab[r] : r \in 1..Len(tab)}) = Len(tab)

(* the rank that owns a block *)
OwnerOf(tab, lo) == CHOOSE r \in 0..(Len(tab) - 1) : tab[r + 1] = lo
Neighbor(dims, dec, tab, r, dir) ==
   LET ld == LocalDims(dims, dec)
   IN  OwnerOf(tab, [i \in 1..Len(dims) |-> Wrap(tab[r + 1][i] + dir[i] * ld[i], dims[i])])

RowMajorTable(dims, dec) ==
   [r \in 1..Prod(dec) |-> LET b == Unflatten(dec, r - 1, TRUE)
                               ld == LocalDims(dims, dec)
                           IN [i \in 1..Len(dims) |-> b[i] * ld[i]]]
Directions(nd) == [1..nd -> {-1, 0, 1}]
=============================================================================
