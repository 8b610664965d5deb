----------------------------- MODULE MC_Decomp ------------------------------
(* A decomposition object that is rebuilt with arbitrary arguments: every    *)
(* grid up to MaxND axes with sides up to MaxDim and every process count.    *)
(* The steps of the algorithm are those of the code: enumerate the divisor   *)
(* tuples, keep those whose product is p, take the cheapest.                 *)
EXTENDS Decomp
CONSTANTS MaxND, MaxDim, MaxP, Mutant

VARIABLES dims, p, dec, tab
vars == <<dims, p, dec, tab>>

Grids == UNION {[1..nd -> 1..MaxDim] : nd \in 1..MaxND}

(* enumeration of all divisor tuples, as the code does it *)
Tuples(g) == {t \in [1..Len(g) -> 1..MaxDim] : \A i \in 1..Len(g) : Divides(t[i], g[i])}
Valid(g, q) == {t \in Tuples(g) : Prod(t) = q}

BuildOK(g, q) ==
   /\ Valid(g, q) # {}
   /\ \E t \in Valid(g, q) :
         /\ Mutant # "any" => \A u \in Valid(g, q) : Surface(LocalDims(g, t)) <= Surface(LocalDims(g, u))
         /\ dec' = t
         /\ tab' = IF Mutant = "stale" /\ dec # << >> /\ Len(dec) = Len(g) /\ Len(tab) = Prod(t) THEN tab ELSE RowMajorTable(g, t)
   /\ dims' = g /\ p' = q
BuildFail(g, q) == Valid(g, q) = {} /\ dec' = << >> /\ tab' = << >> /\ dims' = g /\ p' = q

Init == dims = <<1>> /\ p = 1 /\ dec = <<1>> /\ tab = << <<0>> >>
Next == \E g \in Grids : \E q \in 1..MaxP : BuildOK(g, q) \/ BuildFail(g, q)
Spec == Init /\ [][Next]_vars

ExistsInv == (dec # << >>) <=> (Decomps(dims, p) # {})
TilingInv == dec # << >> => IsTiling(dims, dec, tab)
\* the tiling conditions imply disjointness and coverage of all the cells
CoverInv == dec # << >> =>
   LET ld == LocalDims(dims, dec)
       owner(c) == {r \in 1..Len(tab) : InBox(Unflatten(dims, c, TRUE), tab[r], Add(tab[r], ld))}
   IN \A c \in Cells(dims) : Cardinality(owner(c)) = 1
OptInv == dec # << >> => Optimal(dims, p, dec)
TorusInv == dec # << >> =>
   \A r \in 0..(p - 1) : \A d \in Directions(Len(dims)) :
      LET n == Neighbor(dims, dec, tab, r, d)
      IN /\ n \in 0..(p - 1)
         /\ Neighbor(dims, dec, tab, n, [i \in 1..Len(d) |-> -d[i]]) = r
         /\ (\A i \in 1..Len(d) : d[i] = 0) => n = r
PermInv == dec # << >> => \A d \in Directions(Len(dims)) :
      Cardinality({Neighbor(dims, dec, tab, r, d) : r \in 0..(p - 1)}) = p
=============================================================================
