---------------------------- MODULE MC_Laplacian ----------------------------
(* The second-difference operator on a periodic grid: from any field of      *)
(* small integers, every application gives a field of zero sum, is           *)
(* self-adjoint and negative, and agrees in limbs and in integers.           *)
EXTENDS Base, Whole
CONSTANTS DimsSet, Values, Steps,
          Clamp        \* mistake: at the end of an axis the cell itself is taken for its neighbour
VARIABLES dims, F, G, k
vars == <<dims, F, G, k>>

Side(d, i, j, s) ==
   LET ix == Unflatten(d, i - 1, FALSE)
   IN IF Clamp /\ (ix[j] + s < 0 \/ ix[j] + s >= d[j]) THEN i
      ELSE Shift(d, i - 1, UnitOff(Len(d), j, s), FALSE) + 1
Lap(d, f) == [i \in 1..Prod(d) |->
               SumSeq([j \in 1..(2 * Len(d)) |-> f[Side(d, i, (j + 1) \div 2, IF j % 2 = 0 THEN 1 ELSE -1)]]) - 2 * Len(d) * f[i]]
LapW(d, g) == [i \in 1..Prod(d) |->
               WSum(-2 * Len(d), g[i], [j \in 1..(2 * Len(d)) |-> g[Side(d, i, (j + 1) \div 2, IF j % 2 = 0 THEN 1 ELSE -1)]])]
Num(x) == IF x = 0 THEN << >> ELSE <<x>>

Init == /\ dims \in DimsSet /\ F \in [1..Prod(dims) -> Values] /\ k = 0
        /\ G = [i \in 1..Prod(dims) |-> Num(F[i])]
Next == k < Steps /\ k' = k + 1 /\ F' = Lap(dims, F) /\ G' = LapW(dims, G) /\ UNCHANGED dims
Spec == Init /\ [][Next]_vars

Dot(f, g) == SumSeq([i \in DOMAIN f |-> f[i] * g[i]])
ZeroSum == k > 0 => SumSeq(F) = 0
NegativeForm == k <= 2 => Dot(F, Lap(dims, F)) <= 0
Adjoint == k <= 2 => LET h == [i \in DOMAIN F |-> (i * i) % 3]
           IN Dot(h, Lap(dims, F)) = Dot(Lap(dims, h), F)
SameInLimbs == \A i \in DOMAIN F : Strip(WMinus(G[i], Num(F[i]))) = << >>
\* commutes with periodic shifts along every axis: no cell is special
Moved(f, j) == [i \in DOMAIN f |-> f[Shift(dims, i - 1, UnitOff(Len(dims), j, 1), FALSE) + 1]]
Homogeneous == \A j \in 1..Len(dims) : Lap(dims, Moved(F, j)) = Moved(Lap(dims, F), j)
D_ok == {<<1>>, <<3>>, <<2, 2>>, <<3, 2>>, <<4>>}
D_ok3 == {<<5>>, <<2, 3>>, <<3, 2>>, <<2, 2, 2>>, <<6>>}
D_clamp == {<<3>>, <<3, 2>>}
=============================================================================
