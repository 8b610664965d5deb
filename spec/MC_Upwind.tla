----------------------------- MODULE MC_Upwind ------------------------------
(* Design model: every small grid, every sequence of advances with any       *)
(* velocity.  VARIANT selects a wrong design, which TLC must refute.         *)
EXTENDS Upwind
CONSTANTS Dims, Dmax, Depth, VARIANT

VARIABLES dims, F, S, n, stable, G
\* G follows the same history advancing one step at a time from the copy; it
\* must agree with F, which the VARIANT design computes
vars == <<dims, F, S, n, stable, G>>

QuickDims == {<<1>>, <<3>>, <<2,3>>, <<1,2,2>>}
BigDims == {<<4>>, <<3,3>>, <<2,4>>, <<2,3,2>>, <<2,1,2,2>>}
Cs(nd) == [1..nd -> -2..2]

\* wrong: updating in place, later cells see updated neighbours
RECURSIVE InPlace(_, _, _, _, _)
InPlace(f, up, c, D, i) ==
   IF i > Len(f) THEN f
   ELSE InPlace([f EXCEPT ![i] = f[i] - (Flux(f, up, c, i, Len(c)) \div D)], up, c, D, i + 1)
\* wrong: no wrap at the boundary
ClampTable(d, c) == [j \in 1..Len(d) |-> [i \in 1..Prod(d) |->
     LET ix == Unflatten(d, i - 1, TRUE)
         v  == ix[j] + (IF c[j] < 0 THEN 1 ELSE -1)
     IN IF v \in 0..(d[j] - 1) THEN UpCell(d, i, j, c[j]) ELSE i]]
\* wrong: the direction ignores the sign
OneWay(d, c) == [j \in 1..Len(d) |-> [i \in 1..Prod(d) |-> UpCell(d, i, j, 1)]]

Design(d, f, c, D, k) ==
   IF VARIANT = "ok" THEN Advance(d, f, c, D, k)
   ELSE IF VARIANT = "clamp" THEN Iterate(f, TLCEval(ClampTable(d, c)), c, D, k)
   ELSE IF VARIANT = "oneway" THEN Iterate(f, TLCEval(OneWay(d, c)), c, D, k)
   ELSE LET RECURSIVE It(_, _)
            It(g, m) == IF m = 0 THEN g ELSE It(InPlace([i \in DOMAIN g |-> D * g[i]], UpTable(d, c), c, D, 1), m - 1)
        IN It(f, k)

Init == /\ dims \in Dims
        /\ F = Delta0(dims) /\ G = F /\ S = 1 /\ n = 0 /\ stable = TRUE
Next == /\ n < Depth
        /\ \E c \in Cs(Len(dims)), D \in {2, Dmax}, k \in 1..2 :
             /\ F' = Design(dims, F, c, D, k)
             /\ G' = LET g == Advance(dims, G, c, D, 1) IN IF k = 1 THEN g ELSE Advance(dims, g, c, D, 1)
             /\ S' = S * Pow(D, k)
             /\ stable' = (stable /\ Stable(c, D))
        /\ n' = n + 1
        /\ UNCHANGED dims
Spec == Init /\ [][Next]_vars

Conserved == SumSeq(F) = S
Bounded   == stable => \A i \in DOMAIN F : 0 <= F[i] /\ F[i] <= S
SplitSame == F = G
Inv == Conserved /\ Bounded /\ SplitSame
=============================================================================
