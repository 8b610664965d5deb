---------------------------- MODULE MC_MatMult ------------------------------
(* Design model of the concurrent product: the columns of the result are     *)
(* computed by iterations that may interleave in any way.  VARIANT "shared"  *)
(* lets them share the inner loop counters; TLC must refute it.              *)
EXTENDS MatMult
CONSTANTS N, M, L, VARIANT
VARIABLES i, j, c, done
vars == <<i, j, c, done>>
a == InitA(N, M)
b == InitB(N, M, L)
Init == /\ i = [k \in 1..L |-> 1] /\ j = [k \in 1..L |-> 0]
        /\ c = [k \in 1..L |-> [r \in 1..N |-> -1]]
        /\ done = [k \in 1..L |-> FALSE]
K(k) == IF VARIANT = "shared" THEN 1 ELSE k
Iter(k) ==
   LET q == K(k) IN
   /\ ~done[k]
   /\ IF i[q] > N THEN done' = [done EXCEPT ![k] = TRUE] /\ UNCHANGED <<i, j, c>>
      ELSE IF j[q] = 0 THEN c' = [c EXCEPT ![k][i[q]] = 0] /\ j' = [j EXCEPT ![q] = 1] /\ UNCHANGED <<i, done>>
      ELSE IF j[q] <= M THEN /\ c' = [c EXCEPT ![k][i[q]] = @ + a[j[q]][i[q]] * b[k][j[q]]]
                             /\ j' = [j EXCEPT ![q] = @ + 1] /\ UNCHANGED <<i, done>>
      ELSE i' = [i EXCEPT ![q] = @ + 1] /\ j' = [j EXCEPT ![q] = 0] /\ UNCHANGED <<c, done>>
Next == \E k \in 1..L : Iter(k)
Spec == Init /\ [][Next]_vars
Inv == (\A k \in 1..L : done[k]) => c = Product(N, M, L, a, b)
=============================================================================
