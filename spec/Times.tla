------------------------------- MODULE Times --------------------------------
(* What a program on several processes has to say about the time it took.    *)
(* Every process has a clock of its own; clocks are not synchronised.  The   *)
(* time of a process is what its clock advances by in the loop that applies  *)
(* the filter; the report gives the least, the largest and the average.      *)
EXTENDS Integers, Sequences, FiniteSets
Dist(a, b) == IF a < b THEN b - a ELSE a - b
RECURSIVE SumUp(_, _)
SumUp(t, S) == IF S = {} THEN 0 ELSE LET r == CHOOSE x \in S : TRUE IN t[r] + SumUp(t, S \ {r})
Least(t) == CHOOSE x \in {t[r] : r \in DOMAIN t} : \A r \in DOMAIN t : x <= t[r]
Largest(t) == CHOOSE x \in {t[r] : r \in DOMAIN t} : \A r \in DOMAIN t : x >= t[r]
\* v = <<least, largest, average>> in units of which one unit of t has `scale`, each to within tol
Reports(t, v, scale, tol) ==
   /\ Dist(v[1], scale * Least(t)) <= tol
   /\ Dist(v[2], scale * Largest(t)) <= tol
   /\ Dist(Cardinality(DOMAIN t) * v[3], scale * SumUp(t, DOMAIN t)) <= tol * Cardinality(DOMAIN t)
=============================================================================
