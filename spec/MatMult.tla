------------------------------ MODULE MatMult -------------------------------
(* The matrix program.  Matrices are sequences of columns of integers.       *)
EXTENDS Integers, Sequences, TLC

RECURSIVE Dot(_, _, _, _, _)
Dot(a, b, i, k, j) == IF j = 0 THEN 0 ELSE a[j][i] * b[k][j] + Dot(a, b, i, k, j - 1)
\* a has m columns of n, b has el columns of m
Product(n, m, el, a, b) == [k \in 1..el |-> [i \in 1..n |-> Dot(a, b, i, k, m)]]

InitA(n, m) == [j \in 1..m |-> [i \in 1..n |-> (j - 1) * n + i]]
InitB(n, m, el) == [k \in 1..el |-> [j \in 1..m |-> n * m + (k - 1) * m + j]]

Defaults == <<3, 4, 5>>
Sizes(args) == [i \in 1..3 |-> IF i <= Len(args) THEN args[i] ELSE Defaults[i]]
=============================================================================
