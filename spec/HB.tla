--------------------------------- MODULE HB ---------------------------------
(* Happens-before among threads, by vector clocks, and data races.           *)
(* C[t][u]: what thread t knows of the clock of thread u.                    *)
(* A location remembers, for each kind of access ("r", "w" plain, "R", "W"   *)
(* atomic), the clock of the last one by each thread.                        *)
EXTENDS Integers, Sequences, TLC

Clock0(T) == [t \in T |-> [u \in T |-> IF t = u THEN 1 ELSE 0]]
Max(a, b) == IF a > b THEN a ELSE b
Join(a, b) == TLCEval([u \in DOMAIN a |-> Max(a[u], b[u])])
RECURSIVE JoinAll(_, _, _)
JoinAll(C, S, acc) == IF S = {} THEN acc ELSE LET s == CHOOSE x \in S : TRUE IN JoinAll(C, S \ {s}, Join(acc, C[s]))
Tick(c, t) == [c EXCEPT ![t] = @ + 1]

\* t starts the threads K
Fork(C, t, K) == TLCEval([u \in DOMAIN C |-> IF u \in K THEN Tick(Join(C[u], C[t]), u) ELSE IF u = t THEN Tick(C[t], t) ELSE C[u]])
\* t has seen the threads K end
JoinT(C, t, K) == TLCEval([C EXCEPT ![t] = JoinAll(C, K, C[t])])
\* every thread of K has arrived
Bar(C, K) == LET m == JoinAll(C, K, C[CHOOSE x \in K : TRUE])
             IN TLCEval([u \in DOMAIN C |-> IF u \in K THEN Tick(m, u) ELSE C[u]])
Rel(C, t) == TLCEval([C EXCEPT ![t] = Tick(@, t)])
Acq(C, t, c) == TLCEval([C EXCEPT ![t] = Join(@, c)])

NoAccess(T) == [k \in {"r", "w", "R", "W"} |-> [t \in T |-> 0]]
\* the kinds of access that conflict with one of kind k
Against(k) == IF k = "r" THEN {"w", "W"} ELSE IF k = "w" THEN {"r", "w", "R", "W"} ELSE IF k = "R" THEN {"w"} ELSE {"r", "w"}
Ordered(h, C, t, k) == \A j \in Against(k) : \A u \in DOMAIN C : u # t => h[j][u] <= C[t][u]
Access(h, C, t, k) == [h EXCEPT ![k][t] = C[t][t]]
=============================================================================
