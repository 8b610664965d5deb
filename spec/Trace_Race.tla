----------------------------- MODULE Trace_Race -----------------------------
(* What the threads of a run of the real code accessed between its           *)
(* synchronisation points: no two accesses race.                             *)
EXTENDS TraceBase, HB
VARIABLES C, L, M
vars == <<C, L, M>>

\* the number of threads and of shared locations
Team(ev) == LET T == 1..ev.threads
            IN C' = TLCEval(Clock0(T)) /\ L' = TLCEval([m \in 1..ev.locks |-> [u \in T |-> 0]]) /\ M' = TLCEval([x \in 1..ev.loc |-> NoAccess(T)])
S(q) == {q[i] : i \in 1..Len(q)}
RaceFree(ev) ==
   /\ \A x \in S(ev.rd)  : Ordered(M[x], C, ev.t, "r")
   /\ \A x \in S(ev.wr)  : Ordered(M[x], C, ev.t, "w")
   /\ \A x \in S(ev.ar) : Ordered(M[x], C, ev.t, "R")
   /\ \A x \in S(ev.aw) : Ordered(M[x], C, ev.t, "W")
Mark(ev, x) ==
   LET a == IF x \in S(ev.rd) THEN Access(M[x], C, ev.t, "r") ELSE M[x]
       b == IF x \in S(ev.wr) THEN Access(a, C, ev.t, "w") ELSE a
       c == IF x \in S(ev.ar) THEN Access(b, C, ev.t, "R") ELSE b
   IN IF x \in S(ev.aw) THEN Access(c, C, ev.t, "W") ELSE c
Acc(ev) == /\ RaceFree(ev) = TRUE
           /\ M' = TLCEval([x \in DOMAIN M |-> Mark(ev, x)]) /\ UNCHANGED <<C, L>>
Sync(ev) == /\ UNCHANGED M
            /\ \/ ev.e = "fork" /\ C' = Fork(C, ev.t, S(ev.k)) /\ UNCHANGED L
               \/ ev.e = "join" /\ C' = JoinT(C, ev.t, S(ev.k)) /\ UNCHANGED L
               \/ ev.e = "bar" /\ C' = Bar(C, S(ev.k)) /\ UNCHANGED L
               \/ ev.e = "acq" /\ C' = Acq(C, ev.t, L[ev.m]) /\ UNCHANGED L
               \/ ev.e = "rel" /\ L' = [L EXCEPT ![ev.m] = Join(@, C[ev.t])] /\ C' = Rel(C, ev.t)
Step(ev) == \/ ev.e = "team" /\ Team(ev)
            \/ ev.e = "acc" /\ Acc(ev)
            \/ ev.e \in {"fork", "join", "bar", "acq", "rel"} /\ Sync(ev)
Init == TInit /\ C = << >> /\ L = << >> /\ M = << >>
TNext ==
   /\ More /\ l' = l + 1
   /\ IF Ev.e = "start" THEN skip' = FALSE /\ C' = << >> /\ L' = << >> /\ M' = << >>
      ELSE IF skip THEN skip' = TRUE /\ UNCHANGED vars
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][TNext]_<<tvars, vars>>
=============================================================================
