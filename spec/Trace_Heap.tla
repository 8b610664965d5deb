----------------------------- MODULE Trace_Heap -----------------------------
(* What runs of the real code did with the blocks of memory they were given: *)
(* every block, and what was held at the marks of a repeated history.        *)
EXTENDS TraceBase, Heap
Blk(q) == [n |-> q[1], lo |-> q[2], hi |-> q[3], late |-> q[4], back |-> q[5]]
Step(ev) == \/ ev.e = "heap" /\ (\A i \in 1..Len(ev.b) : Kept(Blk(ev.b[i]))) = TRUE /\ Steady(ev.held) = TRUE
            \/ ev.e = "held" /\ SteadyWithin(ev.h, ev.slack) = TRUE
            \/ ev.e = "run"        \* (operations of the history; what they compute is the business of other specifications)
Init == TInit
TNext ==
   /\ More /\ l' = l + 1
   /\ IF Ev.e = "start" THEN skip' = FALSE
      ELSE IF skip THEN skip' = TRUE
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE
Spec == Init /\ [][TNext]_tvars
=============================================================================
