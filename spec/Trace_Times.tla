---------------------------- MODULE Trace_Times -----------------------------
(* Recorded runs of the programs with clocks that are set: `begin` has for   *)
(* every process the cost of a transfer, in eighths of a second; a transfer  *)
(* (`get`, `put`) advances the clock of its process.  The report is in       *)
(* eighths of milliseconds.                                                  *)
EXTENDS TraceBase, Times
VARIABLES cost, spent, told
vars == <<cost, spent, told>>
FromZero(s) == TLCEval([r \in 0..(Len(s) - 1) |-> s[r + 1]])
Begin(ev) == cost' = FromZero(ev.cost) /\ spent' = [r \in DOMAIN cost' |-> 0] /\ told' = FALSE
Pass(ev) == /\ ~told
            /\ spent' = [spent EXCEPT ![ev.r] = @ + cost[ev.r]] /\ UNCHANGED <<cost, told>>
\* all the transfers by process at once (runs that are only counted)
Passes(ev) == spent' = TLCEval([r \in DOMAIN spent |-> spent[r] + ev.n[r + 1] * cost[r]]) /\ UNCHANGED <<cost, told>>
\* half a unit of the sixth digit of a number below 1000
Report(ev) == told' = TRUE /\ UNCHANGED <<cost, spent>> /\ ((Len(ev.v) = 3 /\ Reports(spent, ev.v, 1000, 5)) = TRUE)
\* one process tells its own time
Own(ev) == told' = TRUE /\ UNCHANGED <<cost, spent>> /\ ((Len(ev.v) = 1 /\ Dist(ev.v[1], 1000 * spent[ev.r]) <= 5) = TRUE)
End(ev) == UNCHANGED vars /\ told
Step(ev) == \/ ev.e = "begin" /\ Begin(ev)
            \/ ev.e \in {"get", "put"} /\ Pass(ev)
            \/ ev.e = "passes" /\ Passes(ev)
            \/ ev.e = "report" /\ Report(ev)
            \/ ev.e = "own" /\ Own(ev)
            \/ ev.e = "end" /\ End(ev)
Init == TInit /\ cost = << >> /\ spent = << >> /\ told = FALSE
TNext ==
   /\ More /\ l' = l + 1
   /\ IF Ev.e = "start" THEN skip' = FALSE /\ cost' = << >> /\ spent' = << >> /\ told' = FALSE
      ELSE IF skip THEN skip' = TRUE /\ UNCHANGED vars
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][TNext]_<<tvars, vars>>
=============================================================================
