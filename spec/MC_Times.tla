------------------------------ MODULE MC_Times ------------------------------
(* Processes with clocks of their own run setup, the loop and the output and *)
(* reduce a time to the root.  Every choice of what the clocks show at first *)
(* and of how long each part takes; what the root reports is what Times      *)
(* asks for.  Variant: "ok"; the faults "span" (the last end minus the first *)
(* start), "root" (the time of the root alone), "sum" (not divided), "early" *)
(* (started before the setup), "late" (ended after the output), "floor" (the *)
(* average divided in whole numbers).                                        *)
EXTENDS Times, TLC
CONSTANTS Np, Steps, Costs, Bases, Variant
Ranks == 0..(Np - 1)
VARIABLES clock, pc, step, tic, toc, spent, report
vars == <<clock, pc, step, tic, toc, spent, report>>
Scale == 2520
Init == /\ clock \in [Ranks -> Bases] /\ pc = [r \in Ranks |-> "setup"] /\ step = [r \in Ranks |-> 0]
        /\ tic = clock /\ toc = clock /\ spent = [r \in Ranks |-> 0] /\ report = << >>
Pass(r, c) == clock' = [clock EXCEPT ![r] = @ + c]
Setup(r) == /\ pc[r] = "setup" /\ pc' = [pc EXCEPT ![r] = "loop"]
            /\ \E c \in Costs : Pass(r, c) /\ tic' = [tic EXCEPT ![r] = IF Variant = "early" THEN @ ELSE clock[r] + c]
            /\ UNCHANGED <<step, toc, spent, report>>
Apply(r) == /\ pc[r] = "loop" /\ step[r] < Steps
            /\ \A k \in Ranks : pc[k] # "setup" /\ step[k] >= step[r]      \* the halo
            /\ step' = [step EXCEPT ![r] = @ + 1]
            /\ \E c \in Costs : Pass(r, c) /\ spent' = [spent EXCEPT ![r] = @ + c]
            /\ UNCHANGED <<pc, tic, toc, report>>
Leave(r) == /\ pc[r] = "loop" /\ step[r] = Steps /\ pc' = [pc EXCEPT ![r] = "done"]
            /\ \E c \in Costs : Pass(r, c) /\ toc' = [toc EXCEPT ![r] = IF Variant = "late" THEN clock[r] + c ELSE clock[r]]
            /\ UNCHANGED <<step, tic, spent, report>>
Walls == [r \in Ranks |-> toc[r] - tic[r]]
Report == /\ \A r \in Ranks : pc[r] = "done"
          /\ report = << >> /\ UNCHANGED <<clock, pc, step, tic, toc, spent>>
          /\ report' = CASE Variant = "span" -> LET w == Scale * (Largest(toc) - Least(tic)) IN <<w, w, w>>
                         [] Variant = "root" -> <<Scale * Walls[0], Scale * Walls[0], Scale * Walls[0]>>
                         [] Variant = "sum" -> <<Scale * Least(Walls), Scale * Largest(Walls), Scale * SumUp(Walls, Ranks)>>
                         [] Variant = "floor" -> <<Scale * Least(Walls), Scale * Largest(Walls), Scale * (SumUp(Walls, Ranks) \div Np)>>
                         [] OTHER -> <<Scale * Least(Walls), Scale * Largest(Walls), (Scale * SumUp(Walls, Ranks)) \div Np>>
Next == Report \/ \E r \in Ranks : Setup(r) \/ Apply(r) \/ Leave(r)
Spec == Init /\ [][Next]_vars
RightTimes == report # << >> => Reports(spent, report, Scale, 0)
Ordered == report # << >> => (report[1] <= report[3] /\ report[3] <= report[2])
=============================================================================
