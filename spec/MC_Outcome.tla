----------------------------- MODULE MC_Outcome -----------------------------
(* Design model of a program run: NP processes take the same request through *)
(* parsing, decomposition, time steps, the gathering of the field and the    *)
(* check sum; collective operations complete when every process has arrived. *)
(* VARIANT selects a wrong design, which TLC must refute.                    *)
EXTENDS Outcome
CONSTANTS NP, Steps, VARIANT
VARIABLES q, pc, at, o
vars == <<q, pc, at, o>>
Ranks == 0..(NP - 1)

T(k, v) == [k |-> k, v |-> v, h |-> << >>]
Opts == NumCells :> T("i", 4) @@ NumSteps :> T("i", 10) @@ VtkName :> T("b", FALSE) @@ HelpName :> T("b", FALSE)
Two == <<50>>  Three == <<51>>  Six == <<54>>
Frags == {<< >>, <<NumCells, Three>>, <<NumCells, Six>>, <<NumCells, Two>>, <<VtkName>>, <<HelpName>>, <<HelpName, HelpName>>, <<<<45, 120>>>>, <<Two>>}
OptReq == {[fam |-> "opt", opts |-> Opts, args |-> a \o b, mpi |-> m, np |-> NP, nd0 |-> 1, file |-> "f"] : a \in Frags, b \in Frags, m \in {NP > 1, TRUE}}
PosReq == {[fam |-> "pos", opts |-> << >>, args |-> a, mpi |-> m, np |-> NP, nd0 |-> 1, file |-> "f"] :
            a \in {<< >>, <<Two>>, <<Three>>, <<Six, Two>>, <<Six, Two, VtkWord>>, <<Six, Two, Two>>}, m \in {NP > 1, TRUE}}

\* at: the number of collective operations the process has entered; a process
\* waits in one until all the others have entered it too
Arrived(r) == \A s \in Ranks : at[s] >= at[r]
Init == /\ q \in OptReq \cup PosReq
        /\ pc = [r \in Ranks |-> "parse"] /\ at = [r \in Ranks |-> 0] /\ o = Blank
Go(r, l) == pc' = [pc EXCEPT ![r] = l]
Enter(r, l) == Go(r, l) /\ at' = [at EXCEPT ![r] = @ + 1]
\* every process decides from the same request
Parse(r) == /\ pc[r] = "parse" /\ UNCHANGED <<q, at>>
            /\ IF Unknown(q) \/ Missing(q) THEN Go(r, "last") /\ o' = (IF r = 0 /\ VARIANT # "silent" THEN SawRefusal(o) ELSE o)
               ELSE IF Helped(q) THEN Go(r, IF VARIANT = "helprun" THEN "decomp" ELSE "last") /\ o' = [o EXCEPT !.shown = DOMAIN q.opts]
               ELSE Go(r, "decomp") /\ UNCHANGED o
Decompose(r) == /\ pc[r] = "decomp" /\ UNCHANGED <<q, at>>
                /\ IF Infeasible(q)
                     THEN /\ o' = (IF r = 0 THEN SawRefusal(o) ELSE o)
                          /\ Go(r, IF VARIANT = "rootonly" /\ r # 0 THEN "step0" ELSE "last")
                     ELSE Go(r, "step0") /\ UNCHANGED o
Step(r) == /\ pc[r] = "step0" /\ UNCHANGED <<q, o>>
           /\ IF at[r] < Steps THEN Enter(r, "stepw")
              ELSE Go(r, IF VtkOf(q) \/ VARIANT = "always" THEN "vtk" ELSE "sum") /\ UNCHANGED at
StepW(r) == pc[r] = "stepw" /\ Arrived(r) /\ Go(r, "step0") /\ UNCHANGED <<q, at, o>>
Vtk(r) == /\ pc[r] = "vtk" /\ UNCHANGED <<q, o>>
          /\ IF VARIANT = "rootgather" /\ r # 0 THEN Go(r, "sum") /\ UNCHANGED at ELSE Enter(r, "vtkw")
VtkW(r) == /\ pc[r] = "vtkw" /\ Arrived(r) /\ Go(r, "sum") /\ UNCHANGED <<q, at>>
           /\ o' = (IF r = 0 THEN SawFile(o, "f") ELSE o)
Sum(r) == pc[r] = "sum" /\ Enter(r, "sumw") /\ UNCHANGED <<q, o>>
SumW(r) == /\ pc[r] = "sumw" /\ Arrived(r) /\ Go(r, "last") /\ UNCHANGED <<q, at>>
           /\ o' = (IF r = 0 \/ VARIANT = "allprint" THEN SawSum(o) ELSE o)
Last0(r) == pc[r] = "last" /\ Enter(r, "lastw") /\ UNCHANGED <<q, o>>
LastW(r) == pc[r] = "lastw" /\ Arrived(r) /\ Go(r, "end") /\ UNCHANGED <<q, at, o>>
Ended == \A r \in Ranks : pc[r] = "end"
Stop == Ended /\ UNCHANGED vars
Next == Stop \/ \E r \in Ranks : Parse(r) \/ Decompose(r) \/ Step(r) \/ StepW(r) \/ Vtk(r) \/ VtkW(r) \/ Sum(r) \/ SumW(r) \/ Last0(r) \/ LastW(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Inv == Harmless(q, o) /\ (Ended => Complete(q, o))
Terminates == <>Ended
=============================================================================
