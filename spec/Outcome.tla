------------------------------ MODULE Outcome -------------------------------
(* What a run of a program must do with a request: which requests are        *)
(* usable, what a usable one asks for, and what may be seen of the run.      *)
(* A request has                                                             *)
(*   fam    "opt" (C++: -name value) or "pos" (Fortran, Python: by position) *)
(*   args   the arguments, as character codes                                *)
(*   opts   the declared options (fam = "opt"), as in CmdLine                *)
(*   mpi    TRUE for the programs that divide the grid among np processes    *)
(*   nd0    the number of dimensions unless -numDims is given                *)
EXTENDS CmdLine, TLC
D == INSTANCE Decomp

NumCells == <<45,110,117,109,67,101,108,108,115>>     \* -numCells
NumSteps == <<45,110,117,109,83,116,101,112,115>>     \* -numSteps
NumDims  == <<45,110,117,109,68,105,109,115>>         \* -numDims
VtkName  == <<45,118,116,107>>                        \* -vtk
VtkWord  == <<118,116,107>>                           \* vtk

\* the options after the arguments
Set(q) == Parsed(q.opts, q.args)
Val(q, n) == IF n \in DOMAIN q.opts THEN Set(q)[n].v ELSE -1
IsGiven(q, n) == \E i \in 1..Len(q.args) : q.args[i] = n /\ i < Len(q.args)

Unknown(q) == q.fam = "opt" /\ ~Accepts(q.opts, q.args)
Helped(q)  == q.fam = "opt" /\ ~Unknown(q) /\ Set(q)[HelpName].v
Missing(q) == q.fam = "pos" /\ Len(q.args) = 0

CellsOf(q) == IF q.fam = "opt" THEN Val(q, NumCells) ELSE IntOf(q.args[1])
\* the number of steps, -1 when it is not said
StepsOf(q) == IF q.fam = "opt" THEN (IF IsGiven(q, NumSteps) THEN Val(q, NumSteps) ELSE -1)
              ELSE IF Len(q.args) > 1 THEN IntOf(q.args[2]) ELSE -1
VtkOf(q)   == IF q.fam = "opt" THEN Val(q, VtkName) ELSE Len(q.args) > 2 /\ q.args[3] = VtkWord
DimsOf(q)  == LET nd == IF q.fam = "opt" /\ NumDims \in DOMAIN q.opts THEN Val(q, NumDims) ELSE q.nd0
              IN [j \in 1..nd |-> CellsOf(q)]

Infeasible(q) == q.mpi /\ ~Unknown(q) /\ ~Helped(q) /\ ~Missing(q) /\ D!Decomps(DimsOf(q), q.np) = {}
Usable(q) == ~Unknown(q) /\ ~Helped(q) /\ ~Missing(q) /\ ~Infeasible(q)

\* -------- what is seen of a run
Blank == [sums |-> 0, refused |-> FALSE, shown |-> {}, files |-> {}]
SawSum(o)     == [o EXCEPT !.sums = @ + 1]
SawRefusal(o) == [o EXCEPT !.refused = TRUE]
SawName(o, n) == [o EXCEPT !.shown = @ \cup {n}]
SawFile(o, f) == [o EXCEPT !.files = @ \cup {f}]

\* a run may be seen to do this at any time
Harmless(q, o) ==
   /\ o.sums <= (IF Usable(q) THEN 1 ELSE 0)
   /\ (o.files # {} => (Usable(q) /\ VtkOf(q)))
\* and this when it has ended
Complete(q, o) ==
   /\ Harmless(q, o)
   /\ (Usable(q) => (o.sums = 1 /\ (VtkOf(q) => q.file \in o.files)))
   /\ ((Unknown(q) \/ Missing(q) \/ Infeasible(q)) => o.refused)
   /\ (Helped(q) => \A n \in DOMAIN q.opts : n \in o.shown)
=============================================================================
