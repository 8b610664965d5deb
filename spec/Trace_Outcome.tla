--------------------------- MODULE Trace_Outcome ----------------------------
(* Runs of the real programs.                                                *)
(*   PROP = "C15": what is reported, written and left running                *)
(*   PROP = "C10": every check sum is one, every value within [0, 1];        *)
(*                 values are in millionths                                  *)
EXTENDS TraceBase, Outcome
VARIABLES q, o
vars == <<q, o>>
P == IOEnv.PROP
None == [fam |-> ""]
One == 1000000
Tol == 2

RECURSIVE FunTo(_, _)
FunTo(s, k) == IF k = 0 THEN << >> ELSE (s[k].n :> [k |-> s[k].k, v |-> s[k].v, h |-> << >>]) @@ FunTo(s, k - 1)
Req(ev) == /\ o' = Blank
           /\ q' = TLCEval([fam |-> ev.fam, args |-> ev.args, opts |-> TLCEval(FunTo(ev.opts, Len(ev.opts))), mpi |-> ev.mpi, np |-> ev.np,
                    nd0 |-> ev.nd0, file |-> ev.file])
Near(v) == v \in (One - Tol)..(One + Tol)
Sum(ev) == o' = SawSum(o) /\ (P = "C10" => \A i \in 1..Len(ev.v) : Near(ev.v[i]))
ISum(ev) == UNCHANGED o /\ (P = "C10" => \A i \in 1..Len(ev.v) : Near(ev.v[i]))
Vals(ev) == UNCHANGED o /\ (P = "C10" => (ev.lo >= -Tol /\ ev.hi <= One + Tol))
Cells(ev) == UNCHANGED o /\ (P = "C15" => (Usable(q) => \A i \in 1..Len(ev.v) : ev.v[i] = CellsOf(q)))
Steps(ev) == UNCHANGED o /\ (P = "C15" => (Usable(q) => StepsOf(q) \in {-1, ev.v}))
Refuse(ev) == o' = SawRefusal(o)
Name(ev) == o' = SawName(o, ev.n)
File(ev) == o' = SawFile(o, ev.n)
\* how the run ended: by itself, and with success where there was something to do
End(ev) == UNCHANGED o /\ (P = "C15" => ((ev.ended /\ (Usable(q) => ev.rc = 0)) /\ Complete(q, o)))

Seen(ev) == \/ ev.e = "sum" /\ Sum(ev)
            \/ ev.e = "isum" /\ ISum(ev)
            \/ ev.e = "vals" /\ Vals(ev)
            \/ ev.e = "cells" /\ Cells(ev)
            \/ ev.e = "steps" /\ Steps(ev)
            \/ ev.e = "refuse" /\ Refuse(ev)
            \/ ev.e = "name" /\ Name(ev)
            \/ ev.e = "file" /\ File(ev)
            \/ ev.e = "end" /\ End(ev)
Step(ev) == \/ ev.e = "req" /\ Req(ev)
            \/ Seen(ev) /\ UNCHANGED q /\ (P = "C15" => Harmless(q, o'))
Init == TInit /\ q = None /\ o = Blank
TNext ==
   /\ More /\ l' = l + 1
   /\ IF Ev.e = "start" THEN skip' = FALSE /\ q' = None /\ o' = Blank
      ELSE IF skip THEN skip' = TRUE /\ UNCHANGED vars
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][TNext]_<<tvars, vars>>
=============================================================================
