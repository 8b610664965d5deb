----------------------------- MODULE Trace_Vtk ------------------------------
(* Files written by the real writers. *)
EXTENDS TraceBase, Vtk, Whole
VARIABLES dims, lo, dl, row, F
vars == <<dims, lo, dl, row, F>>

Grid(ev) == dims' = ev.dims /\ lo' = ev.lo /\ dl' = ev.dl /\ row' = ev.row /\ F' = << >>
Field(ev) == F' = ev.F /\ UNCHANGED <<dims, lo, dl, row>>
\* F given to nine digits: the file agrees with the digits it has (acc: half a unit of the last, in units of the ninth)
Digit(st, acc) ==
   \A c \in Cells(dims) :
      LET a == ValueAt(st, dims, Unflatten(dims, c, row))
          b == F[c + 1]
      IN /\ (a.m < 0) = (b.m < 0)
         /\ Near(Abs(a.m), a.x, [m |-> Abs(b.m), x |-> b.x], acc + 1)
FileOk(ev) ==
   LET st == TLCEval(Read(ev.tok, 1, Blank))
   IN /\ ev.l1 = "# vtk DataFile Version "
      /\ ev.l2 < 256
      /\ ev.l3 = "ASCII"
      /\ Formed(st)
      /\ Geometry(st, dims, lo, dl)
      /\ (ev.exact => IF ev.acc = 0 THEN Shows(st, dims, F, row) ELSE Digit(st, ev.acc))
      \* a file whose field is not known otherwise: its values add up to the reported sum
      /\ (~ev.exact => Abs(SumSeq(st.vals) - ev.sum) <= ev.tol)
File(ev) == UNCHANGED vars /\ FileOk(ev) = TRUE

Step(ev) == \/ ev.e = "grid" /\ Grid(ev)
            \/ ev.e = "field" /\ Field(ev)
            \/ ev.e = "vtk" /\ File(ev)
Init == TInit /\ dims = << >> /\ lo = << >> /\ dl = << >> /\ row = TRUE /\ F = << >>
TNext ==
   /\ More /\ l' = l + 1
   /\ IF Ev.e = "start" THEN skip' = FALSE /\ dims' = << >> /\ lo' = << >> /\ dl' = << >> /\ row' = TRUE /\ F' = << >>
      ELSE IF skip THEN skip' = TRUE /\ UNCHANGED vars
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][TNext]_<<tvars, vars>>
=============================================================================
