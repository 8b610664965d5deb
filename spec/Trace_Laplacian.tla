-------------------------- MODULE Trace_Laplacian ---------------------------
(* The Laplacian program: ten applications of the periodic second-difference *)
(* operator (in every axis the two neighbours minus twice the cell) to the   *)
(* input function, a product of sines.  init are the samples of that         *)
(* function at the cell centres, at scale 10^16 and in column-major order;   *)
(* from there on everything is computed exactly, in whole numbers of any     *)
(* size.  The values of the file are whole numbers at the same scale; its    *)
(* tokens carry their index.                                                 *)
EXTENDS TraceBase, Vtk, Whole
VARIABLES dims, ref, tol
vars == <<dims, ref, tol>>
Iterations == 10

Near2(d) == TLCEval([i \in 1..Prod(d) |->
               [k \in 1..(2 * Len(d)) |-> Shift(d, i - 1, UnitOff(Len(d), (k + 1) \div 2, IF k % 2 = 0 THEN 1 ELSE -1), FALSE) + 1]])
RECURSIVE Times(_, _, _, _)
Times(F, nb, nd, k) ==
   IF k = 0 THEN F
   ELSE Times(TLCEval([i \in DOMAIN F |-> WSum(-2 * nd, F[i], [j \in DOMAIN nb[i] |-> F[nb[i][j]]])]), nb, nd, k - 1)

Ask(ev) ==
   /\ dims' = ev.dims
   /\ ref' = TLCEval(Times(ev.init, Near2(ev.dims), Len(ev.dims), Iterations))
   \* the rounding of the input values may be amplified by the largest eigenvalue at each application
   /\ tol' = WTimes(WPow(4 * Len(ev.dims), Iterations), 19)

\* half a unit of the sixth digit of the larger, or the rounding
Close(v, r) == LET e == WAbs(WMinus(v, r))
               IN WLeq(e, tol) \/ WLeq(WTimes(WTimes(WTimes(WTimes(WTimes(e, 20), 10), 10), 10), 10), WAbs(r))
FileOk(ev) ==
   LET st == TLCEval(Read(ev.tok, 1, Blank))
   IN /\ Formed(st)
      /\ \A j \in 1..Len(dims) : st.dims[VtkAxis(st.kind, Len(dims), j)] = dims[j] + 1
      /\ \A c \in Cells(dims) :
            LET k == ValueAt(st, dims, Unflatten(dims, c, FALSE))
            IN k > 0 /\ ev.good[k] /\ Close(ev.val[k], ref[c + 1])
File(ev) == UNCHANGED vars /\ FileOk(ev) = TRUE

\* the printed sums of the final field: zero up to the rounding of all the cells
RECURSIVE AllCells(_, _)
AllCells(a, k) == IF k = 0 THEN a ELSE AllCells(WMul(a, <<dims[k]>>), k - 1)
SumOk(ev) == \A k \in DOMAIN ev.v : WLeq(WAbs(ev.v[k]), AllCells(tol, Len(dims)))
Sums(ev) == UNCHANGED vars /\ Len(ev.v) = 2 /\ SumOk(ev) = TRUE

Step(ev) == \/ ev.e = "ask" /\ Ask(ev)
            \/ ev.e = "vtk" /\ File(ev)
            \/ ev.e = "sum" /\ Sums(ev)
Init == TInit /\ dims = << >> /\ ref = << >> /\ tol = << >>
TNext ==
   /\ More /\ l' = l + 1
   /\ IF Ev.e = "start" THEN skip' = FALSE /\ dims' = << >> /\ ref' = << >> /\ tol' = << >>
      ELSE IF skip THEN skip' = TRUE /\ UNCHANGED vars
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][TNext]_<<tvars, vars>>
=============================================================================
