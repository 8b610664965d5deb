----------------------------- MODULE Trace_Same -----------------------------
(* The same request to every program.  All of them take Courant numbers of a *)
(* tenth along each axis, so the field after n steps times 10^n is made of   *)
(* whole numbers: a step takes cell i to (10 - d) F[i] plus its d upwind     *)
(* neighbours.  These numbers are computed here exactly, in limbs of base    *)
(* 10^8.  Each program's file, read by Vtk.tla, must show that field, every  *)
(* cell to the number of digits the file has; so all the files agree.  A     *)
(* value is m[k] 10^(x[k] - 9) with 10^8 <= m[k] < 10^9, or m[k] = 0; the    *)
(* tokens of the file carry the index k.  acc is the accuracy of the file,   *)
(* in units of m.                                                            *)
EXTENDS TraceBase, Vtk, Whole
U == INSTANCE Upwind
VARIABLES dims, ref, n, spread
vars == <<dims, ref, n, spread>>
RECURSIVE Exact(_, _, _)
Exact(F, up, k) ==
   IF k = 0 THEN F
   ELSE Exact(TLCEval([i \in DOMAIN F |-> Combine(10 - Len(up), F[i], [j \in DOMAIN up |-> F[up[j][i]]], 1, 0)]), up, k - 1)
Field(d, k) ==
   Exact([i \in 1..Prod(d) |-> IF i = 1 THEN <<1>> ELSE << >>], U!UpTable(d, [j \in 1..Len(d) |-> 1]), k)

Ask(ev) == /\ dims' = ev.dims /\ n' = ev.n /\ UNCHANGED spread
           /\ ref' = LET F == Field(ev.dims, ev.n)
                     IN TLCEval([i \in DOMAIN F |-> IF F[i] = << >> THEN [m |-> 0, x |-> 0]
                                                    ELSE LET q == Lead(F[i]) IN [m |-> q.m, x |-> q.x - ev.n]])

FileOk(ev) ==
   LET st == TLCEval(Read(ev.tok, 1, Blank))
   IN /\ Formed(st)
      /\ \A j \in 1..Len(dims) : st.dims[VtkAxis(st.kind, Len(dims), j)] = dims[j] + 1
      /\ \A c \in Cells(dims) :
            LET k == ValueAt(st, dims, Unflatten(dims, c, TRUE))
            IN k > 0 /\ Near(ev.m[k], ev.x[k], ref[c + 1], ev.acc + 2)
\* A large grid and few steps: the flow has reached the cells of a corner only,
\* and the file, which must have the shape of the grid, shows zero elsewhere.
\* nz lists the other values: p their position in the file
AskCorner(ev) == Ask([dims |-> [j \in 1..Len(ev.dims) |-> ev.n + 1], n |-> ev.n])
CornerOk(ev) ==
   LET nd == Len(ev.dims)
       cell(p) == LET ix == Unflatten(ev.size, p, FALSE) IN [j \in 1..nd |-> ix[VtkAxis(ev.kind, nd, j)]]
   IN /\ ev.kind \in {"RECTILINEAR_GRID", "STRUCTURED_GRID"} /\ Len(ev.size) = 3
      /\ \A j \in 1..nd : ev.size[VtkAxis(ev.kind, nd, j)] = ev.dims[j]
      /\ ev.ncell = Prod(ev.dims) /\ ev.nval = ev.ncell
      /\ Len(ev.nz) = Cardinality({c \in DOMAIN ref : ref[c].m # 0})
      /\ \A k \in DOMAIN ev.nz :
            LET g == cell(ev.nz[k].p)
            IN /\ \A j \in 1..nd : g[j] < dims[j]
               /\ Near(ev.nz[k].m, ev.nz[k].x, ref[Flatten(dims, g, TRUE) + 1], ev.acc + 2)
\* The spread s of the field that a program prints, N cells: the square of
\* N 10^n s is N times the sum of the squares less the square of the sum, 10^n.
RECURSIVE Squares(_, _)
Squares(F, i) == IF i = 0 THEN << >> ELSE WSum(1, WMul(F[i], F[i]), <<Squares(F, i - 1)>>)
AskSpread(ev) ==
   /\ dims' = ev.dims /\ n' = ev.n /\ ref' = << >>
   /\ spread' = LET F == Field(ev.dims, ev.n)
                    N == Prod(ev.dims)
                    q == WAbs(WMinus(WMul(<<N>>, Squares(F, N)), WMul(WPow(10, ev.n), WPow(10, ev.n))))
                IN TLCEval(IF q = << >> THEN [m |-> 0, x |-> 0] ELSE Lead(q))
\* half a unit of the sixth digit, twice
SpreadOk(ev) ==
   IF spread.m = 0 THEN ev.m = 0 \/ (ev.m > 0 /\ ev.x < -7)
   ELSE /\ ev.m > 0
        /\ LET m == <<ev.m % WBase, ev.m \div WBase>>
               q == Lead(WMul(WMul(m, m), <<Prod(dims) * Prod(dims)>>))
           IN Near(q.m, q.x + 2 * ev.x - 18 + 2 * n, spread, 10050)
Spread(ev) == UNCHANGED vars /\ SpreadOk(ev) = TRUE
Corner(ev) == UNCHANGED vars /\ CornerOk(ev) = TRUE
File(ev) == UNCHANGED vars /\ FileOk(ev) = TRUE

Step(ev) == \/ ev.e = "ask" /\ Ask(ev)
            \/ ev.e = "vtk" /\ File(ev)
            \/ ev.e = "askc" /\ AskCorner(ev)
            \/ ev.e = "vtkc" /\ Corner(ev)
            \/ ev.e = "asks" /\ AskSpread(ev)
            \/ ev.e = "std" /\ Spread(ev)
Init == TInit /\ dims = << >> /\ ref = << >> /\ n = 0 /\ spread = << >>
TNext ==
   /\ More /\ l' = l + 1
   /\ IF Ev.e = "start" THEN skip' = FALSE /\ dims' = << >> /\ ref' = << >> /\ n' = 0 /\ spread' = << >>
      ELSE IF skip THEN skip' = TRUE /\ UNCHANGED vars
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][TNext]_<<tvars, vars>>
=============================================================================
