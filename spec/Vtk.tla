-------------------------------- MODULE Vtk ---------------------------------
(* A reader of VTK legacy ASCII files (rectilinear and structured grids with *)
(* one scalar per cell), and what a file must say about a field on a grid.   *)
(* A token is a record: w the text if it is a word, i its value if it is a   *)
(* whole number (else -1), v and c its value at the scale of the field and   *)
(* of the coordinates.                                                       *)
EXTENDS Base, TLC

Bad == [ok |-> FALSE]
Blank == [ok |-> TRUE, kind |-> "", dims |-> << >>, x |-> << >>, y |-> << >>, z |-> << >>,
          pts |-> << >>, ncell |-> -1, name |-> "", vals |-> << >>]

IsNum(t) == t.w = ""
AllNum(T, a, b) == b <= Len(T) /\ \A k \in a..b : IsNum(T[k])
Types == {"float", "double"}
Cs(T, a, b) == TLCEval([k \in 1..(b - a + 1) |-> T[a + k - 1].c])
Vs(T, a, b) == TLCEval([k \in 1..(b - a + 1) |-> T[a + k - 1].v])

\* the sections of a file, from token p on
RECURSIVE Read(_, _, _)
Coord(T, p, st, f) ==
   IF ~(p + 2 <= Len(T) /\ T[p + 1].i >= 1 /\ T[p + 2].w \in Types) THEN Bad
   ELSE LET n == T[p + 1].i
        IN IF ~AllNum(T, p + 3, p + 2 + n) THEN Bad
           ELSE LET cs == Cs(T, p + 3, p + 2 + n)
                IN Read(T, p + 3 + n, IF f = 1 THEN [st EXCEPT !.x = cs] ELSE IF f = 2 THEN [st EXCEPT !.y = cs] ELSE [st EXCEPT !.z = cs])
Scalars(T, p, st) ==
   \* SCALARS name type [components] LOOKUP_TABLE name values
   LET q == IF p + 3 <= Len(T) /\ IsNum(T[p + 3]) THEN p + 4 ELSE p + 3
   IN IF ~(q + 1 <= Len(T) /\ T[p + 2].w \in Types /\ (q = p + 4 => T[p + 3].i = 1)
           /\ T[q].w = "LOOKUP_TABLE" /\ ~IsNum(T[q + 1]) /\ st.ncell >= 0) THEN Bad
      ELSE IF ~AllNum(T, q + 2, q + 1 + st.ncell) THEN Bad
      ELSE Read(T, q + 2 + st.ncell, [st EXCEPT !.name = T[p + 1].w, !.vals = Vs(T, q + 2, q + 1 + st.ncell)])
Read(T, p, st) ==
   IF p > Len(T) THEN st
   ELSE LET w == T[p].w IN
   IF w = "DATASET" THEN
      IF p + 1 <= Len(T) /\ st.kind = "" THEN Read(T, p + 2, [st EXCEPT !.kind = T[p + 1].w]) ELSE Bad
   ELSE IF w = "DIMENSIONS" THEN
      IF AllNum(T, p + 1, p + 3) /\ st.kind # "" /\ st.dims = << >> /\ \A k \in 1..3 : T[p + k].i >= 1
      THEN Read(T, p + 4, [st EXCEPT !.dims = <<T[p + 1].i, T[p + 2].i, T[p + 3].i>>]) ELSE Bad
   ELSE IF w = "X_COORDINATES" THEN Coord(T, p, st, 1)
   ELSE IF w = "Y_COORDINATES" THEN Coord(T, p, st, 2)
   ELSE IF w = "Z_COORDINATES" THEN Coord(T, p, st, 3)
   ELSE IF w = "POINTS" THEN
      IF ~(p + 2 <= Len(T) /\ T[p + 1].i >= 1 /\ T[p + 2].w \in Types) THEN Bad
      ELSE LET n == 3 * T[p + 1].i
           IN IF ~AllNum(T, p + 3, p + 2 + n) THEN Bad
              ELSE Read(T, p + 3 + n, [st EXCEPT !.pts = Cs(T, p + 3, p + 2 + n)])
   ELSE IF w = "CELL_DATA" THEN
      IF p + 1 <= Len(T) /\ T[p + 1].i >= 1 /\ st.dims # << >> THEN Read(T, p + 2, [st EXCEPT !.ncell = T[p + 1].i]) ELSE Bad
   ELSE IF w = "SCALARS" THEN Scalars(T, p, st)
   ELSE Bad

CellDims(d) == [k \in 1..3 |-> Max2(1, d[k] - 1)]

\* the counts agree
Formed(st) ==
   /\ st.ok
   /\ st.kind \in {"RECTILINEAR_GRID", "STRUCTURED_GRID"}
   /\ Len(st.dims) = 3
   /\ IF st.kind = "RECTILINEAR_GRID"
        THEN Len(st.x) = st.dims[1] /\ Len(st.y) = st.dims[2] /\ Len(st.z) = st.dims[3]
        ELSE Len(st.pts) = 3 * Prod(st.dims)
   /\ st.ncell = Prod(CellDims(st.dims))
   /\ Len(st.vals) = st.ncell

\* the coordinate along axis k (1..3) of node ix
NodeCoord(st, ix, k) ==
   IF st.kind = "RECTILINEAR_GRID" THEN (IF k = 1 THEN st.x ELSE IF k = 2 THEN st.y ELSE st.z)[ix[k] + 1]
   ELSE st.pts[3 * Flatten(st.dims, ix, FALSE) + k]

\* the VTK axis that shows grid axis j of nd: reversed in the rectilinear
\* files (the last grid axis varies fastest), in order in the structured ones
VtkAxis(kind, nd, j) == IF kind = "RECTILINEAR_GRID" THEN 4 - j ELSE j

\* every node is where the grid has it; axes the grid does not have are one cell thick
Geometry(st, dims, lo, dl) ==
   LET nd == Len(dims)
       used == {VtkAxis(st.kind, nd, j) : j \in 1..nd}
   IN /\ \A j \in 1..nd : st.dims[VtkAxis(st.kind, nd, j)] = dims[j] + 1
      /\ \A k \in 1..3 : k \notin used => st.dims[k] \in {1, 2}
      /\ \A p \in 0..(Prod(st.dims) - 1) :
            LET ix == Unflatten(st.dims, p, FALSE)
            IN \A j \in 1..nd : LET k == VtkAxis(st.kind, nd, j) IN NodeCoord(st, ix, k) = lo[j] + dl[j] * ix[k]

\* the value VTK shows in grid cell g (an index set)
ValueAt(st, dims, g) ==
   LET nd == Len(dims)
       cd == CellDims(st.dims)
       ix == [k \in 1..3 |-> IF \E j \in 1..nd : VtkAxis(st.kind, nd, j) = k
                             THEN g[CHOOSE j \in 1..nd : VtkAxis(st.kind, nd, j) = k] ELSE 0]
   IN st.vals[Flatten(cd, ix, FALSE) + 1]

\* F in row-major or column-major order
Shows(st, dims, F, rowMajor) ==
   \A c \in Cells(dims) : ValueAt(st, dims, Unflatten(dims, c, rowMajor)) = F[c + 1]
=============================================================================
