------------------------------- MODULE MC_Vtk -------------------------------
(* Design model: a writer for every small grid and field, read back by Vtk.  *)
(* VARIANT selects wrong writers, which TLC must refute.                     *)
EXTENDS Vtk
CONSTANTS Kind, VARIANT
VARIABLES dims, F, T, pc
vars == <<dims, F, T, pc>>
W(s) == [w |-> s, i |-> -1, v |-> 0, c |-> 0]
N(k) == [w |-> "", i |-> k, v |-> k, c |-> k]
Grids == {<<2>>, <<3>>, <<1>>, <<2, 3>>, <<3, 1>>, <<2, 1, 3>>, <<1, 3, 2>>, <<2, 2, 2>>}
nd == Len(dims)
Dl(j) == 10 * j
\* rectilinear: VTK axis k shows grid axis 4 - k
Ax(k) == IF Kind = "RECTILINEAR_GRID" THEN 4 - k ELSE k
D(k) == IF Ax(k) <= nd THEN dims[Ax(k)] + 1 ELSE IF Kind = "RECTILINEAR_GRID" THEN 1 ELSE 2
CoordAx(k) == IF VARIANT = "swapped" THEN (IF Kind = "RECTILINEAR_GRID" THEN k ELSE 4 - k) ELSE Ax(k)
Coords(k) == [q \in 1..D(k) |-> N(IF CoordAx(k) <= nd THEN (q - 1) * Dl(CoordAx(k)) ELSE 0)]
CoordSec(name, k) == <<W(name), N(D(k)), W("double")>> \o Coords(k)
Dv == <<D(1), D(2), D(3)>>
Pts == [q \in 1..(3 * Prod(Dv)) |-> LET ix == Unflatten(Dv, (q - 1) \div 3, VARIANT = "rowpoints")
                                        k == ((q - 1) % 3) + 1
                                    IN N(IF CoordAx(k) <= nd THEN ix[k] * Dl(CoordAx(k)) ELSE ix[k])]
Geo == IF Kind = "RECTILINEAR_GRID" THEN CoordSec("X_COORDINATES", 1) \o CoordSec("Y_COORDINATES", 2) \o CoordSec("Z_COORDINATES", 3)
       ELSE <<W("POINTS"), N(Prod(Dv)), W("float")>> \o Pts
\* row-major values are already in the order of the rectilinear file
Val(q) == IF Kind = "RECTILINEAR_GRID" THEN F[q]
          ELSE F[Flatten(dims, Unflatten(dims, q - 1, VARIANT = "roworder"), TRUE) + 1]
Vals == [q \in 1..Prod(dims) |-> N(Val(q))]
Out == <<W("DATASET"), W(Kind), W("DIMENSIONS")>> \o [k \in 1..3 |-> N(D(k))] \o Geo
       \o <<W("CELL_DATA"), N(Prod(dims) + (IF VARIANT = "count" THEN 1 ELSE 0)), W("SCALARS"), W("f"), W("double"), W("LOOKUP_TABLE"), W("default")>> \o Vals
Init == /\ dims \in Grids
        /\ F \in {[c \in 1..Prod(dims) |-> 7 * c], [c \in 1..Prod(dims) |-> (c * c) % 11]}
        /\ T = << >> /\ pc = "write"
Next == pc = "write" /\ T' = Out /\ pc' = "done" /\ UNCHANGED <<dims, F>>
Spec == Init /\ [][Next]_vars
Inv == pc = "done" => LET st == Read(T, 1, Blank)
                      IN /\ Formed(st)
                         /\ Geometry(st, dims, [j \in 1..nd |-> 0], [j \in 1..nd |-> Dl(j)])
                         /\ Shows(st, dims, F, TRUE)
=============================================================================
