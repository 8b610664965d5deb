------------------------------ MODULE MC_Heap -------------------------------
(* Design of a solver's use of memory: a solver holds a field of one number  *)
(* per cell; a step makes a copy, reads the copy of the cell or of its       *)
(* neighbour (the indices wrap around), writes the field, and gives the copy *)
(* back.  Solvers are made, stepped and destroyed any number of times.       *)
EXTENDS Heap, FiniteSets, TLC
CONSTANTS MaxN, Rounds, Mutant

VARIABLES H, f, t, n, pc, j, rounds, marks
vars == <<H, f, t, n, pc, j, rounds, marks>>

Init == H = << >> /\ f = 0 /\ t = 0 /\ n = 0 /\ pc = "idle" /\ j = 0 /\ rounds = 0 /\ marks = << >>
\* the same size in every round of a history
Make == /\ pc = "idle" /\ rounds < Rounds
        /\ \E m \in 1..MaxN : (n = 0 \/ m = n) /\ n' = m /\ H' = Alloc(H, m)
        /\ f' = Len(H) + 1 /\ pc' = "made" /\ UNCHANGED <<t, j, rounds, marks>>
Begin == /\ pc = "made" /\ H' = Alloc(H, n) /\ t' = Len(H) + 1 /\ j' = 0 /\ pc' = "cells" /\ UNCHANGED <<f, n, rounds, marks>>
Wrap(i) == IF Mutant = "nowrap" THEN i ELSE (i + n) % n
Cell == /\ pc = "cells" /\ j < n
        /\ \E d \in {-1, 1} :
             LET k == Wrap(j + d) IN H' = Touch(Touch(H, t, k, k + 1), f, j, j + 1)
        /\ j' = j + 1 /\ UNCHANGED <<f, t, n, pc, rounds, marks>>
End == /\ pc = "cells" /\ j = n
       /\ H' = CASE Mutant = "leak" -> H
                 [] Mutant = "late" -> Touch(Return(H, t), t, 0, 1)
                 [] OTHER -> Return(H, t)
       /\ pc' = "stepped" /\ UNCHANGED <<f, t, n, j, rounds, marks>>
Again == pc = "stepped" /\ Len(H) < 3 /\ pc' = "made" /\ UNCHANGED <<H, f, t, n, j, rounds, marks>>
Drop == /\ pc = "stepped"
        /\ H' = IF Mutant = "twice" THEN Return(Return(H, f), t) ELSE Return(H, f)
        /\ marks' = Append(marks, Held(H)) /\ rounds' = rounds + 1 /\ pc' = "idle" /\ UNCHANGED <<f, t, n, j>>
Stop == pc = "idle" /\ rounds = Rounds /\ UNCHANGED vars
Next == Make \/ Begin \/ Cell \/ End \/ Again \/ Drop \/ Stop
Spec == Init /\ [][Next]_vars

Sound == \A b \in 1..Len(H) : Kept(H[b])
Even == Steady(marks)
Nothing == pc = "idle" => Held(H) = 0
=============================================================================
