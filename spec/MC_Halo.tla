------------------------------ MODULE MC_Halo -------------------------------
(* Design of the halo exchange: NP ranks own S cells each of a periodic line *)
(* and apply the stencil St T times.  Per branch of the stencil: fence, get  *)
(* the neighbour's border, fence, add the branch.  Every interleaving of the *)
(* ranks and every completion time of the transfers Rma.tla allows.          *)
EXTENDS Rma, Stencil, Json

CONSTANTS NP, S, T, StName, Mutant, Rec

St == CASE StName = "upwind"   -> << [o |-> <<-1>>, w |-> 2], [o |-> <<0>>, w |-> 1] >>
        [] StName = "lap"      -> << [o |-> <<-1>>, w |-> 1], [o |-> <<0>>, w |-> -2], [o |-> <<1>>, w |-> 3] >>
        [] StName = "wide"     -> << [o |-> <<-2>>, w |-> 1], [o |-> <<-1>>, w |-> 2], [o |-> <<0>>, w |-> 1] >>
        [] StName = "wide2"    -> << [o |-> <<-1>>, w |-> 1], [o |-> <<2>>, w |-> 2] >>
        [] StName = "one"      -> << [o |-> <<1>>, w |-> 1] >>

G == NP * S
Dims == <<G>>
R0 == Ranks(NP)
F0 == [i \in 1..G |-> i]

\* the sides that need a window, in the order in which the windows are made
SideSet == {d \in {-1, 1} : Reach(St, 1, d) > 0}
Width(d) == IF Mutant = "ghost" /\ Reach(St, 1, d) > 1 THEN 1 ELSE Reach(St, 1, d)
SideOf(b) == -Sgn(St[b].o[1])
Neigh(r, d) == IF Mutant = "side" THEN (r - d + NP) % NP ELSE (r + d + NP) % NP    \* the rank in direction d

VARIABLES V,          \* side -> window
          in, out,    \* rank -> sequence of its cells
          src, dst,   \* rank -> side -> sequence
          pc, br, it, legal, sched
vars == <<V, in, out, src, dst, pc, br, it, legal, sched>>

Undef == -1000000
MyIn(r) == [i \in 1..S |-> F0[r * S + i]]
BorderOf(F, d) == [k \in 1..Width(d) |-> IF d < 0 THEN F[k] ELSE F[S - Width(d) + k]]

Init ==
   /\ V = [d \in SideSet |-> [NewWin(NP) EXCEPT !.st = [r \in R0 |-> 1], !.size = [r \in R0 |-> Width(d)]]]
   /\ in = [r \in R0 |-> MyIn(r)]
   /\ out = [r \in R0 |-> [i \in 1..S |-> 0]]
   /\ src = [r \in R0 |-> [d \in SideSet |-> BorderOf(MyIn(r), d)]]
   /\ dst = [r \in R0 |-> [d \in SideSet |-> [k \in 1..Width(d) |-> Undef]]]
   /\ pc = [r \in R0 |-> "branch"] /\ br = [r \in R0 |-> 1] /\ it = [r \in R0 |-> 1]
   /\ legal = TRUE /\ sched = << >>

Note(x) == sched' = IF Rec THEN Append(sched, x) ELSE << >>
Quiet == sched' = sched
Go(r, p) == pc' = [pc EXCEPT ![r] = p]

\* enter the opening fence, or go straight to the sum when nothing is fetched
NeedsFetch(r) ==
   /\ SideOf(br[r]) \in SideSet
   /\ (Mutant = "skipself" => ~(r = 0 /\ it[r] = 2))
Branch(r) ==
   /\ pc[r] = "branch"
   /\ IF ~NeedsFetch(r) THEN Go(r, "add") /\ UNCHANGED <<V, legal>>
      ELSE LET d == SideOf(br[r]) IN
           IF Mutant = "noopen" /\ V[d].f[r] > 0 THEN Go(r, "get") /\ UNCHANGED <<V, legal>>
           ELSE /\ legal' = (legal /\ FenceOk(V[d], r, TRUE, FALSE))
                /\ V' = [V EXCEPT ![d] = FenceIn(@, r, TRUE, FALSE)]
                /\ Go(r, "opening")
   /\ Quiet /\ UNCHANGED <<in, out, src, dst, br, it>>
Opened(r) ==
   LET d == SideOf(br[r]) IN
   /\ pc[r] = "opening" /\ FenceMayReturn(V[d], NP, r)
   /\ V' = [V EXCEPT ![d] = FenceOut(@, NP, r)]
   /\ Go(r, "get") /\ Note(r) /\ UNCHANGED <<in, out, src, dst, br, it, legal>>
GetA(r) ==
   LET d == SideOf(br[r])
       t == Neigh(r, -d) IN
   /\ pc[r] = "get"
   /\ legal' = (legal /\ GetOk(V[d], NP, r, t, 0, Width(d)))
   /\ V' = [V EXCEPT ![d] = GetIn(@, r, t, 0, Width(d))]
   /\ dst' = [dst EXCEPT ![r][d] = [k \in 1..Width(d) |-> Undef]]
   /\ Go(r, IF Mutant = "noclose" THEN "add" ELSE IF Mutant = "late" THEN "add" ELSE "close")
   /\ Quiet /\ UNCHANGED <<in, out, src, br, it>>
ExecA(d, g) ==
   /\ g \in V[d].gets /\ MayExec(V[d], g)
   /\ V' = [V EXCEPT ![d] = Exec(@, g)]
   /\ dst' = [dst EXCEPT ![g.o][d] = src[g.t][d]]
   /\ Note(-1 - g.o) /\ UNCHANGED <<in, out, src, pc, br, it, legal>>
Close(r) ==
   LET d == SideOf(br[r])
       pre == Mutant = "preclose" IN
   /\ pc[r] = "close"
   /\ legal' = (legal /\ FenceOk(V[d], r, pre, TRUE))
   /\ V' = [V EXCEPT ![d] = FenceIn(@, r, pre, TRUE)]
   /\ Go(r, "closing") /\ Note(r) /\ UNCHANGED <<in, out, src, dst, br, it>>
Closed(r) ==
   LET d == SideOf(br[r]) IN
   /\ pc[r] = "closing" /\ FenceMayReturn(V[d], NP, r)
   /\ V' = [V EXCEPT ![d] = FenceOut(@, NP, r)]
   /\ Go(r, IF Mutant = "late" THEN "next" ELSE "add") /\ Note(r) /\ UNCHANGED <<in, out, src, dst, br, it, legal>>

\* what branch b adds to local cell i of rank r
Term(r, b, i) ==
   LET o == St[b].o[1]
       gi == r * S + i - 1 + o
       j == IF Mutant = "nowrap" /\ gi < 0 THEN gi ELSE Wrap(gi, G)
       d == SideOf(b)
       t == Neigh(r, -d)
   IN IF j \div S = r /\ j >= 0 THEN St[b].w * in[r][j - r * S + 1]
      ELSE IF d \notin SideSet THEN 0
      ELSE LET base == IF d < 0 THEN t * S ELSE t * S + S - Width(d)
               k == j - base + 1
           IN  IF k \in 1..Width(d) THEN (IF dst[r][d][k] = Undef THEN Undef ELSE St[b].w * dst[r][d][k]) ELSE Undef
Sum(x, y) == IF x = Undef \/ y = Undef THEN Undef ELSE x + y
AddA(r) ==
   /\ pc[r] = "add"
   /\ out' = [out EXCEPT ![r] = [i \in 1..S |-> Sum(IF br[r] = 1 THEN 0 ELSE @[i], Term(r, br[r], i))]]
   /\ Go(r, IF Mutant = "late" /\ NeedsFetch(r) THEN "close" ELSE "next")
   /\ Quiet /\ UNCHANGED <<V, in, src, dst, br, it, legal>>
Next1(r) ==
   /\ pc[r] = "next"
   /\ IF br[r] < Len(St) THEN br' = [br EXCEPT ![r] = @ + 1] /\ Go(r, "branch")
      ELSE br' = [br EXCEPT ![r] = 1] /\ Go(r, IF it[r] = T THEN "done" ELSE "copy")
   /\ Quiet /\ UNCHANGED <<V, in, out, src, dst, it, legal>>
Copy(r) ==
   /\ pc[r] = "copy"
   /\ in' = [in EXCEPT ![r] = out[r]]
   /\ IF Mutant = "stale" THEN UNCHANGED src
      ELSE src' = [src EXCEPT ![r] = [d \in SideSet |-> BorderOf(out[r], d)]]
   /\ legal' = (legal /\ \A d \in SideSet : StoreOk(V[d], r, 0, Width(d)) \/ ~InEpoch(V[d], r))
   /\ it' = [it EXCEPT ![r] = @ + 1]
   /\ Go(r, "branch") /\ Quiet /\ UNCHANGED <<V, out, dst, br>>

Done == \A r \in R0 : pc[r] = "done"
Next == \/ \E r \in R0 : Branch(r) \/ Opened(r) \/ GetA(r) \/ Close(r) \/ Closed(r) \/ AddA(r) \/ Next1(r) \/ Copy(r)
        \/ \E d \in SideSet : \E g \in V[d].gets : ExecA(d, g)
        \/ Done /\ ~Rec /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

RECURSIVE Times(_, _)
Times(F, n) == IF n = 0 THEN F ELSE Times(Apply(Dims, F, St), n - 1)
Legal == legal
Result == \A r \in R0 : pc[r] = "done" => \A i \in 1..S : out[r][i] = Times(F0, T)[r * S + i]
\* prints the schedules of simulated behaviours, to be replayed in the real code
Export == Done /\ Rec => PrintT("SCHED " \o ToJson(sched))
=============================================================================
