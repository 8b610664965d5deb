--------------------------- MODULE Trace_Stencil ----------------------------
(* Histories of distributed filters: after every operation the global field  *)
(* pieced together from all ranks is that of one process.                    *)
(*   new   k, dims, st, ok, np, lds (sub-domain shape seen, << >> if none)   *)
(*   set   k, F, in        apply/copy  k, in, out      sums  k, in, out      *)
(* off counts positions or indices handed to the input function that are not *)
(* those of a cell of the grid.  PROP = C17 judges only the check sums.      *)
(* Every value is a + b 2^-30 in some unit, a and b small: in, out, F and w  *)
(* are the parts a; in2, out2, F2 and w2 the parts b, << >> when all zero.   *)
EXTENDS TraceBase, Stencil, Decomp

VARIABLE fl       \* filter number -> [dims, st, in, out, ok]
Hole == -2000000000
P == IOEnv.PROP
Values == P # "C17"

Free == << >>
\* a stencil the statement covers: along axes, no further than one sub-domain
Covered(f) == Axial(f.st) /\ f.ld # << >> /\ \A j \in 1..Len(f.dims) : MaxReach(f.st, j) <= f.ld[j]
\* beyond the exact range of the recorder nothing is judged
Big(F) == \E i \in 1..Len(F) : Abs(F[i]) > 100000
Whole(f, F) == Len(F) = Prod(f.dims) /\ (\A i \in 1..Len(F) : F[i] # Hole)

\* the finer part of the output, for one of weights and input without finer part
Zeros(F) == [i \in DOMAIN F |-> 0]
Canon(F) == IF \A i \in DOMAIN F : F[i] = 0 THEN << >> ELSE F
Coarse(st) == \A k \in DOMAIN st : st[k].w2 = 0
Fine(f) == IF f.in2 # << >> THEN Canon(Apply(f.dims, f.in2, f.st))
           ELSE IF Coarse(f.st) THEN << >>
           ELSE Canon(Apply(f.dims, f.in, [k \in DOMAIN f.st |-> [o |-> f.st[k].o, w |-> f.st[k].w2]]))
New(ev) == fl' = [x \in DOMAIN fl \cup {ev.k} |->
              IF x = ev.k THEN [dims |-> ev.dims, st |-> ev.st, ld |-> << >>, in |-> << >>, out |-> << >>, in2 |-> << >>, out2 |-> << >>, app |-> FALSE, lost |-> FALSE] ELSE fl[x]]
           /\ (Values => (ev.agree /\ ev.ok = (Decomps(ev.dims, ev.np) # {})))

Set(ev) ==
   LET f == fl[ev.k] IN
   /\ (Values => /\ ev.in = ev.F /\ ev.in2 = ev.F2 /\ ev.off = 0
                 /\ ev.tiles)
   /\ ((Values /\ f.app) => (ev.out = f.out /\ ev.out2 = f.out2))
   /\ fl' = [fl EXCEPT ![ev.k] = [@ EXCEPT !.in = ev.in, !.out = ev.out, !.in2 = ev.in2, !.out2 = ev.out2, !.ld = ev.ld, !.lost = Big(ev.in) \/ Big(ev.in2) \/ ~Whole(f, ev.in)]]

ApplyE(ev) ==
   LET f == fl[ev.k]
       ok == Covered(f) /\ ~f.lost /\ f.in # << >> /\ (f.in2 = << >> \/ Coarse(f.st))
       H == IF ok THEN Fine(f) ELSE ev.out2
       G == IF ok THEN Apply(f.dims, f.in, f.st) ELSE ev.out
   IN
   /\ ((Values /\ ok) => ev.out = G /\ ev.out2 = H /\ ev.in = f.in /\ ev.in2 = f.in2)
   /\ fl' = [fl EXCEPT ![ev.k] = [@ EXCEPT !.in = ev.in, !.out = ev.out, !.in2 = ev.in2, !.out2 = ev.out2, !.app = TRUE, !.lost = ~ok \/ Big(G) \/ Big(H)]]

Copy(ev) ==
   LET f == fl[ev.k] IN
   /\ ((Values /\ ~f.lost /\ f.app) => ev.in = f.out /\ ev.out = f.out /\ ev.in2 = f.out2 /\ ev.out2 = f.out2)
   /\ fl' = [fl EXCEPT ![ev.k] = [@ EXCEPT !.in = ev.in, !.out = ev.out, !.in2 = ev.in2, !.out2 = ev.out2, !.lost = f.lost \/ ~f.app]]

Sums(ev) ==
   LET f == fl[ev.k]
       \* (the sum and all partial sums are exact)
       ok(F, F2) == F # << >> /\ ~Big(F) /\ Whole(f, F)
                    /\ \A i \in DOMAIN F2 : Abs(F[i]) <= 4000000 \div Len(F) /\ Abs(F2[i]) <= 400000000 \div Len(F)
       is(F, F2, a, b) == ok(F, F2) => (a = SumSeq(F) /\ b = (IF F2 = << >> THEN 0 ELSE SumSeq(F2))) IN
   /\ is(f.in, f.in2, ev.in, ev.in2)
   /\ is(f.out, f.out2, ev.out, ev.out2)
   /\ UNCHANGED fl

Step(ev) == \/ ev.e = "new" /\ New(ev)
            \/ ev.e = "none" /\ UNCHANGED fl
            \/ /\ ev.e \in {"set", "apply", "copy", "sums"}
               /\ ev.k \in DOMAIN fl
               /\ \/ ev.e = "set" /\ Set(ev)
                  \/ ev.e = "apply" /\ ApplyE(ev)
                  \/ ev.e = "copy" /\ Copy(ev)
                  \/ ev.e = "sums" /\ Sums(ev)

Init == TInit /\ fl = Free
TNext ==
   /\ More /\ l' = l + 1
   /\ IF Ev.e = "start" THEN skip' = FALSE /\ fl' = Free
      ELSE IF skip THEN skip' = TRUE /\ UNCHANGED fl
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE /\ UNCHANGED fl
Spec == Init /\ [][TNext]_<<tvars, fl>>
=============================================================================
