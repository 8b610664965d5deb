-------------------------- MODULE Trace_UpwindLong --------------------------
(* Long histories of the real solvers: as in Trace_Upwind, but the field     *)
(* times D^n is computed in whole numbers of any size, and every cell, also  *)
(* one with a very small content, is compared to nine digits.                *)
(*   new   dims                                                              *)
(*   lead  n steps of Courant numbers c / 10; cell i holds m[i] 10^(x[i]-9)  *)
EXTENDS TraceBase, Base, Whole
U == INSTANCE Upwind
VARIABLES dims, F, n
vars == <<dims, F, n>>

RECURSIVE Longer(_, _, _, _, _)
Longer(G, up, c, D, k) ==
   IF k = 0 THEN G
   ELSE LET r == D - SumSeq([j \in DOMAIN c |-> Abs(c[j])])
        IN Longer(TLCEval([i \in DOMAIN G |-> Combine(r, G[i], [j \in DOMAIN c |-> WTimes(G[up[j][i]], Abs(c[j]))], 1, 0)]), up, c, D, k - 1)

New(ev) == dims' = ev.dims /\ n' = 0 /\ F' = [i \in 1..Prod(ev.dims) |-> IF i = 1 THEN <<1>> ELSE << >>]

LeadOk(ev, G, k) ==
   /\ Len(ev.m) = Len(G)
   /\ \A i \in DOMAIN G :
         LET g == Strip(G[i])
         IN IF g = << >> THEN ev.m[i] = 0
            ELSE LET q == Lead(g) IN Near(ev.m[i], ev.x[i], [m |-> q.m, x |-> q.x - k], 4)
LeadE(ev) ==
   /\ UNCHANGED dims /\ n' = n + ev.n
   /\ F' = TLCEval(Longer(F, U!UpTable(dims, ev.c), ev.c, 10, ev.n))
   /\ LeadOk(ev, F', n') = TRUE

Step(ev) == \/ ev.e = "new" /\ New(ev)
            \/ ev.e = "lead" /\ LeadE(ev)
Init == TInit /\ dims = << >> /\ F = << >> /\ n = 0
TNext ==
   /\ More /\ l' = l + 1
   /\ IF Ev.e = "start" THEN skip' = FALSE /\ dims' = << >> /\ F' = << >> /\ n' = 0
      ELSE IF skip THEN skip' = TRUE /\ UNCHANGED vars
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][TNext]_<<tvars, vars>>
=============================================================================
