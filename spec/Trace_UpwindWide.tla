-------------------------- MODULE Trace_UpwindWide --------------------------
(* Histories of the real solvers on grids of very many cells.  As in         *)
(* Trace_Upwind, but the field is given by the cells that are not zero: a    *)
(* function from their positions (from 0) to numerators over S.              *)
(*   new   dims, len cells; I are the positions and F the numerators         *)
(*   adv   n steps of Courant numbers c / D                                  *)
(* GI, G: the same for the field gathered from several processes, if any     *)
EXTENDS TraceBase, Base, TLC
VARIABLES dims, F, S
vars == <<dims, F, S>>

At(G, i) == IF i \in DOMAIN G THEN G[i] ELSE 0
\* the cell the flow along axis j comes from (d = 1: goes to)
Next(ds, i, j, c, d) == IF c = 0 THEN i ELSE Shift(ds, i, UnitOff(Len(ds), j, d * Sgn(c)), TRUE)
Up(ds, i, j, c) == Next(ds, i, j, c, -1)
Down(ds, i, j, c) == Next(ds, i, j, c, 1)
Pruned(G) == [i \in {k \in DOMAIN G : G[k] # 0} |-> G[i]]
StepW(ds, G, c, D) ==
   LET D0 == DOMAIN G \cup {Down(ds, i, j, c[j]) : i \in DOMAIN G, j \in DOMAIN c}
       r == D - SumSeq([j \in DOMAIN c |-> Abs(c[j])])
   IN Pruned(TLCEval([i \in D0 |-> r * At(G, i) + SumSeq([j \in DOMAIN c |-> Abs(c[j]) * At(G, Up(ds, i, j, c[j]))])]))
RECURSIVE Far(_, _, _, _, _)
Far(ds, G, c, D, n) == IF n = 0 THEN G ELSE Far(ds, TLCEval(StepW(ds, G, c, D)), c, D, n - 1)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)

\* (a cell left with nothing may hold a rounding error: r bounds it)
Is(I, V, G) == /\ \A k \in DOMAIN I : At(G, I[k]) = V[k]
               /\ Cardinality({k \in DOMAIN I : V[k] # 0}) = Cardinality(DOMAIN G)
Shown(ev, G) == /\ ev.r <= 1 /\ ev.len = Prod(dims') /\ Is(ev.I, ev.F, G)
                /\ ("G" \in DOMAIN ev => Is(ev.GI, ev.G, G))
New(ev) == /\ dims' = ev.dims /\ S' = 1 /\ F' = [i \in {0} |-> 1]
           /\ Shown(ev, F') = TRUE
Adv(ev) == /\ UNCHANGED dims /\ S' = S * Pow(ev.D, ev.n) /\ ev.S = S'
           /\ F' = Far(dims, F, ev.c, ev.D, ev.n)
           /\ Shown(ev, F') = TRUE

Step(ev) == \/ ev.e = "new" /\ New(ev)
            \/ ev.e = "adv" /\ Adv(ev)
Init == TInit /\ dims = << >> /\ F = << >> /\ S = 1
TNext ==
   /\ More /\ l' = l + 1
   /\ IF Ev.e = "start" THEN skip' = FALSE /\ dims' = << >> /\ F' = << >> /\ S' = 1
      ELSE IF skip THEN skip' = TRUE /\ UNCHANGED vars
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][TNext]_<<tvars, vars>>
=============================================================================
