---------------------------- MODULE Trace_Upwind ----------------------------
(* Histories of the real solvers.  The harness reports the field as integers *)
(* over the scale S together with the largest rounding residual r, in        *)
(* thousandths of a unit.                                                    *)
(*   PROP = "field": the field is the one of the specification               *)
(*   PROP = "stats": the statistics are those of the reported field          *)
EXTENDS TraceBase, Upwind

VARIABLES dims, F, S,
          ok    \* the reported field is exact at its scale
vars == <<dims, F, S, ok>>
P == IOEnv.PROP

\* a field gathered from several processes, where there is one
Same(ev) == (P = "field" /\ "G" \in DOMAIN ev) => ev.G = ev.F
New(ev) ==
   /\ dims' = ev.dims /\ S' = 1 /\ F' = ev.F /\ ok' = (ev.r <= 1)
   /\ Same(ev)
   /\ (P = "field" => (ev.r <= 1 /\ ev.F = Delta0(ev.dims)))
Adv(ev) ==
   /\ UNCHANGED dims /\ ok' = (ev.r <= 1)
   /\ Same(ev)
   /\ S' = S * Pow(ev.D, ev.n)
   /\ ev.S = S'
   /\ F' = ev.F
   /\ (P = "field" => (ev.r <= 1 /\ ev.F = Advance(dims, F, ev.c, ev.D, ev.n)))
\* the field of a whole program run, from the initial condition
Fin(ev) ==
   /\ UNCHANGED vars
   /\ (P = "field" => (ev.r <= 1 /\ ev.F = Advance(ev.dims, Delta0(ev.dims), ev.c, ev.D, ev.n)))
\* the statistics are only compared when the field is small integers over S
Usable == \A i \in DOMAIN F : Abs(F[i]) <= 46000 \div Len(F)
\* the sum in thousands and the rest, for which the integers of TLC suffice
Split(s) == LET t == SumSeq([i \in DOMAIN s |-> s[i] \div 1000])
                u == SumSeq([i \in DOMAIN s |-> s[i] % 1000])
            IN <<t + u \div 1000, u % 1000>>
\* the reported sum, scaled by S
Sum(ev) ==
   /\ UNCHANGED vars
   /\ ((P = "stats" /\ ok /\ Len(F) <= 1000 /\ (LET t == Split(F)[1] IN -1900000 <= t /\ t <= 1900000))
          => (ev.r <= 1 /\ Split(<<ev.v>>) = Split(F)))
\* the square of the reported spread, scaled by (S ntot)^2
Std(ev) ==
   /\ UNCHANGED vars
   /\ ((P = "stats" /\ ok /\ Usable) => (ev.r <= 1 /\ ev.v = ScaledVariance(F)))
\* after many steps: the spread is at most the range of the field, and at least
\* range / sqrt(2 ntot), up to two units
Spread(ev) ==
   /\ UNCHANGED vars
   /\ (P = "stats" =>
         /\ ev.std >= 0 /\ ev.std <= ev.range + 2
         /\ (ev.range <= 30000 /\ ev.std <= 1000) => 2 * Prod(dims) * (ev.std + 2) * (ev.std + 2) >= ev.range * ev.range)

Step(ev) == \/ ev.e = "new" /\ New(ev)
            \/ ev.e = "adv" /\ Adv(ev)
            \/ ev.e = "fin" /\ Fin(ev)
            \/ ev.e = "sum" /\ Sum(ev)
            \/ ev.e = "std" /\ Std(ev)
            \/ ev.e = "spread" /\ Spread(ev)

Reset == dims' = << >> /\ F' = << >> /\ S' = 1 /\ ok' = TRUE
Init == TInit /\ dims = << >> /\ F = << >> /\ S = 1 /\ ok = TRUE
TNext ==
   /\ More /\ l' = l + 1
   /\ IF Ev.e = "start" THEN skip' = FALSE /\ Reset
      ELSE IF skip THEN skip' = TRUE /\ UNCHANGED vars
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][TNext]_<<tvars, vars>>
=============================================================================
