---------------------------- MODULE Trace_Decomp ----------------------------
(* Validates what the real decomposition object shows after each build.      *)
(* The part of the specification that is enforced is chosen by PROP.         *)
EXTENDS TraceBase, Decomp

VARIABLES dims, p, dec, tab
vars == <<dims, p, dec, tab>>

P == IOEnv.PROP
On(x) == P = x \/ P = "all"

\* build: found or failed, whatever was built before
Build(ev) ==
   LET cands  == Decomps(ev.dims, ev.p)
       exists == cands # {}
   IN /\ dims' = ev.dims /\ p' = ev.p
      /\ tab' = << >>
      /\ dec' = ev.dec
      /\ (On("C03") => (ev.ok = exists))
      /\ (On("C03") => IF exists THEN ev.dec \in cands ELSE ev.dec = << >>)
      /\ ((On("C04") /\ exists /\ ev.ok) => (ev.dec \in cands /\ Optimal(ev.dims, ev.p, ev.dec)))

Boxes(ev) ==
   /\ dec # << >>
   /\ tab' = ev.lo
   /\ (On("C03") => /\ IsTiling(dims, dec, ev.lo)
                    /\ ev.hi = [r \in 1..Len(ev.lo) |-> Add(ev.lo[r], LocalDims(dims, dec))])
   /\ UNCHANGED <<dims, p, dec>>

\* one line per direction: the neighbour of every rank
Neigh(ev) ==
   /\ dec # << >>
   /\ (On("C05") => /\ Len(ev.to) = p
                    /\ \A r \in 0..(p - 1) :
                         LET n == ev.to[r + 1]
                             ld == LocalDims(dims, dec)
                         IN /\ n \in 0..(p - 1)
                            /\ tab[n + 1] = [i \in 1..Len(dims) |-> Wrap(tab[r + 1][i] + ev.dir[i] * ld[i], dims[i])]
                    /\ Cardinality({ev.to[r] : r \in 1..p}) = p)
   /\ UNCHANGED vars

Step(ev) == \/ ev.e = "build" /\ Build(ev)
            \/ ev.e = "boxes" /\ Boxes(ev)
            \/ ev.e = "neigh" /\ Neigh(ev)

Reset == dims' = << >> /\ p' = 0 /\ dec' = << >> /\ tab' = << >>
Init == TInit /\ dims = << >> /\ p = 0 /\ dec = << >> /\ tab = << >>
TNext ==
   /\ More /\ l' = l + 1
   /\ IF Ev.e = "start" THEN skip' = FALSE /\ Reset
      ELSE IF skip THEN skip' = TRUE /\ UNCHANGED vars
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][TNext]_<<tvars, vars>>
=============================================================================
