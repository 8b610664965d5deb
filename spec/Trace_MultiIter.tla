-------------------------- MODULE Trace_MultiIter ---------------------------
(* Validates histories of the real iterator against MultiIter.               *)
EXTENDS TraceBase, MultiIter

S(ev, f) == ev[f]
\* observation of the state after the event: number of terms, and (unless the
\* position is past the end) the index set and its flat position
Obs(ev) == /\ ev.n = N'
           /\ pos' < N' => /\ ev.ix = IndicesAt(pos)'
                           /\ ev.flat = pos'
                           /\ ev.flati = pos'

Step(ev) ==
   \/ ev.e = "build" /\ Build(ev.lo, ev.hi, ev.rm) /\ Obs(ev)
   \/ ev.e = "begin" /\ Begin /\ Obs(ev)
   \/ ev.e = "next" /\ Next /\ Obs(ev)
   \/ ev.e = "move" /\ Move(ev.p) /\ Obs(ev)
   \* a complete walk: the index sets in the order of the visits
   \/ /\ ev.e = "walk"
      /\ ev.seq = [p \in 1..N |-> IndicesAt(p - 1)]
      /\ ev.flats = [p \in 1..N |-> p - 1]
      /\ pos' = N /\ UNCHANGED <<lo, hi, rm>>
   \/ ev.e = "ends" /\ ev.lo = lo /\ ev.hi = hi /\ UNCHANGED vars
   \* boxes with more elements than TLC can count: pos is a sequence of limbs
   \/ /\ ev.e = "far"
      /\ lo' = ev.lo /\ hi' = ev.hi /\ rm' = ev.rm /\ UNCHANGED pos
      /\ LET d == Sub(ev.hi, ev.lo)
         IN /\ ev.n = LimbsProd(d, Len(d))
            /\ \A k \in DOMAIN ev.at :
                  /\ InBox(ev.at[k].ix, ev.lo, ev.hi)
                  /\ LimbsFlatten(d, Sub(ev.at[k].ix, ev.lo), ev.rm) = ev.at[k].p
                  /\ ev.at[k].flat = ev.at[k].p

Init == TInit /\ lo = <<0>> /\ hi = <<1>> /\ rm = TRUE /\ pos = 0

TNext ==
   /\ More
   /\ l' = l + 1
   /\ IF Ev.e = "start"
        THEN skip' = FALSE /\ lo' = <<0>> /\ hi' = <<1>> /\ rm' = TRUE /\ pos' = 0
      ELSE IF skip THEN skip' = TRUE /\ UNCHANGED vars
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE /\ UNCHANGED vars

Spec == Init /\ [][TNext]_<<tvars, vars>>
=============================================================================
