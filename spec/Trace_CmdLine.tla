---------------------------- MODULE Trace_CmdLine ---------------------------
(* Histories of the real parser. *)
EXTENDS TraceBase, CmdLine
VARIABLES opts
vars == <<opts>>
Base0 == HelpName :> [k |-> "b", v |-> FALSE, h |-> <<80, 114, 105, 110, 116>>]

Decl(ev) == opts' = (ev.n :> [k |-> ev.k, v |-> ev.v, h |-> ev.h]) @@ opts
ParseStep(ev) ==
   /\ (WellFormed(opts, ev.args) \/ ~Accepts(opts, ev.args)) = TRUE
   /\ ev.ok = Accepts(opts, ev.args)
   /\ opts' = Parsed(opts, ev.args)
Read(ev) ==
   /\ UNCHANGED opts
   /\ IF ev.n \in DOMAIN opts
        THEN opts[ev.n].k = ev.k /\ ev.v = opts[ev.n].v
        ELSE ev.s
\* every option is in the help text with its description
HelpOk(ev) ==
   /\ \A n \in DOMAIN opts : \E i \in 1..Len(ev.lines) : Contains(ev.lines[i], n) /\ Contains(ev.lines[i], opts[n].h)
   /\ \E i \in 1..Len(ev.lines) : Contains(ev.lines[i], ev.purpose)

Help(ev) == UNCHANGED opts /\ HelpOk(ev) = TRUE

Step(ev) == \/ ev.e = "decl" /\ Decl(ev)
            \/ ev.e = "parse" /\ ParseStep(ev)
            \/ ev.e = "read" /\ Read(ev)
            \/ ev.e = "help" /\ Help(ev)
Init == TInit /\ opts = Base0
TNext ==
   /\ More /\ l' = l + 1
   /\ IF Ev.e = "start" THEN skip' = FALSE /\ opts' = Base0
      ELSE IF skip THEN skip' = TRUE /\ UNCHANGED vars
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][TNext]_<<tvars, vars>>
=============================================================================
