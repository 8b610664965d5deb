--------------------------- MODULE Trace_MatMult ----------------------------
(* Results of the module procedures and of the program. *)
EXTENDS TraceBase, MatMult
VARIABLES n, m, el, a, b
vars == <<n, m, el, a, b>>
\* the two matrices are filled, with consecutive numbers or with given ones
Ini(ev) == /\ n' = ev.n /\ m' = ev.m /\ el' = ev.el /\ a' = ev.a /\ b' = ev.b
           /\ ev.r <= 1
           /\ ev.a = InitA(ev.n, ev.m) /\ ev.b = InitB(ev.n, ev.m, ev.el)
Fill(ev) == n' = ev.n /\ m' = ev.m /\ el' = ev.el /\ a' = ev.a /\ b' = ev.b
Mul(ev) == /\ ev.r <= 1
           /\ ev.c = Product(n, m, el, a, b)
           /\ ev.a = a /\ ev.b = b           \* the operands are left alone
           /\ UNCHANGED vars
Prog(ev) == /\ UNCHANGED vars
            /\ ev.sizes = Sizes(ev.args)
            /\ ev.success /\ ev.rc = 0
Step(ev) == \/ ev.e = "init" /\ Ini(ev)
            \/ ev.e = "fill" /\ Fill(ev)
            \/ ev.e = "mul" /\ Mul(ev)
            \/ ev.e = "prog" /\ Prog(ev)
Zero == n' = 0 /\ m' = 0 /\ el' = 0 /\ a' = << >> /\ b' = << >>
Init == TInit /\ n = 0 /\ m = 0 /\ el = 0 /\ a = << >> /\ b = << >>
TNext ==
   /\ More /\ l' = l + 1
   /\ IF Ev.e = "start" THEN skip' = FALSE /\ Zero
      ELSE IF skip THEN skip' = TRUE /\ UNCHANGED vars
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][TNext]_<<tvars, vars>>
=============================================================================
