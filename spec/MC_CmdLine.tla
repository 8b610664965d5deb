---------------------------- MODULE MC_CmdLine ------------------------------
(* Design model: a scanner that validates and then reads the arguments from  *)
(* left to right, for every short argument list, against CmdLine.            *)
EXTENDS CmdLine, TLC
CONSTANTS MaxLen, VARIANT
A == <<45, 97>>   B == <<45, 98>>   C == <<45, 99>>   Z == <<45, 122>>
Opts == (A :> [k |-> "i", v |-> 7, h |-> << >>]) @@ (B :> [k |-> "b", v |-> FALSE, h |-> << >>])
        @@ (C :> [k |-> "d", v |-> Real(FALSE, <<1, 5>>, 1), h |-> << >>]) @@ (HelpName :> [k |-> "b", v |-> FALSE, h |-> << >>])
Tok == {A, B, C, Z, HelpName, <<51>>, <<45, 52>>, <<45, 46, 53>>, <<49, 101, 50>>}

VARIABLES args, i, cur, ok, pend
vars == <<args, i, cur, ok, pend>>
Lists == UNION {[1..n -> Tok] : n \in 0..MaxLen}
Init == /\ args \in Lists
        /\ WellFormed(Opts, args)
        /\ cur = Opts /\ i = 1 /\ pend = << >>
        /\ ok = (VARIANT = "noscan" \/ Accepts(Opts, args))
\* read one argument
Next == /\ ok /\ i <= Len(args)
        /\ LET a == args[i]
           IN IF pend # << >>
                THEN /\ cur' = [cur EXCEPT ![pend].v = Decode(cur[pend].k, a)]
                     /\ pend' = << >> /\ ok' = ok
              ELSE IF a \in DOMAIN cur
                THEN IF cur[a].k = "b"
                       THEN /\ cur' = [cur EXCEPT ![a].v = IF VARIANT = "set" THEN TRUE ELSE ~cur[a].v]
                            /\ UNCHANGED <<pend, ok>>
                       ELSE pend' = a /\ UNCHANGED <<cur, ok>>
              ELSE /\ ok' = ~OptionLike(a) /\ UNCHANGED <<cur, pend>>
        /\ i' = i + 1 /\ UNCHANGED args
Spec == Init /\ [][Next]_vars
Done == ~ok \/ i > Len(args)
Inv == Done => /\ ok = Accepts(Opts, args)
               /\ cur = Parsed(Opts, args)
=============================================================================
