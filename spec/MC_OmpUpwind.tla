---------------------------- MODULE MC_OmpUpwind ----------------------------
(* Design model of the multi-threaded solver: in every time step a           *)
(* work-shared loop copies the field, then another one updates it from the   *)
(* copy, each followed by a barrier.  Every interleaving of single reads and *)
(* writes; iterations are dealt to threads in any way, the same in both      *)
(* loops or not.  VARIANT selects a wrong design, which TLC must refute.     *)
EXTENDS HB, FiniteSets
U == INSTANCE Upwind
CONSTANTS N, T, Steps, VARIANT
VARIABLES f, old, tmp, own, pc, todo, reg, step, C, M, race
vars == <<f, old, tmp, own, pc, todo, reg, step, C, M, race>>
Cell == 1..N
Thr == 1..T
Up(i) == IF i = 1 THEN N ELSE i - 1
Locs == [a : {"f", "o"}, i : Cell] \cup [a : {"tmp"}, i : {1}]
Mine(o, t) == {i \in Cell : o[i] = t}

Init == /\ f = U!Delta0(<<N>>) /\ old = [i \in Cell |-> 0] /\ tmp = 0
        /\ own \in [1..2 -> [Cell -> Thr]]
        /\ pc = [t \in Thr |-> "copy"] /\ todo = [t \in Thr |-> Mine(own[1], t)] /\ step = [t \in Thr |-> 1]
        /\ reg = [t \in Thr |-> [i |-> 0, x |-> 0, y |-> 0, u |-> 0]]
        /\ C = Fork(Clock0(Thr \cup {0}), 0, Thr) /\ M = [x \in Locs |-> NoAccess(Thr \cup {0})] /\ race = FALSE

Touch(t, a, i, k) == LET x == [a |-> a, i |-> i] IN
   /\ race' = (race \/ ~Ordered(M[x], C, t, k))
   /\ M' = [M EXCEPT ![x] = Access(@, C, t, k)]
Pc(t, p) == pc' = [pc EXCEPT ![t] = p]
Set(t, r) == reg' = [reg EXCEPT ![t] = r]

\* loop 1: old[i] = f[i]
Copy1(t) == /\ pc[t] = "copy" /\ todo[t] # {} /\ Pc(t, "copy2")
            /\ LET i == CHOOSE j \in todo[t] : \A k \in todo[t] : j <= k
               IN Set(t, [reg[t] EXCEPT !.i = i, !.x = f[i]]) /\ todo' = [todo EXCEPT ![t] = @ \ {i}] /\ Touch(t, "f", i, "r")
            /\ UNCHANGED <<f, old, tmp, own, step, C>>
Copy2(t) == /\ pc[t] = "copy2" /\ Pc(t, "copy") /\ old' = [old EXCEPT ![reg[t].i] = reg[t].x] /\ Touch(t, "o", reg[t].i, "w")
            /\ UNCHANGED <<f, tmp, own, todo, reg, step, C>>
CopyEnd(t) == /\ pc[t] = "copy" /\ todo[t] = {}
              /\ IF VARIANT = "nowait1" THEN Pc(t, "upd") /\ todo' = [todo EXCEPT ![t] = Mine(own[2], t)] ELSE Pc(t, "bar1") /\ UNCHANGED todo
              /\ UNCHANGED <<f, old, tmp, own, reg, step, C, M, race>>
\* loop 2: f[i] = 2 f[i] - (old[i] - old[up])   (Courant number 1/2, at the next scale)
Upd1(t) == /\ pc[t] = "upd" /\ todo[t] # {} /\ Pc(t, "upd2")
           /\ LET i == CHOOSE j \in todo[t] : \A k \in todo[t] : j <= k
              IN /\ Set(t, [reg[t] EXCEPT !.i = i]) /\ todo' = [todo EXCEPT ![t] = @ \ {i}]
                 /\ IF VARIANT = "shared" THEN tmp' = Up(i) /\ Touch(t, "tmp", 1, "w") ELSE UNCHANGED <<tmp, M, race>>
           /\ UNCHANGED <<f, old, own, step, C>>
Upd2(t) == /\ pc[t] = "upd2" /\ Pc(t, "upd3")
           /\ IF VARIANT = "shared" THEN Set(t, [reg[t] EXCEPT !.u = tmp]) /\ Touch(t, "tmp", 1, "r")
              ELSE Set(t, [reg[t] EXCEPT !.u = Up(reg[t].i)]) /\ UNCHANGED <<M, race>>
           /\ UNCHANGED <<f, old, tmp, own, todo, step, C>>
\* wrong: reading the neighbour from the field itself
Src == IF VARIANT = "inplace" THEN f ELSE old
Upd3(t) == /\ pc[t] = "upd3" /\ Pc(t, "upd4") /\ Set(t, [reg[t] EXCEPT !.x = Src[reg[t].u]])
           /\ Touch(t, IF VARIANT = "inplace" THEN "f" ELSE "o", reg[t].u, "r") /\ UNCHANGED <<f, old, tmp, own, todo, step, C>>
Upd4(t) == /\ pc[t] = "upd4" /\ Pc(t, "upd5") /\ Set(t, [reg[t] EXCEPT !.y = old[reg[t].i]])
           /\ Touch(t, "o", reg[t].i, "r") /\ UNCHANGED <<f, old, tmp, own, todo, step, C>>
Upd5(t) == /\ pc[t] = "upd5" /\ Pc(t, "upd") /\ f' = [f EXCEPT ![reg[t].i] = 2 * @ - (reg[t].y - reg[t].x)]
           /\ Touch(t, "f", reg[t].i, "w") /\ UNCHANGED <<old, tmp, own, todo, reg, step, C>>
Again(t) == IF step[t] < Steps THEN Pc(t, "copy") /\ step' = [step EXCEPT ![t] = @ + 1] /\ todo' = [todo EXCEPT ![t] = Mine(own[1], t)]
            ELSE Pc(t, "end") /\ UNCHANGED <<step, todo>>
UpdEnd(t) == /\ pc[t] = "upd" /\ todo[t] = {}
             /\ IF VARIANT = "nowait2" THEN Again(t) ELSE Pc(t, "bar2") /\ UNCHANGED <<todo, step>>
             /\ UNCHANGED <<f, old, tmp, own, reg, C, M, race>>
Barrier1 == /\ \A t \in Thr : pc[t] = "bar1"
            /\ pc' = [t \in Thr |-> "upd"] /\ todo' = [t \in Thr |-> Mine(own[2], t)] /\ C' = Bar(C, Thr)
            /\ UNCHANGED <<f, old, tmp, own, reg, step, M, race>>
Barrier2 == /\ \A t \in Thr : pc[t] = "bar2"
            /\ IF step[1] < Steps
                 THEN pc' = [t \in Thr |-> "copy"] /\ todo' = [t \in Thr |-> Mine(own[1], t)] /\ step' = [t \in Thr |-> step[t] + 1]
                 ELSE pc' = [t \in Thr |-> "end"] /\ UNCHANGED <<todo, step>>
            /\ C' = Bar(C, Thr) /\ UNCHANGED <<f, old, tmp, own, reg, M, race>>
Ended == \A t \in Thr : pc[t] = "end"
Next == Barrier1 \/ Barrier2 \/ (Ended /\ UNCHANGED vars)
        \/ \E t \in Thr : Copy1(t) \/ Copy2(t) \/ CopyEnd(t) \/ Upd1(t) \/ Upd2(t) \/ Upd3(t) \/ Upd4(t) \/ Upd5(t) \/ UpdEnd(t)
Spec == Init /\ [][Next]_vars

NoRace == ~race
Result == Ended => f = U!Advance(<<N>>, U!Delta0(<<N>>), <<1>>, 2, Steps)
Inv == NoRace /\ Result
=============================================================================
