---------------------------- MODULE MC_MultiIter ----------------------------
(* All boxes of up to MaxND axes with sides up to MaxDim and low corners up  *)
(* to MaxLo: every reachable state of every short history.                   *)
EXTENDS MultiIter
CONSTANTS MaxND, MaxDim, MaxLo, Mutant

LoSet == UNION {[1..nd -> 0..MaxLo] : nd \in 1..MaxND}
Hi(l, d) == Add(l, d)
BuildAny == \E l \in LoSet : \E d \in [1..Len(l) -> 1..MaxDim] : \E r \in BOOLEAN :
               Build(l, Hi(l, d), r)
Init == \E l \in LoSet : \E d \in [1..Len(l) -> 1..MaxDim] : \E r \in BOOLEAN :
           lo = l /\ hi = Hi(l, d) /\ rm = r /\ pos = 0
\* mutant: a rebuild that keeps the position of the earlier use
BadBuild == Mutant = "keep_pos" /\ \E l \in LoSet : \E d \in [1..Len(l) -> 1..MaxDim] : \E r \in BOOLEAN :
               lo' = l /\ hi' = Hi(l, d) /\ rm' = r /\ pos' = pos
MNext == \/ Mutant = "none" /\ BuildAny
         \/ BadBuild
         \/ Begin \/ Next \/ \E p \in 0..(N - 1) : Move(p)
Spec == Init /\ [][MNext]_vars
PosOK == pos \in 0..N
Inv == PosOK /\ InverseOK /\ VisitsOK /\ OrderOK
=============================================================================
