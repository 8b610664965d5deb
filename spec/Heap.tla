------------------------------- MODULE Heap ---------------------------------
(* Dynamic memory.  A heap is a sequence of blocks that were handed out; a   *)
(* block remembers its size, the lowest and one past the highest of its      *)
(* bytes that were touched while it was held (both 0 when none was), how     *)
(* often it was touched after it was given back, and how often it was given  *)
(* back.  Blocks are never handed out twice.                                 *)
EXTENDS Integers, Sequences

Fresh(n) == [n |-> n, lo |-> 0, hi |-> 0, late |-> 0, back |-> 0]
Alloc(H, n) == Append(H, Fresh(n))
Touch(H, b, x, y) ==          \* bytes x .. y - 1 of block b
   [H EXCEPT ![b] = IF @.back > 0 THEN [@ EXCEPT !.late = @ + 1]
                    ELSE IF @.lo = 0 /\ @.hi = 0 THEN [@ EXCEPT !.lo = x, !.hi = y]
                    ELSE [@ EXCEPT !.lo = IF x < @ THEN x ELSE @, !.hi = IF y > @ THEN y ELSE @]]
Return(H, b) == [H EXCEPT ![b].back = @ + 1]

\* only what is held is touched, and it is given back once at most
Kept(b) == b.lo >= 0 /\ b.hi <= b.n /\ b.late = 0 /\ b.back <= 1
RECURSIVE Held(_)
Held(H) == IF H = << >> THEN 0 ELSE (IF Head(H).back = 0 THEN Head(H).n ELSE 0) + Held(Tail(H))
\* what is held at the same point of a history that is repeated does not grow: the first rounds may fill what is kept for ever
\* (an interpreter keeps a little of its own here and there: the slack)
SteadyWithin(h, slack) == Len(h) < 4 \/ h[Len(h)] <= h[(Len(h) + 1) \div 2] + slack
Steady(h) == SteadyWithin(h, 0)
=============================================================================
