-------------------------------- MODULE Rma ---------------------------------
(* What MPI guarantees and demands of one-sided communication with fences.   *)
(* A window is a record over the ranks 0..np-1:                              *)
(*   st    0 not created, 1 live, 2 freed     size  exposed units            *)
(*   f     fences entered so far              in    inside a fence call      *)
(*   as    the assertions <<noprecede, nosucceed>> of the i-th fence         *)
(*   gets  transfers [o, t, ep, lo, hi, id]: origin, target, epoch, range    *)
(*   done  the transfers that have taken place                               *)
(*   sto   stores [t, ep, lo, hi] into exposed memory during an open epoch   *)
(* Epoch ep of a rank begins with its ep-th fence and ends when its next     *)
(* fence returns.  A fence that ends no epoch (noprecede) does not wait for  *)
(* the other ranks; a transfer can take place once its target has entered    *)
(* the fence that opens the epoch, and must have when a fence that ends the  *)
(* epoch returns anywhere: such a fence waits for all ranks.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ranks(np) == 0 .. (np - 1)

NewWin(np) == [st   |-> [r \in Ranks(np) |-> 0],
               size |-> [r \in Ranks(np) |-> 0],
               mem  |-> [r \in Ranks(np) |-> 0],
               f    |-> [r \in Ranks(np) |-> 0],
               in   |-> [r \in Ranks(np) |-> FALSE],
               as   |-> << >>, gets |-> {}, done |-> {}, sto |-> {}, n |-> 0]

Overlap(a, b, c, d) == a < d /\ c < b

\* r is in an access and exposure epoch of the window (no fence call going on)
InEpoch(v, r) == v.st[r] = 1 /\ ~v.in[r] /\ v.f[r] > 0 /\ ~v.as[v.f[r]][2]

-------------------------------------------------------------------------------
(* entering a fence *)
FenceOk(v, r, pre, ns) ==
   LET k == v.f[r] + 1 IN
   /\ v.st[r] = 1
   /\ ~v.in[r]
   /\ (Len(v.as) >= k => v.as[k] = <<pre, ns>>)               \* the ranks agree on the assertions
   /\ (pre => ~ \E g \in v.gets : g.o = r /\ g.ep = k - 1)    \* nothing of mine precedes
   /\ (pre => ~ \E g \in v.gets : g.t = r /\ g.ep = k - 1)
FenceIn(v, r, pre, ns) ==
   LET k == v.f[r] + 1 IN
   IF v.st[r] # 1 THEN v
   ELSE [v EXCEPT !.f[r] = k, !.in[r] = TRUE, !.as = IF Len(@) >= k THEN @ ELSE Append(@, <<pre, ns>>)]

(* when the fence may return *)
Drained(v, k) == \A g \in v.gets : g.ep < k => g.id \in v.done
FenceMayReturn(v, np, r) ==
   /\ v.in[r]
   /\ (~v.as[v.f[r]][1] => (\A q \in Ranks(np) : v.f[q] >= v.f[r]) /\ Drained(v, v.f[r]))
MinF(v, np) == CHOOSE m \in {v.f[r] : r \in Ranks(np)} : \A r \in Ranks(np) : m <= v.f[r]
\* forget what can no longer matter
FenceOut(v, np, r) ==
   LET u == [v EXCEPT !.in[r] = FALSE]
       m == MinF(u, np)
       g == {x \in u.gets : x.ep >= m - 1 \/ x.id \notin u.done}
   IN  [u EXCEPT !.gets = g, !.done = {x \in @ : \E y \in g : y.id = x}, !.sto = {x \in @ : x.ep >= m - 1}]

-------------------------------------------------------------------------------
(* issuing a get: inside an epoch, inside the target's window, and not of    *)
(* memory the target stores into in the same epoch                           *)
GetOk(v, np, r, t, d, n) ==
   /\ InEpoch(v, r)
   /\ t \in Ranks(np)
   /\ v.st[t] = 1
   /\ d >= 0 /\ n >= 0 /\ d + n <= v.size[t]
   /\ ~ \E s \in v.sto : s.t = t /\ s.ep = v.f[r] /\ Overlap(s.lo, s.hi, d, d + n)
GetIn(v, r, t, d, n) ==
   [v EXCEPT !.gets = @ \cup {[o |-> r, t |-> t, ep |-> v.f[r], lo |-> d, hi |-> d + n, id |-> v.n + 1]}, !.n = @ + 1]

(* a transfer takes place *)
MayExec(v, g) == g.id \notin v.done /\ v.f[g.t] >= g.ep
Exec(v, g) == [v EXCEPT !.done = @ \cup {g.id}]

(* the target stores into its exposed memory *)
StoreOk(v, r, lo, hi) ==
   ~ \E g \in v.gets : g.t = r /\ g.ep = v.f[r] /\ Overlap(lo, hi, g.lo, g.hi)
StoreIn(v, r, lo, hi) ==
   IF v.f[r] > 0 /\ v.st[r] = 1 THEN [v EXCEPT !.sto = @ \cup {[t |-> r, ep |-> v.f[r], lo |-> lo, hi |-> hi]}] ELSE v

-------------------------------------------------------------------------------
(* the ranks make the same collective calls in the same order                *)
CollOk(order, idx, r, s) == Len(order) > idx[r] => order[idx[r] + 1] = s
CollOrder(order, idx, r, s) == IF Len(order) > idx[r] THEN order ELSE Append(order, s)
=============================================================================
