----------------------------- MODULE Trace_Rma ------------------------------
(* All the MPI calls of all the ranks of a world, in the order in which they *)
(* happened.  PROP = C02: one-sided communication stays inside the epochs    *)
(* MPI asks for, collective calls match, nothing gets stuck.  PROP = C16:    *)
(* windows and buffers are acquired and released exactly once.               *)
EXTENDS TraceBase, Rma, Stencil

VARIABLES np, W, order, idx, at, live, mem, cur, fil, wk, cand
vars == <<np, W, order, idx, at, live, mem, cur, fil, wk, cand>>
\* at: the call a rank is in; live: rank has initialised and not finalised
\* mem: rank -> set of [a, k] live buffers and the filter they belong to
\* cur: rank -> filter operated on; wk: window -> filter it belongs to
\* fil: filter -> [st, nd, F]; cand: window -> sides it may serve

P == IOEnv.PROP
C02 == P = "C02"
C16 == P = "C16"
R == Ranks(np)

Coll(ev, name) ==
   /\ live[ev.r] /\ at[ev.r] = "run"
   /\ CollOk(order, idx, ev.r, ev.s)
   /\ order' = CollOrder(order, idx, ev.r, ev.s)
   /\ idx' = [idx EXCEPT ![ev.r] = @ + 1]
   /\ at' = [at EXCEPT ![ev.r] = name]

KnownW(w) == w \in DOMAIN W

InitE(ev) == /\ ~live[ev.r] /\ live' = [live EXCEPT ![ev.r] = TRUE] /\ UNCHANGED <<np, W, order, idx, at, mem, cur, fil, wk, cand>>

Finalize(ev) ==
   /\ Coll(ev, "finalize")
   /\ (C16 => mem[ev.r] = {} /\ (\A w \in DOMAIN W : W[w].st[ev.r] # 1))
   /\ (C02 => \A w \in DOMAIN W : \A g \in W[w].gets : g.o = ev.r => g.id \in W[w].done)
   /\ live' = [live EXCEPT ![ev.r] = FALSE]
   /\ UNCHANGED <<np, W, mem, cur, fil, wk, cand>>

Alloc(ev) == /\ live[ev.r] /\ mem' = [mem EXCEPT ![ev.r] = @ \cup {[a |-> ev.a, k |-> cur[ev.r]]}]
             /\ UNCHANGED <<np, W, order, idx, at, live, cur, fil, wk, cand>>
FreeE(ev) == /\ (C16 => /\ live[ev.r]
                        /\ \E m \in mem[ev.r] : m.a = ev.a
                        /\ ~ \E w \in DOMAIN W : W[w].st[ev.r] = 1 /\ W[w].mem[ev.r] = ev.a)
             /\ mem' = [mem EXCEPT ![ev.r] = {m \in @ : m.a # ev.a}]
             /\ UNCHANGED <<np, W, order, idx, at, live, cur, fil, wk, cand>>

\* the sides of the sub-domain that the stencil of a filter needs: <<axis, direction>>
Sides(f) == {s \in (1..f.nd) \X {-1, 1} : Reach(f.st, s[1], s[2]) > 0}
OwnW(k, r) == {w \in DOMAIN W : wk[w] = k /\ W[w].st[r] = 1}

Create(ev) ==
   LET v == IF KnownW(ev.w) THEN W[ev.w] ELSE NewWin(np)
       u == [v EXCEPT !.st[ev.r] = 1, !.size[ev.r] = ev.n, !.mem[ev.r] = ev.a]
       k == cur[ev.r] IN
   /\ Coll(ev, "create")
   /\ (C16 => /\ v.st[ev.r] = 0 /\ ev.n >= 0
              /\ ev.known                                       \* exposes memory that is allocated
              /\ (KnownW(ev.w) => wk[ev.w] = k)
              /\ ((k \in DOMAIN fil /\ Axial(fil[k].st)) => Cardinality(OwnW(k, ev.r) \cup {ev.w}) <= Cardinality(Sides(fil[k]))))
   /\ W' = [w \in DOMAIN W \cup {ev.w} |-> IF w = ev.w THEN u ELSE W[w]]
   /\ wk' = [w \in DOMAIN W \cup {ev.w} |-> IF w = ev.w THEN k ELSE wk[w]]
   /\ cand' = [w \in DOMAIN W \cup {ev.w} |-> IF w \in DOMAIN W THEN cand[w] ELSE IF k \in DOMAIN fil THEN Sides(fil[k]) ELSE {}]
   /\ UNCHANGED <<np, live, mem, cur, fil>>

WFree(ev) ==
   /\ Coll(ev, "wfree")
   /\ ((C16 \/ C02) => KnownW(ev.w))
   /\ (KnownW(ev.w) => /\ W[ev.w].st[ev.r] = 1
                       /\ ~W[ev.w].in[ev.r]
                       /\ (C02 => \A g \in W[ev.w].gets : (g.o = ev.r \/ g.t = ev.r) => g.id \in W[ev.w].done))
   /\ W' = IF KnownW(ev.w) THEN [W EXCEPT ![ev.w].st[ev.r] = 2] ELSE W
   /\ UNCHANGED <<np, live, mem, cur, fil, wk, cand>>

Fence(ev) ==
   /\ Coll(ev, "fence")
   /\ KnownW(ev.w)
   /\ (C02 => FenceOk(W[ev.w], ev.r, ev.pre, ev.ns) /\ (ev.nst => ~ev.wr))     \* (asserts that it stored nothing since its last fence)
   /\ W[ev.w].st[ev.r] = 1
   /\ W' = [W EXCEPT ![ev.w] = FenceIn(@, ev.r, ev.pre, ev.ns)]
   /\ UNCHANGED <<np, live, mem, cur, fil, wk, cand>>

Other(ev) == /\ Coll(ev, ev.e) /\ UNCHANGED <<np, W, live, mem, cur, fil, wk, cand>>

\* a call returns
Ret(ev) ==
   /\ at[ev.r] # "run"
   /\ at' = [at EXCEPT ![ev.r] = "run"]
   /\ IF at[ev.r] = "fence"
      THEN \E w \in DOMAIN W : W[w].in[ev.r] /\ FenceMayReturn(W[w], np, ev.r) /\ W' = [W EXCEPT ![w] = FenceOut(@, np, ev.r)]
      ELSE UNCHANGED W
   /\ UNCHANGED <<np, order, idx, live, mem, cur, fil, wk, cand>>

Get(ev) ==
   /\ KnownW(ev.w) /\ at[ev.r] = "run"
   /\ W[ev.w].st[ev.r] = 1
   /\ (C02 => GetOk(W[ev.w], np, ev.r, ev.t, ev.d, ev.n))
   /\ W' = IF GetOk(W[ev.w], np, ev.r, ev.t, ev.d, ev.n) THEN [W EXCEPT ![ev.w] = GetIn(@, ev.r, ev.t, ev.d, ev.n)] ELSE W
   /\ UNCHANGED <<np, order, idx, at, live, mem, cur, fil, wk, cand>>
ExecE(ev) ==
   /\ KnownW(ev.w)
   /\ \E g \in W[ev.w].gets :
        /\ g.o = ev.r /\ g.t = ev.t /\ g.lo = ev.d /\ g.hi = ev.d + ev.n
        /\ MayExec(W[ev.w], g)
        /\ \A h \in W[ev.w].gets : (h.o = ev.r /\ h.t = ev.t /\ h.lo = ev.d /\ h.hi = ev.d + ev.n /\ h.id \notin W[ev.w].done) => h.id >= g.id
        /\ W' = [W EXCEPT ![ev.w] = Exec(@, g)]
   /\ UNCHANGED <<np, order, idx, at, live, mem, cur, fil, wk, cand>>
Store(ev) ==
   /\ KnownW(ev.w)
   /\ (C02 => StoreOk(W[ev.w], ev.r, ev.lo, ev.hi))
   /\ W' = [W EXCEPT ![ev.w] = StoreIn(@, ev.r, ev.lo, ev.hi)]
   /\ UNCHANGED <<np, order, idx, at, live, mem, cur, fil, wk, cand>>

-------------------------------------------------------------------------------
(* the life of filters, and what their windows hold                          *)
\* filter k of this world: announced before any rank makes it
FilE(ev) == /\ fil' = [x \in DOMAIN fil \cup {ev.k} |-> IF x = ev.k THEN [st |-> ev.st, nd |-> ev.nd, F |-> [r \in R |-> << >>]] ELSE fil[x]]
            /\ UNCHANGED <<np, W, order, idx, at, live, mem, cur, wk, cand>>
Begin(ev) == /\ cur' = [cur EXCEPT ![ev.r] = ev.k] /\ UNCHANGED <<np, W, order, idx, at, live, mem, fil, wk, cand>>
\* after its destruction nothing of a filter is left
Del(ev) == /\ (C16 => (~ \E m \in mem[ev.r] : m.k = ev.k) /\ OwnW(ev.k, ev.r) = {})
           /\ UNCHANGED vars
\* the input of filter k on rank r: lo corner and hi corner (exclusive) of its box, values in row-major order of the box
Fld(ev) == /\ fil' = IF C16 THEN [fil EXCEPT ![ev.k].F[ev.r] = [d |-> ev.d, v |-> ev.v]] ELSE fil
           /\ UNCHANGED <<np, W, order, idx, at, live, mem, cur, wk, cand>>

\* cells of a box of dimensions d within reach m of its side <<j, s>>
Border(d, j, s, m) ==
   {i \in 1..Prod(d) : LET x == Unflatten(d, i - 1, TRUE)[j] IN IF s < 0 THEN x < m ELSE x >= d[j] - m}
RECURSIVE CountIn(_, _, _)
CountIn(v, x, k) == IF k = 0 THEN 0 ELSE (IF v[k] = x THEN 1 ELSE 0) + CountIn(v, x, k - 1)
Holds(f, r, s, v) ==
   LET B == Border(f.F[r].d, s[1], s[2], Reach(f.st, s[1], s[2])) IN
   /\ Len(v) = Cardinality(B)
   /\ \A i \in B : LET x == f.F[r].v[i] IN CountIn(v, x, Len(v)) = Cardinality({j \in B : f.F[r].v[j] = x})
Distinct(S, c) == \A T \in SUBSET S : Cardinality(UNION {c[w] : w \in T}) >= Cardinality(T)    \* Hall's condition
\* the exposed values are those of exactly the border cells of one side, a different one for each window
Expose(ev) ==
   IF ~C16 \/ ~KnownW(ev.w) \/ ~(wk[ev.w] \in DOMAIN fil) THEN UNCHANGED vars
   ELSE LET k == wk[ev.w]
            f == fil[k]
            cov == f.F[ev.r] # << >> /\ Axial(f.st) /\ \A j \in 1..f.nd : MaxReach(f.st, j) <= f.F[ev.r].d[j]
            c == IF cov THEN {s \in cand[ev.w] : Holds(f, ev.r, s, ev.v)} ELSE cand[ev.w]
        IN  /\ cand' = [cand EXCEPT ![ev.w] = c]
            /\ (cov => (c # {} /\ (c # cand[ev.w] => Distinct(OwnW(k, ev.r), cand'))))
            /\ UNCHANGED <<np, W, order, idx, at, live, mem, cur, fil, wk>>

Step(ev) == \/ ev.e = "init" /\ InitE(ev)
            \/ ev.e = "finalize" /\ Finalize(ev)
            \/ ev.e = "alloc" /\ Alloc(ev)
            \/ ev.e = "free" /\ FreeE(ev)
            \/ ev.e \in {"create", "allocate"} /\ Create(ev)
            \/ ev.e = "wfree" /\ WFree(ev)
            \/ ev.e = "fence" /\ Fence(ev)
            \/ ev.e \in {"barrier", "reduce", "allreduce", "bcast", "gather", "gatherv", "allgather", "dup"} /\ Other(ev)
            \/ ev.e = "ret" /\ Ret(ev)
            \/ ev.e \in {"get", "put"} /\ Get(ev)
            \/ ev.e = "exec" /\ ExecE(ev)
            \/ ev.e = "store" /\ Store(ev)
            \/ ev.e = "fil" /\ FilE(ev)
            \/ ev.e = "begin" /\ Begin(ev)
            \/ ev.e = "del" /\ Del(ev)
            \/ ev.e = "fld" /\ Fld(ev)
            \/ ev.e = "expose" /\ Expose(ev)
            \/ ev.e = "exit" /\ ~live[ev.r] /\ UNCHANGED vars

Start(n) == /\ np' = n /\ W' = << >> /\ order' = << >> /\ idx' = [r \in Ranks(n) |-> 0] /\ at' = [r \in Ranks(n) |-> "run"]
            /\ live' = [r \in Ranks(n) |-> FALSE] /\ mem' = [r \in Ranks(n) |-> {}] /\ cur' = [r \in Ranks(n) |-> 0]
            /\ fil' = << >> /\ wk' = << >> /\ cand' = << >>
Init == /\ TInit /\ np = 1 /\ W = << >> /\ order = << >> /\ idx = [r \in {0} |-> 0] /\ at = [r \in {0} |-> "run"]
        /\ live = [r \in {0} |-> FALSE] /\ mem = [r \in {0} |-> {}] /\ cur = [r \in {0} |-> 0]
        /\ fil = << >> /\ wk = << >> /\ cand = << >>
TNext ==
   /\ More /\ l' = l + 1
   /\ IF Ev.e = "start" THEN skip' = FALSE /\ Start(Ev.np)
      ELSE IF skip THEN skip' = TRUE /\ UNCHANGED vars
      ELSE IF ENABLED Step(Ev) THEN Step(Ev) /\ skip' = FALSE
      ELSE Reject(Ev.e) /\ skip' = TRUE /\ UNCHANGED vars
Spec == Init /\ [][TNext]_<<tvars, vars>>
=============================================================================
