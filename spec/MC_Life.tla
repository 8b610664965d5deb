------------------------------ MODULE MC_Life -------------------------------
(* Design of the life of distributed filters: which windows and buffers the  *)
(* constructor acquires for a stencil and the destructor releases, over all  *)
(* the histories of a few filters and all interleavings of the ranks.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NR, NF, MaxOff, Mutant
Ranks == 0 .. (NR - 1)
Filters == 1 .. NF
\* the offsets of a one-dimensional stencil, and whether the grid can be divided
Stencils == SUBSET ((-MaxOff)..MaxOff)

VARIABLES st, ok,     \* filter -> stencil, feasibility (the same on all ranks)
          todo,       \* rank -> calls still to make
          life,       \* rank -> filter -> "unborn", "alive", "dead"
          mem, win,   \* rank -> set of live buffers / windows <<filter, key, ..>>
          order, idx, hist, bad
vars == <<st, ok, todo, life, mem, win, order, idx, hist, bad>>

SideOf(o) == IF o > 0 THEN -1 ELSE 1
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SeqOf(S \ {m})
\* what windows are keyed by
Keys(f) == IF ~ok[f] THEN {} ELSE IF Mutant = "peroffset" THEN st[f] \ {0} ELSE {SideOf(o) : o \in st[f] \ {0}}

RECURSIVE Cat(_)
Cat(s) == IF s = << >> THEN << >> ELSE Head(s) \o Cat(Tail(s))
MakeCalls(f) == LET ks == SeqOf(Keys(f)) IN
   Cat([i \in 1..Len(ks) |-> << <<"alloc", f, ks[i], "src">>, <<"alloc", f, ks[i], "dst">>, <<"create", f, ks[i], "src">> >>])
   \o << <<"alive", f, 0, "">> >>
DropCalls(f, r) ==
   LET ks0 == SeqOf(Keys(f))
       ks == IF Mutant = "order" /\ r = 0 THEN [i \in 1..Len(ks0) |-> ks0[Len(ks0) + 1 - i]] ELSE ks0
       one(k) == LET w == <<"wfree", f, k, "">>
                     s == <<"free", f, k, "src">>
                     d == <<"free", f, k, "dst">>
                 IN CASE Mutant = "early" -> <<s, d, w>>
                      [] Mutant = "leak" -> <<w, s>>
                      [] OTHER -> <<w, s, d>>
   IN Cat([i \in 1..Len(ks) |-> one(ks[i])])
      \o (IF Mutant = "noguard" /\ ~ok[f] THEN << <<"free", f, 1, "src">> >> ELSE << >>)
      \o << <<"dead", f, 0, "">> >>

Init ==
   /\ st \in [Filters -> Stencils] /\ ok \in [Filters -> BOOLEAN]
   /\ todo = [r \in Ranks |-> << >>] /\ life = [r \in Ranks |-> [f \in Filters |-> "unborn"]]
   /\ mem = [r \in Ranks |-> {}] /\ win = [r \in Ranks |-> {}]
   /\ order = << >> /\ idx = [r \in Ranks |-> 0] /\ hist = << >> /\ bad = "no"

\* the program makes and destroys filters: all ranks run the same history
Decide ==
   /\ bad = "no"
   /\ \E f \in Filters : \E d \in {"make", "drop"} :
        LET made == <<"make", f>> \in {hist[i] : i \in 1..Len(hist)}
            gone == <<"drop", f>> \in {hist[i] : i \in 1..Len(hist)} IN
        /\ (d = "make" => ~made) /\ (d = "drop" => made /\ ~gone)
        /\ hist' = Append(hist, <<d, f>>)
        /\ todo' = [r \in Ranks |-> todo[r] \o (IF d = "make" THEN MakeCalls(f) ELSE DropCalls(f, r))]
   /\ UNCHANGED <<st, ok, life, mem, win, order, idx, bad>>

Blocked(r) ==
   LET c == todo[r][1] IN c[1] = "in" /\ \E q \in Ranks : idx[q] < idx[r]
Call(r) ==
   /\ bad = "no" /\ todo[r] # << >> /\ ~Blocked(r)
   /\ LET c == todo[r][1]
          b == <<c[2], c[3], c[4]>>
          s == <<c[1], c[2], c[3]>>
          rest == Tail(todo[r])
          coll == c[1] \in {"create", "wfree"}
          mis == coll /\ Len(order) > idx[r] /\ order[idx[r] + 1] # s
      IN
      /\ todo' = [todo EXCEPT ![r] = IF coll THEN << <<"in", 0, 0, "">> >> \o rest ELSE rest]
      /\ order' = IF coll /\ Len(order) = idx[r] THEN Append(order, s) ELSE order
      /\ idx' = IF coll THEN [idx EXCEPT ![r] = @ + 1] ELSE idx
      /\ mem' = CASE c[1] = "alloc" -> [mem EXCEPT ![r] = @ \cup {b}] [] c[1] = "free" -> [mem EXCEPT ![r] = @ \ {b}] [] OTHER -> mem
      /\ win' = CASE c[1] = "create" -> [win EXCEPT ![r] = @ \cup {<<c[2], c[3]>>}] [] c[1] = "wfree" -> [win EXCEPT ![r] = @ \ {<<c[2], c[3]>>}] [] OTHER -> win
      /\ life' = IF c[1] \in {"alive", "dead"} THEN [life EXCEPT ![r][c[2]] = c[1]] ELSE life
      /\ bad' = CASE mis -> "collective calls differ"
                  [] c[1] = "free" /\ b \notin mem[r] -> "released twice or never acquired"
                  [] c[1] = "free" /\ c[4] = "src" /\ <<c[2], c[3]>> \in win[r] -> "buffer released under its window"
                  [] c[1] = "wfree" /\ <<c[2], c[3]>> \notin win[r] -> "window released twice"
                  [] OTHER -> "no"
   /\ UNCHANGED <<st, ok, hist>>
Stop == Len(hist) = 2 * NF /\ (\A r \in Ranks : todo[r] = << >>) /\ UNCHANGED vars
Next == Decide \/ (\E r \in Ranks : Call(r)) \/ Stop
Spec == Init /\ [][Next]_vars

Sound == bad = "no"
\* nothing is left of a destroyed filter
Clean == \A r \in Ranks : \A f \in Filters : life[r][f] = "dead" => (\A m \in mem[r] : m[1] # f) /\ (\A w \in win[r] : w[1] # f)
\* one window per side needed
Sides(f) == IF ok[f] THEN {SideOf(o) : o \in st[f] \ {0}} ELSE {}
PerSide == \A r \in Ranks : \A f \in Filters :
   LET n == Cardinality({w \in win[r] : w[1] = f}) IN n <= Cardinality(Sides(f))
Complete == \A r \in Ranks : \A f \in Filters :
   (life[r][f] = "alive" /\ <<"drop", f>> \notin {hist[i] : i \in 1..Len(hist)}) => Cardinality({w \in win[r] : w[1] = f}) = Cardinality(Sides(f))
=============================================================================
