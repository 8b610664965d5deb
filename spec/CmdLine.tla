------------------------------ MODULE CmdLine -------------------------------
(* Command-line options.  Texts are sequences of character codes.  The       *)
(* declared options are a function from names to [k, v, h]: the kind ("i",   *)
(* "d", "s" or "b"), the current value and the help text.                    *)
EXTENDS Integers, Sequences, FiniteSets

IsDigit(c) == c \in 48..57
\* an argument that must be the name of a declared option
OptionLike(a) == Len(a) >= 2 /\ a[1] = 45 /\ ~IsDigit(a[2]) /\ a[2] # 46

\* -------- the numbers that arguments denote
RECURSIVE DigitsTo(_, _)
DigitsTo(s, k) == IF k = 0 THEN 0 ELSE IF IsDigit(s[k]) THEN DigitsTo(s, k - 1) * 10 + (s[k] - 48) ELSE DigitsTo(s, k - 1)
Negative(s) == Len(s) > 0 /\ s[1] = 45
IntOf(s) == IF Negative(s) THEN -DigitsTo(s, Len(s)) ELSE DigitsTo(s, Len(s))

FirstOf(s, S) == IF \E i \in 1..Len(s) : s[i] \in S
                   THEN CHOOSE i \in 1..Len(s) : s[i] \in S /\ \A j \in 1..(i - 1) : s[j] \notin S
                   ELSE Len(s) + 1
\* a real is [neg, d, x]: plus or minus 0.d1 d2 .. times 10^x, without zeros at either end of d
RECURSIVE DigitSeq(_, _)
DigitSeq(s, k) == IF k = 0 THEN << >> ELSE IF IsDigit(s[k]) THEN Append(DigitSeq(s, k - 1), s[k] - 48) ELSE DigitSeq(s, k - 1)
RECURSIVE TrimEnd(_)
TrimEnd(d) == IF d # << >> /\ d[Len(d)] = 0 THEN TrimEnd(SubSeq(d, 1, Len(d) - 1)) ELSE d
RECURSIVE Lead0(_)
Lead0(d) == IF d # << >> /\ d[1] = 0 THEN 1 + Lead0(Tail(d)) ELSE 0
Real(neg, d, x) ==
   LET k == Lead0(d)
       t == TrimEnd(SubSeq(d, k + 1, Len(d)))
   IN IF t = << >> THEN [neg |-> FALSE, d |-> << >>, x |-> 0] ELSE [neg |-> neg, d |-> t, x |-> x - k]
\* [+-]digits[.digits][e[+-]digits]
RealOf(s) ==
   LET ePos == FirstOf(s, {101, 69})
       mant == SubSeq(s, 1, ePos - 1)
       ex   == IF ePos > Len(s) THEN 0 ELSE IntOf(SubSeq(s, ePos + 1, Len(s)))
       dot  == FirstOf(mant, {46})
       left == Cardinality({i \in 1..Len(mant) : i < dot /\ IsDigit(mant[i])})
   IN Real(Negative(s), DigitSeq(mant, Len(mant)), left + ex)

Decode(kind, s) == IF kind = "i" THEN IntOf(s) ELSE IF kind = "d" THEN RealOf(s) ELSE s

\* -------- parsing
Accepts(opts, args) == \A i \in 1..Len(args) : OptionLike(args[i]) => args[i] \in DOMAIN opts

Occurrences(args, n) == {i \in 1..Len(args) : args[i] = n}
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
Given(opts, args, n) ==
   LET o == opts[n]
       occ == Occurrences(args, n)
       val == {i \in occ : i < Len(args)}
   IN IF o.k = "b" THEN [o EXCEPT !.v = IF Cardinality(occ) % 2 = 1 THEN ~o.v ELSE o.v]
      ELSE IF val = {} THEN o
      ELSE [o EXCEPT !.v = Decode(o.k, args[Last(val) + 1])]

Parsed(opts, args) == IF Accepts(opts, args) THEN [n \in DOMAIN opts |-> Given(opts, args, n)] ELSE opts

\* the lists the property speaks of: every valued option is followed by a
\* value, and no value is the name of an option
RECURSIVE WellFormedFrom(_, _, _)
WellFormedFrom(opts, args, i) ==
   IF i > Len(args) THEN TRUE
   ELSE IF args[i] \in DOMAIN opts /\ opts[args[i]].k # "b"
     THEN i < Len(args) /\ args[i + 1] \notin DOMAIN opts /\ WellFormedFrom(opts, args, i + 2)
   ELSE WellFormedFrom(opts, args, i + 1)
WellFormed(opts, args) == WellFormedFrom(opts, args, 1)

Contains(line, t) == \E k \in 0..(Len(line) - Len(t)) : \A j \in 1..Len(t) : line[k + j] = t[j]
HelpName == <<45, 104>>
=============================================================================
