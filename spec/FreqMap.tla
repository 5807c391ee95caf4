------------------------------- MODULE FreqMap -------------------------------
(* The mapping between spectrum bins and frequencies (dsp.FrequencyMapping).  *)
(* Exact rational arithmetic; frequencies are whole Hertz.                    *)
EXTENDS Integers, Sequences

VARIABLES sr, bs, center, act
vars == <<sr, bs, center, act>>

Trunc(a, d) == IF a >= 0 THEN a \div d ELSE -((-a) \div d)
Abs(a) == IF a < 0 THEN -a ELSE a
From(s, c) == c - (s \div 2)

\* frequency of a bin: loc is -1 for the lower edge, 0 for the middle, 1 for the upper edge.
\* If the exact value is a whole number, floating point may end just below it.
BinFreqs(s, b, c, bin, loc) ==
  LET num == s * (2 * bin + loc)
      t == Trunc(num, 2 * b)
  IN {From(s, c) + t} \cup (IF t * 2 * b = num /\ t > 0 THEN {From(s, c) + t - 1} ELSE {})
                      \cup (IF t * 2 * b = num /\ t < 0 THEN {From(s, c) + t + 1} ELSE {})
BinFreq(s, b, c, bin, loc) == From(s, c) + Trunc(s * (2 * bin + loc), 2 * b)

\* the bins that contain a frequency: it is within half a bin of their middle (two bins on a tie)
FreqBins(s, b, c, f) ==
  LET d == f - From(s, c) IN
  IF d <= 0 THEN {0} ELSE IF d >= s THEN {b - 1}
  ELSE LET q == (d * b) \div s     \* between the middles of q and q + 1
           near == {k \in {q, q + 1} : 2 * Abs(d * b - k * s) <= s}
       IN {IF k > b - 1 THEN b - 1 ELSE k : k \in near}

Init == /\ sr = 0 /\ bs = 0 /\ center = 0 /\ act = [in |-> [op |-> "init"], out |-> 0]

Do(in) ==
  CASE in.op = "new" -> /\ sr' = in.sr /\ bs' = in.bs /\ center' = in.c
                        /\ act' = [in |-> in, out |-> 0]
    [] in.op = "center" -> /\ center' = in.c /\ UNCHANGED <<sr, bs>>
                           /\ act' = [in |-> in, out |-> 0]
    [] in.op = "bin" -> /\ UNCHANGED <<sr, bs, center>>
                        /\ \E f \in BinFreqs(sr, bs, center, in.b, in.loc) : act' = [in |-> in, out |-> f]
    [] in.op = "freq" -> /\ UNCHANGED <<sr, bs, center>>
                         /\ \E k \in FreqBins(sr, bs, center, in.f) : act' = [in |-> in, out |-> k]
=============================================================================
