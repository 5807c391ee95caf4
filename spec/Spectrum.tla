------------------------------ MODULE Spectrum ------------------------------
(* Detection of signals in a spectrum (dsp.FindPeaks, FindNoiseFloor, and the *)
(* section operations of Block and Peak).  A spectrum is a sequence of whole  *)
(* numbers; bin b is element b + 1.                                           *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLE act
vars == <<act>>

Trunc(a, d) == IF a >= 0 THEN a \div d ELSE -((-a) \div d)
At(s, b) == s[b + 1]
LastBin(s) == Len(s) - 1
RECURSIVE SumR(_, _, _)
SumR(s, f, t) == IF f > t THEN 0 ELSE At(s, f) + SumR(s, f + 1, t)
RECURSIVE SqR(_, _, _)
SqR(s, f, t) == IF f > t THEN 0 ELSE At(s, f) * At(s, f) + SqR(s, f + 1, t)

\* ---- peaks: the maximal runs above the threshold ----
Above(s, c, thr, b) == At(s, b) > thr * c
Runs(s, c, thr) ==
  {r \in (0..LastBin(s)) \X (0..LastBin(s)) :
     /\ r[1] <= r[2]
     /\ \A b \in r[1]..r[2] : Above(s, c, thr, b)
     /\ r[1] = 0 \/ ~Above(s, c, thr, r[1] - 1)
     /\ r[2] = LastBin(s) \/ ~Above(s, c, thr, r[2] + 1)}
FirstMax(s, f, t) == CHOOSE b \in f..t : /\ \A x \in f..t : At(s, x) <= At(s, b)
                                         /\ \A x \in f..b-1 : At(s, x) < At(s, b)
\* frequencies with a bin width of w Hertz (an even number) and the lowest frequency lo
EdgeFreq(lo, w, b, half) == lo + Trunc(2 * w * b + w * half, 2)
SignalFreqs(s, lo, w, b) ==
  IF b <= 0 \/ b >= LastBin(s) THEN {lo + w * b}
  ELSE LET y1 == At(s, b - 1) y2 == At(s, b) y3 == At(s, b + 1)   \* the vertex of the parabola through three bins
           d == 2 * (2 * y2 - y1 - y3)
           num == w * (d * b + (y3 - y1))
           t == Trunc(num, d)
       IN IF t * d = num THEN {lo + t, lo + t - 1, lo + t + 1} ELSE {lo + t}
PeakChoices(s, c, lo, w, r) ==
  LET b == FirstMax(s, r[1], r[2]) IN
  {<<r[1], r[2], EdgeFreq(lo, w, r[1], -1), EdgeFreq(lo, w, r[2], 1), f, At(s, b), b>> : f \in SignalFreqs(s, lo, w, b)}
RECURSIVE Ascending(_)
Ascending(rs) == IF rs = {} THEN <<>>
                 ELSE LET m == CHOOSE r \in rs : \A x \in rs : r[1] <= x[1] IN <<m>> \o Ascending(rs \ {m})
RECURSIVE Choices(_, _, _, _, _)
Choices(s, c, lo, w, rs) ==
  IF rs = <<>> THEN {<<>>}
  ELSE {<<p>> \o q : p \in PeakChoices(s, c, lo, w, Head(rs)), q \in Choices(s, c, lo, w, Tail(rs))}
Peaks(in) == Choices(in.s, in.c, in.lo, in.w, Ascending(Runs(in.s, in.c, in.thr)))

\* ---- noise floor: the quietest of the sections of a tenth of the width between the edges ----
Width(in) == (Len(in.s) - 2 * in.edge) \div 10
Sections(in) == LET w == Width(in) IN {<<in.edge + k * w, in.edge + (k + 1) * w - 1>> :
                   k \in 0..((Len(in.s) - 2 * in.edge) \div w) - 1}
NoiseFloors(in) ==
  LET w == Width(in)
      sec == Sections(in)
      quiet == {r \in sec : \A x \in sec : SumR(in.s, r[1], r[2]) <= SumR(in.s, x[1], x[2])}
  IN {<<SumR(in.s, r[1], r[2]), w * SqR(in.s, r[1], r[2]) - SumR(in.s, r[1], r[2]) * SumR(in.s, r[1], r[2])>> : r \in quiet}

Results(in) ==
  CASE in.op = "peaks" -> Peaks(in)
    [] in.op = "noise" -> {<<x>> : x \in NoiseFloors(in)}
    [] in.op = "sum" -> {<< <<SumR(in.s, in.f, in.t)>> >>}
    [] in.op = "mean" -> {<< <<SumR(in.s, in.f, in.t)>> >>}     \* times the number of bins
    [] in.op = "max" -> LET b == FirstMax(in.s, in.f, in.t) IN {<< <<At(in.s, b), b>> >>}
    [] in.op = "sub" -> { SubSeq(in.s, in.f + 1, in.t + 1) }
    [] in.op = "contains" -> {<< <<IF in.f <= in.b /\ in.b <= in.t THEN 1 ELSE 0>> >>}
    [] in.op = "geometry" -> {<< <<in.t - in.f + 1, in.f + (in.t - in.f) \div 2,       \* width and middle in bins and Hertz
                                   in.tf - in.ff, in.ff + (in.tf - in.ff) \div 2>> >>}

Init == act = [in |-> [op |-> "init"], out |-> <<>>]
Do(in) == \E r \in Results(in) : act' = [in |-> in, out |-> r]
=============================================================================
