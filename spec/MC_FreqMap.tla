---- MODULE MC_FreqMap ----
EXTENDS FreqMap, TLC, Json, FiniteSets
CONSTANTS Rates, Sizes, Centers
SomeBins(b) == {k \in {0, 1, 2, 3, (b \div 2) - 1, b \div 2, (b \div 2) + 1, b - 2, b - 1} : k >= 0 /\ k < b}
Offsets(s) == {-s, -(s \div 2) - 1, -(s \div 2), -(s \div 3), -1, 0, 1, s \div 5, (s \div 2) - 1, s \div 2, (s \div 2) + 1, s}
Inputs == IF bs = 0 THEN {[op |-> "new", sr |-> s, bs |-> b, c |-> c] : s \in Rates, b \in Sizes, c \in Centers}
          ELSE {[op |-> "bin", b |-> k, loc |-> l] : k \in SomeBins(bs), l \in {-1, 0, 1}}
          \cup {[op |-> "freq", f |-> center + o] : o \in Offsets(sr)}
          \cup {[op |-> "freq", f |-> BinFreq(sr, bs, center, k, l)] : k \in SomeBins(bs), l \in {-1, 0, 1}}
          \cup {[op |-> "center", c |-> c] : c \in Centers}
MCNext == \E in \in Inputs : Do(in)
View == <<sr, bs, center>>
Emit == PrintT("EDGE " \o ToJson([s |-> View, i |-> act'.in, o |-> act'.out, t |-> View']))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(View))
\* ---- the property ----
Set == bs > 0
RoundTrip == (Set /\ sr > 2 * bs) => \A k \in 0..bs-1 :
                FreqBins(sr, bs, center, BinFreq(sr, bs, center, k, 0)) = {k}
Middle == (Set /\ bs % 2 = 0) => BinFreq(sr, bs, center, bs \div 2, 0) = center
Spacing == Set => \A k \in 0..bs-2 :   \* one bin width apart, up to the rounding to whole Hertz
             LET d == BinFreq(sr, bs, center, k + 1, 0) - BinFreq(sr, bs, center, k, 0) IN
             bs * (d - 1) < sr /\ sr < bs * (d + 1)
Monotone == Set => \A k \in 0..bs-1 : BinFreq(sr, bs, center, k, -1) <= BinFreq(sr, bs, center, k, 0)
                                      /\ BinFreq(sr, bs, center, k, 0) <= BinFreq(sr, bs, center, k, 1)
Clamped == Set => FreqBins(sr, bs, center, center - 2 * sr) = {0} /\ FreqBins(sr, bs, center, center + 2 * sr) = {bs - 1}
Nearest == Set => \A o \in Offsets(sr) : FreqBins(sr, bs, center, center + o) # {}
====
