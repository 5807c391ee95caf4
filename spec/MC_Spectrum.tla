---- MODULE MC_Spectrum ----
EXTENDS Spectrum, TLC, Json
CONSTANTS Len1, Vals1, Thr1, NoiseVals
Spectra == UNION {[1..k -> Vals1] : k \in Len1}
NoiseSpectra == {[i \in 1..12 |-> IF i \in q THEN 1 ELSE IF i \in h THEN 7 ELSE 3] : q \in {{}, {1}, {2}, {3}, {6}, {10}, {11}, {12}}, h \in {{}, {1, 12}, {4, 5, 6}}}
SecOps == {[op |-> o, s |-> s, f |-> f, t |-> t] : o \in {"sum", "mean", "max", "sub"}, s \in [1..4 -> {-5, -1, 3}], f \in 0..3, t \in 0..3}
Inputs == [op : {"peaks"}, s : Spectra, c : {1}, thr : Thr1, lo : {7000000}, w : {100}]
     \cup [op : {"noise"}, s : NoiseSpectra, edge : {0, 1}]
     \cup {x \in SecOps : x.f <= x.t}
     \cup {x \in [op : {"contains"}, f : 0..3, t : 0..3, b : -1..4] : x.f <= x.t}
     \cup {x \in [op : {"geometry"}, f : 0..3, t : 0..3, ff : {7000, 7001}, tf : {7100, 7150, 7151}] : x.f <= x.t}
MCNext == \E in \in Inputs : Do(in)
View == <<Len(act.out) * 0>>
Emit == PrintT("EDGE " \o ToJson([s |-> 0, i |-> act'.in, o |-> act'.out, t |-> 0]))
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT 0")
\* ---- the property, checked on every result ----
P == act'.in.op = "peaks"
S == act'.in.s
IsAbove(b) == At(S, b) > act'.in.thr * act'.in.c
Complete == [][P => \A b \in 0..LastBin(S) :     \* each bin above the threshold is in exactly one peak, the others in none
               Cardinality({i \in DOMAIN act'.out : act'.out[i][1] <= b /\ b <= act'.out[i][2]}) = IF IsAbove(b) THEN 1 ELSE 0]_vars
Separated == [][P => \A i \in DOMAIN act'.out : i > 1 => act'.out[i][1] > act'.out[i - 1][2] + 1]_vars
SignalInside == [][P => \A i \in DOMAIN act'.out : LET p == act'.out[i] IN
                    /\ p[1] <= p[7] /\ p[7] <= p[2] /\ p[6] = At(S, p[7])
                    /\ \A b \in p[1]..p[2] : At(S, b) <= p[6]]_vars
NearBin == [][P => \A i \in DOMAIN act'.out : LET p == act'.out[i] m == act'.in.lo + act'.in.w * p[7] IN
                    2 * (p[5] - m) <= act'.in.w + 2 /\ 2 * (m - p[5]) <= act'.in.w + 2]_vars
Quietest == [][act'.in.op = "noise" => \A r \in Sections(act'.in) : act'.out[1][1] <= SumR(S, r[1], r[2])]_vars
====
