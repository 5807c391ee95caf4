---- MODULE MC_Jitter ----
(* Like MC_Timing, for speeds that are no whole number of ticks per dit: each  *)
(* mark and gap is rounded down or up, in any order. One step joins all         *)
(* thresholds that are possible (intervals per last duration and grain), until there   *)
(* are no new ones.                                                             *)
EXTENDS Decoder, TLC
CONSTANTS PresetDit, Speeds, Shared, Grain     \* Speeds: the durations of a dit in 1/Shared ticks
VARIABLES h, kind, speed                \* h: the hulls of all possible thresholds
Down(x) == (x * speed) \div Shared
UpTo(x) == CeilDiv(x * speed, Shared)
Durations(x) == {Down(x), UpTo(x)}
Key(t) == <<t.last, (t.la + t.lb) \div (2 * Grain), (t.ha + t.hb) \div (4 * Grain)>>
QuickSpeeds == {76, 80, 84, 90, 96, 100, 104, 108, 112}
AllSpeeds == (75..113) \ {85}     \* 16 to 24 words per minute with 93.75 ticks per second; at 85 and below 75 some roundings are not understood or not decided
TInit == Init0(PresetDit) /\ h = [x \in {Key(Preset(PresetDit))} |-> Preset(PresetDit)] /\ kind \in {"mark", "gap"} /\ speed \in Speeds
Kinds == IF kind = "mark" THEN {1, 3} ELSE {1, 3, 7}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Hull(S) == [la |-> Min({t.la : t \in S}), lb |-> Max({t.lb : t \in S}), ha |-> Min({t.ha : t \in S}), hb |-> Max({t.hb : t \in S}),
            last |-> (CHOOSE t \in S : TRUE).last]
All == {h[x] : x \in DOMAIN h} \cup UNION {UNION {UNION {Put(t, d, kind = "gap") : d \in Durations(x)} : x \in Kinds} : t \in {h[y] : y \in DOMAIN h}}
TNext == /\ h' = LET a == All IN [x \in {Key(t) : t \in a} |-> Hull({t \in a : Key(t) = x} \cup IF x \in DOMAIN h THEN {h[x]} ELSE {})]
         /\ UNCHANGED <<dec, deb, dit, act, kind, speed>>
View == <<h, kind, speed>>
Understood == \A y \in DOMAIN h : LET t == h[y] IN
  \A x \in Kinds : \A d \in Durations(x) : \A t1 \in Put(t, d, kind = "gap") :
    IF kind = "mark" THEN /\ AtLeast(d * U, 2 * t1.ha, 2 * t1.hb) = {FALSE}
                          /\ AtLeastMean(d, t1) = {x = 3}
    ELSE /\ AtLeast(2 * d * U, 9 * t1.la, 9 * t1.lb) = {x = 7}
         /\ AtLeastMean(d, t1) = {x >= 3}
         /\ \A lim \in Limits(t1) : lim > UpTo(7)
====
